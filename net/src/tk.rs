//! What the checks of the tokio client share: a listener over TCP, TLS or QUIC, and the client's
//! callbacks as a log.
use async_trait::async_trait;
use flowsdk::mqtt_client::tokio_async_client::TokioMqttEventHandler;
use flowsdk::mqtt_client::{ConnectionResult, MqttClientError, PingResult, PublishResult, SubscribeResult, UnsubscribeResult};
use kit::*;
use refmqtt::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

pub trait Duplex: AsyncRead + AsyncWrite + Unpin + Send {}
impl<T: AsyncRead + AsyncWrite + Unpin + Send> Duplex for T {}

/// One callback.
#[derive(Clone, Debug, PartialEq)]
pub enum Cb {
    Connected(u8, bool),
    Disconnected(Option<u8>),
    Published(u16, u8),
    Subscribed(u16, Vec<u8>),
    Unsubscribed(u16, Vec<u8>),
    /// topic, payload, qos, retain
    Message(String, Vec<u8>, u8, bool),
    Pong(bool),
    Error(String),
    Lost,
    Attempt(u32),
    Other,
}

#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<Vec<(std::time::Instant, Cb)>>>);

impl Default for Cb {
    fn default() -> Self {
        Cb::Other
    }
}

impl Log {
    pub fn push(&self, c: Cb) {
        self.0.lock().unwrap().push((std::time::Instant::now(), c));
    }
    pub fn count(&self, f: impl Fn(&Cb) -> bool) -> usize {
        self.0.lock().unwrap().iter().filter(|x| f(&x.1)).count()
    }
    pub fn all(&self) -> Vec<Cb> {
        self.0.lock().unwrap().iter().map(|x| x.1.clone()).collect()
    }
}

pub struct H {
    pub log: Log,
    /// how long a message keeps the handler busy, in microseconds
    pub busy: u64,
    /// and how long the first one it gets does, in milliseconds
    pub stall: u64,
    pub rng: Rng,
}

#[async_trait]
impl TokioMqttEventHandler for H {
    async fn on_connected(&mut self, r: &ConnectionResult) {
        self.log.push(Cb::Connected(r.reason_code, r.session_present));
    }
    async fn on_disconnected(&mut self, reason: Option<u8>) {
        self.log.push(Cb::Disconnected(reason));
    }
    async fn on_published(&mut self, r: &PublishResult) {
        self.log.push(Cb::Published(r.packet_id.unwrap_or(0), r.reason_code.unwrap_or(0)));
    }
    async fn on_subscribed(&mut self, r: &SubscribeResult) {
        self.log.push(Cb::Subscribed(r.packet_id, r.reason_codes.clone()));
    }
    async fn on_unsubscribed(&mut self, r: &UnsubscribeResult) {
        self.log.push(Cb::Unsubscribed(r.packet_id, r.reason_codes.clone()));
    }
    async fn on_message_received(&mut self, m: &flowsdk::mqtt_client::engine::MqttMessage) {
        if self.busy > 0 && self.rng.chance(1, 3) {
            tokio::time::sleep(Duration::from_micros(self.rng.below(self.busy as usize) as u64)).await;
        }
        if self.stall > 0 {
            tokio::time::sleep(Duration::from_millis(std::mem::take(&mut self.stall))).await;
        }
        // recorded when the handler is through with it
        self.log.push(Cb::Message(m.topic_name.clone(), m.payload.clone(), m.qos, m.retain));
    }
    async fn on_ping_response(&mut self, r: &PingResult) {
        self.log.push(Cb::Pong(r.success));
    }
    async fn on_error(&mut self, e: &MqttClientError) {
        self.log.push(Cb::Error(format!("{e:?}")));
    }
    async fn on_connection_lost(&mut self) {
        self.log.push(Cb::Lost);
    }
    async fn on_reconnect_attempt(&mut self, n: u32) {
        self.log.push(Cb::Attempt(n));
    }
}

/// A connection as the broker sees it.
pub struct Peer {
    pub sock: Box<dyn Duplex>,
    pub v5: bool,
    buf: Vec<u8>,
    pub received: usize,
}

impl Peer {
    pub fn new(s: Box<dyn Duplex>, v5: bool) -> Peer {
        Peer { sock: s, v5, buf: vec![], received: 0 }
    }
    /// The packets that have arrived (at least one read); None at the end. Cancel safe.
    pub async fn recv(&mut self) -> Result<Option<Vec<Pkt>>, String> {
        let n = match self.sock.read_buf(&mut self.buf).await {
            Ok(n) => n,
            Err(_) => 0,
        };
        if n == 0 {
            return Ok(None);
        }
        self.received += n;
        self.parse().map(Some)
    }
    fn parse(&mut self) -> Result<Vec<Pkt>, String> {
        match decode_all(&self.buf, self.v5) {
            Ok((v, used)) => {
                self.buf.drain(..used);
                Ok(v)
            }
            Err(e) => Err(format!("the client sent no MQTT: {e:?} in {}", hex(&self.buf[..self.buf.len().min(60)]))),
        }
    }
    pub async fn send(&mut self, p: &Pkt) -> bool {
        self.write(&encode(p)).await
    }
    pub async fn write(&mut self, b: &[u8]) -> bool {
        self.sock.write_all(b).await.is_ok() && self.sock.flush().await.is_ok()
    }
}

pub async fn listen() -> (TcpListener, String) {
    let l = TcpListener::bind("127.0.0.1:0").await.expect("a port on loopback");
    let a = l.local_addr().unwrap().to_string();
    (l, a)
}

pub fn tcp(s: TcpStream) -> Box<dyn Duplex> {
    let _ = s.set_nodelay(true);
    Box::new(s)
}

/// Runs a case on a runtime of its own, single- or multi-threaded.
pub fn block<F: std::future::Future<Output = Verdict>>(r: &mut Rng, limit_s: u64, f: F) -> Verdict {
    let rt = if r.bool() {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()
    };
    let v = rt.block_on(async {
        match tokio::time::timeout(Duration::from_secs(limit_s), f).await {
            Ok(v) => v,
            Err(_) => fail("hang", format!("not over after {limit_s} s")),
        }
    });
    rt.shutdown_timeout(Duration::from_millis(500));
    v
}
