//! A simulated UDP path between the QUIC client engine and an in-process QUIC server, with an
//! application on the server that only keeps byte logs per stream.
use flowsdk::mqtt_client::{MqttClientOptions, MqttEvent, QuicMqttEngine};
use kit::*;
use quinn_proto as q;
use std::collections::{BTreeMap, VecDeque};
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const CERT: &[u8] = include_bytes!("../certs/cert.der");
pub const KEY: &[u8] = include_bytes!("../certs/key.der");

pub fn provider() -> Arc<rustls::crypto::CryptoProvider> {
    Arc::new(rustls::crypto::ring::default_provider())
}

/// Accepts any certificate: what is monitored here is not certificate checking.
#[derive(Debug)]
pub struct NoVerify;
impl rustls::client::danger::ServerCertVerifier for NoVerify {
    fn verify_server_cert(
        &self,
        _: &rustls::pki_types::CertificateDer<'_>,
        _: &[rustls::pki_types::CertificateDer<'_>],
        _: &rustls::pki_types::ServerName<'_>,
        _: &[u8],
        _: rustls::pki_types::UnixTime,
    ) -> Result<rustls::client::danger::ServerCertVerified, rustls::Error> {
        Ok(rustls::client::danger::ServerCertVerified::assertion())
    }
    fn verify_tls12_signature(
        &self,
        _: &[u8],
        _: &rustls::pki_types::CertificateDer<'_>,
        _: &rustls::DigitallySignedStruct,
    ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn verify_tls13_signature(
        &self,
        _: &[u8],
        _: &rustls::pki_types::CertificateDer<'_>,
        _: &rustls::DigitallySignedStruct,
    ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        provider().signature_verification_algorithms.supported_schemes()
    }
}

pub fn client_tls() -> rustls::ClientConfig {
    rustls::ClientConfig::builder_with_provider(provider())
        .with_protocol_versions(&[&rustls::version::TLS13])
        .unwrap()
        .dangerous()
        .with_custom_certificate_verifier(Arc::new(NoVerify))
        .with_no_client_auth()
}

pub fn server_tls(alpn: bool) -> rustls::ServerConfig {
    let mut c = rustls::ServerConfig::builder_with_provider(provider())
        .with_protocol_versions(&[&rustls::version::TLS13])
        .unwrap()
        .with_no_client_auth()
        .with_single_cert(
            vec![rustls::pki_types::CertificateDer::from(CERT.to_vec())],
            rustls::pki_types::PrivateKeyDer::Pkcs8(rustls::pki_types::PrivatePkcs8KeyDer::from(KEY.to_vec())),
        )
        .unwrap();
    if alpn {
        c.alpn_protocols = vec![b"mqtt".to_vec()];
    }
    c
}

#[derive(Clone, Debug)]
pub struct NetCfg {
    pub loss: usize, // per mille
    pub dup: usize,
    pub delay_ms: u64,
    pub jitter_ms: u64,
    pub stream_window: u64,
    pub conn_window: u64,
    pub max_bidi: u64,
    pub idle_ms: u64,
    pub early: bool,
}

impl Default for NetCfg {
    fn default() -> Self {
        NetCfg { loss: 0, dup: 0, delay_ms: 2, jitter_ms: 0, stream_window: 100_000, conn_window: 1_000_000, max_bidi: 100, idle_ms: 120_000, early: true }
    }
}

impl NetCfg {
    pub fn random(r: &mut Rng) -> NetCfg {
        NetCfg {
            loss: *r.pick(&[0, 0, 10, 50, 150]),
            dup: *r.pick(&[0, 0, 30, 200]),
            delay_ms: *r.pick(&[0, 1, 5, 20]),
            jitter_ms: *r.pick(&[0, 0, 3, 15]),
            stream_window: *r.pick(&[40, 200, 1500, 100_000, 100_000]),
            conn_window: *r.pick(&[300, 2000, 1_000_000, 1_000_000]),
            max_bidi: *r.pick(&[4, 12, 100, 100]),
            idle_ms: 120_000,
            early: true,
        }
    }
    pub fn quic_server(&self, tls: rustls::ServerConfig) -> Arc<q::ServerConfig> {
        let mut tls = tls;
        tls.max_early_data_size = if self.early { u32::MAX } else { 0 };
        let mut sc = q::ServerConfig::with_crypto(Arc::new(q::crypto::rustls::QuicServerConfig::try_from(tls).unwrap()));
        let mut t = q::TransportConfig::default();
        t.stream_receive_window(q::VarInt::from_u64(self.stream_window).unwrap());
        t.receive_window(q::VarInt::from_u64(self.conn_window).unwrap());
        t.max_concurrent_bidi_streams(q::VarInt::from_u64(self.max_bidi).unwrap());
        t.max_idle_timeout(Some(Duration::from_millis(self.idle_ms).try_into().unwrap()));
        sc.transport_config(Arc::new(t));
        Arc::new(sc)
    }
}

pub struct SStream {
    pub id: q::StreamId,
    pub rx: Vec<u8>,
    pub rx_fin: bool,
    pub rx_reset: Option<u64>,
    /// STOP_SENDING received from the client
    pub stopped: Option<u64>,
    pub tx: VecDeque<u8>,
    /// how many bytes of tx may be handed to QUIC in each step
    pub tx_rate: usize,
    pub want_fin: bool,
    pub finned: bool,
    /// the server's own RESET / STOP_SENDING
    pub reset_sent: Option<u64>,
    pub stop_sent: Option<u64>,
    pub paused: bool,
    pub tx_total: usize,
}

pub struct SConn {
    pub conn: q::Connection,
    pub streams: BTreeMap<u64, SStream>,
    pub connected: bool,
    pub lost: Option<String>,
    /// application close code and reason the client sent
    pub app_close: Option<(u64, Vec<u8>)>,
    pub drained: bool,
    pub idx: usize,
    /// the streams in the order the server saw them
    pub opened: Vec<u64>,
    pub early_opened: usize,
}

type InFlight = Vec<(Instant, u64, Vec<u8>)>;

pub struct Net {
    pub cl: QuicMqttEngine,
    pub ep: q::Endpoint,
    pub conns: BTreeMap<usize, SConn>, // by handle
    pub by_order: Vec<usize>,          // handles in order of acceptance; the current is the last
    pub done: Vec<SConn>,
    pub now: Instant,
    pub cfg: NetCfg,
    to_s: Vec<(Instant, u64, Vec<u8>)>,
    to_c: Vec<(Instant, u64, Vec<u8>)>,
    seq: u64,
    pub addr: SocketAddr,
    pub caddr: SocketAddr,
    pub evs: Vec<MqttEvent>,
    pub dgrams: u64,
    pub dropped: u64,
    /// datagrams of the client large enough for a stateless reset in reply
    pub large: u64,
    pub blackhole_to_s: bool,
    pub blackhole_to_c: bool,
    pub rng: Rng,
    pub accepted: usize,
    pub refuse: bool,
    epc: q::EndpointConfig,
    /// connections accepted before this count belong to an earlier life of the client
    pub floor: usize,
}

pub fn ep_config(r: &mut Rng) -> q::EndpointConfig {
    // the server's reset key stays the same, so that a restarted server can send stateless resets
    let mut c = q::EndpointConfig::default();
    let mut s = [0u8; 32];
    s.copy_from_slice(&r.bytes(32));
    c.rng_seed(Some(s));
    c.cid_generator(|| Box::new(q::RandomConnectionIdGenerator::new(8)));
    c
}

impl Net {
    pub fn new(opts: MqttClientOptions, cfg: NetCfg, mut rng: Rng) -> Net {
        let sc = cfg.quic_server(server_tls(true));
        let epc = ep_config(&mut rng);
        let ep = q::Endpoint::new(Arc::new(epc.clone()), Some(sc), true, None);
        Net {
            cl: QuicMqttEngine::new(opts).unwrap(),
            ep,
            conns: BTreeMap::new(),
            by_order: Vec::new(),
            done: Vec::new(),
            now: Instant::now(),
            cfg,
            to_s: Vec::new(),
            to_c: Vec::new(),
            seq: 0,
            addr: "127.0.0.1:14567".parse().unwrap(),
            caddr: "127.0.0.1:40000".parse().unwrap(),
            evs: Vec::new(),
            dgrams: 0,
            dropped: 0,
            large: 0,
            blackhole_to_s: false,
            blackhole_to_c: false,
            rng,
            accepted: 0,
            refuse: false,
            epc,
            floor: 0,
        }
    }

    pub fn srv(&mut self) -> Option<&mut SConn> {
        let h = *self.by_order.last()?;
        let floor = self.floor;
        self.conns.get_mut(&h).filter(|c| c.idx >= floor)
    }

    fn post(&mut self, to_server: bool, d: Vec<u8>) {
        self.dgrams += 1;
        self.large += (to_server && d.len() >= 60) as u64;
        let hole = if to_server { self.blackhole_to_s } else { self.blackhole_to_c };
        if hole || self.rng.chance(self.cfg.loss, 1000) {
            self.dropped += 1;
            return;
        }
        let n = if self.rng.chance(self.cfg.dup, 1000) { 2 } else { 1 };
        for _ in 0..n {
            let j = if self.cfg.jitter_ms > 0 { self.rng.below(self.cfg.jitter_ms as usize * 1000) as u64 } else { 0 };
            let at = self.now + Duration::from_millis(self.cfg.delay_ms) + Duration::from_micros(j);
            self.seq += 1;
            let q = if to_server { &mut self.to_s } else { &mut self.to_c };
            q.push((at, self.seq, d.clone()));
        }
    }

    /// Forget every datagram under way.
    pub fn drop_in_flight(&mut self) {
        self.to_s.clear();
        self.to_c.clear();
    }

    pub fn in_flight(&mut self) -> (InFlight, InFlight) {
        (self.to_s.clone(), self.to_c.clone())
    }

    pub fn put_in_flight(&mut self, s: InFlight, c: InFlight) {
        self.to_s = s;
        self.to_c = c;
    }

    fn due(q: &mut Vec<(Instant, u64, Vec<u8>)>, now: Instant) -> Vec<Vec<u8>> {
        let mut d: Vec<_> = Vec::new();
        let mut k = 0;
        while k < q.len() {
            if q[k].0 <= now {
                d.push(q.swap_remove(k));
            } else {
                k += 1;
            }
        }
        d.sort_by_key(|x| (x.0, x.1));
        d.into_iter().map(|x| x.2).collect()
    }

    /// Take what the client engine has produced and put it on the path.
    pub fn flush_client(&mut self) {
        for (to, d) in self.cl.take_outgoing_datagrams() {
            assert_eq!(to, self.addr);
            self.post(true, d);
        }
    }

    pub fn tick_client(&mut self) {
        let e = self.cl.handle_tick(self.now);
        self.evs.extend(e);
        let e = self.cl.take_events();
        self.evs.extend(e);
        self.flush_client();
    }

    fn server_in(&mut self, d: Vec<u8>) {
        let mut buf = Vec::new();
        let (now, ca) = (self.now, self.caddr);
        match self.ep.handle(now, ca, None, None, bytes::BytesMut::from(&d[..]), &mut buf) {
            Some(q::DatagramEvent::NewConnection(inc)) => {
                if self.refuse {
                    let mut b = Vec::new();
                    self.ep.refuse(inc, &mut b);
                    self.post(false, b);
                    return;
                }
                let mut b = Vec::new();
                match self.ep.accept(inc, now, &mut b, None) {
                    Ok((h, conn)) => {
                        let idx = self.accepted;
                        self.accepted += 1;
                        if let Some(old) = self.conns.remove(&h.0) {
                            self.done.push(old);
                        }
                        self.conns.insert(
                            h.0,
                            SConn { conn, streams: BTreeMap::new(), connected: false, lost: None, app_close: None, drained: false, idx, opened: Vec::new(), early_opened: 0 },
                        );
                        self.by_order.push(h.0);
                        if !b.is_empty() {
                            self.post(false, b);
                        }
                    }
                    Err(e) => {
                        if let Some(_t) = e.response {
                            self.post(false, b);
                        }
                    }
                }
            }
            Some(q::DatagramEvent::ConnectionEvent(h, ev)) => {
                if let Some(c) = self.conns.get_mut(&h.0) {
                    c.conn.handle_event(ev);
                }
            }
            Some(q::DatagramEvent::Response(_)) => self.post(false, buf),
            None => {}
        }
    }

    fn server_drive(&mut self) {
        let now = self.now;
        let mut out: Vec<Vec<u8>> = Vec::new();
        for (h, c) in self.conns.iter_mut() {
            c.drive(now);
            loop {
                let mut more = false;
                while let Some(ev) = c.conn.poll_endpoint_events() {
                    more = true;
                    if ev.is_drained() {
                        c.drained = true;
                    }
                    if let Some(e) = self.ep.handle_event(q::ConnectionHandle(*h), ev) {
                        c.conn.handle_event(e);
                    }
                }
                if !more {
                    break;
                }
            }
            let mut buf = Vec::new();
            while c.conn.poll_transmit(now, 1, &mut buf).is_some() {
                out.push(std::mem::take(&mut buf));
            }
        }
        let gone: Vec<usize> = self.conns.iter().filter(|(_, c)| c.drained).map(|(h, _)| *h).collect();
        for h in gone {
            let c = self.conns.remove(&h).unwrap();
            self.by_order.retain(|x| *x != h);
            self.done.push(c);
        }
        for d in out {
            self.post(false, d);
        }
    }

    /// Advance the clock and let everything due happen.
    pub fn step(&mut self, dt: Duration) {
        self.now += dt;
        for d in Self::due(&mut self.to_s, self.now) {
            self.server_in(d);
        }
        self.server_drive();
        let ds = Self::due(&mut self.to_c, self.now);
        // sometimes several datagrams are fed before a tick, sometimes one by one
        let each = self.rng.chance(1, 4);
        for d in ds {
            let a = self.addr;
            self.cl.handle_datagram(d, a, self.now);
            if each {
                self.tick_client();
            }
        }
        self.tick_client();
    }

    pub fn clean_path(&mut self) {
        self.cfg.loss = 0;
        self.cfg.dup = 0;
        self.cfg.jitter_ms = 0;
        self.cfg.delay_ms = self.cfg.delay_ms.min(5);
        self.blackhole_to_c = false;
        self.blackhole_to_s = false;
    }

    /// The server process is replaced by one that knows nothing of its connections, but has kept
    /// its stateless reset key.
    pub fn new_server(&mut self, sc: Arc<q::ServerConfig>) {
        let mut c = self.epc.clone();
        let mut s = [0u8; 32];
        s.copy_from_slice(&self.rng.bytes(32));
        c.rng_seed(Some(s));
        self.ep = q::Endpoint::new(Arc::new(c), Some(sc), true, None);
        self.forget_conns();
    }

    /// The connections are no longer driven.
    pub fn forget_conns(&mut self) {
        let old = std::mem::take(&mut self.conns);
        self.done.extend(old.into_values());
        self.by_order.clear();
    }
}

impl SConn {
    pub fn stream(&mut self, id: u64) -> Option<&mut SStream> {
        self.streams.get_mut(&id)
    }
    fn add(&mut self, id: q::StreamId) -> u64 {
        let k = u64::from(id);
        if !self.streams.contains_key(&k) {
            self.opened.push(k);
            if !self.connected {
                self.early_opened += 1;
            }
        }
        self.streams.entry(k).or_insert(SStream {
            id,
            rx: Vec::new(),
            rx_fin: false,
            rx_reset: None,
            stopped: None,
            tx: VecDeque::new(),
            tx_rate: usize::MAX,
            want_fin: false,
            finned: false,
            reset_sent: None,
            stop_sent: None,
            paused: false,
            tx_total: 0,
        });
        k
    }
    /// Opens a bidirectional stream from the server.
    pub fn open(&mut self) -> Option<u64> {
        let id = self.conn.streams().open(q::Dir::Bi)?;
        Some(self.add(id))
    }
    pub fn send(&mut self, id: u64, b: &[u8]) {
        let s = self.streams.get_mut(&id).unwrap();
        s.tx.extend(b);
        s.tx_total += b.len();
    }
    pub fn reset(&mut self, id: u64, code: u64) {
        let s = self.streams.get_mut(&id).unwrap();
        s.tx.clear();
        s.reset_sent = Some(code);
        let _ = self.conn.send_stream(s.id).reset(q::VarInt::from_u64(code).unwrap());
    }
    pub fn stop(&mut self, id: u64, code: u64) {
        let s = self.streams.get_mut(&id).unwrap();
        s.stop_sent = Some(code);
        let _ = self.conn.recv_stream(s.id).stop(q::VarInt::from_u64(code).unwrap());
    }
    fn drive(&mut self, now: Instant) {
        if self.conn.poll_timeout().is_some_and(|t| t <= now) {
            self.conn.handle_timeout(now);
        }
        while let Some(ev) = self.conn.poll() {
            match ev {
                q::Event::Connected => self.connected = true,
                q::Event::ConnectionLost { reason } => {
                    if let q::ConnectionError::ApplicationClosed(c) = &reason {
                        self.app_close = Some((c.error_code.into(), c.reason.to_vec()));
                    }
                    self.lost = Some(reason.to_string());
                }
                q::Event::Stream(q::StreamEvent::Stopped { id, error_code }) => {
                    let k = self.add(id);
                    let s = self.streams.get_mut(&k).unwrap();
                    s.stopped = Some(error_code.into());
                    // what RFC 9000 asks of the receiver of STOP_SENDING
                    s.tx.clear();
                    if !s.finned && s.reset_sent.is_none() {
                        s.reset_sent = Some(error_code.into());
                        let _ = self.conn.send_stream(id).reset(error_code);
                    }
                }
                _ => {}
            }
        }
        while let Some(id) = self.conn.streams().accept(q::Dir::Bi) {
            self.add(id);
        }
        for s in self.streams.values_mut() {
            if !s.paused && !s.rx_fin && s.rx_reset.is_none() && s.stop_sent.is_none() {
                let mut rs = self.conn.recv_stream(s.id);
                let r = rs.read(true);
                if let Ok(mut ch) = r {
                    loop {
                        match ch.next(4096) {
                            Ok(Some(c)) => s.rx.extend_from_slice(&c.bytes),
                            Ok(None) => {
                                s.rx_fin = true;
                                break;
                            }
                            Err(q::ReadError::Reset(c)) => {
                                s.rx_reset = Some(c.into());
                                break;
                            }
                            Err(_) => break,
                        }
                    }
                    let _ = ch.finalize();
                }
            }
            let mut left = s.tx_rate;
            while !s.tx.is_empty() && left > 0 {
                let (a, _) = s.tx.as_slices();
                let n = a.len().min(left);
                match self.conn.send_stream(s.id).write(&a[..n]) {
                    Ok(w) => {
                        s.tx.drain(..w);
                        left -= w;
                        if w < n {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
            if s.want_fin && !s.finned && s.tx.is_empty() {
                let _ = self.conn.send_stream(s.id).finish();
                s.finned = true;
            }
        }
    }
}
