//! The broker's end of a connection, in memory: plain, TLS or QUIC. Hands out and takes plaintext.
use quinn_proto as q;
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::Instant;

pub const DIR: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/certs/");
pub const ADDR: &str = "127.0.0.1:14567";

pub fn pem_certs(f: &str) -> Vec<rustls::pki_types::CertificateDer<'static>> {
    let b = std::fs::read(format!("{DIR}{f}")).unwrap();
    rustls_pemfile::certs(&mut &b[..]).map(|c| c.unwrap()).collect()
}

pub fn pem_key(f: &str) -> rustls::pki_types::PrivateKeyDer<'static> {
    let b = std::fs::read(format!("{DIR}{f}")).unwrap();
    rustls_pemfile::private_key(&mut &b[..]).unwrap().unwrap()
}

pub fn provider() -> Arc<rustls::crypto::CryptoProvider> {
    Arc::new(rustls::crypto::ring::default_provider())
}

fn server_tls() -> rustls::ServerConfig {
    let mut roots = rustls::RootCertStore::empty();
    for c in pem_certs("ca.pem") {
        roots.add(c).unwrap();
    }
    let v = rustls::server::WebPkiClientVerifier::builder_with_provider(Arc::new(roots), provider()).allow_unauthenticated().build().unwrap();
    let mut c = rustls::ServerConfig::builder_with_provider(provider())
        .with_protocol_versions(&[&rustls::version::TLS13])
        .unwrap()
        .with_client_cert_verifier(v)
        .with_single_cert(pem_certs("leaf.pem"), pem_key("leaf_key.pem"))
        .unwrap();
    c.alpn_protocols = ["mqtt", "mqtt2", "other"].iter().map(|s| s.as_bytes().to_vec()).collect();
    c
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Seen {
    pub alpn: Option<Vec<u8>>,
    pub client_cert: Option<Vec<u8>>,
    pub server_name: Option<String>,
    pub up: bool,
}

pub struct Tls {
    c: rustls::ServerConnection,
    pub dead: bool,
}

impl Tls {
    pub fn new() -> Tls {
        let mut c = rustls::ServerConnection::new(Arc::new(server_tls())).unwrap();
        c.set_buffer_limit(None);
        Tls { c, dead: false }
    }
    /// Ciphertext in; plaintext and ciphertext out.
    pub fn feed(&mut self, mut b: &[u8], rx: &mut Vec<u8>) {
        while !b.is_empty() && !self.dead {
            if self.c.read_tls(&mut b).unwrap_or(0) == 0 {
                break;
            }
            if self.c.process_new_packets().is_err() {
                self.dead = true;
            }
            let mut buf = [0u8; 4096];
            while let Ok(n) = self.c.reader().read(&mut buf) {
                if n == 0 {
                    break;
                }
                rx.extend_from_slice(&buf[..n]);
            }
        }
    }
    pub fn send(&mut self, b: &[u8]) {
        // refuses only on a connection that is already dead
        let _ = self.c.writer().write_all(b);
    }
    pub fn out(&mut self) -> Vec<u8> {
        let mut v = vec![];
        while self.c.wants_write() {
            if self.c.write_tls(&mut v).unwrap_or(0) == 0 {
                break;
            }
        }
        v
    }
    pub fn seen(&self) -> Seen {
        Seen {
            alpn: self.c.alpn_protocol().map(|x| x.to_vec()),
            client_cert: self.c.peer_certificates().and_then(|v| v.first()).map(|c| c.to_vec()),
            server_name: self.c.server_name().map(|s| s.to_string()),
            up: !self.c.is_handshaking() && !self.dead,
        }
    }
}

pub struct Quic {
    ep: q::Endpoint,
    conn: Option<(q::ConnectionHandle, q::Connection)>,
    /// accepted, in the order of their numbers
    streams: Vec<q::StreamId>,
    tx: Vec<VecDeque<u8>>,
    pub out: Vec<Vec<u8>>,
    caddr: SocketAddr,
    pub seen: Seen,
}

impl Quic {
    pub fn new() -> Quic {
        let sc = q::ServerConfig::with_crypto(Arc::new(q::crypto::rustls::QuicServerConfig::try_from({
            let mut t = server_tls();
            t.max_early_data_size = 0;
            t
        })
        .unwrap()));
        Quic {
            ep: q::Endpoint::new(Arc::new(q::EndpointConfig::default()), Some(Arc::new(sc)), true, None),
            conn: None,
            streams: vec![],
            tx: vec![],
            out: vec![],
            caddr: "127.0.0.1:40000".parse().unwrap(),
            seen: Seen::default(),
        }
    }
    pub fn send(&mut self, at: usize, b: &[u8]) {
        if let Some(t) = self.tx.get_mut(at) {
            t.extend(b);
        }
    }
    pub fn feed(&mut self, d: &[u8]) {
        let now = Instant::now();
        let mut buf = vec![];
        match self.ep.handle(now, self.caddr, None, None, bytes::BytesMut::from(d), &mut buf) {
            Some(q::DatagramEvent::NewConnection(inc)) => {
                let mut b = vec![];
                if let Ok(c) = self.ep.accept(inc, now, &mut b, None) {
                    self.conn = Some(c);
                    self.streams.clear();
                    self.tx.clear();
                }
                if !b.is_empty() {
                    self.out.push(b);
                }
            }
            Some(q::DatagramEvent::ConnectionEvent(h, ev)) => {
                if let Some((hh, c)) = &mut self.conn {
                    if *hh == h {
                        c.handle_event(ev);
                    }
                }
            }
            Some(q::DatagramEvent::Response(_)) => self.out.push(buf),
            None => {}
        }
    }
    pub fn reset(&mut self, at: usize, code: u32) {
        if let (Some((_, c)), Some(&id)) = (&mut self.conn, self.streams.get(at)) {
            let _ = c.send_stream(id).reset(code.into());
        }
    }
    pub fn stop(&mut self, at: usize, code: u32) {
        if let (Some((_, c)), Some(&id)) = (&mut self.conn, self.streams.get(at)) {
            let _ = c.recv_stream(id).stop(code.into());
        }
    }
    pub fn finish(&mut self, at: usize) {
        if let (Some((_, c)), Some(&id)) = (&mut self.conn, self.streams.get(at)) {
            let _ = c.send_stream(id).finish();
        }
    }
    pub fn close(&mut self, why: &'static [u8]) {
        if let Some((_, c)) = &mut self.conn {
            c.close(Instant::now(), 5u32.into(), bytes::Bytes::from_static(why));
        }
    }
    pub fn drive(&mut self, rx: &mut Vec<Vec<u8>>) {
        let now = Instant::now();
        let Some((h, c)) = &mut self.conn else { return };
        if c.poll_timeout().is_some_and(|t| t <= now) {
            c.handle_timeout(now);
        }
        while let Some(ev) = c.poll() {
            match ev {
                q::Event::Connected => {
                    let hd = c.crypto_session().handshake_data().and_then(|d| d.downcast::<q::crypto::rustls::HandshakeData>().ok());
                    self.seen = Seen {
                        alpn: hd.as_ref().and_then(|d| d.protocol.clone()),
                        server_name: hd.as_ref().and_then(|d| d.server_name.clone()),
                        client_cert: c
                            .crypto_session()
                            .peer_identity()
                            .and_then(|d| d.downcast::<Vec<rustls::pki_types::CertificateDer>>().ok())
                            .and_then(|v| v.first().map(|c| c.to_vec())),
                        up: true,
                    };
                }
                q::Event::ConnectionLost { .. } => self.seen.up = false,
                _ => {}
            }
        }
        while let Some(id) = c.streams().accept(q::Dir::Bi) {
            self.streams.push(id);
            self.tx.push(VecDeque::new());
        }
        if rx.len() < self.streams.len() {
            rx.resize(self.streams.len(), vec![]);
        }
        for (k, &id) in self.streams.iter().enumerate() {
            let mut rs = c.recv_stream(id);
            if let Ok(mut ch) = rs.read(true) {
                while let Ok(Some(x)) = ch.next(usize::MAX) {
                    rx[k].extend_from_slice(&x.bytes);
                }
                let _ = ch.finalize();
            };
            let tx = &mut self.tx[k];
            while !tx.is_empty() {
                let (a, _) = tx.as_slices();
                let n = c.send_stream(id).write(a).unwrap_or(0);
                if n == 0 {
                    break;
                }
                tx.drain(..n);
            }
        }
        while let Some(ev) = c.poll_endpoint_events() {
            if let Some(e) = self.ep.handle_event(*h, ev) {
                c.handle_event(e);
            }
        }
        let mut buf = vec![];
        while c.poll_transmit(now, 1, &mut buf).is_some() {
            self.out.push(std::mem::take(&mut buf));
        }
    }
}
