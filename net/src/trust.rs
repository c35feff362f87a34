//! C41: the async client talks MQTT with exactly those servers its TLS and QUIC settings allow, and
//! shows the client certificate it was given.
use crate::sync::on_rt;
use crate::tk::*;
use flowsdk::mqtt_client::tokio_async_client::{TokioAsyncClientConfig, TokioAsyncMqttClient};
use flowsdk::mqtt_client::transport::rustls_tls::RustlsTlsConfig;
use flowsdk::mqtt_client::transport::tls::TlsConfig;
use flowsdk::mqtt_client::MqttClientOptions;
use kit::*;
use refmqtt::*;
use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use std::io::{Read, Seek};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const DIR: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/certs/auth/");
pub fn path(f: &str) -> String {
    format!("{DIR}{f}")
}
pub fn pem(f: &str) -> String {
    std::fs::read_to_string(path(f)).unwrap()
}
pub fn certs(f: &str) -> Vec<CertificateDer<'static>> {
    CertificateDer::pem_file_iter(path(f)).unwrap().map(|c| c.unwrap()).collect()
}

/// What a server shows.
#[derive(Clone, Debug)]
pub struct Shown {
    pub what: &'static str,
    pub chain: &'static [&'static str],
    pub key: &'static str,
    pub ca: u8,
    pub valid: bool,
    pub dns: bool,
    pub ip: bool,
    /// the server has the key of its certificate
    pub owner: bool,
}
const fn s(what: &'static str, chain: &'static [&'static str], key: &'static str, ca: u8, valid: bool, dns: bool, ip: bool, owner: bool) -> Shown {
    Shown { what, chain, key, ca, valid, dns, ip, owner }
}
pub const SHOWN: &[Shown] = &[
    s("good", &["a_both.pem"], "a_both.key", b'A', true, true, true, true),
    s("good", &["a_both.pem"], "a_both.key", b'A', true, true, true, true),
    s("good for the name", &["a_dns.pem"], "a_dns.key", b'A', true, true, false, true),
    s("good for the address", &["a_ip.pem"], "a_ip.key", b'A', true, false, true, true),
    s("for another name", &["a_other.pem"], "a_other.key", b'A', true, false, false, true),
    s("expired", &["a_expired.pem"], "a_expired.key", b'A', false, true, true, true),
    s("not yet valid", &["a_future.pem"], "a_future.key", b'A', false, true, true, true),
    s("for clients only", &["a_client.pem"], "a_client.key", b'A', false, true, true, true),
    s("good, with its intermediate", &["i_both.pem", "inter.pem"], "i_both.key", b'A', true, true, true, true),
    s("without its intermediate", &["i_both.pem"], "i_both.key", 0, true, true, true, true),
    s("of another authority", &["b_both.pem"], "b_both.key", b'B', true, true, true, true),
    s("of another authority, its root with it", &["b_both.pem", "ca_b.pem"], "b_both.key", b'B', true, true, true, true),
    s("of the system's authority", &["s_both.pem"], "s_both.key", b'S', true, true, true, true),
    s("of the system's authority", &["s_both.pem"], "s_both.key", b'S', true, true, true, true),
    s("of the system's authority for another name", &["s_other.pem"], "s_other.key", b'S', true, false, false, true),
    s("stolen", &["a_both.pem"], "a_dns.key", b'A', true, true, true, false),
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Rustls,
    Native,
    Quic,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Asks {
    Nothing,
    IfAny,
    Always,
}

#[derive(Debug)]
struct Setting {
    via: Via,
    by_name: bool,
    /// the options say nothing about TLS but the backend
    plain: bool,
    roots: Vec<u8>,
    system: bool,
    any_cert: bool,
    any_name: bool,
    /// file of the client's chain and of its key
    client: Option<(&'static str, &'static str)>,
    key_log: bool,
}

impl Setting {
    fn gen(r: &mut Rng, via: Via) -> Setting {
        let plain = r.chance(1, 8);
        let roots = match r.below(8) {
            0 | 1 => vec![],
            2 => vec![b'B'],
            3 => vec![b'B', b'A'],
            _ => vec![b'A'],
        };
        let clients: &[(&str, &str)] = &[("a_client.pem", "a_client"), ("i_client_chain.pem", "i_client"), ("b_client.pem", "b_client")];
        let client = r.chance(3, 5).then(|| *r.pick(clients)).map(|(c, k)| {
            let sec1 = via != Via::Native && r.bool();
            (c, match (k, sec1) {
                ("a_client", true) => "a_client.sec1",
                ("a_client", _) => "a_client.key",
                ("i_client", true) => "i_client.sec1",
                ("i_client", _) => "i_client.key",
                (_, true) => "b_client.sec1",
                _ => "b_client.key",
            })
        });
        let mut x = Setting {
            via,
            by_name: r.bool(),
            plain,
            system: r.chance(1, 3),
            any_cert: r.chance(1, 5),
            any_name: r.chance(1, 5),
            roots,
            client,
            key_log: via != Via::Native && r.chance(1, 3),
        };
        if via == Via::Quic {
            x.any_name = false;
        }
        if plain {
            (x.roots, x.system, x.any_cert, x.any_name, x.client) = (vec![], true, false, false, None);
        }
        match via {
            // the system's authorities always count
            Via::Native => x.system = true,
            // they count where no other is named
            Via::Quic => x.system = x.roots.is_empty(),
            Via::Rustls => {}
        }
        x
    }

    /// Whether the client may talk to a server that shows this; None where the settings leave it open.
    fn allows(&self, s: &Shown) -> Option<bool> {
        let name = if self.by_name { s.dns } else { s.ip };
        let chain = s.valid && (self.roots.contains(&s.ca) || (self.system && s.ca == b'S'));
        if self.any_cert {
            if !s.owner {
                // whoever accepts any certificate may or may not look at its signature
                return None;
            }
            return Some(self.via != Via::Rustls || self.any_name || name);
        }
        Some(chain && s.owner && (self.any_name || name))
    }

    fn apply(&self, r: &mut Rng, peer: String, cfg: &mut TokioAsyncClientConfig) -> MqttClientOptions {
        let mut b = MqttClientOptions::builder().peer(peer).client_id("trust").keep_alive(0).mqtt_version(if r.bool() { 5 } else { 4 });
        let ca = |c: &u8| match c {
            b'A' => "ca_a.pem",
            _ => "ca_b.pem",
        };
        match self.via {
            Via::Rustls if self.plain => {
                b = if r.bool() { b.enable_rustls_tls() } else { b.tls_backend(flowsdk::mqtt_client::opts::TlsBackend::Rustls) };
                cfg.tls_enable_key_log = self.key_log;
            }
            Via::Rustls => {
                let mut c = RustlsTlsConfig::builder().use_system_roots(self.system).danger_accept_invalid_certs(self.any_cert).danger_accept_invalid_hostnames(self.any_name);
                for x in &self.roots {
                    c = if r.bool() { c.add_roots_from_pem(pem(ca(x)).as_bytes()) } else { c.add_roots_from_pem_file(&path(ca(x))) }.unwrap();
                }
                if let Some((x, k)) = self.client {
                    c = if r.bool() { c.client_auth_from_pem(pem(x).as_bytes(), pem(k).as_bytes()) } else { c.client_auth_from_pem_files(&path(x), &path(k)) }.unwrap();
                }
                match r.below(3) {
                    0 => c = c.enable_key_log(self.key_log),
                    1 => cfg.tls_enable_key_log = self.key_log,
                    _ => {
                        c = c.enable_key_log(self.key_log);
                        cfg.tls_enable_key_log = self.key_log
                    }
                }
                b = b.rustls_tls_config(c.build());
            }
            Via::Native if self.plain => {
                b = match r.below(3) {
                    0 => b.enable_tls(),
                    1 => b.tls_backend(flowsdk::mqtt_client::opts::TlsBackend::Native),
                    _ => b,
                };
            }
            Via::Native => {
                let mut c = TlsConfig::builder().danger_accept_invalid_certs(self.any_cert).danger_accept_invalid_hostnames(self.any_name);
                for x in &self.roots {
                    c = c.add_root_certificate(native_tls::Certificate::from_pem(pem(ca(x)).as_bytes()).unwrap());
                }
                if let Some((x, k)) = self.client {
                    c = c.client_identity(native_tls::Identity::from_pkcs8(pem(x).as_bytes(), pem(k).as_bytes()).unwrap());
                }
                b = b.tls_config(c.build());
            }
            Via::Quic => {
                cfg.quic_insecure_skip_verify = self.any_cert;
                cfg.quic_enable_0rtt = r.bool();
                cfg.quic_enable_key_log = self.key_log;
                if !self.roots.is_empty() {
                    cfg.quic_custom_root_ca_pem = Some(self.roots.iter().map(|x| pem(ca(x))).collect::<Vec<_>>().join("\n"));
                }
                if let Some((x, k)) = self.client {
                    cfg.quic_client_cert_pem = Some(pem(x));
                    cfg.quic_client_key_pem = Some(pem(k));
                }
            }
        }
        b.build()
    }
}

/// The client randoms of the handshakes a server saw.
#[derive(Debug, Default)]
pub struct Randoms(Mutex<Vec<String>>);
impl rustls::KeyLog for Randoms {
    fn log(&self, _: &str, random: &[u8], _: &[u8]) {
        let h = random.iter().map(|b| format!("{b:02x}")).collect::<String>();
        let mut v = self.0.lock().unwrap();
        if !v.contains(&h) {
            v.push(h);
        }
    }
}

#[derive(Debug)]
struct Fixed(Arc<rustls::sign::CertifiedKey>);
impl rustls::server::ResolvesServerCert for Fixed {
    fn resolve(&self, _: rustls::server::ClientHello) -> Option<Arc<rustls::sign::CertifiedKey>> {
        Some(self.0.clone())
    }
}

pub fn server(s: &Shown, asks: Asks, versions: &[&'static rustls::SupportedProtocolVersion], alpn: bool, log: Arc<Randoms>) -> rustls::ServerConfig {
    let p = Arc::new(rustls::crypto::ring::default_provider());
    let b = rustls::ServerConfig::builder_with_provider(p.clone()).with_protocol_versions(versions).unwrap();
    let b = if asks == Asks::Nothing {
        b.with_no_client_auth()
    } else {
        let mut roots = rustls::RootCertStore::empty();
        roots.add(certs("ca_a.pem").remove(0)).unwrap();
        let v = rustls::server::WebPkiClientVerifier::builder_with_provider(Arc::new(roots), p.clone());
        b.with_client_cert_verifier(if asks == Asks::IfAny { v.allow_unauthenticated() } else { v }.build().unwrap())
    };
    let key = p.key_provider.load_private_key(PrivateKeyDer::from_pem_file(path(s.key)).unwrap()).unwrap();
    let chain = s.chain.iter().flat_map(|f| certs(f)).collect();
    let mut c = b.with_cert_resolver(Arc::new(Fixed(Arc::new(rustls::sign::CertifiedKey::new(chain, key)))));
    if alpn {
        c.alpn_protocols = vec![b"mqtt".to_vec()];
    }
    c.key_log = log;
    c
}

enum Listener {
    Tcp(tokio::net::TcpListener),
    Quic(quinn::Endpoint),
}

/// One connection as the server saw it.
struct Met {
    /// why the handshake failed
    failed: Option<String>,
    certs: Vec<CertificateDer<'static>>,
    tls12: bool,
    peer: Option<Peer>,
    /// the first packets, nothing if the client ended the connection
    first: Vec<Pkt>,
    bad: Option<String>,
}

const PATIENCE: Duration = Duration::from_secs(40);

impl Listener {
    async fn meet(&self, c: rustls::ServerConfig, v5: bool) -> Result<Met, String> {
        let mut m = Met { failed: None, certs: vec![], tls12: false, peer: None, first: vec![], bad: None };
        let sock: Box<dyn Duplex> = match self {
            Listener::Tcp(l) => {
                let (s, _) = tokio::time::timeout(PATIENCE, l.accept()).await.map_err(|_| "the client made no attempt")?.map_err(|e| e.to_string())?;
                match tokio::time::timeout(PATIENCE, tokio_rustls::TlsAcceptor::from(Arc::new(c)).accept(s)).await {
                    Err(_) => return Err("the handshake is not over".into()),
                    Ok(Err(e)) => {
                        m.failed = Some(e.to_string());
                        return Ok(m);
                    }
                    Ok(Ok(t)) => {
                        m.certs = t.get_ref().1.peer_certificates().unwrap_or(&[]).iter().map(|c| c.clone().into_owned()).collect();
                        m.tls12 = t.get_ref().1.protocol_version() == Some(rustls::ProtocolVersion::TLSv1_2);
                        Box::new(t)
                    }
                }
            }
            Listener::Quic(ep) => {
                let crypto = quinn::crypto::rustls::QuicServerConfig::try_from(c).unwrap();
                let inc = tokio::time::timeout(PATIENCE, ep.accept()).await.map_err(|_| "the client made no attempt")?.ok_or("endpoint closed")?;
                let con = match inc.accept_with(Arc::new(quinn::ServerConfig::with_crypto(Arc::new(crypto)))) {
                    Ok(x) => tokio::time::timeout(PATIENCE, x).await,
                    Err(e) => return Err(e.to_string()),
                };
                let con = match con {
                    Err(_) => return Err("the handshake is not over".into()),
                    Ok(Err(e)) => {
                        m.failed = Some(e.to_string());
                        return Ok(m);
                    }
                    Ok(Ok(x)) => x,
                };
                if let Some(v) = con.peer_identity().and_then(|x| x.downcast::<Vec<CertificateDer<'static>>>().ok()) {
                    m.certs = *v;
                }
                match tokio::time::timeout(PATIENCE, con.accept_bi()).await {
                    Err(_) => return Err("no stream after the handshake".into()),
                    Ok(Err(e)) => {
                        m.failed = Some(e.to_string());
                        return Ok(m);
                    }
                    Ok(Ok((s, r))) => {
                        tokio::spawn(async move {
                            con.closed().await;
                        });
                        Box::new(tokio::io::join(r, s))
                    }
                }
            }
        };
        let mut p = Peer::new(sock, v5);
        while m.first.is_empty() {
            match tokio::time::timeout(PATIENCE, p.recv()).await {
                Err(_) => return Err("nothing after the handshake".into()),
                Ok(Err(e)) => {
                    m.bad = Some(e);
                    break;
                }
                Ok(Ok(None)) => break,
                Ok(Ok(Some(v))) => m.first.extend(v),
            }
        }
        m.peer = Some(p);
        Ok(m)
    }
}

fn key_log_path() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("verif-c41-keys-{}", std::process::id()))
}

async fn case(r: &mut Rng, o: Arc<Mutex<Obs>>, via: Via) -> Verdict {
    let set = Setting::gen(r, via);
    let (l, port) = match via {
        Via::Quic => {
            // the configuration of each connection is given when it comes
            let any = server(&SHOWN[0], Asks::Nothing, rustls::ALL_VERSIONS, true, Default::default());
            let sc = quinn::ServerConfig::with_crypto(Arc::new(quinn::crypto::rustls::QuicServerConfig::try_from(any).unwrap()));
            let ep = quinn::Endpoint::server(sc, "127.0.0.1:0".parse().unwrap()).unwrap();
            let p = ep.local_addr().unwrap().port();
            (Listener::Quic(ep), p)
        }
        _ => {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
            let p = l.local_addr().unwrap().port();
            (Listener::Tcp(l), p)
        }
    };
    let host = if set.by_name { "localhost" } else { "127.0.0.1" };
    let scheme = if via == Via::Quic { "quic" } else { "mqtts" };
    let again = r.chance(2, 3);
    let mut cfg = TokioAsyncClientConfig { auto_reconnect: again, ..Default::default() };
    let mut opts = set.apply(r, format!("{scheme}://{host}:{port}"), &mut cfg);
    opts.reconnect_base_delay_ms = 1;
    opts.reconnect_max_delay_ms = 20;
    opts.max_reconnect_attempts = 0;
    let v5 = opts.mqtt_version == 5;
    let log = Log::default();
    let h = Box::new(H { log: log.clone(), busy: 0, stall: 0, rng: Rng::new(0) });
    let bad = |sig: &str, d: String| Violation { sig: sig.into(), detail: d };
    let keys_from = std::fs::metadata(key_log_path()).map(|m| m.len()).unwrap_or(0);
    let c = TokioAsyncMqttClient::new(opts, h, cfg).await.map_err(|e| bad("new", format!("{e:?}")))?;
    c.connect().await.map_err(|e| bad("connect", format!("{e:?}")))?;
    let rounds = if again { r.range(1, 4) } else { 1 };
    let mut told = String::new();
    let mut mark = String::new();
    let randoms = Arc::new(Randoms::default());
    let mut logged = Arc::new(Randoms::default());
    for i in 0..rounds {
        let shown = r.pick(SHOWN);
        let asks = *r.pick(&[Asks::Nothing, Asks::Nothing, Asks::IfAny, Asks::Always]);
        let versions: &[&'static rustls::SupportedProtocolVersion] = match r.below(4) {
            _ if via == Via::Quic => &[&rustls::version::TLS13],
            0 => &[&rustls::version::TLS12],
            1 => &[&rustls::version::TLS13],
            _ => rustls::ALL_VERSIONS,
        };
        let here = Arc::new(Randoms::default());
        let want = set.allows(shown);
        let known = set.client.is_none_or(|c| c.0.starts_with("a_") || c.0.starts_with("i_"));
        let welcome = match asks {
            Asks::Nothing => true,
            Asks::IfAny => known,
            Asks::Always => known && set.client.is_some(),
        };
        told.push_str(&format!("; round {i}: certificate {} ({asks:?} asked of the client)", shown.what));
        let before = log.all();
        let m = l.meet(server(shown, asks, versions, via == Via::Quic, here.clone()), v5).await.map_err(|e| bad("no-answer", format!("{e}; {set:?}{told}; callbacks {:?}", log.all())))?;
        if let Some(b) = &m.bad {
            return fail("bytes", format!("{b}; {set:?}{told}"));
        }
        let got = !m.first.is_empty();
        if want == Some(false) {
            ensure!(!got, "talked", "the client sent {:?} to a server it must not trust; {set:?}{told}", m.first[0].name());
            ensure!(m.failed.is_some(), "handshake", "the handshake with a server not to be trusted was completed; {set:?}{told}");
            ensure!(log.count(|c| matches!(c, Cb::Connected(..))) == before.iter().filter(|c| matches!(c, Cb::Connected(..))).count(), "reported", "connected to a server it must not trust; {set:?}{told}");
            o.lock().unwrap().count("servers refused");
        } else if want == Some(true) && welcome {
            ensure!(got, "refused", "the client would not talk to a server its settings allow ({:?}); {set:?}{told}; callbacks {:?}", m.failed, log.all());
            ensure!(m.first.len() == 1 && m.first[0].ty == CONNECT, "first", "{:?}", m.first.iter().map(|p| p.name()).collect::<Vec<_>>());
            o.lock().unwrap().count("servers accepted");
            if m.tls12 {
                o.lock().unwrap().count("over TLS 1.2");
            }
            if shown.what.contains("authority") && !set.any_cert {
                o.lock().unwrap().count("servers known to the system");
            }
        } else if want == Some(true) {
            ensure!(!got && m.failed.is_some(), "unwelcome", "the client got through to a server without showing the certificate it was given, or none where one is asked; {set:?}{told}");
            o.lock().unwrap().count("clients refused by the server");
        }
        if got {
            let have: Vec<CertificateDer> = match (asks, set.client) {
                (Asks::Nothing, _) | (_, None) => vec![],
                (_, Some((f, _))) => certs(f),
            };
            // OpenSSL adds the certificates of its store that continue the chain
            let same = if via == Via::Native && !have.is_empty() { m.certs.starts_with(&have) } else { m.certs == have };
            ensure!(same, "client-certificate", "the client showed {} certificates, its settings have {}; {set:?}{told}", m.certs.len(), have.len());
            if !have.is_empty() {
                o.lock().unwrap().count("client certificates shown");
            }
            randoms.0.lock().unwrap().extend(here.0.lock().unwrap().iter().cloned());
        }
        logged = if got { here } else { logged };
        mark.push_str(&format!("{} {asks:?} {got} {}|", shown.what, m.tls12));
        // what the application hears, and the end of this connection
        let n = before.len();
        let t = Instant::now();
        if got {
            let mut p = m.peer.unwrap();
            let mut ack = Pkt::new(v5, CONNACK);
            ack.reason = 0;
            p.send(&ack).await;
            while !log.all()[n..].iter().any(|c| matches!(c, Cb::Connected(..))) {
                ensure!(t.elapsed() < PATIENCE, "not-reported", "connected, and the application does not hear of it; {set:?}{told}; callbacks {:?}", &log.all()[n..]);
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
            if i + 1 < rounds {
                use tokio::io::AsyncWriteExt;
                let _ = tokio::time::timeout(Duration::from_secs(2), p.sock.shutdown()).await;
            }
            drop(p);
        } else {
            while !log.all()[n..].iter().any(|c| matches!(c, Cb::Error(_) | Cb::Lost | Cb::Attempt(_))) {
                ensure!(t.elapsed() < PATIENCE, "not-reported", "no connection, and the application does not hear of it; {set:?}{told}; callbacks {:?}", log.all());
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        }
    }
    let _ = c.shutdown().await;
    // secrets are written where that was asked for, and only there
    let mut keys = String::new();
    if let Ok(mut f) = std::fs::File::open(key_log_path()) {
        f.seek(std::io::SeekFrom::Start(keys_from)).unwrap();
        f.read_to_string(&mut keys).unwrap();
    }
    for x in randoms.0.lock().unwrap().iter() {
        let has = keys.contains(x.as_str());
        ensure!(has == set.key_log, "key-log", "secrets written: {has}; {set:?}{told}");
        o.lock().unwrap().count(if has { "connections with key log" } else { "connections without" });
    }
    let mut o = o.lock().unwrap();
    o.case(hash64(format!("{set:?}{mark}").as_bytes()));
    if set.plain {
        o.count("default settings");
    }
    Ok(())
}

pub fn c41() {
    // before any thread exists
    std::env::set_var("SSL_CERT_FILE", path("ca_s.pem"));
    let _ = std::fs::remove_file(key_log_path());
    std::env::set_var("SSLKEYLOGFILE", key_log_path());
    let _ = rustls::crypto::ring::default_provider().install_default();
    let mut run = Run::new("C41", "the client met at least one server");
    for (k, n) in [
        ("servers accepted", 600),
        ("servers refused", 600),
        ("clients refused by the server", 50),
        ("client certificates shown", 100),
        ("servers known to the system", 50),
        ("over TLS 1.2", 60),
        ("connections with key log", 50),
        ("connections without", 200),
        ("default settings", 60),
    ] {
        run.need(k, n);
    }
    run.assume("localhost resolves to 127.0.0.1; OpenSSL, rustls and quinn verify certificates as their settings say");
    for (name, via, q, t) in [("rustls", Via::Rustls, 2500, 20_000), ("native", Via::Native, 1500, 12_000), ("quic", Via::Quic, 2000, 15_000)] {
        run.cases_on(name, run.scale(q, t), run.scale(40, 600) as f64, 12, |_, r, o| on_rt(r, o, 200, |r, o| Box::pin(case(r, o, via))));
    }
    let _ = std::fs::remove_file(key_log_path());
    run.finish()
}
