//! C43: the transports (TCP, native TLS, rustls, QUIC) used directly: bytes cross unchanged both ways,
//! what their builders were given is what the server sees, and an end is reported as an end.
use crate::sync::on_rt;
use crate::tk::*;
use flowsdk::mqtt_client::opts::TlsBackend;
use flowsdk::mqtt_client::tokio_async_client::{TokioAsyncClientConfig, TokioAsyncMqttClient};
use flowsdk::mqtt_client::MqttClientOptions;
use refmqtt::*;
use crate::trust::{certs, path, pem, server, Asks, Shown, SHOWN};
use flowsdk::mqtt_client::transport::quic::{QuicConfig, QuicTransport};
use flowsdk::mqtt_client::transport::rustls_tls::{RustlsTlsConfig, RustlsTlsTransport};
use flowsdk::mqtt_client::transport::tls::{TlsConfig, TlsTransport};
use flowsdk::mqtt_client::transport::{parse_mqtt_address, TcpTransport, Transport, TransportError};
use kit::*;
use rustls::pki_types::pem::PemObject;
use rustls::pki_types::PrivateKeyDer;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

const PATIENCE: Duration = Duration::from_secs(40);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Tcp,
    Native,
    Rustls,
    Quic,
}

/// What the server learns from the client's first message.
#[derive(Debug)]
struct Hello {
    key: Arc<rustls::sign::CertifiedKey>,
    said: Mutex<Option<(Option<String>, Vec<Vec<u8>>)>>,
}
impl rustls::server::ResolvesServerCert for Hello {
    fn resolve(&self, h: rustls::server::ClientHello) -> Option<Arc<rustls::sign::CertifiedKey>> {
        let alpn = h.alpn().map(|a| a.map(|x| x.to_vec()).collect()).unwrap_or_default();
        *self.said.lock().unwrap() = Some((h.server_name().map(|s| s.to_string()), alpn));
        Some(self.key.clone())
    }
}

#[derive(Debug)]
struct Plan {
    kind: Kind,
    /// 0 by address, 1 by name, 2 by IPv6 address
    host: u8,
    scheme: bool,
    roots: Vec<u8>,
    system: bool,
    any_cert: bool,
    any_name: bool,
    client: Option<(&'static str, &'static str)>,
    offers: Vec<Vec<u8>>,
    bind: Option<SocketAddr>,
}

fn protos(r: &mut Rng, max: usize) -> Vec<Vec<u8>> {
    (0..r.below(max + 1))
        .map(|_| match r.below(5) {
            0 | 1 => b"mqtt".to_vec(),
            2 => b"mqtt5".to_vec(),
            3 => vec![b'x'; 255],
            _ => vec![r.u8()],
        })
        .collect()
}

impl Plan {
    fn gen(r: &mut Rng, kind: Kind) -> Plan {
        let host = *r.pick(&[0, 0, 1, 1, 2]);
        let clients: &[(&str, &str)] = &[("a_client.pem", "a_client.key"), ("i_client_chain.pem", "i_client.key"), ("a_client.pem", "a_client.sec1")];
        let mut p = Plan {
            kind,
            host,
            scheme: matches!(kind, Kind::Native | Kind::Rustls) && r.bool(),
            roots: match r.below(8) {
                0 => vec![],
                1 => vec![b'B'],
                2 => vec![b'B', b'A'],
                _ => vec![b'A'],
            },
            system: r.chance(1, 3),
            any_cert: r.chance(1, if host == 2 { 2 } else { 6 }),
            any_name: r.chance(1, if host == 2 { 2 } else { 6 }),
            client: r.bool().then(|| *r.pick(clients)),
            offers: if kind == Kind::Rustls || kind == Kind::Quic { protos(r, 3) } else { vec![] },
            bind: None,
        };
        match kind {
            Kind::Quic => {
                p.any_name = false;
                p.system = p.roots.is_empty();
                if host < 2 && r.chance(1, 3) {
                    p.bind = Some(SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, 0, 0, r.range(1, 6) as u8)), 0));
                } else if host == 2 && r.chance(1, 3) {
                    p.bind = Some("[::1]:0".parse().unwrap());
                }
            }
            Kind::Native => {
                p.system = true;
                // OpenSSL reads PKCS#8 only
                if let Some(c) = &mut p.client {
                    if c.1.ends_with("sec1") {
                        c.1 = "a_client.key";
                    }
                }
            }
            _ => {}
        }
        p
    }
    fn trusts(&self, s: &Shown) -> bool {
        let name = match self.host {
            0 => s.ip,
            1 => s.dns,
            _ => false,
        };
        if self.any_cert {
            return self.kind != Kind::Rustls || self.any_name || name;
        }
        s.valid && (self.roots.contains(&s.ca) || (self.system && s.ca == b'S')) && (self.any_name || name)
    }
}

fn ca(c: u8) -> &'static str {
    if c == b'A' {
        "ca_a.pem"
    } else {
        "ca_b.pem"
    }
}

fn te(sig: &str, e: TransportError) -> Violation {
    Violation { sig: sig.into(), detail: format!("{e:?}") }
}

fn quic_config(r: &mut Rng, p: &Plan) -> Result<QuicConfig, Violation> {
    let bad = |e| te("builder", e);
    let mut b = QuicConfig::builder();
    // settings given before and replaced later leave no trace
    if r.chance(1, 4) {
        b = b.alpn(b"gone").alpn_list(vec![]).insecure_skip_verify(!p.any_cert);
    }
    if r.bool() {
        b = b.alpn_list(p.offers.clone());
    } else {
        let k = r.below(p.offers.len() + 1);
        if k > 0 {
            b = b.alpn_list(p.offers[..k].to_vec());
        }
        for x in &p.offers[k..] {
            b = b.alpn(x);
        }
    }
    b = b.insecure_skip_verify(p.any_cert).enable_0rtt(r.bool());
    if r.bool() {
        b = b.datagram_receive_buffer_size(r.below(4096));
    }
    if !p.roots.is_empty() {
        let all = p.roots.iter().map(|c| pem(ca(*c))).collect::<Vec<_>>().join("\n");
        b = match r.below(3) {
            0 => b.custom_roots(p.roots.iter().flat_map(|c| certs(ca(*c))).map(|c| c.as_ref().to_vec()).collect()),
            1 if p.roots.len() == 1 => b.custom_roots_from_pem_file(path(ca(p.roots[0]))).map_err(bad)?,
            _ => b.custom_roots_from_pem(all.as_bytes()).map_err(bad)?,
        };
    }
    if let Some((c, k)) = p.client {
        b = match r.below(3) {
            0 => b.client_cert_chain(certs(c).into_iter().map(|c| c.as_ref().to_vec()).collect()),
            1 => b.client_cert_chain_from_pem(pem(c).as_bytes()).map_err(bad)?,
            _ => b.client_cert_chain_from_pem_file(path(c)).map_err(bad)?,
        };
        b = match r.below(3) {
            0 => b.client_private_key(PrivateKeyDer::from_pem_file(path(k)).unwrap().secret_der().to_vec()),
            1 => b.client_private_key_from_pem(pem(k).as_bytes()).map_err(bad)?,
            _ => b.client_private_key_from_pem_file(path(k)).map_err(bad)?,
        };
    }
    if let Some(a) = p.bind {
        b = if r.bool() { b.local_bind_ip(a.ip()) } else { b.local_bind_addr(a) };
    }
    Ok(b.build())
}

fn rustls_config(r: &mut Rng, p: &Plan) -> Result<RustlsTlsConfig, Violation> {
    let bad = |e| te("builder", e);
    let mut b = RustlsTlsConfig::builder().use_system_roots(p.system).danger_accept_invalid_certs(p.any_cert).danger_accept_invalid_hostnames(p.any_name);
    if r.chance(1, 4) {
        b = b.alpn_list(vec![b"gone".to_vec()]);
    }
    b = b.alpn_list(p.offers.clone());
    for c in &p.roots {
        b = if r.bool() { b.add_roots_from_pem(pem(ca(*c)).as_bytes()) } else { b.add_roots_from_pem_file(path(ca(*c))) }.map_err(bad)?;
    }
    if let Some((c, k)) = p.client {
        b = if r.bool() { b.client_auth_from_pem(pem(c).as_bytes(), pem(k).as_bytes()) } else { b.client_auth_from_pem_files(path(c), path(k)) }.map_err(bad)?;
    }
    Ok(b.build())
}

fn native_config(p: &Plan) -> TlsConfig {
    let mut b = TlsConfig::builder().danger_accept_invalid_certs(p.any_cert).danger_accept_invalid_hostnames(p.any_name);
    for c in &p.roots {
        b = b.add_root_certificate(native_tls::Certificate::from_pem(pem(ca(*c)).as_bytes()).unwrap());
    }
    if let Some((c, k)) = p.client {
        b = b.client_identity(native_tls::Identity::from_pkcs8(pem(c).as_bytes(), pem(k).as_bytes()).unwrap());
    }
    b.build()
}

/// What cannot be a configuration is refused when it is given.
fn misuse(r: &mut Rng, o: &Mutex<Obs>) -> Verdict {
    let none = b"no certificate in here".as_slice();
    let key = pem("a_client.key");
    let got = match r.below(8) {
        0 => QuicConfig::builder().custom_roots_from_pem(none).is_err(),
        1 => QuicConfig::builder().client_cert_chain_from_pem(none).is_err(),
        2 => QuicConfig::builder().client_private_key_from_pem(none).is_err(),
        3 => QuicConfig::builder().client_private_key_from_pem_file("/nonexistent/key").is_err(),
        4 => QuicConfig::builder().custom_roots_from_pem_file("/nonexistent/ca").is_err() && QuicConfig::builder().client_cert_chain_from_pem_file("/nonexistent/c").is_err(),
        5 => RustlsTlsConfig::builder().client_auth_from_pem(none, key.as_bytes()).is_err(),
        6 => RustlsTlsConfig::builder().client_auth_from_pem(pem("a_client.pem").as_bytes(), none).is_err(),
        _ => RustlsTlsConfig::builder().client_auth_from_pem_files("/nonexistent/c", "/nonexistent/k").is_err(),
    };
    ensure!(got, "misuse", "unusable settings were taken");
    o.lock().unwrap().count("unusable settings refused");
    Ok(())
}

enum Link {
    Tcp(TcpTransport),
    Native(TlsTransport),
    Rustls(RustlsTlsTransport),
    Quic(QuicTransport),
}
impl Link {
    fn t(&mut self) -> &mut dyn Transport {
        match self {
            Link::Tcp(t) => t,
            Link::Native(t) => t,
            Link::Rustls(t) => t,
            Link::Quic(t) => t,
        }
    }
    fn tcp(&self) -> Option<&tokio::net::TcpStream> {
        match self {
            Link::Tcp(t) => Some(t.get_ref()),
            Link::Native(t) => Some(t.get_ref().get_ref().get_ref().get_ref()),
            Link::Rustls(t) => Some(t.get_ref().get_ref().0),
            Link::Quic(_) => None,
        }
    }
}

struct Far {
    sock: Box<dyn Duplex>,
    con: Option<quinn::Connection>,
    peer: SocketAddr,
    alpn: Option<Vec<u8>>,
    certs: Vec<Vec<u8>>,
}

enum Ear {
    Tcp(tokio::net::TcpListener),
    Quic(quinn::Endpoint),
}

impl Ear {
    async fn accept(&self, c: Option<rustls::ServerConfig>) -> Result<Far, String> {
        let der = |v: &[rustls::pki_types::CertificateDer]| v.iter().map(|c| c.as_ref().to_vec()).collect::<Vec<_>>();
        match self {
            Ear::Tcp(l) => {
                let (s, peer) = l.accept().await.map_err(|e| e.to_string())?;
                let Some(c) = c else { return Ok(Far { sock: Box::new(s), con: None, peer, alpn: None, certs: vec![] }) };
                let t = tokio_rustls::TlsAcceptor::from(Arc::new(c)).accept(s).await.map_err(|e| e.to_string())?;
                let (alpn, certs) = (t.get_ref().1.alpn_protocol().map(|x| x.to_vec()), der(t.get_ref().1.peer_certificates().unwrap_or(&[])));
                Ok(Far { sock: Box::new(t), con: None, peer, alpn, certs })
            }
            Ear::Quic(ep) => {
                let crypto = quinn::crypto::rustls::QuicServerConfig::try_from(c.unwrap()).unwrap();
                let inc = ep.accept().await.ok_or("closed")?;
                let con = inc.accept_with(Arc::new(quinn::ServerConfig::with_crypto(Arc::new(crypto)))).map_err(|e| e.to_string())?.await.map_err(|e| e.to_string())?;
                let certs = con.peer_identity().and_then(|x| x.downcast::<Vec<rustls::pki_types::CertificateDer<'static>>>().ok()).map(|v| der(&v)).unwrap_or_default();
                let alpn = con.handshake_data().and_then(|x| x.downcast::<quinn::crypto::rustls::HandshakeData>().ok()).and_then(|h| h.protocol);
                let (s, rd) = con.accept_bi().await.map_err(|e| e.to_string())?;
                Ok(Far { sock: Box::new(tokio::io::join(rd, s)), peer: con.remote_address(), con: Some(con), alpn, certs })
            }
        }
    }
}

/// Sends `out` and receives `want` at the same time, in pieces of any size, at any pace.
async fn swap<S: tokio::io::AsyncRead + tokio::io::AsyncWrite + Unpin>(who: &str, s: S, out: &[u8], want: &[u8], mut a: Rng, slow: bool) -> Result<S, Violation> {
    let bad = |sig: &str, d: String| Violation { sig: sig.into(), detail: format!("{who}: {d}") };
    let (mut rd, mut wr) = tokio::io::split(s);
    let mut b = Rng::new(a.u64());
    let w = async {
        let mut i = 0;
        while i < out.len() {
            let n = (1 + if a.bool() { a.below(30) } else { a.below(20_000) }).min(out.len() - i);
            let k = if a.bool() {
                wr.write_all(&out[i..i + n]).await.map(|_| n)
            } else {
                wr.write(&out[i..i + n]).await
            }
            .map_err(|e| bad("write", format!("{e} after {i} of {} bytes", out.len())))?;
            if k == 0 || k > n {
                return Err(bad("written", format!("a write of {n} bytes reports {k}")));
            }
            i += k;
            if a.chance(1, 12) {
                wr.flush().await.map_err(|e| bad("flush", e.to_string()))?;
            }
            if slow && a.chance(1, 20) {
                tokio::time::sleep(Duration::from_millis(a.below(3) as u64)).await;
            }
        }
        wr.flush().await.map_err(|e| bad("flush", e.to_string()))
    };
    let r = async {
        let mut got: Vec<u8> = vec![];
        while got.len() < want.len() {
            let left = want.len() - got.len();
            let n = (1 + if b.bool() { b.below(40) } else { b.below(20_000) }).min(left);
            let from = got.len();
            match b.below(3) {
                0 => {
                    got.resize(from + n, 0);
                    rd.read_exact(&mut got[from..]).await.map_err(|e| bad("read", format!("{e} after {from} of {} bytes", want.len())))?;
                }
                x => {
                    let mut v = vec![0xA5; if x == 1 { n } else { left }];
                    let k = rd.read(&mut v).await.map_err(|e| bad("read", format!("{e} after {from} of {} bytes", want.len())))?;
                    if k == 0 {
                        return Err(bad("ended", format!("the end after {from} of {} bytes", want.len())));
                    }
                    got.extend_from_slice(&v[..k]);
                }
            }
            if got[from..] != want[from..got.len()] {
                let at = (from..got.len()).find(|i| got[*i] != want[*i]).unwrap();
                return Err(bad("bytes", format!("byte {at} of {} is not the one that was sent", want.len())));
            }
            if slow && b.chance(1, 20) {
                tokio::time::sleep(Duration::from_millis(b.below(3) as u64)).await;
            }
        }
        Ok(())
    };
    tokio::time::timeout(PATIENCE, async { tokio::try_join!(w, r) }).await.map_err(|_| bad("stuck", format!("{} bytes out, {} in: not over", out.len(), want.len())))??;
    Ok(rd.unsplit(wr))
}

fn data(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1..=4 => r.below(300),
        5 | 6 => r.below(20_000),
        _ => r.below(600_000),
    };
    r.bytes(n)
}

async fn case(r: &mut Rng, o: Arc<Mutex<Obs>>, kind: Kind) -> Verdict {
    misuse(r, &o)?;
    let p = Plan::gen(r, kind);
    let shown = loop {
        let s = r.pick(SHOWN);
        if s.owner {
            break s;
        }
    };
    let ip = if p.host == 2 { "[::1]:0" } else { "127.0.0.1:0" };
    let hello = Arc::new(Hello {
        key: {
            let pr = rustls::crypto::ring::default_provider();
            let k = pr.key_provider.load_private_key(PrivateKeyDer::from_pem_file(path(shown.key)).unwrap()).unwrap();
            Arc::new(rustls::sign::CertifiedKey::new(shown.chain.iter().flat_map(|f| certs(f)).collect(), k))
        },
        said: Mutex::new(None),
    });
    let asks = if p.client.is_some() { *r.pick(&[Asks::Nothing, Asks::IfAny, Asks::Always]) } else { *r.pick(&[Asks::Nothing, Asks::IfAny]) };
    let versions: &[&'static rustls::SupportedProtocolVersion] = match r.below(4) {
        _ if kind == Kind::Quic => &[&rustls::version::TLS13],
        0 => &[&rustls::version::TLS12],
        1 => &[&rustls::version::TLS13],
        _ => rustls::ALL_VERSIONS,
    };
    let mut sc = server(shown, asks, versions, false, Default::default());
    sc.cert_resolver = hello.clone();
    let takes = if p.offers.is_empty() && r.chance(3, 4) { vec![] } else { protos(r, 2) };
    sc.alpn_protocols = takes.clone();
    let agreed = takes.iter().find(|t| p.offers.contains(t)).cloned();
    let alpn_ok = match kind {
        Kind::Quic => agreed.is_some() || (takes.is_empty() && p.offers.is_empty()),
        _ => agreed.is_some() || takes.is_empty() || p.offers.is_empty(),
    };
    let want = kind == Kind::Tcp || (p.trusts(shown) && alpn_ok);
    let ear = match kind {
        Kind::Quic => {
            let c = quinn::ServerConfig::with_crypto(Arc::new(quinn::crypto::rustls::QuicServerConfig::try_from(sc.clone()).unwrap()));
            Ear::Quic(quinn::Endpoint::server(c, ip.parse().unwrap()).unwrap())
        }
        _ => Ear::Tcp(tokio::net::TcpListener::bind(ip).await.unwrap()),
    };
    let at = match &ear {
        Ear::Tcp(l) => l.local_addr().unwrap(),
        Ear::Quic(e) => e.local_addr().unwrap(),
    };
    let host = ["127.0.0.1", "localhost", "[::1]"][p.host as usize];
    let addr = format!("{}{host}:{}", if p.scheme { "mqtts://" } else { "" }, at.port());
    let told = format!("{addr} certificate {} ({asks:?} asked, {takes:?} taken), {p:?}", shown.what);

    let qc = if kind == Kind::Quic { Some(quic_config(r, &p)?) } else { None };
    let rc = if kind == Kind::Rustls { Some(rustls_config(r, &p)?) } else { None };
    let raw = r.bool();
    let connect = async {
        Ok::<Link, TransportError>(match kind {
            Kind::Tcp if raw => Link::Tcp(TcpTransport::from_stream(tokio::net::TcpStream::connect(&addr).await?)),
            Kind::Tcp => Link::Tcp(<TcpTransport as Transport>::connect(&addr).await?),
            Kind::Native => Link::Native(TlsTransport::connect_with_config(&addr, &native_config(&p)).await?),
            Kind::Rustls => Link::Rustls(RustlsTlsTransport::connect_with_config(&addr, rc.unwrap()).await?),
            Kind::Quic => Link::Quic(QuicTransport::connect_with_config(&addr, qc.unwrap()).await?),
        })
    };
    let (out, back) = (data(r), data(r));
    let (mut first, s2) = (out, back.clone());
    if kind == Kind::Quic {
        // the server hears of a stream when something is sent on it
        first.insert(0, 7);
    }
    let slow = r.bool();
    let seed = r.u64();
    let (ca_, cb) = (r.u64(), r.u64());
    let accept = async { tokio::time::timeout(PATIENCE, ear.accept((kind != Kind::Tcp).then_some(sc))).await.unwrap_or_else(|_| Err("nobody came".into())) };
    // connect, and the first exchange from both ends
    let near = async {
        let l = tokio::time::timeout(PATIENCE, connect).await.map_err(|_| Violation { sig: "hangs".into(), detail: told.clone() })?;
        match l {
            Err(e) => Ok(Err(e)),
            Ok(l) => {
                let facts = addresses(&l, at, seed)?;
                let l = match l {
                    Link::Tcp(t) => swap("client", t, &first, &s2, Rng::new(ca_), slow).await.map(Link::Tcp),
                    Link::Native(t) => swap("client", t, &first, &s2, Rng::new(ca_), slow).await.map(Link::Native),
                    Link::Rustls(t) => swap("client", t, &first, &s2, Rng::new(ca_), slow).await.map(Link::Rustls),
                    Link::Quic(t) => swap("client", t, &first, &s2, Rng::new(ca_), slow).await.map(Link::Quic),
                };
                l.map(|l| Ok((l, facts)))
            }
        }
    };
    let far = async {
        let f = accept.await;
        match f {
            Err(e) => Err(e),
            Ok(mut f) => match swap("server", f.sock, &back, &first, Rng::new(cb), slow).await {
                Err(v) => Err(format!("{} {}", v.sig, v.detail)),
                Ok(s) => {
                    f.sock = s;
                    Ok(f)
                }
            },
        }
    };
    tokio::pin!(near, far);
    let mut n = None;
    let mut f = None;
    while n.is_none() || f.is_none() {
        tokio::select! {
            x = &mut near, if n.is_none() => {
                let x = x.map_err(|mut v: Violation| { v.detail.push_str(&format!("; {told}")); v })?;
                if x.is_err() {
                    n = Some(x);
                    break;
                }
                n = Some(x);
            }
            x = &mut far, if f.is_none() => f = Some(x),
        }
    }
    let mark = |o: &Mutex<Obs>, s: &str| o.lock().unwrap().case(hash64(format!("{p:?}{takes:?}{}{asks:?}{s}", shown.what).as_bytes()));
    let (mut link, (local, peer_txt)) = match n.unwrap() {
        Err(e) => {
            ensure!(!want, "refused", "{e:?}; {told}");
            mark(&o, "refused");
            o.lock().unwrap().count(if p.trusts(shown) { "refused for the protocol" } else { "servers refused" });
            return Ok(());
        }
        Ok(x) => x,
    };
    ensure!(want, "accepted", "connected; {told}");
    let mut far = match f.unwrap() {
        Ok(f) => f,
        Err(e) => return fail("server", format!("{e}; {told}")),
    };
    {
        let mut o = o.lock().unwrap();
        o.count(match kind {
            Kind::Tcp => "connections over TCP",
            Kind::Native => "connections over native TLS",
            Kind::Rustls => "connections over rustls",
            Kind::Quic => "connections over QUIC",
        });
        if p.host == 2 {
            o.count("by an IPv6 address");
        }
        o.add("bytes out", first.len() as u64);
        o.add("bytes in", back.len() as u64);
    }
    // what the server was told
    if kind != Kind::Tcp {
        let said = hello.said.lock().unwrap().clone();
        let Some((name, alpn)) = said else { return fail("hello", "no client hello".to_string()) };
        ensure!(alpn == p.offers, "alpn", "offered {alpn:?}; {told}");
        ensure!(far.alpn == agreed, "alpn", "agreed on {:?}; {told}", far.alpn);
        ensure!(name.as_deref() == (p.host == 1).then_some("localhost"), "server-name", "asked for {name:?}; {told}");
        let have: Vec<Vec<u8>> = match (asks, p.client) {
            (Asks::Nothing, _) | (_, None) => vec![],
            (_, Some((f, _))) => certs(f).iter().map(|c| c.as_ref().to_vec()).collect(),
        };
        let same = if kind == Kind::Native && !have.is_empty() { far.certs.starts_with(&have) } else { far.certs == have };
        ensure!(same, "client-certificate", "{} certificates shown; {told}", far.certs.len());
        let mut o = o.lock().unwrap();
        if agreed.is_some() {
            o.count("protocols agreed");
        }
        if !have.is_empty() {
            o.count("client certificates shown");
        }
    }
    match kind {
        Kind::Quic => {
            ensure!(local.port() == far.peer.port(), "local-address", "{local} where the server sees {}; {told}", far.peer);
            if let Some(b) = p.bind {
                ensure!(far.peer.ip() == b.ip() && local.ip() == b.ip(), "bind", "the server sees {}, the client {local}; {told}", far.peer);
                o.lock().unwrap().count("bound to a chosen address");
            }
            ensure!(peer_txt == at.to_string(), "peer-address", "{peer_txt} for {at}; {told}");
        }
        _ => {
            ensure!(local == far.peer, "local-address", "{local} where the server sees {}; {told}", far.peer);
            ensure!(peer_txt.ends_with(&format!(":{}", at.port())), "peer-address", "{peer_txt} for {at}; {told}");
        }
    }
    // the address changes under the connection
    let mut moves = 0;
    if let Link::Quic(t) = &link {
        if r.chance(1, 2) {
            moves = r.range(1, 4);
            for _ in 0..moves {
                let to: SocketAddr = if p.host == 2 { "[::1]:0".parse().unwrap() } else { SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, 0, 0, r.range(1, 6) as u8)), 0) };
                let now = t.rebind(to).map_err(|e| te("rebind", e))?;
                ensure!(now.ip() == to.ip() && now.port() != 0, "rebind", "asked for {to}, got {now}; {told}");
                ensure!(t.local_addr().ok() == Some(now.to_string()), "rebind", "at {:?} after {now}; {told}", t.local_addr());
                if r.bool() {
                    tokio::time::sleep(Duration::from_millis(r.below(4) as u64)).await;
                }
            }
        }
    }
    // a second exchange, and the end
    let (out, mut back2) = (data(r), data(r));
    let end = r.below(4);
    if end == 0 {
        // a socket closed with something unread (a session ticket) is reset, and what it sent may be lost
        back2.push(1);
    }
    let s3 = back2.clone();
    let (c2, d2) = (r.u64(), r.u64());
    let ra = Rng::new(c2);
    let a = async {
        link = match link {
            Link::Tcp(t) => Link::Tcp(swap("client", t, &out, &s3, ra, slow).await?),
            Link::Native(t) => Link::Native(swap("client", t, &out, &s3, ra, slow).await?),
            Link::Rustls(t) => Link::Rustls(swap("client", t, &out, &s3, ra, slow).await?),
            Link::Quic(t) => Link::Quic(swap("client", t, &out, &s3, ra, slow).await?),
        };
        Ok::<Link, Violation>(link)
    };
    let b = async {
        far.sock = swap("server", far.sock, &back2, &out, Rng::new(d2), slow).await?;
        Ok::<Far, Violation>(far)
    };
    let (mut link, mut far) = match tokio::try_join!(a, b) {
        Ok(x) => x,
        Err(mut v) => {
            v.detail.push_str(&format!("; second exchange after {moves} changes of address; {told}"));
            return Err(v);
        }
    };
    {
        let mut o = o.lock().unwrap();
        o.add("bytes out", out.len() as u64);
        o.add("bytes in", back2.len() as u64);
    }
    if moves > 0 {
        if let (Link::Quic(t), Some(c)) = (&link, &far.con) {
            // the server follows once it heard from the new address
            if !out.is_empty() {
                let now = t.local_addr().unwrap();
                ensure!(c.remote_address().to_string() == now, "moved", "the server sees {}, the client is at {now}; {told}", c.remote_address());
                o.lock().unwrap().count("moved to another address");
            }
        }
    }
    // the last words of one side, then the end
    let last = data(r);
    let mut got = vec![];
    let limit = |x: &str| Violation { sig: "no-end".into(), detail: format!("{x}; {told}") };
    let same = |got: &[u8], last: &[u8], who: &str| {
        if got == last {
            Ok(())
        } else {
            let d = got.iter().zip(last).take_while(|(a, b)| a == b).count();
            fail("last-words", format!("{who} has {} bytes of the last {}, {d} of them right; end {end}; {told}", got.len(), last.len()))
        }
    };
    match end {
        // the client closes and is gone
        0 => {
            let w = async {
                link.t().write_all(&last).await.map_err(|e| Violation { sig: "write".into(), detail: format!("{e}; {told}") })?;
                link.t().flush().await.map_err(|e| Violation { sig: "flush".into(), detail: format!("{e}; {told}") })?;
                let t = std::time::Instant::now();
                link.t().close().await.map_err(|e| te("close", e))?;
                drop(link);
                // a close that takes its time may give up
                Ok::<bool, Violation>(t.elapsed() < Duration::from_millis(1800))
            };
            let rd = async {
                let _ = tokio::time::timeout(PATIENCE, far.sock.read_to_end(&mut got)).await.map_err(|_| limit("the server hears nothing of the client's close"))?;
                Ok(())
            };
            let (soon, ()) = tokio::try_join!(w, rd)?;
            if soon {
                same(&got, &last, "the server")?;
            }
            o.lock().unwrap().count("closed by the client");
        }
        // the client finishes its side, the server has the last word
        1 => {
            let w = async {
                link.t().write_all(&last).await.map_err(|e| Violation { sig: "write".into(), detail: format!("{e}; {told}") })?;
                link.t().shutdown().await.map_err(|e| Violation { sig: "shutdown".into(), detail: format!("{e}; {told}") })?;
                Ok::<(), Violation>(())
            };
            let rd = async {
                tokio::time::timeout(PATIENCE, far.sock.read_to_end(&mut got)).await.map_err(|_| limit("the server hears nothing of the client's shutdown"))?.map_err(|e| Violation { sig: "unclean".into(), detail: format!("{e}; {told}") })?;
                Ok(())
            };
            tokio::try_join!(w, rd)?;
            same(&got, &last, "the server")?;
            let back = if r.bool() { b"bye".to_vec() } else { data(r) };
            let mut got = vec![];
            let w = async {
                far.sock.write_all(&back).await.map_err(|e| Violation { sig: "server-write".into(), detail: format!("{e}; {told}") })?;
                let _ = far.sock.shutdown().await;
                Ok::<(), Violation>(())
            };
            let rd = async {
                tokio::time::timeout(PATIENCE, link.t().read_to_end(&mut got)).await.map_err(|_| limit("the client hears nothing of the server's end"))?.map_err(|e| Violation { sig: "unclean".into(), detail: format!("{e}; {told}") })?;
                Ok(())
            };
            tokio::try_join!(w, rd)?;
            same(&got, &back, "the client")?;
            o.lock().unwrap().count("finished by the client");
        }
        // the server finishes
        2 => {
            let w = async {
                far.sock.write_all(&last).await.map_err(|e| Violation { sig: "server-write".into(), detail: format!("{e}; {told}") })?;
                let _ = far.sock.shutdown().await;
                Ok::<(), Violation>(())
            };
            let rd = async {
                tokio::time::timeout(PATIENCE, link.t().read_to_end(&mut got)).await.map_err(|_| limit("the client hears nothing of the server's end"))?.map_err(|e| Violation { sig: "unclean".into(), detail: format!("{e}; {told}") })?;
                Ok(())
            };
            tokio::try_join!(w, rd)?;
            same(&got, &last, "the client")?;
            o.lock().unwrap().count("finished by the server");
        }
        // the server breaks the connection off
        _ => {
            if let Some(c) = &far.con {
                c.close(3u32.into(), b"gone");
            }
            drop(far);
            let x = tokio::time::timeout(PATIENCE, link.t().read_to_end(&mut got)).await.map_err(|_| limit("the client hears nothing of the break"))?;
            ensure!(got.is_empty(), "invented", "{} bytes that nobody sent; {told}", got.len());
            if kind == Kind::Quic {
                ensure!(x.is_err(), "clean", "a broken connection is reported as a finished stream; {told}");
            }
            o.lock().unwrap().count("broken off by the server");
        }
    }
    mark(&o, &format!("{end} {moves}"));
    Ok(())
}

/// The transport's own account of the two ends, and of the delay it was told to use.
fn addresses(l: &Link, _at: SocketAddr, seed: u64) -> Result<(SocketAddr, String), Violation> {
    let t: &dyn Transport = match l {
        Link::Tcp(t) => t,
        Link::Native(t) => t,
        Link::Rustls(t) => t,
        Link::Quic(t) => t,
    };
    for bit in [seed & 1 == 0, seed & 2 == 0] {
        t.set_nodelay(bit).map_err(|e| te("nodelay", e))?;
        if let Some(s) = l.tcp() {
            if s.nodelay().ok() != Some(bit) {
                return Err(Violation { sig: "nodelay".into(), detail: format!("set to {bit}, is {:?}", s.nodelay()) });
            }
        }
    }
    let a = t.local_addr().map_err(|e| te("local-address", e))?;
    let local = a.parse().map_err(|_| Violation { sig: "local-address".into(), detail: a.clone() })?;
    Ok((local, t.peer_addr().map_err(|e| te("peer-address", e))?))
}

/// Addresses that lead nowhere are errors, in time.
async fn nowhere(r: &mut Rng, o: Arc<Mutex<Obs>>) -> Verdict {
    // bound for as long as this takes, and nobody listens
    let kept = tokio::net::TcpSocket::new_v4().unwrap();
    kept.bind("127.0.0.1:0".parse().unwrap()).unwrap();
    let closed = kept.local_addr().unwrap().port();
    let addr = match r.below(4) {
        0 => format!("127.0.0.1:{closed}"),
        1 => String::from("no-port"),
        2 => format!("127.0.0.1:{}", 65536 + r.below(1000)),
        _ => String::new(),
    };
    let kind = *r.pick(&[Kind::Tcp, Kind::Native, Kind::Rustls, Kind::Quic]);
    if kind == Kind::Quic && addr.ends_with(&format!(":{closed}")) {
        // silence is all QUIC hears of a closed port; but families that do not match are an error
        let cfg = QuicConfig::builder().local_bind_addr("[::1]:0".parse().unwrap()).build();
        let x = tokio::time::timeout(PATIENCE, QuicTransport::connect_with_config(&addr, cfg)).await;
        ensure!(matches!(x, Ok(Err(TransportError::InvalidAddress(_)))), "family", "an IPv6 source for an IPv4 destination: {}", x.is_err());
        o.lock().unwrap().count("addresses refused");
        o.lock().unwrap().case(0);
        return Ok(());
    }
    let got = tokio::time::timeout(PATIENCE, async {
        match kind {
            Kind::Tcp => <TcpTransport as Transport>::connect(&addr).await.is_ok(),
            Kind::Native => <TlsTransport as Transport>::connect(&addr).await.is_ok(),
            Kind::Rustls => <RustlsTlsTransport as Transport>::connect(&addr).await.is_ok(),
            Kind::Quic => <QuicTransport as Transport>::connect(&addr).await.is_ok(),
        }
    })
    .await;
    ensure!(got == Ok(false), "nowhere", "{kind:?} to {addr:?}: {got:?}");
    drop(kept);
    // and what an address says
    let host: String = match r.below(3) {
        0 => (0..r.range(1, 20)).map(|_| *r.pick(&['a', 'z', '0', '-', '.', 'é'])).collect(),
        1 => format!("{}.{}.{}.{}", r.u8(), r.u8(), r.u8(), r.u8()),
        _ => format!("mqtt{}", r.u8()),
    };
    let port = r.u16();
    let six = format!("[{:x}::{:x}]", r.u16(), r.u16());
    let x = parse_mqtt_address(&format!("{six}:{port}")).map_err(|e| te("parse", e))?;
    ensure!(x.1 == format!("{six}:{port}") && x.0 == six[1..six.len() - 1], "parse", "{six}:{port} is {x:?}");
    for pre in ["", "mqtts://"] {
        let x = parse_mqtt_address(&format!("{pre}{host}:{port}")).map_err(|e| te("parse", e))?;
        ensure!(x == (host.clone(), format!("{host}:{port}")), "parse", "{pre}{host}:{port} is {x:?}");
        ensure!(parse_mqtt_address(&format!("{pre}{host}")).is_err(), "parse", "{pre}{host} has no port");
    }
    let mut o = o.lock().unwrap();
    o.count("addresses refused");
    o.case(hash64(format!("{kind:?}{addr}{host}").as_bytes()));
    Ok(())
}

/// The async client says goodbye: what it sent before disconnect(), and the DISCONNECT, arrive.
async fn goodbye(r: &mut Rng, o: Arc<Mutex<Obs>>) -> Verdict {
    let kind = *r.pick(&[Kind::Tcp, Kind::Native, Kind::Rustls, Kind::Quic, Kind::Quic]);
    let v5 = r.bool();
    let s = SHOWN.iter().find(|s| s.ca == b'S' && s.dns).unwrap();
    let sc = server(s, Asks::Nothing, rustls::ALL_VERSIONS, kind == Kind::Quic, Default::default());
    let ear = match kind {
        Kind::Quic => {
            let c = quinn::ServerConfig::with_crypto(Arc::new(quinn::crypto::rustls::QuicServerConfig::try_from(sc.clone()).unwrap()));
            Ear::Quic(quinn::Endpoint::server(c, "127.0.0.1:0".parse().unwrap()).unwrap())
        }
        _ => Ear::Tcp(tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap()),
    };
    let port = match &ear {
        Ear::Tcp(l) => l.local_addr().unwrap().port(),
        Ear::Quic(e) => e.local_addr().unwrap().port(),
    };
    let scheme = match kind {
        Kind::Tcp => "mqtt",
        Kind::Quic => "quic",
        _ => "mqtts",
    };
    let options = MqttClientOptions {
        peer: format!("{scheme}://localhost:{port}"),
        client_id: "bye".into(),
        keep_alive: 300,
        mqtt_version: if v5 { 5 } else { 4 },
        tls_backend: match kind {
            Kind::Rustls => Some(TlsBackend::Rustls),
            Kind::Native => Some(TlsBackend::Native),
            _ => None,
        },
        ..Default::default()
    };
    let bad = |sig: &str, d: String| Violation { sig: sig.into(), detail: format!("{d}; {kind:?}, MQTT {}", if v5 { 5 } else { 3 }) };
    let log = Log::default();
    let h = Box::new(H { log: log.clone(), busy: 0, stall: 0, rng: Rng::new(0) });
    let c = TokioAsyncMqttClient::new(options, h, TokioAsyncClientConfig::default()).await.map_err(|e| bad("new", format!("{e:?}")))?;
    let texts: Vec<Vec<u8>> = (0..r.below(6)).map(|_| { let n = r.below(3000); r.bytes(n) }).collect();
    let far = async {
        let f = tokio::time::timeout(PATIENCE, ear.accept((kind != Kind::Tcp).then_some(sc))).await.map_err(|_| "nobody came".to_string())??;
        let mut p = Peer::new(f.sock, v5);
        let mut got: Vec<Pkt> = vec![];
        loop {
            match tokio::time::timeout(PATIENCE, p.recv()).await {
                Err(_) => return Err("no end".to_string()),
                Ok(Err(e)) => return Err(e),
                Ok(Ok(None)) => return Ok((got, f.con)),
                Ok(Ok(Some(v))) => {
                    for x in v {
                        if x.ty == CONNECT {
                            p.send(&Pkt::new(v5, CONNACK)).await;
                        }
                        got.push(x);
                    }
                }
            }
        }
    };
    let near = async {
        c.connect_sync().await.map_err(|e| format!("connect: {e:?}"))?;
        for t in &texts {
            c.publish("t", t, 0, false).await.map_err(|e| format!("publish: {e:?}"))?;
        }
        let t = std::time::Instant::now();
        c.disconnect().await.map_err(|e| format!("disconnect: {e:?}"))?;
        while !log.all().iter().any(|c| matches!(c, Cb::Disconnected(_))) {
            if t.elapsed() > PATIENCE {
                return Err("the application does not hear of its disconnect()".into());
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        Ok::<Duration, String>(t.elapsed())
    };
    let (took, (got, _con)) = tokio::try_join!(near, far).map_err(|e| bad("goodbye", e))?;
    let _ = c.shutdown().await;
    if took > Duration::from_millis(800) {
        // the client waits a second for a slow peer and no longer
        return Ok(());
    }
    let said: Vec<&[u8]> = got.iter().filter(|p| p.ty == PUBLISH).map(|p| &p.payload[..]).collect();
    ensure!(said == texts, "last-words", "{} of {} messages came before the DISCONNECT; {kind:?}", said.len(), texts.len());
    ensure!(got.last().is_some_and(|p| p.ty == DISCONNECT), "no-disconnect", "the broker has {:?} when the connection ends; {kind:?}, MQTT {}", got.last().map(|p| p.name()), if v5 { 5 } else { 3 });
    let mut o = o.lock().unwrap();
    o.count(if kind == Kind::Quic { "goodbyes over QUIC" } else { "goodbyes" });
    o.case(hash64(format!("{kind:?}{v5}{texts:?}").as_bytes()));
    Ok(())
}

pub fn c43() {
    std::env::set_var("SSL_CERT_FILE", path("ca_s.pem"));
    let _ = rustls::crypto::ring::default_provider().install_default();
    let mut run = Run::new("C43", "a connection was made and both exchanges were checked, or the refusal was due");
    for (k, n) in [
        ("connections over TCP", 200),
        ("connections over native TLS", 100),
        ("connections over rustls", 100),
        ("connections over QUIC", 100),
        ("by an IPv6 address", 40),
        ("servers refused", 100),
        ("refused for the protocol", 50),
        ("protocols agreed", 100),
        ("client certificates shown", 50),
        ("bound to a chosen address", 20),
        ("moved to another address", 30),
        ("closed by the client", 100),
        ("finished by the client", 100),
        ("finished by the server", 100),
        ("broken off by the server", 100),
        ("addresses refused", 100),
        ("goodbyes", 100),
        ("goodbyes over QUIC", 60),
        ("unusable settings refused", 1000),
    ] {
        run.need(k, n);
    }
    run.assume("localhost resolves to 127.0.0.1, and the loopback network has IPv6; the kernel, OpenSSL, rustls and quinn move bytes as they promise");
    for (name, kind, q, t) in [("tcp", Kind::Tcp, 1500, 20_000), ("native", Kind::Native, 2500, 20_000), ("rustls", Kind::Rustls, 4000, 30_000), ("quic", Kind::Quic, 4000, 30_000)] {
        run.cases_on(name, run.scale(q, t), run.scale(30, 500) as f64, 12, |_, r, o| on_rt(r, o, 200, |r, o| Box::pin(case(r, o, kind))));
    }
    run.cases_on("nowhere", run.scale(1000, 10_000), run.scale(20, 200) as f64, 12, |_, r, o| on_rt(r, o, 100, |r, o| Box::pin(nowhere(r, o))));
    run.cases_on("goodbye", run.scale(1000, 10_000), run.scale(20, 200) as f64, 12, |_, r, o| on_rt(r, o, 100, |r, o| Box::pin(goodbye(r, o))));
    run.finish()
}
