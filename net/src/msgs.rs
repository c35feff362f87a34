//! C30: every message to the handler once and in order, every publish to the broker once and in
//! order, over TCP, TLS and QUIC.
use crate::sync::on_rt;
use crate::tk::*;
use flowsdk::mqtt_client::commands::*;
use flowsdk::mqtt_client::opts::TlsBackend;
use flowsdk::mqtt_client::tokio_async_client::{TokioAsyncClientConfig, TokioAsyncMqttClient};
use flowsdk::mqtt_client::MqttClientOptions;
use kit::*;
use refmqtt::*;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

const LEAF: &[u8] = include_bytes!("../certs/leaf.der");
const LEAF_KEY: &[u8] = include_bytes!("../certs/leaf_key.der");
pub const CA: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/certs/ca.pem");

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Tcp,
    Rustls,
    Native,
    Quic,
}

pub fn server_tls(alpn: bool) -> rustls::ServerConfig {
    let p = Arc::new(rustls::crypto::ring::default_provider());
    let mut c = rustls::ServerConfig::builder_with_provider(p)
        .with_safe_default_protocol_versions()
        .unwrap()
        .with_no_client_auth()
        .with_single_cert(vec![CertificateDer::from(LEAF.to_vec())], PrivateKeyDer::try_from(LEAF_KEY.to_vec()).unwrap())
        .unwrap();
    if alpn {
        c.alpn_protocols = vec![b"mqtt".to_vec()];
    }
    c
}

/// A listener, the peer address for the client, and the first connection to come.
async fn meet(via: Via, small: bool) -> (String, tokio::task::JoinHandle<Result<Box<dyn Duplex>, String>>) {
    if via == Via::Quic {
        let crypto = quinn::crypto::rustls::QuicServerConfig::try_from(server_tls(true)).unwrap();
        let mut sc = quinn::ServerConfig::with_crypto(Arc::new(crypto));
        if small {
            let mut t = quinn::TransportConfig::default();
            t.stream_receive_window(20_000u32.into()).receive_window(30_000u32.into());
            sc.transport_config(Arc::new(t));
        }
        let ep = quinn::Endpoint::server(sc, "127.0.0.1:0".parse().unwrap()).unwrap();
        let addr = format!("quic://{}", ep.local_addr().unwrap());
        return (
            addr,
            tokio::spawn(async move {
                let c = ep.accept().await.ok_or("endpoint closed")?.await.map_err(|e| e.to_string())?;
                let (s, r) = c.accept_bi().await.map_err(|e| e.to_string())?;
                // the endpoint lives as long as the connection does
                tokio::spawn(async move {
                    c.closed().await;
                    drop(ep);
                });
                Ok(Box::new(tokio::io::join(r, s)) as Box<dyn Duplex>)
            }),
        );
    }
    let sock = tokio::net::TcpSocket::new_v4().unwrap();
    if small {
        let _ = sock.set_recv_buffer_size(4096);
    }
    sock.bind("127.0.0.1:0".parse().unwrap()).unwrap();
    let l = sock.listen(8).unwrap();
    let a = l.local_addr().unwrap();
    let addr = match via {
        Via::Tcp => format!("{a}"),
        _ => format!("mqtts://{a}"),
    };
    (
        addr,
        tokio::spawn(async move {
            let (s, _) = l.accept().await.map_err(|e| e.to_string())?;
            let _ = s.set_nodelay(true);
            if via == Via::Tcp {
                return Ok(Box::new(s) as Box<dyn Duplex>);
            }
            let t = tokio_rustls::TlsAcceptor::from(Arc::new(server_tls(false))).accept(s).await.map_err(|e| e.to_string())?;
            Ok(Box::new(t) as Box<dyn Duplex>)
        }),
    )
}

#[derive(Default)]
struct Book {
    /// publishes in the order they came
    got: Vec<Vec<u8>>,
    acks: BTreeMap<(u8, u16), usize>,
    bad: Option<String>,
    connected: bool,
    sent: Vec<(String, Vec<u8>, u8, bool)>,
    all_sent: bool,
    pings: usize,
    gone: bool,
}

type Sh = Arc<Mutex<Book>>;

struct Plan {
    messages: usize,
    chunk: usize,
    pause: usize,
    read: usize,
    read_pause: usize,
    stall: u64,
    rm: Option<u16>,
    big: usize,
}

fn body(r: &mut Rng, big: usize) -> Vec<u8> {
    let n = match r.below(12) {
        0 => 0,
        1 => r.below(big.max(1)),
        2 | 3 => r.below(3000),
        _ => r.below(40),
    };
    let mut v = vec![0u8; n];
    let k = r.u8();
    for (i, b) in v.iter_mut().enumerate() {
        *b = (i as u8).wrapping_mul(31).wrapping_add(k);
    }
    v
}

async fn broker(sock: Box<dyn Duplex>, v5: bool, sh: Sh, plan: Plan, mut r: Rng, mut go: tokio::sync::oneshot::Receiver<()>) {
    let (mut rd, mut wr) = tokio::io::split(sock);
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<Pkt>();
    let (sh2, mut r2) = (sh.clone(), Rng::new(r.u64()));
    let (read, read_pause, mut stall) = (plan.read, plan.read_pause, plan.stall);
    let reader = tokio::spawn(async move {
        let mut buf: Vec<u8> = vec![];
        let mut first = true;
        loop {
            let mut chunk = vec![0u8; r2.range(1, read)];
            let n = rd.read(&mut chunk).await.unwrap_or(0);
            if n == 0 {
                sh2.lock().unwrap().gone = true;
                return;
            }
            buf.extend_from_slice(&chunk[..n]);
            if read_pause > 0 && r2.chance(1, 4) {
                tokio::time::sleep(Duration::from_micros(r2.below(read_pause) as u64)).await;
            }
            if announced_len(&buf).is_some_and(|l| l > buf.len()) {
                continue;
            }
            let (v, used) = match decode_all(&buf, v5) {
                Ok(x) => x,
                Err(e) => {
                    sh2.lock().unwrap().bad = Some(format!("the client sent no MQTT: {e:?} in {}", hex(&buf[..buf.len().min(60)])));
                    return;
                }
            };
            buf.drain(..used);
            for p in v {
                if p.ty == CONNECT && !first || first && p.ty != CONNECT {
                    sh2.lock().unwrap().bad = Some(format!("{} out of place", p.name()));
                }
                first = false;
                match p.ty {
                    PINGREQ => sh2.lock().unwrap().pings += 1,
                    PUBLISH => {
                        sh2.lock().unwrap().got.push(p.payload.clone());
                        if stall > 0 {
                            // nothing is read for a while
                            tokio::time::sleep(Duration::from_millis(stall)).await;
                            stall = 0;
                        }
                    }
                    PUBACK | PUBREC | PUBCOMP => *sh2.lock().unwrap().acks.entry((p.ty, p.pid.unwrap())).or_default() += 1,
                    _ => {}
                }
                let _ = tx.send(p);
            }
        }
    });
    let mut todo: VecDeque<usize> = (0..plan.messages).collect();
    let mut pid = 0u16;
    let mut out: Vec<u8> = vec![];
    let mut up = false;
    loop {
        // what comes next: an answer or a message
        let mut answers = vec![];
        while let Ok(p) = rx.try_recv() {
            answers.push(p);
        }
        if answers.is_empty() && out.is_empty() && (todo.is_empty() || !up) {
            match rx.recv().await {
                Some(p) => answers.push(p),
                None => break,
            }
        }
        for p in answers {
            match p.ty {
                CONNECT => {
                    if (&mut go).await.is_err() {
                        return;
                    }
                    let mut a = Pkt::new(v5, CONNACK);
                    if let (true, Some(m)) = (v5, plan.rm) {
                        a.props.push(P::U16(0x21, m));
                    }
                    out.extend(encode(&a));
                    up = true;
                    sh.lock().unwrap().connected = true;
                }
                PUBLISH if p.qos > 0 => out.extend(encode(&Pkt::ack(v5, if p.qos == 1 { PUBACK } else { PUBREC }, p.pid.unwrap(), 0))),
                PUBREL => out.extend(encode(&Pkt::ack(v5, PUBCOMP, p.pid.unwrap(), 0))),
                PUBREC => out.extend(encode(&Pkt::ack(v5, PUBREL, p.pid.unwrap(), 0))),
                PINGREQ => out.extend(encode(&Pkt::new(v5, PINGRESP))),
                _ => {}
            }
        }
        if up {
            // a burst of some messages
            for _ in 0..r.range(1, 20).min(todo.len()) {
                let i = todo.pop_front().unwrap();
                let mut m = Pkt::new(v5, PUBLISH);
                m.topic = format!("m/{}", i % 5);
                m.qos = r.below(3) as u8;
                m.retain = r.bool();
                if m.qos > 0 {
                    pid += 1;
                    m.pid = Some(pid);
                }
                m.payload = format!("{i}:").into_bytes();
                m.payload.extend(body(&mut r, plan.big));
                if v5 && r.bool() {
                    m.props.push(P::Pair("k".into(), format!("{i}")));
                }
                sh.lock().unwrap().sent.push((m.topic.clone(), m.payload.clone(), m.qos, m.retain));
                out.extend(encode(&m));
            }
            if todo.is_empty() {
                sh.lock().unwrap().all_sent = true;
            }
        }
        // pieces; large outputs in larger ones, so that a case stays short
        let piece = plan.chunk.max(out.len() / 300 + 1);
        let mut at = 0;
        while at < out.len() {
            let n = r.range(1, piece).min(out.len() - at);
            if wr.write_all(&out[at..at + n]).await.is_err() || wr.flush().await.is_err() {
                break;
            }
            at += n;
            if plan.pause > 0 && r.chance(1, 6) {
                tokio::time::sleep(Duration::from_micros(r.below(plan.pause) as u64)).await;
            } else if r.chance(1, 3) {
                tokio::task::yield_now().await;
            }
        }
        out.clear();
    }
    let _ = reader.await;
}

async fn until(limit: Duration, f: impl Fn() -> bool) -> bool {
    let t = Instant::now();
    while t.elapsed() < limit {
        if f() {
            return true;
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    f()
}

fn cut(b: &[u8]) -> String {
    short(&String::from_utf8_lossy(&b[..b.len().min(24)]), 24) + &format!(" ({} bytes)", b.len())
}

async fn case(r: &mut Rng, obs: Arc<Mutex<Obs>>, fixed: Option<Via>, stall: u64) -> Verdict {
    let via = fixed.unwrap_or(Via::Tcp);
    let v5 = r.bool();
    let slow = r.chance(1, 4) || fixed.is_some() && r.bool();
    let big = if slow { 60_000 } else { *r.pick(&[100usize, 5000, 70_000]) };
    let (addr, first) = meet(via, slow).await;
    let sh: Sh = Arc::default();
    let busy = *r.pick(&[0u64, 0, 300, 3000]);
    let plan = Plan {
        messages: if stall > 0 { r.range(2, 80) } else { r.below(80) },
        chunk: *r.pick(&[1usize, 7, 100, 3000, 1_000_000]),
        pause: *r.pick(&[0usize, 100, 2000]),
        read: if slow { 3000 } else { *r.pick(&[1usize, 50, 100_000]) }.max(if big > 1000 { 3000 } else { 1 }),
        read_pause: if slow { 1500 } else { *r.pick(&[0usize, 0, 300]) },
        stall: if slow { r.range(20, 400) as u64 } else { 0 },
        rm: *r.pick(&[None, None, Some(1u16), Some(4), Some(65535)]),
        big,
    };
    let messages = plan.messages;
    let (go, gate) = tokio::sync::oneshot::channel();
    let (sh2, br) = (sh.clone(), Rng::new(r.u64()));
    let srv = tokio::spawn(async move {
        match first.await.unwrap() {
            Ok(s) => broker(s, v5, sh2, plan, br, gate).await,
            Err(e) => sh2.lock().unwrap().bad = Some(format!("the handshake failed: {e}")),
        }
    });
    let options = MqttClientOptions {
        peer: addr,
        client_id: "msgs".into(),
        clean_start: true,
        keep_alive: 300,
        mqtt_version: if v5 { 5 } else { 4 },
        retransmission_timeout_ms: 1_000_000,
        max_event_count: *r.pick(&[1, 3, 50, 1000]),
        parser_buffer_size: *r.pick(&[64, 1024, 16384]),
        max_outgoing_packet_count: *r.pick(&[1, 8, 1000]),
        tls_backend: match via {
            Via::Rustls => Some(TlsBackend::Rustls),
            Via::Native => Some(TlsBackend::Native),
            _ => None,
        },
        ..Default::default()
    };
    let limits = format!("{via:?} v5={v5} slow={slow} big={big} busy={busy} stall={stall} events={} buffer={} outgoing={} messages={messages}", options.max_event_count, options.parser_buffer_size, options.max_outgoing_packet_count);
    let cfg = TokioAsyncClientConfig {
        auto_reconnect: false,
        command_queue_size: *r.pick(&[1, 10, 1000]),
        quic_custom_root_ca_pem: (via == Via::Quic).then(|| std::fs::read_to_string(CA).unwrap()),
        ..Default::default()
    };
    let log = Log::default();
    let c = Arc::new(TokioAsyncMqttClient::new(options, Box::new(H { log: log.clone(), busy, stall, rng: Rng::new(r.u64()) }), cfg).await.unwrap());
    {
        let mut o = obs.lock().unwrap();
        o.case(hash64(format!("{limits}{}", r.u16()).as_bytes()));
        o.sample = Some(limits.clone());
    }
    let bad = || -> Verdict {
        if let Some(b) = sh.lock().unwrap().bad.clone() {
            return fail("wire", format!("{b}; {limits}"));
        }
        if let Some(e) = log.all().into_iter().find(|c| matches!(c, Cb::Error(_) | Cb::Lost)) {
            return fail("error", format!("{e:?} on a connection that stays up; {limits}"));
        }
        Ok(())
    };
    let limit = Duration::from_secs(25);

    // before the CONNACK: priorities
    c.connect().await.unwrap();
    let mut want: Vec<Vec<u8>> = vec![];
    let mut n = 0;
    let publish = |n: usize, prio: Option<u8>, r: &mut Rng, big: usize| {
        let mut p = format!("p{n}:").into_bytes();
        p.extend(body(r, big));
        let qos = r.below(3) as u8;
        let mut b = PublishCommand::builder().topic(format!("t/{}", n % 3)).payload(p.clone()).qos(qos).retain(r.bool());
        if let Some(x) = prio {
            b = b.priority(x);
        }
        (b.build().unwrap(), p)
    };
    if r.bool() {
        let few = r.bool();
        let mut v: Vec<(u8, Vec<u8>)> = vec![];
        for _ in 0..r.below(40) {
            let prio = if few { *r.pick(&[0u8, 1, 128, 255]) } else { r.u8() };
            let (cmd, p) = publish(n, Some(prio), r, big);
            n += 1;
            v.push((prio, p));
            c.publish_with_command(cmd).await.unwrap();
        }
        // everything so far has been taken in once this is on the wire
        c.ping().await.unwrap();
        until(Duration::from_secs(2), || sh.lock().unwrap().pings > 0).await;
        v.sort_by_key(|x| 255 - x.0);
        obs.lock().unwrap().add("publishes queued before the CONNACK", v.len() as u64);
        want.extend(v.into_iter().map(|x| x.1));
    }
    let _ = go.send(());
    until(limit, || log.count(|c| matches!(c, Cb::Connected(0, _))) == 1 || bad().is_err()).await;
    bad()?;
    ensure!(log.count(|c| matches!(c, Cb::Connected(0, _))) == 1, "connect", "no on_connected; {limits}");
    let pre = want.len();
    until(limit, || sh.lock().unwrap().got.len() >= pre || bad().is_err()).await;
    // then all of one priority, from one task, while messages come in
    let prio = r.bool().then(|| r.u8());
    for _ in 0..r.below(if slow { 120 } else { 60 }) {
        let (cmd, p) = publish(n, prio, r, big);
        n += 1;
        want.push(p);
        c.publish_with_command(cmd).await.unwrap();
        if r.chance(1, 10) {
            tokio::time::sleep(Duration::from_micros(r.below(2000) as u64)).await;
        }
    }
    until(limit, || {
        let b = sh.lock().unwrap();
        let m = log.count(|c| matches!(c, Cb::Message(..)));
        (b.got.len() >= want.len() && (b.all_sent || messages == 0) && m >= b.sent.len()) || b.bad.is_some() || b.gone
    })
    .await;
    bad()?;
    // the answers
    let owed = |b: &Book| -> Vec<(u8, u16)> {
        let mut pid = 0;
        let mut v = vec![];
        for (_, _, q, _) in &b.sent {
            if *q > 0 {
                pid += 1;
                if *q == 1 {
                    v.push((PUBACK, pid));
                } else {
                    v.push((PUBREC, pid));
                    v.push((PUBCOMP, pid));
                }
            }
        }
        v
    };
    until(limit, || {
        let b = sh.lock().unwrap();
        owed(&b).iter().all(|k| b.acks.contains_key(k)) || b.bad.is_some()
    })
    .await;
    bad()?;
    tokio::time::sleep(Duration::from_millis(10)).await;
    let got: Vec<(String, Vec<u8>, u8, bool)> = log
        .all()
        .into_iter()
        .filter_map(|c| match c {
            Cb::Message(t, p, q, rt) => Some((t, p, q, rt)),
            _ => None,
        })
        .collect();
    {
        let b = sh.lock().unwrap();
        for (i, (g, s)) in got.iter().zip(&b.sent).enumerate() {
            ensure!(g == s, "message", "message {i} reached the handler as {} {} qos {} retain {}, and was sent as {} {} qos {} retain {}; {limits}", g.0, cut(&g.1), g.2, g.3, s.0, cut(&s.1), s.2, s.3);
        }
        ensure!(got.len() == b.sent.len(), "message-count", "{} messages were sent and {} reached the handler; {limits}", b.sent.len(), got.len());
        for (i, (g, w)) in b.got.iter().zip(&want).enumerate() {
            ensure!(g == w, "publish", "publish {i} on the wire is {}, and should be {}, which {}; {limits}", cut(g), cut(w), match b.got.iter().position(|x| x == w) { Some(k) => format!("is number {k}"), None => "never came out".into() });
        }
        ensure!(b.got.len() == want.len(), "publish-count", "{} publishes were accepted and {} came out; {limits}", want.len(), b.got.len());
        let o: BTreeSet<(u8, u16)> = owed(&b).into_iter().collect();
        for k in &o {
            ensure!(b.acks.get(k) == Some(&1), "answer", "{:?} answers of type {} for packet {}; {limits}", b.acks.get(k), k.0, k.1);
        }
        ensure!(b.acks.len() == o.len(), "answer", "answers to nothing: {:?}; {limits}", b.acks);
        let mut ob = obs.lock().unwrap();
        ob.add("messages that reached the handler", got.len() as u64);
        ob.add("publishes that came out", want.len() as u64);
        ob.count(["over TCP", "over rustls", "over native TLS", "over QUIC"][via as usize]);
        if slow {
            ob.count("with a broker slow to read");
        }
    }
    // a publish that cannot be encoded is reported, and nothing else happens to it
    if r.chance(1, 3) {
        let qos = r.below(3) as u8;
        let before = sh.lock().unwrap().got.len();
        c.publish_with_command(PublishCommand::builder().topic("x".repeat(70_000)).payload(b"no".to_vec()).qos(qos).build().unwrap()).await.unwrap();
        let errors = || log.count(|c| matches!(c, Cb::Error(_)));
        until(Duration::from_secs(4), || errors() > 0).await;
        ensure!(errors() == 1, "silent-error", "{} errors reported for a publish that cannot be encoded; {limits}", errors());
        let x = c.publish_with_command_sync(PublishCommand::builder().topic("t").payload(b"after".to_vec()).qos(1).build().unwrap()).await;
        ensure!(x.is_ok(), "after-error", "{x:?}; {limits}");
        let b = sh.lock().unwrap();
        ensure!(b.got.len() == before + 1 && b.got.last().unwrap() == b"after", "after-error", "{} publishes after it; {limits}", b.got.len() - before);
        obs.lock().unwrap().count("publishes that cannot be encoded");
    }
    srv.abort();
    Ok(())
}

pub fn c30() {
    // trust for the TLS transports, before any thread exists
    std::env::set_var("SSL_CERT_FILE", CA);
    // as every example of the repository does
    let _ = rustls::crypto::ring::default_provider().install_default();
    let mut run = Run::new("C30", "messages or publishes went through");
    for (k, n) in [
        ("messages that reached the handler", 5000),
        ("publishes that came out", 5000),
        ("publishes queued before the CONNACK", 500),
        ("over TCP", 100),
        ("over rustls", 20),
        ("over native TLS", 10),
        ("over QUIC", 20),
        ("with a broker slow to read", 30),
        ("handlers that stalled", 32),
        ("publishes that cannot be encoded", 20),
    ] {
        run.need(k, n);
    }
    run.assume("a broker on loopback that reads and writes independently, and answers everything");
    run.cases_on("tcp", run.scale(400, 15_000), run.scale(60, 600) as f64, 16, |_, r, o| on_rt(r, o, 90, |r, o| Box::pin(case(r, o, None, 0))));
    run.cases_on("stalls", run.scale(64, 640), run.scale(60, 600) as f64, 64, |i, r, o| {
        let v = on_rt(r, o, 90, move |r, o| Box::pin(case(r, o, None, [300, 1300, 3000, 6000][i as usize % 4])));
        o.count("handlers that stalled");
        v
    });
    for (name, via, q, t) in [("rustls", Via::Rustls, 80, 3000), ("native", Via::Native, 40, 1000), ("quic", Via::Quic, 80, 3000)] {
        run.cases_on(name, run.scale(q, t), run.scale(40, 300) as f64, 16, |_, r, o| on_rt(r, o, 90, |r, o| Box::pin(case(r, o, Some(via), 0))));
    }
    run.finish()
}
