//! C42: the settings of the async client do what they say.
use crate::msgs;
use crate::sync::on_rt;
use crate::tk::*;
use flowsdk::mqtt_client::opts::TlsBackend;
use flowsdk::mqtt_client::tokio_async_client::{TokioAsyncClientConfig, TokioAsyncMqttClient};
use flowsdk::mqtt_client::transport::rustls_tls::RustlsTlsConfig;
use flowsdk::mqtt_client::transport::tls::TlsConfig;
use flowsdk::mqtt_client::{MqttClientError, MqttClientOptions};
use kit::*;
use refmqtt::*;
use std::os::fd::BorrowedFd;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn bad(sig: &str, d: String) -> Violation {
    Violation { sig: sig.into(), detail: d }
}

/// Every builder method sets its own field, the profiles those they name.
fn builder(r: &mut Rng, o: &mut Obs) -> Verdict {
    let mut b = TokioAsyncClientConfig::builder();
    let mut w = TokioAsyncClientConfig::default();
    let mut calls: Vec<String> = vec![];
    let mut shape = vec![];
    for _ in 0..r.range(1, 14) {
        let k = r.below(37) as u8;
        shape.push(k);
        let n = *r.pick(&[0u64, 1, 7, 250, 5000, 60_000, u64::MAX]);
        let m = r.range(1, 65535) as u16;
        let t = r.bool();
        let text = format!("pem {n}");
        macro_rules! set {
            ($call:ident($v:expr), $field:ident = $x:expr) => {{
                calls.push(format!("{}({:?})", stringify!($call), $v));
                w.$field = $x;
                b.$call($v)
            }};
            ($call:ident, $($field:ident = $x:expr),*) => {{
                calls.push(format!("{}()", stringify!($call)));
                $(w.$field = $x;)*
                b.$call()
            }};
        }
        macro_rules! profile {
            ($call:ident, $c:expr, $o:expr, $p:expr, $d:expr) => {
                set!($call, connect_timeout_ms = $c, subscribe_timeout_ms = $o, publish_ack_timeout_ms = $o, unsubscribe_timeout_ms = $o, ping_timeout_ms = $p, default_operation_timeout_ms = $d)
            };
        }
        b = match k {
            0 => set!(auto_reconnect(t), auto_reconnect = t),
            1 => set!(max_reconnect_delay_ms(n), max_reconnect_delay_ms = n),
            2 => set!(max_reconnect_attempts(n as u32), max_reconnect_attempts = n as u32),
            3 => set!(priority_queue_enabled(t), priority_queue_enabled = t),
            4 => set!(priority_queue_limit(n as usize), priority_queue_limit = n as usize),
            5 => set!(connect_timeout_ms(n), connect_timeout_ms = Some(n)),
            6 => set!(no_connect_timeout, connect_timeout_ms = None),
            7 => set!(subscribe_timeout_ms(n), subscribe_timeout_ms = Some(n)),
            8 => set!(no_subscribe_timeout, subscribe_timeout_ms = None),
            9 => set!(publish_ack_timeout_ms(n), publish_ack_timeout_ms = Some(n)),
            10 => set!(no_publish_ack_timeout, publish_ack_timeout_ms = None),
            11 => set!(unsubscribe_timeout_ms(n), unsubscribe_timeout_ms = Some(n)),
            12 => set!(no_unsubscribe_timeout, unsubscribe_timeout_ms = None),
            13 => set!(ping_timeout_ms(n), ping_timeout_ms = Some(n)),
            14 => set!(no_ping_timeout, ping_timeout_ms = None),
            15 => set!(default_operation_timeout_ms(n), default_operation_timeout_ms = n),
            16 => set!(command_queue_size(n as usize), command_queue_size = n as usize),
            17 => set!(buffer_messages(t), buffer_messages = t),
            18 => set!(max_buffer_size(n as usize), max_buffer_size = n as usize),
            19 => set!(tcp_nodelay(t), tcp_nodelay = t),
            20 => set!(receive_maximum(m), receive_maximum = Some(m)),
            21 => set!(no_receive_maximum, receive_maximum = None),
            22 => set!(topic_alias_maximum(m), topic_alias_maximum = Some(m)),
            23 => set!(no_topic_alias, topic_alias_maximum = None),
            24 => set!(quic_enable_0rtt(t), quic_enable_0rtt = t),
            25 => set!(quic_insecure_skip_verify(t), quic_insecure_skip_verify = t),
            26 => set!(quic_custom_root_ca_pem(text.clone()), quic_custom_root_ca_pem = Some(text.clone())),
            27 => set!(quic_client_cert_pem(text.clone()), quic_client_cert_pem = Some(text.clone())),
            28 => set!(quic_client_key_pem(text.clone()), quic_client_key_pem = Some(text.clone())),
            29 => set!(quic_datagram_receive_buffer_size(n as usize), quic_datagram_receive_buffer_size = n as usize),
            30 => set!(quic_local_bind_addr(std::net::SocketAddr::from(([127, 0, 0, 1], m))), quic_local_bind_addr = Some(([127, 0, 0, 1], m).into())),
            31 => set!(quic_enable_key_log(t), quic_enable_key_log = t),
            32 => set!(tls_enable_key_log(t), tls_enable_key_log = t),
            33 => {
                calls.push("no_timeouts()".into());
                (w.connect_timeout_ms, w.subscribe_timeout_ms, w.publish_ack_timeout_ms, w.unsubscribe_timeout_ms, w.ping_timeout_ms) = (None, None, None, None, None);
                b.no_timeouts()
            }
            34 => profile!(local_network_timeouts, Some(5000), Some(3000), Some(2000), 5000),
            35 => profile!(satellite_timeouts, Some(120_000), Some(60_000), Some(30_000), 120_000),
            _ => {
                if r.bool() {
                    profile!(internet_timeouts, Some(30_000), Some(10_000), Some(5000), 30_000)
                } else {
                    profile!(default_timeouts, Some(30_000), Some(10_000), Some(5000), 30_000)
                }
            }
        };
    }
    let (g, w) = (format!("{:?}", b.build()), format!("{w:?}"));
    ensure!(g == w, "builder", "{} made {g}, not {w}", calls.join("."));
    o.add("builder calls", calls.len() as u64);
    o.case(hash64(&shape));
    Ok(())
}

fn options(r: &mut Rng, peer: String, v5: bool) -> MqttClientOptions {
    let mut o = MqttClientOptions { peer, client_id: "set".into(), mqtt_version: if v5 { 5 } else { 4 }, keep_alive: 0, reconnect_base_delay_ms: 1, reconnect_max_delay_ms: 10, ..Default::default() };
    if r.bool() {
        o.session_expiry_interval = Some(r.u32());
    }
    if r.bool() {
        o.maximum_packet_size = Some(r.range(1_000_000, 10_000_000) as u32);
    }
    if r.bool() {
        o.request_response_information = Some(r.bool());
    }
    if r.bool() {
        o.request_problem_information = Some(r.bool());
    }
    o
}

async fn packets(p: &mut Peer, ctx: &str) -> Result<Vec<Pkt>, Violation> {
    match tokio::time::timeout(Duration::from_secs(30), p.recv()).await {
        Ok(Ok(Some(v))) => Ok(v),
        x => Err(bad("silent", format!("nothing from the client: {x:?}; {ctx}"))),
    }
}

/// What CONNECT announces, and topic aliases the server may use thereby.
async fn limits(r: &mut Rng, o: Arc<Mutex<Obs>>) -> Verdict {
    let v5 = r.chance(5, 6);
    let (l, addr) = listen().await;
    let opts = options(r, addr, v5);
    let mut want: Vec<P> = vec![];
    want.extend(opts.session_expiry_interval.map(|x| P::U32(0x11, x)));
    want.extend(opts.maximum_packet_size.map(|x| P::U32(0x27, x)));
    want.extend(opts.request_response_information.map(|x| P::Byte(0x19, x as u8)));
    want.extend(opts.request_problem_information.map(|x| P::Byte(0x17, x as u8)));
    let rm = r.bool().then(|| *r.pick(&[1u16, 2, 100, 65535]));
    let ta = r.chance(3, 4).then(|| *r.pick(&[0u16, 1, 2, 5, 5, 100, 65535]));
    want.extend(rm.map(|x| P::U16(0x21, x)));
    want.extend(ta.filter(|x| *x > 0).map(|x| P::U16(0x22, x)));
    let mut cfg = TokioAsyncClientConfig { auto_reconnect: true, ..Default::default() };
    if r.bool() {
        (cfg.receive_maximum, cfg.topic_alias_maximum) = (rm, ta);
    } else {
        let mut b = TokioAsyncClientConfig::builder();
        if let Some(x) = rm {
            b = b.receive_maximum(x);
        }
        if let Some(x) = ta {
            b = b.topic_alias_maximum(x);
        }
        cfg = b.build();
    }
    let ctx = format!("receive_maximum {rm:?}, topic_alias_maximum {ta:?}, MQTT {}", if v5 { 5 } else { 3 });
    let log = Log::default();
    let c = TokioAsyncMqttClient::new(opts, Box::new(H { log: log.clone(), busy: 0, stall: 0, rng: Rng::new(0) }), cfg).await.map_err(|e| bad("new", e.to_string()))?;
    c.connect().await.map_err(|e| bad("connect", e.to_string()))?;
    let key = |p: &P| format!("{p:?}");
    let mut expect: Vec<(String, Vec<u8>)> = vec![];
    let mut shape = ctx.clone();
    for _ in 0..r.range(1, 3) {
        let (s, _) = match tokio::time::timeout(Duration::from_secs(30), l.accept()).await {
            Ok(x) => x.unwrap(),
            Err(_) => return fail("silent", format!("no connection; {ctx}")),
        };
        let mut p = Peer::new(tcp(s), v5);
        let got = packets(&mut p, &ctx).await?;
        ensure!(got.len() == 1 && got[0].ty == CONNECT, "connect", "{got:?}; {ctx}");
        let (mut have, mut w) = (got[0].props.clone(), if v5 { want.clone() } else { vec![] });
        have.sort_by_key(key);
        w.sort_by_key(key);
        ensure!(have == w, "announced", "CONNECT has {have:?}, the settings ask for {w:?}; {ctx}");
        o.lock().unwrap().count("CONNECT packets compared");
        let mut ack = Pkt::new(v5, CONNACK);
        ack.reason = 0;
        p.send(&ack).await;
        // messages, by alias wherever one is allowed and known
        let max = ta.unwrap_or(0);
        let mut known: Vec<(u16, String)> = vec![];
        let mut bytes = vec![];
        for _ in 0..r.below(12) {
            let mut m = Pkt::new(v5, PUBLISH);
            m.qos = r.below(3) as u8;
            if m.qos > 0 {
                m.pid = Some(expect.len() as u16 + 1);
            }
            m.payload = (expect.len() as u32).to_be_bytes().to_vec();
            m.topic = format!("t/{}", r.below(50));
            let mut topic = m.topic.clone();
            if v5 && max > 0 {
                if !known.is_empty() && r.bool() {
                    let (a, t) = r.pick(&known).clone();
                    topic = t;
                    m.topic = String::new();
                    m.props.push(P::U16(0x23, a));
                    o.lock().unwrap().count("messages by alias alone");
                    shape.push('a');
                } else if r.chance(2, 3) {
                    let a = r.range(1, (max as usize).min(6)) as u16;
                    let a = if r.chance(1, 4) { max } else { a };
                    if known.iter().any(|k| k.0 == a) {
                        o.lock().unwrap().count("aliases given anew");
                    }
                    known.retain(|k| k.0 != a);
                    known.push((a, topic.clone()));
                    m.props.push(P::U16(0x23, a));
                    shape.push('n');
                }
            }
            shape.push(m.qos as char);
            bytes.extend(encode(&m));
            expect.push((topic, m.payload.clone()));
        }
        p.write(&bytes).await;
        let t = Instant::now();
        loop {
            let have: Vec<(String, Vec<u8>)> = log.all().into_iter().filter_map(|c| if let Cb::Message(t, b, ..) = c { Some((t, b)) } else { None }).collect();
            ensure!(have.len() <= expect.len() && have[..] == expect[..have.len()], "message", "the handler was given {:?}, the server sent {:?}; {ctx}", have.iter().zip(&expect).find(|(a, b)| a != b), expect.len());
            if have.len() == expect.len() && log.count(|c| matches!(c, Cb::Connected(..))) > 0 {
                break;
            }
            ensure!(t.elapsed() < Duration::from_secs(30), "message", "{} of {} messages; {ctx}; {:?}", have.len(), expect.len(), log.all().last());
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        shape.push('/');
        o.lock().unwrap().count("connections");
        drop(p);
    }
    o.lock().unwrap().add("messages compared", expect.len() as u64);
    o.lock().unwrap().case(hash64(shape.as_bytes()));
    let _ = c.shutdown().await;
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Connect,
    Publish,
    Subscribe,
    Unsubscribe,
    Ping,
}

/// A call whose answer comes late or never ends by its own timeout, not before and not by another's.
async fn timeouts(r: &mut Rng, o: Arc<Mutex<Obs>>) -> Verdict {
    let v5 = r.bool();
    let op = *r.pick(&[Op::Connect, Op::Publish, Op::Subscribe, Op::Unsubscribe, Op::Ping]);
    // when the server answers (None: never), and the call's timeout (None: without)
    let (answer, limit) = match r.below(4) {
        0 => (None, Some(r.range(1, 400) as u64)),
        1 => (Some(r.range(300, 700) as u64), Some(r.range(1, 120) as u64)),
        2 => (Some(r.below(300) as u64), None),
        _ => (Some(r.below(300) as u64), Some(60_000)),
    };
    let own = r.bool();
    let (l, addr) = listen().await;
    let silent = op == Op::Connect && r.chance(1, 3);
    let addr = if silent { format!("mqtts://{addr}") } else { addr };
    let answer = if silent { None } else { answer };
    let limit = if answer.is_none() { Some(limit.unwrap_or(200).min(400)) } else { limit };
    let mut opts = options(r, addr, v5);
    opts.retransmission_timeout_ms = 3_600_000;
    opts.tls_backend = Some(if r.bool() { TlsBackend::Rustls } else { TlsBackend::Native });
    // the other operations' limits would show if they were taken for this one's
    let other = if limit.is_some_and(|x| x < 1000) { Some(50_000) } else { Some(1) };
    let mut cfg = TokioAsyncClientConfig {
        auto_reconnect: false,
        connect_timeout_ms: other,
        publish_ack_timeout_ms: other,
        subscribe_timeout_ms: other,
        unsubscribe_timeout_ms: other,
        ping_timeout_ms: other,
        default_operation_timeout_ms: if other == Some(1) { 1 } else { 50_000 },
        ..Default::default()
    };
    let with = own && limit.is_some();
    if !with {
        *match op {
            Op::Connect => &mut cfg.connect_timeout_ms,
            Op::Publish => &mut cfg.publish_ack_timeout_ms,
            Op::Subscribe => &mut cfg.subscribe_timeout_ms,
            Op::Unsubscribe => &mut cfg.unsubscribe_timeout_ms,
            Op::Ping => &mut cfg.ping_timeout_ms,
        } = limit;
    }
    let ctx = format!("{op:?}, answer after {answer:?} ms, timeout {limit:?} {}, {}", if with { "of the call" } else { "of the settings" }, if silent { "server without TLS" } else { "" });
    let log = Log::default();
    let c = TokioAsyncMqttClient::new(opts, Box::new(H { log: log.clone(), busy: 0, stall: 0, rng: Rng::new(0) }), cfg).await.map_err(|e| bad("new", e.to_string()))?;
    let wait = answer;
    let srv = tokio::spawn(async move {
        let (s, _) = l.accept().await.unwrap();
        if silent {
            tokio::time::sleep(Duration::from_secs(60)).await;
            drop(s);
            return;
        }
        let mut p = Peer::new(tcp(s), v5);
        while let Ok(Some(v)) = p.recv().await {
            for q in v {
                let late = match (q.ty, op) {
                    (CONNECT, Op::Connect) => true,
                    (CONNECT, _) => false,
                    (PUBREL, _) => false,
                    _ => true,
                };
                if late {
                    match wait {
                        Some(ms) => tokio::time::sleep(Duration::from_millis(ms)).await,
                        None => continue,
                    }
                }
                let mut a = match (q.ty, q.qos) {
                    (CONNECT, _) => Pkt::new(v5, CONNACK),
                    (PUBLISH, 1) => Pkt::ack(v5, PUBACK, q.pid.unwrap(), 0),
                    (PUBLISH, 2) => Pkt::ack(v5, PUBREC, q.pid.unwrap(), 0),
                    (PUBREL, _) => Pkt::ack(v5, PUBCOMP, q.pid.unwrap(), 0),
                    (SUBSCRIBE, _) => Pkt::ack(v5, SUBACK, q.pid.unwrap(), 0),
                    (UNSUBSCRIBE, _) => Pkt::ack(v5, UNSUBACK, q.pid.unwrap(), 0),
                    (PINGREQ, _) => Pkt::new(v5, PINGRESP),
                    _ => continue,
                };
                if q.ty == SUBSCRIBE || (q.ty == UNSUBSCRIBE && v5) {
                    a.codes = vec![0; q.filters.len()];
                }
                p.send(&a).await;
            }
        }
    });
    if op != Op::Connect {
        let _ = c.connect().await;
        let t = Instant::now();
        while log.count(|c| matches!(c, Cb::Connected(..))) == 0 {
            ensure!(t.elapsed() < Duration::from_secs(30), "silent", "not connected; {:?}", log.all());
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    let qos = r.range(1, 2) as u8;
    let t0 = Instant::now();
    let ms = limit.unwrap_or(0);
    let call = async {
        match (op, with) {
            (Op::Connect, false) => c.connect_sync().await.map(|_| ()),
            (Op::Connect, true) => c.connect_sync_with_timeout(ms).await.map(|_| ()),
            (Op::Publish, false) => c.publish_sync("a", b"x", qos, false).await.map(|_| ()),
            (Op::Publish, true) => c.publish_sync_with_timeout("a", b"x", qos, false, ms).await.map(|_| ()),
            (Op::Subscribe, false) => c.subscribe_sync("a", 1).await.map(|_| ()),
            (Op::Subscribe, true) => c.subscribe_sync_with_timeout("a", 1, ms).await.map(|_| ()),
            (Op::Unsubscribe, false) => c.unsubscribe_sync(vec!["a"]).await.map(|_| ()),
            (Op::Unsubscribe, true) => c.unsubscribe_sync_with_timeout(vec!["a"], ms).await.map(|_| ()),
            (Op::Ping, false) => c.ping_sync().await.map(|_| ()),
            (Op::Ping, true) => c.ping_sync_with_timeout(ms).await.map(|_| ()),
        }
    };
    let res = match tokio::time::timeout(Duration::from_secs(30), call).await {
        Ok(x) => x,
        Err(_) => return fail("late", format!("no result after 30 s; {ctx}")),
    };
    let took = t0.elapsed();
    let name = format!("{op:?}").to_lowercase();
    let due = limit.is_some_and(|x| answer.is_none_or(|a| x + 150 < a));
    match &res {
        Ok(()) => {
            ensure!(answer.is_some(), "answer", "a result without an answer; {ctx}");
            // timers of the client may be held up by a loaded machine, those of the server are not early
            ensure!(took >= Duration::from_millis(answer.unwrap()), "answer", "a result after {took:?}, before the answer; {ctx}");
            o.lock().unwrap().count(if limit.is_some() { "answers in time" } else { "answers without a limit" });
        }
        Err(MqttClientError::OperationTimeout { operation, timeout_ms }) => {
            ensure!(limit == Some(*timeout_ms) && *operation == name, "whose", "{operation} gave up after {timeout_ms} ms; {ctx}");
            ensure!(took >= Duration::from_millis(ms), "early", "gave up after {took:?}; {ctx}");
            o.lock().unwrap().count("calls given up");
        }
        Err(e) => return fail("error", format!("{e:?} after {took:?}; {ctx}")),
    }
    if due && res.is_ok() {
        // on a machine that stood still the answer can come first
        o.lock().unwrap().count("overtaken");
    }
    let mut o = o.lock().unwrap();
    o.count(match op {
        Op::Connect => "connect",
        Op::Publish => "publish",
        Op::Subscribe => "subscribe",
        Op::Unsubscribe => "unsubscribe",
        Op::Ping => "ping",
    });
    o.case(hash64(ctx.as_bytes()));
    srv.abort();
    Ok(())
}

/// The process's own socket between these two addresses.
fn own_socket(here: std::net::SocketAddr, there: std::net::SocketAddr) -> Option<std::net::TcpStream> {
    for e in std::fs::read_dir("/proc/self/fd").ok()?.flatten() {
        let fd: i32 = e.file_name().to_str()?.parse().ok()?;
        if !std::fs::read_link(e.path()).is_ok_and(|p| p.to_string_lossy().starts_with("socket:")) {
            continue;
        }
        // only looked at: the descriptor cannot be closed meanwhile, its owner waits for the server
        let Ok(f) = (unsafe { BorrowedFd::borrow_raw(fd) }).try_clone_to_owned() else { continue };
        let s = std::net::TcpStream::from(f);
        if s.local_addr().is_ok_and(|a| a == here) && s.peer_addr().is_ok_and(|a| a == there) {
            return Some(s);
        }
    }
    None
}

/// Socket options of TCP and TLS connections; bound address and datagrams of QUIC ones.
async fn sockets(r: &mut Rng, o: Arc<Mutex<Obs>>) -> Verdict {
    let via = *r.pick(&[msgs::Via::Tcp, msgs::Via::Rustls, msgs::Via::Native, msgs::Via::Quic]);
    let nodelay = r.bool();
    let mut cfg = TokioAsyncClientConfig { auto_reconnect: false, tcp_nodelay: nodelay, ..Default::default() };
    let log = Log::default();
    let h = Box::new(H { log: log.clone(), busy: 0, stall: 0, rng: Rng::new(0) });
    if via == msgs::Via::Quic {
        let ep = quinn::Endpoint::server(quinn::ServerConfig::with_crypto(Arc::new(quinn::crypto::rustls::QuicServerConfig::try_from(msgs::server_tls(true)).unwrap())), "127.0.0.1:0".parse().unwrap()).unwrap();
        let size = *r.pick(&[0usize, 0, 200, 1200, 1_000_000]);
        cfg.quic_datagram_receive_buffer_size = size;
        cfg.quic_custom_root_ca_pem = Some(std::fs::read_to_string(msgs::CA).unwrap());
        let bind = match r.below(3) {
            0 => None,
            _ => {
                // a port that was free a moment ago
                let a = std::net::UdpSocket::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
                Some(a)
            }
        };
        cfg.quic_local_bind_addr = bind;
        let opts = options(r, format!("quic://{}", ep.local_addr().unwrap()), true);
        let c = TokioAsyncMqttClient::new(opts, h, cfg).await.map_err(|e| bad("new", e.to_string()))?;
        c.connect().await.map_err(|e| bad("connect", e.to_string()))?;
        let con = match tokio::time::timeout(Duration::from_secs(20), ep.accept()).await {
            Ok(Some(x)) => x.await.map_err(|e| bad("quic", format!("{e}; {:?}", log.all())))?,
            _ if log.count(|c| matches!(c, Cb::Error(e) if e.contains("in use"))) > 0 => return Ok(()),
            _ => return fail("quic", format!("no connection; bound to {bind:?}; {:?}", log.all())),
        };
        if let Some(b) = bind {
            ensure!(con.remote_address() == b, "bind", "the client was to use {b} and uses {}", con.remote_address());
            o.lock().unwrap().count("QUIC connections from the address asked for");
        }
        let can = con.max_datagram_size().unwrap_or(0) > 0;
        ensure!(can == (size > 0), "datagrams", "buffer for datagrams {size}, the server may send {:?}", con.max_datagram_size());
        o.lock().unwrap().count("QUIC connections");
        o.lock().unwrap().case(hash64(format!("{size} {}", bind.is_some()).as_bytes()) ^ r.u64());
        con.close(0u32.into(), b"");
        let _ = c.shutdown().await;
        return Ok(());
    }
    let (l, addr) = listen().await;
    let mut opts = options(r, if via == msgs::Via::Tcp { addr.clone() } else { format!("mqtts://{addr}") }, true);
    let ca = std::fs::read(msgs::CA).unwrap();
    match via {
        msgs::Via::Rustls => opts = opts.rustls_tls_config(RustlsTlsConfig::builder().add_roots_from_pem(&ca).unwrap().build()),
        msgs::Via::Native => opts = opts.tls_config(TlsConfig::builder().add_root_certificate(native_tls::Certificate::from_pem(&ca).unwrap()).build()),
        _ => {}
    }
    let c = TokioAsyncMqttClient::new(opts, h, cfg).await.map_err(|e| bad("new", e.to_string()))?;
    c.connect().await.map_err(|e| bad("connect", e.to_string()))?;
    let (s, from) = l.accept().await.unwrap();
    let there = s.local_addr().unwrap();
    let sock: Box<dyn Duplex> = if via == msgs::Via::Tcp { tcp(s) } else { Box::new(tokio_rustls::TlsAcceptor::from(Arc::new(msgs::server_tls(false))).accept(s).await.map_err(|e| bad("tls", e.to_string()))?) };
    let mut p = Peer::new(sock, true);
    let got = packets(&mut p, "sockets").await?;
    ensure!(got[0].ty == CONNECT, "connect", "{got:?}");
    let own = own_socket(from, there).ok_or_else(|| bad("socket", "harness: the client's socket is not among the process's".into()))?;
    let is = own.nodelay().unwrap();
    ensure!(is == nodelay, "nodelay", "tcp_nodelay({nodelay}) over {via:?} left TCP_NODELAY {is}");
    o.lock().unwrap().count("sockets looked at");
    o.lock().unwrap().case(hash64(format!("{via:?} {nodelay}").as_bytes()) ^ r.u64());
    let _ = c.shutdown().await;
    Ok(())
}

pub fn c42() {
    let _ = rustls::crypto::ring::default_provider().install_default();
    let mut run = Run::new("C42", "a setting was compared with its effect");
    for (k, n) in [
        ("builder calls", 20_000),
        ("CONNECT packets compared", 500),
        ("messages compared", 2000),
        ("messages by alias alone", 500),
        ("aliases given anew", 50),
        ("calls given up", 100),
        ("answers in time", 40),
        ("answers without a limit", 40),
        ("sockets looked at", 60),
        ("QUIC connections", 20),
        ("QUIC connections from the address asked for", 10),
    ] {
        run.need(k, n);
    }
    run.assume("the server uses no alias above the maximum announced, and none it has not given on the same connection");
    run.cases("builder", run.scale(20_000, 500_000), run.scale(10, 60) as f64, |_, r, o| builder(r, o));
    run.cases_on("limits", run.scale(1500, 40_000), run.scale(60, 600) as f64, 16, |_, r, o| on_rt(r, o, 200, |r, o| Box::pin(limits(r, o))));
    run.cases_on("timeouts", run.scale(600, 15_000), run.scale(60, 600) as f64, 16, |_, r, o| on_rt(r, o, 200, |r, o| Box::pin(timeouts(r, o))));
    run.cases_on("sockets", run.scale(240, 6000), run.scale(60, 600) as f64, 1, |_, r, o| on_rt(r, o, 200, |r, o| Box::pin(sockets(r, o))));
    run.finish()
}
