//! The real program over loopback against a scripted broker: what it sent, how it ended and what it
//! printed are compared with the broker's own record.
use kit::*;
use refmqtt::*;
use socket2::{Domain, Socket, Type};
use std::collections::VecDeque;
use std::io::{ErrorKind, Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Fin,
    Rst,
    Disc(u8),
    Garbage,
}

#[derive(Clone, Debug)]
enum Plan {
    /// acknowledges everything; every n-th with "no matching subscribers" or a failure
    Serve { delay: Duration, window: u16, no_match: usize, failing: usize, slow: bool },
    Refuse(u8),
    /// CONNECT is answered if so, then the end after so many publishes
    End { connack: bool, after: usize, how: How },
    /// takes everything, acknowledges nothing
    Mute,
}

#[derive(Default, Debug)]
struct Seen {
    client: Option<usize>,
    at: Option<Instant>,
    pubs: usize,
    repeats: usize,
    arrivals: Vec<Instant>,
    acked: u64,
    failed: u64,
    nomatch: u64,
    disconnect: bool,
    fin: bool,
    rst: bool,
    we_ended: bool,
    bad: Option<(&'static str, String)>,
}

#[derive(Clone)]
struct Cfg {
    clients: usize,
    messages: usize,
    qos: u8,
    ver: u8,
    topic: String,
    payload: usize,
    plans: Vec<Plan>,
}

fn rst(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
}

fn serve(mut s: TcpStream, cfg: &Cfg, mut r: Rng, stop: &AtomicBool) -> Seen {
    let mut seen = Seen { at: Some(Instant::now()), ..Default::default() };
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_millis(2)));
    let v5 = cfg.ver == 5;
    let mut buf: Vec<u8> = vec![];
    let mut plan: Option<Plan> = None;
    let mut due: VecDeque<(Instant, Vec<u8>)> = VecDeque::new();
    let mut open = 0usize;
    let mut acks = 0usize;
    let mut pids: std::collections::HashSet<u16> = Default::default();
    macro_rules! bad {
        ($sig:expr, $($a:tt)*) => {{
            seen.bad.get_or_insert(($sig, format!($($a)*)));
            return seen;
        }};
    }
    loop {
        // what is due goes out, sometimes in pieces
        while due.front().is_some_and(|x| x.0 <= Instant::now()) {
            let mut b = due.pop_front().unwrap().1;
            while r.bool() && due.front().is_some_and(|x| x.0 <= Instant::now()) {
                b.extend(due.pop_front().unwrap().1);
            }
            let cut = if r.chance(1, 6) { r.below(b.len()) } else { 0 };
            let a = s.write_all(&b[..cut]);
            if cut > 0 {
                std::thread::sleep(Duration::from_millis(1));
            }
            if a.is_err() || s.write_all(&b[cut..]).is_err() {
                break;
            }
        }
        let slow = matches!(plan, Some(Plan::Serve { slow: true, .. }));
        let mut chunk = [0u8; 4096];
        let n = if slow { r.range(1, 700) } else { 4096 };
        match s.read(&mut chunk[..n]) {
            Ok(0) => {
                seen.fin = true;
                if !buf.is_empty() {
                    bad!("bytes", "the connection ended inside a packet");
                }
                return seen;
            }
            Ok(n) => buf.extend_from_slice(&chunk[..n]),
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {
                if stop.load(SeqCst) {
                    return seen;
                }
                continue;
            }
            Err(_) => {
                seen.rst = true;
                return seen;
            }
        }
        if slow && r.chance(1, 3) {
            std::thread::sleep(Duration::from_micros(300));
        }
        let mut at = 0;
        loop {
            match frame_len(&buf[at..]) {
                Ok(Some(n)) if n <= buf.len() - at => {}
                Ok(_) => break,
                Err(m) => bad!("bytes", "the broker got {m:?} after {} publishes", seen.pubs),
            }
            let (p, n) = match decode(&buf[at..], v5) {
                Ok(x) => x,
                Err(m) => bad!("bytes", "the broker got {m:?} after {} publishes: {}", seen.pubs, short(&hex(&buf[at..]), 80)),
            };
            at += n;
            if seen.disconnect {
                bad!("after-disconnect", "{} after DISCONNECT", p.name());
            }
            if (p.ty == 1) != plan.is_none() {
                bad!("order", "{} at the wrong time", p.name());
            }
            let now = Instant::now();
            match p.ty {
                1 => {
                    let c = p.conn.clone().unwrap();
                    let level = cfg.ver.max(4);
                    let Some(i) = c.client_id.strip_prefix("mqtt_ring_bench_").and_then(|x| x.parse::<usize>().ok()) else {
                        bad!("connect", "client identifier {:?}", c.client_id);
                    };
                    if i >= cfg.clients || c.level != level {
                        bad!("connect", "client {i} of {}, protocol level {} for version {}", cfg.clients, c.level, cfg.ver);
                    }
                    seen.client = Some(i);
                    let pl = cfg.plans[i].clone();
                    match &pl {
                        Plan::Refuse(code) => {
                            let mut a = Pkt::new(v5, 2);
                            a.reason = *code;
                            let _ = s.write_all(&encode(&a));
                            seen.we_ended = true;
                            // let it be read before the end
                            drain(&mut s, &mut r);
                            return seen;
                        }
                        Plan::End { connack: false, how, .. } => {
                            seen.we_ended = true;
                            end(&mut s, *how, v5, &mut r);
                            return seen;
                        }
                        Plan::Serve { window, .. } => {
                            let mut a = Pkt::new(v5, 2);
                            if v5 && *window > 0 {
                                a.props.push(P::U16(0x21, *window));
                            }
                            due.push_back((now, encode(&a)));
                        }
                        _ => due.push_back((now, encode(&Pkt::new(v5, 2)))),
                    }
                    plan = Some(pl);
                }
                3 if p.dup && !v5 => {
                    // MQTT 3 repeats what was not answered in time
                    if !(p.pid.is_some() && seen.pubs > 0 && matches!(plan, Some(Plan::Mute) | Some(Plan::Serve { .. }))) {
                        bad!("publish", "a repeated publish: {}", short(&format!("{p:?}"), 200));
                    }
                    seen.repeats += 1;
                }
                3 => {
                    let i = seen.client.unwrap();
                    if p.topic != format!("{}/{i}", cfg.topic) || p.payload != vec![0x42u8; cfg.payload] || p.qos != cfg.qos || p.dup || p.retain {
                        bad!("publish", "client {i}: {}", short(&format!("{p:?}"), 200));
                    }
                    seen.pubs += 1;
                    seen.arrivals.push(now);
                    let pl = plan.clone().unwrap();
                    if let Plan::End { after, how, .. } = pl {
                        if seen.pubs >= after {
                            seen.we_ended = true;
                            end(&mut s, how, v5, &mut r);
                            return seen;
                        }
                    }
                    if let Some(pid) = p.pid {
                        if !pids.insert(pid) {
                            bad!("publish", "packet identifier {pid} twice");
                        }
                        open += 1;
                        let (mut d, mut code) = (Duration::ZERO, 0);
                        match &pl {
                            Plan::Mute => continue,
                            Plan::Serve { delay, window, no_match, failing, .. } => {
                                d = *delay;
                                if *window > 0 && v5 && open > *window as usize {
                                    bad!("window", "{open} open publishes, Receive Maximum {window}");
                                }
                                acks += 1;
                                if v5 && *failing > 0 && acks % failing == 0 {
                                    code = *r.pick(&[0x80, 0x87, 0x97]);
                                } else if v5 && p.qos == 1 && *no_match > 0 && acks % no_match == 0 {
                                    code = 0x10;
                                }
                            }
                            _ => {}
                        }
                        due.push_back((now + d, encode(&Pkt::ack(v5, if p.qos == 1 { 4 } else { 5 }, pid, code))));
                        if code >= 0x80 {
                            seen.failed += 1;
                        } else if code > 0 {
                            seen.nomatch += 1;
                        }
                        if code >= 0x80 || p.qos == 1 {
                            pids.remove(&pid);
                            open -= 1;
                        }
                        if code < 0x80 && p.qos == 1 {
                            seen.acked += 1;
                        }
                    }
                }
                6 => {
                    let pid = p.pid.unwrap();
                    if !pids.remove(&pid) {
                        bad!("publish", "PUBREL {pid} for nothing");
                    }
                    open -= 1;
                    seen.acked += 1;
                    due.push_back((now, encode(&Pkt::ack(v5, 7, pid, 0))));
                }
                12 => due.push_back((now, encode(&Pkt::new(v5, 13)))),
                14 => seen.disconnect = true,
                _ => bad!("publish", "the broker got {}", p.name()),
            }
        }
        buf.drain(..at);
    }
}

/// Ends the sending side and reads until the other side ends.
fn drain(s: &mut TcpStream, _r: &mut Rng) {
    let _ = s.shutdown(std::net::Shutdown::Write);
    let t = Instant::now();
    let mut b = [0; 4096];
    while t.elapsed() < Duration::from_secs(60) {
        match s.read(&mut b) {
            Ok(0) => return,
            Ok(_) => {}
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {}
            Err(_) => return,
        }
    }
}

fn end(s: &mut TcpStream, how: How, v5: bool, r: &mut Rng) {
    match how {
        How::Fin => drain(s, r),
        How::Rst => rst(s),
        How::Disc(code) => {
            let mut p = Pkt::new(v5, 14);
            p.reason = code;
            let _ = s.write_all(&encode(&p));
            drain(s, r);
        }
        How::Garbage => {
            let _ = s.write_all(&[0xf7, 0xff, 0xff, 0xff, 0xff, 0xff]);
            drain(s, r);
        }
    }
}

fn field(out: &str, name: &str) -> Option<f64> {
    out.lines().find_map(|l| {
        let rest = l.trim_start().strip_prefix(name)?.strip_prefix(':')?;
        rest.split_whitespace().next()?.parse().ok()
    })
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Plain,
    NoBroker,
    Interrupt(bool),
}

fn case(r: &mut Rng, obs: &mut Obs) -> Verdict {
    let kind = match r.below(16) {
        0 => Kind::NoBroker,
        1 => Kind::Interrupt(false),
        2 => Kind::Interrupt(true),
        _ => Kind::Plain,
    };
    let ver = r.range(3, 5) as u8;
    let v5 = ver == 5;
    let clients = if r.chance(1, 8) { r.range(20, 60) } else { r.range(1, 10) };
    let qos = r.below(3) as u8;
    let interval = if r.chance(1, 4) { r.range(5, 60) as u64 } else { 0 };
    let messages = match r.below(6) {
        _ if matches!(kind, Kind::Interrupt(_)) => 50_000_000,
        0 => r.below(3),
        1 if clients < 4 && interval == 0 => r.range(1100, 2500),
        _ => r.range(2, 60),
    };
    let payload = *r.pick(&[0usize, 1, 100, 256, 2000, 9000]);
    let payload = if messages > 1000 { payload.min(256) } else { payload };
    let faulty = r.chance(1, 3);
    let mute = qos > 0 && r.chance(1, 25);
    let plans: Vec<Plan> = (0..clients)
        .map(|_| {
            if faulty && kind == Kind::Plain && r.chance(1, 2) {
                match r.below(3) {
                    0 => Plan::Refuse(if v5 { *r.pick(&[0x80, 0x87, 0x88, 0x97]) } else { r.range(1, 5) as u8 }),
                    1 => Plan::End { connack: false, after: 0, how: *r.pick(&[How::Fin, How::Rst]) },
                    // an end is only sure to be noticed while there is something to be sent
                    _ if messages > 3 => Plan::End {
                        connack: true,
                        after: r.range(1, (messages - 1).min(20)),
                        how: match r.below(4) {
                            0 => How::Fin,
                            1 => How::Rst,
                            2 if v5 => How::Disc(*r.pick(&[0x8b, 0x8e, 0x98, 0x81])),
                            _ => How::Garbage,
                        },
                    },
                    _ => Plan::Refuse(if v5 { 0x88 } else { 3 }),
                }
            } else if mute && r.chance(1, 3) && messages < 1000 && kind == Kind::Plain {
                Plan::Mute
            } else {
                Plan::Serve {
                    delay: Duration::from_millis(if messages < 100 && r.chance(1, 2) { r.below(15) as u64 } else { 0 }),
                    window: if r.chance(1, 3) { r.range(1, 20) as u16 } else { 0 },
                    no_match: if r.chance(1, 2) { r.range(1, 6) } else { 0 },
                    failing: if r.chance(1, 3) { r.range(1, 6) } else { 0 },
                    slow: r.chance(1, 3),
                }
            }
        })
        .collect();
    let workers = r.range(1, 6);
    let rate = match r.below(4) {
        0 => r.range(1, 4) + clients / 4,
        1 => r.range(10, 100),
        _ => 1000,
    };
    let cfg = Cfg { clients, messages, qos, ver, topic: (*r.pick(&["bench/test", "t", "a/b"])).to_string(), payload, plans };
    // the broker
    let l = Socket::new(Domain::IPV4, Type::STREAM, None).unwrap();
    if r.chance(1, 3) {
        let _ = l.set_recv_buffer_size(r.range(20_000, 60_000));
    }
    l.bind(&SocketAddr::from(([127, 0, 0, 1], 0)).into()).unwrap();
    if kind != Kind::NoBroker {
        l.listen(128).unwrap();
    }
    let l: TcpListener = l.into();
    let port = l.local_addr().unwrap().port();
    let stop = AtomicBool::new(false);
    let all: Mutex<Vec<Seen>> = Mutex::new(vec![]);
    let socket_buf = *r.pick(&[2048usize, 512, 20_000]);
    let parser_buf = *r.pick(&[1500usize, 64, 5000]);
    let keep_alive = *r.pick(&[60u16, 0, 5]);
    let rngs: Vec<Rng> = (0..clients + 4).map(|_| Rng::new(r.u64())).collect();
    let exe = std::env::current_exe().unwrap().with_file_name("mqtt_ring_bench");
    let args: Vec<String> = [
        ("--host", "127.0.0.1".to_string()),
        ("--port", port.to_string()),
        ("--clients", clients.to_string()),
        ("--messages", messages.to_string()),
        ("--qos", qos.to_string()),
        ("--topic", cfg.topic.clone()),
        ("--payload-size", payload.to_string()),
        ("--interval", interval.to_string()),
        ("--keep-alive", keep_alive.to_string()),
        ("--mqtt-version", ver.to_string()),
        ("--workers", workers.to_string()),
        ("--connect-rate", rate.to_string()),
        ("--socket-buf", socket_buf.to_string()),
        ("--parser-buf", parser_buf.to_string()),
        ("--shutdown-mode", if kind == Kind::Interrupt(true) { "graceful" } else { "immediate" }.to_string()),
    ]
    .into_iter()
    .flat_map(|(a, b)| [a.to_string(), b])
    .collect();
    let allow = Duration::from_secs_f64(
        40.0 + clients as f64 / rate as f64
            + interval as f64 * messages.min(3000) as f64 / 1000.0 * 1.5
            + messages.min(3000) as f64 * 0.03,
    );
    let interrupt_after = Duration::from_millis(r.range(300, 2500) as u64);
    let started = Instant::now();
    let mut out = String::new();
    let mut err = String::new();
    let mut code: Option<Option<i32>> = None;
    std::thread::scope(|sc| {
        let (all, cfg, stop) = (&all, &cfg, &stop);
        l.set_nonblocking(true).unwrap();
        let l = &l;
        sc.spawn(move || {
            let mut rngs = rngs.into_iter();
            while !stop.load(SeqCst) {
                if kind == Kind::NoBroker {
                    return;
                }
                match l.accept() {
                    Ok((s, _)) => {
                        s.set_nonblocking(false).unwrap();
                        let rr = rngs.next().unwrap_or(Rng::new(9));
                        sc.spawn(move || {
                            let x = serve(s, cfg, rr, stop);
                            all.lock().unwrap().push(x);
                        });
                    }
                    Err(_) => std::thread::sleep(Duration::from_millis(1)),
                }
            }
        });
        let mut ch = Command::new(&exe)
            .args(&args)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| panic!("harness: cannot start {exe:?}: {e}"));
        let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
        let ho = sc.spawn(move || {
            let mut s = String::new();
            let _ = o.read_to_string(&mut s);
            s
        });
        let he = sc.spawn(move || {
            let mut s = String::new();
            let _ = e.read_to_string(&mut s);
            s
        });
        let mut signalled = false;
        loop {
            if let Some(st) = ch.try_wait().unwrap() {
                code = Some(st.code());
                break;
            }
            if matches!(kind, Kind::Interrupt(_)) && !signalled && started.elapsed() > interrupt_after {
                signalled = true;
                unsafe { libc::kill(ch.id() as i32, libc::SIGINT) };
            }
            if started.elapsed() > allow {
                let _ = ch.kill();
                let _ = ch.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        out = ho.join().unwrap();
        err = he.join().unwrap();
        // whatever is under way arrives; connections still open have not ended
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(10) && code.is_some() {
            std::thread::sleep(Duration::from_millis(5));
            // all that connected have been served
            if all.lock().unwrap().len() >= field_live(&err, "Connected").unwrap_or(0.0) as usize {
                break;
            }
        }
        stop.store(true, SeqCst);
    });
    let seen = all.into_inner().unwrap();
    let what = format!("{} {}", args.join(" "), short(&format!("{:?}", cfg.plans), 300));
    for s in &seen {
        if let Some((sig, d)) = &s.bad {
            // an immediate exit may leave half a packet
            if !(kind == Kind::Interrupt(false) && *sig == "bytes" && d.contains("inside")) && !(kind == Kind::Interrupt(true) && d.contains("inside")) {
                return fail(format!("run-{sig}"), format!("{d}; {what}"));
            }
        }
    }
    // the pace of connecting
    let mut at: Vec<Instant> = seen.iter().filter_map(|s| s.at).collect();
    at.sort();
    for (k, t) in at.iter().enumerate() {
        let t = t.duration_since(started).as_secs_f64();
        ensure!(
            (k + 1) as f64 <= rate as f64 * t + 1.0,
            "connect-rate",
            "{} connections after {t:.3} s at {rate} per second; {what}",
            k + 1
        );
    }
    // the pace of publishing
    for s in &seen {
        for (k, t) in s.arrivals.iter().enumerate() {
            let least = s.at.unwrap().duration_since(started).min(Duration::ZERO) + Duration::from_millis(interval) * k as u32;
            ensure!(
                t.duration_since(started) >= least,
                "interval",
                "publish {k} after {:?} at one every {interval} ms; {what}",
                t.duration_since(started)
            );
        }
    }
    match kind {
        Kind::Interrupt(graceful) => {
            obs.count(if graceful { "graceful_stops" } else { "immediate_stops" });
            ensure!(code.is_some(), "stop", "still running {allow:?} after an interrupt; {what}");
            ensure!(code == Some(Some(130)), "stop-code", "exit code {code:?} after an interrupt; {what}");
            if !graceful {
                obs.case(hash64(what.as_bytes()));
                return Ok(());
            }
        }
        _ => {
            ensure!(
                code.is_some(),
                "never-ends",
                "still running after {allow:?}; last line: {}; {what}",
                short(err.rsplit('\r').next().unwrap_or("").trim(), 200)
            );
            ensure!(code == Some(Some(0)), "exit-code", "exit code {code:?}; {}; {what}", short(&err, 300));
        }
    }
    // what was printed
    let Some(sent) = field(&out, "Total Sent") else {
        return fail("no-summary", format!("no summary: {}; {what}", short(&out, 200)));
    };
    let get = |n: &str| field(&out, n).unwrap_or(0.0);
    let (errors, connect_e, send_e, recv_e, mqtt_e) = (get("Errors"), get("Connect"), get("Send"), get("Receive"), get("MQTT"));
    let (mc, mp, ml, md) = (get("CONNECT"), get("PUBLISH"), get("Client"), get("Disconnect"));
    let socket_e = get("Socket");
    ensure!(
        errors == socket_e + connect_e + send_e + recv_e + mqtt_e && mqtt_e == mc + mp + ml + md,
        "error-sums",
        "the errors printed do not add up: {}; {what}",
        short(&out, 1500)
    );
    let dur = get("Duration");
    ensure!(dur <= started.elapsed().as_secs_f64() + 0.01, "duration", "{dur} s printed, it took {:?}; {what}", started.elapsed());
    let thr = get("Throughput");
    if dur > 0.05 {
        let (lo, hi) = (sent / (dur + 0.006), sent / (dur - 0.006));
        ensure!(thr >= lo - 0.01 && thr <= hi + 0.01, "throughput", "{thr} msg/s for {sent} in {dur} s; {what}");
    }
    if kind == Kind::NoBroker {
        obs.count("no_broker");
        ensure!(
            connect_e == clients as f64 && errors == connect_e && sent == 0.0,
            "no-broker",
            "{clients} clients without a broker: {connect_e} connect errors, {errors} in all, {sent} sent; {what}"
        );
        obs.case(hash64(what.as_bytes()));
        return Ok(());
    }
    let acked = get("Total Acked");
    let samples = get("Samples");
    let got: u64 = seen.iter().map(|s| s.pubs as u64).sum();
    if qos > 0 {
        let ok: u64 = seen.iter().map(|s| s.acked).sum();
        let ending = seen.iter().any(|s| s.we_ended && s.pubs > 0) || kind != Kind::Plain;
        ensure!(
            acked <= ok as f64 && (ending || acked == ok as f64),
            "acked",
            "the broker acknowledged {ok}, printed {acked}; {what}"
        );
        ensure!(samples == acked, "samples", "{acked} acknowledged, {samples} latency samples; {what}");
        if samples > 0.0 {
            let (mn, mx, av, p50, p95, p99) = (get("Min"), get("Max"), get("Avg"), get("P50"), get("P95"), get("P99"));
            ensure!(
                mn <= p50 && p50 <= p95 && p95 <= p99 && p99 <= mx && mn <= av && av <= mx,
                "latencies",
                "min {mn} avg {av} P50 {p50} P95 {p95} P99 {p99} max {mx}; {what}"
            );
            ensure!(mx <= dur * 1000.0 + 10.0, "latencies", "a latency of {mx} ms in a run of {dur} s; {what}");
            let least = cfg
                .plans
                .iter()
                .filter_map(|p| match p {
                    Plan::Serve { delay, .. } => Some(delay.as_secs_f64() * 1000.0),
                    Plan::End { .. } => Some(0.0),
                    _ => None,
                })
                .fold(f64::MAX, f64::min);
            ensure!(least == f64::MAX || mn >= least - 0.006, "latencies", "{mn} ms, no acknowledgement came within {least} ms; {what}");
        }
        let nm: u64 = seen.iter().map(|s| s.nomatch).sum();
        let printed = get("PubAckNoMatch");
        ensure!(
            printed <= nm as f64 && (kind != Kind::Plain || printed == nm as f64),
            "no-match",
            "{nm} PUBACKs without subscribers, printed {printed}; {what}"
        );
    }
    if kind != Kind::Plain {
        ensure!(got <= sent as u64, "sent", "{sent} printed, the broker got {got}; {what}");
        obs.case(hash64(what.as_bytes()));
        return Ok(());
    }
    // client by client
    let mut least = 0u64;
    let mut most = 0u64;
    let (mut want_refused, mut want_io, mut want_disc, mut want_garbage, mut want_failed) = (0, 0, 0, 0, 0u64);
    for i in 0..clients {
        let mine: Vec<&Seen> = seen.iter().filter(|s| s.client == Some(i)).collect();
        ensure!(mine.len() == 1, "connections", "client {i} connected {} times; {what}", mine.len());
        let s = mine[0];
        want_failed += s.failed;
        match &cfg.plans[i] {
            Plan::Serve { .. } | Plan::Mute => {
                ensure!(
                    s.pubs == messages,
                    "publishes",
                    "client {i}: the broker got {} of {messages} publishes ({sent} printed as sent); {what}",
                    s.pubs
                );
                ensure!(s.disconnect && s.fin, "farewell", "client {i}: DISCONNECT {}, FIN {}; {what}", s.disconnect, s.fin);
                least += messages as u64;
                most += messages as u64;
                obs.count("served");
                obs.add("published", messages as u64);
            }
            Plan::Refuse(_) => {
                want_refused += 1;
                obs.count("refused");
                ensure!(s.pubs == 0, "published-refused", "client {i} published after a refusal; {what}");
            }
            Plan::End { how, .. } => {
                match how {
                    How::Fin | How::Rst => want_io += 1,
                    How::Disc(_) => want_disc += 1,
                    How::Garbage => want_garbage += 1,
                }
                obs.count("ended");
                least += s.pubs as u64;
                most += messages as u64;
            }
        }
    }
    ensure!(
        sent as u64 >= least && sent as u64 <= most,
        "sent",
        "{sent} printed as sent, the broker's count says {least} to {most}; {what}"
    );
    let n = |x: f64| x as u64;
    ensure!(n(mc) == want_refused, "errors", "{want_refused} clients refused, {mc} counted; {what}");
    ensure!(n(mp) == want_failed, "errors", "{want_failed} publishes refused, {mp} counted; {what}");
    ensure!(
        // at QoS 0 a client may be through before it sees the end
        (if qos == 0 { want_refused } else { want_refused + want_io + want_disc + want_garbage }..=want_refused + want_io + want_disc + 2 * want_garbage).contains(&(n(errors) - n(mp))),
        "errors",
        "{want_refused} refused, {want_io} cut off, {want_disc} disconnected, {want_garbage} sent garbage: {}; {what}",
        short(&out[out.find("Errors").unwrap_or(0)..], 400)
    );
    ensure!(socket_e + connect_e == 0.0, "errors", "{socket_e} socket and {connect_e} connect errors with a broker there; {what}");
    // a disconnect may be overtaken by the failing send
    ensure!(
        n(md) <= want_disc + want_garbage && n(send_e + recv_e) + n(md) <= want_io + want_disc + want_garbage && n(ml) <= want_garbage,
        "errors",
        "{want_io} cut off, {want_disc} disconnected, {want_garbage} sent garbage: {}; {what}",
        short(&out[out.find("Errors").unwrap_or(0)..], 400)
    );
    obs.case(hash64(what.as_bytes()));
    obs.count("finished");
    Ok(())
}

/// A number of the last line of the running display.
fn field_live(err: &str, name: &str) -> Option<f64> {
    let l = err.rsplit('\r').find(|l| l.contains("Connected:"))?;
    let rest = l.split(&format!("{name}: ")).nth(1)?;
    rest.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
}

pub fn phase(run: &mut Run) {
    // the kernel may refuse io_uring; the other phases stand alone
    if io_uring::IoUring::new(8).is_err() {
        run.assume("io_uring is not available here: the program itself was not run");
        eprintln!("note: io_uring is not available, the program itself was not run");
        return;
    }
    run.cases_on("runs", run.scale(250, 6000), run.scale(30, 500) as f64, 24, |_, r, obs| case(r, obs));
    run.need("finished", 40);
    run.need("served", 200);
    run.need("ended", 5);
    run.need("refused", 5);
    run.need("no_broker", 2);
    run.need("graceful_stops", 2);
}
