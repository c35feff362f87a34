use crate::qsim::*;
use crate::rig::*;
use flowsdk::mqtt_client::MqttEvent;
use kit::*;
use refmqtt::*;
use std::collections::BTreeSet;
use flowsdk::mqtt_client::{QuicZeroRttConfig, QuicZeroRttStatus as Z};
use std::time::Duration;

/// Before the MQTT session is there, commands are refused unless 0-RTT is under way.
fn too_early(g: &mut Rig, r: &mut Rng, obs: &mut Obs) -> Verdict {
    use flowsdk::mqtt_client::commands::*;
    use flowsdk::mqtt_serde::mqttv5::subscribe::TopicSubscription;
    let cl = &mut g.net.cl;
    if cl.is_connected() || cl.zero_rtt_status() == Z::Attempted || !r.chance(1, 4) {
        return Ok(());
    }
    let what = r.below(4);
    let ok = match what {
        0 => cl.open_data_stream().is_ok(),
        1 => cl.publish(PublishCommand::new("early".into(), vec![1], r.below(3) as u8, false, false, None, vec![], 0)).is_ok(),
        2 => cl.subscribe(SubscribeCommand::new(None, vec![TopicSubscription::new("early".into(), 0, false, false, 0)], vec![])).is_ok(),
        _ => cl.unsubscribe(UnsubscribeCommand::new(None, vec!["early".into()], vec![])).is_ok(),
    };
    ensure!(!ok, "too-early", "command {what} is taken before the connection is there, 0-RTT status {:?}", g.net.cl.zero_rtt_status());
    obs.count("commands refused before the connection");
    Ok(())
}

/// Connect at the QUIC and MQTT levels.
pub fn establish(g: &mut Rig, r: &mut Rng, obs: &mut Obs) -> Verdict {
    let (a, now) = (g.net.addr, g.net.now);
    g.net.cl.connect(a, "localhost", client_tls(), now).map_err(|e| Violation { sig: "connect".into(), detail: format!("{e:?}") })?;
    wait_connected(g, r, obs)
}

pub fn wait_connected(g: &mut Rig, r: &mut Rng, obs: &mut Obs) -> Verdict {
    let want = g.connected + 1;
    let keep = g.net.cfg.clone();
    for k in 0..20000 {
        if k == 2000 {
            // probes back off exponentially: no more loss after 10 s
            g.net.clean_path();
        }
        too_early(g, r, obs)?;
        g.turn(r, 5000, obs)?;
        g.broker_flush(r, true);
        if g.connected == want {
            g.net.cfg = keep;
            ensure!(g.net.cl.is_connected(), "connected", "Connected reported but the engine is not connected");
            return Ok(());
        }
    }
    fail("never-connected", format!("no connection within 100 s: {:?}\n{}", g.other_evs, g.dump()))
}

fn final_check(g: &mut Rig) -> Verdict {
    let mut a = g.acked_pubs.clone();
    let mut b = g.got_pubs.clone();
    a.sort();
    b.sort();
    ensure!(a == b, "completions", "the broker completed {a:?}\nreported were {b:?}");
    let mut a = g.acked_subs.clone();
    let mut b = g.got_subs.clone();
    a.sort();
    b.sort();
    ensure!(a == b, "completions", "the broker acknowledged {a:?}\nreported were {b:?}");
    let bad: Vec<_> = g.other_evs.iter().collect();
    ensure!(bad.is_empty() && g.disconnected == 0, "events", "unexpected events {bad:?}, {} disconnects", g.disconnected);
    // every explicit stream carried its own list to the end; the default ones one stream each
    for (sid, exp) in &g.cmds {
        if *sid < u64::MAX - 1 {
            ensure!(g.obs.get(sid).map_or(0, |o| o.cmds.len()) == exp.len(), "stream-complete", "stream {sid} is missing commands");
        }
    }
    let explicit: BTreeSet<u64> = g.cmds.keys().copied().filter(|s| *s < u64::MAX - 1).collect();
    for ty in [true, false] {
        let n: Vec<u64> = g.obs.iter().filter(|(s, o)| !explicit.contains(s) && o.cmds.first().is_some_and(|p| (p.ty == PUBLISH) == ty)).map(|(s, _)| *s).collect();
        ensure!(n.len() <= 1, "default-stream", "default traffic of one kind went to streams {n:?}");
    }
    Ok(())
}

pub fn c24_case(r: &mut Rng, obs: &mut Obs, retrans: bool) -> Verdict {
    let mut cfg = QCfg::random(r);
    if retrans {
        cfg.v5 = r.chance(1, 4);
        cfg.retrans_ms = *r.pick(&[200, 400, 2000]);
    }
    let mut ncfg = NetCfg::random(r);
    if retrans {
        ncfg.stream_window = ncfg.stream_window.max(20_000);
        ncfg.conn_window = ncfg.conn_window.max(100_000);
    }
    let mut g = Rig::new(cfg, ncfg, r);
    g.retrans = retrans && !g.cfg.v5;
    g.cross = r.chance(1, 3);
    if g.cfg.v5 && r.chance(1, 3) {
        g.connack.props.push(P::U16(33, *r.pick(&[1, 3, 30])));
    }
    establish(&mut g, r, obs)?;
    let mut explicit: Vec<u64> = vec![];
    let mut server_streams: Vec<u64> = vec![];
    let steps = r.range(20, 120);
    let mut shape = vec![];
    for _ in 0..steps {
        let k = r.below(100);
        match k {
            0..=7 => match g.net.cl.open_data_stream() {
                Ok(h) => {
                    ensure!(!explicit.contains(&h) && h != 0, "handle", "stream handle {h} given out twice");
                    explicit.push(h);
                    g.cmds.insert(h, vec![]);
                    obs.count("explicit streams");
                }
                Err(_) => obs.count("streams refused"),
            },
            8..=20 => {
                g.command(r, None, obs)?;
            }
            21..=45 if !explicit.is_empty() => {
                let s = *r.pick(&explicit);
                for _ in 0..r.range(1, 4) {
                    g.command(r, Some(s), obs)?;
                }
            }
            46..=48 => {
                if g.net.cl.ping().is_ok() {
                    g.pings += 1;
                }
            }
            49..=60 => {
                // the broker publishes on any stream it knows
                let ids: Vec<u64> = g.net.srv().unwrap().streams.keys().copied().collect();
                let s = *r.pick(&ids);
                for _ in 0..r.range(1, 6) {
                    g.broker_publish(r, s);
                }
            }
            61..=64 => {
                if let Some(s) = g.net.srv().unwrap().open() {
                    server_streams.push(s);
                    obs.count("streams opened by the broker");
                    g.broker_publish(r, s);
                }
            }
            65..=68 => {
                let rate = *r.pick(&[1, 7, 100, usize::MAX]);
                let paused = r.chance(1, 3);
                let c = g.net.srv().unwrap();
                let ids: Vec<u64> = c.streams.keys().copied().collect();
                let s = c.stream(*r.pick(&ids)).unwrap();
                s.tx_rate = rate;
                s.paused = paused;
            }
            69..=70 => g.hold_replies = r.bool(),
            71..=80 => g.broker_flush(r, false),
            81 => {
                // the mobile path: the client moved to another address
                let _ = g.net.cl.notify_local_address_changed();
            }
            _ => {
                let dt = *r.pick(&[100u64, 1000, 5000, 20000]);
                g.turn(r, dt, obs)?;
                g.broker_flush(r, false);
            }
        }
        shape.push(k as u8);
    }
    g.settle(r, obs, 120)?;
    if retrans {
        for _ in 0..20 {
            g.turn(r, 10_000, obs)?;
        }
    }
    final_check(&mut g)?;
    obs.add("datagrams", g.net.dgrams);
    obs.add("datagrams lost", g.net.dropped);
    let n = g.obs.len();
    obs.add("streams", n as u64);
    if n < 3 {
        obs.trivial();
    }
    let sig = format!("{:?}{:?}{:?}", shape, g.cfg, g.net.cfg);
    obs.case(hash64(sig.as_bytes()));
    if obs.sample.is_none() { obs.sample = Some(format!("{} streams\n{}", n, g.dump())); }
    Ok(())
}

/// A stream whose replies the broker does not take: it stalls alone and without hoarding data.
fn c24_stall(r: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut cfg = QCfg::random(r);
    cfg.auto_ack = true;
    cfg.max_out = *r.pick(&[1, 5, 50]);
    cfg.max_ev = 1000;
    cfg.rm = 65535;
    let ncfg = NetCfg { stream_window: *r.pick(&[200, 1000, 4000]), ..NetCfg::default() };
    let window = ncfg.stream_window as usize;
    let mut g = Rig::new(cfg, ncfg, r);
    establish(&mut g, r, obs)?;
    let mut hs = vec![];
    for _ in 0..2 {
        let h = g.net.cl.open_data_stream().map_err(|e| Violation { sig: "open".into(), detail: format!("{e:?}") })?;
        g.cmds.insert(h, vec![]);
        while !g.command(r, Some(h), obs)? {}
        g.settle(r, obs, 120)?;
        hs.push(h);
    }
    let (x, y) = if r.bool() { (hs[0], hs[1]) } else { (hs[1], hs[0]) };
    let x = if r.chance(1, 4) { g.net.srv().and_then(|c| c.open()).unwrap_or(x) } else { x };
    g.net.srv().unwrap().streams.get_mut(&x).unwrap().paused = true;
    let tx0 = g.net.srv().unwrap().conn.stats().udp_tx.bytes as usize;
    let (got0, size) = (g.obs.get(&x).map_or(0, |o| o.got_msgs), r.range(1000, 1400));
    // what it may deliver: the acknowledgements fit the window and the stream's own buffer
    let most = window / 4 + g.cfg.max_out + 4;
    let (mut sent, mut idle, mut seen) = (0, 0, got0);
    // or it takes a few now and then
    let trickle = r.bool().then(|| r.range(3, 12));
    let mut turns = 0;
    while idle < 60 && turns < 1500 {
        turns += 1;
        if let Some(t) = trickle {
            g.net.srv().unwrap().streams.get_mut(&x).unwrap().paused = turns % t != 0;
        }
        while sent < 20_000 && g.net.srv().unwrap().streams[&x].tx.len() < 64_000 {
            sent += 1;
            let pid = 20_000 + sent as u16;
            g.srv_pids.insert(pid, x);
            let payload = r.bytes(size);
            let p = pub_pkt(g.cfg.v5, &format!("s/{x}"), &payload, 1, false, Some(pid));
            g.broker_send(x, p);
            g.broker_flush(r, true);
        }
        g.turn(r, 4000, obs)?;
        let now = g.obs.get(&x).map_or(0, |o| o.got_msgs);
        let tx = g.net.srv().unwrap().conn.stats().udp_tx.bytes as usize - tx0;
        if trickle.is_none() {
            ensure!(now - got0 <= most, "stall-replies", "the broker takes no replies ({window} bytes of window, {} packets of buffer), yet {} messages that ask for one were delivered", g.cfg.max_out, now - got0);
        }
        // quinn's window, once more on its way through the parser, and the cost of the datagrams
        ensure!(tx <= (now - got0 + 1) * size * 5 / 4 + 4_500_000, "stall-memory", "the broker takes few replies, {} messages of {size} bytes were delivered, yet the client took {tx} bytes", now - got0);
        idle = if now == seen { idle + 1 } else { 0 };
        seen = now;
    }
    obs.add("messages held by a stalled stream", (sent - (seen - got0)) as u64);
    if trickle.is_some() {
        g.net.srv().unwrap().streams.get_mut(&x).unwrap().paused = true;
        obs.count("streams whose replies trickled");
    }
    // the others go on
    let keep: Vec<Pkt> = g.todo.remove(&x).unwrap_or_default().into();
    for _ in 0..r.range(1, 4) {
        while !g.command(r, Some(y), obs)? {
            g.turn(r, 4000, obs)?;
            g.broker_flush(r, true);
        }
        g.broker_publish(r, y);
        g.broker_publish(r, 0);
    }
    let mut k = 0;
    loop {
        g.turn(r, 4000, obs)?;
        g.broker_flush(r, true);
        let all = |g: &Rig, s: u64| g.obs.get(&s).is_none_or(|o| o.got_msgs == o.msgs.len() && o.due.len() == o.replies.len());
        if g.obs.get(&y).is_some_and(|o| o.cmds.len() == g.cmds[&y].len()) && all(&g, y) && all(&g, 0) && g.mine.values().all(|(_, s)| *s != y) {
            break;
        }
        k += 1;
        ensure!(k < 2000, "stall-others", "stream {x} is stalled; stream {y} does not get on within 8 s:\n{}", g.dump());
    }
    obs.count("streams that went on beside a stalled one");
    for p in keep {
        g.broker_send(x, p);
    }
    g.settle(r, obs, 120)?;
    final_check(&mut g)?;
    obs.case(hash64(format!("{:?}{size}{sent}", g.cfg).as_bytes()));
    Ok(())
}

pub fn c24() {
    let mut run = Run::new("C24", "at least three streams carried traffic");
    run.need("commands seen in order on their stream", 500);
    run.need("replies seen on the stream they answer", 300);
    run.need("messages delivered in order per stream", 300);
    run.need("datagrams lost", 100);
    run.need("commands refused: buffer full", 20);
    run.need("streams opened by the broker", 50);
    run.need("retransmissions seen on the stream of origin", 20);
    run.need("answers given on another stream", 100);
    run.assume("time is virtual for QUIC; the server side is quinn-proto with the ring provider");
    run.cases("streams", run.scale(10_000, 600_000), run.scale(60, 500) as f64, |_, r, o| c24_case(r, o, false));
    run.cases("retransmission", run.scale(3_000, 200_000), run.scale(30, 250) as f64, |_, r, o| c24_case(r, o, true));
    run.need("streams that went on beside a stalled one", 30);
    run.need("streams whose replies trickled", 10);
    run.need("messages held by a stalled stream", 10_000);
    run.cases("stalled", run.scale(60, 3000), run.scale(40, 250) as f64, |_, r, o| c24_stall(r, o));
    run.finish()
}

// ------------------------------------------------------------------ C25

fn statuses(g: &mut Rig) -> Vec<Z> {
    let mut v = vec![];
    g.other_evs.retain(|e| match e {
        MqttEvent::ZeroRttStatusChanged { status } => {
            v.push(*status);
            false
        }
        _ => true,
    });
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Accept,
    /// the server no longer knows the ticket
    NewServer,
    /// the server resumes but refuses early data
    NoEarly,
}

/// The connection is over; what it left open may be sent again on the next one.
pub fn over(g: &mut Rig) {
    g.net.drop_in_flight();
    g.other_evs.clear();
    g.net.evs.clear();
    let old: Vec<Pkt> = g.cmds.values().flatten().chain(g.old.iter()).filter(|p| p.pid.is_some_and(|i| g.mine.contains_key(&i))).cloned().collect();
    let carried: BTreeSet<u16> = g.mine.keys().copied().collect();
    g.new_connection();
    g.old = old;
    g.carried = carried;
    g.resent.clear();
    g.gone.clear();
    g.fins.clear();
    g.dead.clear();
    g.shut.clear();
    g.acked_on.clear();
    g.connect_seen = 0;
    g.acked_pubs.clear();
    g.got_pubs.clear();
    g.acked_subs.clear();
    g.got_subs.clear();
    g.disconnected = 0;
    g.net.forget_conns();
}

pub fn resumed(g: &mut Rig, obs: &mut Obs) -> Verdict {
    if g.connack.session_present {
        // the session is there: what earlier connections left open was sent again, once
        let mut again: Vec<u16> = g.resent.iter().map(|p| p.pid.unwrap()).collect();
        again.sort();
        let want: Vec<u16> = g.carried.iter().copied().collect();
        ensure!(again == want, "resume", "left open by earlier connections {want:?}, sent again {again:?}");
        obs.add("exchanges resumed", want.len() as u64);
    }
    Ok(())
}

/// What the application did to the end of an early stream.
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Fin,
    Reset(u64),
}

pub fn c25_case(r: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut cfg = QCfg::random(r);
    cfg.max_out = *r.pick(&[3, 1000, 1000]);
    cfg.rm = 65535;
    let mut ncfg = NetCfg::random(r);
    ncfg.max_bidi = ncfg.max_bidi.max(12);
    if r.bool() {
        ncfg.stream_window = ncfg.stream_window.max(2000);
        ncfg.conn_window = ncfg.conn_window.max(5000);
    }
    let mut zc = QuicZeroRttConfig { session_cache_size: *r.pick(&[8, 256]), replay_on_reject: r.chance(3, 4) };
    let mut tls = server_tls(true);
    let mut stateless = r.chance(1, 12);
    if stateless {
        // stateless tickets: rustls accepts no early data with them
        tls.ticketer = rustls::crypto::ring::Ticketer::new().unwrap();
    }
    // whether a ticket that allows early data is at hand, where that is certain
    let mut ticket = None;
    let mut plain = false;
    let mut early_ok = ncfg.early;
    // the same verifier object: rustls resumes only between compatible configurations
    let ctls = client_tls();
    let mut g = Rig::new(cfg, ncfg.clone(), r);
    g.net.ep.set_server_config(Some(ncfg.quic_server(tls.clone())));
    let (a, now) = (g.net.addr, g.net.now);
    g.net.cl.connect_with_zero_rtt(a, "localhost", ctls.clone(), zc, now).map_err(|e| Violation { sig: "connect".into(), detail: format!("{e:?}") })?;
    ensure!(g.net.cl.zero_rtt_status() == Z::Unavailable, "status", "without a ticket the status is {:?}", g.net.cl.zero_rtt_status());
    wait_connected(&mut g, r, obs)?;
    let st = statuses(&mut g);
    ensure!(st == [Z::Unavailable], "status", "statuses reported on the first connection {st:?}");
    let gens = if r.chance(1, 3) { r.range(2, 4) } else { 1 };
    let mut key = format!("{:?}{:?}{zc:?}", g.cfg, g.net.cfg);
    let mut attempts = 0;
    // the connection is known to hold no other MQTT session than this run's
    for gen in 0..gens {
        // publishes of the connection before, some of them never acknowledged
        let n = r.below(6);
        let hold = r.bool();
        g.hold_replies = hold;
        if g.net.cl.is_connected() {
            for _ in 0..n {
                g.command(r, None, obs)?;
            }
        }
        for _ in 0..r.range(30, 80) {
            g.turn(r, 5000, obs)?;
            g.broker_flush(r, false);
        }
        if !hold {
            g.settle(r, obs, 120)?;
            g.net.cfg = ncfg.clone();
        }
        g.hold_replies = false;
        if !plain {
            ticket = (ncfg.loss == 0 && !stateless && early_ok).then_some(true);
        }
        // it goes away
        let end = r.below(4);
        match end {
            0 => g.net.cl.close_silent(),
            1 => {
                let _ = g.net.cl.close(0, b"bye");
                for _ in 0..10 {
                    g.turn(r, 5000, obs)?;
                }
            }
            2 => {
                let _ = g.net.cl.disconnect_and_close(0, b"bye");
                for _ in 0..10 {
                    g.turn(r, 5000, obs)?;
                }
            }
            _ => {} // replaced while it is alive
        }
        over(&mut g);
        let mut how = *r.pick(&[How::Accept, How::Accept, How::NewServer, How::NoEarly]);
        match how {
            How::Accept => g.net.ep.set_server_config(Some(ncfg.quic_server(tls.clone()))),
            How::NewServer => {
                tls = server_tls(true);
                g.net.ep.set_server_config(Some(ncfg.quic_server(tls.clone())));
            }
            How::NoEarly => {
                let mut c = ncfg.clone();
                c.early = false;
                g.net.ep.set_server_config(Some(c.quic_server(tls.clone())));
            }
        }
        if how == How::NewServer {
            stateless = false;
        }
        early_ok = ncfg.early && how != How::NoEarly;
        let before = g.connected;
        let now = g.net.now;
        if r.chance(1, 8) {
            g.net.cl.clear_quic_session_cache();
            ticket = Some(false);
            obs.count("caches cleared");
        }
        if r.chance(1, 8) {
            // a connection without 0-RTT in between
            if plain && r.bool() {
                g.net.cl.reconnect(now)
            } else {
                g.net.cl.connect(a, "localhost", ctls.clone(), now)
            }
            .map_err(|e| Violation { sig: "connect".into(), detail: format!("{e:?}") })?;
            plain = true;
            ensure!(g.net.cl.zero_rtt_status() == Z::Disabled, "status", "{:?} on a connection without 0-RTT", g.net.cl.zero_rtt_status());
            ensure!(g.net.cl.open_data_stream().is_err(), "status", "a stream could be opened before the handshake without 0-RTT");
            wait_connected(&mut g, r, obs)?;
            let st = statuses(&mut g);
            ensure!(st.is_empty(), "status", "reported on a connection without 0-RTT: {st:?}");
            obs.count("connections without 0-RTT in between");
            continue;
        }
        if r.bool() || plain {
            if r.chance(1, 6) {
                zc.session_cache_size = 8 + 256 - zc.session_cache_size;
                ticket = Some(false);
            }
            plain = false;
            g.net.cl.connect_with_zero_rtt(a, "localhost", ctls.clone(), zc, now).map_err(|e| Violation { sig: "connect".into(), detail: format!("{e:?}") })?;
        } else {
            g.net.cl.reconnect(now).map_err(|e| Violation { sig: "connect".into(), detail: format!("{e:?}") })?;
        }
        g.connack.session_present = r.bool();
        let sp = g.connack.session_present;
        if let Some(t) = ticket {
            let st = g.net.cl.zero_rtt_status();
            ensure!((st == Z::Attempted) == t, "ticket", "a ticket is {}at hand, but the status is {st:?}", if t { "" } else { "not " });
            obs.count(if t { "tickets kept and used" } else { "no ticket after clearing or resizing the cache" });
        }
        if g.net.cl.zero_rtt_status() != Z::Attempted {
            // no ticket that allows early data
            ensure!(matches!(g.net.cl.zero_rtt_status(), Z::Unavailable | Z::Rejected), "status", "{:?}", g.net.cl.zero_rtt_status());
            ensure!(g.net.cl.open_data_stream().is_err(), "status", "a stream could be opened before the handshake without 0-RTT");
            obs.count("no ticket");
            wait_connected(&mut g, r, obs)?;
            let st = statuses(&mut g);
            ensure!(st == [Z::Unavailable], "status", "reported without a ticket: {st:?}");
            continue;
        }
        attempts += 1;
        // early commands, before and between datagrams of the handshake
        let mut early = 0;
        let mut handles: Vec<u64> = vec![];
        let mut ends: Vec<(u64, End)> = vec![];
        let mut quit = false;
        let rounds = r.range(1, 6);
        for k in 0..rounds {
            for _ in 0..r.range(0, 5) {
                if g.net.cl.zero_rtt_status() != Z::Attempted || quit {
                    break;
                }
                match r.below(9) {
                    0 | 1 => {
                        if let Ok(h) = g.net.cl.open_data_stream() {
                            handles.push(h);
                            g.cmds.insert(h, vec![]);
                        }
                    }
                    2 | 3 if !handles.is_empty() => {
                        let h = *r.pick(&handles);
                        let done = ends.iter().any(|(x, _)| *x == h);
                        let took = g.command(r, Some(h), obs)?;
                        ensure!(!(took && done), "stream-end", "a command was taken on stream {h}, whose sending side is over");
                        early += took as usize;
                    }
                    4 if !handles.is_empty() && r.bool() => {
                        let h = *r.pick(&handles);
                        if ends.iter().any(|(x, _)| *x == h) {
                            continue;
                        }
                        let e = if r.bool() { End::Fin } else { End::Reset(r.below(1000) as u64) };
                        let res = match e {
                            End::Fin => g.net.cl.finish_stream(h),
                            End::Reset(c) => g.net.cl.reset_stream(h, c),
                        };
                        ensure!(res.is_ok(), "stream-end", "{e:?} on stream {h}: {res:?}");
                        if e != End::Fin {
                            g.gone.insert(h);
                        } else {
                            g.fins.insert(h);
                        }
                        ends.push((h, e));
                        obs.count("early streams ended");
                    }
                    5 if r.chance(1, 20) && how != How::Accept => {
                        quit = true;
                        let res = g.net.cl.disconnect_and_close(7, b"early");
                        ensure!(res.is_ok(), "early-close", "{res:?}");
                    }
                    _ => early += g.command(r, None, obs)? as usize,
                }
            }
            if k + 1 < rounds && !quit {
                g.turn(r, *r.clone().pick(&[0, 100, 2000, 6000]), obs)?;
                g.broker_flush(r, true);
            }
        }
        obs.add("early commands", early as u64);
        key += &format!("|{how:?}{hold}{end}{sp}{ends:?}{:?}", g.cmds);
        if quit {
            // the close asked for holds, whatever becomes of the attempt
            g.net.clean_path();
            for _ in 0..400 {
                g.net.step(Duration::from_micros(5000));
                g.net.evs.clear();
            }
            ensure!(!g.net.cl.is_connected(), "early-close", "connected after disconnect_and_close");
            let open = g.net.conns.values().filter(|c| c.lost.is_none()).count();
            ensure!(open == 0, "early-close", "the connection is still open 2 s after disconnect_and_close, status {:?}", g.net.cl.zero_rtt_status());
            obs.count("closed while undecided");
            obs.case(hash64(key.as_bytes()));
            return Ok(());
        }
        // the handshake ends
        let mut st = statuses(&mut g);
        for k in 0..20000 {
            if g.net.cl.zero_rtt_status() != Z::Attempted {
                break;
            }
            if k == 2000 {
                g.net.clean_path();
            }
            g.turn(r, 5000, obs)?;
            g.broker_flush(r, true);
        }
        st.extend(statuses(&mut g));
        let mut want = if how == How::Accept { Z::Accepted } else { Z::Rejected };
        if how == How::Accept && gen > 0 && g.net.cl.zero_rtt_status() == Z::Rejected {
            // possibly a ticket of an earlier server
            how = How::NewServer;
            want = Z::Rejected;
        }
        ensure!(g.net.cl.zero_rtt_status() == want && st == [Z::Attempted, want], "status", "the server {how:?}: status {:?}, reported {st:?}", g.net.cl.zero_rtt_status());
        obs.count(match how {
            How::Accept => "accepted",
            How::NewServer => "rejected with a full handshake",
            How::NoEarly => "rejected with resumption",
        });
        if how != How::Accept && !zc.replay_on_reject {
            // the early data is left to the caller: none of it may turn up
            for _ in 0..100 {
                g.turn(r, 5000, obs)?;
            }
            let got: usize = g.net.srv().map_or(0, |c| c.streams.values().map(|s| s.rx.len()).sum());
            ensure!(got == 0, "not-replayed", "replay is off, but {got} bytes of early data arrived after the rejection");
            ensure!(!g.net.cl.is_connected(), "not-replayed", "connected without a CONNECT");
            obs.count("rejected without replay");
            // nothing of it is settled: the next connection starts over
            g.cmds.retain(|_, v| !v.is_empty());
            over(&mut g);
            g.net.cl.close_silent();
            g.connack.session_present = true;
            let now = g.net.now;
            g.net.cl.connect(a, "localhost", client_tls(), now).map_err(|e| Violation { sig: "connect".into(), detail: format!("{e:?}") })?;
            wait_connected(&mut g, r, obs)?;
            g.settle(r, obs, 120)?;
            resumed(&mut g, obs)?;
            obs.count("resumed after a rejection without replay");
            obs.case(hash64(key.as_bytes()));
            return Ok(());
        }
        // quinn-proto's client holds its Finished back while lost early data fills the
        // congestion window, and then never gets on: not flowsdk's doing
        let stuck = |v: Violation, g: &mut Rig, obs: &mut Obs| {
            if ["never-connected", "incomplete"].contains(&&*v.sig) && ncfg.loss > 0 && g.net.srv().is_none_or(|c| !c.connected) {
                obs.count("handshakes stuck after losses");
                obs.trivial();
                return Ok(());
            }
            Err(v)
        };
        if g.connected == before {
            if let Err(v) = wait_connected(&mut g, r, obs) {
                return stuck(v, &mut g, obs);
            }
        }
        // traffic goes on
        for _ in 0..r.below(6) {
            let h = if handles.is_empty() || r.bool() { None } else { Some(*r.pick(&handles)) };
            let took = g.command(r, h, obs)?;
            ensure!(!(took && ends.iter().any(|(x, _)| Some(*x) == h)), "stream-end", "a command was taken on stream {h:?}, whose sending side is over");
            g.turn(r, 3000, obs)?;
            g.broker_flush(r, false);
        }
        if let Err(v) = g.settle(r, obs, 120) {
            return stuck(v, &mut g, obs);
        }
        resumed(&mut g, obs)?;
        if !ends.is_empty() {
            g.net.clean_path();
        }
        for k in 0..5000 {
            let c = g.net.srv();
            if k >= 20 && c.is_some_and(|c| ends.iter().all(|(h, _)| c.stream(*h).is_some_and(|s| s.rx_fin || s.rx_reset.is_some()))) {
                break;
            }
            g.turn(r, 3000, obs)?;
        }
        for (h, e) in &ends {
            let (fin, rst) = g.net.srv().and_then(|c| c.stream(*h).map(|s| (s.rx_fin, s.rx_reset))).unwrap_or((false, None));
            match e {
                End::Fin => ensure!(fin && rst.is_none(), "stream-end", "stream {h} was finished early ({how:?}), the broker saw fin {fin}, reset {rst:?}"),
                End::Reset(c) => {
                    ensure!(rst == Some(*c), "stream-end", "stream {h} was reset early with {c} ({how:?}), the broker saw fin {fin}, reset {rst:?}");
                    if how != How::Accept {
                        ensure!(g.obs.get(h).is_none_or(|o| o.cmds.is_empty()), "stream-end", "commands of stream {h}, reset while undecided, were replayed");
                    }
                }
            }
        }
        g.other_evs.retain(|e| !matches!(e, MqttEvent::StreamClosed { stream_id, by_peer: false, .. } if ends.contains(&(*stream_id, End::Fin))));
        let bad: Vec<_> = g.other_evs.iter().collect();
        ensure!(bad.is_empty() && g.disconnected == 0, "events", "unexpected events {bad:?}, {} disconnects", g.disconnected);
        ensure!(g.connect_seen == 1, "connect", "{} CONNECT packets arrived", g.connect_seen);
        g.net.cfg = ncfg.clone();
        if early == 0 {
            obs.trivial();
        }
        if gen > 0 {
            obs.count("later attempts");
        }
        if obs.sample.is_none() {
            obs.sample = Some(format!("{how:?}: {early} early commands\n{}", g.dump()));
        }
    }
    obs.case(hash64(key.as_bytes()));
    if attempts == 0 {
        obs.trivial();
    }
    Ok(())
}

pub fn c25() {
    let mut run = Run::new("C25", "0-RTT was attempted and at least one early command issued");
    for (k, n) in [("accepted", 100), ("rejected with a full handshake", 50), ("rejected with resumption", 50), ("rejected without replay", 20), ("early commands", 1000), ("later attempts", 100), ("early streams ended", 100), ("closed while undecided", 10), ("resumed after a rejection without replay", 30), ("tickets kept and used", 200), ("no ticket after clearing or resizing the cache", 50), ("connections without 0-RTT in between", 50), ("commands refused before the connection", 1000)] {
        run.need(k, n);
    }
    run.cases("early", run.scale(12_000, 600_000), run.scale(60, 600) as f64, |_, r, o| c25_case(r, o));
    run.finish()
}

#[allow(unused)]
fn unused(_: MqttEvent, _: Duration) {}
