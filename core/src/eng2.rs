//! Engine monitors with drivers of their own: CONNECT content, connection isolation,
//! buffer limits, hostile brokers.
use crate::codec::hostile;
use crate::sim::*;
use flowsdk::mqtt_client::commands::{SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::{MqttClientError, MqttEngine, MqttEvent, NoIoMqttClient};
use kit::*;
use refmqtt::*;
use std::collections::HashMap;
use std::time::{Duration, Instant};

fn pubspec(r: &mut Rng, qos: u8, n: u64) -> PubSpec {
    let mut payload = n.to_be_bytes().to_vec();
    let k = r.below(10);
    payload.extend(r.bytes(k));
    PubSpec { topic: format!("t/{}", r.below(9)), payload, qos, retain: r.bool(), props: vec![], prio: *r.pick(&[128u8, 128, 128, 1, 200]), pid: None }
}

fn pubany(r: &mut Rng, n: u64) -> PubSpec {
    let q = r.below(3) as u8;
    pubspec(r, q, n)
}

fn packets(b: &[u8], v5: bool) -> Result<Vec<Pkt>, Violation> {
    match decode_all(b, v5) {
        Ok((v, n)) if n == b.len() => Ok(v),
        x => fail("wire-garbage", format!("output is not a sequence of MQTT packets: {} ({x:?})", hex(b))),
    }
}

fn suback(v5: bool, p: &Pkt) -> Pkt {
    let mut a = Pkt::ack(v5, if p.ty == SUBSCRIBE { SUBACK } else { UNSUBACK }, p.pid.unwrap_or(0), 0);
    if p.ty == SUBSCRIBE || v5 {
        a.codes = vec![0; p.filters.len()];
    }
    a
}

pub fn c17() {
    let mut run = Run::new("C17", "an option set, identified by its values");
    run.need("connects", 20_000);
    run.need("reconnects", 5_000);
    for k in ["v5", "v3", "with_will", "with_username", "with_password", "with_session_expiry", "password_without_username"] {
        run.need(k, 500);
    }
    run.cases("options", run.scale(30_000, 600_000), run.scale(20, 300) as f64, |_, r, o| {
        let v5 = r.bool();
        let g = Gen { small: 12, big_every: 60 };
        let mut c = Cfg { v5, level3: r.chance(1, 3), keep_alive: r.u16(), clean: r.bool(), rm: r.u16(), ..Default::default() };
        if r.bool() {
            c.keep_alive = *r.pick(&[0u16, 1, 60, 65535]);
        }
        let mut op = c.opts();
        op.client_id = g.text(r);
        let m = g.packet(r, v5, CONNECT);
        let src = m.conn.unwrap();
        op.will = src.will.as_ref().map(conv::will5_from_model);
        op.username = r.bool().then(|| g.text(r));
        op.password = r.bool().then(|| g.bin(r));
        op.session_expiry_interval = r.bool().then(|| g.u32(r));
        op.maximum_packet_size = r.chance(1, 3).then(|| g.u32(r).max(1));
        op.request_response_information = r.chance(1, 3).then(|| r.bool());
        op.request_problem_information = r.chance(1, 3).then(|| r.bool());
        let mut want = Conn { name: "MQTT".into(), level: if v5 { 5 } else { 4 }, clean: op.clean_start, keep_alive: op.keep_alive, client_id: op.client_id.clone(), will: src.will.clone(), username: op.username.clone(), password: op.password.clone() };
        let mut props = vec![];
        if v5 {
            props.extend(op.session_expiry_interval.map(|x| P::U32(0x11, x)));
            props.extend(op.maximum_packet_size.map(|x| P::U32(0x27, x)));
            props.extend(op.request_response_information.map(|x| P::Byte(0x19, x as u8)));
            props.extend(op.request_problem_information.map(|x| P::Byte(0x17, x as u8)));
            if let Some(w) = &mut want.will {
                canon_will(&mut w.props);
            }
        } else {
            if let Some(w) = &mut want.will {
                w.props.clear();
            }
            if want.username.is_none() {
                if want.password.is_some() {
                    o.count("password_without_username");
                }
                // not expressible in MQTT 3.1.1
                want.password = None;
            }
        }
        props.sort_by_key(|p| p.id());
        o.count(if v5 { "v5" } else { "v3" });
        for (k, b) in [("with_will", want.will.is_some()), ("with_username", want.username.is_some()), ("with_password", want.password.is_some()), ("with_session_expiry", op.session_expiry_interval.is_some())] {
            if b {
                o.count(k);
            }
        }
        let key = hash64(format!("{want:?} {props:?}").as_bytes());
        let mut f = if r.bool() { Front::Engine(Box::new(MqttEngine::new(op))) } else { Front::NoIo(Box::new(NoIoMqttClient::new(op))) };
        for k in 0..r.range(1, 3) {
            f.connect();
            let b = f.out();
            let ps = packets(&b, v5)?;
            ensure!(ps.len() == 1 && ps[0].ty == CONNECT, "connect", "connection {k}: sent {ps:?}");
            let mut p = ps[0].clone();
            p.props.sort_by_key(|p| p.id());
            if let Some(w) = p.conn.as_mut().and_then(|c| c.will.as_mut()) {
                canon_will(&mut w.props);
            }
            let mut w = Pkt::new(v5, CONNECT);
            w.conn = Some(want.clone());
            w.props = props.clone();
            ensure!(p == w, "content", "connection {k}: sent {p:?}\nconfigured {w:?}");
            o.count(if k == 0 { "connects" } else { "reconnects" });
            if r.bool() {
                let mut a = Pkt::new(v5, CONNACK);
                a.session_present = r.bool();
                f.feed(&encode(&a));
                let _ = f.publish(pubspec(r, 1, k as u64).cmd());
                f.out();
            }
            f.lost();
        }
        o.case(key);
        Ok(())
    });
    run.finish()
}

pub fn c18() {
    let mut run = Run::new("C18", "a history of connections with output and input left over, identified by its actions");
    run.need("reconnects", 20_000);
    run.need("left_unsent", 5_000);
    run.need("left_partial_input", 5_000);
    run.need("left_ping", 2_000);
    run.need("left_paused_events", 300);
    run.need("ticks_after_resume", 1_000);
    run.need("stream_resend_ticks", 1_000);
    run.cases("reconnect", run.scale(15_000, 300_000), run.scale(25, 300) as f64, |_, r, o| {
        let v5 = r.bool();
        let c = Cfg { v5, noio: r.bool(), max_ev: *r.pick(&[100_000usize, 100_000, 1, 3]), keep_alive: 10, retrans_ms: *r.pick(&[1000u64, 1_000_000_000]), ..Default::default() };
        let mut f = c.front();
        let mut log: Vec<String> = vec![format!("{c:?}")];
        let mut shape = vec![];
        let mut serial = 0u64;
        // publishes accepted and not sent yet: payload → qos
        let mut waiting: HashMap<Vec<u8>, u8> = HashMap::new();
        let mut old_sub: Vec<u16> = vec![];
        let conns = r.range(2, 6);
        for k in 0..conns {
            f.connect();
            log.push("connect".into());
            // commands issued between connect and the first write
            if r.chance(1, 3) {
                serial += 1;
                let s = pubany(r, serial);
                if f.publish(s.cmd()).is_ok() {
                    waiting.insert(s.payload.clone(), s.qos);
                }
                log.push("publish before the first write".into());
            }
            let b = f.out();
            let ps = packets(&b, v5).map_err(|mut v| {
                v.detail += &log.join("\n");
                v
            })?;
            ensure!(ps.len() == 1 && ps[0].ty == CONNECT, "first-packet", "connection {k} began with {:?}\n{}", ps.iter().map(|p| p.name()).collect::<Vec<_>>(), log.join("\n"));
            if k > 0 {
                o.count("reconnects");
            }
            // the new connection's bytes, in pieces
            let mut a = Pkt::new(v5, CONNACK);
            let session = r.chance(1, 3);
            a.session_present = session;
            let mut evs = vec![];
            let b = encode(&a);
            let cut = r.below(b.len() + 1);
            evs.extend(f.feed(&b[..cut]));
            evs.extend(f.feed(&b[cut..]));
            let good = evs.len() == 1 && matches!(&evs[0], MqttEvent::Connected(x) if x.reason_code == 0 && x.session_present == session);
            ensure!(good && f.connected(), "stale-input", "connection {k}: CONNACK fed, events {}\n{}", short(&format!("{evs:?}"), 600), log.join("\n"));
            let out = packets(&f.out(), v5)?;
            let mut quiet = true;
            for p in &out {
                let fresh = p.ty == PUBLISH && !p.dup && waiting.remove(&p.payload).is_some();
                let resumed = session && (p.ty == PUBLISH && p.dup || p.ty == PUBREL || matches!(p.ty, SUBSCRIBE | UNSUBSCRIBE) && old_sub.contains(&p.pid.unwrap_or(0)));
                quiet &= fresh || resumed;
            }
            ensure!(quiet, "stale-output", "connection {k} (session {session}): after CONNACK sent {}\n{}", short(&format!("{out:?}"), 1500), log.join("\n"));
            // an outstanding ping of the old connection must not count
            if r.chance(1, 2) {
                let t = Instant::now() + Duration::from_secs(9);
                let ev = f.tick(t);
                ensure!(!ev.iter().any(|e| matches!(e, MqttEvent::ReconnectNeeded)), "stale-ping", "connection {k}: lost without a ping of its own\n{}", log.join("\n"));
                let out = packets(&f.out(), v5)?;
                ensure!(!out.iter().any(|p| p.ty == PINGREQ), "stale-idle", "connection {k}: PINGREQ after less than the keep-alive\n{}", log.join("\n"));
            }
            // traffic, partly left unsent and unread
            let drained = r.chance(1, 4);
            for _ in 0..r.range(0, 8) {
                let x = r.below(7);
                shape.push(x as u8);
                match x {
                    0 | 1 => {
                        serial += 1;
                        let s = pubany(r, serial);
                        let _ = f.publish(s.cmd());
                        log.push(format!("publish q{}", s.qos));
                    }
                    2 => {
                        if let Ok(p) = f.subscribe(SubscribeCommand::new(None, subs_from(&[("a/b".into(), 1)]), vec![])) {
                            old_sub.push(p);
                        }
                        log.push("subscribe".into());
                    }
                    3 => {
                        if let Ok(p) = f.unsubscribe(UnsubscribeCommand::new(None, vec!["a/b".into()], vec![])) {
                            old_sub.push(p);
                        }
                        log.push("unsubscribe".into());
                    }
                    4 => {
                        f.ping();
                        o.count("left_ping");
                        log.push("ping".into());
                    }
                    _ => {
                        let mut p = Pkt::new(v5, PUBLISH);
                        p.topic = "in".into();
                        p.qos = r.below(3) as u8;
                        p.pid = (p.qos > 0).then(|| r.range(1, 9) as u16);
                        p.payload = vec![7; 5];
                        let mut b = encode(&p);
                        let n = r.range(1, 4);
                        for _ in 1..n {
                            b.extend(encode(&p));
                        }
                        let ev = f.feed(&b);
                        log.push(format!("broker sends {n} PUBLISH q{}", p.qos));
                        if ev.len() < n * 2 {
                            o.count("left_paused_events");
                        }
                    }
                }
                if drained {
                    packets(&f.out(), v5)?;
                }
            }
            // whatever was handed over while connected counts as sent on this connection
            waiting.clear();
            if !drained {
                o.count("left_unsent");
            }
            if r.chance(2, 3) {
                let p = Gen { small: 5, big_every: 100 }.any(r, v5);
                let b = encode_form(&p, if p.ty == AUTH { 1 } else { 0 });
                let n = r.range(1, b.len() - 1);
                f.feed(&b[..n]);
                o.count("left_partial_input");
                log.push(format!("{n} of {} bytes of a {}", b.len(), p.name()));
            }
            match r.below(3) {
                0 => f.disconnect(),
                _ => f.lost(),
            }
            if f.connected() {
                f.lost();
            }
            log.push("connection over".into());
            // and commands while there is no connection
            for _ in 0..r.below(3) {
                if r.bool() {
                    serial += 1;
                    let s = pubany(r, serial);
                    if f.publish(s.cmd()).is_ok() {
                        waiting.insert(s.payload.clone(), s.qos);
                    }
                    log.push("publish offline".into());
                } else {
                    f.ping();
                    log.push("ping offline".into());
                }
            }
            if r.chance(1, 4) {
                f.out();
            }
        }
        o.case(hash64(&shape) ^ hash64(log.join(",").as_bytes()));
        Ok(())
    });
    c18_streams(&run);
    run.finish()
}

/// Exchanges tied to a stream of an earlier connection: the handle means nothing on the next one.
fn c18_streams(run: &Run) {
    run.cases("streams", run.scale(2_000, 40_000), run.scale(10, 60) as f64, |_, r, o| {
        let v5 = r.chance(1, 4);
        let ms = *r.pick(&[50u64, 1_000]);
        let opts = flowsdk::mqtt_client::opts::MqttClientOptions::builder().mqtt_version(if v5 { 5 } else { 4 }).client_id("c").clean_start(false).keep_alive(0).retransmission_timeout_ms(ms).build();
        let mut e = MqttEngine::new(opts);
        let mut now = Instant::now();
        let mut log = vec![];
        for k in 0..r.range(2, 4) {
            e.connect();
            let left = e.take_stream_retransmissions();
            ensure!(left.is_empty(), "stale-stream-output", "connection {k} begins with {} packet(s) addressed to streams of an earlier one\n{}", left.len(), log.join("\n"));
            let b = e.take_outgoing();
            let ps = packets(&b, v5)?;
            ensure!(ps.len() == 1 && ps[0].ty == CONNECT, "first-packet", "connection {k} began with {:?}\n{}", ps.iter().map(|p| p.name()).collect::<Vec<_>>(), log.join("\n"));
            let mut a = Pkt::new(v5, CONNACK);
            a.session_present = k > 0 && r.chance(3, 4);
            e.handle_incoming(&encode(&a));
            e.take_outgoing();
            log.push(format!("connection {k}, session {}", a.session_present));
            // nothing has been sent on a stream of this connection yet
            if k > 0 {
                now += Duration::from_millis(ms + 60_000);
                e.handle_tick(now);
                let wrong = e.take_stream_retransmissions();
                o.count("ticks_after_resume");
                ensure!(wrong.is_empty(), "stale-stream", "connection {k}: {} packet(s) resent to stream {:?}, which this connection never used\n{}", wrong.len(), wrong[0].0, log.join("\n"));
                e.take_outgoing();
            }
            let mut used = vec![];
            for _ in 0..r.range(1, 5) {
                let h = r.below(4) as u64 * 4;
                let s = pubspec(r, r.clone().range(0, 2) as u8, k as u64);
                if e.publish_encoded(s.cmd(), Some(h)).is_ok() && s.qos > 0 {
                    used.push(h);
                }
                log.push(format!("publish q{} on stream {h}", s.qos));
            }
            if r.bool() {
                now += Duration::from_millis(ms + 60_000);
                e.handle_tick(now);
                let got: Vec<u64> = if r.bool() { e.take_stream_retransmissions().iter().map(|x| x.0).collect() } else { vec![] };
                ensure!(got.iter().all(|h| used.contains(h)), "wrong-stream", "connection {k}: resent on {got:?}, published on {used:?}\n{}", log.join("\n"));
                log.push(format!("tick, taken {got:?}"));
                o.count("stream_resend_ticks");
            }
            e.handle_connection_lost();
        }
        o.case(hash64(log.join(",").as_bytes()));
        Ok(())
    });
}

/// Events in a comparable form.
fn ev_text(e: &MqttEvent) -> String {
    format!("{e:?}")
}

fn c19_events(r: &mut Rng, o: &mut Obs) -> Verdict {
    let v5 = r.bool();
    let lim = *r.pick(&[1usize, 1, 2, 3, 5, 8, 50]);
    let base = Cfg { v5, auto_ack: !r.chance(1, 4), noio: r.bool(), ..Default::default() };
    let mut small = Cfg { max_ev: lim, ..base.clone() }.front();
    let mut big = base.front();
    let g = Gen { small: 5, big_every: 300 };
    for f in [&mut small, &mut big] {
        f.connect();
        f.out();
        f.feed(&encode(&Pkt::new(v5, CONNACK)));
    }
    let (mut es, mut eb): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let (mut os, mut ob): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    let (mut paused, mut ticks) = (0, 0);
    let mut serial = 0;
    let mut shape = vec![];
    let mut sent: Vec<(u8, u16)> = vec![];
    for _ in 0..r.range(1, 8) {
        for _ in 0..r.below(5) {
            serial += 1;
            let q = r.below(3) as u8;
            let s = pubspec(r, q, serial);
            let (a, b) = (small.publish(s.cmd()), big.publish(s.cmd()));
            ensure!(format!("{a:?}") == format!("{b:?}"), "return", "publish returned {a:?} with an event limit, {b:?} without");
            if let Ok(Some(p)) = a {
                sent.push((q, p));
            }
        }
        // a burst of broker packets, cut anywhere
        let mut burst = vec![];
        for _ in 0..r.range(1, 30) {
            let mut p = match r.below(4) {
                0 if !sent.is_empty() => {
                    let (q, pid) = *r.pick(&sent);
                    Pkt::ack(v5, if q == 1 { PUBACK } else { *r.pick(&[PUBREC, PUBCOMP]) }, pid, 0)
                }
                1 => Pkt::ack(v5, PUBREL, r.range(1, 6) as u16, 0),
                2 => Pkt::new(v5, PINGRESP),
                _ => g.packet(r, v5, PUBLISH),
            };
            if p.ty == PUBLISH {
                p.dup = p.dup && p.qos > 0;
                if p.qos > 0 {
                    p.pid = Some(r.range(1, 6) as u16);
                }
            }
            shape.extend([p.ty, p.qos, p.pid.unwrap_or(0) as u8]);
            burst.extend(encode(&p));
        }
        eb.extend(big.feed(&burst).iter().map(ev_text));
        ob.extend(big.out());
        let mut at = 0;
        while at < burst.len() {
            let n = if r.bool() { burst.len() - at } else { r.range(1, 20).min(burst.len() - at) };
            let ev = small.feed(&burst[at..at + n]);
            at += n;
            ensure!(ev.len() < lim + 2, "over-limit", "{} events at once with a limit of {lim}", ev.len());
            if ev.len() >= lim {
                paused += 1;
            }
            es.extend(ev.iter().map(ev_text));
            if r.bool() {
                os.extend(small.out());
            }
        }
        // resumed as documented: take the events, feed nothing or tick when it is due
        loop {
            let now = std::time::Instant::now();
            let ev = if r.bool() && small.next().is_some_and(|t| t <= now) {
                ticks += 1;
                small.tick(now)
            } else {
                small.feed(&[])
            };
            if ev.is_empty() {
                break;
            }
            ensure!(ev.len() < lim + 2, "over-limit", "{} events at once with a limit of {lim}", ev.len());
            es.extend(ev.iter().map(ev_text));
        }
        os.extend(small.out());
        if es != eb {
            let i = es.iter().zip(&eb).position(|(a, b)| a != b).unwrap_or(es.len().min(eb.len()));
            return fail("events", format!("limit {lim}: {} events against {} without a limit; event {i}: {} instead of {}", es.len(), eb.len(), short(es.get(i).map_or("nothing", |x| x), 400), short(eb.get(i).map_or("nothing", |x| x), 400)));
        }
    }
    let (ps, pb) = (packets(&os, v5)?, packets(&ob, v5)?);
    for kind in [[PUBACK, PUBREC, PUBCOMP].as_slice(), &[PUBREL], &[PUBLISH]] {
        let pick = |v: &[Pkt]| v.iter().filter(|p| kind.contains(&p.ty)).cloned().collect::<Vec<_>>();
        let (a, b) = (pick(&ps), pick(&pb));
        ensure!(a == b, "output", "limit {lim}: sent {} {} packets, {} without a limit", a.len(), NAMES[kind[0] as usize], b.len());
    }
    o.add("pauses", paused);
    o.add("resumed_by_tick", ticks);
    o.add("events_compared", es.len() as u64);
    o.case(hash64(&shape));
    Ok(())
}

/// What one accepted operation puts into the outgoing buffer.
#[derive(Clone, Debug, PartialEq)]
enum Tag {
    Pub(Vec<u8>),
    Sub(u16),
    Unsub(u16),
    Ack(u8, u16),
    Ping,
    Bye,
    Raw(Vec<u8>),
}

fn tag(p: &Pkt) -> Tag {
    match p.ty {
        PUBLISH => Tag::Pub(p.payload.clone()),
        SUBSCRIBE => Tag::Sub(p.pid.unwrap_or(0)),
        UNSUBSCRIBE => Tag::Unsub(p.pid.unwrap_or(0)),
        PINGREQ => Tag::Ping,
        DISCONNECT => Tag::Bye,
        PUBACK | PUBREC | PUBCOMP => Tag::Ack(p.ty, p.pid.unwrap_or(0)),
        _ => Tag::Raw(encode(p)),
    }
}

fn c19_outgoing(r: &mut Rng, o: &mut Obs) -> Verdict {
    let v5 = r.bool();
    let cap = *r.pick(&[1usize, 1, 2, 3, 4, 10]);
    let c = Cfg { v5, max_out: cap, rm: *r.pick(&[65535u16, 65535, 2]), ..Default::default() };
    let Front::Engine(mut e) = c.front() else { unreachable!() };
    let quota = c.rm as usize;
    e.connect();
    e.take_outgoing();
    e.handle_incoming(&encode(&Pkt::new(v5, CONNACK)));
    // model
    let mut buf: Vec<Tag> = vec![];
    let mut waiting: Vec<(u8, u64, u8, Vec<u8>)> = vec![]; // prio, serial, qos, payload
    let mut unacked = 0usize;
    let mut order: Vec<(Tag, u16, u8)> = vec![]; // open exchanges, in the order sent
    let mut log = vec![format!("{c:?}")];
    let mut serial = 0u64;
    let mut pid_of: HashMap<Vec<u8>, u16> = HashMap::new();
    let mut shape = vec![];
    macro_rules! untouched {
        ($due:expr) => {
            ensure!(e.next_tick_at() == $due, "trace-left", "the refused call moved the next tick from {:?} to {:?}\n{}", $due, e.next_tick_at(), log.join("\n"));
            o.count("refusals_without_trace");
        };
    }
    macro_rules! pump {
        ($limit:expr) => {
            while buf.len() < $limit {
                let Some(i) = (0..waiting.len()).max_by_key(|&i| (waiting[i].0, std::cmp::Reverse(waiting[i].1))) else { break };
                if waiting[i].2 > 0 && unacked >= quota {
                    break;
                }
                let (_, _, q, pl) = waiting.remove(i);
                if q > 0 {
                    unacked += 1;
                    order.push((Tag::Pub(pl.clone()), pid_of[&pl], q));
                }
                buf.push(Tag::Pub(pl));
            }
        };
    }
    let full_err = |x: &MqttClientError| matches!(x, MqttClientError::BufferFull { capacity, .. } if *capacity == cap);
    for _ in 0..r.range(5, 60) {
        let was_full = buf.len() >= cap;
        let due = e.next_tick_at();
        let x = r.below(11);
        shape.push(x as u8);
        match x {
            0..=2 => {
                serial += 1;
                let q = r.below(3).min(1) as u8;
                let s = pubspec(r, q, serial);
                let res = e.publish(s.cmd());
                log.push(format!("publish q{q} prio {} -> {res:?}", s.prio));
                match res {
                    Ok(p) => {
                        pid_of.insert(s.payload.clone(), p.unwrap_or(0));
                        waiting.push((s.prio, serial, q, s.payload));
                    }
                    Err(x) => return fail("publish", format!("publish refused with {x:?}\n{}", log.join("\n"))),
                }
                pump!(cap);
            }
            3 | 4 => {
                let sub = x == 3;
                let res = if sub { e.subscribe(SubscribeCommand::new(None, subs_from(&[("f".into(), 1)]), vec![])) } else { e.unsubscribe(UnsubscribeCommand::new(None, vec!["f".into()], vec![])) };
                log.push(format!("{} -> {res:?}", if sub { "subscribe" } else { "unsubscribe" }));
                match &res {
                    Ok(p) if !was_full => {
                        let t = if sub { Tag::Sub(*p) } else { Tag::Unsub(*p) };
                        buf.push(t.clone());
                        order.push((t, *p, 0));
                    }
                    Err(x) if was_full && full_err(x) => {
                        untouched!(due);
                        o.count("refused_requests")
                    }
                    _ => return fail("refusal", format!("buffer holds {} of {cap}, request returned {res:?}\n{}", buf.len(), log.join("\n"))),
                }
            }
            5 => {
                let res = e.try_send_ping();
                log.push(format!("ping -> {res:?}"));
                match &res {
                    Ok(()) if !was_full => buf.push(Tag::Ping),
                    Err(x) if was_full && full_err(x) => {
                        untouched!(due);
                        o.count("refused_pings")
                    }
                    _ => return fail("refusal", format!("buffer holds {} of {cap}, try_send_ping returned {res:?}\n{}", buf.len(), log.join("\n"))),
                }
                // answered, so that it never times out
                e.handle_incoming(&encode(&Pkt::new(v5, PINGRESP)));
                pump!(cap);
            }
            6 => {
                let p = Pkt::ack(v5, PUBREL, r.range(100, 200) as u16, 0);
                let res = e.enqueue_packet(conv::from_model(&p));
                log.push(format!("enqueue_packet -> {res:?}"));
                match &res {
                    Ok(()) if !was_full => buf.push(Tag::Raw(encode(&p))),
                    Err(x) if was_full && full_err(x) => {
                        untouched!(due);
                        o.count("refused_raw")
                    }
                    _ => return fail("refusal", format!("buffer holds {} of {cap}, enqueue_packet returned {res:?}\n{}", buf.len(), log.join("\n"))),
                }
            }
            7 | 8 => {
                // the broker delivers; the acknowledgement is never dropped
                let mut p = Pkt::new(v5, PUBLISH);
                p.topic = "in".into();
                p.qos = r.below(3) as u8;
                p.pid = (p.qos > 0).then(|| r.range(1, 50) as u16);
                let mut b = vec![];
                for _ in 0..r.range(1, 4) {
                    b.extend(encode(&p));
                    if p.qos > 0 {
                        buf.push(Tag::Ack(if p.qos == 1 { PUBACK } else { PUBREC }, p.pid.unwrap()));
                        if was_full {
                            o.count("acks_beyond_limit");
                        }
                    }
                }
                log.push(format!("broker publishes q{} id {:?}, {} bytes", p.qos, p.pid, b.len()));
                e.handle_incoming(&b);
                pump!(cap);
            }
            9 => {
                // the broker acknowledges something
                if let Some(i) = (!order.is_empty()).then(|| r.below(order.len())) {
                    // only what has left the buffer
                    let (t, pid, q) = order[i].clone();
                    if !buf.contains(&t) {
                        order.remove(i);
                        let a = match t {
                            Tag::Sub(_) => suback(v5, &Pkt { filters: vec![("f".into(), 0)], ..Pkt::ack(v5, SUBSCRIBE, pid, 0) }),
                            Tag::Unsub(_) => suback(v5, &Pkt { filters: vec![("f".into(), 0)], ..Pkt::ack(v5, UNSUBSCRIBE, pid, 0) }),
                            _ => Pkt::ack(v5, PUBACK, pid, 0),
                        };
                        if q > 0 {
                            unacked -= 1;
                        }
                        log.push(format!("broker sends {} {pid}", a.name()));
                        e.handle_incoming(&encode(&a));
                        pump!(cap);
                    }
                }
            }
            _ => {
                let b = e.take_outgoing();
                let got: Vec<Tag> = packets(&b, v5)?.iter().map(tag).collect();
                // everything that waited for room follows
                pump!(usize::MAX);
                log.push(format!("take_outgoing: {} packets", got.len()));
                ensure!(got == buf, "drained", "drained {got:?}\ndue {buf:?}\n{}", log.join("\n"));
                o.add("drained_packets", got.len() as u64);
                if waiting.is_empty() {
                    o.count("drained_dry");
                }
                buf.clear();
            }
        }
    }
    // a refused disconnect leaves the session up
    let was_full = buf.len() >= cap;
    let res = e.try_disconnect();
    log.push(format!("try_disconnect -> {res:?}"));
    match &res {
        Ok(()) if !was_full => {
            buf.push(Tag::Bye);
            ensure!(!e.is_connected(), "refusal", "disconnected, yet is_connected\n{}", log.join("\n"));
        }
        Err(x) if was_full && full_err(x) => {
            o.count("refused_disconnects");
            ensure!(e.is_connected(), "refusal", "refused disconnect, yet not connected\n{}", log.join("\n"));
            pump!(usize::MAX);
        }
        _ => return fail("refusal", format!("buffer holds {} of {cap}, try_disconnect returned {res:?}\n{}", buf.len(), log.join("\n"))),
    }
    let got: Vec<Tag> = packets(&e.take_outgoing(), v5)?.iter().map(tag).collect();
    ensure!(got == buf, "drained", "drained {got:?}\ndue {buf:?}\n{}", log.join("\n"));
    // nothing refused comes back with the session; what was accepted does
    e.handle_connection_lost();
    e.connect();
    e.take_outgoing();
    let mut a = Pkt::new(v5, CONNACK);
    a.session_present = true;
    e.handle_incoming(&encode(&a));
    let got: Vec<Tag> = packets(&e.take_outgoing(), v5)?.iter().filter(|p| matches!(p.ty, SUBSCRIBE | UNSUBSCRIBE) || p.ty == PUBLISH && p.dup).map(tag).collect();
    for g in &got {
        ensure!(order.iter().any(|x| x.0 == *g), "trace-left", "resumed with {g:?}, which is not open ({order:?})\n{}", log.join("\n"));
    }
    for (t, _, q) in order.iter().filter(|x| x.2 > 0) {
        ensure!(got.contains(t), "lost", "accepted QoS {q} {t:?} was not resumed\n{}", log.join("\n"));
    }
    o.case(hash64(&shape) ^ cap as u64);
    Ok(())
}

pub fn c19() {
    let mut run = Run::new("C19", "a history under small limits, identified by its actions");
    for (k, n) in [("pauses", 10_000), ("resumed_by_tick", 2_000), ("events_compared", 50_000), ("refused_requests", 2_000), ("refused_pings", 1_000), ("refusals_without_trace", 10_000), ("refused_raw", 1_000), ("refused_disconnects", 1_000), ("acks_beyond_limit", 2_000), ("drained_packets", 10_000), ("drained_dry", 2_000)] {
        run.need(k, n);
    }
    let n = run.scale(10_000, 200_000);
    run.cases("events", n, run.scale(15, 250) as f64, |_, r, o| c19_events(r, o));
    run.cases("outgoing", n, run.scale(15, 250) as f64, |_, r, o| c19_outgoing(r, o));
    run.finish()
}

/// Drains an engine and returns how many events it reported, and whether one was an error.
fn drain(f: &mut Front) -> (usize, bool) {
    let mut n = 0;
    let mut err = false;
    for e in f.events() {
        n += 1;
        err |= matches!(e, MqttEvent::Error(_));
    }
    (n, err)
}

fn works_again(f: &mut Front, v5: bool, quota: bool, r: &mut Rng, log: &[String]) -> Verdict {
    let why = || log[log.len().saturating_sub(40)..].join("\n");
    f.events();
    f.out();
    f.lost();
    f.connect();
    let ps = packets(&f.out(), v5)?;
    ensure!(ps.len() == 1 && ps[0].ty == CONNECT, "recovery", "connect() sent {ps:?}\n{}", why());
    f.events();
    let ev = f.feed(&encode(&Pkt::new(v5, CONNACK)));
    ensure!(f.connected() && ev.iter().any(|e| matches!(e, MqttEvent::Connected(_))), "recovery", "CONNACK not taken: {ev:?}\n{}", why());
    f.out();
    f.events();
    if quota {
        recovered_publish(f, v5, r, log)?;
    }
    let pid = match f.subscribe(SubscribeCommand::new(None, subs_from(&[("f".into(), 1)]), vec![])) {
        Ok(p) => p,
        x => return fail("recovery", format!("subscribe returned {x:?}\n{}", why())),
    };
    let mut a = Pkt::ack(v5, SUBACK, pid, 0);
    a.codes = vec![1];
    let mut m = Pkt::new(v5, PUBLISH);
    m.topic = "x".into();
    m.payload = b"hello".to_vec();
    let mut b = encode(&a);
    b.extend(encode(&m));
    let mut ev = f.feed(&b);
    for _ in 0..4 {
        ev.extend(f.feed(&[]));
    }
    ensure!(ev.iter().any(|e| matches!(e, MqttEvent::Subscribed(p) if p.packet_id == pid)) && ev.iter().any(|e| matches!(e, MqttEvent::MessageReceived(m) if m.payload == b"hello")), "recovery", "SUBACK and PUBLISH not reported: {ev:?}\n{}", why());
    f.out();
    Ok(())
}

fn recovered_publish(f: &mut Front, v5: bool, r: &mut Rng, log: &[String]) -> Verdict {
    let why = || log[log.len().saturating_sub(40)..].join("\n");
    let s = pubspec(r, 1, u64::MAX);
    let pid = match f.publish(s.cmd()) {
        Ok(Some(p)) => p,
        x => return fail("recovery", format!("publish returned {x:?}\n{}", why())),
    };
    let mut ps = vec![];
    // event limits may hold the parser; room is made by taking the events
    ps.extend(packets(&f.out(), v5)?);
    ensure!(ps.iter().any(|p| p.ty == PUBLISH && p.payload == s.payload && p.pid == Some(pid)), "recovery", "the publish was not sent ({} packets)\n{}", ps.len(), why());
    let mut ev = f.feed(&encode(&Pkt::ack(v5, PUBACK, pid, 0)));
    ev.extend(f.feed(&[]));
    ensure!(ev.iter().any(|e| matches!(e, MqttEvent::Published(p) if p.packet_id == Some(pid))), "recovery", "PUBACK not reported: {ev:?}\n{}", why());
    Ok(())
}

pub fn c21() {
    let mut run = Run::new("C21", "a hostile history, identified by the bytes fed");
    for (k, n) in [("recoveries", 3_000), ("malformed_reported", 3_000), ("api_calls", 50_000), ("hostile_bytes", 500_000), ("floods", 20)] {
        run.need(k, n);
    }
    run.cases("hostile", run.scale(8_000, 200_000), run.scale(30, 500) as f64, |_, r, o| {
        let v5 = r.bool();
        let c = Cfg {
            v5,
            level3: r.bool(),
            noio: r.chance(1, 4),
            auto_ack: r.bool(),
            keep_alive: *r.pick(&[0u16, 1, 60, 65535]),
            mult: *r.pick(&[0u32, 1, 2, u32::MAX]),
            rm: *r.pick(&[0u16, 1, 65535]),
            retrans_ms: *r.pick(&[0u64, 1, 5000]),
            max_out: *r.pick(&[1usize, 2, 1000]),
            max_ev: *r.pick(&[1usize, 3, 1000]),
            parser: *r.pick(&[0usize, 1, 16384]),
            attempts: *r.pick(&[0u32, 1]),
            ..Default::default()
        };
        let mut f = c.front();
        let mut log = vec![format!("{c:?}")];
        let mut h = 0u64;
        let mut vt = Instant::now();
        let g = Gen { small: 6, big_every: 200 };
        if r.chance(5, 6) {
            f.connect();
            if r.chance(5, 6) {
                f.feed(&encode(&Pkt::new(v5, CONNACK)));
            }
        }
        for _ in 0..r.range(3, 40) {
            match r.below(14) {
                0..=4 => {
                    let ver = v5 != r.chance(1, 12);
                    let mut b = hostile(r, ver);
                    if b.len() > 5000 {
                        b.truncate(5000);
                    }
                    if r.chance(1, 3) {
                        // cut a well-formed packet too
                        let p = g.any(r, v5);
                        b = encode_form(&p, 0);
                    }
                    let n = if r.chance(1, 4) { r.below(b.len() + 1) } else { b.len() };
                    log.push(format!("feed {}", hex(&b[..n])));
                    h = h.rotate_left(5) ^ hash64(&b[..n]);
                    o.add("hostile_bytes", n as u64);
                    let ev = f.feed(&b[..n]);
                    let _ = format!("{ev:?}");
                }
                5 | 6 => {
                    // acknowledgements for anything
                    let ty = *r.pick(&[PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK]);
                    let mut p = Pkt::ack(v5, ty, *r.pick(&[1u16, 1, 2, 3, 65535]), 0);
                    if ty == SUBACK || ty == UNSUBACK && v5 {
                        p.codes = vec![0; r.range(1, 3)];
                    }
                    log.push(format!("feed {} {:?}", p.name(), p.pid));
                    f.feed(&encode(&p));
                }
                7 => {
                    vt += Duration::from_millis(*r.pick(&[0u64, 1, 1000, 60_000, 100_000_000]));
                    let t = if r.chance(1, 4) { f.next().filter(|t| t.duration_since(vt) < Duration::from_secs(1_000_000_000)).unwrap_or(vt) } else { vt };
                    log.push("tick".into());
                    f.tick(t);
                }
                _ => {
                    o.count("api_calls");
                    let k = r.below(16);
                    log.push(format!("call {k}"));
                    h = h.rotate_left(3) ^ k as u64;
                    match k {
                        0 | 1 => {
                            let mut s = pubany(r, 1);
                            if r.chance(1, 3) {
                                s.topic = r.pick(&["", "a/#", "\0", "+", "\u{feff}x"]).to_string();
                            }
                            if r.chance(1, 6) {
                                s.qos = r.range(3, 255) as u8;
                            }
                            if r.chance(1, 6) {
                                s.pid = Some(*r.pick(&[0u16, 1, 2, 65535]));
                            }
                            if r.chance(1, 60) {
                                s.topic = "x".repeat(70_000);
                            }
                            let _ = f.publish(s.cmd());
                        }
                        2 => {
                            let fl: Vec<(String, u8)> = (0..r.below(3)).map(|_| (g.text(r), r.u8())).collect();
                            let pid = r.chance(1, 4).then(|| *r.pick(&[0u16, 1, 65535]));
                            let subs = fl.iter().map(|x| flowsdk::mqtt_serde::mqttv5::subscribe::TopicSubscription::new(x.0.clone(), x.1, x.1 & 1 != 0, x.1 & 2 != 0, x.1 >> 4)).collect();
                            let _ = f.subscribe(SubscribeCommand::new(pid, subs, vec![]));
                        }
                        3 => {
                            let t: Vec<String> = (0..r.below(3)).map(|_| g.text(r)).collect();
                            let pid = r.chance(1, 4).then(|| *r.pick(&[0u16, 1, 65535]));
                            let _ = f.unsubscribe(UnsubscribeCommand::new(pid, t, vec![]));
                        }
                        4 => f.ping(),
                        5 => f.disconnect(),
                        6 => f.lost(),
                        7 => f.connect(),
                        8 => {
                            f.out();
                        }
                        9 => {
                            drain(&mut f);
                        }
                        10 => {
                            f.next();
                        }
                        _ => {
                            if let Front::Engine(e) = &mut f {
                                match k {
                                    11 => e.schedule_reconnect(vt),
                                    12 => e.auth(r.u8(), vec![]),
                                    13 => {
                                        let ver = v5 != r.chance(1, 8);
                                        let p = g.any(r, ver);
                                        let _ = e.enqueue_packet(conv::from_model(&p));
                                    }
                                    14 => {
                                        let p = g.any(r, v5);
                                        e.ingest_stream_packet(conv::from_model(&p), r.below(3) as u64);
                                        e.take_stream_retransmissions();
                                    }
                                    _ => {
                                        let s = pubany(r, 2);
                                        let _ = e.publish_encoded(s.cmd(), r.bool().then_some(4));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // a frame that is malformed beyond doubt is reported, wherever it comes
        let fresh = r.bool();
        if fresh {
            f.lost();
            f.connect();
            f.events();
            let mut ev = f.feed(&encode(&Pkt::new(v5, CONNACK)));
            let bad: &[u8] = if v5 { r.pick(&[&b"\x00\x00"[..], b"\x36\x04\0\x01a\0", b"\x30\xff\xff\xff\xff\x01", b"\x62\x02\0\x01\xff\xff\xff\xff\xff"]) } else { r.pick(&[&b"\x00\x00"[..], b"\xf0\x00", b"\x36\x04\0\x01a\0", b"\x30\xff\xff\xff\xff\x01"]) };
            if bad[0] != 0x62 {
                log.push(format!("malformed {}", hex(bad)));
                ev.extend(f.feed(bad));
                for _ in 0..4 {
                    ev.extend(f.feed(&[]));
                }
                ensure!(ev.iter().any(|e| matches!(e, MqttEvent::Error(_))), "unreported", "malformed {} brought no error event: {ev:?}\n{}", hex(bad), log.join("\n"));
                o.count("malformed_reported");
            }
        }
        // with a quota of one, an exchange of the dropped session may hold it (see C10)
        works_again(&mut f, v5, c.rm != 1, r, &log)?;
        o.count("recoveries");
        o.case(h);
        Ok(())
    });
    run.cases("memory", run.scale(160, 1600), run.scale(30, 300) as f64, |i, r, o| {
        let v5 = i % 2 == 0;
        let base = alloc::live();
        let c = Cfg { v5, auto_ack: i % 4 < 2, noio: i % 3 == 0, max_ev: 100, retrans_ms: 1000, ..Default::default() };
        let mut f = c.front();
        f.connect();
        f.out();
        f.feed(&encode(&Pkt::new(v5, CONNACK)));
        for k in 0..20 {
            let _ = f.publish(pubspec(r, 1 + (k % 2) as u8, k).cmd());
        }
        f.out();
        let mut vt = Instant::now();
        let flood = i / 4 % 10;
        let mut fed = 0usize;
        let n = if flood == 5 { 4_000 } else { 40_000 };
        for k in 0..n {
            let p = match flood {
                0 => {
                    let mut p = Pkt::new(v5, PUBLISH);
                    p.topic = "t".into();
                    p.qos = 2;
                    p.pid = Some((k % 65535) as u16 + 1);
                    p
                }
                1 => Pkt::ack(v5, PUBREC, r.range(1, 30) as u16, 0),
                2 => Pkt::ack(v5, *r.pick(&[PUBACK, PUBCOMP, PUBREL]), r.u16().max(1), 0),
                3 => suback(v5, &Pkt { filters: vec![("f".into(), 0); 3], ..Pkt::ack(v5, SUBSCRIBE, r.u16().max(1), 0) }),
                4 => Pkt::new(v5, CONNACK),
                5 => {
                    let mut p = Pkt::new(v5, PUBLISH);
                    p.topic = "t".into();
                    p.payload = r.bytes(500);
                    p
                }
                // what only a client may send
                6 => match r.below(3) {
                    0 => Pkt::new(v5, PINGREQ),
                    1 => Pkt { filters: vec![("f".into(), 0)], ..Pkt::ack(v5, SUBSCRIBE, r.u16().max(1), 0) },
                    _ => Pkt { filters: vec![("f".into(), 0)], ..Pkt::ack(v5, UNSUBSCRIBE, r.u16().max(1), 0) },
                },
                // answers to nothing, one kind only
                7 => Pkt::ack(v5, [PUBACK, PUBREC, PUBREL, PUBCOMP][(i / 40 % 4) as usize], (k % 65535) as u16 + 1, 0),
                8 => Pkt { codes: if v5 { vec![0] } else { vec![] }, ..Pkt::ack(v5, UNSUBACK, r.u16().max(1), 0) },
                _ => Pkt::new(v5, PINGRESP),
            };
            let b = encode(&p);
            fed += b.len();
            drop(f.feed(&b));
            drop(f.out());
            if k % 50 == 49 {
                vt += Duration::from_secs(2);
                drop(f.feed(&encode(&Pkt::new(v5, PINGRESP))));
                drop(f.tick(vt));
                drop(f.out());
            }
        }
        for _ in 0..50 {
            f.feed(&[]);
        }
        drop(f.out());
        drop(f.events());
        let grown = alloc::live() - base;
        ensure!(grown < if flood == 0 { 600_000 } else { 250_000 }, "memory", "after reading {fed} bytes of flood {flood}, all output and events taken, {grown} bytes are held ({c:?})");
        o.count("floods");
        o.add("flood_bytes", fed as u64);
        o.case(i);
        Ok(())
    });
    run.finish()
}
