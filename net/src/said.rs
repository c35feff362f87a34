//! C40: what the server says reaches the application as it was said, and what the application
//! says in AUTH reaches the server.
use crate::sync::on_rt;
use crate::tk::*;
use async_trait::async_trait;
use flowsdk::mqtt_client::client::AuthResult;
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::MqttMessage;
use flowsdk::mqtt_client::tokio_async_client::{TokioAsyncClientConfig, TokioAsyncMqttClient, TokioMqttEventHandler};
use flowsdk::mqtt_client::{ConnectionResult, MqttClientError, MqttClientOptions, MqttEngine, MqttEvent, NoIoMqttClient, PingResult, PublishResult, SubscribeResult, UnsubscribeResult};
use flowsdk::mqtt_serde::mqttv5::common::properties::Property;
use flowsdk::mqtt_serde::mqttv5::subscribe::TopicSubscription;
use kit::*;
use refmqtt::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn ps(p: &[Property]) -> String {
    format!("{:?}", conv::props_to_model(p))
}
fn ops(p: &Option<Vec<Property>>) -> String {
    ps(p.as_deref().unwrap_or(&[]))
}
fn connected(r: &ConnectionResult) -> String {
    format!("connected {:#x} {} {}", r.reason_code, r.session_present, ops(&r.properties))
}
fn published(r: &PublishResult) -> String {
    format!("published {:?} {:?} q{} {}", r.packet_id, r.reason_code, r.qos, ops(&r.properties))
}
fn subscribed(r: &SubscribeResult) -> String {
    format!("subscribed {} {:?} {}", r.packet_id, r.reason_codes, ps(&r.properties))
}
fn unsubscribed(r: &UnsubscribeResult) -> String {
    format!("unsubscribed {} {:?} {}", r.packet_id, r.reason_codes, ps(&r.properties))
}
fn authed(r: &AuthResult) -> String {
    format!("auth {:#x} {}", r.reason_code, ps(&r.properties))
}
fn message(m: &MqttMessage) -> String {
    format!("message {:?} {} q{} {} {}", m.topic_name, hex(&m.payload), m.qos, m.retain, ps(&m.properties))
}

/// An event as text; None for what only accompanies another event.
fn text(e: &MqttEvent) -> Option<String> {
    Some(match e {
        MqttEvent::Connected(r) => connected(r),
        MqttEvent::Disconnected(r) => format!("disconnected {r:?}"),
        MqttEvent::Published(r) => published(r),
        MqttEvent::Subscribed(r) => subscribed(r),
        MqttEvent::Unsubscribed(r) => unsubscribed(r),
        MqttEvent::AuthReceived(r) => authed(r),
        MqttEvent::PingResponse(r) => format!("pong {}", r.success),
        MqttEvent::MessageReceived(m) => message(m),
        MqttEvent::PublishReceived { .. } => return None,
        e => format!("{e:?}"),
    })
}

/// What the application has to be told about a packet.
fn expected(p: &Pkt, qos: u8) -> Option<String> {
    let props = format!("{:?}", p.props);
    Some(match p.ty {
        CONNACK => format!("connected {:#x} {} {props}", p.reason, p.session_present),
        PUBACK | PUBCOMP => format!("published {:?} {:?} q{qos} {props}", p.pid, Some(p.reason)),
        PUBREC if p.reason >= 0x80 => format!("published {:?} {:?} q{qos} {props}", p.pid, Some(p.reason)),
        PUBREC => return None,
        SUBACK => format!("subscribed {} {:?} {props}", p.pid.unwrap(), p.codes),
        UNSUBACK => format!("unsubscribed {} {:?} {props}", p.pid.unwrap(), p.codes),
        AUTH => format!("auth {:#x} {props}", p.reason),
        PINGRESP => "pong true".into(),
        DISCONNECT => format!("disconnected {:?}", Some(p.reason)),
        PUBLISH => format!("message {:?} {} q{} {} {props}", p.topic, hex(&p.payload), p.qos, p.retain),
        _ => unreachable!(),
    })
}

fn gen() -> Gen {
    Gen { small: 12, big_every: 60 }
}

fn auth_packet(r: &mut Rng) -> Pkt {
    let mut a = gen().packet(r, true, AUTH);
    if a.props.is_empty() && a.reason == 0 {
        a.reason = 0x18;
    }
    a
}

/// An answer to a request of the client's.
fn answer(r: &mut Rng, v5: bool, req: &Pkt) -> Pkt {
    let g = gen();
    let ty = match (req.ty, req.qos) {
        (PUBLISH, 1) => PUBACK,
        (PUBLISH, _) => PUBREC,
        (PUBREL, _) => PUBCOMP,
        (PINGREQ, _) => PINGRESP,
        (t, _) => t + 1,
    };
    let mut a = g.packet(r, v5, ty);
    if ty != PINGRESP {
        a.pid = req.pid;
    }
    if ty == SUBACK || ty == UNSUBACK {
        let mut pool = a.codes.clone();
        if !pool.is_empty() {
            while pool.len() < req.filters.len() {
                pool.push(pool[r.below(pool.len())]);
            }
            pool.truncate(req.filters.len());
        }
        a.codes = pool;
    }
    a
}

enum Front {
    Engine(Box<MqttEngine>),
    NoIo(Box<NoIoMqttClient>),
}
macro_rules! both {
    ($s:expr, $e:ident => $x:expr) => {
        match $s {
            Front::Engine($e) => $x,
            Front::NoIo($e) => $x,
        }
    };
}

#[derive(PartialEq, Clone, Copy)]
enum St {
    Off,
    Opening,
    On,
}

/// What the client has sent and is still waiting for.
fn note(out: &[Pkt], owed: &mut Vec<Pkt>) {
    for p in out {
        if matches!(p.ty, PUBLISH if p.qos > 0) || matches!(p.ty, PUBREL | SUBSCRIBE | UNSUBSCRIBE | PINGREQ) {
            if p.pid.is_some() {
                owed.retain(|x| x.pid != p.pid);
            }
            owed.push(p.clone());
        }
    }
}

fn engine(r: &mut Rng, o: &mut Obs) -> Verdict {
    let v5 = r.chance(3, 4);
    let opts = MqttClientOptions {
        client_id: "said".into(),
        mqtt_version: if v5 { 5 } else { *r.pick(&[3u8, 4]) },
        clean_start: r.bool(),
        keep_alive: *r.pick(&[0u16, 60]),
        auto_ack: r.bool(),
        ..Default::default()
    };
    let mut f = if r.chance(1, 3) { Front::NoIo(Box::new(NoIoMqttClient::new(opts))) } else { Front::Engine(Box::new(MqttEngine::new(opts))) };
    let mut st = St::Off;
    let mut owed: Vec<Pkt> = vec![];
    let mut log: Vec<String> = vec![];
    let mut serial = 0u32;
    let mut shape: Vec<u8> = vec![];
    for _ in 0..r.range(6, 60) {
        macro_rules! end {
            () => {
                log[log.len().saturating_sub(12)..].join("; ")
            };
        }
        // what the application does
        let mut want_out: Option<Pkt> = None;
        match st {
            St::Off => {
                both!(&mut f, e => e.connect());
                log.push("connect()".into());
                st = St::Opening;
                owed.clear();
            }
            _ if r.chance(1, 4) => {
                let a = auth_packet(r);
                let c = conv::props_from_model(&a.props);
                both!(&mut f, e => e.auth(a.reason, c));
                log.push(format!("auth({:#x}, {:?})", a.reason, a.props));
                want_out = Some(a);
            }
            St::On if r.chance(2, 3) => {
                serial += 1;
                match r.below(4) {
                    0 => {
                        let c = PublishCommand::new("t/x".into(), serial.to_be_bytes().to_vec(), r.below(3) as u8, false, false, None, vec![], 128);
                        let _ = both!(&mut f, e => e.publish(c));
                    }
                    1 => {
                        let subs = (0..r.range(1, 5)).map(|i| TopicSubscription::new(format!("f/{i}"), 1, false, false, 0)).collect();
                        let _ = both!(&mut f, e => e.subscribe(SubscribeCommand::new(None, subs, vec![])));
                    }
                    2 => {
                        let _ = both!(&mut f, e => e.unsubscribe(UnsubscribeCommand::new(None, (0..r.range(1, 4)).map(|i| format!("f/{i}")).collect(), vec![])));
                    }
                    _ => match &mut f {
                        Front::Engine(e) => e.send_ping(),
                        Front::NoIo(e) => e.ping(),
                    },
                }
            }
            _ => {}
        }
        let out = both!(&mut f, e => e.take_outgoing());
        let out = match decode_all(&out, v5) {
            Ok((v, n)) if n == out.len() => v,
            x => return fail("bytes", format!("{x:?} from {}", hex(&out))),
        };
        let auths: Vec<&Pkt> = out.iter().filter(|p| p.ty == AUTH).collect();
        match &want_out {
            Some(a) if v5 => {
                ensure!(auths == vec![a], "auth-sent", "auth({:#x}, {:?}) put out {auths:?}; {}", a.reason, a.props, end!());
                o.count("auth_sent");
            }
            _ => ensure!(auths.is_empty(), "auth-sent", "unasked {auths:?}; {}", end!()),
        }
        note(&out, &mut owed);
        // what the server says
        let mut batch: Vec<(Pkt, u8)> = vec![];
        let mut over = false;
        if st == St::Opening {
            for _ in 0..r.below(3) {
                if v5 && r.bool() {
                    batch.push((auth_packet(r), 0));
                }
            }
            if r.chance(2, 3) {
                let mut c = gen().packet(r, v5, CONNACK);
                if r.chance(2, 3) {
                    c.reason = 0;
                }
                c.props.retain(|p| !matches!(p, P::U16(0x21, 0)));
                if c.reason == 0 {
                    st = St::On;
                    o.count("accepted");
                } else {
                    o.count("refused");
                    over = true;
                }
                batch.push((c, 0));
            }
        }
        if st == St::On {
            for _ in 0..r.below(6) {
                match r.below(12) {
                    0 if v5 => batch.push((auth_packet(r), 0)),
                    1 => {
                        let mut p = gen().packet(r, v5, PUBLISH);
                        p.qos = 0;
                        p.dup = false;
                        p.pid = None;
                        p.props.retain(|x| x.id() != 0x23);
                        if p.topic.is_empty() {
                            p.topic = "a".into();
                        }
                        batch.push((p, 0));
                    }
                    2 if v5 && r.chance(1, 3) => {
                        batch.push((gen().packet(r, true, DISCONNECT), 0));
                        over = true;
                        break;
                    }
                    _ if !owed.is_empty() => {
                        let q = owed.remove(r.below(owed.len()));
                        let a = answer(r, v5, &q);
                        let qos = if q.ty == PUBREL { 2 } else { q.qos };
                        batch.push((a, qos));
                    }
                    _ => {}
                }
            }
        }
        let mut bytes = vec![];
        let mut want = vec![];
        for (p, q) in &batch {
            bytes.extend(encode(p));
            shape.push(p.ty);
            shape.push(p.reason);
            want.extend(expected(p, *q));
            o.count(p.name());
        }
        log.push(format!("server: {}", short(&batch.iter().map(|b| format!("{} {:?}", b.0.name(), b.0.pid)).collect::<Vec<_>>().join(", "), 300)));
        let mut evs = vec![];
        let mut at = 0;
        while at < bytes.len() {
            let n = if r.bool() { bytes.len() - at } else { r.range(1, bytes.len() - at) };
            evs.extend(both!(&mut f, e => e.handle_incoming(&bytes[at..at + n])));
            at += n;
        }
        evs.extend(both!(&mut f, e => e.take_events()));
        let got: Vec<String> = evs.iter().filter_map(text).collect();
        if got != want {
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return fail("told", format!("event {k} of {}: told {:?}, the server said {:?}; {}", want.len(), got.get(k).map(|s| short(s, 400)), want.get(k).map(|s| short(s, 400)), end!()));
        }
        o.add("told", want.len() as u64);
        let up = both!(&f, e => e.is_connected());
        ensure!(up == (st == St::On && !over), "state", "connected={up} after {:?}; {}", want.last(), end!());
        let out = both!(&mut f, e => e.take_outgoing());
        if let Ok((v, _)) = decode_all(&out, v5) {
            note(&v, &mut owed);
        }
        if over || (st == St::On && r.chance(1, 20)) {
            both!(&mut f, e => e.handle_connection_lost());
            let _ = both!(&mut f, e => e.take_events());
            let _ = both!(&mut f, e => e.take_outgoing());
            ensure!(!both!(&f, e => e.is_connected()), "state", "connected after the connection was lost");
            st = St::Off;
        }
    }
    o.case(hash64(&shape));
    Ok(())
}

#[derive(Clone, Default)]
struct Told(Arc<Mutex<Vec<String>>>);
impl Told {
    fn push(&self, s: String) {
        self.0.lock().unwrap().push(s)
    }
}

#[async_trait]
impl TokioMqttEventHandler for Told {
    async fn on_connected(&mut self, r: &ConnectionResult) {
        self.push(connected(r))
    }
    async fn on_disconnected(&mut self, reason: Option<u8>) {
        self.push(format!("disconnected {reason:?}"))
    }
    async fn on_published(&mut self, r: &PublishResult) {
        if r.packet_id.is_some() {
            self.push(published(r))
        }
    }
    async fn on_subscribed(&mut self, r: &SubscribeResult) {
        self.push(subscribed(r))
    }
    async fn on_unsubscribed(&mut self, r: &UnsubscribeResult) {
        self.push(unsubscribed(r))
    }
    async fn on_message_received(&mut self, m: &MqttMessage) {
        self.push(message(m))
    }
    async fn on_ping_response(&mut self, r: &PingResult) {
        self.push(format!("pong {}", r.success))
    }
    async fn on_auth_received(&mut self, r: &AuthResult) {
        self.push(authed(r))
    }
    async fn on_error(&mut self, e: &MqttClientError) {
        self.push(format!("error {e:?}"))
    }
    async fn on_connection_lost(&mut self) {
        self.push("lost".into())
    }
    async fn on_reconnect_attempt(&mut self, n: u32) {
        self.push(format!("attempt {n}"))
    }
}

async fn asynchronous(r: &mut Rng, o: Arc<Mutex<Obs>>) -> Verdict {
    let v5 = r.chance(3, 4);
    let (l, addr) = listen().await;
    let told = Told::default();
    let opts = MqttClientOptions { peer: addr, client_id: "said".into(), mqtt_version: if v5 { 5 } else { 4 }, keep_alive: 60, ..Default::default() };
    let cfg = TokioAsyncClientConfig { auto_reconnect: false, ..Default::default() };
    let c = TokioAsyncMqttClient::new(opts, Box::new(told.clone()), cfg).await.map_err(|e| Violation { sig: "new".into(), detail: format!("{e:?}") })?;
    let e = |x: &str| Violation { sig: "call".into(), detail: x.into() };
    c.connect().await.map_err(|_| e("connect"))?;
    let (s, _) = l.accept().await.unwrap();
    let mut p = Peer::new(tcp(s), v5);
    let mut want: Vec<String> = vec![];
    let mut got: Vec<Pkt> = vec![];
    // waits until the client has sent n more packets
    macro_rules! until {
        ($n:expr) => {
            while got.len() < $n {
                match tokio::time::timeout(Duration::from_secs(8), p.recv()).await {
                    Ok(Ok(Some(v))) => got.extend(v),
                    x => return fail("sent", format!("{} of {} packets from the client: {x:?}", got.len(), $n)),
                }
            }
        };
    }
    until!(1);
    ensure!(got[0].ty == CONNECT, "sent", "{:?}", got[0]);
    got.clear();
    let mut auth_out = 0;
    let rounds = if v5 { r.below(4) } else { 0 };
    for i in 0..rounds {
        // a challenge before CONNACK, and the application's response
        let mut a = auth_packet(r);
        a.reason = 0x18;
        want.extend(expected(&a, 0));
        p.send(&a).await;
        let x = auth_packet(r);
        let pr = conv::props_from_model(&x.props);
        let reason = match r.below(3) {
            0 => {
                c.auth_continue(pr).await.map_err(|_| e("auth_continue"))?;
                0x18
            }
            1 => {
                c.auth_re_authenticate(pr).await.map_err(|_| e("auth_re_authenticate"))?;
                0x19
            }
            _ => {
                c.auth(x.reason, pr).await.map_err(|_| e("auth"))?;
                x.reason
            }
        };
        until!(i + 1);
        let g = &got[i];
        ensure!(g.ty == AUTH && g.reason == reason && g.props == x.props, "auth-sent", "asked for AUTH {reason:#x} {:?}, sent {g:?}", x.props);
        auth_out += 1;
    }
    got.clear();
    let mut k = gen().packet(r, v5, CONNACK);
    let refuse = r.chance(1, 8);
    k.reason = if !refuse { 0 } else if v5 { *r.pick(&[0x80u8, 0x87, 0x8c]) } else { *r.pick(&[1u8, 5]) };
    k.session_present = !refuse && r.bool();
    // the application asks for at most 20 exchanges at once
    k.props.retain(|q| !matches!(q.id(), 0x21 | 0x13));
    want.extend(expected(&k, 0));
    let mut b = encode(&k);
    if refuse {
        p.write(&b).await;
    } else {
        if v5 && r.bool() {
            let a = auth_packet(r);
            want.extend(expected(&a, 0));
            b.extend(encode(&a));
        }
        p.write(&b).await;
        let n = r.range(1, 20);
        for i in 0..n {
            if r.chance(1, 4) {
                // a caller that gives up before the answer
                let (t, ms) = (format!("t/{i}"), r.range(1, 3) as u64);
                let gone = match r.below(4) {
                    0 => c.publish_sync_with_timeout(&t, &[i as u8], 1 + r.below(2) as u8, false, ms).await.is_err(),
                    1 => c.subscribe_sync_with_timeout(&t, 1, ms).await.is_err(),
                    2 => c.unsubscribe_sync_with_timeout(vec!["t/1", "t/2"], ms).await.is_err(),
                    _ => c.ping_sync_with_timeout(ms).await.is_err(),
                };
                ensure!(gone, "answered", "a call returned before it was answered");
                o.lock().unwrap().count("async_gave_up");
                continue;
            }
            match r.below(5) {
                0 | 1 => c.publish(&format!("t/{i}"), &[i as u8], 1 + r.below(2) as u8, false).await.map_err(|_| e("publish"))?,
                2 => c.subscribe(&format!("t/{i}"), 1).await.map_err(|_| e("subscribe"))?,
                3 => c.unsubscribe(vec!["t/1".into(), "t/2".into()]).await.map_err(|_| e("unsubscribe"))?,
                _ => c.ping().await.map_err(|_| e("ping"))?,
            };
        }
        until!(n);
        let mut owed: Vec<Pkt> = vec![];
        note(&got, &mut owed);
        got.clear();
        while !owed.is_empty() {
            let mut b = vec![];
            let mut rels = 0;
            for _ in 0..r.range(1, owed.len()) {
                let q = owed.remove(r.below(owed.len()));
                let a = answer(r, v5, &q);
                want.extend(expected(&a, if q.ty == PUBREL { 2 } else { q.qos }));
                if a.ty == PUBREC && a.reason < 0x80 {
                    rels += 1;
                }
                b.extend(encode(&a));
                if v5 && r.chance(1, 6) {
                    let a = auth_packet(r);
                    want.extend(expected(&a, 0));
                    b.extend(encode(&a));
                }
            }
            p.write(&b).await;
            until!(rels);
            note(&got, &mut owed);
            got.clear();
        }
        if v5 && r.bool() {
            let d = gen().packet(r, true, DISCONNECT);
            want.extend(expected(&d, 0));
            p.send(&d).await;
            let mut o = o.lock().unwrap();
            o.count("async_disconnects");
        }
    }
    let t = std::time::Instant::now();
    while told.0.lock().unwrap().len() < want.len() && t.elapsed() < Duration::from_secs(8) {
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    let got = told.0.lock().unwrap().clone();
    let same = got.len() >= want.len() && got[..want.len()] == want[..] && got[want.len()..].iter().all(|x| x == "lost");
    if !same {
        let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return fail("told-async", format!("callback {k} of {}: {:?}, the server said {:?}", want.len(), got.get(k).map(|s| short(s, 400)), want.get(k).map(|s| short(s, 400))));
    }
    let mut o = o.lock().unwrap();
    o.add("async_told", want.len() as u64);
    o.add("async_auth_sent", auth_out);
    o.case(hash64(want.join("|").as_bytes()));
    Ok(())
}

/// The predicates of the results, for every code.
fn results(r: &mut Rng, o: &mut Obs) -> Verdict {
    let codes: Vec<u8> = (0..r.below(6)).map(|_| if r.bool() { r.below(4) as u8 } else { r.u8() }).collect();
    let c = r.u8();
    let k = ConnectionResult { reason_code: c, session_present: r.bool(), properties: None };
    ensure!(k.is_success() == (c == 0) && k.is_failure() == (c != 0), "result", "CONNACK {c:#x}: success {} failure {}", k.is_success(), k.is_failure());
    let a = AuthResult { reason_code: c, properties: vec![] };
    ensure!((a.is_success(), a.is_continue(), a.is_re_authenticate()) == (c == 0, c == 0x18, c == 0x19), "result", "AUTH {c:#x}");
    let s = SubscribeResult { packet_id: 1, reason_codes: codes.clone(), properties: vec![] };
    let good = codes.iter().filter(|x| **x <= 2).count();
    ensure!(s.is_success() == (good == codes.len()) && s.successful_subscriptions() == good, "result", "SUBACK {codes:?}: {} {}", s.is_success(), s.successful_subscriptions());
    let u = UnsubscribeResult { packet_id: 1, reason_codes: codes.clone(), properties: vec![] };
    ensure!(u.is_success() == codes.iter().all(|x| *x == 0 || *x == 0x11), "result", "UNSUBACK {codes:?}: {}", u.is_success());
    for code in [None, Some(c)] {
        let p = PublishResult { packet_id: None, reason_code: code, properties: None, qos: 1 };
        ensure!(p.is_success() == (code.unwrap_or(0) < 0x80), "result", "PUBACK {code:?}: {}", p.is_success());
    }
    o.case(c as u64 | (codes.len() as u64) << 8);
    o.count("results");
    Ok(())
}

pub fn c40() {
    let mut run = Run::new("C40", "a distinct sequence of packets from the server, each with its event");
    run.assume("the server keeps to the protocol: it answers what was asked, CONNACK comes once, nothing follows its DISCONNECT");
    run.assume("an event names everything its type has room for: a DISCONNECT's properties have none");
    run.cases("engine", run.scale(60_000, 3_000_000), run.scale(20, 300) as f64, |_, r, o| engine(r, o));
    run.cases_on("async", run.scale(1_500, 40_000), run.scale(25, 300) as f64, 16, |_, r, o| on_rt(r, o, 30, |r, o| Box::pin(asynchronous(r, o))));
    run.cases("results", 20_000, 10.0, |_, r, o| results(r, o));
    for (k, n) in [("told", 50_000), ("auth_sent", 5_000), ("AUTH", 5_000), ("DISCONNECT", 1_000), ("CONNACK", 10_000), ("SUBACK", 2_000), ("UNSUBACK", 2_000), ("PINGRESP", 2_000), ("PUBACK", 1_000), ("PUBREC", 1_000), ("PUBCOMP", 300), ("refused", 1_000), ("async_told", 3_000), ("async_gave_up", 500), ("async_auth_sent", 300), ("async_disconnects", 100), ("results", 10_000)] {
        run.need(k, n);
    }
    run.finish()
}
