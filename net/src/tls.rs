//! C27: the TLS engine beside the plain one, under the same operations and the same broker bytes.
use crate::qsim::{client_tls, provider, server_tls};
use crate::rig::pub_pkt;
use flowsdk::mqtt_client::commands::*;
use flowsdk::mqtt_client::engine::MqttEngine;
use flowsdk::mqtt_client::tls_engine::TlsMqttEngine;
use flowsdk::mqtt_client::{MqttClientOptions, MqttEvent};
use flowsdk::mqtt_serde::mqttv5::subscribe::TopicSubscription;
use kit::*;
use refmqtt::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::sync::Arc;
use std::time::{Duration, Instant};

struct Pair {
    plain: MqttEngine,
    tls: TlsMqttEngine,
    srv: rustls::ServerConnection,
    now: Instant,
    v5: bool,
    /// ciphertext under way
    up: Vec<u8>,
    down: Vec<u8>,
    /// what the broker decrypted, and what the plain engine put out
    rx: Vec<u8>,
    ref_rx: Vec<u8>,
    parsed: usize,
    /// broker bytes the two engines have yet to get
    tx: Vec<u8>,
    ref_tx: Vec<u8>,
    evs: Vec<String>,
    ref_evs: Vec<String>,
    seg: usize,
    /// everything under way arrives before a tick, though in pieces
    whole: bool,
    cfg: String,
    compared: usize,
    cmp_evs: usize,
    open: BTreeMap<u16, u8>,
    next: u16,
    ticks: u64,
    records: u64,
}

fn opts(r: &mut Rng, v5: bool, whole: bool) -> MqttClientOptions {
    let o = MqttClientOptions {
        client_id: "tls".into(),
        clean_start: r.bool(),
        keep_alive: *r.pick(&[0, 3, 61]),
        mqtt_version: if v5 { 5 } else { 4 },
        auto_ack: !r.chance(1, 5),
        retransmission_timeout_ms: *r.pick(&[1_500, 1_000_000]),
        max_outgoing_packet_count: *r.pick(&[1, 3, 1000, 1000]),
        max_event_count: *r.pick(&[1, 4, 1000, 1000]),
        receive_maximum: *r.pick(&[3, 100, 65535]),
        parser_buffer_size: *r.pick(&[64, 16384]),
        auto_keepalive: r.bool(),
        username: Some("u".repeat(r.range(1, 30))),
        password: r.bool().then(|| r.bytes(8)),
        ..Default::default()
    };
    if whole {
        return o;
    }
    // nothing the engine would send of its own accord between two pieces
    MqttClientOptions { keep_alive: 0, retransmission_timeout_ms: 1_000_000, max_outgoing_packet_count: 1000, receive_maximum: 65535, ..o }
}

fn evs(v: Vec<MqttEvent>) -> Vec<String> {
    v.into_iter().map(|e| format!("{e:?}")).collect()
}

fn payload(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(40) {
        0 => r.range(60_000, 300_000),
        1 | 2 => r.range(4000, 40_000),
        3..=8 => r.range(100, 3000),
        _ => r.below(60),
    };
    r.bytes(n)
}

impl Pair {
    fn new(r: &mut Rng, tamper: bool) -> Pair {
        let v5 = r.bool();
        let whole = r.chance(3, 4);
        let o1 = opts(&mut r.clone(), v5, whole);
        let o = opts(r, v5, whole);
        let mut cc = if r.chance(1, 3) {
            rustls::ClientConfig::builder_with_provider(provider())
                .with_protocol_versions(&[&rustls::version::TLS12])
                .unwrap()
                .dangerous()
                .with_custom_certificate_verifier(Arc::new(crate::qsim::NoVerify))
                .with_no_client_auth()
        } else {
            client_tls()
        };
        let mut sc = server_tls(false);
        if r.chance(1, 3) {
            cc.max_fragment_size = Some(r.range(100, 2000));
        }
        if r.chance(1, 3) {
            sc.max_fragment_size = Some(r.range(100, 2000));
        }
        let sc = {
            // the broker speaks both versions
            let mut both = rustls::ServerConfig::builder_with_provider(provider())
                .with_safe_default_protocol_versions()
                .unwrap()
                .with_no_client_auth()
                .with_cert_resolver(sc.cert_resolver.clone());
            both.max_fragment_size = sc.max_fragment_size;
            both
        };
        let mut srv = rustls::ServerConnection::new(Arc::new(sc)).unwrap();
        srv.set_buffer_limit(None);
        let _ = tamper;
        let cfg = format!("{:?}", (v5, whole, o.keep_alive, o.auto_ack, o.retransmission_timeout_ms, o.max_outgoing_packet_count, o.max_event_count, o.receive_maximum, o.auto_keepalive));
        Pair {
            plain: MqttEngine::new(o1),
            tls: TlsMqttEngine::new(o, "localhost", Arc::new(cc)).unwrap(),
            srv,
            now: Instant::now(),
            v5,
            up: vec![],
            down: vec![],
            rx: vec![],
            ref_rx: vec![],
            parsed: 0,
            tx: vec![],
            ref_tx: vec![],
            evs: vec![],
            ref_evs: vec![],
            seg: *r.pick(&[1, 7, 100, 1460, 20_000, 1 << 30]),
            whole,
            cfg,
            compared: 0,
            cmp_evs: 0,
            open: BTreeMap::new(),
            next: 1,
            ticks: 0,
            records: 0,
        }
    }

    /// The broker's TLS stack takes what arrived and gives out what it has.
    fn server(&mut self) {
        let mut d = &self.up[..];
        while !d.is_empty() {
            if self.srv.read_tls(&mut d).unwrap_or(0) == 0 {
                break;
            }
            self.srv.process_new_packets().expect("the broker's TLS stack refused what the client sent");
            let mut b = [0u8; 16384];
            while let Ok(n) = self.srv.reader().read(&mut b) {
                if n == 0 {
                    break;
                }
                self.rx.extend_from_slice(&b[..n]);
            }
        }
        self.up.clear();
        while self.srv.wants_write() {
            self.srv.write_tls(&mut self.down).unwrap();
        }
    }

    /// One round: some of what is under way arrives, both engines tick, what they have is sent.
    fn round(&mut self, r: &mut Rng) -> Verdict {
        if !self.tx.is_empty() && !self.srv.is_handshaking() {
            let tx = std::mem::take(&mut self.tx);
            let mut off = 0;
            while off < tx.len() {
                // one record or several
                let n = r.range(1, 60_000).min(tx.len() - off);
                self.srv.writer().write_all(&tx[off..off + n]).unwrap();
                off += n;
                self.records += 1;
                if r.chance(1, 20) && self.srv.protocol_version() == Some(rustls::ProtocolVersion::TLSv1_3) {
                    let _ = self.srv.refresh_traffic_keys();
                }
            }
            let rt = std::mem::take(&mut self.ref_tx);
            let e = self.plain.handle_incoming(&rt);
            self.ref_evs.extend(evs(e));
        }
        self.server();
        // the socket hands over pieces; small ones one by one
        let parts = if self.whole {
            usize::MAX
        } else if self.seg < 200 {
            400
        } else {
            r.range(1, 4)
        };
        for _ in 0..parts {
            if self.down.is_empty() {
                break;
            }
            // (what takes long would let the timers of the two drift apart)
            let most = self.seg.saturating_mul(2).max(if self.whole { self.down.len() / 300 } else { 2 });
            let n = r.range(1, most).min(self.down.len());
            let b: Vec<u8> = self.down.drain(..n).collect();
            let res = self.tls.handle_socket_data(&b);
            ensure!(res.is_ok(), "feed", "handle_socket_data of {n} bytes: {res:?}");
            if r.chance(1, 50) {
                let b = self.tls.take_socket_data();
                self.up.extend(b);
            }
        }
        let e = self.plain.handle_tick(self.now);
        self.ref_evs.extend(evs(e));
        let e = self.tls.handle_tick(self.now);
        self.evs.extend(evs(e));
        self.ticks += 1;
        if r.bool() {
            let e = self.plain.take_events();
            self.ref_evs.extend(evs(e));
            let e = self.tls.take_events();
            self.evs.extend(evs(e));
        }
        if self.whole || r.chance(3, 4) {
            let b = self.tls.take_socket_data();
            self.up.extend(b);
            let b = self.tls.take_socket_data();
            ensure!(b.is_empty(), "left", "take_socket_data left {} bytes behind", b.len());
        }
        let o = self.plain.take_outgoing();
        self.ref_rx.extend(o);
        Ok(())
    }

    /// Rounds until both engines have nothing more; then both sides are compared.
    fn settle(&mut self, r: &mut Rng) -> Verdict {
        let mut quiet = 0;
        let mut n = 0u32;
        let mut last = (0, 0, 0, 0);
        while quiet < 12 {
            self.round(r)?;
            n += 1;
            let s = (self.rx.len(), self.ref_rx.len(), self.evs.len(), self.ref_evs.len());
            if s != last || !self.down.is_empty() || !self.up.is_empty() || !self.tx.is_empty() && n < 300 {
                quiet = 0;
            } else {
                quiet += 1;
            }
            last = s;
            ensure!(n < 200_000, "settle", "no end of it after {n} rounds: {s:?}");
        }
        let k = self.rx.iter().zip(&self.ref_rx).take_while(|(a, b)| a == b).count();
        ensure!(
            k == self.ref_rx.len() && k == self.rx.len(),
            "wire",
            "{} seg {}: the broker received {} bytes, the plain engine sent {}; the first difference is at {k}: {} / {}",
            self.cfg,
            self.seg,
            self.rx.len(),
            self.ref_rx.len(),
            hex(&self.rx[k..self.rx.len().min(k + 40)]),
            hex(&self.ref_rx[k..self.ref_rx.len().min(k + 40)])
        );
        let e = self.tls.take_events();
        self.evs.extend(evs(e));
        let e = self.plain.take_events();
        self.ref_evs.extend(evs(e));
        for i in self.cmp_evs..self.evs.len().max(self.ref_evs.len()) {
            let (a, b) = (self.evs.get(i), self.ref_evs.get(i));
            ensure!(a == b, "events", "event {i}: {} instead of {}", short(&format!("{a:?}"), 300), short(&format!("{b:?}"), 300));
        }
        self.compared = k;
        self.cmp_evs = self.evs.len();
        ensure!(self.tls.is_connected() == self.plain.is_connected(), "connected", "is_connected {} / {}", self.tls.is_connected(), self.plain.is_connected());
        Ok(())
    }

    fn broker_send(&mut self, p: &Pkt) {
        let b = encode(p);
        self.tx.extend_from_slice(&b);
        self.ref_tx.extend_from_slice(&b);
    }

    /// Answers to what arrived, some held back.
    fn broker(&mut self, r: &mut Rng, obs: &mut Obs) -> Verdict {
        let (v, used) = match decode_all(&self.rx[self.parsed..], self.v5) {
            Ok(x) => x,
            Err(e) => return fail("wire", format!("no MQTT: {e:?}")),
        };
        self.parsed += used;
        obs.add("packets seen by the broker", v.len() as u64);
        for p in v {
            let pid = p.pid.unwrap_or(0);
            match p.ty {
                CONNECT => {
                    let mut a = Pkt::new(self.v5, CONNACK);
                    a.session_present = false;
                    self.broker_send(&a);
                }
                PUBLISH if p.qos > 0 => {
                    self.open.insert(pid, if p.qos == 1 { PUBACK } else { PUBREC });
                }
                PUBREC => self.broker_send(&Pkt::ack(self.v5, PUBREL, pid, 0)),
                PUBREL => {
                    self.open.insert(pid, PUBCOMP);
                }
                SUBSCRIBE | UNSUBSCRIBE => {
                    let mut a = Pkt::ack(self.v5, p.ty + 1, pid, 0);
                    if self.v5 || p.ty == SUBSCRIBE {
                        a.codes = p.filters.iter().map(|_| 0).collect();
                    }
                    self.broker_send(&a);
                }
                PINGREQ => self.broker_send(&Pkt::new(self.v5, PINGRESP)),
                _ => {}
            }
        }
        let mut ids: Vec<u16> = self.open.keys().copied().collect();
        r.shuffle(&mut ids);
        for id in ids {
            if r.chance(2, 3) {
                let ty = self.open.remove(&id).unwrap();
                self.broker_send(&Pkt::ack(self.v5, ty, id, 0));
            }
        }
        Ok(())
    }

    fn command(&mut self, r: &mut Rng, obs: &mut Obs) -> Verdict {
        let (a, b) = match r.below(8) {
            0..=4 => {
                let c = PublishCommand::new(format!("t/{}", r.below(9)), if r.chance(1, 300) { let n = r.range(1_050_000, 1_300_000); r.bytes(n) } else { payload(r) }, r.below(3) as u8, r.chance(1, 5), false, None, vec![], *r.pick(&[0, 0, 9, 200]));
                (format!("{:?}", self.plain.publish(c.clone())), format!("{:?}", self.tls.publish(c)))
            }
            5 => {
                let c = SubscribeCommand::new(None, (0..r.range(1, 4)).map(|k| TopicSubscription::new(format!("f/{k}"), r.below(3) as u8, false, false, 0)).collect(), vec![]);
                (format!("{:?}", self.plain.subscribe(c.clone())), format!("{:?}", self.tls.subscribe(c)))
            }
            6 => {
                let c = UnsubscribeCommand::new(None, (0..r.range(1, 3)).map(|k| format!("f/{k}")).collect(), vec![]);
                (format!("{:?}", self.plain.unsubscribe(c.clone())), format!("{:?}", self.tls.unsubscribe(c)))
            }
            _ => return Ok(()),
        };
        ensure!(a == b, "returned", "the TLS engine returned {b}, the plain one {a}");
        obs.count(if a.starts_with("Ok") { "commands taken by both" } else { "commands refused by both" });
        Ok(())
    }
}

fn case(r: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut g = Pair::new(r, false);
    let early = r.below(3);
    // connect at once, in the middle of the handshake, or after it
    for _ in 0..early {
        g.round(r)?;
    }
    if early == 2 {
        g.settle(r)?;
    }
    let go = |g: &mut Pair| {
        g.plain.connect();
        g.tls.connect();
    };
    go(&mut g);
    // (waiting commands are let go when the CONNACK arrives: with pieces of what follows it still
    // under way, in another order beside the acknowledgements)
    if g.whole && r.bool() {
        for _ in 0..r.below(4) {
            g.command(r, obs)?;
        }
    }
    let steps = r.range(5, 40);
    let mut left = false;
    for _ in 0..steps {
        g.settle(r)?;
        g.broker(r, obs)?;
        if r.chance(1, 3) && (g.whole || g.plain.is_connected()) {
            for _ in 0..r.range(1, 8) {
                let qos = r.below(3) as u8;
                let pid = (qos > 0).then(|| {
                    g.next += 1;
                    g.next
                });
                let p = pub_pkt(g.v5, &format!("d/{}", r.below(9)), &payload(r), qos, false, pid);
                g.broker_send(&p);
                obs.count("messages from the broker");
            }
        }
        g.settle(r)?;
        match r.below(10) {
            0..=6 => {
                for _ in 0..r.range(1, 6) {
                    g.command(r, obs)?;
                }
            }
            7 if g.whole => {
                g.now += Duration::from_millis(*r.pick(&[2000, 4000, 6000, 62_000]));
                obs.count("jumps of the clock");
            }
            8 if !left && r.chance(1, 4) => {
                g.plain.disconnect();
                g.tls.disconnect();
                left = true;
            }
            _ => {}
        }
    }
    g.settle(r)?;
    ensure!(!g.srv.is_handshaking(), "handshake", "not finished");
    obs.add("bytes compared on the wire", g.compared as u64);
    obs.add("events compared", g.cmp_evs as u64);
    obs.add("ticks", g.ticks);
    obs.case(hash64(&g.rx));
    Ok(())
}

/// Some byte of the ciphertext is changed or lost: an error, and no MQTT data beyond what came before.
fn tampered(r: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut g = Pair::new(r, true);
    g.plain.connect();
    g.tls.connect();
    for _ in 0..3 {
        g.settle(r)?;
        g.broker(r, obs)?;
    }
    for _ in 0..r.range(1, 10) {
        let p = pub_pkt(g.v5, "t", &payload(r), 0, false, None);
        g.broker_send(&p);
    }
    let tx = std::mem::take(&mut g.tx);
    g.srv.writer().write_all(&tx).unwrap();
    g.server();
    let rt = std::mem::take(&mut g.ref_tx);
    let mut n = 0;
    let mut want = evs(g.plain.handle_incoming(&rt));
    while n < 3000 {
        let e = evs(g.plain.handle_tick(g.now));
        n += 1;
        if e.is_empty() && n > want.len() + 20 {
            break;
        }
        want.extend(e);
    }
    // not the type and version in a record's header, which nothing protects in TLS 1.3
    let mut version = vec![];
    let mut off = 0;
    while off + 5 <= g.down.len() {
        version.extend([off, off + 1, off + 2]);
        off += 5 + u16::from_be_bytes([g.down[off + 3], g.down[off + 4]]) as usize;
    }
    let at = loop {
        let at = r.below(g.down.len());
        if !version.contains(&at) {
            break at;
        }
    };
    let kind = r.below(2);
    if kind == 0 {
        g.down[at] ^= 1 << r.below(8);
    } else {
        g.down.remove(at);
        // so that the mutilated record is complete
        g.down.extend(r.bytes(40_000));
    }
    let mut failed = 0;
    let mut got = vec![];
    while !g.down.is_empty() {
        let n = r.range(1, g.seg.saturating_mul(2)).min(g.down.len());
        let b: Vec<u8> = g.down.drain(..n).collect();
        let res = catch(|| g.tls.handle_socket_data(&b));
        let res = match res {
            Ok(x) => x,
            Err(v) => return fail("panic", format!("{v:?}")),
        };
        failed += res.is_err() as usize;
        got.extend(evs(g.tls.handle_tick(g.now)));
        let _ = g.tls.take_socket_data();
        if failed > 3 {
            break;
        }
    }
    for _ in 0..want.len() + 20 {
        got.extend(evs(g.tls.handle_tick(g.now)));
    }
    // a length field enlarged leaves the record incomplete
    if failed == 0 {
        obs.count("tampered: record left incomplete");
    } else {
        obs.count("tampered: reported");
    }
    ensure!(got.len() <= want.len() && got[..] == want[..got.len()], "tampered", "after a changed byte at {at} of the ciphertext, {} events instead of a prefix of {}", got.len(), want.len());
    ensure!(got.len() < want.len(), "tampered", "all {} events arrived though byte {at} was changed or lost", want.len());
    obs.case(r.u64());
    Ok(())
}

/// Two engines read the clock one after the other: what differs once, at the edge of some timer,
/// does not differ again.
fn again(r: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut v = Ok(());
    for _ in 0..3 {
        v = case(&mut r.clone(), obs);
        if v.is_ok() {
            return v;
        }
        obs.count("run again after a difference");
    }
    v
}

pub fn c27() {
    let mut run = Run::new("C27", "something was compared on the wire and among the events");
    for (k, n) in [
        ("bytes compared on the wire", 100_000),
        ("events compared", 3000),
        ("packets seen by the broker", 3000),
        ("messages from the broker", 1000),
        ("commands taken by both", 3000),
        ("jumps of the clock", 300),
        ("tampered: reported", 50),
    ] {
        run.need(k, n);
    }
    run.assume("the peer is rustls with the ring provider, TLS 1.2 and 1.3; broker bytes are consumed by both engines at the same tick");
    run.cases("beside", run.scale(1_500, 60_000), run.scale(60, 600) as f64, |_, r, o| again(r, o));
    run.cases("tampered", run.scale(400, 10_000), run.scale(30, 200) as f64, |_, r, o| tampered(r, o));
    run.finish()
}
