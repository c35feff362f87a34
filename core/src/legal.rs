//! C38: whatever the application calls, and whenever, each connection's outgoing packets form a
//! conversation that the standard allows.
use crate::sim::{subs_from, Cfg, Front, PubSpec};
use flowsdk::mqtt_client::commands::{SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::MqttEvent;
use flowsdk::mqtt_serde::control_packet::MqttPacket;
use kit::*;
use refmqtt::*;
use std::collections::HashMap;
use std::time::{Duration, Instant};

/// What one connection has seen so far, and what carries over between them.
#[derive(Default)]
struct Talk {
    open: bool,
    packets: usize,
    accepted: bool,
    disconnected: bool,
    /// on this connection: received and not yet answered, by identifier
    q1: HashMap<u16, usize>,
    q2: HashMap<u16, usize>,
    rel: HashMap<u16, usize>,
    /// on this session: our QoS 2 publishes and the PUBRECs for them
    sent2: HashMap<u16, bool>,
    sent1: HashMap<u16, ()>,
    tail: Vec<u8>,
    log: Vec<String>,
}

fn take(m: &mut HashMap<u16, usize>, k: u16) -> bool {
    match m.get_mut(&k) {
        Some(n) if *n > 0 => {
            *n -= 1;
            true
        }
        _ => false,
    }
}

impl Talk {
    fn connection(&mut self) {
        self.open = true;
        self.packets = 0;
        self.accepted = false;
        self.disconnected = false;
        self.q1.clear();
        self.q2.clear();
        self.rel.clear();
        self.tail.clear();
        self.log.push("connect()".into());
    }

    fn wrote(&mut self, b: &[u8], v5: bool, o: &mut Obs) -> Result<Vec<Pkt>, Violation> {
        if !self.open {
            return Ok(vec![]);
        }
        self.tail.extend(b);
        let (ps, used) = match decode_all(&self.tail, v5) {
            Ok(x) => x,
            Err(e) => return Err(Violation { sig: "bytes".into(), detail: format!("{e:?} in {}; {}", short(&hex(&self.tail), 400), self.end()) }),
        };
        ensure!(used == self.tail.len(), "bytes", "half a packet: {}; {}", short(&hex(&self.tail), 400), self.end());
        self.tail.clear();
        for p in &ps {
            self.log.push(format!("sent {} {:?}{}", p.name(), p.pid, if p.dup { " DUP" } else { "" }));
            let id = p.pid.unwrap_or(0);
            ensure!(!self.disconnected, "after-disconnect", "{} {id} after DISCONNECT; {}", p.name(), self.end());
            ensure!((p.ty == CONNECT) == (self.packets == 0), "connect-first", "packet {} of the connection is {}; {}", self.packets, p.name(), self.end());
            self.packets += 1;
            match p.ty {
                CONNECT => {}
                PUBLISH => {
                    ensure!(self.accepted, "publish-early", "PUBLISH before the server accepted the connection; {}", self.end());
                    o.count("publishes");
                    match p.qos {
                        0 => ensure!(!p.dup, "dup", "DUP at QoS 0; {}", self.end()),
                        q => {
                            ensure!(id != 0, "identifier", "PUBLISH QoS {q} without identifier; {}", self.end());
                            let again = self.sent1.contains_key(&id) || self.sent2.contains_key(&id);
                            ensure!(p.dup == again, "dup", "PUBLISH {id} DUP={} while {}; {}", p.dup, if again { "it was sent before" } else { "it is the first" }, self.end());
                            if q == 1 {
                                self.sent1.insert(id, ());
                            } else {
                                ensure!(self.sent2.get(&id) != Some(&true), "publish-after-rec", "PUBLISH {id} again after its PUBREC; {}", self.end());
                                self.sent2.insert(id, false);
                            }
                        }
                    }
                }
                PUBACK => ensure!(take(&mut self.q1, id), "ack-unasked", "PUBACK {id}, nothing to acknowledge; {}", self.end()),
                PUBREC => ensure!(take(&mut self.q2, id), "ack-unasked", "PUBREC {id}, nothing to acknowledge; {}", self.end()),
                PUBCOMP => ensure!(take(&mut self.rel, id), "ack-unasked", "PUBCOMP {id}, no PUBREL came; {}", self.end()),
                PUBREL => ensure!(self.sent2.get(&id) == Some(&true), "release-unasked", "PUBREL {id}, no PUBREC came; {}", self.end()),
                SUBSCRIBE | UNSUBSCRIBE => ensure!(id != 0 && !p.filters.is_empty(), "identifier", "{} {id} with {} filters; {}", p.name(), p.filters.len(), self.end()),
                PINGREQ => {}
                DISCONNECT => {
                    self.disconnected = true;
                    o.count("disconnects");
                }
                AUTH => ensure!(v5, "not-a-clients", "AUTH in MQTT 3; {}", self.end()),
                _ => return fail("not-a-clients", format!("the client sent {}; {}", p.name(), self.end())),
            }
            o.count("packets");
        }
        Ok(ps)
    }

    fn end(&self) -> String {
        self.log[self.log.len().saturating_sub(40)..].join(", ")
    }
}

pub fn c38() {
    let mut run = Run::new("C38", "non-trivial: a distinct sequence of calls, packets and packet outcomes");
    run.assume("the broker is honest but for lost, repeated and late acknowledgements; one CONNACK per connection");
    run.assume("output taken before the first connect() belongs to no connection; connect() starts a new one");
    run.cases("calls", run.scale(250_000, 10_000_000), run.scale(25, 400) as f64, |_, r, o| case(r, o));
    run.need("packets", 1_000_000);
    run.need("disconnects", 2000);
    run.need("disconnects_watched", 2000);
    run.need("calls_after_disconnect", 5000);
    run.need("broker_packets_after_disconnect", 500);
    run.need("refused_calls", 1000);
    run.need("connections", 10_000);
    run.finish()
}

fn case(r: &mut Rng, o: &mut Obs) -> Verdict {
    let cfg = Cfg {
        v5: r.bool(),
        noio: r.chance(1, 3),
        auto_ack: r.chance(2, 3),
        keep_alive: *r.pick(&[0u16, 1, 30]),
        rm: *r.pick(&[0u16, 1, 2, 10]),
        base_ms: 50,
        retrans_ms: *r.pick(&[100u64, 5_000, 1_000_000_000]),
        max_out: *r.pick(&[1usize, 2, 5, 1000, 1000]),
        max_ev: *r.pick(&[2usize, 10, 1000, 1000]),
        clean: r.bool(),
        ..Default::default()
    };
    let v5 = cfg.v5;
    let mut f = cfg.front();
    let mut t = Talk::default();
    let mut clock = Instant::now();
    let mut owed: Vec<Pkt> = vec![]; // broker's replies still to go out
    let mut inbound: HashMap<u16, u8> = HashMap::new(); // broker's own QoS 2 exchanges
    let mut waiting_connack = false;
    let mut manual: Vec<(u8, u16)> = vec![];
    let mut shape: Vec<u8> = vec![];
    let (n, mut serial) = (r.range(15, 150), 0u32);
    let bias = r.below(4); // some histories hover around the end of a connection
    for _ in 0..n {
        let mut evs = vec![];
        let what = match r.below(if bias == 0 { 22 } else { 26 }) {
            _ if !t.open => 0,
            0 => r.below(2),
            1 if bias != 0 => 9,
            k => k,
        };
        shape.push(what as u8);
        if t.disconnected && (2..=6).contains(&what) {
            o.count("calls_after_disconnect");
        }
        if cfg.max_out < 10 || r.chance(1, 2) || what == 0 {
            let b = f.out();
            observe(&t.wrote(&b, v5, o)?, v5, &mut owed, &mut waiting_connack, &mut inbound);
        }
        match what {
            0 => {
                if t.open && (f.connected() || r.chance(1, 2)) {
                    if f.connected() && r.bool() {
                        // already connected: nothing to do
                        t.log.push("connect() again".into());
                        f.connect();
                        continue;
                    }
                    f.lost();
                }
                f.connect();
                t.connection();
                owed.clear();
                waiting_connack = false;
                inbound.retain(|_, s| *s == 2);
                manual.clear();
                o.count("connections");
            }
            1 => {
                f.lost();
                t.log.push("connection lost".into());
                let b = f.out();
                t.wrote(&b, v5, o)?;
                t.open = false;
            }
            2..=4 => {
                serial += 1;
                let s = PubSpec { topic: "t/1".into(), payload: serial.to_be_bytes().to_vec(), qos: r.below(3) as u8, retain: r.bool(), props: vec![], prio: *r.pick(&[128u8, 0, 255]), pid: None };
                refused(&mut f, &mut t, o, v5, r, &mut owed, &mut waiting_connack, &mut inbound, "publish", |f| f.publish(s.cmd()).map(|_| ()).map_err(|e| format!("{e:?}")))?
            }
            5 => {
                let sub = r.bool();
                refused(&mut f, &mut t, o, v5, r, &mut owed, &mut waiting_connack, &mut inbound, if sub { "subscribe" } else { "unsubscribe" }, |f| {
                    if sub {
                        f.subscribe(SubscribeCommand::new(None, subs_from(&[("a/#".into(), 1)]), vec![])).map(|_| ()).map_err(|e| format!("{e:?}"))
                    } else {
                        f.unsubscribe(UnsubscribeCommand::new(None, vec!["a/#".into()], vec![])).map(|_| ()).map_err(|e| format!("{e:?}"))
                    }
                })?
            }
            6 => {
                t.log.push("ping".into());
                f.ping()
            }
            7 => {
                t.log.push("auth".into());
                let c = *r.pick(&[0x18u8, 0x19]);
                match &mut f {
                    Front::Engine(e) => e.auth(c, vec![]),
                    Front::NoIo(e) => e.auth(c, vec![]),
                }
            }
            8 => {
                // acknowledging by hand
                if let (Front::Engine(e), false) = (&mut f, manual.is_empty()) {
                    let (ty, pid) = manual.remove(0);
                    let p: MqttPacket = conv::from_model(&Pkt::ack(v5, ty, pid, 0));
                    t.log.push(format!("acknowledge {ty} {pid}"));
                    let _ = e.enqueue_packet(p);
                }
            }
            9 => {
                // with an established connection and room in the buffer, DISCONNECT goes out
                let watch = f.connected() && !t.disconnected && r.bool();
                if watch {
                    let b = f.out();
                    observe(&t.wrote(&b, v5, o)?, v5, &mut owed, &mut waiting_connack, &mut inbound);
                }
                t.log.push("disconnect".into());
                match &mut f {
                    Front::Engine(e) if r.bool() => {
                        let _ = e.try_disconnect();
                    }
                    _ => f.disconnect(),
                }
                if watch {
                    let b = f.out();
                    observe(&t.wrote(&b, v5, o)?, v5, &mut owed, &mut waiting_connack, &mut inbound);
                    ensure!(t.disconnected, "no-disconnect", "disconnect() on an established connection put out no DISCONNECT; {}", t.end());
                    o.count("disconnects_watched");
                }
            }
            10 | 11 => {
                clock += Duration::from_millis(*r.pick(&[1u64, 60, 200, 1100, 31_000]));
                t.log.push("tick".into());
                evs = f.tick(clock);
            }
            12 | 13 => {
                // the broker's own messages
                if t.accepted {
                    let qos = r.below(3) as u8;
                    let mut p = Pkt::new(v5, PUBLISH);
                    p.qos = qos;
                    p.topic = "x".into();
                    p.payload = r.bytes(3);
                    if qos > 0 {
                        let id = r.range(1, 6) as u16;
                        if inbound.contains_key(&id) {
                            continue;
                        }
                        p.pid = Some(id);
                        if qos == 2 {
                            inbound.insert(id, 1);
                            *t.q2.entry(id).or_default() += 1;
                        } else {
                            *t.q1.entry(id).or_default() += 1;
                        }
                        if !cfg.auto_ack {
                            manual.push((if qos == 1 { PUBACK } else { PUBREC }, id));
                        }
                    }
                    if t.disconnected {
                        o.count("broker_packets_after_disconnect");
                    }
                    t.log.push(format!("got PUBLISH q{qos} {:?}", p.pid));
                    evs = f.feed(&encode(&p));
                }
            }
            14 => {
                if !inbound.is_empty() && t.accepted {
                    let mut ids: Vec<u16> = inbound.keys().copied().collect();
                    ids.sort();
                    let id = *r.pick(&ids);
                    // the server's PUBREL follows the PUBREC, or is repeated
                    if inbound[&id] == 2 {
                        *t.rel.entry(id).or_default() += 1;
                        if !cfg.auto_ack {
                            manual.push((PUBCOMP, id));
                        }
                        t.log.push(format!("got PUBREL {id}"));
                        if t.disconnected {
                            o.count("broker_packets_after_disconnect");
                        }
                        evs = f.feed(&encode(&Pkt::ack(v5, PUBREL, id, 0)));
                    }
                }
            }
            15 => {
                evs = f.feed(&[]);
            }
            _ => {
                let b = f.out();
                observe(&t.wrote(&b, v5, o)?, v5, &mut owed, &mut waiting_connack, &mut inbound);
                if waiting_connack {
                    waiting_connack = false;
                    let mut c = Pkt::new(v5, CONNACK);
                    let ok = r.chance(9, 10);
                    c.reason = if ok { 0 } else if v5 { 0x87 } else { 5 };
                    c.session_present = ok && r.chance(2, 3);
                    if ok {
                        t.accepted = true;
                        if !c.session_present {
                            inbound.clear();
                        }
                    }
                    t.log.push(format!("got CONNACK {} session {}", c.reason, c.session_present));
                    evs = f.feed(&encode(&c));
                } else if !owed.is_empty() {
                    let k = if r.chance(3, 4) { 0 } else { r.below(owed.len()) };
                    let p = if r.chance(1, 12) { owed[k].clone() } else { owed.remove(k) };
                    if r.chance(1, 15) {
                        continue; // lost on the way
                    }
                    let id = p.pid.unwrap_or(0);
                    match p.ty {
                        PUBACK => {
                            t.sent1.remove(&id);
                        }
                        PUBREC => {
                            if p.reason >= 0x80 {
                                t.sent2.remove(&id);
                            } else if let Some(s) = t.sent2.get_mut(&id) {
                                *s = true;
                            }
                        }
                        PUBCOMP => {
                            t.sent2.remove(&id);
                        }
                        _ => {}
                    }
                    if t.disconnected {
                        o.count("broker_packets_after_disconnect");
                    }
                    t.log.push(format!("got {} {id}", p.name()));
                    evs = f.feed(&encode(&p));
                }
            }
        }
        evs.extend(f.events());
        for e in &evs {
            shape.push(match e {
                MqttEvent::Connected(_) => 100,
                MqttEvent::Published(_) => 101,
                MqttEvent::ReconnectNeeded => 102,
                MqttEvent::Error(_) => 103,
                MqttEvent::Disconnected(_) => 104,
                _ => 105,
            });
            if matches!(e, MqttEvent::ReconnectNeeded) {
                t.log.push("reconnect needed".into());
            }
        }
    }
    let b = f.out();
    t.wrote(&b, v5, o)?;
    o.case(hash64(&shape));
    Ok(())
}

/// A call that is refused leaves nothing in the output.
#[allow(clippy::too_many_arguments)]
fn refused(
    f: &mut Front,
    t: &mut Talk,
    o: &mut Obs,
    v5: bool,
    r: &mut Rng,
    owed: &mut Vec<Pkt>,
    wc: &mut bool,
    inbound: &mut HashMap<u16, u8>,
    name: &str,
    call: impl FnOnce(&mut Front) -> Result<(), String>,
) -> Verdict {
    let watch = r.chance(1, 2);
    if watch {
        let b = f.out();
        observe(&t.wrote(&b, v5, o)?, v5, owed, wc, inbound);
    }
    let res = call(f);
    t.log.push(format!("{name} -> {}", if res.is_ok() { "ok" } else { "refused" }));
    if let Err(e) = &res {
        o.count("refused_calls");
        if watch {
            let b = f.out();
            ensure!(b.is_empty(), "refused-but-sent", "{name} was refused ({e}) and put {} out; {}", short(&hex(&b), 200), t.end());
        }
    }
    Ok(())
}

/// The broker's replies to what it got.
fn observe(ps: &[Pkt], v5: bool, owed: &mut Vec<Pkt>, waiting_connack: &mut bool, inbound: &mut HashMap<u16, u8>) {
    for p in ps {
        let id = p.pid.unwrap_or(0);
        match p.ty {
            CONNECT => *waiting_connack = true,
            PUBLISH if p.qos == 1 => owed.push(Pkt::ack(v5, PUBACK, id, 0)),
            PUBLISH if p.qos == 2 => owed.push(Pkt::ack(v5, PUBREC, id, 0)),
            PUBREL => owed.push(Pkt::ack(v5, PUBCOMP, id, 0)),
            PUBREC => {
                if let Some(s) = inbound.get_mut(&id) {
                    *s = 2;
                }
            }
            PUBCOMP => {
                inbound.remove(&id);
            }
            SUBSCRIBE | UNSUBSCRIBE => {
                let mut a = Pkt::ack(v5, if p.ty == SUBSCRIBE { SUBACK } else { UNSUBACK }, id, 0);
                if p.ty == SUBSCRIBE || v5 {
                    a.codes = vec![0; p.filters.len()];
                }
                owed.push(a);
            }
            PINGREQ => owed.push(Pkt::new(v5, PINGRESP)),
            _ => {}
        }
    }
}
