//! One connection of the load generator between a simulated socket and a scripted broker: any split of
//! what is sent and received, output arising while a send is under way.
use crate::config::BenchConfig;
use crate::connection::{ConnState, Connection, EventOutcome};
use flowsdk::mqtt_client::MqttEvent;
use kit::*;
use refmqtt::*;
use std::collections::{HashMap, VecDeque};
use std::time::{Duration, Instant};

struct Sim {
    c: Connection,
    cfg: BenchConfig,
    v5: bool,
    /// everything the socket took
    wire: Vec<u8>,
    parsed: usize,
    /// address and copy of what the send under way points at
    flying: Option<(usize, Vec<u8>)>,
    /// what the broker sends, not yet received
    down: VecDeque<u8>,
    pubs: u64,
    /// per publish: begin and end of the call
    called: Vec<(Instant, Instant)>,
    by_pid: HashMap<u16, usize>,
    acked: u64,
    failed: u64,
    nomatch: u64,
    /// per successful ack: what the sample may be
    bounds: Vec<(Instant, usize)>,
    total: EventOutcome,
    pings: u64,
    puback_out: u64,
    connects: u64,
    disconnects: u64,
    unacked: VecDeque<(u16, u8)>,
    inbound: u16,
    recv_max: usize,
    open: usize,
}

impl Sim {
    fn submit(&mut self) {
        if self.c.send_pending || !self.c.has_pending_send() {
            return;
        }
        let s = self.c.pending_send_slice();
        self.flying = Some((s.as_ptr() as usize, s.to_vec()));
        self.c.send_pending = true;
    }

    fn stable(&self) -> Verdict {
        if let Some((p, b)) = &self.flying {
            let s = self.c.pending_send_slice();
            ensure!(
                s.as_ptr() as usize == *p && s.len() >= b.len() && s[..b.len()] == b[..],
                "send-buffer-moved",
                "the bytes of a send under way changed or moved"
            );
        }
        Ok(())
    }

    fn complete(&mut self, r: &mut Rng, obs: &mut Obs, whole: bool) -> Verdict {
        self.stable()?;
        let Some((_, b)) = self.flying.take() else { return Ok(()) };
        let n = match r.below(4) {
            _ if whole => b.len(),
            0 => b.len(),
            1 => 1,
            _ => r.range(1, b.len()),
        };
        if n < b.len() {
            obs.count("partial_sends");
        }
        self.wire.extend_from_slice(&b[..n]);
        self.c.send_pending = false;
        self.c.advance_send(n);
        // as the worker does, or later (its ring may be full)
        if r.chance(3, 4) {
            self.submit();
        } else if self.c.has_pending_send() {
            obs.count("send_put_off");
        }
        Ok(())
    }

    fn events(&mut self, ev: Vec<MqttEvent>, t0: Instant) -> Verdict {
        let t1 = Instant::now();
        let before = self.c.latency_samples.len();
        let ok: Vec<u16> = ev
            .iter()
            .filter_map(|e| match e {
                MqttEvent::Published(p) if p.is_success() => p.packet_id,
                _ => None,
            })
            .collect();
        let o = self.c.process_events(ev);
        let t2 = Instant::now();
        self.total.connected |= o.connected;
        self.total.acked += o.acked;
        self.total.puback_no_match += o.puback_no_match;
        self.total.mqtt_connect_errors += o.mqtt_connect_errors;
        self.total.mqtt_publish_errors += o.mqtt_publish_errors;
        self.total.mqtt_client_errors += o.mqtt_client_errors;
        self.total.mqtt_disconnect_errors += o.mqtt_disconnect_errors;
        self.total.failed |= o.failed;
        let _ = t1;
        let new = self.c.latency_samples[before..].to_vec();
        ensure!(new.len() == ok.len(), "samples", "{} acknowledgements gave {} latency samples", ok.len(), new.len());
        for (s, pid) in new.iter().zip(&ok) {
            let Some(&i) = self.by_pid.get(pid) else { continue };
            let (b, e) = self.called[i];
            let (lo, hi) = (t0.saturating_duration_since(e), t2.saturating_duration_since(b));
            ensure!(
                *s >= lo && *s <= hi,
                "latency",
                "publish {i} took between {lo:?} and {hi:?}, recorded as {s:?} ({} failed so far; {} of {} published, Receive Maximum {})",
                self.failed,
                self.c.messages_sent,
                self.cfg.messages,
                self.recv_max
            );
        }
        Ok(())
    }

    /// What the broker makes of the bytes that arrived.
    fn broker(&mut self, r: &mut Rng, obs: &mut Obs, fail_acks: bool) -> Verdict {
        loop {
            let b = &self.wire[self.parsed..];
            match frame_len(b) {
                Err(m) => return fail("bytes", format!("the broker got {:?} at byte {}", m, self.parsed)),
                Ok(None) => return Ok(()),
                Ok(Some(n)) if n > b.len() => return Ok(()),
                Ok(Some(_)) => {}
            }
            let (p, n) = match decode(b, self.v5) {
                Ok(x) => x,
                Err(m) => return fail("bytes", format!("the broker got {:?} at byte {}: {}", m, self.parsed, short(&hex(b), 60))),
            };
            self.parsed += n;
            ensure!(self.disconnects == 0, "after-disconnect", "{} after DISCONNECT", p.name());
            ensure!((p.ty == 1) == (self.connects == 0), "order", "{} when {} CONNECTs had come", p.name(), self.connects);
            match p.ty {
                1 => {
                    self.connects += 1;
                    let want = format!("mqtt_ring_bench_{}", self.c.client_index);
                    let c = p.conn.as_ref().unwrap();
                    ensure!(c.client_id == want && c.keep_alive == self.cfg.keep_alive && c.clean, "connect", "{c:?}");
                    let mut a = Pkt::new(self.v5, 2);
                    if self.v5 && self.recv_max < 65_535 {
                        a.props.push(P::U16(0x21, self.recv_max as u16));
                    }
                    self.down.extend(encode(&a));
                }
                3 => {
                    ensure!(
                        p.topic == format!("{}/{}", self.cfg.topic, self.c.client_index)
                            && p.payload == vec![0x42u8; self.cfg.payload_size]
                            && p.qos == self.cfg.qos
                            && !p.dup
                            && !p.retain,
                        "publish",
                        "{}",
                        short(&format!("{p:?}"), 200)
                    );
                    if let Some(pid) = p.pid {
                        self.open += 1;
                        ensure!(self.open <= self.recv_max, "window", "{} open publishes, Receive Maximum {}", self.open, self.recv_max);
                        self.by_pid.insert(pid, self.pubs as usize);
                        self.unacked.push_back((pid, if p.qos == 1 { 4 } else { 5 }));
                    }
                    self.pubs += 1;
                }
                4 | 5 => self.puback_out += 1,
                6 => self.unacked.push_back((p.pid.unwrap(), 7)),
                12 => {
                    self.pings += 1;
                    self.down.extend(encode(&Pkt::new(self.v5, 13)));
                }
                14 => self.disconnects += 1,
                _ => return fail("publish", format!("the broker got {}", p.name())),
            }
            let _ = (r.bool(), fail_acks);
            obs.count("packets");
        }
    }

    fn ack(&mut self, r: &mut Rng, fail_acks: bool) {
        let Some((pid, ty)) = self.unacked.pop_front() else { return };
        let mut code = 0;
        if self.v5 && ty != 7 && fail_acks && r.chance(1, 4) {
            code = *r.pick(&[0x80u8, 0x87, 0x90, 0x97, 0x99]);
            self.failed += 1;
            self.open -= 1;
        } else if self.v5 && ty == 4 && r.chance(1, 5) {
            code = 0x10;
            self.nomatch += 1;
        }
        if code < 0x80 && ty != 5 {
            self.acked += 1;
            self.open -= 1;
        }
        self.down.extend(encode(&Pkt::ack(self.v5, ty, pid, code)));
    }
}

fn case(r: &mut Rng, obs: &mut Obs) -> Verdict {
    let ver = r.range(3, 5) as u8;
    let cfg = BenchConfig {
        messages: if r.chance(1, 40) { r.range(1000, 2500) as u64 } else { r.below(40) as u64 },
        qos: r.below(3) as u8,
        topic: (*r.pick(&["bench/test", "a", "x/y/z"])).to_string(),
        payload_size: *r.pick(&[0usize, 1, 10, 256, 3000]),
        interval_ms: 0,
        keep_alive: *r.pick(&[60u16, 0, 300]),
        mqtt_version: ver,
        parser_buf: *r.pick(&[1500usize, 1, 16, 4096]),
        ..BenchConfig::default()
    };
    let v5 = ver == 5;
    let cfg = if cfg.messages >= 1000 { BenchConfig { payload_size: cfg.payload_size.min(10), ..cfg } } else { cfg };
    let fail_acks = r.chance(1, 3);
    let recv_max = if v5 && r.chance(1, 2) { r.range(1, 8) } else { 65_535 };
    let c = Connection::new(-1, r.below(100), &cfg);
    let mut s = Sim {
        c,
        cfg,
        v5,
        wire: vec![],
        parsed: 0,
        flying: None,
        down: VecDeque::new(),
        pubs: 0,
        called: vec![],
        by_pid: HashMap::new(),
        acked: 0,
        failed: 0,
        nomatch: 0,
        bounds: vec![],
        total: EventOutcome::default(),
        pings: 0,
        puback_out: 0,
        connects: 0,
        disconnects: 0,
        unacked: VecDeque::new(),
        inbound: 0,
        recv_max,
        open: 0,
    };
    s.c.initiate_mqtt_connect();
    s.submit();
    let mut inbound_sent = 0u64;
    let steps = 60 + s.cfg.messages as usize * 12;
    let greedy = r.bool();
    for step in 0..steps * 3 {
        let last = step >= steps;
        match if last { step % 6 } else { r.below(9) } {
            0 => s.complete(r, obs, last)?,
            1 => s.broker(r, obs, fail_acks)?,
            2 => s.ack(r, fail_acks && !last),
            3 | 6 => {
                let n = s.down.len();
                if n > 0 {
                    let n = if last || r.bool() { n } else { r.range(1, n) };
                    let b: Vec<u8> = s.down.drain(..n).collect();
                    if s.c.send_pending {
                        obs.count("received_while_sending");
                    }
                    let t0 = Instant::now();
                    let ev = s.c.handle_incoming(&b);
                    s.stable()?;
                    s.events(ev, t0)?;
                    if r.bool() {
                        s.submit();
                    }
                }
            }
            4 | 7 => {
                for _ in 0..if greedy { 8 } else { 1 } {
                    let t0 = Instant::now();
                    let (n, st) = (s.c.messages_sent, s.c.state);
                    let did = s.c.try_publish(&s.cfg);
                    s.stable()?;
                    ensure!(did == (s.c.messages_sent == n + 1), "sent-count", "a publish and its count differ");
                    ensure!(!did || st == ConnState::Publishing, "published-while", "published in state {st:?}");
                    if did {
                        s.called.push((t0, Instant::now()));
                        if !greedy || s.cfg.qos == 0 {
                            s.submit();
                        }
                    }
                }
                s.submit();
                s.c.check_publish_complete();
            }
            5 => {
                let t0 = Instant::now();
                let ev = s.c.handle_tick();
                s.stable()?;
                s.events(ev, t0)?;
                s.submit();
                if !s.c.send_pending {
                    s.c.check_drain_complete();
                    s.submit();
                }
            }
            _ => {
                // something from the broker that the connection answers on its own
                if s.connects > 0 && s.disconnects == 0 && s.c.state == ConnState::Publishing && r.chance(1, 3) {
                    s.inbound += 1;
                    let mut p = Pkt::new(v5, 3);
                    p.qos = r.below(2) as u8;
                    p.topic = "in".into();
                    p.payload = b"x".to_vec();
                    p.pid = (p.qos > 0).then_some(s.inbound);
                    if p.qos > 0 {
                        inbound_sent += 1;
                    }
                    s.down.extend(encode(&p));
                }
            }
        }
        if last && s.c.state == ConnState::Disconnecting && !s.c.has_pending_send() && s.disconnects > 0 {
            break;
        }
    }
    let m = s.cfg.messages;
    ensure!(
        s.c.state == ConnState::Disconnecting && s.disconnects == 1,
        "unfinished",
        "state {:?} after everything was delivered: {} of {m} publishes made, the broker got {}, acknowledged {} and refused {} (QoS {}, Receive Maximum {})",
        s.c.state,
        s.c.messages_sent,
        s.pubs,
        s.acked,
        s.failed,
        s.cfg.qos,
        s.recv_max
    );
    ensure!(s.c.messages_sent == m && s.pubs == m, "publishes", "asked for {m}, counted {}, the broker got {}", s.c.messages_sent, s.pubs);
    ensure!(s.parsed == s.wire.len(), "bytes", "{} bytes left over", s.wire.len() - s.parsed);
    let want = if s.cfg.qos == 0 { 0 } else { m - s.failed };
    ensure!(
        s.total.acked == want && s.c.messages_acked == want && s.c.latency_samples.len() as u64 == want,
        "acked",
        "{want} acknowledged, counted {} and {}, {} samples",
        s.total.acked,
        s.c.messages_acked,
        s.c.latency_samples.len()
    );
    ensure!(s.total.puback_no_match == s.nomatch, "no-match", "{} sent, {} counted", s.nomatch, s.total.puback_no_match);
    ensure!(s.total.mqtt_publish_errors == s.failed, "publish-errors", "{} sent, {} counted", s.failed, s.total.mqtt_publish_errors);
    ensure!(
        s.total.mqtt_connect_errors + s.total.mqtt_client_errors + s.total.mqtt_disconnect_errors == 0 && !s.total.failed && s.total.connected,
        "errors",
        "errors counted on a good connection: connect {} client {} disconnect {}",
        s.total.mqtt_connect_errors,
        s.total.mqtt_client_errors,
        s.total.mqtt_disconnect_errors
    );
    ensure!(s.puback_out <= inbound_sent, "replies", "{} replies to {inbound_sent}", s.puback_out);
    if s.failed > 0 {
        obs.add("refused", s.failed);
    }
    obs.add("published", m);
    obs.case(hash64(&s.wire) ^ s.acked << 32 ^ r.u64() % 7);
    let _ = Duration::ZERO;
    Ok(())
}

pub fn phase(run: &mut Run) {
    run.cases("connections", run.scale(6_000, 120_000), run.scale(10, 120) as f64, |_, r, obs| case(r, obs));
    run.need("partial_sends", 1000);
    run.need("received_while_sending", 1000);
    run.need("published", 10_000);
    run.need("send_put_off", 1000);
    run.need("refused", 100);
}
