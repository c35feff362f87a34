//! Drives the client engine with generated histories and records what it does.
use crate::codec::vnum;
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::{MqttClientError, MqttClientOptions, MqttEngine, MqttEvent, NoIoMqttClient};
use flowsdk::mqtt_serde::mqttv5::subscribe::TopicSubscription;
use kit::*;
use refmqtt::*;
use std::collections::{BTreeMap, VecDeque};
use std::time::{Duration, Instant};

/// The two front ends of the same protocol machine.
pub enum Front {
    Engine(Box<MqttEngine>),
    NoIo(Box<NoIoMqttClient>),
}

macro_rules! both {
    ($s:expr, $e:ident => $x:expr) => {
        match $s {
            Front::Engine($e) => $x,
            Front::NoIo($e) => $x,
        }
    };
}

impl Front {
    pub fn feed(&mut self, b: &[u8]) -> Vec<MqttEvent> {
        both!(self, e => e.handle_incoming(b))
    }
    pub fn out(&mut self) -> Vec<u8> {
        both!(self, e => e.take_outgoing())
    }
    pub fn events(&mut self) -> Vec<MqttEvent> {
        both!(self, e => e.take_events())
    }
    pub fn tick(&mut self, t: Instant) -> Vec<MqttEvent> {
        both!(self, e => e.handle_tick(t))
    }
    pub fn next(&self) -> Option<Instant> {
        both!(self, e => e.next_tick_at())
    }
    pub fn connected(&self) -> bool {
        both!(self, e => e.is_connected())
    }
    pub fn connect(&mut self) {
        both!(self, e => e.connect())
    }
    pub fn disconnect(&mut self) {
        both!(self, e => e.disconnect())
    }
    pub fn lost(&mut self) {
        both!(self, e => e.handle_connection_lost())
    }
    pub fn publish(&mut self, c: PublishCommand) -> Result<Option<u16>, MqttClientError> {
        both!(self, e => e.publish(c))
    }
    pub fn subscribe(&mut self, c: SubscribeCommand) -> Result<u16, MqttClientError> {
        both!(self, e => e.subscribe(c))
    }
    pub fn unsubscribe(&mut self, c: UnsubscribeCommand) -> Result<u16, MqttClientError> {
        both!(self, e => e.unsubscribe(c))
    }
    pub fn ping(&mut self) {
        match self {
            Front::Engine(e) => e.send_ping(),
            Front::NoIo(e) => e.ping(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub v5: bool,
    pub level3: bool, // mqtt_version 3 rather than 4
    pub noio: bool,
    pub auto_ack: bool,
    pub keep_alive: u16,
    pub auto_keepalive: bool,
    pub mult: u32,
    pub rm: u16,
    pub base_ms: u64,
    pub max_ms: u64,
    pub attempts: u32,
    pub retrans_ms: u64,
    pub max_out: usize,
    pub max_ev: usize,
    pub clean: bool,
    pub parser: usize,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            v5: true,
            level3: false,
            noio: false,
            auto_ack: true,
            keep_alive: 60,
            auto_keepalive: true,
            mult: 2,
            rm: 65535,
            base_ms: 1000,
            max_ms: 60000,
            attempts: 0,
            retrans_ms: 1_000_000_000,
            max_out: 100_000,
            max_ev: 100_000,
            clean: false,
            parser: 16384,
        }
    }
}

impl Cfg {
    pub fn opts(&self) -> MqttClientOptions {
        MqttClientOptions {
            client_id: "sim".into(),
            clean_start: self.clean,
            keep_alive: self.keep_alive,
            mqtt_version: if self.v5 {
                5
            } else if self.level3 {
                3
            } else {
                4
            },
            auto_ack: self.auto_ack,
            reconnect_base_delay_ms: self.base_ms,
            reconnect_max_delay_ms: self.max_ms,
            max_reconnect_attempts: self.attempts,
            retransmission_timeout_ms: self.retrans_ms,
            ping_timeout_multiplier: self.mult,
            max_outgoing_packet_count: self.max_out,
            max_event_count: self.max_ev,
            receive_maximum: self.rm,
            parser_buffer_size: self.parser,
            auto_keepalive: self.auto_keepalive,
            ..Default::default()
        }
    }
    pub fn front(&self) -> Front {
        if self.noio {
            Front::NoIo(Box::new(NoIoMqttClient::new(self.opts())))
        } else {
            Front::Engine(Box::new(MqttEngine::new(self.opts())))
        }
    }
    pub fn base_limit(&self) -> usize {
        if self.rm == 0 {
            65535
        } else {
            self.rm as usize
        }
    }
}

#[derive(Clone, Debug)]
pub struct PubSpec {
    pub topic: String,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
    pub props: Vec<P>,
    pub prio: u8,
    pub pid: Option<u16>,
}

impl PubSpec {
    pub fn cmd(&self) -> PublishCommand {
        PublishCommand::new(self.topic.clone(), self.payload.clone(), self.qos, self.retain, false, self.pid, conv::props_from_model(&self.props), self.prio)
    }
}

pub fn subs_from(filters: &[(String, u8)]) -> Vec<TopicSubscription> {
    filters.iter().map(|(f, o)| TopicSubscription::new(f.clone(), o & 3, o & 4 != 0, o & 8 != 0, o >> 4 & 3)).collect()
}

#[derive(Debug)]
pub enum Act {
    Connect,
    Publish(PubSpec, Result<Option<u16>, String>),
    Subscribe(Vec<(String, u8)>, Vec<P>, Result<u16, String>),
    Unsubscribe(Vec<String>, Vec<P>, Result<u16, String>),
    Ping,
    Disconnect,
    Lost,
    Schedule(Instant),
    /// bytes from the broker; the packets they complete are in `ins`
    Feed(usize),
    Tick(Instant),
    Sleep(u64),
}

pub struct Step {
    pub act: Act,
    pub t0: Instant,
    pub t1: Instant,
    pub evs: Vec<MqttEvent>,
    pub ins: Vec<Pkt>,
    pub outs: Vec<Pkt>,
    pub raw_out: usize,
    pub connected: bool,
    pub next: Option<Instant>,
}

fn brief(p: &Pkt) -> String {
    let mut s = format!("{}", p.name());
    if let Some(i) = p.pid {
        s += &format!(" id={i}");
    }
    if p.ty == PUBLISH {
        s += &format!(" q{}{}{} {:?} {}B #{:x}", p.qos, if p.dup { " DUP" } else { "" }, if p.retain { " R" } else { "" }, short(&p.topic, 20), p.payload.len(), hash64(&p.payload) & 0xffff);
    }
    if p.reason != 0 {
        s += &format!(" reason={:#x}", p.reason);
    }
    if p.ty == CONNACK {
        s += &format!(" session={} {:?}", p.session_present, p.props);
    }
    s
}

impl Step {
    pub fn show(&self, origin: Instant) -> String {
        let rel = |t: Instant| match t.checked_duration_since(origin) {
            Some(d) => format!("{:.6}", d.as_secs_f64()),
            None => format!("-{:.6}", origin.duration_since(t).as_secs_f64()),
        };
        let act = match &self.act {
            Act::Publish(p, r) => format!("publish q{} prio {} {:?} {}B #{:x} -> {r:?}", p.qos, p.prio, short(&p.topic, 20), p.payload.len(), hash64(&p.payload) & 0xffff),
            Act::Tick(t) => format!("tick {}", rel(*t)),
            Act::Schedule(t) => format!("schedule_reconnect {}", rel(*t)),
            a => short(&format!("{a:?}"), 120),
        };
        let list = |v: &[Pkt]| v.iter().map(brief).collect::<Vec<_>>().join(", ");
        format!(
            "[{}] {act} | in: {} | out: {} | events: {} | connected={} next={}",
            rel(self.t0),
            list(&self.ins),
            list(&self.outs),
            self.evs.iter().map(|e| short(&format!("{e:?}"), 110)).collect::<Vec<_>>().join("; "),
            self.connected,
            self.next.map(rel).unwrap_or("-".into())
        )
    }
}

/// The broker side of one client: what it owes, and what it delivers.
#[derive(Default)]
pub struct Broker {
    pub got_connect: bool,
    pub accepted: bool,
    /// replies owed on this connection
    pub owed: Vec<Pkt>,
    /// own publishes: id → (packet, state 0 sent, 1 rec'd so PUBREL owed, 2 PUBREL sent)
    pub sent: BTreeMap<u16, (Pkt, u8)>,
    pub acked_before: Vec<u16>,
}

pub struct Sim {
    pub cfg: Cfg,
    pub f: Front,
    pub steps: Vec<Step>,
    pub origin: Instant,
    /// virtual clock: the largest tick time so far
    pub vt: Instant,
    /// bytes the broker has put on the wire, and the packets they complete
    pub wire: VecDeque<u8>,
    pub wire_pkts: VecDeque<(Pkt, usize)>,
    pub wire_sent: usize,
    pub broker: Broker,
    pub serial: u64,
    pub g: Gen,
    pub lost_wire: usize,
}

impl Sim {
    pub fn new(cfg: Cfg) -> Sim {
        let f = cfg.front();
        let origin = Instant::now();
        Sim {
            cfg,
            f,
            steps: Vec::new(),
            origin,
            vt: origin,
            wire: VecDeque::new(),
            wire_pkts: VecDeque::new(),
            wire_sent: 0,
            broker: Broker::default(),
            serial: 0,
            g: Gen { small: 6, big_every: 400 },
            lost_wire: 0,
        }
    }

    pub fn trace(&self, n: usize) -> String {
        let k = self.steps.len().saturating_sub(n);
        let mut s = format!("{:?}\n", self.cfg);
        if k > 0 {
            s += &format!("  ({k} earlier steps)\n");
        }
        for st in &self.steps[k..] {
            s += "  ";
            s += &short(&st.show(self.origin), 1200);
            s += "\n";
        }
        s
    }

    /// Performs one action; everything it caused is in the returned step.
    pub fn run(&mut self, act: Act) -> Result<&Step, Violation> {
        let t0 = Instant::now();
        let mut ins = Vec::new();
        let mut evs = Vec::new();
        let act = match act {
            Act::Connect => {
                self.f.connect();
                Act::Connect
            }
            Act::Publish(p, _) => {
                let r = self.f.publish(p.cmd()).map_err(|e| format!("{e:?}"));
                Act::Publish(p, r)
            }
            Act::Subscribe(f, ps, _) => {
                let r = self.f.subscribe(SubscribeCommand::new(None, subs_from(&f), conv::props_from_model(&ps))).map_err(|e| format!("{e:?}"));
                Act::Subscribe(f, ps, r)
            }
            Act::Unsubscribe(f, ps, _) => {
                let r = self.f.unsubscribe(UnsubscribeCommand::new(None, f.clone(), conv::props_from_model(&ps))).map_err(|e| format!("{e:?}"));
                Act::Unsubscribe(f, ps, r)
            }
            Act::Ping => {
                self.f.ping();
                Act::Ping
            }
            Act::Disconnect => {
                self.f.disconnect();
                Act::Disconnect
            }
            Act::Lost => {
                self.f.lost();
                Act::Lost
            }
            Act::Schedule(t) => {
                if let Front::Engine(e) = &mut self.f {
                    e.schedule_reconnect(t);
                }
                Act::Schedule(t)
            }
            Act::Feed(n) => {
                let b: Vec<u8> = self.wire.drain(..n).collect();
                self.wire_sent += n;
                evs = self.f.feed(&b);
                while self.wire_pkts.front().is_some_and(|x| x.1 <= self.wire_sent) {
                    ins.push(self.wire_pkts.pop_front().unwrap().0);
                }
                Act::Feed(n)
            }
            Act::Tick(t) => {
                self.vt = self.vt.max(t);
                evs = self.f.tick(t);
                Act::Tick(t)
            }
            Act::Sleep(ms) => {
                std::thread::sleep(Duration::from_millis(ms));
                Act::Sleep(ms)
            }
        };
        evs.extend(self.f.events());
        let raw = self.f.out();
        let t1 = Instant::now();
        let outs = match decode_all(&raw, self.cfg.v5) {
            Ok((v, n)) if n == raw.len() => v,
            other => return fail("wire-garbage", format!("the engine's output is not a sequence of MQTT packets: {} ({other:?}) after {act:?}\n{}", hex(&raw), self.trace(20))),
        };
        self.observe(&outs);
        self.steps.push(Step { act, t0, t1, evs, ins, outs, raw_out: raw.len(), connected: self.f.connected(), next: self.f.next() });
        Ok(self.steps.last().unwrap())
    }

    /// What a broker would owe for the packets it received.
    fn observe(&mut self, outs: &[Pkt]) {
        let v5 = self.cfg.v5;
        let b = &mut self.broker;
        for p in outs {
            match p.ty {
                CONNECT => b.got_connect = true,
                PUBLISH if p.qos == 1 => b.owed.push(Pkt::ack(v5, PUBACK, p.pid.unwrap_or(0), 0)),
                PUBLISH if p.qos == 2 => b.owed.push(Pkt::ack(v5, PUBREC, p.pid.unwrap_or(0), 0)),
                PUBREL => b.owed.push(Pkt::ack(v5, PUBCOMP, p.pid.unwrap_or(0), 0)),
                SUBSCRIBE => {
                    let mut a = Pkt::ack(v5, SUBACK, p.pid.unwrap_or(0), 0);
                    a.codes = p.filters.iter().map(|f| f.1 & 3).collect();
                    b.owed.push(a);
                }
                UNSUBSCRIBE => {
                    let mut a = Pkt::ack(v5, UNSUBACK, p.pid.unwrap_or(0), 0);
                    if v5 {
                        a.codes = vec![0; p.filters.len()];
                    }
                    b.owed.push(a);
                }
                PINGREQ => b.owed.push(Pkt::new(v5, PINGRESP)),
                PUBACK => {
                    b.sent.remove(&p.pid.unwrap_or(0));
                }
                PUBREC => {
                    if let Some(x) = b.sent.get_mut(&p.pid.unwrap_or(0)) {
                        x.1 = x.1.max(1);
                    }
                }
                PUBCOMP => {
                    b.sent.remove(&p.pid.unwrap_or(0));
                }
                _ => {}
            }
        }
    }

    /// Puts a packet on the wire towards the client.
    pub fn put(&mut self, p: Pkt, form: u8) {
        let b = encode_form(&p, form);
        // what the client is to see: the decoded form (omitted fields take their defaults)
        let (p, _) = decode(&b, self.cfg.v5).unwrap_or_else(|e| panic!("harness: broker packet {p:?} does not decode: {e:?}"));
        self.wire.extend(&b);
        let end = self.wire_sent + self.wire.len();
        self.wire_pkts.push_back((p, end));
    }

    pub fn drop_wire(&mut self) {
        self.lost_wire += self.wire.len();
        self.wire.clear();
        self.wire_pkts.clear();
        self.wire_sent = 0;
        self.broker.owed.clear();
        self.broker.got_connect = false;
        self.broker.accepted = false;
    }

    pub fn spec(&mut self, r: &mut Rng, qos: u8) -> PubSpec {
        self.serial += 1;
        let mut payload = self.serial.to_be_bytes().to_vec();
        let n = self.g.len(r);
        payload.extend(r.bytes(n));
        PubSpec {
            topic: self.g.topic(r),
            payload,
            qos,
            retain: r.chance(1, 4),
            props: if self.cfg.v5 && r.chance(1, 2) { self.g.props(r, PUBLISH).into_iter().filter(|p| p.id() != 0x0b && p.id() != 0x23).collect() } else { vec![] },
            prio: *r.pick(&[128u8, 128, 0, 255, 1, 127, 200]),
            pid: None,
        }
    }

    pub fn connack(&self, code: u8, session: bool, rm: Option<u16>) -> Pkt {
        let mut p = Pkt::new(self.cfg.v5, CONNACK);
        p.reason = code;
        p.session_present = session;
        if self.cfg.v5 {
            if let Some(rm) = rm {
                p.props.push(P::U16(0x21, rm));
            }
        }
        p
    }

    pub fn vnum(&self) -> u8 {
        vnum(self.cfg.v5)
    }
}
