//! The broker application over the simulated QUIC server, and the monitor of what each stream
//! carried.
use crate::qsim::*;
use flowsdk::mqtt_client::commands::*;
use flowsdk::mqtt_client::{MqttClientError, MqttClientOptions, MqttEvent};
use flowsdk::mqtt_serde::mqttv5::subscribe::TopicSubscription;
use kit::*;
use refmqtt::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct QCfg {
    pub v5: bool,
    pub auto_ack: bool,
    pub max_out: usize,
    pub max_ev: usize,
    pub retrans_ms: u64,
    pub parser: usize,
    pub rm: u16,
    pub clean: bool,
}

impl QCfg {
    pub fn random(r: &mut Rng) -> QCfg {
        QCfg {
            v5: r.bool(),
            auto_ack: !r.chance(1, 5),
            max_out: *r.pick(&[1, 2, 5, 1000, 1000]),
            max_ev: *r.pick(&[1, 2, 5, 1000, 1000]),
            retrans_ms: 1_000_000_000,
            parser: *r.pick(&[64, 1024, 16384]),
            rm: *r.pick(&[3, 20, 65535]),
            clean: false,
        }
    }
    pub fn opts(&self) -> MqttClientOptions {
        MqttClientOptions {
            client_id: "qsim".into(),
            clean_start: self.clean,
            keep_alive: 0,
            mqtt_version: if self.v5 { 5 } else { 4 },
            auto_ack: self.auto_ack,
            retransmission_timeout_ms: self.retrans_ms,
            max_outgoing_packet_count: self.max_out,
            max_event_count: self.max_ev,
            receive_maximum: self.rm,
            parser_buffer_size: self.parser,
            auto_keepalive: false,
            ..Default::default()
        }
    }
}

/// What one stream carried, both ways.
#[derive(Default)]
pub struct SObs {
    pub parsed: usize,
    /// commands seen from the client
    pub cmds: Vec<Pkt>,
    /// replies seen from the client
    pub replies: Vec<Pkt>,
    pub control: Vec<Pkt>,
    pub dups: Vec<Pkt>,
    /// packets the broker sent on it
    pub sent: Vec<Pkt>,
    /// replies the sent packets call for
    pub due: Vec<Pkt>,
    /// publishes sent / delivered
    pub msgs: Vec<Pkt>,
    pub got_msgs: usize,
    pub reset_or_stopped: bool,
}

pub struct Rig {
    pub net: Net,
    pub cfg: QCfg,
    /// commands issued by the application, per stream
    pub cmds: BTreeMap<u64, Vec<Pkt>>,
    /// acknowledgements sent by hand
    pub manual: BTreeMap<u64, Vec<Pkt>>,
    pub obs: BTreeMap<u64, SObs>,
    pub raw_streams: BTreeSet<u64>,
    /// broker packets not yet sent
    pub todo: BTreeMap<u64, VecDeque<Pkt>>,
    /// identifiers of the client's exchanges that are not over: pid -> (type, stream)
    pub mine: BTreeMap<u16, (u8, u64)>,
    pub acked_pubs: Vec<(u16, u8)>,
    pub got_pubs: Vec<(u16, u8)>,
    pub acked_subs: Vec<(u16, u8, Vec<u8>)>,
    pub got_subs: Vec<(u16, u8, Vec<u8>)>,
    pub srv_pids: BTreeMap<u16, u64>,
    pub next_srv_pid: u16,
    pub connack: Pkt,
    pub connect_seen: usize,
    pub connected: usize,
    pub disconnected: usize,
    pub other_evs: Vec<MqttEvent>,
    pub pings: usize,
    pub pongs: usize,
    pub serial: u64,
    pub hold_replies: bool,
    pub retrans: bool,
    /// The broker answers some commands on another stream than the one they came on.
    pub cross: bool,
    pub answer_connect: bool,
    pub app_reads: bool,
    pub pub_rcv: Option<(Option<u64>, Option<u16>)>,
    pub manual_queue: Vec<(u64, u8, u16)>,
    pub keep_acks: bool,
    /// exchanges left open by an earlier connection, and their identifiers
    pub old: Vec<Pkt>,
    pub carried: BTreeSet<u16>,
    pub resent: Vec<Pkt>,
    /// streams the application reset: what was issued on them may or may not arrive
    pub gone: BTreeSet<u64>,
    /// streams the application finished: no reply can follow on them
    pub fins: BTreeSet<u64>,
    /// streams on which the broker's packets may not arrive
    pub dead: BTreeSet<u64>,
    /// streams the broker sends nothing more on
    pub shut: BTreeSet<u64>,
    /// acknowledgements sent, with their stream
    pub acked_on: Vec<(u64, u16)>,
}

fn short_filter(r: &mut Rng) -> String {
    let n = r.range(1, 5);
    let mut v: Vec<String> = (0..n).map(|_| if r.chance(1, 4) { "+".into() } else { format!("f{}", r.below(1000)) }).collect();
    if r.chance(1, 5) {
        v.push("#".into());
    }
    v.join("/")
}

pub fn pub_pkt(v5: bool, topic: &str, payload: &[u8], qos: u8, retain: bool, pid: Option<u16>) -> Pkt {
    let mut p = Pkt::new(v5, PUBLISH);
    p.topic = topic.into();
    p.payload = payload.to_vec();
    p.qos = qos;
    p.retain = retain;
    p.pid = pid;
    p
}

impl Rig {
    pub fn new(cfg: QCfg, net: NetCfg, r: &mut Rng) -> Rig {
        let mut connack = Pkt::new(cfg.v5, CONNACK);
        connack.reason = 0;
        Rig {
            net: Net::new(cfg.opts(), net, r.clone()),
            cfg,
            cmds: BTreeMap::new(),
            manual: BTreeMap::new(),
            obs: BTreeMap::new(),
            raw_streams: BTreeSet::new(),
            todo: BTreeMap::new(),
            mine: BTreeMap::new(),
            acked_pubs: vec![],
            got_pubs: vec![],
            acked_subs: vec![],
            got_subs: vec![],
            srv_pids: BTreeMap::new(),
            next_srv_pid: 0,
            connack,
            connect_seen: 0,
            connected: 0,
            disconnected: 0,
            other_evs: vec![],
            pings: 0,
            pongs: 0,
            serial: 0,
            hold_replies: false,
            retrans: false,
            cross: false,
            answer_connect: true,
            app_reads: true,
            pub_rcv: None,
            manual_queue: vec![],
            keep_acks: false,
            old: vec![],
            carried: BTreeSet::new(),
            resent: vec![],
            gone: BTreeSet::new(),
            fins: BTreeSet::new(),
            dead: BTreeSet::new(),
            shut: BTreeSet::new(),
            acked_on: vec![],
        }
    }

    /// Forget the streams of a connection that is over.
    pub fn new_connection(&mut self) {
        self.cmds.clear();
        self.manual.clear();
        self.obs.clear();
        self.todo.clear();
        self.srv_pids.clear();
        self.manual_queue.clear();
        self.pub_rcv = None;
    }

    pub fn payload(&mut self, r: &mut Rng) -> Vec<u8> {
        self.serial += 1;
        let n = match r.below(20) {
            _ if self.net.cfg.stream_window < 1000 || self.net.cfg.conn_window < 1000 => r.range(0, 300),
            0 => r.range(2000, 20000),
            1..=4 => r.range(100, 2000),
            _ => r.range(0, 60),
        };
        let mut b = format!("#{}:", self.serial).into_bytes();
        b.extend(r.bytes(n));
        b
    }

    pub fn data_streams(&self) -> Vec<u64> {
        self.cmds.keys().copied().collect()
    }

    /// One application command on a stream (None: the default one). Returns whether it was taken.
    pub fn command(&mut self, r: &mut Rng, stream: Option<u64>, obs: &mut Obs) -> Result<bool, Violation> {
        let v5 = self.cfg.v5;
        let before: BTreeSet<u64> = self.cmds.keys().copied().collect();
        let g = Gen { small: 30, big_every: 0 };
        let k = r.below(10);
        let (res, mut pkt): (Result<Option<u16>, MqttClientError>, Pkt) = if k < 7 {
            let qos = r.below(3) as u8;
            let (topic, payload, retain) = (format!("c/{}", r.below(9)), self.payload(r), r.chance(1, 6));
            let mut p = pub_pkt(v5, &topic, &payload, qos, retain, None);
            if v5 && r.chance(1, 3) {
                p.props = vec![P::Pair(short_filter(r), short_filter(r)), P::U32(2, g.u32(r))];
            }
            let c = PublishCommand::new(topic, payload, qos, retain, false, None, conv::props_from_model(&p.props), 0);
            let res = match stream {
                None => self.net.cl.publish(c),
                Some(s) => self.net.cl.publish_on(s, c),
            };
            (res, p)
        } else if k < 9 {
            let mut p = Pkt::new(v5, SUBSCRIBE);
            let n = r.range(1, 4);
            p.filters = (0..n).map(|_| (short_filter(r), r.below(3) as u8)).collect();
            let c = SubscribeCommand::new(None, p.filters.iter().map(|(f, o)| TopicSubscription::new(f.clone(), *o, false, false, 0)).collect(), vec![]);
            let res = match stream {
                None => self.net.cl.subscribe(c),
                Some(s) => self.net.cl.subscribe_on(s, c),
            };
            (res.map(Some), p)
        } else {
            let mut p = Pkt::new(v5, UNSUBSCRIBE);
            let n = r.range(1, 3);
            p.filters = (0..n).map(|_| (short_filter(r), 0)).collect();
            let c = UnsubscribeCommand::new(None, p.filters.iter().map(|(f, _)| f.clone()).collect(), vec![]);
            let res = match stream {
                None => self.net.cl.unsubscribe(c),
                Some(s) => self.net.cl.unsubscribe_on(s, c),
            };
            (res.map(Some), p)
        };
        match res {
            Ok(pid) => {
                pkt.pid = pid;
                let needs = pkt.ty != PUBLISH || pkt.qos > 0;
                ensure!(needs == pid.is_some(), "pid", "{} qos {} returned identifier {pid:?}", pkt.name(), pkt.qos);
                let sid = match stream {
                    Some(s) => s,
                    None => {
                        // the default stream for this kind of command: learnt from the server side
                        if pkt.ty == PUBLISH {
                            u64::MAX
                        } else {
                            u64::MAX - 1
                        }
                    }
                };
                let _ = before;
                if let Some(p) = pid {
                    ensure!(p != 0, "pid", "identifier 0");
                    ensure!(!self.mine.contains_key(&p), "pid-reuse", "identifier {p} is in use by {:?} and was given out again", self.mine[&p]);
                    self.mine.insert(p, (if pkt.ty == PUBLISH { 10 + pkt.qos } else { pkt.ty }, sid));
                }
                obs.count(match pkt.ty {
                    PUBLISH => "publish commands",
                    SUBSCRIBE => "subscribe commands",
                    _ => "unsubscribe commands",
                });
                self.cmds.entry(sid).or_default().push(pkt);
                Ok(true)
            }
            Err(e) => {
                obs.count(match e {
                    MqttClientError::BufferFull { .. } => "commands refused: buffer full",
                    _ => "commands refused: other",
                });
                Ok(false)
            }
        }
    }

    /// The expectation list for a stream the server sees: explicit streams by id, the default ones
    /// by what they carry.
    fn exp_key(&mut self, sid: u64, first: Option<&Pkt>) -> u64 {
        if self.cmds.contains_key(&sid) {
            return sid;
        }
        match first {
            Some(p) if p.ty == PUBLISH => u64::MAX,
            Some(_) => u64::MAX - 1,
            None => sid,
        }
    }

    /// Queue a packet from the broker on a stream.
    pub fn broker_send(&mut self, sid: u64, p: Pkt) {
        self.todo.entry(sid).or_default().push_back(p);
    }

    pub fn broker_publish(&mut self, r: &mut Rng, sid: u64) -> bool {
        let qos = r.below(3) as u8;
        let pid = if qos > 0 {
            if self.srv_pids.len() > 40 {
                return false;
            }
            loop {
                self.next_srv_pid = self.next_srv_pid.wrapping_add(1).max(1);
                if !self.srv_pids.contains_key(&self.next_srv_pid) {
                    break;
                }
            }
            self.srv_pids.insert(self.next_srv_pid, sid);
            Some(self.next_srv_pid)
        } else {
            None
        };
        let payload = self.payload(r);
        let p = pub_pkt(self.cfg.v5, &format!("s/{sid}"), &payload, qos, r.chance(1, 5), pid);
        self.broker_send(sid, p);
        true
    }

    fn really_send(&mut self, sid: u64, p: Pkt) {
        if self.shut.contains(&sid) {
            return;
        }
        let b = encode(&p);
        let auto = self.cfg.auto_ack;
        let v5 = self.cfg.v5;
        let o = self.obs.entry(sid).or_default();
        match p.ty {
            PUBLISH => {
                o.msgs.push(p.clone());
                if auto && p.qos > 0 {
                    o.due.push(Pkt::ack(v5, if p.qos == 1 { PUBACK } else { PUBREC }, p.pid.unwrap(), 0));
                }
            }
            PUBREL if auto => o.due.push(Pkt::ack(v5, PUBCOMP, p.pid.unwrap(), 0)),
            PUBREC if p.reason < 0x80 => o.due.push(Pkt::ack(v5, PUBREL, p.pid.unwrap(), 0)),
            _ => {}
        }
        if matches!(p.ty, PUBACK | PUBCOMP | SUBACK | UNSUBACK) || p.ty == PUBREC && p.reason >= 0x80 {
            self.acked_on.push((sid, p.pid.unwrap()));
        }
        match p.ty {
            PUBACK => self.acked_pubs.push((p.pid.unwrap(), p.reason)),
            PUBREC if p.reason >= 0x80 => self.acked_pubs.push((p.pid.unwrap(), p.reason)),
            PUBCOMP => self.acked_pubs.push((p.pid.unwrap(), p.reason)),
            SUBACK | UNSUBACK => self.acked_subs.push((p.pid.unwrap(), p.ty, p.codes.clone())),
            _ => {}
        }
        o.sent.push(p);
        if let Some(c) = self.net.srv() {
            if c.streams.contains_key(&sid) {
                c.send(sid, &b);
            }
        }
    }

    /// Move some of the broker's packets onto the wire.
    pub fn broker_flush(&mut self, r: &mut Rng, all: bool) {
        if self.hold_replies && !all {
            return;
        }
        let mut ids: Vec<u64> = self.todo.keys().copied().collect();
        r.shuffle(&mut ids);
        for sid in ids {
            let n = if all { usize::MAX } else { r.below(4) };
            for _ in 0..n {
                let Some(p) = self.todo.get_mut(&sid).and_then(|q| q.pop_front()) else { break };
                self.really_send(sid, p);
            }
        }
        self.todo.retain(|_, q| !q.is_empty());
    }

    /// Read what arrived at the server and answer it; check it against what was issued.
    pub fn observe(&mut self, r: &mut Rng, obs: &mut Obs) -> Verdict {
        let v5 = self.cfg.v5;
        let Some(c) = self.net.srv() else { return Ok(()) };
        let mut news: Vec<(u64, Vec<u8>)> = Vec::new();
        for (id, s) in &c.streams {
            let at = self.obs.get(id).map_or(0, |o| o.parsed);
            if s.rx.len() > at && !self.raw_streams.contains(id) {
                if announced_len(&s.rx[at..]).is_some_and(|n| n > s.rx.len() - at) {
                    continue;
                }
                news.push((*id, s.rx[at..].to_vec()));
            }
        }
        for (sid, rx) in news {
            let at = self.obs.entry(sid).or_default().parsed;
            let (pkts, used) = match decode_all(&rx, v5) {
                Ok(x) => x,
                Err((m, pos)) => return fail("stream-bytes", format!("stream {sid} carries bytes that are not MQTT packets: {m:?} at {} of {}", at + pos, hex(&rx[..rx.len().min(200)]))),
            };
            self.obs.get_mut(&sid).unwrap().parsed = at + used;
            for p in pkts {
                self.server_got(sid, p, r, obs)?;
            }
        }
        Ok(())
    }

    fn server_got(&mut self, sid: u64, p: Pkt, r: &mut Rng, obs: &mut Obs) -> Verdict {
        let v5 = self.cfg.v5;
        let is_ctrl = sid == 0;
        match p.ty {
            CONNECT | PINGREQ | DISCONNECT => {
                ensure!(is_ctrl, "control-on-data", "{} arrived on data stream {sid}", p.name());
                if p.ty == CONNECT {
                    self.connect_seen += 1;
                    ensure!(self.connect_seen == 1, "connect", "CONNECT {} times on one connection", self.connect_seen);
                    ensure!(self.obs[&sid].control.is_empty() && self.obs[&sid].replies.is_empty(), "connect", "CONNECT is not the first packet of the control stream");
                    if self.answer_connect {
                        let a = self.connack.clone();
                        self.broker_send(sid, a);
                    }
                }
                if p.ty == PINGREQ {
                    self.broker_send(sid, Pkt::new(v5, PINGRESP));
                }
                self.obs.get_mut(&sid).unwrap().control.push(p);
            }
            PUBLISH | SUBSCRIBE | UNSUBSCRIBE | PUBREL
                if is_ctrl && self.carried.contains(&p.pid.unwrap_or(0)) && {
                    let o = &self.obs[&sid];
                    p.ty != PUBREL || o.due.get(o.replies.len()) != Some(&p)
                } =>
            {
                let mut q = p.clone();
                q.dup = false;
                ensure!(self.connack.session_present, "resume", "the broker has no session, but {p:?} of an earlier connection was sent again");
                ensure!(self.obs[&sid].sent.iter().any(|x| x.ty == CONNACK), "resume", "{p:?} of an earlier connection was sent again before CONNACK");
                ensure!(p.ty == PUBREL || self.old.contains(&q), "resume", "{p:?} was sent again but never was: {:?}", self.old);
                ensure!(p.ty != PUBLISH || p.dup, "resume", "sent again without DUP: {p:?}");
                ensure!(!self.resent.iter().any(|x| x.pid == p.pid), "resume", "sent again twice: {p:?}");
                let pid = p.pid.unwrap();
                let a = match p.ty {
                    PUBREL => Pkt::ack(v5, PUBCOMP, pid, 0),
                    PUBLISH => Pkt::ack(v5, if p.qos == 1 { PUBACK } else { PUBREC }, pid, 0),
                    t => {
                        let mut a = Pkt::ack(v5, t + 1, pid, 0);
                        if v5 || t == SUBSCRIBE {
                            a.codes = p.filters.iter().map(|_| 0).collect();
                        }
                        a
                    }
                };
                self.resent.push(p);
                self.broker_send(sid, a);
            }
            PUBLISH | SUBSCRIBE | UNSUBSCRIBE => {
                ensure!(!is_ctrl || p.dup, "command-on-control", "{} arrived on the control stream", p.name());
                let key = self.exp_key(sid, Some(&p));
                let exp = self.cmds.get(&key).cloned().unwrap_or_default();
                let o = self.obs.get_mut(&sid).unwrap();
                if p.dup || (self.retrans && o.cmds.contains(&p)) {
                    let mut q = p.clone();
                    q.dup = false;
                    ensure!(self.retrans, "retransmission", "unexpected retransmission on stream {sid}: {p:?}");
                    ensure!(o.cmds.contains(&q), "retransmission", "stream {sid} carries a retransmission of a packet first sent elsewhere or never: {p:?}");
                    obs.count("retransmissions seen on the stream of origin");
                    o.dups.push(p);
                    return Ok(());
                }
                let n = o.cmds.len();
                ensure!(
                    exp.get(n) == Some(&p),
                    "command-order",
                    "stream {sid}: packet {n} is\n  {p:?}\nbut the command issued there as number {n} is\n  {:?}",
                    exp.get(n)
                );
                o.cmds.push(p.clone());
                obs.count("commands seen in order on their stream");
                let reply = match p.ty {
                    PUBLISH if p.qos == 0 => None,
                    PUBLISH => {
                        let bad = v5 && r.chance(1, 8);
                        let rc = if bad { *r.pick(&[0x80, 0x87, 0x97]) } else { 0 };
                        Some(Pkt::ack(v5, if p.qos == 1 { PUBACK } else { PUBREC }, p.pid.unwrap(), rc))
                    }
                    t => {
                        let mut a = Pkt::ack(v5, t + 1, p.pid.unwrap(), 0);
                        if v5 || t == SUBSCRIBE {
                            a.codes = p.filters.iter().map(|_| if t == SUBSCRIBE { *r.pick(&[0, 1, 2, 0x80]) } else { *r.pick(&[0, 17]) }).collect();
                        }
                        Some(a)
                    }
                };
                if let Some(a) = reply {
                    let mut to = sid;
                    if self.cross && r.chance(1, 4) {
                        // a broker that answers on another stream
                        let ids: Vec<u64> = self.net.srv().unwrap().streams.keys().copied().collect();
                        to = *r.pick(&ids);
                        if to != sid {
                            obs.count("answers given on another stream");
                        }
                    }
                    self.broker_send(to, a);
                }
            }
            PUBACK | PUBREC | PUBREL | PUBCOMP => {
                let o = self.obs.get_mut(&sid).unwrap();
                let want = if self.cfg.auto_ack || p.ty == PUBREL {
                    o.due.get(o.replies.len()).cloned()
                } else {
                    self.manual.get(&sid).and_then(|m| m.get(o.replies.iter().filter(|x| x.ty != PUBREL).count())).cloned()
                };
                if !self.cfg.auto_ack {
                    // by hand: the two kinds are followed separately
                    let pubrels = o.replies.iter().filter(|x| x.ty == PUBREL).count();
                    let want = if p.ty == PUBREL { o.due.get(pubrels).cloned() } else { want };
                    if self.retrans && p.ty == PUBREL && o.replies.contains(&p) {
                        o.dups.push(p);
                        return Ok(());
                    }
                    ensure!(want.as_ref() == Some(&p), "reply", "stream {sid}: {p:?} arrived, but the stream calls for {want:?}");
                } else {
                    if self.retrans && p.ty == PUBREL && o.replies.contains(&p) && want.as_ref() != Some(&p) {
                        o.dups.push(p);
                        return Ok(());
                    }
                    ensure!(want.as_ref() == Some(&p), "reply", "stream {sid}: reply {} is {p:?}, but what the broker sent on this stream calls for {want:?}", o.replies.len());
                }
                o.replies.push(p.clone());
                obs.count("replies seen on the stream they answer");
                match p.ty {
                    PUBACK | PUBCOMP => {
                        ensure!(self.srv_pids.remove(&p.pid.unwrap()).is_some(), "reply", "{} for an exchange that is over: {p:?}", p.name());
                    }
                    PUBREC => self.broker_send(sid, Pkt::ack(v5, PUBREL, p.pid.unwrap(), 0)),
                    _ => self.broker_send(sid, Pkt::ack(v5, PUBCOMP, p.pid.unwrap(), 0)),
                }
            }
            _ => return fail("packet-type", format!("stream {sid}: a client sent {p:?}")),
        }
        Ok(())
    }

    /// Check and consume the events the client reported.
    pub fn events(&mut self, obs: &mut Obs) -> Verdict {
        for e in std::mem::take(&mut self.net.evs) {
            if self.pub_rcv.is_some() && !matches!(e, MqttEvent::MessageReceived(_)) {
                return fail("event-pair", format!("PublishReceived followed by {e:?}"));
            }
            match e {
                MqttEvent::Connected(c) => {
                    self.connected += 1;
                    ensure!(c.reason_code == 0 && c.session_present == self.connack.session_present, "connected", "Connected {c:?}");
                }
                MqttEvent::Published(p) => {
                    let Some(pid) = p.packet_id else {
                        return fail("published", format!("{p:?}"));
                    };
                    ensure!(self.mine.remove(&pid).is_some(), "published", "Published for identifier {pid}, which is not in use: {p:?}");
                    self.got_pubs.push((pid, p.reason_code.unwrap_or(0)));
                    obs.count("publish completions");
                }
                MqttEvent::Subscribed(s) => {
                    ensure!(self.mine.remove(&s.packet_id).is_some(), "subscribed", "Subscribed for identifier {} not in use", s.packet_id);
                    self.got_subs.push((s.packet_id, SUBACK, s.reason_codes));
                }
                MqttEvent::Unsubscribed(s) => {
                    ensure!(self.mine.remove(&s.packet_id).is_some(), "unsubscribed", "Unsubscribed for identifier {} not in use", s.packet_id);
                    let codes = if self.cfg.v5 { s.reason_codes } else { vec![] };
                    self.got_subs.push((s.packet_id, UNSUBACK, codes));
                }
                MqttEvent::PublishReceived { packet_id, stream } => self.pub_rcv = Some((stream, packet_id)),
                MqttEvent::MessageReceived(m) => {
                    let Some((stream, pid)) = self.pub_rcv.take() else {
                        return fail("event-pair", "MessageReceived without PublishReceived".to_string());
                    };
                    let sid = stream.unwrap_or(0);
                    let Some(o) = self.obs.get_mut(&sid) else {
                        return fail("message", format!("message reported for stream {sid}, on which nothing was sent"));
                    };
                    let want = o.msgs.get(o.got_msgs);
                    let mut got = pub_pkt(self.cfg.v5, &m.topic_name, &m.payload, m.qos, m.retain, m.packet_id);
                    got.props = conv::props_to_model(&m.properties);
                    ensure!(want == Some(&got) && pid == got.pid, "message", "stream {sid}: message {} delivered is\n {got:?} ({pid:?})\nthe broker sent\n {want:?}", o.got_msgs);
                    o.got_msgs += 1;
                    obs.count("messages delivered in order per stream");
                    if !self.cfg.auto_ack {
                        match m.qos {
                            1 => self.manual_queue.push((sid, PUBACK, pid.unwrap())),
                            2 => self.manual_queue.push((sid, PUBREC, pid.unwrap())),
                            _ => {}
                        }
                    }
                }
                MqttEvent::PubRelReceived { packet_id, stream } => {
                    if !self.cfg.auto_ack {
                        self.manual_queue.push((stream.unwrap_or(0), PUBCOMP, packet_id));
                    }
                }
                MqttEvent::PingResponse(_) => self.pongs += 1,
                MqttEvent::Disconnected(_) => self.disconnected += 1,
                e => self.other_evs.push(e),
            }
        }
        Ok(())
    }

    /// Acknowledgements the application sends itself (auto_ack off).
    pub fn manual_acks(&mut self, r: &mut Rng) {
        if self.manual_queue.is_empty() {
            return;
        }
        let n = r.range(1, self.manual_queue.len());
        for _ in 0..n {
            let (sid, ty, pid) = self.manual_queue.remove(0);
            let c = &mut self.net.cl;
            let ok = match ty {
                PUBACK => c.puback_on(sid, pid),
                PUBREC => c.pubrec_on(sid, pid),
                _ => c.pubcomp_on(sid, pid),
            };
            if ok.is_ok() {
                self.manual.entry(sid).or_default().push(Pkt::ack(self.cfg.v5, ty, pid, 0));
            }
        }
    }

    pub fn turn(&mut self, r: &mut Rng, dt_us: u64, obs: &mut Obs) -> Verdict {
        self.net.step(Duration::from_micros(dt_us));
        self.observe(r, obs)?;
        self.events(obs)?;
        if self.app_reads {
            self.manual_acks(r);
        }
        Ok(())
    }

    /// The list a stream's commands are kept under: its own, or the one of the default stream.
    pub fn key_of(&self, sid: u64) -> u64 {
        if self.cmds.contains_key(&sid) {
            return sid;
        }
        match self.obs.get(&sid).and_then(|o| o.cmds.first()) {
            Some(p) if p.ty == PUBLISH => u64::MAX,
            Some(_) => u64::MAX - 1,
            None => sid,
        }
    }

    pub fn settled(&mut self) -> bool {
        let acked = self.todo.is_empty() && self.manual_queue.is_empty();
        let cmds: usize = self.cmds.iter().filter(|(k, _)| !self.gone.contains(k)).map(|(_, v)| v.len()).sum();
        let seen: usize = self.obs.iter().filter(|(k, _)| !self.gone.contains(k)).map(|(_, o)| o.cmds.len()).sum();
        let shut = |k: &u64| self.gone.contains(k) || self.fins.contains(k) || self.dead.contains(k);
        let due: usize = self.obs.iter().filter(|(k, _)| !shut(k)).map(|(_, o)| o.due.len()).sum::<usize>() + self.manual.iter().filter(|(k, _)| !shut(k)).map(|(_, m)| m.len()).sum::<usize>();
        let replies: usize = self.obs.iter().filter(|(k, _)| !shut(k)).map(|(_, o)| o.replies.len()).sum();
        let msgs = self.obs.iter().all(|(k, o)| self.dead.contains(k) || o.got_msgs == o.msgs.len());
        let over = |k: &u64| self.gone.contains(k) || self.dead.contains(k) || self.shut.contains(k);
        // what went over a default stream is kept under that one's own key
        let shut = |k: &u64| over(k) || *k >= u64::MAX - 1 && self.obs.keys().any(|x| over(x) && self.key_of(*x) == *k);
        acked && cmds == seen && due == replies && msgs && self.mine.iter().all(|(p, (t, s))| if self.carried.contains(p) { !self.connack.session_present } else { shut(s) || *t == 12 && self.fins.contains(s) }) && self.srv_pids.values().all(|s| shut(s) || self.fins.contains(s)) && self.pings == self.pongs
    }

    pub fn dump(&self) -> String {
        let mut s = format!("cfg {:?} net {:?} pings {} pongs {} manual {} carried {:?} present {} old {:?}\n", self.cfg, self.net.cfg, self.pings, self.pongs, self.manual_queue.len(), self.carried, self.connack.session_present, self.old.iter().map(|p| (p.ty, p.pid)).collect::<Vec<_>>());
        for (k, v) in &self.cmds {
            s += &format!("  issued on {k}: {}\n", v.len());
        }
        for (k, o) in &self.obs {
            s += &format!(
                "  stream {k}: {} commands, {}/{} replies, {}/{} messages delivered, {} packets from the broker\n",
                o.cmds.len(),
                o.replies.len(),
                o.due.len() + self.manual.get(k).map_or(0, |m| m.len()),
                o.got_msgs,
                o.msgs.len(),
                o.sent.len()
            );
        }
        s += &format!("  open exchanges {:?}, broker's {:?}, todo {:?}\n", self.mine, self.srv_pids, self.todo.keys().collect::<Vec<_>>());
        s
    }

    /// Let everything finish on a clean path.
    pub fn settle(&mut self, r: &mut Rng, obs: &mut Obs, virtual_s: u64) -> Verdict {
        self.settle_with(r, obs, virtual_s, |_, _| Ok(()))
    }

    pub fn settle_with(&mut self, r: &mut Rng, obs: &mut Obs, virtual_s: u64, mut each: impl FnMut(&mut Rig, &mut Obs) -> Verdict) -> Verdict {
        if self.net.cfg.loss == 0 || r.bool() {
            self.net.clean_path();
        } else {
            self.net.cfg.loss = self.net.cfg.loss.min(50);
        }
        self.hold_replies = false;
        if let Some(c) = self.net.srv() {
            for s in c.streams.values_mut() {
                s.paused = false;
                s.tx_rate = usize::MAX;
            }
        }
        let end = self.net.now + Duration::from_secs(virtual_s);
        let half = self.net.now + Duration::from_secs(virtual_s / 4);
        while self.net.now < end {
            self.broker_flush(r, true);
            if self.net.now > half {
                self.net.clean_path();
            }
            self.turn(r, 4000, obs)?;
            each(self, obs)?;
            if self.settled() {
                return Ok(());
            }
        }
        let d = format!("{}{}", self.dump(), self.dump_net());
        fail("incomplete", format!("not everything arrived within {virtual_s} s on a path without loss:\n{d}"))
    }
}
impl Rig {
    pub fn dump_net(&mut self) -> String {
        let mut s = String::new();
        if let Some(c) = self.net.srv() {
            s += &format!("lost {:?} stats {:?}\n", c.lost, c.conn.stats());
            for (k, x) in &c.streams {
                s += &format!(" {k}: rx {} fin {} reset {:?} paused {} tx left {}\n", x.rx.len(), x.rx_fin, x.rx_reset, x.paused, x.tx.len());
            }
        }
        s
    }
}
