//! Follows a recorded history and says what each step should have shown.
use crate::sim::*;
use flowsdk::mqtt_client::MqttEvent;
use kit::*;
use refmqtt::*;
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

/// A moment known to lie between two clock readings.
#[derive(Clone, Copy, Debug)]
pub struct When {
    pub lo: Instant,
    pub hi: Instant,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Pub(u8),
    Sub,
    Unsub,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum State {
    Queued,
    Sent,
    Rel,
}

#[derive(Clone, Debug)]
pub struct Ex {
    pub kind: Kind,
    pub state: State,
    pub order: u64,
    /// connection the packet was last sent on
    pub conn: u32,
    pub sent: Option<When>,
    pub spec: Option<PubSpec>,
    /// belongs to a session the broker no longer has
    pub stale: bool,
}

#[derive(Clone, Debug)]
pub struct Waiting {
    pub spec: PubSpec,
    pub pid: Option<u16>,
    pub seq: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Done {
    pub pid: u16,
    pub reason: u8,
    pub props: Option<Vec<P>>,
    pub qos: u8,
}

#[derive(Debug, Clone)]
pub struct SubRes {
    pub unsub: bool,
    pub pid: u16,
    pub codes: Vec<u8>,
    pub props: Vec<P>,
    pub matched: bool,
}

#[derive(Default)]
pub struct Facts {
    pub completions: Vec<Done>,
    pub pubrels: Vec<u16>,
    pub acks: Vec<(u8, u16)>,
    pub deliveries: Vec<Pkt>,
    pub releases: Vec<u16>,
    pub subs: Vec<SubRes>,
    /// (id, state, spec) of the exchanges to be resent, in order, when the broker resumed the session
    pub resume: Option<Vec<(u16, Ex)>>,
    pub connack: Option<(u8, bool)>,
    pub alloc: Option<(u16, bool)>,
    pub was_connected: bool,
    pub ping_before: Option<When>,
    pub sent_before: Option<When>,
    pub due_before: Vec<(u16, When, State)>,
    pub order_err: Option<String>,
    pub over_quota: Option<String>,
    pub new_pubs: usize,
    pub dup_pubs: usize,
    pub unmatched_acks: u64,
    pub dups_suppressed: u64,
    pub kept_connected: bool,
}

pub struct Tracker {
    pub cfg: Cfg,
    pub open: BTreeMap<u16, Ex>,
    pub waiting: Vec<Waiting>,
    pub conn: u32,
    pub connected: bool,
    pub limit: usize,
    pub order: u64,
    pub seq: u64,
    pub unreleased: HashSet<u16>,
    pub last_sent: Option<When>,
    pub ping: Option<When>,
    /// the server's keep-alive, if its CONNACK on this connection names one
    pub server_keep: Option<u16>,
    pub accepted: u64,
    pub completed: u64,
    pub reused: u64,
    pub queue_peak: usize,
    pub inflight_peak: usize,
}

impl Tracker {
    pub fn new(cfg: Cfg) -> Tracker {
        Tracker {
            limit: cfg.base_limit(),
            cfg,
            open: BTreeMap::new(),
            waiting: Vec::new(),
            conn: 0,
            connected: false,
            order: 0,
            seq: 0,
            unreleased: HashSet::new(),
            last_sent: None,
            ping: None,
            server_keep: None,
            accepted: 0,
            completed: 0,
            reused: 0,
            queue_peak: 0,
            inflight_peak: 0,
        }
    }

    /// position of the next waiting publish to go out
    pub fn head(&self) -> Option<usize> {
        (0..self.waiting.len()).max_by_key(|&i| (self.waiting[i].spec.prio, std::cmp::Reverse(self.waiting[i].seq)))
    }

    fn is_inflight_pub(e: &Ex) -> bool {
        matches!(e.kind, Kind::Pub(_)) && e.state != State::Queued
    }

    /// unacknowledged publishes sent on the current connection
    pub fn unacked_here(&self) -> usize {
        self.open.values().filter(|e| Self::is_inflight_pub(e) && e.conn == self.conn).count()
    }

    /// all unacknowledged publishes, whatever connection they were sent on
    pub fn unacked(&self) -> usize {
        self.open.values().filter(|e| Self::is_inflight_pub(e)).count()
    }

    pub fn same_publish(out: &Pkt, s: &PubSpec, pid: Option<u16>, v5: bool) -> Result<(), String> {
        let want_props: &[P] = if v5 { &s.props } else { &[] };
        if out.topic != s.topic || out.payload != s.payload || out.qos != s.qos || out.retain != s.retain || out.props != want_props || (s.qos > 0 && out.pid != pid) {
            return Err(format!("sent {out:?}, submitted {s:?} with identifier {pid:?}"));
        }
        Ok(())
    }

    fn next_order(&mut self) -> u64 {
        self.order += 1;
        self.order
    }

    pub fn apply(&mut self, st: &Step) -> Facts {
        let mut f = Facts { was_connected: self.connected, ping_before: self.ping, sent_before: self.last_sent, ..Default::default() };
        let here = When { lo: st.t0, hi: st.t1 };
        let v5 = self.cfg.v5;
        f.due_before = self.open.iter().filter(|(_, e)| Self::is_inflight_pub(e)).filter_map(|(p, e)| e.sent.map(|w| (*p, w, e.state))).collect();
        match &st.act {
            Act::Connect if !self.connected => {
                self.conn += 1;
                self.ping = None;
            }
            Act::Publish(s, Ok(pid)) => {
                self.accepted += 1;
                self.seq += 1;
                if let Some(p) = *pid {
                    f.alloc = Some((p, self.open.contains_key(&p)));
                    let ex = Ex { kind: Kind::Pub(s.qos), state: State::Queued, order: 0, conn: 0, sent: None, spec: Some(s.clone()), stale: false };
                    self.open.insert(p, ex);
                }
                self.waiting.push(Waiting { spec: s.clone(), pid: *pid, seq: self.seq });
                self.queue_peak = self.queue_peak.max(self.waiting.len());
            }
            Act::Subscribe(_, _, Ok(p)) | Act::Unsubscribe(_, _, Ok(p)) => {
                f.alloc = Some((*p, self.open.contains_key(p)));
                let kind = if matches!(st.act, Act::Subscribe(..)) { Kind::Sub } else { Kind::Unsub };
                let order = self.next_order();
                self.open.insert(*p, Ex { kind, state: State::Sent, order, conn: self.conn, sent: Some(here), spec: None, stale: false });
            }
            Act::Disconnect => self.connected = false,
            Act::Lost => {
                self.connected = false;
                self.ping = None;
            }
            Act::Ping => {
                if st.outs.iter().any(|p| p.ty == PINGREQ) && self.ping.is_none() {
                    self.ping = Some(here);
                }
            }
            _ => {}
        }
        for p in &st.ins {
            self.incoming(p, here, &mut f);
        }
        // what went out
        let mut resends = f.resume.as_ref().map_or(0, |v| v.len());
        for p in &st.outs {
            if p.ty != PUBLISH {
                continue;
            }
            if p.dup {
                f.dup_pubs += 1;
                resends = resends.saturating_sub(1);
                if let Some(e) = p.pid.and_then(|i| self.open.get_mut(&i)) {
                    e.conn = self.conn;
                    e.sent = Some(here);
                }
                continue;
            }
            f.new_pubs += 1;
            let pos = self.head();
            let pos = match pos {
                Some(i) if Self::same_publish(p, &self.waiting[i].spec, self.waiting[i].pid, v5).is_ok() => Some(i),
                other => {
                    let why = match other {
                        None => "nothing was waiting".to_string(),
                        Some(i) => Self::same_publish(p, &self.waiting[i].spec, self.waiting[i].pid, v5).unwrap_err(),
                    };
                    f.order_err.get_or_insert(format!("unexpected PUBLISH: {}", short(&why, 900)));
                    self.waiting.iter().position(|w| w.pid == p.pid && w.spec.payload == p.payload)
                }
            };
            let pid = p.pid;
            if let Some(i) = pos {
                self.waiting.remove(i);
            }
            if p.qos > 0 {
                let n = self.unacked_here();
                if n >= self.limit {
                    f.over_quota.get_or_insert(format!("PUBLISH id {pid:?} sent while {n} publishes are unacknowledged and the limit is {}", self.limit));
                }
                let o = self.next_order();
                let conn = self.conn;
                if let Some(e) = pid.and_then(|i| self.open.get_mut(&i)) {
                    e.state = State::Sent;
                    e.order = o;
                    e.conn = conn;
                    e.sent = Some(here);
                }
                self.inflight_peak = self.inflight_peak.max(self.unacked_here());
            }
        }
        if let Act::Tick(now) = st.act {
            if f.was_connected && st.evs.iter().any(|e| matches!(e, MqttEvent::ReconnectNeeded)) {
                self.connected = false;
                self.ping = None;
            }
            let tick = When { lo: now, hi: now };
            for p in &st.outs {
                match p.ty {
                    PINGREQ => self.ping = Some(tick),
                    PUBLISH | PUBREL => {
                        if let Some(e) = p.pid.and_then(|i| self.open.get_mut(&i)) {
                            e.sent = Some(tick);
                        }
                    }
                    _ => {}
                }
            }
            if !st.outs.is_empty() {
                self.last_sent = Some(if st.outs.iter().any(|p| p.ty == PUBLISH && !p.dup) { When { lo: now.min(st.t0), hi: now.max(st.t1) } } else { tick });
            }
        } else if !st.outs.is_empty() {
            // resent packets alone need not count as traffic
            let only_resends = f.resume.is_some() && st.outs.iter().all(|p| (p.ty == PUBLISH && p.dup) || matches!(p.ty, PUBREL | SUBSCRIBE | UNSUBSCRIBE));
            let lo = if only_resends { self.last_sent.map_or(st.t0, |w| w.lo) } else { st.t0 };
            self.last_sent = Some(When { lo, hi: st.t1 });
        }
        f.kept_connected = self.connected;
        f
    }

    fn done(&mut self, pid: u16, reason: u8, props: &[P], qos: u8, f: &mut Facts) {
        let v5 = self.cfg.v5;
        self.open.remove(&pid);
        self.completed += 1;
        f.completions.push(Done { pid, reason: if v5 { reason } else { 0 }, props: v5.then(|| props.to_vec()), qos });
    }

    fn incoming(&mut self, p: &Pkt, here: When, f: &mut Facts) {
        let v5 = self.cfg.v5;
        let pid = p.pid.unwrap_or(0);
        let cur = self.open.get(&pid).map(|e| (e.kind, e.state));
        match p.ty {
            CONNACK => {
                f.connack = Some((p.reason, p.session_present));
                self.connected = p.reason == 0;
                self.server_keep = None;
                if v5 {
                    self.limit = self.cfg.base_limit();
                    for q in &p.props {
                        if let P::U16(0x13, n) = q {
                            self.server_keep = Some(*n);
                        }
                        if let P::U16(0x21, n) = q {
                            self.limit = *n as usize;
                        }
                    }
                }
                if p.reason == 0 && !p.session_present {
                    self.unreleased.clear();
                    for e in self.open.values_mut() {
                        if e.state != State::Queued && e.conn != self.conn {
                            e.stale = true;
                        }
                    }
                }
                if p.reason == 0 && p.session_present {
                    let mut l: Vec<(u16, Ex)> = self.open.iter().filter(|(_, e)| e.state != State::Queued).map(|(i, e)| (*i, e.clone())).collect();
                    l.sort_by_key(|x| x.1.order);
                    for (i, _) in &l {
                        let e = self.open.get_mut(i).unwrap();
                        e.conn = self.conn;
                        e.sent = Some(here);
                        e.stale = false;
                    }
                    f.resume = Some(l);
                }
            }
            PUBACK => match cur {
                Some((Kind::Pub(1), State::Sent)) => self.done(pid, p.reason, &p.props, 1, f),
                _ => f.unmatched_acks += 1,
            },
            PUBREC => match cur {
                Some((Kind::Pub(2), State::Sent | State::Rel)) if p.reason >= 0x80 => self.done(pid, p.reason, &p.props, 2, f),
                Some((Kind::Pub(2), State::Sent | State::Rel)) => {
                    let o = self.next_order();
                    let conn = self.conn;
                    let e = self.open.get_mut(&pid).unwrap();
                    e.state = State::Rel;
                    e.order = o;
                    e.conn = conn;
                    e.sent = Some(here);
                    f.pubrels.push(pid);
                }
                _ => f.unmatched_acks += 1,
            },
            PUBCOMP => match cur {
                Some((Kind::Pub(2), State::Rel)) => self.done(pid, p.reason, &p.props, 2, f),
                _ => f.unmatched_acks += 1,
            },
            SUBACK | UNSUBACK => {
                let unsub = p.ty == UNSUBACK;
                let matched = cur.is_some_and(|c| c.0 == if unsub { Kind::Unsub } else { Kind::Sub });
                if matched {
                    self.open.remove(&pid);
                } else {
                    f.unmatched_acks += 1;
                }
                f.subs.push(SubRes { unsub, pid, codes: p.codes.clone(), props: p.props.clone(), matched });
            }
            PUBLISH => {
                if p.qos == 2 && self.cfg.auto_ack && !self.unreleased.insert(pid) {
                    f.dups_suppressed += 1;
                } else {
                    f.deliveries.push(p.clone());
                }
                if self.cfg.auto_ack && p.qos > 0 {
                    f.acks.push((if p.qos == 1 { PUBACK } else { PUBREC }, pid));
                }
            }
            PUBREL => {
                f.releases.push(pid);
                if self.cfg.auto_ack {
                    self.unreleased.remove(&pid);
                    f.acks.push((PUBCOMP, pid));
                }
            }
            PINGRESP => self.ping = None,
            DISCONNECT if v5 => self.connected = false,
            _ => {}
        }
    }

    pub fn keep(&self) -> Duration {
        Duration::from_secs(self.server_keep.unwrap_or(self.cfg.keep_alive) as u64)
    }
}
