//! Monitors over engine histories: each property checks its own assertions on every step.
use crate::sim::*;
use crate::track::*;
use flowsdk::mqtt_client::MqttEvent;
use kit::*;
use refmqtt::*;
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

/// Relative frequency of the things that happen while connected.
#[derive(Clone, Debug)]
pub struct W {
    publish: usize,
    sub: usize,
    ping: usize,
    tick: usize,
    reply: usize,
    feed: usize,
    deliver: usize,
    rogue: usize,
    lost: usize,
    bye: usize,
    sched: usize,
    sleep: usize,
    refuse: (usize, usize),
    session: (usize, usize),
    qos: [usize; 3],
}

const BASE: W = W { publish: 8, sub: 1, ping: 1, tick: 1, reply: 9, feed: 12, deliver: 2, rogue: 1, lost: 1, bye: 0, sched: 0, sleep: 0, refuse: (1, 12), session: (4, 5), qos: [1, 3, 3] };

pub struct Mon {
    prop: &'static str,
    attempts: u32,
    sched: Option<Instant>,
    resent: HashSet<u16>,
    /// subscriptions whose request was seen going out and whose result has not come
    pub eff: u64,
}

pub struct D<'a> {
    pub s: Sim,
    pub t: Tracker,
    pub m: Mon,
    pub o: &'a mut Obs,
    pub w: W,
    pub shape: Vec<u8>,
    pub connack_put: bool,
    pub ever: bool,
    /// a tick ran ahead of the real clock since the last CONNACK
    pub ahead: bool,
    pub hold_sends: bool,
}

fn published(evs: &[MqttEvent]) -> Vec<Done> {
    evs.iter()
        .filter_map(|e| match e {
            MqttEvent::Published(p) => Some(Done { pid: p.packet_id.unwrap_or(0), reason: p.reason_code.unwrap_or(255), props: p.properties.as_ref().map(|x| conv::props_to_model(x)), qos: p.qos }),
            _ => None,
        })
        .collect()
}

fn mins(a: Option<Instant>, b: Option<Instant>) -> Option<Instant> {
    match (a, b) {
        (Some(x), Some(y)) => Some(x.min(y)),
        (x, y) => x.or(y),
    }
}

impl Mon {
    pub fn new(prop: &'static str) -> Mon {
        Mon { prop, attempts: 0, sched: None, resent: HashSet::new(), eff: 0 }
    }

    fn check(&mut self, st: &Step, f: &Facts, t: &Tracker, o: &mut Obs) -> Verdict {
        match self.prop {
            "C08" => self.c08(st, f, o),
            "C09" => self.c09(f, o),
            "C10" => self.c10(f, t, o),
            "C11" => self.c11(f, o),
            "C12" => self.c12(st, f, t, o),
            "C13" => self.c13(st, f, t, o),
            "C14" => self.c14(st, f, t, o),
            "C15" => self.c15(st, f, t, o),
            "C16" => self.c16(st, f, t, o),
            "C20" => self.c20(st, f, t, o),
            _ => Ok(()),
        }
    }

    fn c08(&mut self, st: &Step, f: &Facts, o: &mut Obs) -> Verdict {
        let got = published(&st.evs);
        o.add("completions", got.len() as u64);
        o.add("unmatched_acks", f.unmatched_acks);
        o.add("failed_completions", f.completions.iter().filter(|d| d.reason >= 0x80).count() as u64);
        ensure!(got == f.completions, "completion", "completions reported {got:?}, due {:?}", f.completions);
        let rels: Vec<u16> = st.outs.iter().filter(|p| p.ty == PUBREL).map(|p| p.pid.unwrap_or(0)).collect();
        let resumed = f.resume.as_ref().map_or(0, |l| l.iter().filter(|x| x.1.state == State::Rel).count());
        if matches!(st.act, Act::Tick(_)) {
            return Ok(());
        }
        o.add("pubrels", f.pubrels.len() as u64);
        ensure!(rels.len() >= resumed && rels[resumed..] == f.pubrels[..], "pubrel", "PUBREL sent for {rels:?}; {resumed} to resume, then due for {:?}", f.pubrels);
        Ok(())
    }

    fn c09(&mut self, f: &Facts, o: &mut Obs) -> Verdict {
        if let Some((p, used)) = f.alloc {
            o.count("allocations");
            ensure!(p != 0, "zero", "identifier 0 assigned");
            ensure!(!used, "reused", "identifier {p} assigned while an exchange under it is still open");
        }
        Ok(())
    }

    fn c10(&mut self, f: &Facts, t: &Tracker, o: &mut Obs) -> Verdict {
        if let Some(e) = &f.over_quota {
            return fail("over-quota", e.clone());
        }
        if t.unacked_here() == t.limit {
            o.count("at_limit");
        }
        if t.connected {
            if let Some(i) = t.head() {
                let q = t.waiting[i].spec.qos;
                let n = t.unacked();
                ensure!(q > 0 && n >= t.limit, "stalled", "a QoS {q} publish waits although only {n} of {} are unacknowledged", t.limit);
                o.count("held_back");
            }
        }
        Ok(())
    }

    fn c11(&mut self, f: &Facts, o: &mut Obs) -> Verdict {
        o.add("sent", f.new_pubs as u64);
        if f.new_pubs > 1 {
            o.count("ordered_batches");
        }
        match &f.order_err {
            Some(e) => fail("order", e.clone()),
            None => Ok(()),
        }
    }

    fn c12(&mut self, st: &Step, f: &Facts, t: &Tracker, o: &mut Obs) -> Verdict {
        let mut got: Vec<String> = Vec::new();
        let mut want: Vec<String> = Vec::new();
        for e in &st.evs {
            match e {
                MqttEvent::PublishReceived { packet_id, stream } => got.push(format!("received {packet_id:?} {stream:?}")),
                MqttEvent::MessageReceived(m) => {
                    let p = conv::to_model(&flowsdk::mqtt_serde::control_packet::MqttPacket::Publish5(m.clone()));
                    got.push(format!("message q{} dup{} ret{} {:?} {:?} {} {:?}", p.qos, p.dup, p.retain, p.pid, p.topic, hex(&p.payload), p.props));
                }
                MqttEvent::PubRelReceived { packet_id, stream } => got.push(format!("release {packet_id} {stream:?}")),
                _ => {}
            }
        }
        let (mut d, mut rel) = (f.deliveries.iter().peekable(), 0);
        for p in &st.ins {
            if p.ty == PUBLISH {
                if d.peek() == Some(&p) {
                    d.next();
                    want.push(format!("received {:?} None", p.pid));
                    want.push(format!("message q{} dup{} ret{} {:?} {:?} {} {:?}", p.qos, p.dup, p.retain, p.pid, p.topic, hex(&p.payload), p.props));
                }
            } else if p.ty == PUBREL {
                want.push(format!("release {} None", f.releases[rel]));
                rel += 1;
            }
        }
        o.add("deliveries", f.deliveries.len() as u64);
        o.add("releases", rel as u64);
        o.add("duplicates_suppressed", f.dups_suppressed);
        if got != want {
            let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return fail("delivery", format!("delivered {} items, due {}; first difference: {} instead of {}", got.len(), want.len(), short(got.get(i).map_or("nothing", |x| x), 600), short(want.get(i).map_or("nothing", |x| x), 600)));
        }
        let acks: Vec<(u8, u16)> = st.outs.iter().filter(|p| matches!(p.ty, PUBACK | PUBREC | PUBCOMP)).map(|p| (p.ty, p.pid.unwrap_or(0))).collect();
        o.add("acks", acks.len() as u64);
        ensure!(acks == f.acks, "acks", "acknowledged {acks:?}, due {:?} (type, identifier)", f.acks);
        let bad = st.outs.iter().find(|p| matches!(p.ty, PUBACK | PUBREC | PUBCOMP) && (p.reason != 0 || !p.props.is_empty()));
        ensure!(bad.is_none(), "ack-reason", "{bad:?}");
        if !t.cfg.auto_ack {
            o.add("manual_deliveries", f.deliveries.len() as u64);
        }
        Ok(())
    }

    fn c13(&mut self, st: &Step, f: &Facts, t: &Tracker, o: &mut Obs) -> Verdict {
        let pings = st.outs.iter().filter(|p| p.ty == PINGREQ).count();
        let lost = st.evs.iter().filter(|e| matches!(e, MqttEvent::ReconnectNeeded)).count();
        let Act::Tick(n) = st.act else {
            let manual = matches!(st.act, Act::Ping) as usize;
            ensure!(pings == manual, "ping-unasked", "{pings} pings outside a tick ({manual} asked for)");
            ensure!(lost == 0, "loss-unasked", "connection declared lost outside a tick");
            return Ok(());
        };
        if !f.was_connected {
            ensure!(pings == 0, "ping-disconnected", "PINGREQ while disconnected");
            return Ok(());
        }
        let k = t.keep();
        if k.is_zero() {
            o.count("ticks_without_keep_alive");
            ensure!(pings == 0 && lost == 0, "keep-alive-off", "{pings} pings, {lost} losses with keep-alive 0");
            return Ok(());
        }
        if let Some(p) = f.ping_before {
            let (a, b) = (p.lo + k * t.cfg.mult, p.hi + k * t.cfg.mult);
            ensure!(pings == 0, "second-ping", "PINGREQ while one is unanswered");
            if n >= b {
                o.count("losses");
                let sched = st.evs.iter().filter(|e| matches!(e, MqttEvent::ReconnectScheduled { .. })).count();
                ensure!(lost == 1 && !st.connected && sched == 1, "loss-missed", "ping unanswered since {:?} for {k:?} × {}: {lost} reconnect requests, {sched} scheduled, connected={}", n.duration_since(p.hi), t.cfg.mult, st.connected);
            } else if n < a {
                o.count("ticks_ping_pending");
                ensure!(lost == 0 && st.connected, "loss-early", "declared lost {:?} after the ping, limit {k:?} × {}", n.saturating_duration_since(p.lo), t.cfg.mult);
            }
            return Ok(());
        }
        ensure!(lost == 0 && st.connected, "loss-without-ping", "declared lost though no ping was unanswered");
        if !t.cfg.auto_keepalive {
            ensure!(pings == 0, "ping-auto-off", "PINGREQ although automatic keep-alive is off");
            return Ok(());
        }
        let Some(s) = f.sent_before else { return Ok(()) };
        if n >= s.hi + k {
            o.count("pings_due");
            if t.server_keep.is_some() {
                o.count("pings_due_by_the_servers_keep_alive");
            }
            ensure!(pings == 1, "ping-missed", "idle for {:?} with keep-alive {k:?}: {pings} pings", n.duration_since(s.hi));
        } else if n < s.lo + k {
            o.count("ticks_not_idle");
            ensure!(pings == 0, "ping-early", "PINGREQ after {:?} idle, keep-alive {k:?}", n.saturating_duration_since(s.lo));
        }
        Ok(())
    }

    fn c14(&mut self, st: &Step, f: &Facts, t: &Tracker, o: &mut Obs) -> Verdict {
        // reconnect deadline, as announced
        for e in &st.evs {
            if let (MqttEvent::ReconnectScheduled { delay, .. }, Act::Tick(n) | Act::Schedule(n)) = (e, &st.act) {
                self.sched = Some(*n + *delay);
            }
        }
        if matches!(st.act, Act::Connect) || f.connack.is_some_and(|c| c.0 == 0) {
            self.sched = None;
        }
        let rt = Duration::from_millis(t.cfg.retrans_ms);
        if let Act::Tick(n) = st.act {
            if !f.was_connected {
                let fired = st.evs.iter().any(|e| matches!(e, MqttEvent::ReconnectNeeded));
                if let Some(d) = self.sched {
                    if n >= d {
                        ensure!(fired, "reconnect-missed", "reconnect due {:?} ago did not fire", n.duration_since(d));
                        self.sched = None;
                        o.count("reconnects_served");
                    }
                }
            } else if t.connected {
                for (pid, w, state) in &f.due_before {
                    let hits: Vec<&Pkt> = st.outs.iter().filter(|p| p.pid == Some(*pid) && (matches!(p.ty, PUBLISH | PUBREL))).collect();
                    if t.cfg.v5 || n < w.lo + rt {
                        ensure!(hits.is_empty(), "early-resend", "identifier {pid} resent {:?} after it was sent (timeout {rt:?}, v5={}): {hits:?}", n.saturating_duration_since(w.lo), t.cfg.v5);
                        o.count("not_yet_due");
                        continue;
                    }
                    if n < w.hi + rt && hits.is_empty() {
                        continue;
                    }
                    ensure!(hits.len() == 1, "resend", "identifier {pid} unacknowledged for {:?} (timeout {rt:?}): resent {} times", n.duration_since(w.lo), hits.len());
                    let p = hits[0];
                    o.count("resends");
                    match (state, t.open.get(pid).and_then(|e| e.spec.as_ref())) {
                        (State::Rel, _) => ensure!(p.ty == PUBREL && p.reason == 0, "resend-content", "identifier {pid} released, resent {p:?}"),
                        (_, Some(s)) => {
                            let same = Tracker::same_publish(p, s, Some(*pid), t.cfg.v5);
                            ensure!(p.ty == PUBLISH && p.dup && same.is_ok(), "resend-content", "resent dup={} {same:?}", p.dup);
                        }
                        _ => {}
                    }
                }
            }
            // progress: the wake-up just served is not asked for again
            let at_once = st.evs.iter().any(|e| matches!(e, MqttEvent::ReconnectScheduled { delay, .. } if delay.is_zero()));
            ensure!(st.next.is_none_or(|x| x > n || x == n && at_once), "spin", "after a tick at its time the next wake-up is {:?} earlier or equal", n.duration_since(st.next.unwrap_or(n)));
            if !st.outs.is_empty() || !st.evs.is_empty() {
                o.count("served_ticks");
            }
        }
        // the next wake-up covers everything that will be due
        let mut due: Option<Instant> = None;
        let k = t.keep();
        if t.connected {
            if !k.is_zero() {
                match (t.ping, t.last_sent) {
                    (Some(p), _) => due = mins(due, Some(p.hi + k * t.cfg.mult)),
                    (None, Some(s)) if t.cfg.auto_keepalive => due = mins(due, Some(s.hi + k)),
                    _ => {}
                }
            }
            if !t.cfg.v5 {
                for (_, e) in t.open.iter().filter(|(_, e)| matches!(e.kind, Kind::Pub(_)) && e.state != State::Queued) {
                    due = mins(due, e.sent.map(|w| w.hi + rt));
                }
            }
        } else {
            due = self.sched;
        }
        if let Some(d) = due {
            o.count("deadlines_covered");
            ensure!(st.next.is_some_and(|x| x <= d), "next-tick-late", "next wake-up {} the earliest deadline (connected={})", st.next.map_or("missing for".into(), |x| format!("{:?} after", x.saturating_duration_since(d))), t.connected);
        }
        Ok(())
    }

    fn c15(&mut self, st: &Step, f: &Facts, t: &Tracker, o: &mut Obs) -> Verdict {
        let mut want: Vec<String> = Vec::new();
        let c = &t.cfg;
        let mut schedule = |m: &mut Mon, at: Instant, want: &mut Vec<String>| {
            if c.attempts > 0 && m.attempts >= c.attempts {
                m.sched = None;
                o.count("refused_at_limit");
                return;
            }
            let d = Duration::from_millis(c.base_ms.saturating_mul(1 << m.attempts.min(10)).min(c.max_ms));
            m.attempts += 1;
            m.sched = Some(at + d);
            want.push(format!("scheduled #{} after {d:?}", m.attempts));
            o.count("schedules");
        };
        match &st.act {
            Act::Schedule(n) => schedule(self, *n, &mut want),
            Act::Connect if !f.was_connected => self.sched = None,
            Act::Tick(n) if f.was_connected && !st.connected => {
                want.push("needed".into());
                schedule(self, *n, &mut want);
            }
            Act::Tick(n) if !f.was_connected && self.sched.is_some_and(|d| d <= *n) => {
                want.push("needed".into());
                self.sched = None;
            }
            _ => {}
        }
        let got: Vec<String> = st
            .evs
            .iter()
            .filter_map(|e| match e {
                MqttEvent::ReconnectNeeded => Some("needed".into()),
                MqttEvent::ReconnectScheduled { attempt, delay } => Some(format!("scheduled #{attempt} after {delay:?}")),
                _ => None,
            })
            .collect();
        o.add("requests", got.iter().filter(|x| *x == "needed").count() as u64);
        ensure!(got == want, "backoff", "reconnect events {got:?}, due {want:?} (base {} ms, max {} ms, limit {})", c.base_ms, c.max_ms, c.attempts);
        if let Some((code, _)) = f.connack {
            if code == 0 {
                self.attempts = 0;
                self.sched = None;
                o.count("resets");
            } else {
                o.count("refusals");
            }
        }
        if !t.connected {
            ensure!(st.next == self.sched, "deadline", "next wake-up while disconnected is off the schedule: {:?} against {:?}", st.next, self.sched);
        }
        Ok(())
    }

    fn c16(&mut self, st: &Step, f: &Facts, t: &Tracker, o: &mut Obs) -> Verdict {
        let dups: Vec<&Pkt> = st.outs.iter().filter(|p| p.ty == PUBLISH && p.dup).collect();
        let rels: Vec<u16> = st.outs.iter().filter(|p| p.ty == PUBREL).map(|p| p.pid.unwrap_or(0)).collect();
        let Some(l) = &f.resume else {
            ensure!(dups.is_empty(), "resend", "PUBLISH resent without a resumed session: {dups:?}");
            if f.connack.is_some() {
                let extra: Vec<&Pkt> = st.outs.iter().filter(|p| matches!(p.ty, SUBSCRIBE | UNSUBSCRIBE)).collect();
                ensure!(rels == f.pubrels && extra.is_empty(), "resend", "resent without a resumed session: PUBREL {rels:?}, {extra:?}");
                o.count("fresh_sessions");
                self.resent.clear();
            }
            // completions of what was resent
            for d in &f.completions {
                if self.resent.remove(&d.pid) {
                    o.count("completed_after_resume");
                    ensure!(published(&st.evs).contains(d), "completion", "the resent exchange {} was acknowledged but not reported: {d:?}", d.pid);
                }
            }
            return Ok(());
        };
        o.count("resumptions");
        if l.len() > 1 {
            o.count("resumptions_of_several");
        }
        if l.len() > t.cfg.max_out {
            o.count("resumptions_beyond_the_limit");
        }
        let pubs: Vec<&(u16, Ex)> = l.iter().filter(|x| matches!(x.1.kind, Kind::Pub(_)) && x.1.state == State::Sent).collect();
        let want_rels: Vec<u16> = l.iter().filter(|x| x.1.state == State::Rel).map(|x| x.0).collect();
        o.add("resent_publishes", pubs.len() as u64);
        o.add("resent_pubrels", want_rels.len() as u64);
        let got: Vec<u16> = dups.iter().map(|p| p.pid.unwrap_or(0)).collect();
        let want: Vec<u16> = pubs.iter().map(|x| x.0).collect();
        ensure!(got == want, "resume-publishes", "resent PUBLISH {got:?}, unacknowledged in order {want:?}");
        for (p, x) in dups.iter().zip(&pubs) {
            if let Some(s) = &x.1.spec {
                let same = Tracker::same_publish(p, s, Some(x.0), t.cfg.v5);
                ensure!(same.is_ok(), "resume-content", "{}", same.unwrap_err());
            }
        }
        let mut wr = want_rels.clone();
        wr.extend(&f.pubrels);
        ensure!(rels == wr, "resume-pubrels", "sent PUBREL {rels:?}, unacknowledged in order {want_rels:?}, then {:?}", f.pubrels);
        // before anything new
        let first_new = st.outs.iter().position(|p| p.ty == PUBLISH && !p.dup);
        let last_old = st.outs.iter().rposition(|p| p.ty == PUBLISH && p.dup);
        if let (Some(a), Some(b)) = (first_new, last_old) {
            ensure!(b < a, "resume-late", "a new PUBLISH went out before the resent ones");
            o.count("resumptions_with_waiting");
        }
        for p in st.outs.iter().filter(|p| matches!(p.ty, SUBSCRIBE | UNSUBSCRIBE)) {
            let open = l.iter().any(|x| Some(x.0) == p.pid && matches!((x.1.kind, p.ty), (Kind::Sub, SUBSCRIBE) | (Kind::Unsub, UNSUBSCRIBE)));
            ensure!(open, "resume-sub", "resent {p:?}, which is not open");
        }
        self.resent = l.iter().filter(|x| matches!(x.1.kind, Kind::Pub(_))).map(|x| x.0).collect();
        for d in &f.completions {
            self.resent.remove(&d.pid);
        }
        Ok(())
    }

    fn c20(&mut self, st: &Step, f: &Facts, t: &Tracker, o: &mut Obs) -> Verdict {
        let v5 = t.cfg.v5;
        let req: Vec<&Pkt> = st.outs.iter().filter(|p| matches!(p.ty, SUBSCRIBE | UNSUBSCRIBE)).collect();
        match &st.act {
            Act::Subscribe(fl, ps, Ok(pid)) => {
                let mut w = Pkt::new(v5, SUBSCRIBE);
                w.pid = Some(*pid);
                w.filters = fl.iter().map(|(a, b)| (a.clone(), if v5 { *b } else { b & 3 })).collect();
                w.props = if v5 { ps.clone() } else { vec![] };
                o.count("subscribes");
                ensure!(req == [&w], "request", "sent {req:?}, asked {w:?}");
            }
            Act::Unsubscribe(fl, ps, Ok(pid)) => {
                let mut w = Pkt::new(v5, UNSUBSCRIBE);
                w.pid = Some(*pid);
                w.filters = fl.iter().map(|a| (a.clone(), 0)).collect();
                w.props = if v5 { ps.clone() } else { vec![] };
                o.count("unsubscribes");
                ensure!(req == [&w], "request", "sent {req:?}, asked {w:?}");
            }
            Act::Subscribe(..) | Act::Unsubscribe(..) => ensure!(req.is_empty(), "request", "refused, yet sent {req:?}"),
            Act::Tick(_) => {}
            _ if f.resume.is_some() => {}
            _ => ensure!(req.is_empty(), "request", "sent {req:?} unasked"),
        }
        // results: one event per acknowledgement of an open request
        let mut got: BTreeMap<(bool, u16), Vec<(Vec<u8>, Vec<P>)>> = BTreeMap::new();
        for e in &st.evs {
            match e {
                MqttEvent::Subscribed(r) => got.entry((false, r.packet_id)).or_default().push((r.reason_codes.clone(), conv::props_to_model(&r.properties))),
                MqttEvent::Unsubscribed(r) => got.entry((true, r.packet_id)).or_default().push((r.reason_codes.clone(), conv::props_to_model(&r.properties))),
                _ => {}
            }
        }
        let acks = f.subs.len();
        for s in &f.subs {
            let n = f.subs.iter().filter(|x| x.pid == s.pid && x.unsub == s.unsub).count();
            let here = got.get(&(s.unsub, s.pid)).cloned().unwrap_or_default();
            if s.matched {
                o.count("results");
                ensure!(here.contains(&(s.codes.clone(), s.props.clone())) && (n > 1 || here.len() == 1), "result", "acknowledged with {:?} {:?}, reported {here:?}", s.codes, s.props);
            }
            ensure!(here.len() <= n, "result-count", "{n} acknowledgements for {}, reported {here:?}", s.pid);
        }
        let total: usize = got.values().map(|v| v.len()).sum();
        ensure!(total <= acks, "result-unasked", "{total} results reported, {acks} acknowledgements received");
        for k in got.keys() {
            ensure!(f.subs.iter().any(|s| (s.unsub, s.pid) == *k), "result-unasked", "result for {k:?} without acknowledgement");
        }
        Ok(())
    }
}

impl<'a> D<'a> {
    pub fn new(prop: &'static str, cfg: Cfg, w: W, o: &'a mut Obs) -> D<'a> {
        D { s: Sim::new(cfg.clone()), t: Tracker::new(cfg), m: Mon::new(prop), o, w, shape: Vec::new(), connack_put: false, ever: false, ahead: false, hold_sends: false }
    }

    pub fn go(&mut self, act: Act) -> Verdict {
        let was = self.t.connected;
        if matches!(act, Act::Connect) {
            self.ever = true;
        }
        self.s.run(act)?;
        let st = self.s.steps.last().unwrap();
        let f = self.t.apply(st);
        let tag = match &st.act {
            Act::Connect => 1,
            Act::Publish(p, _) => 2 + p.qos,
            Act::Subscribe(..) => 5,
            Act::Unsubscribe(..) => 6,
            Act::Ping => 7,
            Act::Disconnect => 8,
            Act::Lost => 9,
            Act::Schedule(_) => 10,
            Act::Feed(_) => 11,
            Act::Tick(_) => 12,
            Act::Sleep(_) => 13,
        };
        self.shape.push(tag);
        for p in st.ins.iter().chain(&st.outs) {
            self.shape.extend([p.ty << 4 | (p.dup as u8) << 3 | p.qos << 1, p.pid.unwrap_or(0) as u8, p.reason]);
        }
        if let Act::Tick(t) = st.act {
            self.ahead |= t > st.t1;
        }
        if f.connack.is_some() {
            self.ahead = false;
        }
        self.o.count("steps");
        self.o.add("packets_in", st.ins.len() as u64);
        self.o.add("packets_out", st.outs.len() as u64);
        let r = self.m.check(st, &f, &self.t, self.o);
        if let Err(mut v) = r {
            v.detail = format!("{}\n{}", v.detail, self.s.trace(25));
            return Err(v);
        }
        // the tracker must agree with the engine on this, or the verdicts mean nothing
        let st = self.s.steps.last().unwrap();
        if st.connected != self.t.connected {
            return fail("connected", format!("is_connected() is {}, the history says {}\n{}", st.connected, self.t.connected, self.s.trace(12)));
        }
        if was && !self.t.connected || matches!(st.act, Act::Lost | Act::Disconnect) {
            self.s.drop_wire();
            self.connack_put = false;
        }
        Ok(())
    }

    pub fn put_connack(&mut self, r: &mut Rng, code: u8, session: bool) {
        let rm = match r.below(4) {
            0 => Some(*r.pick(&[1u16, 1, 2, 3, 5, 20, 65535])),
            _ => None,
        };
        let rm = if self.t.cfg.rm < 100 { rm } else { rm.filter(|_| r.chance(1, 3)) };
        let mut p = self.s.connack(code, session && code == 0, rm);
        if self.s.cfg.v5 && r.chance(1, 4) {
            // Receive Maximum is decided above, the keep-alive below
            p.props.extend(self.s.g.props(r, CONNACK).into_iter().filter(|q| q.id() != 0x21 && q.id() != 0x13));
        }
        if self.s.cfg.v5 && r.chance(1, 4) {
            let at = r.below(p.props.len() + 1);
            p.props.insert(at, P::U16(0x13, *r.pick(&[0u16, 1, 2, 5, 60, 1000, 65535])));
        }
        if code == 0 && !p.session_present {
            self.s.broker.sent.clear();
        }
        self.s.put(p, 0);
        self.connack_put = true;
    }

    fn reply(&mut self, r: &mut Rng, i: usize, honest: bool) {
        let mut p = self.s.broker.owed.remove(i);
        let v5 = self.s.cfg.v5;
        if v5 && matches!(p.ty, PUBACK | PUBREC | PUBCOMP | SUBACK | UNSUBACK) && !honest {
            if r.chance(1, 3) {
                p.props = self.s.g.props(r, p.ty);
            }
            if matches!(p.ty, PUBACK | PUBREC) && r.chance(1, 5) || p.ty == PUBCOMP && r.chance(1, 8) {
                p.reason = self.s.g.reason(r, p.ty);
            }
        }
        if p.ty == SUBACK && !honest {
            p.codes = p.codes.iter().map(|c| if r.chance(1, 3) { *r.pick(if v5 { &[0u8, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x97, 0x9e, 0xa1][..] } else { &[0u8, 1, 2, 0x80][..] }) } else { *c }).collect();
        }
        if p.ty == UNSUBACK && v5 && !honest {
            p.codes = p.codes.iter().map(|_| *r.pick(&[0u8, 0x11, 0x80, 0x83, 0x87])).collect();
        }
        if !honest && r.chance(1, 12) {
            self.s.broker.owed.push(p.clone());
        }
        let form = r.below(3) as u8;
        self.s.put(p, form);
    }

    fn rogue(&mut self, r: &mut Rng) {
        let v5 = self.s.cfg.v5;
        let ty = *r.pick(&[PUBACK, PUBACK, PUBREC, PUBREC, PUBCOMP, PUBCOMP, SUBACK, UNSUBACK, PINGRESP]);
        let keys: Vec<u16> = self.t.open.keys().copied().collect();
        let pid = if !keys.is_empty() && r.chance(3, 4) { *r.pick(&keys) } else { r.range(1, 40) as u16 };
        let mut p = Pkt::ack(v5, ty, pid, 0);
        match ty {
            PINGRESP => p.pid = None,
            SUBACK => p.codes = vec![0],
            UNSUBACK if v5 => p.codes = vec![0],
            _ => {}
        }
        if v5 && matches!(ty, PUBACK | PUBREC) && r.chance(1, 4) {
            p.reason = 0x80;
        }
        self.s.put(p, 0);
    }

    fn deliver(&mut self, r: &mut Rng) {
        let v5 = self.s.cfg.v5;
        let pend: Vec<u16> = self.s.broker.sent.keys().copied().collect();
        if !pend.is_empty() && r.chance(2, 3) {
            let pid = *r.pick(&pend);
            let (p, state) = self.s.broker.sent[&pid].clone();
            if p.qos == 2 && state >= 1 && r.chance(5, 6) {
                self.s.broker.sent.get_mut(&pid).unwrap().1 = 2;
                self.s.put(Pkt::ack(v5, PUBREL, pid, 0), r.below(3) as u8);
                return;
            }
            if state < 2 && r.chance(1, 2) {
                let mut p = p;
                p.dup = true;
                self.s.put(p, 0);
                return;
            }
        }
        if r.chance(1, 30) {
            let pid = r.range(1, 30) as u16;
            if !self.s.broker.sent.contains_key(&pid) {
                self.s.put(Pkt::ack(v5, PUBREL, pid, if v5 && r.bool() { 0x92 } else { 0 }), 0);
                return;
            }
        }
        let mut p = self.s.g.packet(r, v5, PUBLISH);
        p.dup = p.dup && p.qos > 0;
        if p.qos > 0 {
            let free: Vec<u16> = (1..=25u16).chain([255, 256, 65535]).filter(|i| !self.s.broker.sent.contains_key(i)).collect();
            if free.is_empty() {
                return;
            }
            let pid = *r.pick(&free);
            p.pid = Some(pid);
            self.s.broker.sent.insert(pid, (p.clone(), 0));
        }
        self.s.put(p, 0);
    }

    fn feed(&mut self, r: &mut Rng) -> Verdict {
        let n = self.s.wire.len();
        // bytes that follow a CONNACK within one read are legal; most reads stop before
        let k = match r.below(4) {
            0 => r.range(0, n.min(7)),
            1 => r.range(0, n),
            _ => n,
        };
        self.go(Act::Feed(k))
    }

    fn publish(&mut self, r: &mut Rng) -> Verdict {
        let q = self.w.qos;
        let x = r.below(q[0] + q[1] + q[2]);
        let qos = if x < q[0] { 0 } else if x < q[0] + q[1] { 1 } else { 2 };
        if qos > 0 && !self.ever || self.t.waiting.len() > 900 {
            return Ok(());
        }
        let mut s = self.s.spec(r, qos);
        if qos > 0 && r.chance(1, 25) {
            let p = r.range(1, 60) as u16;
            if !self.t.open.contains_key(&p) {
                s.pid = Some(p);
            }
        }
        let prefixed = s.pid;
        self.go(Act::Publish(s, Ok(None)))?;
        if let Act::Publish(s, res) = &self.s.steps.last().unwrap().act {
            let ok = match res {
                Ok(None) => s.qos == 0,
                Ok(Some(p)) => s.qos > 0 && (prefixed.is_none() || prefixed == Some(*p)),
                Err(_) => false,
            };
            ensure!(ok, "publish-refused", "publish QoS {} with identifier {prefixed:?} returned {res:?}\n{}", s.qos, self.s.trace(10));
        }
        Ok(())
    }

    fn subscribe(&mut self, r: &mut Rng) -> Verdict {
        let v5 = self.s.cfg.v5;
        if r.chance(2, 3) {
            let mut p = self.s.g.packet(r, v5, SUBSCRIBE);
            if !v5 {
                p.props.clear();
            }
            self.go(Act::Subscribe(p.filters, p.props, Ok(0)))
        } else {
            let p = self.s.g.packet(r, v5, UNSUBSCRIBE);
            self.go(Act::Unsubscribe(p.filters.into_iter().map(|f| f.0).collect(), p.props, Ok(0)))
        }
    }

    /// A tick time worth trying: around the announced wake-up, around the keep-alive, anywhere.
    fn tick_time(&mut self, r: &mut Rng) -> Instant {
        let ms = Duration::from_millis;
        let next = self.s.steps.last().and_then(|s| s.next);
        let base = self.s.vt.max(Instant::now());
        match (r.below(10), next) {
            (0..=2, Some(n)) => n,
            (3, Some(n)) => n.checked_sub(ms(1)).unwrap_or(n),
            (4, Some(n)) => n + ms(r.range(0, 3) as u64),
            (5, _) => base + self.t.keep() * r.below(4) as u32,
            (6, _) => base + self.t.keep() / 2,
            (7, _) => base,
            (8, _) => base + ms(r.range(1, 100_000) as u64),
            _ => base + ms(r.range(1, 100) as u64),
        }
    }

    fn tick(&mut self, r: &mut Rng) -> Verdict {
        if self.hold_sends && !self.s.wire.is_empty() {
            // a PUBREC read after the clock ran ahead would send a PUBREL in the past
            return self.go(Act::Feed(self.s.wire.len()));
        }
        let t = self.tick_time(r);
        self.go(Act::Tick(t))
    }

    pub fn step(&mut self, r: &mut Rng) -> Verdict {
        let w = self.w.clone();
        if !self.t.connected {
            if !self.s.broker.got_connect {
                let tk = w.tick.min(3);
                let x = r.below(8 + tk + w.sched);
                return if x < 3 {
                    self.publish(r)
                } else if x < 8 {
                    self.go(Act::Connect)
                } else if x < 8 + tk {
                    self.tick(r)
                } else if !self.s.cfg.noio {
                    let t = self.s.vt.max(Instant::now());
                    self.go(Act::Schedule(t))
                } else {
                    Ok(())
                };
            }
            if !self.connack_put {
                match r.below(12) {
                    0 | 1 => return self.publish(r),
                    2 if w.lost > 0 => return self.go(Act::Lost),
                    3 if w.tick > 3 => return self.tick(r),
                    _ => {}
                }
                let code = if r.chance(w.refuse.0, w.refuse.1) {
                    if self.s.cfg.v5 {
                        *r.pick(&[0x80u8, 0x85, 0x87, 0x89, 0x97])
                    } else {
                        r.range(1, 5) as u8
                    }
                } else {
                    0
                };
                let session = r.chance(w.session.0, w.session.1);
                self.put_connack(r, code, session);
                if r.chance(1, 4) && code == 0 {
                    for _ in 0..r.below(3) {
                        self.deliver(r);
                    }
                } else {
                    // on its own, in one or two pieces
                    let n = self.s.wire.len();
                    if r.chance(1, 3) {
                        let k = r.below(n);
                        self.go(Act::Feed(k))?;
                        if self.t.connected {
                            return Ok(());
                        }
                    }
                    let n = self.s.wire.len();
                    self.go(Act::Feed(n))?;
                }
                if code != 0 {
                    // refused: the network connection is over
                    self.go(Act::Lost)?;
                }
                return Ok(());
            }
            return self.feed(r);
        }
        let hold = self.hold_sends && self.ahead;
        let ws = [if hold { 0 } else { w.publish }, if hold { 0 } else { w.sub }, if hold { 0 } else { w.ping }, w.tick, w.reply, w.feed, w.deliver, w.rogue, w.lost, w.bye, w.sleep];
        let mut x = r.below(ws.iter().sum());
        let mut i = 0;
        while x >= ws[i] {
            x -= ws[i];
            i += 1;
        }
        match i {
            0 => self.publish(r),
            1 => self.subscribe(r),
            2 => self.go(Act::Ping),
            3 => self.tick(r),
            4 => {
                for _ in 0..r.range(1, 3) {
                    let cand: Vec<usize> = (0..self.s.broker.owed.len()).filter(|i| !(hold && self.s.broker.owed[*i].ty == PUBREC)).collect();
                    if !cand.is_empty() {
                        let i = if r.chance(3, 5) { cand[0] } else { *r.pick(&cand) };
                        self.reply(r, i, false);
                    }
                }
                Ok(())
            }
            5 => {
                if self.s.wire.is_empty() {
                    Ok(())
                } else {
                    self.feed(r)
                }
            }
            6 => {
                self.deliver(r);
                Ok(())
            }
            7 => {
                self.rogue(r);
                Ok(())
            }
            8 => self.go(Act::Lost),
            9 => {
                if self.s.cfg.v5 && r.bool() {
                    let mut p = Pkt::new(true, DISCONNECT);
                    p.reason = *r.pick(&[0u8, 0x8b, 0x8d, 0x98]);
                    self.s.put(p, 0);
                    let n = self.s.wire.len();
                    self.go(Act::Feed(n))
                } else {
                    self.go(Act::Disconnect)
                }
            }
            _ => {
                let ms = r.range(1, 30) as u64;
                self.go(Act::Sleep(ms))?;
                self.go(Act::Tick(Instant::now()))
            }
        }
    }

    /// A well-behaved broker from here on: everything is answered, nothing is lost.
    pub fn finish(&mut self, r: &mut Rng) -> Verdict {
        for _ in 0..3000 {
            if self.t.connected && self.t.open.values().any(|e| e.stale) {
                self.go(Act::Lost)?;
            }
            if !self.t.connected {
                if !self.s.broker.got_connect {
                    self.s.drop_wire();
                    self.connack_put = false;
                    self.go(Act::Connect)?;
                    continue;
                }
                if !self.connack_put {
                    self.put_connack(r, 0, true);
                }
                let n = self.s.wire.len();
                self.go(Act::Feed(n))?;
                if !self.t.connected {
                    self.go(Act::Lost)?;
                }
                continue;
            }
            if self.s.broker.owed.is_empty() && self.s.wire.is_empty() {
                break;
            }
            while !self.s.broker.owed.is_empty() {
                self.reply(r, 0, true);
            }
            let n = self.s.wire.len();
            self.go(Act::Feed(n))?;
        }
        let open: Vec<_> = self.t.open.iter().filter(|(_, e)| matches!(e.kind, Kind::Pub(_))).map(|(p, e)| (*p, e.state)).collect();
        match self.m.prop {
            "C11" | "C10" => ensure!(self.t.waiting.is_empty(), "never-sent", "{} accepted publishes were never sent although everything sent was acknowledged\n{}", self.t.waiting.len(), self.s.trace(25)),
            "C16" => ensure!(self.t.waiting.len() >= open.len(), "never-completed", "sent publishes {open:?} stayed open although the broker answered everything it received\n{}", self.s.trace(25)),
            _ => {}
        }
        Ok(())
    }
}

fn config(prop: &str, r: &mut Rng) -> (Cfg, W) {
    let mut c = Cfg { v5: r.bool(), noio: r.chance(1, 3), keep_alive: *r.pick(&[60u16, 60, 10, 0]), ..Default::default() };
    c.level3 = r.chance(1, 6);
    c.auto_ack = !r.chance(1, 8);
    let mut w = BASE;
    match prop {
        "C08" | "C09" => {
            w.rogue = 3;
            c.rm = *r.pick(&[65535u16, 65535, 0, 1, 2, 4]);
            w.bye = r.chance(1, 6) as usize;
        }
        "C10" => {
            c.rm = *r.pick(&[1u16, 1, 2, 3, 8, 0, 65535]);
            w.rogue = 2;
            w.publish = 12;
            w.session = (7, 8);
        }
        "C11" => {
            c.rm = *r.pick(&[1u16, 2, 3, 10, 65535]);
            w.publish = 20;
            w.qos = [2, 3, 2];
        }
        "C12" => {
            w.deliver = 14;
            w.publish = 2;
            c.auto_ack = !r.chance(1, 4);
        }
        "C13" => {
            c.keep_alive = *r.pick(&[0u16, 1, 2, 5, 60, 60, 1000, 65535]);
            c.mult = *r.pick(&[1u32, 2, 2, 3, 10]);
            c.auto_keepalive = !r.chance(1, 6);
            w = W { tick: 14, ping: 2, publish: 3, reply: 4, feed: 6, ..w };
        }
        "C14" => {
            c.keep_alive = *r.pick(&[0u16, 1, 2, 5, 60, 60, 1000]);
            c.mult = *r.pick(&[1u32, 2, 3]);
            c.auto_keepalive = !r.chance(1, 6);
            c.retrans_ms = *r.pick(&[200u64, 1000, 5000, 20_000, 1_000_000_000]);
            c.base_ms = *r.pick(&[0u64, 1, 100, 1000]);
            w = W { tick: 14, ping: 2, publish: 6, reply: 4, feed: 6, rogue: 0, deliver: 1, sched: 2, ..w };
        }
        "C15" => {
            c.keep_alive = *r.pick(&[1u16, 5, 60]);
            c.base_ms = *r.pick(&[0u64, 1, 7, 100, 1000, 5000, 1 << 40]);
            c.max_ms = *r.pick(&[0u64, 1, 1000, 60_000, 1 << 41, 1_000_000]);
            c.attempts = *r.pick(&[0u32, 0, 1, 2, 3, 5, 20]);
            w = W { tick: 20, ping: 3, publish: 1, lost: 4, sched: 12, refuse: (3, 5), feed: 5, reply: 2, bye: 1, deliver: 0, ..w };
        }
        "C16" => {
            w.lost = 2;
            w.session = (5, 6);
            w.tick = 0;
            c.rm = *r.pick(&[65535u16, 65535, 65535, 3, 8]);
            c.noio = r.chance(1, 3);
            c.max_out = *r.pick(&[100_000usize, 100_000, 1, 2, 5]);
        }
        "C20" => {
            w.sub = 10;
            w.rogue = 2;
        }
        _ => {}
    }
    (c, w)
}

fn history(prop: &'static str, r: &mut Rng, o: &mut Obs, max_steps: usize) -> Verdict {
    let (cfg, w) = config(prop, r);
    let v5 = cfg.v5;
    let mut d = D::new(prop, cfg, w, o);
    d.hold_sends = prop == "C14" && !v5;
    if d.hold_sends {
        d.w.session = (1, 1);
        d.w.publish = 10;
    }
    if prop == "C11" && r.bool() {
        // a backlog before the connection exists
        d.go(Act::Connect)?;
        for _ in 0..r.range(2, 60) {
            d.publish(r)?;
        }
    }
    let n = r.range(10, max_steps);
    for _ in 0..n {
        d.step(r)?;
    }
    if matches!(prop, "C08" | "C10" | "C11" | "C16") {
        d.finish(r)?;
    }
    let key = hash64(&d.shape);
    let (done, acc) = (d.t.completed, d.t.accepted);
    if prop == "C08" && d.o.sample.is_none() {
        d.o.sample = Some(short(&d.s.trace(6), 900));
    }
    let waited = d.t.queue_peak as u64;
    let o = d.o;
    o.add("accepted_publishes", acc);
    o.add("tracked_completions", done);
    if waited > 5 {
        o.count("histories_with_backlog");
    }
    o.case(key);
    Ok(())
}

pub fn generic(prop: &'static str) {
    let mut run = Run::new(prop, "a history of at least 10 steps, identified by the sequence of its actions and packets");
    let q = run.scale(25, 500) as f64;
    run.assume("the checker's independent codec reads the engine's output correctly");
    let needs: &[(&str, u64)] = match prop {
        "C08" => &[("completions", 20_000), ("pubrels", 5_000), ("unmatched_acks", 5_000), ("failed_completions", 500)],
        "C09" => &[("allocations", 400_000), ("wraps", 2)],
        "C10" => &[("at_limit", 2_000), ("held_back", 2_000)],
        "C11" => &[("sent", 20_000), ("ordered_batches", 500), ("histories_with_backlog", 200), ("unsendable", 2_000), ("sendable_among_them", 5_000), ("publishes_beyond_capacity", 1_000)],
        "C12" => &[("deliveries", 20_000), ("acks", 10_000), ("releases", 2_000), ("duplicates_suppressed", 300), ("manual_deliveries", 500)],
        "C13" => &[("pings_due", 1_000), ("losses", 300), ("ticks_ping_pending", 1_000), ("ticks_not_idle", 1_000), ("ticks_without_keep_alive", 100), ("pings_due_by_the_servers_keep_alive", 200)],
        "C14" => &[("resends", 1_000), ("not_yet_due", 1_000), ("reconnects_served", 50), ("deadlines_covered", 10_000), ("served_ticks", 1_000)],
        "C15" => &[("schedules", 2_000), ("requests", 1_000), ("resets", 500), ("refusals", 500), ("refused_at_limit", 100)],
        "C16" => &[("resumptions", 1_000), ("resumptions_of_several", 500), ("resumptions_beyond_the_limit", 1_000), ("resent_publishes", 1_000), ("resent_pubrels", 300), ("fresh_sessions", 300), ("completed_after_resume", 500)],
        "C20" => &[("subscribes", 2_000), ("unsubscribes", 1_000), ("results", 2_000)],
        _ => &[],
    };
    for (k, n) in needs {
        run.need(k, *n);
    }
    let n = run.scale(50_000, 1_200_000);
    run.cases("histories", n, q, |i, r, o| {
        let len = if i % 10 == 0 { 400 } else { 120 };
        history(prop, r, o, len)
    });
    match prop {
        "C09" => c09_wrap(&run),
        "C10" => c10_probe(&run),
        "C11" => {
            c11_backlog(&run);
            c11_beyond(&run);
            c11_unsendable(&run);
        }
        "C14" => c14_real(&run),
        _ => {}
    }
    run.finish()
}

/// A connected driver.
fn up<'a>(prop: &'static str, cfg: Cfg, w: W, o: &'a mut Obs, r: &mut Rng) -> Result<D<'a>, Violation> {
    let mut d = D::new(prop, cfg, w, o);
    d.go(Act::Connect)?;
    let p = d.s.connack(0, false, None);
    d.s.put(p, 0);
    d.connack_put = true;
    let n = d.s.wire.len();
    d.go(Act::Feed(n))?;
    let _ = r;
    Ok(d)
}

/// The identifier counter goes round while exchanges of every kind stay open.
fn c09_wrap(run: &Run) {
    run.cases("wrap", run.scale(8, 40), run.scale(60, 300) as f64, |i, r, o| {
        let v5 = i % 2 == 0;
        let cfg = Cfg { v5, rm: if i % 4 < 2 { 65535 } else { 60 }, noio: i % 3 == 0, ..Default::default() };
        let queue_held = i % 4 >= 2;
        let mut d = up("C09", cfg, BASE, o, r)?;
        d.s.g = Gen { small: 2, big_every: 1_000_000 };
        let mut last = 0u16;
        let mut wraps = 0;
        let hold = r.range(5, 50);
        let mut held = 0;
        for k in 0..r.range(66_000, 140_000) {
            let keep = held < hold && r.chance(1, 500);
            let qos = if keep { r.range(1, 2) as u8 } else { 1 };
            if keep && r.chance(1, 3) {
                held += 1;
                d.subscribe(r)?;
                continue;
            }
            if queue_held && k == 300 {
                // fill the quota, so that some identifiers wait in the queue
                for _ in 0..80 {
                    let s = d.s.spec(r, 1);
                    d.go(Act::Publish(s, Ok(None)))?;
                }
            }
            let full = d.t.unacked() >= d.t.limit;
            let act = if full { Act::Unsubscribe(vec!["a".into()], vec![], Ok(0)) } else { Act::Publish(PubSpec { topic: "t".into(), payload: vec![k as u8], qos, retain: false, props: vec![], prio: 128, pid: None }, Ok(None)) };
            d.go(act)?;
            let pid = match &d.s.steps.last().unwrap().act {
                Act::Publish(_, Ok(Some(p))) | Act::Unsubscribe(_, _, Ok(p)) => *p,
                a => return fail("refused", format!("{a:?} with {} exchanges open", d.t.open.len())),
            };
            if pid < last {
                wraps += 1;
            }
            last = pid;
            if keep {
                held += 1;
            } else {
                let mut a = Pkt::ack(v5, if full { UNSUBACK } else { PUBACK }, pid, 0);
                if full && v5 {
                    a.codes = vec![0];
                }
                d.s.put(a, 0);
                let n = d.s.wire.len();
                d.go(Act::Feed(n))?;
            }
            d.s.broker.owed.clear();
            if d.s.steps.len() > 300 {
                d.s.steps.drain(..250);
            }
        }
        d.o.add("wraps", wraps);
        let n = d.t.open.len() as u64;
        let o = d.o;
        o.add("held_open_through_wrap", n);
        o.case(i ^ n << 32);
        Ok(())
    });
    run.cases("exhaustion", 4, 120.0, |i, r, o| {
        let v5 = i % 2 == 0;
        let cfg = Cfg { v5, noio: i >= 2, rm: 0, ..Default::default() };
        let mut f = cfg.front();
        f.connect();
        f.out();
        f.feed(&encode(&Pkt::new(v5, CONNACK)));
        let spec = |k: usize| PubSpec { topic: "t".into(), payload: vec![k as u8], qos: 1, retain: false, props: vec![], prio: 128, pid: None };
        let mut seen = HashSet::new();
        for k in 0..65535 {
            let p = match f.publish(spec(k).cmd()) {
                Ok(Some(p)) => p,
                e => return fail("refused", format!("publish {k} returned {e:?} with {} identifiers in use", seen.len())),
            };
            ensure!(p != 0 && seen.insert(p), "reused", "identifier {p} assigned twice among {k} open exchanges");
            if k % 1000 == 0 {
                f.out();
            }
        }
        f.out();
        o.add("allocations", 65535);
        let e = f.publish(spec(0).cmd());
        ensure!(e.is_err(), "reused", "all 65535 identifiers in use, publish returned {e:?}");
        let e = f.subscribe(flowsdk::mqtt_client::commands::SubscribeCommand::new(None, subs_from(&[("a".into(), 0)]), vec![]));
        ensure!(e.is_err(), "reused", "all 65535 identifiers in use, subscribe returned {e:?}");
        for _ in 0..20 {
            let x = r.range(1, 65535) as u16;
            f.feed(&encode(&Pkt::ack(v5, PUBACK, x, 0)));
            match f.publish(spec(1).cmd()) {
                Ok(Some(p)) => ensure!(p == x, "reused", "only {x} is free, {p} assigned"),
                e => return fail("refused", format!("{x} is free, publish returned {e:?}")),
            }
            f.out();
        }
        o.count("exhaustions");
        o.case(i);
        Ok(())
    });
}

/// Quota held for a session the broker has dropped.
fn c10_probe(run: &Run) {
    run.probe(|o| {
        let cfg = Cfg { rm: 1, ..Default::default() };
        let mut f = cfg.front();
        let spec = || PubSpec { topic: "t".into(), payload: vec![1], qos: 1, retain: false, props: vec![], prio: 128, pid: None };
        f.connect();
        f.feed(&encode(&Pkt::new(true, CONNACK)));
        f.out();
        let a = f.publish(spec().cmd());
        f.out();
        f.lost();
        f.connect();
        f.feed(&encode(&Pkt::new(true, CONNACK)));
        f.out();
        let b = f.publish(spec().cmd());
        let sent = decode_all(&f.out(), true).map(|x| x.0).unwrap_or_default();
        o.count("lost_session_probe");
        ensure!(
            sent.iter().any(|p| p.ty == PUBLISH),
            "lost-session-quota",
            "MQTT 5, Receive Maximum 1: a QoS 1 publish ({a:?}) was in flight when the connection was lost; the broker answers the next CONNECT with session present 0; a further publish ({b:?}) is never sent, because the old one still holds the quota and nothing can acknowledge it"
        );
        Ok(())
    });
}

/// The queue at its documented size, drained under a small quota.
fn c11_backlog(run: &Run) {
    run.cases("backlog", run.scale(60, 400), run.scale(40, 200) as f64, |_, r, o| {
        let (mut cfg, w) = config("C11", r);
        cfg.rm = *r.pick(&[1u16, 5, 50, 65535]);
        let mut d = D::new("C11", cfg, w, o);
        d.go(Act::Connect)?;
        let n = r.range(600, 1000);
        while d.t.waiting.len() < n {
            let qos = r.below(3) as u8;
            let s = d.s.spec(r, qos);
            d.go(Act::Publish(s, Ok(None)))?;
        }
        d.finish(r)?;
        let k = hash64(&d.shape);
        let o = d.o;
        o.add("backlog_publishes", n as u64);
        o.count("histories_with_backlog");
        o.case(k);
        Ok(())
    });
}

/// More publishes than may wait: each is either refused or sent, none is dropped.
fn c11_beyond(run: &Run) {
    run.cases("beyond", run.scale(60, 600), run.scale(20, 200) as f64, |_, r, o| {
        let cfg = Cfg { v5: r.bool(), noio: r.bool(), rm: *r.pick(&[1u16, 3, 50, 65535]), max_out: *r.pick(&[1usize, 4, 1000]), ..Default::default() };
        let v5 = cfg.v5;
        let mut s = Sim::new(cfg.clone());
        s.g.big_every = 1_000_000;
        let mut f = cfg.front();
        let online = r.bool();
        f.connect();
        f.out();
        if online {
            f.feed(&encode(&Pkt::new(v5, CONNACK)));
        }
        let mut want: Vec<(PubSpec, Option<u16>)> = vec![];
        let mut sent: Vec<Pkt> = vec![];
        let mut refused = 0u64;
        let mut accepted = online;
        let mut rounds = r.range(1, 3);
        let mut more = r.range(1001, 1400);
        let top = r.bool();
        loop {
            for _ in 0..more {
                let qos = r.below(3) as u8;
                let mut spec = s.spec(r, qos);
                // the last ones are often the most urgent
                if top && want.len() > 900 {
                    spec.prio = 255;
                }
                let waiting = want.len() - sent.len();
                match f.publish(spec.cmd()) {
                    Ok(pid) => want.push((spec, pid)),
                    Err(e) => {
                        refused += 1;
                        ensure!(waiting >= 1000, "publish-refused", "refused with {waiting} waiting: {e:?}; {cfg:?}");
                    }
                }
            }
            if !std::mem::replace(&mut accepted, true) {
                f.feed(&encode(&Pkt::new(v5, CONNACK)));
            }
            // an honest broker acknowledges everything, or for a while
            let stop = if rounds > 1 { r.range(0, 900) } else { usize::MAX };
            let mut idle = 0;
            let mut n = 0;
            while idle < 2 && n < stop {
                n += 1;
                let b = f.out();
                let (ps, used) = decode_all(&b, v5).map_err(|e| Violation { sig: "bad-output".into(), detail: format!("{e:?}") })?;
                ensure!(used == b.len(), "bad-output", "the last {} bytes do not make a packet", b.len() - used);
                idle = if ps.is_empty() { idle + 1 } else { 0 };
                let mut replies = vec![];
                for p in &ps {
                    let ty = match (p.ty, p.qos) {
                        (PUBLISH, 1) => PUBACK,
                        (PUBLISH, 2) => PUBREC,
                        (PUBREL, _) => PUBCOMP,
                        _ => 0,
                    };
                    if ty != 0 {
                        replies.extend(encode(&Pkt::ack(v5, ty, p.pid.unwrap(), 0)));
                    }
                }
                sent.extend(ps.into_iter().filter(|p| p.ty == PUBLISH));
                f.feed(&replies);
            }
            rounds -= 1;
            if rounds == 0 {
                break;
            }
            more = r.range(10, 1200);
        }
        ensure!(sent.len() == want.len(), "dropped", "{} publishes accepted, {refused} refused, {} sent; {cfg:?} connected first: {online}", want.len(), sent.len());
        let by: std::collections::HashMap<&[u8], usize> = want.iter().enumerate().map(|(i, w)| (&w.0.payload[..], i)).collect();
        let mut seen = HashSet::new();
        for p in &sent {
            let Some(i) = by.get(&p.payload[..]) else { return fail("unknown-publish", format!("{p:?}")) };
            ensure!(seen.insert(*i), "twice", "publish {i} was sent twice");
            if let Err(e) = Tracker::same_publish(p, &want[*i].0, want[*i].1, v5) {
                return fail("altered", short(&e, 900));
            }
        }
        o.add("publishes_beyond_capacity", refused);
        o.add("accepted_of_those", sent.len() as u64);
        o.case(hash64(format!("{cfg:?}{refused}{}", sent.len()).as_bytes()));
        Ok(())
    });
}

/// Publishes that no packet can carry, waiting among good ones: the good ones are not held up.
fn c11_unsendable(run: &Run) {
    run.cases("unsendable", run.scale(1_500, 20_000), run.scale(20, 120) as f64, |_, r, o| {
        let (mut cfg, _) = config("C11", r);
        cfg.max_out = *r.pick(&[1usize, 2, 1000]);
        let v5 = cfg.v5;
        let mut s = Sim::new(cfg.clone());
        let mut f = cfg.front();
        f.connect();
        let mut ack = Pkt::new(v5, CONNACK);
        f.out();
        f.feed(&encode(&ack));
        let offline = r.chance(2, 3);
        if offline {
            f.lost();
        }
        let mut want: Vec<(u8, usize, PubSpec, Option<u16>)> = vec![];
        let mut evs = vec![];
        let mut sent = vec![];
        let mut bad = 0u64;
        let mut refused = 0u64;
        for i in 0..r.range(2, 30) {
            let qos = r.below(3) as u8;
            let mut spec = s.spec(r, qos);
            let broken = r.chance(1, 4);
            if broken {
                match r.below(if v5 { 3 } else { 1 }) {
                    0 => spec.topic = "t".repeat(65_536 + r.below(3)),
                    1 => spec.props.push(P::Str(0x03, "c".repeat(65_536))),
                    _ => spec.props.push(P::Pair("k".into(), "v".repeat(70_000))),
                }
                bad += 1;
                o.count("unsendable");
            }
            match f.publish(spec.cmd()) {
                Ok(pid) if !broken => {
                    o.count("sendable_among_them");
                    want.push((spec.prio, i, spec, pid));
                }
                Ok(_) => {}
                Err(_) if broken => refused += 1,
                Err(e) => return fail("publish-refused", format!("good publish {i} refused: {e:?}")),
            }
        }
        if offline {
            f.connect();
            f.out();
            ack.session_present = false;
            evs.extend(f.feed(&encode(&ack)));
        }
        // an honest broker acknowledges until nothing moves
        for _ in 0..200 {
            let b = f.out();
            let (ps, used) = decode_all(&b, v5).map_err(|e| Violation { sig: "bad-output".into(), detail: format!("{e:?}") })?;
            ensure!(used == b.len(), "bad-output", "the last {} bytes do not make a packet", b.len() - used);
            let mut replies = vec![];
            for p in &ps {
                let ty = match (p.ty, p.qos) {
                    (PUBLISH, 1) => PUBACK,
                    (PUBLISH, 2) => PUBREC,
                    (PUBREL, _) => PUBCOMP,
                    _ => 0,
                };
                if ty != 0 {
                    replies.extend(encode(&Pkt::ack(v5, ty, p.pid.unwrap(), 0)));
                }
            }
            sent.extend(ps.into_iter().filter(|p| p.ty == PUBLISH));
            let idle = replies.is_empty();
            evs.extend(f.feed(&replies));
            evs.extend(f.events());
            if idle && f.events().is_empty() && sent.len() >= want.len() {
                break;
            }
        }
        if offline {
            want.sort_by_key(|w| (std::cmp::Reverse(w.0), w.1));
        } else {
            want.sort_by_key(|w| w.1);
            sent.sort_by_key(|p| want.iter().position(|w| w.2.payload == p.payload));
        }
        ensure!(sent.len() == want.len(), "held-up", "{} good publishes, {} sent, {bad} unsendable ones among them (offline {offline}), {cfg:?}", want.len(), sent.len());
        for (p, w) in sent.iter().zip(&want) {
            if let Err(e) = Tracker::same_publish(p, &w.2, w.3, v5) {
                return fail("order", format!("with {bad} unsendable publishes waiting: {}", short(&e, 900)));
            }
        }
        let errors = evs.iter().filter(|e| matches!(e, MqttEvent::Error(_))).count() as u64;
        ensure!(errors == bad - refused, "error-count", "{bad} unsendable publishes, {refused} refused at once, {errors} error events");
        o.case(hash64(format!("{cfg:?}{bad}{:?}", want.iter().map(|w| (w.0, w.1, w.2.qos)).collect::<Vec<_>>()).as_bytes()));
        Ok(())
    });
}

/// Retransmission against the real clock, with acknowledgements of every kind in between.
fn c14_real(run: &Run) {
    let n = run.scale(400, 8000);
    run.cases_on("real-time", n, run.scale(25, 300) as f64, 64, |_, r, o| {
        let cfg = Cfg { v5: r.chance(1, 5), noio: r.bool(), retrans_ms: *r.pick(&[6u64, 10, 20, 40]), keep_alive: *r.pick(&[0u16, 60]), ..Default::default() };
        let w = W { tick: 0, sleep: 8, lost: 0, rogue: 1, session: (3, 4), refuse: (0, 1), publish: 5, reply: 5, ..BASE };
        let mut d = up("C14", cfg, w, o, r)?;
        for _ in 0..r.range(30, 80) {
            if d.t.connected && r.chance(1, 60) {
                d.go(Act::Lost)?;
            }
            d.step(r)?;
        }
        let k = hash64(&d.shape);
        let o = d.o;
        o.count("real_time_histories");
        o.case(k);
        Ok(())
    });
}
