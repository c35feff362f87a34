//! Priority queue, session objects, raw-packet tooling and builders.
use flowsdk::mqtt_client::commands::*;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_client::raw_packet::malformed::MalformedPacketGenerator as MG;
use flowsdk::mqtt_client::raw_packet::test_client::RawTestClient;
use flowsdk::mqtt_client::raw_packet::RawPacketBuilder;
use flowsdk::mqtt_client::MqttEngine;
use flowsdk::mqtt_serde::control_packet::MqttPacket as M;
use flowsdk::mqtt_serde::mqttv5::{puback, pubcomp, publish, pubrec, pubrel, subscribe, unsubscribe};
use flowsdk::mqtt_session::{ClientSession, ServerSession};
use flowsdk::priority_queue::PriorityQueue;
use kit::*;
use refmqtt::*;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Debug;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ C22

/// The reference: every element with its priority, in insertion order.
struct PqModel<P, T> {
    v: Vec<(P, T)>,
    cap: usize,
}

impl<P: Ord + Clone, T: Clone> PqModel<P, T> {
    fn first_of(&self, p: &P) -> usize {
        self.v.iter().position(|(q, _)| q == p).unwrap()
    }
    fn put(&mut self, p: P, t: T) -> bool {
        self.v.push((p, t));
        if self.v.len() <= self.cap {
            return false;
        }
        let low = self.v.iter().map(|(p, _)| p.clone()).min().unwrap();
        let i = self.first_of(&low);
        self.v.remove(i);
        true
    }
    fn head(&self) -> Option<usize> {
        let p = self.v.iter().map(|(p, _)| p.clone()).max()?;
        Some(self.first_of(&p))
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("flowsdk-pq-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn pq_case<P, T>(r: &mut Rng, o: &mut Obs, prio: impl Fn(&mut Rng) -> P, item: impl Fn(&mut Rng, u64) -> T) -> Verdict
where
    P: Ord + Clone + Debug + Serialize + DeserializeOwned,
    T: Clone + Debug + PartialEq + Serialize + DeserializeOwned,
{
    let cap = *r.pick(&[0usize, 1, 1, 2, 3, 5, 8, 20, 1000, usize::MAX]);
    let mut q: PriorityQueue<P, T> = PriorityQueue::new(cap);
    let mut m: PqModel<P, T> = PqModel { v: vec![], cap };
    let mut tr = String::new();
    let mut key = 0u64;
    let n = r.range(1, 120);
    let fill = r.range(3, 9);
    let mut dir: Option<Scratch> = None;
    let mut saves = 0u32;
    macro_rules! same {
        ($what:expr) => {
            let (want_len, want_peek) = (m.v.len(), m.head().map(|i| (&m.v[i].0, &m.v[i].1)));
            ensure!(q.len() == want_len, "length", "len() {} after {}, {} elements are in it (cap {cap})\n{tr}", q.len(), $what, want_len);
            ensure!(q.is_empty() == (want_len == 0), "emptiness", "is_empty() {} after {}, {} elements are in it\n{tr}", q.is_empty(), $what, want_len);
            ensure!(q.peek() == want_peek, "peek", "peek() {:?} after {}, expected {:?}\n{tr}", q.peek(), $what, want_peek);
        };
    }
    for k in 0..n {
        let a = r.below(20);
        key = key.rotate_left(5) ^ a as u64;
        if a < fill * 2 {
            let (p, t) = (prio(r), item(r, k as u64));
            tr += &format!("enqueue({p:?}, {t:?})\n");
            if m.put(p.clone(), t.clone()) {
                o.count("evictions");
            }
            q.enqueue(p, t);
            same!("enqueue");
        } else if a < 18 {
            let want = m.head().map(|i| m.v.remove(i));
            let got = q.dequeue();
            tr += &format!("dequeue() = {got:?}\n");
            ensure!(got == want, "dequeue", "dequeue() {got:?}, expected {want:?} (cap {cap})\n{tr}");
            o.add("dequeued", got.is_some() as u64);
            same!("dequeue");
        } else if a == 18 && r.chance(1, 6) {
            q.clear();
            m.v.clear();
            tr += "clear()\n";
            same!("clear");
        } else if a == 19 && saves < 3 {
            saves += 1;
            let d = dir.get_or_insert_with(Scratch::new);
            let f = d.0.join(format!("q{}", r.below(2))); // sometimes over an older, longer file
            if let Err(e) = q.save_to_file(&f) {
                return fail("save-failed", format!("saving to a new file failed: {e}\n{tr}"));
            }
            same!("save_to_file");
            q = match PriorityQueue::load_from_file(&f) {
                Ok(q) => q,
                Err(e) => return fail("load-failed", format!("loading a file just saved failed: {e}\n{tr}")),
            };
            tr += "save, load\n";
            o.count("reloads");
            o.add("reloads_nonempty", (!m.v.is_empty()) as u64);
            same!("reload");
            if r.chance(1, 3) {
                // a file cut short cannot be the queue that was saved
                let mut b = std::fs::read(&f).unwrap();
                let l = r.below(b.len());
                b.truncate(l);
                std::fs::write(&f, &b).unwrap();
                match catch(|| PriorityQueue::<P, T>::load_from_file(&f)) {
                    Ok(Err(_)) => o.count("truncated_files"),
                    Ok(Ok(x)) => return fail("load-truncated", format!("a saved file cut to {l} bytes was loaded as a queue of {}\n{tr}", x.len())),
                    Err((loc, msg)) => return fail("load-panic", format!("loading a file cut to {l} bytes panicked at {loc}: {msg}\n{tr}")),
                }
            }
        }
    }
    while let Some(i) = m.head() {
        let want = Some(m.v.remove(i));
        let got = q.dequeue();
        ensure!(got == want, "drain", "draining: dequeue() {got:?}, expected {want:?} (cap {cap})\n{tr}");
        same!("drain");
    }
    ensure!(q.dequeue().is_none(), "drain", "dequeue() on an empty queue returned something\n{tr}");
    // and it stays usable
    let (p, t) = (prio(r), item(r, 999));
    m.put(p.clone(), t.clone());
    q.enqueue(p, t);
    same!("enqueue after drain");
    o.case(key);
    Ok(())
}

pub fn c22() {
    let mut run = Run::new("C22", "an operation sequence (kinds and order), with priorities and items drawn at random");
    for (k, n) in [("dequeued", 50_000), ("evictions", 20_000), ("reloads", 2_000), ("reloads_nonempty", 500), ("truncated_files", 300), ("refused_saves", 3)] {
        run.need(k, n);
    }
    let n = run.scale(12_000, 300_000);
    run.cases("u8", n, 15.0 * run.scale(1, 10) as f64, |_, r, o| {
        let span = *r.pick(&[1usize, 2, 4, 256]);
        let base = r.below(257 - span) as u8;
        pq_case(r, o, move |r| base + r.below(span) as u8, |_, k| k)
    });
    run.cases("i32", n / 2, 10.0 * run.scale(1, 10) as f64, |_, r, o| {
        pq_case(r, o, |r| *r.pick(&[i32::MIN, -10, -9, -1, 0, 1, 2, 9, 10, 11, 100, i32::MAX]), |r, k| { let n = r.below(20); (k, r.bytes(n)) })
    });
    run.cases("text", n / 2, 10.0 * run.scale(1, 10) as f64, |_, r, o| {
        let g = Gen { small: 5, big_every: 1000 };
        pq_case(
            r,
            o,
            |r| r.pick(&["", "a", "b", "aa", "é", "\"", "\u{1F600}"]).to_string(),
            move |r, k| format!("{k}{}", g.text(r)),
        )
    });
    run.probe(|o| {
        let mut q: PriorityQueue<u8, u64> = PriorityQueue::new(10);
        for i in 0..3 {
            q.enqueue(i, i as u64);
        }
        for f in ["/dev/full", "/proc/nonexistent/q", "/"] {
            match q.save_to_file(f) {
                Err(_) => o.count("refused_saves"),
                Ok(()) => return fail("save-not-reported", format!("saving to {f} reported success although nothing could be written")),
            }
        }
        ensure!(q.len() == 3 && q.dequeue() == Some((2, 2)), "save-changes-queue", "a failed save changed the queue");
        match PriorityQueue::<u8, u64>::load_from_file("/nonexistent/q") {
            Err(_) => Ok(()),
            Ok(_) => fail("load-missing", "a missing file was loaded"),
        }
    });
    run.finish()
}

// ------------------------------------------------------------------ C23

fn modelled(ps: &[M]) -> Vec<Pkt> {
    ps.iter().map(conv::to_model).collect()
}

fn pub5(p: &Pkt) -> publish::MqttPublish {
    match conv::from_model(p) {
        M::Publish5(x) => x,
        _ => unreachable!(),
    }
}

fn nodup(p: &Pkt) -> Pkt {
    Pkt { dup: false, ..p.clone() }
}

fn sorted(mut v: Vec<Pkt>) -> Vec<Pkt> {
    v.sort_by_key(|p| (p.ty, p.pid, p.topic.clone(), p.payload.clone()));
    v
}

fn message(r: &mut Rng, g: &Gen, qos: u8, pid: Option<u16>, n: u64) -> Pkt {
    let mut p = g.packet(r, true, PUBLISH);
    p.qos = qos;
    p.pid = pid;
    p.dup = false;
    p.payload = [n.to_be_bytes().to_vec(), std::mem::take(&mut p.payload)].concat();
    if p.topic.is_empty() {
        p.topic = "t".into();
    }
    p
}

fn show(v: &[Pkt]) -> String {
    v.iter().map(|p| format!("{} pid {:?} payload {}", p.name(), p.pid, hex(&p.payload[..p.payload.len().min(8)]))).collect::<Vec<_>>().join(", ")
}

/// replies every session owes to a PUBLISH or PUBREL of its peer
fn reply_ok(what: &str, got: Option<&M>, want: Option<Pkt>) -> Verdict {
    let g = got.map(conv::to_model);
    ensure!(g == want, format!("reply-{what}"), "the reply to {what} is {g:?}, expected {want:?}");
    Ok(())
}

fn client_case(r: &mut Rng, o: &mut Obs) -> Verdict {
    let g = Gen { small: 6, big_every: 200 };
    let mut s = if r.bool() { ClientSession::new() } else { ClientSession::default() };
    let mut pubs: BTreeMap<u16, Pkt> = BTreeMap::new();
    let mut rels: BTreeMap<u16, Pkt> = BTreeMap::new();
    let mut last = 0u16;
    let mut key = 0u64;
    let mut tr = String::new();
    let n = r.range(2, 60);
    if r.chance(1, 40) {
        for _ in 0..r.range(65_500, 65_535) {
            last = s.next_packet_id();
        }
    }
    for k in 0..n as u64 {
        let a = r.below(14);
        key = key.rotate_left(5) ^ a as u64;
        let open: Vec<u16> = pubs.keys().copied().collect();
        let opened: Vec<u16> = rels.keys().copied().collect();
        let unknown = loop {
            let x = g.pid(r);
            if !pubs.contains_key(&x) && !rels.contains_key(&x) {
                break x;
            }
        };
        match a {
            0..=3 => {
                let pid = s.next_packet_id();
                let want = if last == 65535 { 1 } else { last + 1 };
                ensure!(pid == want, "packet-id", "next_packet_id() {pid} after {last}, expected {want}\n{tr}");
                last = pid;
                if pubs.contains_key(&pid) || rels.contains_key(&pid) {
                    continue;
                }
                let q = r.range(0, 2) as u8;
                let p = message(r, &g, q, (q > 0).then_some(pid), k);
                tr += &format!("outgoing publish qos {q} pid {pid}\n");
                s.handle_outgoing_publish(pub5(&p));
                if q > 0 {
                    pubs.insert(pid, p);
                    o.count("tracked_publishes");
                }
            }
            4 | 5 => {
                let q1: Vec<u16> = open.iter().copied().filter(|i| pubs[i].qos == 1).collect();
                let pid = if q1.is_empty() || r.chance(1, 8) { unknown } else { *r.pick(&q1) };
                let reason = *r.pick(&[0u8, 0, 0x10, 0x80, 0x87, 0x97]);
                tr += &format!("PUBACK {pid} {reason:#x}\n");
                s.handle_incoming_puback(puback::MqttPubAck { packet_id: pid, reason_code: reason, properties: vec![] });
                o.add("completed", pubs.remove(&pid).is_some() as u64);
            }
            6 | 7 => {
                let q2: Vec<u16> = open.iter().copied().filter(|i| pubs[i].qos == 2).collect();
                let pid = if q2.is_empty() || r.chance(1, 8) { unknown } else { *r.pick(&q2) };
                let reason = *r.pick(&[0u8, 0, 0, 0x10, 0x7f, 0x80, 0x87, 0x97, 0xff]);
                let rel = s.handle_incoming_pubrec(pubrec::MqttPubRec { packet_id: pid, reason_code: reason, properties: vec![] });
                tr += &format!("PUBREC {pid} {reason:#x} -> {rel:?}\n");
                pubs.remove(&pid);
                if reason < 0x80 {
                    let want = Pkt::ack(true, PUBREL, pid, 0);
                    reply_ok("pubrec", rel.clone().map(M::PubRel5).as_ref(), Some(want.clone()))?;
                    let mut rel = rel.unwrap();
                    let mut m = want;
                    if r.chance(1, 3) {
                        m.props = vec![P::Str(0x1f, g.text(r))];
                        rel.properties = conv::props_from_model(&m.props);
                    }
                    s.handle_outgoing_pubrel(rel);
                    rels.insert(pid, m);
                    o.count("released");
                } else {
                    reply_ok("failed pubrec", rel.map(M::PubRel5).as_ref(), None)?;
                    o.count("failed_pubrec");
                }
            }
            8 | 9 => {
                let pid = if opened.is_empty() || r.chance(1, 8) { unknown } else { *r.pick(&opened) };
                tr += &format!("PUBCOMP {pid}\n");
                s.handle_incoming_pubcomp(pubcomp::MqttPubComp { packet_id: pid, reason_code: *r.pick(&[0u8, 0x92]), properties: vec![] });
                o.add("completed", rels.remove(&pid).is_some() as u64);
            }
            10 => {
                let q = r.below(3) as u8;
                let pid = g.pid(r);
                let p = message(r, &g, q, (q > 0).then_some(pid), k);
                let got = s.handle_incoming_publish(pub5(&p));
                let want = [None, Some(Pkt::ack(true, PUBACK, pid, 0)), Some(Pkt::ack(true, PUBREC, pid, 0))][q as usize].clone();
                reply_ok("publish", got.as_ref(), want)?;
                o.count("replies");
            }
            11 => {
                let pid = g.pid(r);
                let c = s.handle_incoming_pubrel(pubrel::MqttPubRel { packet_id: pid, reason_code: 0, properties: vec![] });
                reply_ok("pubrel", Some(&M::PubComp5(c)), Some(Pkt::ack(true, PUBCOMP, pid, 0)))?;
                o.count("replies");
            }
            12 if r.chance(1, 10) => {
                s.clear();
                pubs.clear();
                rels.clear();
                tr += "clear\n";
            }
            13 if !open.is_empty() => {
                // a retransmission (DUP set) of an open publish changes nothing
                let pid = *r.pick(&open);
                s.handle_outgoing_publish(pub5(&Pkt { dup: true, ..pubs[&pid].clone() }));
                tr += &format!("outgoing retransmission {pid}\n");
            }
            _ => {}
        }
        let got = sorted(modelled(&s.resend_pending_messages()).iter().map(nodup).collect());
        let want = sorted(pubs.values().chain(rels.values()).cloned().collect());
        ensure!(got == want, "client-resend", "the resend list is [{}], expected [{}]\n{tr}", show(&got), show(&want));
        o.add("resend_checked", (!want.is_empty()) as u64);
    }
    o.case(key);
    Ok(())
}

fn server_case(r: &mut Rng, o: &mut Obs) -> Verdict {
    let g = Gen { small: 6, big_every: 200 };
    let rm = *r.pick(&[1u16, 1, 2, 3, 5, 10, 100, 65535]);
    let mut s = ServerSession::new(rm);
    let mut filters: BTreeSet<String> = BTreeSet::new();
    let mut queue: VecDeque<Pkt> = VecDeque::new();
    let mut pubs: BTreeMap<u16, Pkt> = BTreeMap::new();
    let mut rels: BTreeSet<u16> = BTreeSet::new();
    let mut key = rm as u64;
    let mut tr = format!("receive maximum {rm}\n");
    let n = r.range(2, 60);
    let with_q0 = r.bool();
    for k in 0..n as u64 {
        let a = r.below(16);
        key = key.rotate_left(5) ^ a as u64;
        let unknown = loop {
            let x = g.pid(r);
            if !pubs.contains_key(&x) && !rels.contains(&x) {
                break x;
            }
        };
        let open: Vec<u16> = pubs.keys().copied().collect();
        match a {
            0 | 1 => {
                let fs: Vec<String> = (0..r.range(1, 3)).map(|_| format!("f{}", r.below(4))).collect();
                tr += &format!("SUBSCRIBE {fs:?}\n");
                let subs = fs.iter().map(|f| subscribe::TopicSubscription::new_simple(f.clone(), r.below(3) as u8)).collect();
                s.handle_incoming_subscribe(subscribe::MqttSubscribe::new(g.pid(r), subs, vec![]));
                filters.extend(fs);
            }
            2 => {
                let fs: Vec<String> = (0..r.range(1, 2)).map(|_| format!("f{}", r.below(5))).collect();
                tr += &format!("UNSUBSCRIBE {fs:?}\n");
                for f in &fs {
                    filters.remove(f);
                }
                s.handle_incoming_unsubscribe(unsubscribe::MqttUnsubscribe::new(g.pid(r), fs, vec![]));
            }
            3..=6 => {
                let q = if with_q0 { r.below(3) } else { r.range(1, 2) } as u8;
                let pid = g.pid(r);
                let p = message(r, &g, q, (q > 0).then_some(pid), k);
                tr += &format!("incoming PUBLISH {k} qos {q} pid {pid}, {} subscriptions\n", filters.len());
                let got = s.handle_incoming_publish(pub5(&p));
                let want = [None, Some(Pkt::ack(true, PUBACK, pid, 0)), Some(Pkt::ack(true, PUBREC, pid, 0))][q as usize].clone();
                reply_ok("publish", got.as_ref(), want)?;
                for _ in &filters {
                    queue.push_back(p.clone());
                }
            }
            7..=9 => {
                let q1: Vec<u16> = open.iter().copied().filter(|i| pubs[i].qos == 1).collect();
                let pid = if q1.is_empty() || r.chance(1, 8) { unknown } else { *r.pick(&q1) };
                tr += &format!("PUBACK {pid}\n");
                s.handle_incoming_puback(puback::MqttPubAck { packet_id: pid, reason_code: *r.pick(&[0u8, 0x10, 0x80]), properties: vec![] });
                o.add("server_completed", pubs.remove(&pid).is_some() as u64);
            }
            10 | 11 => {
                let q2: Vec<u16> = open.iter().copied().filter(|i| pubs[i].qos == 2).collect();
                if q2.is_empty() {
                    continue;
                }
                let pid = *r.pick(&q2);
                let reason = *r.pick(&[0u8, 0, 0x10, 0x80, 0x97]);
                tr += &format!("PUBREC {pid} {reason:#x}\n");
                let rel = s.handle_incoming_pubrec(pubrec::MqttPubRec { packet_id: pid, reason_code: reason, properties: vec![] });
                pubs.remove(&pid);
                reply_ok("pubrec", rel.map(M::PubRel5).as_ref(), (reason < 0x80).then(|| Pkt::ack(true, PUBREL, pid, 0)))?;
                if reason < 0x80 {
                    rels.insert(pid);
                }
            }
            12 => {
                let v: Vec<u16> = rels.iter().copied().collect();
                let pid = if v.is_empty() || r.chance(1, 8) { unknown } else { *r.pick(&v) };
                tr += &format!("PUBCOMP {pid}\n");
                s.handle_incoming_pubcomp(pubcomp::MqttPubComp { packet_id: pid, reason_code: 0, properties: vec![] });
                o.add("server_completed", rels.remove(&pid) as u64);
            }
            13 => {
                let pid = g.pid(r);
                let c = s.handle_incoming_pubrel(pubrel::MqttPubRel { packet_id: pid, reason_code: 0, properties: vec![] });
                reply_ok("pubrel", Some(&M::PubComp5(c)), Some(Pkt::ack(true, PUBCOMP, pid, 0)))?;
            }
            _ => {
                let out = modelled(&s.resend_pending_messages());
                tr += &format!("sends [{}]\n", show(&out));
                // first the unacknowledged ones, once each and unchanged (DUP may be set)
                let old = pubs.len() + rels.len();
                ensure!(out.len() >= old, "server-resend", "only {} packets, {old} exchanges are unacknowledged\n{tr}", out.len());
                let mut left: Vec<Pkt> = pubs.values().cloned().chain(rels.iter().map(|&i| Pkt::ack(true, PUBREL, i, 0))).collect();
                let mut fresh = Vec::new();
                for p in &out {
                    match left.iter().position(|q| *q == nodup(p)) {
                        Some(i) => drop(left.remove(i)),
                        None => fresh.push(p.clone()),
                    }
                }
                ensure!(left.is_empty(), "server-resend", "unacknowledged but not resent: [{}]\n{tr}", show(&left));
                o.add("server_resent", old as u64);
                // then the queued ones in order, as far as the receive maximum allows
                for p in fresh {
                    let Some(want) = queue.pop_front() else {
                        return fail("server-extra", format!("sent [{}] which nobody published\n{tr}", show(&[p])));
                    };
                    let want = Pkt { pid: p.pid, ..want };
                    ensure!(p == want, "server-message", "sent {p:?}, the next message queued is {want:?}\n{tr}");
                    if p.qos > 0 {
                        let pid = p.pid.unwrap_or(0);
                        ensure!(pid != 0 && !pubs.contains_key(&pid) && !rels.contains(&pid), "server-packet-id", "packet id {pid} is zero or in use\n{tr}");
                        pubs.insert(pid, p);
                    } else {
                        ensure!(p.pid.is_none(), "server-packet-id", "QoS 0 with a packet id\n{tr}");
                    }
                    o.count("server_sent");
                    ensure!(pubs.len() + rels.len() <= rm as usize, "server-window", "{} unacknowledged, the receive maximum is {rm}\n{tr}", pubs.len() + rels.len());
                }
                if let Some(p) = queue.front() {
                    ensure!(p.qos > 0 && pubs.len() + rels.len() >= rm as usize, "server-held-back", "a message is held back although the client can receive it: {} of {rm} in flight\n{tr}", pubs.len() + rels.len());
                    o.count("window_full");
                }
            }
        }
    }
    o.case(key);
    Ok(())
}

pub fn c23() {
    let mut run = Run::new("C23", "a call sequence on one session object (kinds and order)");
    for (k, n) in [
        ("tracked_publishes", 20_000), ("completed", 10_000), ("released", 3_000), ("failed_pubrec", 1_000), ("replies", 10_000),
        ("resend_checked", 50_000), ("server_sent", 20_000), ("server_resent", 20_000), ("window_full", 3_000), ("server_completed", 10_000),
    ] {
        run.need(k, n);
    }
    run.assume("the caller uses the objects as the protocol demands: no packet identifier is reused while its exchange is open, acknowledgements name the exchange kind they belong to or nothing at all");
    run.cases("client", run.scale(12_000, 300_000), run.scale(20, 250) as f64, |_, r, o| client_case(r, o));
    run.cases("server", run.scale(12_000, 300_000), run.scale(20, 250) as f64, |_, r, o| server_case(r, o));
    run.finish()
}

// ------------------------------------------------------------------ C36

fn edits_case(r: &mut Rng, o: &mut Obs) -> Verdict {
    let g = Gen { small: 12, big_every: 100 };
    let (mut b, mut m) = if r.chance(1, 4) {
        (if r.bool() { RawPacketBuilder::new() } else { RawPacketBuilder::default() }, vec![])
    } else {
        let v5 = r.bool();
        let p = conv::from_model(&g.any(r, v5));
        let Ok(bytes) = p.to_bytes() else { return Ok(()) };
        match RawPacketBuilder::from_packet(p) {
            Ok(b) => (b, bytes),
            Err(e) => return fail("from-packet", format!("{e}")),
        }
    };
    let mut tr = format!("start {}\n", hex(&m));
    let mut key = hash64(&m);
    for _ in 0..r.range(1, 12) {
        let l = m.len();
        let at = match r.below(8) {
            0 => l,
            1 => l + 1,
            2 => l + r.below(100),
            3 => *r.pick(&[usize::MAX, usize::MAX - 1, 0]),
            _ => r.below(l + 1),
        };
        let (v, cnt) = (r.u8(), match r.below(6) { 0 => usize::MAX, 1 => 0, 2 => l, _ => r.below(6) });
        let nb = r.below(6);
        let data = r.bytes(nb);
        let k = r.below(9);
        key = key.rotate_left(7) ^ (k as u64) ^ ((at.min(99) as u64) << 8);
        let op = match k {
            0 => format!("set_byte({at}, {v})"),
            1 => format!("set_fixed_header_flags({v})"),
            2 => format!("set_packet_type({v})"),
            3 => format!("corrupt_variable_length({at})"),
            4 => format!("insert_bytes({at}, {data:?})"),
            5 => format!("remove_bytes({at}, {cnt})"),
            6 => format!("truncate({at})"),
            7 => format!("append_bytes({data:?})"),
            _ => "bytes_mut".into(),
        };
        tr += &format!("{op}\n");
        let res = catch(|| {
            match k {
                0 => b.set_byte(at, v),
                1 => b.set_fixed_header_flags(v),
                2 => b.set_packet_type(v),
                3 => b.corrupt_variable_length(at),
                4 => b.insert_bytes(at, &data),
                5 => b.remove_bytes(at, cnt),
                6 => b.truncate(at),
                7 => b.append_bytes(&data),
                _ => {
                    b.bytes_mut().extend_from_slice(&data);
                    &mut b
                }
            };
        });
        if let Err((loc, msg)) = res {
            return fail("edit-panic", format!("{op} on {l} bytes panicked at {loc}: {msg}\n{tr}"));
        }
        let out_of_range = match k {
            0 | 3 => at >= l,
            4 => at > l,
            5 => at > l || cnt > l - at.min(l),
            6 => at > l,
            1 | 2 => l == 0,
            _ => false,
        };
        match k {
            0 if at < l => m[at] = v,
            1 if l > 0 => m[0] = (m[0] & 0xf0) | (v & 0x0f),
            2 if l > 0 => m[0] = (v << 4) | (m[0] & 0x0f),
            3 if at < l => m[at] |= 0x80,
            4 => {
                let t = m.split_off(at.min(l));
                m.extend_from_slice(&data);
                m.extend(t);
            }
            5 if at < l => {
                let t = m.split_off(at);
                m.extend(t.into_iter().skip(cnt));
            }
            6 if at < l => m.truncate(at),
            7 | 8 => m.extend_from_slice(&data),
            _ => {}
        }
        o.count(if out_of_range { "edits_out_of_range" } else { "edits" });
        ensure!(b.bytes() == m, "edit", "{op}: {} expected {}\n{tr}", hex(b.bytes()), hex(&m));
        ensure!(b.len() == m.len() && b.is_empty() == m.is_empty(), "edit-length", "len {} is_empty {} with {} bytes\n{tr}", b.len(), b.is_empty(), m.len());
        if r.chance(1, 10) {
            b = b.clone();
        }
    }
    ensure!(b.build() == m, "build", "build() differs from bytes()\n{tr}");
    o.case(key);
    Ok(())
}

fn gens(o: &mut Obs) -> Verdict {
    type G = (&'static str, fn() -> std::io::Result<Vec<u8>>);
    let get = |(n, f): G| f().or_else(|e| fail("generator", format!("{n} failed: {e}")));
    let valid = get(("valid_connect", MG::valid_connect))?;
    let base = decode(&valid, true);
    ensure!(matches!(&base, Ok((p, n)) if p.ty == CONNECT && *n == valid.len()), "generator-valid_connect", "not a valid CONNECT: {base:?}");
    ensure!(get(("valid_pingreq", MG::valid_pingreq))? == [0xC0, 0], "generator-valid_pingreq", "not a PINGREQ");
    let sc = get(("second_connect", MG::second_connect))?;
    ensure!(matches!(decode(&sc, true), Ok((p, n)) if p.ty == CONNECT && n == sc.len()), "generator-second_connect", "not a valid CONNECT");
    // (name, generator, the defect an independent decoder finds, a repair that must make it conforming)
    type Repair = fn(&mut Vec<u8>);
    let list: Vec<(G, &[Mal], Option<Repair>)> = vec![
        (("connect_reserved_flag", MG::connect_reserved_flag), &[Mal::FixedFlags], Some(|b| b[0] &= 0xf0)),
        (("non_minimal_variable_length", MG::non_minimal_variable_length), &[Mal::NonMinimalVbi], Some(|b| { b.truncate(1); b.push(0) })),
        (("invalid_qos_both_bits", MG::invalid_qos_both_bits), &[Mal::Qos3], Some(|b| b[0] &= !4)),
        (("topic_alias_zero", MG::topic_alias_zero), &[Mal::PropValue], Some(|b| *b.last_mut().unwrap() = 1)),
        (("will_flag_without_payload", MG::will_flag_without_payload), &[Mal::Truncated], None),
        (("incorrect_protocol_name", MG::incorrect_protocol_name), &[Mal::ProtoName, Mal::Utf8Char], None),
        (("subscribe_reserved_bits", MG::subscribe_reserved_bits), &[Mal::SubOptions], Some(|b| *b.last_mut().unwrap() &= 0x3f)),
        (("subscription_identifier_zero", MG::subscription_identifier_zero), &[Mal::PropValue], Some(|b| *b.last_mut().unwrap() = 1)),
        (("invalid_protocol_version", MG::invalid_protocol_version), &[Mal::ProtoLevel], Some(|b| b[8] = 5)),
        (("remaining_length_too_large", MG::remaining_length_too_large), &[Mal::RemainingLength], None),
        (("duplicate_topic_alias", MG::duplicate_topic_alias), &[Mal::DupProp], Some(|b| { let l = b.len(); b.truncate(l - 3); b[1] -= 3; b[8] -= 3 })),
        (("empty_topic_name", MG::empty_topic_name), &[Mal::EmptyTopic], Some(|b| { b[1] += 1; b[3] = 1; b.insert(4, b'a') })),
        (("topic_with_wildcards", MG::topic_with_wildcards), &[Mal::Wildcard], Some(|b| b.iter_mut().skip(4).for_each(|c| if *c == b'+' || *c == b'#' { *c = b'a' }))),
        (("reserved_packet_type", MG::reserved_packet_type), &[Mal::PacketType], Some(|b| b[0] = 0xC0)),
    ];
    for (gn, mals, repair) in list {
        let b = get(gn)?;
        let n = gn.0;
        let d = decode(&b, true);
        ensure!(matches!(&d, Err(m) if mals.contains(m)), format!("generator-{n}"), "{n}: {} is {d:?} to an independent strict decoder, expected {mals:?}", hex(&b));
        if let Some(f) = repair {
            let mut c = b.clone();
            f(&mut c);
            let d = decode(&c, true);
            ensure!(matches!(&d, Ok((_, k)) if *k == c.len()), format!("generator-{n}"), "{n}: {} has a second defect: with the named one repaired it is {d:?}", hex(&b));
        } else if n != "remaining_length_too_large" {
            ensure!(announced_len(&b) == Some(b.len()), format!("generator-{n}"), "{n}: {} is not one whole frame", hex(&b));
        }
        o.count("generators");
    }
    // the flag generator differs from the good packet in nothing else
    let mut c = get(("", MG::connect_reserved_flag))?;
    c[0] &= 0xf0;
    ensure!(c == valid, "generator-connect_reserved_flag", "differs from the valid CONNECT in more than the flag");
    let c = get(("", MG::invalid_protocol_version))?;
    ensure!(c.len() == valid.len() && (0..c.len()).all(|i| i == 8 || c[i] == valid[i]), "generator-invalid_protocol_version", "differs from the valid CONNECT in more than the version");
    // the will's payload, and nothing before it, is cut off
    let w = get(("", MG::will_flag_without_payload))?;
    let mut c = w.clone();
    c.extend([0, 0]);
    c[1] += 2;
    let d = decode(&c, true);
    ensure!(matches!(&d, Ok((p, n)) if *n == c.len() && p.conn.as_ref().unwrap().will.is_some()), "generator-will_flag_without_payload", "{}: {d:?} once an empty will payload is added", hex(&w));
    // a packet identifier in a QoS 0 PUBLISH cannot be told from payload; it must still be one frame with the identifier in
    let q = get(("", MG::qos0_with_packet_id))?;
    ensure!(announced_len(&q) == Some(q.len()) && q[0] == 0x30 && q.windows(2).any(|w| w == [0, 1]), "generator-qos0_with_packet_id", "{}", hex(&q));
    let l = get(("", MG::client_id_too_long))?;
    let d = decode(&l, true);
    ensure!(matches!(&d, Ok((p, n)) if *n == l.len() && p.conn.as_ref().unwrap().client_id.len() > 23), "generator-client_id_too_long", "{:?}", d.map(|x| x.1));
    o.add("generators", 3);
    Ok(())
}

fn raw_client_case(r: &mut Rng, o: &mut Obs) -> Verdict {
    let l = std::net::TcpListener::bind("127.0.0.1:0").expect("listener");
    let addr = l.local_addr().unwrap().to_string();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    let (r2, o2) = (&mut *r, &mut *o);
    rt.block_on(async move {
        let (r, o) = (r2, o2);
        let mut c = RawTestClient::connect(&addr).await.expect("connect");
        let (mut s, _) = l.accept().expect("accept");
        s.set_nodelay(true).unwrap();
        s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        for _ in 0..r.range(1, 4) {
            let nb = r.range(1, 300);
            let out = r.bytes(nb);
            if r.bool() {
                c.send_raw(out.clone()).await.or_else(|e| fail("raw-send", e.to_string()))?;
            } else {
                let nb = r.range(1, 50);
                let answer = r.bytes(nb);
                s.write_all(&answer).unwrap();
                let max = r.range(1, 60);
                let got = c.send_and_receive(out.clone(), max, 5000).await.or_else(|e| fail("raw-receive", e.to_string()))?;
                let mut all = got.clone();
                ensure!(got.len() <= max, "raw-receive", "{} bytes where at most {max} were asked for", got.len());
                while all.len() < answer.len() {
                    ensure!(c.is_connected().await, "raw-is-connected", "a connection with data to read is reported as closed");
                    let k = r.range(1, 60);
                    all.extend(c.receive_raw(k, 5000).await.or_else(|e| fail("raw-receive", e.to_string()))?);
                }
                ensure!(all == answer, "raw-receive", "received {} but the peer sent {}", hex(&all), hex(&answer));
            }
            let mut b = vec![0; out.len()];
            s.read_exact(&mut b).or_else(|e| fail("raw-send", format!("the peer did not get what was sent: {e}")))?;
            ensure!(b == out, "raw-send", "the peer got {} instead of {}", hex(&b), hex(&out));
            o.count("raw_exchanges");
        }
        match c.receive_raw(10, 20).await {
            Err(e) if e.kind() == std::io::ErrorKind::TimedOut => {}
            x => return fail("raw-timeout", format!("nothing was sent, receive_raw returned {x:?}")),
        }
        match r.below(3) {
            0 => {
                let t = Instant::now();
                let x = c.send_expect_disconnect(vec![1], 150).await;
                ensure!(matches!(&x, Err(e) if e.kind() == std::io::ErrorKind::TimedOut), "raw-expect-disconnect", "the peer kept the connection open, the result is {x:?} after {:?}", t.elapsed());
                c.close().await.or_else(|e| fail("raw-close", e.to_string()))?;
                let mut b = vec![];
                s.read_to_end(&mut b).or_else(|e| fail("raw-close", format!("the peer did not see the end: {e}")))?;
                ensure!(b == [1], "raw-send", "the peer got {} before the end", hex(&b));
            }
            1 => {
                s.shutdown(std::net::Shutdown::Write).unwrap();
                let x = c.send_expect_disconnect(vec![1], 5000).await;
                ensure!(x.is_ok(), "raw-expect-disconnect", "the peer closed the connection, the result is {x:?}");
            }
            _ => {
                drop(s);
                match c.receive_raw(10, 5000).await {
                    Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => {}
                    x => return fail("raw-closed", format!("the peer closed the connection, receive_raw returned {x:?}")),
                }
            }
        }
        o.count("raw_sessions");
        Ok(())
    })?;
    o.case(r.u64());
    Ok(())
}

/// What `is_connected` says of an open connection with nothing to read, and of a closed one.
fn raw_is_connected(closed: bool) -> Verdict {
    let l = std::net::TcpListener::bind("127.0.0.1:0").expect("listener");
    let addr = l.local_addr().unwrap().to_string();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    rt.block_on(async move {
        let mut c = RawTestClient::connect(&addr).await.expect("connect");
        let (s, _) = l.accept().expect("accept");
        if closed {
            drop(s);
            tokio::time::sleep(Duration::from_millis(50)).await;
            ensure!(!c.is_connected().await, "raw-is-connected-closed", "a closed connection is reported as open");
        } else {
            ensure!(c.is_connected().await, "raw-is-connected-idle", "an idle open connection is reported as closed");
        }
        Ok(())
    })
}

pub fn c36() {
    let mut run = Run::new("C36", "an edit sequence with its start packet, or one loopback session of the raw test client");
    for (k, n) in [("edits", 50_000), ("edits_out_of_range", 10_000), ("generators", 17), ("raw_exchanges", 40), ("raw_sessions", 20)] {
        run.need(k, n);
    }
    run.probe(gens);
    run.probe(|_| raw_is_connected(false));
    run.probe(|_| raw_is_connected(true));
    run.cases("edits", run.scale(40_000, 1_000_000), run.scale(15, 200) as f64, |_, r, o| edits_case(r, o));
    run.cases_on("raw-client", run.scale(60, 600), run.scale(30, 200) as f64, 8, |_, r, o| raw_client_case(r, o));
    run.finish()
}

// ------------------------------------------------------------------ C37

#[derive(Clone, Debug, PartialEq)]
struct PubFields {
    topic: String,
    payload: Vec<u8>,
    qos: u8,
    retain: bool,
    dup: bool,
    pid: Option<u16>,
    props: Vec<P>,
    prio: u8,
}

fn fields(c: &PublishCommand) -> PubFields {
    PubFields {
        topic: c.topic_name.clone(),
        payload: c.payload.clone(),
        qos: c.qos,
        retain: c.retain,
        dup: c.dup,
        pid: c.packet_id,
        props: conv::props_to_model(&c.properties),
        prio: c.priority,
    }
}

fn engine(v5: bool) -> MqttEngine {
    let mut e = MqttEngine::new(MqttClientOptions { mqtt_version: if v5 { 5 } else { 4 }, keep_alive: 0, ..Default::default() });
    e.connect();
    let mut a = Pkt::new(v5, CONNACK);
    a.props = vec![];
    e.handle_incoming(&encode(&a));
    e.take_outgoing();
    e
}

fn wire(e: &mut MqttEngine, v5: bool) -> Result<Vec<Pkt>, Violation> {
    let b = e.take_outgoing();
    match decode_all(&b, v5) {
        Ok((v, n)) if n == b.len() => Ok(v),
        x => fail("wire-garbage", format!("the engine wrote {} which is not MQTT: {x:?}", hex(&b))),
    }
}

fn publish_case(r: &mut Rng, o: &mut Obs) -> Verdict {
    let g = Gen { small: 10, big_every: 80 };
    let mut m = PubFields { topic: String::new(), payload: vec![], qos: 0, retain: false, dup: false, pid: None, props: vec![], prio: 128 };
    let mut topic = false;
    let mut b = if r.bool() { PublishCommand::builder() } else { PublishCommandBuilder::default() };
    let mut tr = String::new();
    let n = r.below(14);
    for _ in 0..n {
        let k = r.below(15);
        tr += &format!("{k} ");
        b = match k {
            0 | 1 => { topic = true; m.topic = g.topic(r); if r.bool() { b.topic(m.topic.clone()) } else { b.topic(m.topic.as_str()) } }
            2 => { m.payload = g.bin(r); b.payload(m.payload.clone()) }
            3 => { m.qos = r.below(3) as u8; b.qos(m.qos) }
            4 => { m.retain = r.bool(); b.retain(m.retain) }
            5 => { m.dup = r.bool(); b.dup(m.dup) }
            6 => { let p = g.pid(r); m.pid = Some(p); b.with_packet_id(p) }
            7 => { let p = g.prop(r, *r.clone().pick(&[0x01u8, 0x02, 0x03, 0x08, 0x09, 0x23, 0x26])); m.props.push(p.clone()); b.add_property(conv::prop_from_model(&p)) }
            8 => { let v = g.u32(r); m.props.push(P::U32(2, v)); b.with_message_expiry_interval(v) }
            9 => { let v = g.text(r); m.props.push(P::Str(3, v.clone())); b.with_content_type(v) }
            10 => { let v = g.topic(r); m.props.push(P::Str(8, v.clone())); b.with_response_topic(v) }
            11 => { let v = g.bin(r); m.props.push(P::Bin(9, v.clone())); b.with_correlation_data(v) }
            12 => { let v = r.u16(); m.props.push(P::U16(0x23, v)); b.with_topic_alias(v) }
            13 => { let (k, v) = (g.text(r), g.text(r)); m.props.push(P::Pair(k.clone(), v.clone())); b.with_user_property(k, v) }
            _ => { m.prio = r.u8(); b.priority(m.prio) }
        };
        if r.chance(1, 12) {
            b = b.clone();
        }
    }
    let c = match b.build() {
        Err(PublishBuilderError::NoTopic) => {
            ensure!(!topic, "publish-refused", "build refused although a topic was set: {tr}");
            o.count("refused");
            return Ok(());
        }
        Ok(c) => c,
    };
    ensure!(topic, "publish-without-topic", "build succeeded without a topic: {tr}");
    ensure!(fields(&c) == m, "publish-fields", "built {:?}, set {m:?}", fields(&c));
    let want = |v5: bool| Pkt { qos: m.qos, retain: m.retain, dup: m.dup, pid: m.pid, topic: m.topic.clone(), payload: m.payload.clone(), props: if v5 { m.props.clone() } else { vec![] }, ..Pkt::new(v5, PUBLISH) };
    for v5 in [true, false] {
        let p = conv::to_model(&if v5 { M::Publish5(c.to_mqtt_publish()) } else { M::Publish3(c.to_mqttv3_publish()) });
        let mut w = want(v5);
        if m.qos == 0 && p.pid.is_none() {
            w.pid = None; // a QoS 0 packet has none to carry
        }
        ensure!(p == w, "publish-packet", "the packet is {p:?}, set {m:?}");
    }
    // through serde and back
    let j = serde_json::to_string(&c).expect("json");
    let d: PublishCommand = serde_json::from_str(&j).or_else(|e| fail("publish-serde", format!("{e} for {j}")))?;
    ensure!(fields(&d) == m, "publish-serde", "read back {:?}, wrote {m:?}", fields(&d));
    // on the wire
    let v5 = r.bool();
    let mut w = want(v5);
    if m.qos == 0 {
        w.pid = None;
    }
    if w.qos > 0 && w.pid.is_none() {
        w.pid = Some(1);
    }
    if let Ok(ok) = decode(&encode(&w), v5).map(|x| x.0) {
        if !w.dup && ok == w {
            let mut e = engine(v5);
            let res = e.publish(c);
            let got = wire(&mut e, v5)?;
            if m.qos > 0 && m.pid.is_none() {
                w.pid = res.as_ref().ok().copied().flatten();
            }
            ensure!(res.is_ok() && got == [w.clone()], "publish-wire", "publish gave {res:?} and wrote {got:?}, expected {w:?}");
            o.count("published");
        }
    }
    o.add("repeated_settings", (n > 8) as u64);
    o.case(hash64(tr.as_bytes()) ^ hash64(&m.payload));
    // constructors
    let (t, p) = (g.topic(r), g.bin(r));
    let (q, rt, du, id, pr) = (r.below(3) as u8, r.bool(), r.bool(), r.bool().then(|| g.pid(r)), r.u8());
    let base = PubFields { topic: t.clone(), payload: p.clone(), qos: q, retain: rt, dup: false, pid: None, props: vec![], prio: 128 };
    for (n, c, w) in [
        ("simple", PublishCommand::simple(t.as_str(), p.clone(), q, rt), base.clone()),
        ("with_priority", PublishCommand::with_priority(t.as_str(), p.clone(), q, rt, pr), PubFields { prio: pr, ..base.clone() }),
        ("new", PublishCommand::new(t.clone(), p.clone(), q, rt, du, id, conv::props_from_model(&m.props), pr), PubFields { dup: du, pid: id, props: m.props.clone(), prio: pr, ..base }),
    ] {
        ensure!(fields(&c) == w, format!("publish-{n}"), "PublishCommand::{n} gave {:?}, expected {w:?}", fields(&c));
    }
    Ok(())
}

fn subscribe_case(r: &mut Rng, o: &mut Obs) -> Verdict {
    let g = Gen { small: 10, big_every: 200 };
    let mut subs: Vec<(String, u8)> = vec![];
    let mut props: Vec<P> = vec![];
    let mut pid = None;
    let mut b = if r.bool() { SubscribeCommand::builder() } else { SubscribeCommandBuilder::default() };
    let mut tr = String::new();
    for _ in 0..r.below(12) {
        let k = r.below(9);
        tr += &format!("{k} ");
        if (2..=4).contains(&k) {
            let (flag, rh) = (r.bool(), *r.pick(&[0u8, 1, 2, 2, 1, 3, 255]));
            let b2 = b.clone();
            let res = catch(move || match k {
                2 => b2.with_no_local(flag),
                3 => b2.with_retain_as_published(flag),
                _ => b2.with_retain_handling(rh),
            });
            let refuse = subs.is_empty() || (k == 4 && rh > 2);
            match res {
                Err(_) => {
                    ensure!(refuse, "subscribe-refused", "a valid option was refused: {tr}");
                    o.count("refused");
                }
                Ok(x) => {
                    ensure!(!refuse, "subscribe-accepted", "option {k} (retain handling {rh}) accepted with {} topics", subs.len());
                    b = x;
                    let last = subs.last_mut().unwrap();
                    match k {
                        2 => last.1 = (last.1 & !4) | (flag as u8) << 2,
                        3 => last.1 = (last.1 & !8) | (flag as u8) << 3,
                        _ => last.1 = (last.1 & !0x30) | rh << 4,
                    }
                }
            }
            continue;
        }
        b = match k {
            0 => { let (f, q) = (g.filter(r), r.below(3) as u8); subs.push((f.clone(), q)); b.add_topic(f, q) }
            1 => {
                let (f, q, nl, rap, rh) = (g.filter(r), r.below(3) as u8, r.bool(), r.bool(), r.below(3) as u8);
                subs.push((f.clone(), q | (nl as u8) << 2 | (rap as u8) << 3 | rh << 4));
                b.add_topic_with_options(f, q, nl, rap, rh)
            }
            5 => { let v = 1 + r.below(268_435_455) as u32; props.push(P::Vbi(0x0b, v)); b.with_subscription_id(v) }
            6 => { let p = P::Pair(g.text(r), g.text(r)); props.push(p.clone()); b.add_property(conv::prop_from_model(&p)) }
            7 => { let p = g.pid(r); pid = Some(p); b.with_packet_id(p) }
            _ => b,
        };
    }
    let c = match b.build() {
        Err(SubscribeBuilderError::NoTopics) => {
            ensure!(subs.is_empty(), "subscribe-refused", "build refused although topics were added: {tr}");
            o.count("refused");
            return Ok(());
        }
        Ok(c) => c,
    };
    let opts = |s: &flowsdk::mqtt_serde::mqttv5::subscribe::TopicSubscription| (s.topic_filter.clone(), s.qos | (s.no_local as u8) << 2 | (s.retain_as_published as u8) << 3 | s.retain_handling << 4);
    ensure!(!subs.is_empty(), "subscribe-without-topics", "build succeeded without a topic: {tr}");
    let got: Vec<(String, u8)> = c.subscriptions.iter().map(opts).collect();
    ensure!(got == subs && conv::props_to_model(&c.properties) == props && c.packet_id == pid, "subscribe-fields", "built {c:?}, set {subs:?} {props:?} {pid:?}");
    // on the wire
    for v5 in [true, false] {
        let mut w = Pkt::new(v5, SUBSCRIBE);
        w.pid = pid.or(Some(1));
        w.filters = if v5 { subs.clone() } else { subs.iter().map(|(f, q)| (f.clone(), q & 3)).collect() };
        w.props = if v5 { props.clone() } else { vec![] };
        if !matches!(decode(&encode(&w), v5), Ok((x, _)) if x == w) {
            continue;
        }
        let mut e = engine(v5);
        let res = e.subscribe(c.clone());
        let got = wire(&mut e, v5)?;
        w.pid = res.as_ref().ok().copied();
        ensure!(got == [w.clone()] && (pid.is_none() || w.pid == pid), "subscribe-wire", "subscribe gave {res:?} and wrote {got:?}, expected {w:?} (packet id {pid:?})");
        o.count("subscribed");
    }
    // unsubscribe and the constructors
    let fs: Vec<String> = (0..r.range(1, 4)).map(|_| g.filter(r)).collect();
    let ups: Vec<P> = (0..r.below(3)).map(|_| P::Pair(g.text(r), g.text(r))).collect();
    let u = UnsubscribeCommand::new(pid, fs.clone(), conv::props_from_model(&ups));
    ensure!(u.packet_id == pid && u.topics == fs && conv::props_to_model(&u.properties) == ups, "unsubscribe-fields", "built {u:?}");
    let v5 = r.bool();
    let mut w = Pkt::new(v5, UNSUBSCRIBE);
    w.pid = pid.or(Some(1));
    w.filters = fs.iter().map(|f| (f.clone(), 0)).collect();
    w.props = if v5 { ups } else { vec![] };
    if matches!(decode(&encode(&w), v5), Ok((x, _)) if x == w) {
        let mut e = engine(v5);
        let res = e.unsubscribe(u);
        let got = wire(&mut e, v5)?;
        w.pid = res.as_ref().ok().copied();
        ensure!(got == [w.clone()] && (pid.is_none() || w.pid == pid), "unsubscribe-wire", "unsubscribe gave {res:?} and wrote {got:?}, expected {w:?}");
        o.count("unsubscribed");
    }
    let u = UnsubscribeCommand::from_topics(fs.clone());
    ensure!(u.packet_id.is_none() && u.topics == fs && u.properties.is_empty(), "unsubscribe-from_topics", "built {u:?}");
    let (f, q) = (g.filter(r), r.below(3) as u8);
    let s = SubscribeCommand::single(f.as_str(), q);
    ensure!(s.packet_id.is_none() && s.properties.is_empty() && s.subscriptions.iter().map(opts).collect::<Vec<_>>() == [(f.clone(), q)], "subscribe-single", "built {s:?}");
    o.case(hash64(tr.as_bytes()) ^ hash64(f.as_bytes()));
    Ok(())
}

/// every option as text, by name
fn optmap(m: &MqttClientOptions) -> BTreeMap<&'static str, String> {
    let f = |s: &flowsdk::mqtt_serde::mqttv5::subscribe::TopicSubscription| format!("{s:?}");
    BTreeMap::from([
        ("peer", m.peer.clone()),
        ("client_id", m.client_id.clone()),
        ("clean_start", m.clean_start.to_string()),
        ("keep_alive", m.keep_alive.to_string()),
        ("username", format!("{:?}", m.username)),
        ("password", format!("{:?}", m.password)),
        ("will", format!("{:?}", m.will)),
        ("reconnect", m.reconnect.to_string()),
        ("mqtt_version", m.mqtt_version.to_string()),
        ("sessionless", m.sessionless.to_string()),
        ("subscription_topics", m.subscription_topics.iter().map(f).collect::<Vec<_>>().join(";")),
        ("auto_ack", m.auto_ack.to_string()),
        ("session_expiry_interval", format!("{:?}", m.session_expiry_interval)),
        ("maximum_packet_size", format!("{:?}", m.maximum_packet_size)),
        ("request_response_information", format!("{:?}", m.request_response_information)),
        ("request_problem_information", format!("{:?}", m.request_problem_information)),
        ("reconnect_base_delay_ms", m.reconnect_base_delay_ms.to_string()),
        ("reconnect_max_delay_ms", m.reconnect_max_delay_ms.to_string()),
        ("max_reconnect_attempts", m.max_reconnect_attempts.to_string()),
        ("retransmission_timeout_ms", m.retransmission_timeout_ms.to_string()),
        ("ping_timeout_multiplier", m.ping_timeout_multiplier.to_string()),
        ("max_outgoing_packet_count", m.max_outgoing_packet_count.to_string()),
        ("max_event_count", m.max_event_count.to_string()),
        ("receive_maximum", m.receive_maximum.to_string()),
        ("parser_buffer_size", m.parser_buffer_size.to_string()),
        ("auto_keepalive", m.auto_keepalive.to_string()),
    ])
}

fn options_case(r: &mut Rng, o: &mut Obs) -> Verdict {
    let g = Gen { small: 10, big_every: 200 };
    let mut b = MqttClientOptions::builder();
    let mut want = optmap(&MqttClientOptions::default());
    let mut subs: Vec<String> = vec![];
    let mut key = 0u64;
    let sub = |r: &mut Rng| flowsdk::mqtt_serde::mqttv5::subscribe::TopicSubscription::new(g.filter(r), r.below(3) as u8, r.bool(), r.bool(), r.below(3) as u8);
    for _ in 0..r.range(1, 30) {
        let k = r.below(28);
        key = key.rotate_left(5) ^ k as u64;
        macro_rules! set {
            ($n:ident, $v:expr) => {{ let v = $v; want.insert(stringify!($n), v.to_string()); b = b.$n(v); }};
        }
        macro_rules! some {
            ($n:ident, $v:expr) => {{ let v = $v; want.insert(stringify!($n), format!("{:?}", Some(v.clone()))); b = b.$n(v); }};
        }
        match k {
            0 => set!(peer, g.text(r)),
            1 => set!(client_id, g.text(r)),
            2 => set!(clean_start, r.bool()),
            3 => set!(keep_alive, r.u16()),
            4 => set!(auto_keepalive, r.bool()),
            5 => some!(username, g.text(r)),
            6 => some!(password, g.bin(r)),
            7 => {
                let c = loop {
                    let p = g.packet(r, true, CONNECT);
                    if let Some(w) = p.conn.unwrap().will { break w }
                };
                some!(will, conv::will5_from_model(&c))
            }
            8 => set!(reconnect, r.bool()),
            9 => set!(sessionless, r.bool()),
            10 => {
                let v: Vec<_> = (0..r.below(3)).map(|_| sub(r)).collect();
                subs = v.iter().map(|s| format!("{s:?}")).collect();
                b = b.subscription_topics(v);
                want.insert("subscription_topics", subs.join(";"));
            }
            11 => {
                let v = sub(r);
                subs.push(format!("{v:?}"));
                b = b.add_subscription_topic(v);
                want.insert("subscription_topics", subs.join(";"));
            }
            12 => set!(auto_ack, r.bool()),
            13 => {
                let v = *r.pick(&[3u8, 4, 5, 5, 4, 0, 1, 2, 6, 255]);
                match catch(|| MqttClientOptions::builder().mqtt_version(v).mqtt_version) {
                    Ok(x) => {
                        ensure!((3..=5).contains(&v) && x == v, "options-version", "mqtt_version({v}) accepted as {x}");
                        set!(mqtt_version, v);
                    }
                    Err(_) => {
                        ensure!(!(3..=5).contains(&v), "options-version", "mqtt_version({v}) refused");
                        o.count("refused");
                    }
                }
            }
            14 => some!(session_expiry_interval, g.u32(r)),
            15 => {
                let v = *r.pick(&[0u32, 1, 100, 268_435_460, u32::MAX]);
                match catch(|| MqttClientOptions::builder().maximum_packet_size(v).maximum_packet_size) {
                    Ok(x) => {
                        ensure!(v > 0 && x == Some(v), "options-packet-size", "maximum_packet_size({v}) accepted as {x:?}");
                        some!(maximum_packet_size, v);
                    }
                    Err(_) => {
                        ensure!(v == 0, "options-packet-size", "maximum_packet_size({v}) refused");
                        o.count("refused");
                    }
                }
            }
            16 => { b = b.no_maximum_packet_size(); want.insert("maximum_packet_size", "None".into()); }
            17 => some!(request_response_information, r.bool()),
            18 => some!(request_problem_information, r.bool()),
            19 => set!(reconnect_base_delay_ms, r.u64()),
            20 => set!(reconnect_max_delay_ms, r.u64()),
            21 => set!(max_reconnect_attempts, r.u32()),
            22 => set!(retransmission_timeout_ms, r.u64()),
            23 => set!(ping_timeout_multiplier, r.u32()),
            24 => set!(max_outgoing_packet_count, r.u32() as usize),
            25 => set!(max_event_count, r.u32() as usize),
            26 => set!(receive_maximum, r.u16()),
            _ => set!(parser_buffer_size, r.u32() as usize),
        }
        let got = optmap(&b);
        for (n, w) in &want {
            ensure!(&got[n] == w, format!("options-{n}"), "after call {k} option {n} is {}, expected {w}", got[n]);
        }
        o.count("options_set");
    }
    let got = optmap(&b.build());
    ensure!(got == want, "options-build", "build() changed {:?}", got.iter().filter(|(k, v)| want[*k] != **v).collect::<Vec<_>>());
    o.case(key);
    Ok(())
}

pub fn c37() {
    let mut run = Run::new("C37", "a sequence of builder calls (kinds and order) with random values");
    for (k, n) in [("refused", 3_000), ("published", 3_000), ("subscribed", 3_000), ("unsubscribed", 2_000), ("options_set", 50_000), ("repeated_settings", 3_000)] {
        run.need(k, n);
    }
    let n = run.scale(15_000, 400_000);
    let s = run.scale(15, 150) as f64;
    run.cases("publish", n, s, |_, r, o| publish_case(r, o));
    run.cases("subscribe", n, s, |_, r, o| subscribe_case(r, o));
    run.cases("options", n, s, |_, r, o| options_case(r, o));
    run.finish()
}
