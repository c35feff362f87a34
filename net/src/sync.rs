//! C28: concurrent blocking calls on one tokio client, each matched with its own acknowledgement.
use crate::tk::*;
use flowsdk::mqtt_client::commands::*;
use flowsdk::mqtt_client::tokio_async_client::{TokioAsyncClientConfig, TokioAsyncMqttClient};
use flowsdk::mqtt_client::{MqttClientError, MqttClientOptions};
use flowsdk::mqtt_serde::mqttv5::subscribe::TopicSubscription;
use kit::*;
use refmqtt::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What the broker knows of one operation, by its tag.
#[derive(Clone, Debug, Default)]
struct Seen {
    pid: u16,
    times: usize,
    /// the last step of its acknowledgement is (about to be) written
    sent: bool,
    codes: Vec<u8>,
}

#[derive(Default)]
struct Book {
    ops: Mutex<BTreeMap<String, Seen>>,
    pongs: AtomicU64,
    connacks: AtomicU64,
    bad: Mutex<Option<String>>,
    /// order in which final acknowledgements went out
    order: Mutex<Vec<(u8, u16)>>,
}

/// An answer the broker owes.
#[derive(Clone)]
struct Owed {
    tag: String,
    ty: u8,
    pid: u16,
    n: usize,
}

fn tag_of(p: &Pkt) -> String {
    match p.ty {
        PUBLISH => p.topic.clone(),
        _ => p.filters[0].0.clone(),
    }
}

async fn broker(mut peer: Peer, book: Arc<Book>, mut r: Rng, rm: Option<u16>, hold: u64) {
    let mut owed: Vec<Owed> = vec![];
    let mut pings = 0u64;
    let v5 = peer.v5;
    let mut tags: BTreeMap<u16, String> = BTreeMap::new();
    loop {
        let wait = Duration::from_micros(r.below(hold as usize + 1) as u64);
        tokio::select! {
            biased;
            x = peer.recv() => {
                let v = match x {
                    Ok(Some(v)) => v,
                    Ok(None) => return,
                    Err(e) => { *book.bad.lock().unwrap() = Some(e); return }
                };
                for p in v {
                    match p.ty {
                        CONNECT => {
                            tokio::time::sleep(Duration::from_micros(r.below(20_000) as u64)).await;
                            let mut a = Pkt::new(v5, CONNACK);
                            if v5 {
                                if let Some(m) = rm { a.props.push(P::U16(0x21, m)); }
                            }
                            book.connacks.fetch_add(1, SeqCst);
                            peer.send(&a).await;
                        }
                        PUBLISH => {
                            let tag = tag_of(&p);
                            let mut o = book.ops.lock().unwrap();
                            let s = o.entry(tag.clone()).or_default();
                            s.times += 1;
                            s.pid = p.pid.unwrap_or(0);
                            if p.qos > 0 {
                                tags.insert(s.pid, tag.clone());
                                owed.push(Owed { tag, ty: if p.qos == 1 { PUBACK } else { PUBREC }, pid: s.pid, n: 1 });
                            }
                        }
                        PUBREL => {
                            let pid = p.pid.unwrap();
                            owed.push(Owed { tag: tags.get(&pid).cloned().unwrap_or_default(), ty: PUBCOMP, pid, n: 1 });
                        }
                        SUBSCRIBE | UNSUBSCRIBE => {
                            let tag = tag_of(&p);
                            let mut o = book.ops.lock().unwrap();
                            let s = o.entry(tag.clone()).or_default();
                            s.times += 1;
                            s.pid = p.pid.unwrap();
                            owed.push(Owed { tag, ty: p.ty + 1, pid: s.pid, n: p.filters.len() });
                        }
                        PINGREQ => pings += 1,
                        DISCONNECT => return,
                        _ => *book.bad.lock().unwrap() = Some(format!("unexpected {}", p.name())),
                    }
                }
            }
            _ = tokio::time::sleep(wait), if !owed.is_empty() || pings > 0 => {
                let i = r.below(owed.len() + (pings > 0) as usize);
                if i == owed.len() {
                    pings -= 1;
                    book.pongs.fetch_add(1, SeqCst);
                    peer.send(&Pkt::new(v5, PINGRESP)).await;
                    continue;
                }
                let w = owed.swap_remove(i);
                let mut a = Pkt::ack(v5, w.ty, w.pid, 0);
                if v5 {
                    a.props.push(P::Pair("tag".into(), w.tag.clone()));
                }
                let mut last = true;
                let codes = match w.ty {
                    PUBACK | PUBREC => {
                        a.reason = if v5 { *r.pick(&[0, 0, 0, 0x10, 0x80, 0x87, 0x97]) } else { 0 };
                        last = w.ty == PUBACK || a.reason >= 0x80;
                        vec![a.reason]
                    }
                    PUBCOMP => vec![0],
                    SUBACK => {
                        a.codes = (0..w.n).map(|_| *r.pick(if v5 { &[0u8, 1, 2, 0x80, 0x87][..] } else { &[0u8, 1, 2, 0x80][..] })).collect();
                        a.codes.clone()
                    }
                    _ => {
                        if v5 {
                            a.codes = (0..w.n).map(|_| *r.pick(&[0u8, 0x11, 0x87])).collect();
                        }
                        a.codes.clone()
                    }
                };
                if last {
                    if let Some(s) = book.ops.lock().unwrap().get_mut(&w.tag) {
                        s.sent = true;
                        s.codes = codes;
                    }
                    book.order.lock().unwrap().push((w.ty, w.pid));
                }
                peer.send(&a).await;
            }
        }
    }
}

fn tag_in(props: &[flowsdk::mqtt_serde::mqttv5::common::properties::Property]) -> Option<String> {
    props.iter().find_map(|p| match conv::prop_to_model(p) {
        P::Pair(k, v) if k == "tag" => Some(v),
        _ => None,
    })
}

struct Got {
    pid: u16,
    codes: Vec<u8>,
    tag: Option<String>,
}

/// One call and what came back; then against the broker's book.
async fn call(c: &TokioAsyncMqttClient, book: &Book, pings_back: &AtomicU64, r: &mut Rng, tag: &str, v5: bool, obs: &Mutex<Obs>) -> Verdict {
    let short_ms = r.chance(1, 8).then(|| r.range(0, 6) as u64);
    let kind = r.below(9);
    let what;
    let res: Result<Option<Got>, MqttClientError> = match kind {
        0..=3 => {
            let qos = r.below(3) as u8;
            what = "publish";
            let pl = { let n = r.below(200); r.bytes(n) };
            let prio = *r.pick(&[0u8, 128, 128, 255]);
            let f = async {
                match short_ms {
                    Some(ms) => c.publish_sync_with_timeout(tag, &pl, qos, false, ms).await,
                    None => match prio {
                        128 => c.publish_sync(tag, &pl, qos, false).await,
                        _ => c.publish_sync_with_priority(tag, &pl, qos, false, prio).await,
                    },
                }
            };
            match f.await {
                Ok(x) if qos == 0 => {
                    ensure!(x.packet_id.is_none(), "qos0", "a QoS 0 publish returned {x:?}");
                    obs.lock().unwrap().count("publishes at QoS 0");
                    return Ok(());
                }
                Ok(x) => {
                    ensure!(x.qos == qos, "qos", "a QoS {qos} publish returned {x:?}");
                    Ok(Some(Got { pid: x.packet_id.unwrap_or(0), codes: vec![x.reason_code.unwrap_or(0)], tag: x.properties.as_deref().and_then(tag_in) }))
                }
                Err(e) => Err(e),
            }
        }
        4 | 5 => {
            what = "subscribe";
            let n = r.range(1, 4);
            let subs = (0..n).map(|k| TopicSubscription::new(if k == 0 { tag.to_string() } else { format!("{tag}/{k}") }, r.below(3) as u8, false, false, 0)).collect();
            let f = async {
                match short_ms {
                    Some(ms) => c.subscribe_sync_with_timeout(tag, 1, ms).await,
                    None => c.subscribe_with_command_sync(SubscribeCommand::new(None, subs, vec![])).await,
                }
            };
            f.await.map(|x| Some(Got { pid: x.packet_id, tag: tag_in(&x.properties), codes: x.reason_codes }))
        }
        6 => {
            what = "unsubscribe";
            let n = r.range(1, 3);
            let more: Vec<String> = (0..n).map(|k| if k == 0 { tag.to_string() } else { format!("{tag}/{k}") }).collect();
            let f = async {
                let refs = more.iter().map(|x| x.as_str()).collect();
                match short_ms {
                    Some(ms) => c.unsubscribe_sync_with_timeout(refs, ms).await,
                    None => c.unsubscribe_sync(refs).await,
                }
            };
            f.await.map(|x| Some(Got { pid: x.packet_id, tag: tag_in(&x.properties), codes: x.reason_codes }))
        }
        _ => {
            what = "ping";
            let f = async {
                match short_ms {
                    Some(ms) => c.ping_sync_with_timeout(ms).await,
                    None => c.ping_sync().await,
                }
            };
            match f.await {
                Ok(x) => {
                    // every pong lets one caller go, so never more callers back than pongs
                    let n = pings_back.fetch_add(1, SeqCst) + 1;
                    ensure!(x.success, "ping", "a ping failed on a connection that answers every ping");
                    let sent = book.pongs.load(SeqCst);
                    ensure!(n <= sent, "ping-early", "{n} pings have returned and {sent} PINGRESP were sent");
                    obs.lock().unwrap().count("pings returned");
                    return Ok(());
                }
                Err(e) => Err(e),
            }
        }
    };
    let g = match res {
        Ok(g) => g.unwrap(),
        Err(MqttClientError::OperationTimeout { .. }) if short_ms.is_some() => {
            obs.lock().unwrap().count("calls given up by a short timeout");
            return Ok(());
        }
        Err(e) => return fail("error", format!("{what} {tag} ended in {e:?}")),
    };
    let s = book.ops.lock().unwrap().get(tag).cloned();
    let Some(s) = s else {
        return fail("early", format!("{what} {tag} returned before the broker saw it"));
    };
    ensure!(s.sent, "early", "{what} {tag} (packet {}) returned before its acknowledgement was sent", s.pid);
    ensure!(g.pid == s.pid, "mixed", "{what} {tag} went out as packet {} and returned packet {}", s.pid, g.pid);
    ensure!(g.codes == s.codes, "mixed", "{what} {tag} was answered {:?} and returned {:?}", s.codes, g.codes);
    if v5 {
        ensure!(g.tag.as_deref() == Some(tag), "mixed", "{what} {tag} returned the properties of {:?}", g.tag);
    }
    obs.lock().unwrap().count("calls matched with their acknowledgement");
    Ok(())
}

async fn case(r: &mut Rng, obs: Arc<Mutex<Obs>>) -> Verdict {
    let v5 = r.bool();
    let (l, addr) = listen().await;
    let book = Arc::new(Book::default());
    let rm = r.bool().then(|| *r.pick(&[1u16, 2, 5, 65535]));
    let hold = *r.pick(&[0u64, 300, 3000]);
    let (b2, br) = (book.clone(), Rng::new(r.u64()));
    let server = tokio::spawn(async move {
        let (s, _) = l.accept().await.unwrap();
        broker(Peer::new(tcp(s), v5), b2, br, rm, hold).await;
    });
    let opts = MqttClientOptions {
        peer: addr,
        client_id: "sync".into(),
        keep_alive: 300,
        mqtt_version: if v5 { 5 } else { 4 },
        retransmission_timeout_ms: 1_000_000,
        max_event_count: *r.pick(&[1, 3, 1000, 1000]),
        parser_buffer_size: *r.pick(&[64, 16384]),
        ..Default::default()
    };
    let log = Log::default();
    let cfg = TokioAsyncClientConfig { command_queue_size: *r.pick(&[1, 4, 1000]), ..Default::default() };
    let c = Arc::new(TokioAsyncMqttClient::new(opts, Box::new(H { log: log.clone(), busy: 0, stall: 0, rng: Rng::new(1) }), cfg).await.unwrap());

    // several may wait for the same CONNACK
    let mut t = vec![];
    for _ in 0..r.range(1, 4) {
        let (c, book) = (c.clone(), book.clone());
        t.push(tokio::spawn(async move {
            let x = c.connect_sync().await;
            (x, book.connacks.load(SeqCst))
        }));
    }
    for j in t {
        let (x, n) = j.await.unwrap();
        match x {
            Ok(x) => {
                ensure!(x.reason_code == 0, "connect", "{x:?}");
                ensure!(n > 0, "connect-early", "connect_sync returned success before the CONNACK was sent");
            }
            Err(e) => return fail("connect", format!("connect_sync: {e:?}")),
        }
        obs.lock().unwrap().count("connect calls");
    }

    let pings_back = Arc::new(AtomicU64::new(0));
    let tasks = r.range(1, 12);
    let mut t = vec![];
    for k in 0..tasks {
        let (c, book, pb, obs, mut r) = (c.clone(), book.clone(), pings_back.clone(), obs.clone(), Rng::new(r.u64()));
        t.push(tokio::spawn(async move {
            for n in 0..r.range(1, 8) {
                if r.chance(1, 4) {
                    tokio::time::sleep(Duration::from_micros(r.below(2000) as u64)).await;
                }
                call(&c, &book, &pb, &mut r, &format!("op/{k}/{n}"), v5, &obs).await?;
            }
            Ok(())
        }));
    }
    for j in t {
        let v: Verdict = j.await.unwrap_or_else(|e| fail("panic", format!("{e}")));
        if v.is_err() {
            if let Some(b) = book.bad.lock().unwrap().clone() {
                return fail("wire", b);
            }
            return v;
        }
    }
    // everything is acknowledged in the end, and reported to the handler once
    for _ in 0..4000 {
        let open = book.ops.lock().unwrap().values().any(|s| s.pid != 0 && !s.sent);
        let n = book.order.lock().unwrap().len();
        let got = log.count(|c| matches!(c, Cb::Published(..) | Cb::Subscribed(..) | Cb::Unsubscribed(..)));
        if !open && got >= n {
            break;
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    if let Some(b) = book.bad.lock().unwrap().clone() {
        return fail("wire", b);
    }
    let order = book.order.lock().unwrap().clone();
    let got: Vec<(u8, u16)> = log
        .all()
        .iter()
        .filter_map(|c| match c {
            Cb::Published(p, _) => Some((0, *p)),
            Cb::Subscribed(p, _) => Some((SUBACK, *p)),
            Cb::Unsubscribed(p, _) => Some((UNSUBACK, *p)),
            _ => None,
        })
        .collect();
    let want: Vec<(u8, u16)> = order.iter().map(|x| (if matches!(x.0, SUBACK | UNSUBACK) { x.0 } else { 0 }, x.1)).collect();
    ensure!(got == want, "callbacks", "acknowledged in the order {want:?}, reported to the handler as {got:?}");
    for (tag, s) in book.ops.lock().unwrap().iter() {
        ensure!(s.times == 1, "twice", "{tag} was sent {} times", s.times);
    }
    let errs: Vec<Cb> = log.all().into_iter().filter(|c| matches!(c, Cb::Error(_) | Cb::Lost)).collect();
    ensure!(errs.is_empty(), "error", "{errs:?}");
    obs.lock().unwrap().case(hash64(format!("{order:?}").as_bytes()));
    server.abort();
    Ok(())
}

/// An automatic PINGREQ is under way when a ping is called for: two pings, two answers, and the
/// caller waits for its own.
async fn pings(r: &mut Rng, obs: Arc<Mutex<Obs>>) -> Verdict {
    let v5 = r.bool();
    let (l, addr) = listen().await;
    let opts = MqttClientOptions { peer: addr, client_id: "ping".into(), keep_alive: 1, ping_timeout_multiplier: 30, mqtt_version: if v5 { 5 } else { 4 }, ..Default::default() };
    let log = Log::default();
    let c = Arc::new(TokioAsyncMqttClient::new(opts, Box::new(H { log: log.clone(), busy: 0, stall: 0, rng: Rng::new(1) }), TokioAsyncClientConfig::default()).await.unwrap());
    let c2 = c.clone();
    let con = tokio::spawn(async move { c2.connect_sync().await });
    let (s, _) = l.accept().await.unwrap();
    let mut p = Peer::new(tcp(s), v5);
    let mut pings = 0;
    let mut connected = false;
    let mut back = vec![];
    let mut mine = vec![];
    let back_n = Arc::new(AtomicU64::new(0));
    let mut sent = 0u64;
    let fire = r.range(1, 3);
    let early = r.bool();
    let d = Duration::from_millis(r.below(20) as u64);
    let deadline = tokio::time::Instant::now() + Duration::from_secs(8);
    // one automatic ping, then some of ours
    while pings < 1 + fire {
        let x = match tokio::time::timeout_at(deadline, p.recv()).await {
            Ok(Ok(Some(x))) => x,
            e => return fail("hang", format!("only {pings} PINGREQ: {e:?}")),
        };
        for k in x {
            if k.ty == CONNECT {
                p.send(&Pkt::new(v5, CONNACK)).await;
                connected = true;
            } else if k.ty == PINGREQ {
                pings += 1;
                if pings == 1 {
                    for i in 0..fire {
                        let (c, n) = (c.clone(), back_n.clone());
                        if !early && i > 0 {
                            tokio::time::sleep(d).await;
                        }
                        mine.push(tokio::spawn(async move {
                            let x = c.ping_sync().await;
                            n.fetch_add(1, SeqCst);
                            x
                        }));
                    }
                }
            }
        }
    }
    ensure!(connected && con.await.unwrap().is_ok(), "connect", "no connection");
    for i in 0..pings {
        p.send(&Pkt::new(v5, PINGRESP)).await;
        sent += 1;
        tokio::time::sleep(Duration::from_millis(30)).await;
        let n = back_n.load(SeqCst);
        // the first answer belongs to the automatic ping
        ensure!(n <= i as u64, "ping-early", "{sent} PINGRESP sent, the first of them for an automatic ping, and {n} calls are back");
    }
    for m in mine.drain(..) {
        match tokio::time::timeout(Duration::from_secs(3), m).await {
            Ok(Ok(Ok(x))) => back.push(x.success),
            e => return fail("ping", format!("after every ping was answered: {e:?}")),
        }
    }
    ensure!(back.iter().all(|x| *x), "ping", "{back:?}");
    obs.lock().unwrap().add("pings called while an automatic one was under way", fire as u64);
    obs.lock().unwrap().case(r.u64());
    Ok(())
}

pub fn on_rt<F>(r: &mut Rng, obs: &mut Obs, limit: u64, f: F) -> Verdict
where
    F: for<'a> FnOnce(&'a mut Rng, Arc<Mutex<Obs>>) -> std::pin::Pin<Box<dyn std::future::Future<Output = Verdict> + 'a>>,
{
    let o = Arc::new(Mutex::new(Obs::default()));
    let mut r2 = Rng::new(r.u64());
    let v = block(r, limit, f(&mut r2, o.clone()));
    *obs = std::mem::take(&mut *o.lock().unwrap());
    v
}

pub fn c28() {
    let mut run = Run::new("C28", "at least one call was matched with its acknowledgement");
    for (k, n) in [("calls matched with their acknowledgement", 5000), ("pings returned", 1000), ("connect calls", 500), ("calls given up by a short timeout", 100), ("pings called while an automatic one was under way", 20)] {
        run.need(k, n);
    }
    run.assume("a broker on loopback that answers everything, in any order");
    run.cases_on("calls", run.scale(1_000, 30_000), run.scale(40, 500) as f64, 16, |_, r, o| on_rt(r, o, 25, |r, o| Box::pin(case(r, o))));
    run.cases_on("pings", run.scale(48, 1_000), run.scale(30, 200) as f64, 32, |_, r, o| on_rt(r, o, 15, |r, o| Box::pin(pings(r, o))));
    run.finish()
}
