//! C29: connections that end at any byte, and what the tokio client makes of it.
use crate::sync::on_rt;
use crate::tk::*;
use flowsdk::mqtt_client::commands::*;
use flowsdk::mqtt_client::tokio_async_client::{TokioAsyncClientConfig, TokioAsyncMqttClient};
use flowsdk::mqtt_client::MqttClientOptions;
use kit::*;
use refmqtt::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

/// When a connection ends.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
    Never,
    /// after that many bytes from the client
    In(usize),
    /// after that many bytes to the client
    Out(usize),
    /// as soon as it is accepted
    Early,
    /// the CONNACK carries an error
    Refuse,
    /// after that many packets from the client nothing is read or written any more
    Silent(usize),
    /// after that long
    After(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Fin,
    Rst,
    /// a DISCONNECT (MQTT 5), perhaps in one write with a message that wants an answer
    Bye(u8),
}

#[derive(Default)]
struct Broker {
    v5: bool,
    session: bool,
    qos2: BTreeSet<u16>,
    delivered: Vec<(String, Vec<u8>, u8)>,
    accepts: Vec<Instant>,
    /// connections ended by the broker
    ended: usize,
    /// connections ended by the client
    left: usize,
    byes: usize,
    connacks: usize,
    pings: usize,
    open: usize,
    bad: Option<String>,
    fates: VecDeque<(Fate, How)>,
    seen: Vec<String>,
}

type Sh = Arc<Mutex<Broker>>;

#[allow(deprecated)]
async fn end(mut s: TcpStream, how: How, sh: &Sh) {
    {
        let mut b = sh.lock().unwrap();
        b.ended += 1;
        b.open -= 1;
    }
    match how {
        How::Rst => {
            let _ = s.set_linger(Some(Duration::ZERO));
        }
        _ => {
            let _ = s.shutdown().await;
            // what is still unread must not turn the end into a reset
            let mut junk = [0u8; 4096];
            let _ = tokio::time::timeout(Duration::from_secs(2), async { while matches!(s.read(&mut junk).await, Ok(n) if n > 0) {} }).await;
        }
    }
}

/// One connection, from accept to its end.
async fn serve(mut s: TcpStream, sh: Sh, fate: Fate, how: How, mut r: Rng) {
    let _ = s.set_nodelay(true);
    let v5 = sh.lock().unwrap().v5;
    if fate == Fate::Early {
        return end(s, how, &sh).await;
    }
    let start = Instant::now();
    let mut buf: Vec<u8> = vec![];
    let (mut got, mut put, mut packets) = (0usize, 0usize, 0usize);
    loop {
        let room = match fate {
            Fate::In(n) => (n - got.min(n)).min(4096),
            _ => 4096,
        };
        if room == 0 {
            break;
        }
        if let Fate::Silent(n) = fate {
            if packets >= n {
                // nothing more, until the client goes
                tokio::time::sleep(Duration::from_secs(30)).await;
                return;
            }
        }
        let mut chunk = vec![0u8; room];
        let left = match fate {
            Fate::After(us) => Duration::from_micros(us).saturating_sub(start.elapsed()),
            _ => Duration::from_secs(60),
        };
        let n = tokio::select! {
            x = s.read(&mut chunk) => x.unwrap_or(0),
            _ = tokio::time::sleep(left) => break,
        };
        if n == 0 {
            let mut b = sh.lock().unwrap();
            b.left += 1;
            b.open -= 1;
            return;
        }
        got += n;
        buf.extend_from_slice(&chunk[..n]);
        let (v, used) = match decode_all(&buf, v5) {
            Ok(x) => x,
            Err(e) => {
                sh.lock().unwrap().bad = Some(format!("the client sent no MQTT: {e:?} in {}", hex(&buf[..buf.len().min(60)])));
                return;
            }
        };
        buf.drain(..used);
        let mut out: Vec<u8> = vec![];
        if v.iter().any(|p| p.ty == CONNECT) && r.chance(1, 3) {
            tokio::time::sleep(Duration::from_micros(r.below(4000) as u64)).await;
        }
        for p in v {
            packets += 1;
            let mut b = sh.lock().unwrap();
            let first = packets == 1;
            if first != (p.ty == CONNECT) {
                b.bad = Some(format!("packet {packets} of a connection is {}", p.name()));
                return;
            }
            b.seen.push(p.name().to_string());
            match p.ty {
                CONNECT => {
                    let mut a = Pkt::new(v5, CONNACK);
                    if fate == Fate::Refuse {
                        a.reason = if v5 { 0x88 } else { 3 };
                        out.extend(encode(&a));
                        break;
                    }
                    a.session_present = b.session;
                    b.session = true;
                    b.connacks += 1;
                    out.extend(encode(&a));
                }
                PUBLISH => {
                    let pid = p.pid.unwrap_or(0);
                    if p.qos < 2 || b.qos2.insert(pid) {
                        b.delivered.push((p.topic.clone(), p.payload.clone(), p.qos));
                    }
                    if p.qos > 0 {
                        out.extend(encode(&Pkt::ack(v5, if p.qos == 1 { PUBACK } else { PUBREC }, pid, 0)));
                    }
                }
                PUBREL => {
                    b.qos2.remove(&p.pid.unwrap());
                    out.extend(encode(&Pkt::ack(v5, PUBCOMP, p.pid.unwrap(), 0)));
                }
                PINGREQ => {
                    b.pings += 1;
                    out.extend(encode(&Pkt::new(v5, PINGRESP)));
                }
                SUBSCRIBE | UNSUBSCRIBE => {
                    let mut a = Pkt::ack(v5, p.ty + 1, p.pid.unwrap(), 0);
                    if v5 || p.ty == SUBSCRIBE {
                        a.codes = vec![0; p.filters.len()];
                    }
                    out.extend(encode(&a));
                }
                PUBACK | PUBREC | PUBCOMP | AUTH => {}
                DISCONNECT => b.byes += 1,
                _ => {
                    b.bad = Some(format!("unexpected {}", p.name()));
                    return;
                }
            }
        }
        if let Fate::Out(n) = fate {
            out.truncate(n - put.min(n));
        }
        put += out.len();
        if !out.is_empty() {
            // if it fails, the client has gone, and what it said before is still to be read
            let _ = s.write_all(&out).await;
        }
        if fate == Fate::Refuse || matches!(fate, Fate::Out(n) if put >= n) {
            break;
        }
    }
    if let How::Bye(code) = how {
        let mut out = vec![];
        if packets > 0 && r.bool() {
            let mut m = Pkt::new(v5, PUBLISH);
            m.topic = "bye".into();
            m.qos = 1;
            m.pid = Some(1);
            out.extend(encode(&m));
        }
        let mut d = Pkt::new(v5, DISCONNECT);
        d.reason = code;
        out.extend(encode(&d));
        let _ = s.write_all(&out).await;
    }
    end(s, how, &sh).await;
}

/// Takes connections for as long as it is not stopped.
fn accept_loop(l: TcpListener, sh: Sh, mut r: Rng) -> tokio::task::JoinHandle<()> {
    tokio::spawn(async move {
        while let Ok((s, _)) = l.accept().await {
            let (fate, how) = {
                let mut b = sh.lock().unwrap();
                b.accepts.push(Instant::now());
                b.open += 1;
                b.fates.pop_front().unwrap_or((Fate::Never, How::Fin))
            };
            tokio::spawn(serve(s, sh.clone(), fate, how, Rng::new(r.u64())));
        }
    })
}

async fn until(limit: Duration, f: impl Fn() -> bool) -> bool {
    let t = Instant::now();
    while t.elapsed() < limit {
        if f() {
            return true;
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    f()
}

const LONG: Duration = Duration::from_secs(15);

struct Rig {
    sh: Sh,
    log: Log,
    c: Arc<TokioAsyncMqttClient>,
    base: u64,
    max: u64,
    v5: bool,
    addr: String,
    srv: Option<tokio::task::JoinHandle<()>>,
    sent: BTreeMap<String, u8>,
    auto: bool,
}

struct Set {
    auto: bool,
    base: u64,
    max: u64,
    attempts: (u32, u32),
    keep_alive: u16,
    mult: u32,
    listening: bool,
}

impl Default for Set {
    fn default() -> Set {
        Set { auto: true, base: 15, max: 60, attempts: (0, 0), keep_alive: 300, mult: 2, listening: true }
    }
}

async fn rig(r: &mut Rng, s: Set, fates: Vec<(Fate, How)>) -> Rig {
    let v5 = fates.iter().any(|f| matches!(f.1, How::Bye(_))) || r.bool();
    let (l, addr) = listen().await;
    let sh: Sh = Arc::new(Mutex::new(Broker { v5, fates: fates.into(), ..Default::default() }));
    let mut srv = None;
    if s.listening {
        srv = Some(accept_loop(l, sh.clone(), Rng::new(r.u64())));
    }
    let by_config = r.bool();
    let mut o = MqttClientOptions {
        peer: if r.bool() { addr.clone() } else { format!("mqtt://{addr}") },
        client_id: "loss".into(),
        clean_start: false,
        keep_alive: s.keep_alive,
        ping_timeout_multiplier: s.mult,
        mqtt_version: if v5 { 5 } else { 4 },
        retransmission_timeout_ms: 1_000_000,
        reconnect_base_delay_ms: s.base,
        max_event_count: *r.pick(&[1, 3, 1000, 1000]),
        max_reconnect_attempts: s.attempts.0,
        session_expiry_interval: v5.then_some(1000),
        ..Default::default()
    };
    if !by_config {
        o.reconnect_max_delay_ms = s.max;
    }
    let cfg = TokioAsyncClientConfig {
        auto_reconnect: s.auto,
        max_reconnect_delay_ms: if by_config { s.max } else { 30_000 },
        max_reconnect_attempts: s.attempts.1,
        ..Default::default()
    };
    let log = Log::default();
    let c = Arc::new(TokioAsyncMqttClient::new(o, Box::new(H { log: log.clone(), busy: 0, stall: 0, rng: Rng::new(1) }), cfg).await.unwrap());
    Rig { sh, log, c, base: s.base, max: s.max, v5, addr, srv, sent: BTreeMap::new(), auto: s.auto }
}

fn lost(c: &Cb) -> bool {
    *c == Cb::Lost
}
fn failed(c: &Cb) -> bool {
    matches!(c, Cb::Error(e) if e.contains("connection failed to"))
}

impl Rig {
    async fn publish(&mut self, n: usize, r: &mut Rng) {
        let qos = *r.pick(&[0u8, 1, 1, 2, 2]);
        let text = format!("{n:04}:{}", "x".repeat(*r.pick(&[0usize, 10, 10, 200, 3000])));
        let cmd = PublishCommand::builder().topic(&format!("t/{}", n % 7)).payload(text.clone().into_bytes()).qos(qos).build().unwrap();
        if self.c.publish_with_command(cmd).await.is_ok() {
            self.sent.insert(text, qos);
        }
    }
    fn missing(&self) -> Option<String> {
        let b = self.sh.lock().unwrap();
        let got: BTreeSet<&[u8]> = b.delivered.iter().map(|x| &x.1[..]).collect();
        self.sent.iter().find(|(p, q)| **q > 0 && !got.contains(p.as_bytes())).map(|x| short(x.0, 12))
    }
    fn bad(&self) -> Verdict {
        if let Some(b) = self.sh.lock().unwrap().bad.clone() {
            return fail("wire", b);
        }
        Ok(())
    }
    fn story(&self) -> String {
        let limit = std::env::var("STORY").map_or(900, |x| x.parse().unwrap());
        let b = self.sh.lock().unwrap();
        let Some(t0) = b.accepts.first().copied() else { return "no connection".into() };
        let mut v: Vec<(Instant, String)> = b.accepts.iter().map(|t| (*t, "ACCEPT".to_string())).collect();
        for (t, c) in self.log.0.lock().unwrap().iter() {
            if !matches!(c, Cb::Published(..) | Cb::Message(..) | Cb::Pong(true)) && *c != Cb::Error("NotConnected".into()) {
                v.push((*t, short(&format!("{c:?}"), 60)));
            }
        }
        v.sort_by_key(|x| x.0);
        let s: Vec<String> = v.iter().map(|(t, s)| format!("{}ms {s}", t.saturating_duration_since(t0).as_millis())).collect();
        short(&s.join(" | "), limit)
    }
    /// Everything accepted is with the broker, as often as its QoS says, and has been reported.
    async fn settled(&self, obs: &Arc<Mutex<Obs>>) -> Verdict {
        if self.log.count(|c| matches!(c, Cb::Error(e) if e.contains("No session available"))) > 0 {
            // the first connect failed, and publishes before the next one were refused
            obs.lock().unwrap().trivial();
            return Ok(());
        }
        until(LONG, || self.missing().is_none() || self.bad().is_err()).await;
        self.bad()?;
        if let Some(m) = self.missing() {
            return fail("undelivered", format!("{m} never reached the broker, which resumes the session; {}", self.story()));
        }
        let n = self.sent.values().filter(|q| **q > 0).count();
        let told = || self.log.count(|c| matches!(c, Cb::Published(id, _) if *id > 0));
        until(LONG, || told() >= n).await;
        ensure!(told() == n, "published", "{n} publishes with QoS 1 or 2 were accepted and {} reported as published; {}", told(), self.story());
        let delivered = self.sh.lock().unwrap().delivered.clone();
        let mut times: BTreeMap<&[u8], usize> = BTreeMap::new();
        for (_, p, q) in &delivered {
            let text = String::from_utf8_lossy(p).to_string();
            ensure!(self.sent.get(&text) == Some(q), "content", "the broker got {:?} at QoS {q}", short(&text, 20));
            *times.entry(p).or_default() += 1;
        }
        for (p, n) in times {
            let q = self.sent[std::str::from_utf8(p).unwrap()];
            ensure!(q == 1 || n == 1, "twice", "a QoS {q} message was delivered {n} times; {}", self.story());
        }
        obs.lock().unwrap().add("publishes delivered as their QoS says", self.sent.len() as u64);
        Ok(())
    }
    /// The losses, attempts and connections in the order they happened.
    fn chronicle(&self, obs: &Arc<Mutex<Obs>>, fixed: bool) -> Verdict {
        let b = self.sh.lock().unwrap();
        let mut v: Vec<(Instant, u8, u32)> = b.accepts.iter().map(|t| (*t, 2, 0)).collect();
        let ended = b.ended;
        drop(b);
        for (t, c) in self.log.0.lock().unwrap().iter() {
            match c {
                Cb::Lost => v.push((*t, 0, 0)),
                c if failed(c) => v.push((*t, 0, 1)),
                Cb::Attempt(n) => v.push((*t, 1, *n)),
                Cb::Connected(0, _) => v.push((*t, 3, 0)),
                _ => {}
            }
        }
        v.sort_by_key(|x| x.0);
        let mut k = 0u32;
        // the last loss, if nothing has come after it
        let mut since: Option<Instant> = None;
        let mut told = true;
        for (t, what, n) in v {
            match what {
                0 => {
                    ensure!(told || !self.auto, "attempt-missing", "a loss after which no attempt was announced; {}", self.story());
                    k += 1;
                    since = Some(t);
                    told = false;
                }
                1 => {
                    ensure!(self.auto, "attempt-off", "attempt {n} with automatic reconnection off; {}", self.story());
                    ensure!(!told, "attempt-twice", "attempt {n} without a loss before it; {}", self.story());
                    ensure!(n == k, "attempt-number", "attempt {n} announced after {k} losses in a row; {}", self.story());
                    told = true;
                    obs.lock().unwrap().count("attempts announced");
                }
                2 => {
                    if let (Some(s), true) = (since, fixed) {
                        let want = (self.base.saturating_mul(1u64 << (k - 1).min(10))).min(self.max);
                        let got = t.duration_since(s);
                        ensure!(got >= Duration::from_millis(want), "backoff-short", "a reconnect {got:?} after loss {k} in a row, where {want} ms were due; {}", self.story());
                        ensure!(got <= Duration::from_millis(want) + Duration::from_secs(6), "backoff-long", "a reconnect {got:?} after loss {k} in a row, where {want} ms were due; {}", self.story());
                        obs.lock().unwrap().count("backoff delays checked");
                    }
                    since = None;
                }
                _ => k = 0,
            }
        }
        let losses = self.log.count(lost) + self.log.count(failed);
        if fixed {
            ensure!(losses == ended, "loss-count", "the broker ended {ended} connections and {losses} losses were reported; {}", self.story());
        } else {
            ensure!(losses >= ended, "loss-count", "the broker ended {ended} connections and only {losses} losses were reported; {}", self.story());
        }
        Ok(())
    }
    fn stop(&mut self) {
        if let Some(j) = self.srv.take() {
            j.abort();
        }
    }
}

type Connecting = tokio::task::JoinHandle<(Result<flowsdk::mqtt_client::ConnectionResult, flowsdk::mqtt_client::MqttClientError>, Duration)>;

/// Calls connect_sync; the command has been given when this returns.
async fn begin(c: &Arc<TokioAsyncMqttClient>) -> Connecting {
    let (c, t) = (c.clone(), Instant::now());
    let mut f = Box::pin(async move { c.connect_sync().await });
    let x = std::future::poll_fn(|cx| match std::future::Future::poll(f.as_mut(), cx) {
        std::task::Poll::Ready(x) => std::task::Poll::Ready(Some(x)),
        std::task::Poll::Pending => std::task::Poll::Ready(None),
    })
    .await;
    tokio::spawn(async move {
        let x = match x {
            Some(x) => x,
            None => f.await,
        };
        (x, t.elapsed())
    })
}

fn plan(r: &mut Rng, n: usize) -> Vec<(Fate, How)> {
    let byes = r.bool();
    (0..n)
        .map(|_| {
            let f = match r.below(9) {
                0 => Fate::Early,
                1 => Fate::Refuse,
                2 => Fate::After(r.below(20_000) as u64),
                3 | 4 => Fate::In(r.range(1, 120)),
                5 => Fate::In(r.range(1, 8000)),
                6 => Fate::Out(r.range(1, 12)),
                _ => Fate::Out(r.range(1, 200)),
            };
            let h = match (r.below(3), f) {
                (0, _) => How::Fin,
                (1, _) => How::Rst,
                (_, Fate::In(_) | Fate::After(_)) if byes => How::Bye(*r.pick(&[0x8Bu8, 0x89, 0x8E, 0x00])),
                _ => How::Fin,
            };
            (f, h)
        })
        .collect()
}

/// Several ends at random bytes, while publishing.
async fn cuts(r: &mut Rng, obs: Arc<Mutex<Obs>>) -> Verdict {
    let n = r.range(1, 7);
    let fates = plan(r, n);
    let what = format!("{fates:?}");
    let base = *r.pick(&[1u64, 5, 15]);
    let max = *r.pick(&[10u64, 40, 100]);
    let mut g = rig(r, Set { base, max, ..Default::default() }, fates).await;
    obs.lock().unwrap().case(hash64(format!("{:?}", (what.clone(), g.v5)).as_bytes()));
    obs.lock().unwrap().sample = Some(what);
    let down = r.chance(1, 5);
    let first = begin(&g.c).await;
    // pings under way fail with the connection, and do not wait for their timeout
    let (c, stop) = (g.c.clone(), Arc::new(std::sync::atomic::AtomicBool::new(false)));
    let st = stop.clone();
    let pinger = tokio::spawn(async move {
        let mut n = (0u64, 0u64);
        let mut slow = None;
        while !st.load(std::sync::atomic::Ordering::SeqCst) {
            let t = Instant::now();
            let x = c.ping_sync().await;
            if t.elapsed() > Duration::from_millis(4500) {
                slow = Some((t.elapsed(), format!("{x:?}")));
            }
            match x {
                Ok(x) if x.success => n.0 += 1,
                _ => n.1 += 1,
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        (n, slow)
    });
    let m = r.range(5, 50);
    let gap = *r.pick(&[0u64, 200, 3000]);
    let drop_at = r.below(m);
    let mut fixed = true;
    for i in 0..m {
        g.publish(i, r).await;
        if r.chance(1, 3) {
            tokio::time::sleep(Duration::from_micros(r.below(gap as usize + 1) as u64)).await;
        }
        if down && i == drop_at {
            // nobody listens for a while
            fixed = false;
            g.stop();
            tokio::time::sleep(Duration::from_millis(r.range(1, 60) as u64)).await;
            let mut l = None;
            for _ in 0..200 {
                match TcpListener::bind(&g.addr).await {
                    Ok(x) => {
                        l = Some(x);
                        break;
                    }
                    Err(_) => tokio::time::sleep(Duration::from_millis(5)).await,
                }
            }
            let Some(l) = l else {
                obs.lock().unwrap().trivial();
                return Ok(());
            };
            g.srv = Some(accept_loop(l, g.sh.clone(), Rng::new(r.u64())));
        }
    }
    // every planned end happens; small packets keep the byte counts going
    let mut k = m;
    let t = Instant::now();
    while g.sh.lock().unwrap().ended < n {
        if t.elapsed() > LONG {
            let a = g.sh.lock().unwrap().accepts.len();
            return fail("no-reconnect", format!("{a} connections came, after {n} others to end; {}", g.story()));
        }
        g.publish(k, r).await;
        k += 1;
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    g.settled(&obs).await?;
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    let ((good, failed_pings), slow) = pinger.await.unwrap();
    if let Some((t, x)) = slow {
        return fail("slow-ping", format!("a ping came back after {t:?} with {x}; {}", g.story()));
    }
    let (_, t) = match tokio::time::timeout(LONG, first).await {
        Ok(x) => x.unwrap(),
        Err(_) => return fail("slow-connect", "connect_sync did not come back".to_string()),
    };
    ensure!(t < Duration::from_secs(10), "slow-connect", "connect_sync came back after {t:?}");
    // traffic goes on
    let t = Instant::now();
    loop {
        let p = g.c.ping_sync().await;
        if matches!(&p, Ok(x) if x.success) {
            break;
        }
        ensure!(t.elapsed() < LONG, "probe", "ping after the last reconnect: {p:?}; {}", g.story());
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    g.bad()?;
    g.chronicle(&obs, fixed)?;
    let mut o = obs.lock().unwrap();
    o.add("pings answered", good);
    o.add("pings failed by a loss", failed_pings);
    o.add("connections ended", g.sh.lock().unwrap().ended as u64);
    if !fixed {
        o.count("times nobody listened");
    }
    Ok(())
}

/// No automatic reconnection: nothing happens by itself, a connect() does.
async fn off(r: &mut Rng, obs: Arc<Mutex<Obs>>) -> Verdict {
    let n = r.range(1, 3);
    let fates: Vec<_> = plan(r, n);
    let what = format!("{fates:?}");
    // by configuration, or switched off while connected or while a reconnect is due
    let mode = r.below(3);
    let base = 80;
    let mut g = rig(r, Set { auto: mode != 0, base, max: 80, ..Default::default() }, fates).await;
    obs.lock().unwrap().case(hash64(format!("{:?}", ("off", mode, what.clone(), g.v5)).as_bytes()));
    obs.lock().unwrap().sample = Some(format!("{mode} {what}"));
    let mut k = 0;
    for round in 0..=n {
        if mode == 1 || round > 0 {
            g.c.set_auto_reconnect(false).await.unwrap();
        }
        let j = begin(&g.c).await;
        let t = Instant::now();
        if round < n {
            // until it ends
            while g.sh.lock().unwrap().ended <= round || g.log.count(lost) + g.log.count(failed) <= round {
                ensure!(t.elapsed() < LONG, "loss-unseen", "connection {} ended and no loss was reported; {}", round + 1, g.story());
                g.publish(k, r).await;
                k += 1;
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            if mode == 2 && round == 0 {
                tokio::time::sleep(Duration::from_millis(r.below(30) as u64)).await;
                g.c.set_auto_reconnect(false).await.unwrap();
            }
            let x = tokio::time::timeout(Duration::from_secs(5), j).await;
            ensure!(x.is_ok(), "slow-connect", "connect_sync of a connection that ended has not come back; {}", g.story());
            if g.log.0.lock().unwrap().iter().any(|x| matches!(x.1, Cb::Attempt(_))) && mode == 2 {
                // too late to switch it off
                obs.lock().unwrap().trivial();
                return Ok(());
            }
            tokio::time::sleep(Duration::from_millis(250)).await;
            let acc = g.sh.lock().unwrap().accepts.len();
            ensure!(acc == round + 1, "reconnected", "connection {acc} with automatic reconnection off; {}", g.story());
            ensure!(g.log.count(|c| matches!(c, Cb::Attempt(_))) == 0, "attempt-off", "an attempt was announced with automatic reconnection off; {}", g.story());
            obs.lock().unwrap().count("losses left alone with automatic reconnection off");
        } else {
            let x = j.await.unwrap().0;
            ensure!(x.is_ok(), "manual", "connect_sync after the losses: {x:?}; {}", g.story());
        }
    }
    g.settled(&obs).await?;
    g.auto = false;
    g.chronicle(&obs, false)
}

/// The user disconnects.
async fn bye(r: &mut Rng, obs: Arc<Mutex<Obs>>) -> Verdict {
    // connected; while a reconnect is due; before the CONNACK
    let mode = r.below(3);
    let base = if mode == 1 { 120 } else { 20 };
    let auto = mode == 1 || r.chance(3, 4);
    let mut fates = vec![];
    match mode {
        1 => fates.push((*r.pick(&[Fate::In(40), Fate::After(3000), Fate::Early]), *r.pick(&[How::Fin, How::Rst]))),
        2 => fates.push((Fate::Silent(1), How::Fin)),
        _ => {}
    }
    if mode == 2 {
        // the CONNECT itself is left unanswered
        fates[0].0 = Fate::Silent(0);
    }
    let mut g = rig(r, Set { auto, base, max: base, ..Default::default() }, fates).await;
    obs.lock().unwrap().case(hash64(format!("{:?}", ("bye", mode, auto, g.v5, r.u8())).as_bytes()));
    let mut j = begin(&g.c).await;
    let mut k = 0;
    let mut want_bye = 0;
    match mode {
        0 => {
            let x = (&mut j).await.unwrap().0;
            ensure!(x.is_ok(), "connect", "{x:?}");
            for _ in 0..r.below(20) {
                g.publish(k, r).await;
                k += 1;
            }
            want_bye = 1;
        }
        1 => {
            let t = Instant::now();
            while g.log.count(lost) + g.log.count(failed) == 0 {
                ensure!(t.elapsed() < LONG, "loss-unseen", "no loss was reported");
                g.publish(k, r).await;
                k += 1;
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            let _ = (&mut j).await;
        }
        _ => {
            until(LONG, || !g.sh.lock().unwrap().accepts.is_empty()).await;
            tokio::time::sleep(Duration::from_millis(r.below(5) as u64)).await;
        }
    }
    let conns = g.sh.lock().unwrap().accepts.len();
    let losses = g.log.count(lost);
    let mut disc = g.log.count(|c| matches!(c, Cb::Disconnected(_)));
    g.c.disconnect().await.unwrap();
    if mode == 2 {
        // pending before the CONNACK: the call comes back
    }
    let sh = g.sh.clone();
    if mode != 2 {
        let ok = until(Duration::from_secs(5), || sh.lock().unwrap().open == 0).await;
        ensure!(ok, "left-open", "the connection is still open after disconnect(); {}", g.story());
        let byes = sh.lock().unwrap().byes;
        let left = sh.lock().unwrap().left;
        ensure!(byes == want_bye, "no-disconnect", "{byes} DISCONNECT packets went out; {}", g.story());
        if mode == 0 {
            ensure!(left == 1, "left-open", "the broker had to end the connection");
        }
    }
    if mode == 0 {
        disc += 1;
        let f = || g.log.count(|c| matches!(c, Cb::Disconnected(_)));
        until(Duration::from_secs(3), || f() >= disc).await;
        ensure!(f() == disc, "untold", "on_disconnected was called {} times; {}", f(), g.story());
    }
    tokio::time::sleep(Duration::from_millis(base * 3)).await;
    let b = sh.lock().unwrap().accepts.len();
    ensure!(b == conns, "reconnected", "a new connection after disconnect() (mode {mode}); {}", g.story());
    ensure!(g.log.count(lost) == losses, "loss", "disconnect() was reported as a lost connection (mode {mode}); {}", g.story());
    obs.lock().unwrap().count(["disconnects while connected", "disconnects while a reconnect was due", "disconnects before the CONNACK"][mode]);
    if mode == 2 {
        let x = tokio::time::timeout(Duration::from_secs(5), j).await;
        ensure!(matches!(&x, Ok(Ok((Err(_), _)))), "connect", "connect_sync after disconnect(): {x:?}");
    }
    // and again
    let before = sh.lock().unwrap().connacks;
    let x = g.c.connect_sync().await;
    ensure!(x.is_ok(), "connect-again", "{x:?}; {}", g.story());
    let acks = sh.lock().unwrap().connacks;
    ensure!(acks == before + 1, "connect-again", "connect_sync returned without a CONNACK; {}", g.story());
    for _ in 0..r.range(1, 10) {
        g.publish(k, r).await;
        k += 1;
    }
    g.settled(&obs).await
}

/// A broker that falls silent: the ping goes unanswered.
async fn silence(r: &mut Rng, obs: Arc<Mutex<Obs>>) -> Verdict {
    let auto = r.chance(2, 3);
    let (base, max) = (30, 60);
    let mult = r.range(1, 2) as u32;
    let quiet = Fate::Silent(r.range(1, 5));
    let mut g = rig(r, Set { auto, base, max, keep_alive: 1, mult, ..Default::default() }, vec![(quiet, How::Fin)]).await;
    obs.lock().unwrap().case(hash64(format!("{:?}", ("silence", auto, mult, g.v5, r.u8())).as_bytes()));
    let x = g.c.connect_sync().await;
    ensure!(x.is_ok(), "connect", "{x:?}");
    let t = Instant::now();
    let mut k = 0;
    for _ in 0..r.range(5, 10) {
        g.publish(k, r).await;
        k += 1;
    }
    let c = g.c.clone();
    let j = tokio::spawn(async move { c.ping_sync_with_timeout(20_000).await });
    let ok = until(Duration::from_secs(10), || g.log.count(lost) > 0).await;
    ensure!(ok, "silence", "no loss was reported in {:?} of silence with keep alive 1 and multiplier {mult}", t.elapsed());
    let el = t.elapsed();
    ensure!(el >= Duration::from_millis(950 * mult as u64), "silence-early", "given up after {el:?} with keep alive 1 and multiplier {mult}");
    let p = tokio::time::timeout(Duration::from_secs(5), j).await;
    ensure!(p.is_ok(), "slow-ping", "the ping under way does not come back");
    g.sh.lock().unwrap().ended += 1;
    if auto {
        g.settled(&obs).await?;
        g.chronicle(&obs, true)?;
    } else {
        tokio::time::sleep(Duration::from_millis(200)).await;
        let n = g.sh.lock().unwrap().accepts.len();
        ensure!(n == 1, "reconnected", "reconnected with automatic reconnection off; {}", g.story());
        ensure!(g.log.count(|c| matches!(c, Cb::Attempt(_))) == 0, "attempt-off", "an attempt was announced with automatic reconnection off; {}", g.story());
        let x = g.c.connect_sync().await;
        ensure!(x.is_ok(), "manual", "{x:?}");
        g.settled(&obs).await?;
    }
    obs.lock().unwrap().count("silent brokers given up");
    Ok(())
}

/// Nobody listens: as many attempts as configured, at growing intervals.
async fn limit(r: &mut Rng, obs: Arc<Mutex<Obs>>) -> Verdict {
    let m = r.range(1, 6) as u32;
    let other = *r.pick(&[0u32, m + 3, 100]);
    let attempts = if r.bool() { (m, other) } else { (other, m) };
    let (base, max) = (*r.pick(&[2u64, 8]), *r.pick(&[5u64, 30]));
    let mut g = rig(r, Set { base, max, attempts, listening: false, ..Default::default() }, vec![]).await;
    obs.lock().unwrap().case(hash64(format!("{:?}", ("limit", attempts, base, max, g.v5)).as_bytes()));
    for round in 0..2 {
        let mark = g.log.all().len();
        let t0 = Instant::now();
        if round == 0 {
            let x = g.c.connect_sync().await;
            ensure!(x.is_err(), "connect", "connected to nobody");
        } else {
            g.c.set_auto_reconnect(true).await.unwrap();
            let x = g.c.connect_sync().await;
            ensure!(x.is_ok(), "connect", "{x:?}; {}", g.story());
            // then it goes, and nobody listens again
            g.stop();
            tokio::time::sleep(Duration::from_millis(2)).await;
            g.sh.lock().unwrap().fates.clear();
        }
        let v = || g.log.0.lock().unwrap()[mark..].to_vec();
        let fails = || v().iter().filter(|x| failed(&x.1) || lost(&x.1)).count();
        let ok = until(Duration::from_secs(10), || fails() > m as usize).await;
        ensure!(ok, "gave-up", "{} failures where {} attempts are configured {attempts:?}; {:?}", fails(), m, v());
        tokio::time::sleep(Duration::from_millis(max.min(base << m) + 60)).await;
        let v = v();
        let f: Vec<Instant> = v.iter().filter(|x| failed(&x.1) || lost(&x.1)).map(|x| x.0).collect();
        ensure!(f.len() == m as usize + 1, "attempts", "{} failures where {m} attempts are configured {attempts:?}", f.len());
        let a: Vec<u32> = v.iter().filter_map(|x| if let Cb::Attempt(n) = x.1 { Some(n) } else { None }).collect();
        ensure!(a == (1..=m).collect::<Vec<_>>(), "attempt-number", "{a:?} announced where {m} are configured {attempts:?}");
        for (i, w) in f.windows(2).enumerate() {
            let want = (base << i.min(10)).min(max);
            ensure!(w[1] - w[0] >= Duration::from_millis(want), "backoff-short", "attempt {} came {:?} after the one before it, where {want} ms were due", i + 1, w[1] - w[0]);
            obs.lock().unwrap().count("backoff delays checked");
        }
        let _ = t0;
        obs.lock().unwrap().count("attempts used up");
        if round == 0 {
            let mut l = None;
            for _ in 0..100 {
                match TcpListener::bind(&g.addr).await {
                    Ok(x) => {
                        l = Some(x);
                        break;
                    }
                    Err(_) => tokio::time::sleep(Duration::from_millis(5)).await,
                }
            }
            let Some(l) = l else { return Ok(()) };
            g.sh.lock().unwrap().fates.push_back((Fate::After(60_000), How::Rst));
            g.srv = Some(accept_loop(l, g.sh.clone(), Rng::new(r.u64())));
        }
    }
    Ok(())
}

/// Commands given while there is no connection disturb nothing.
async fn idle(r: &mut Rng, obs: Arc<Mutex<Obs>>) -> Verdict {
    let base = 150;
    let how = *r.pick(&[How::Fin, How::Rst]);
    let mut g = rig(r, Set { base, max: base, ..Default::default() }, vec![(Fate::After(5000), how)]).await;
    obs.lock().unwrap().case(hash64(format!("{:?}", ("idle", g.v5, r.u8())).as_bytes()));
    let _ = g.c.connect_sync().await;
    let ok = until(LONG, || g.log.count(lost) > 0).await;
    ensure!(ok, "loss-unseen", "no loss was reported");
    let t = Instant::now();
    let mut k = 0;
    let mut n = 0;
    while g.sh.lock().unwrap().accepts.len() < 2 {
        ensure!(t.elapsed() < Duration::from_secs(5), "no-reconnect", "no reconnect in {:?} while commands come in; {}", t.elapsed(), g.story());
        match r.below(6) {
            0 => {
                let _ = g.c.ping().await;
            }
            1 => {
                let _ = g.c.subscribe("a/b", 1).await;
            }
            2 => {
                let _ = g.c.unsubscribe(vec!["a/b"]).await;
            }
            3 => {
                let c = g.c.clone();
                let tm = Instant::now();
                let x = c.ping_sync().await;
                ensure!(tm.elapsed() < Duration::from_secs(4), "slow-ping", "a ping without a connection came back after {:?}: {x:?}", tm.elapsed());
                if g.sh.lock().unwrap().accepts.len() < 2 {
                    ensure!(!matches!(&x, Ok(x) if x.success), "ping", "a ping without a connection succeeded");
                }
            }
            4 if g.v5 => {
                let _ = g.c.auth_continue(vec![]).await;
            }
            _ => {
                g.publish(k, r).await;
                k += 1;
            }
        }
        n += 1;
        tokio::time::sleep(Duration::from_micros(r.below(4000) as u64)).await;
    }
    obs.lock().unwrap().add("commands given without a connection", n);
    g.sh.lock().unwrap().seen.clear();
    g.settled(&obs).await?;
    g.chronicle(&obs, true)
}

pub fn c29() {
    let mut run = Run::new("C29", "the connection ended at least once");
    for (k, n) in [
        ("connections ended", 500),
        ("backoff delays checked", 500),
        ("publishes delivered as their QoS says", 5000),
        ("losses left alone with automatic reconnection off", 50),
        ("disconnects while connected", 10),
        ("disconnects while a reconnect was due", 10),
        ("disconnects before the CONNACK", 10),
        ("silent brokers given up", 5),
        ("attempts used up", 50),
        ("commands given without a connection", 200),
        ("pings failed by a loss", 20),
    ] {
        run.need(k, n);
    }
    run.assume("a broker on loopback that keeps the session and, once a CONNACK is out, answers everything until the planned end");
    run.cases_on("cuts", run.scale(400, 12_000), run.scale(60, 600) as f64, 16, |_, r, o| on_rt(r, o, 60, |r, o| Box::pin(cuts(r, o))));
    run.cases_on("off", run.scale(100, 2_000), run.scale(30, 200) as f64, 16, |_, r, o| on_rt(r, o, 60, |r, o| Box::pin(off(r, o))));
    run.cases_on("bye", run.scale(120, 2_000), run.scale(30, 200) as f64, 16, |_, r, o| on_rt(r, o, 60, |r, o| Box::pin(bye(r, o))));
    run.cases_on("limit", run.scale(80, 1_000), run.scale(30, 200) as f64, 16, |_, r, o| on_rt(r, o, 60, |r, o| Box::pin(limit(r, o))));
    run.cases_on("idle", run.scale(80, 1_000), run.scale(30, 200) as f64, 16, |_, r, o| on_rt(r, o, 60, |r, o| Box::pin(idle(r, o))));
    run.cases_on("silence", run.scale(32, 400), run.scale(30, 200) as f64, 32, |_, r, o| on_rt(r, o, 60, |r, o| Box::pin(silence(r, o))));
    run.finish()
}
