//! C32: the C interface and the binding objects beside the native engines.
use crate::peer::*;
use crate::side::*;
use kit::*;
use refmqtt::*;
use std::time::{Duration, Instant};

fn text(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "".into(),
        1 => "é漢字/😀".into(),
        2 => "x".repeat(r.range(100, 3000)),
        3 => "a\u{1}b\u{7f}".into(),
        _ => format!("t/{}/{}", r.below(4), r.below(100)),
    }
}

fn options(r: &mut Rng, kind: Kind, api: Api) -> Opts {
    let long = match (kind, api) {
        (Kind::Raw, _) | (_, Api::Object) => r.chance(3, 4),
        _ => false,
    };
    let trust = r.below(10);
    let f = |n: &str| format!("{DIR}{n}");
    let mut o = Opts {
        client_id: if r.chance(1, 5) { None } else { Some(format!("c{}", text(r))) },
        version: *r.pick(&[3, 4, 5, 5]),
        long,
        clean: r.bool(),
        keep_alive: *r.pick(&[0, 1, 7, 60, 65535]),
        username: r.bool().then(|| text(r)),
        password: r.bool().then(|| text(r)),
        base_ms: *r.pick(&[0, 1, 100, 1000, 40_000]),
        max_ms: *r.pick(&[0, 5, 30_000, 1_000_000]),
        attempts: *r.pick(&[0, 1, 3, 1000]),
        server_name: if r.bool() { "localhost".into() } else { "127.0.0.1".into() },
        insecure: trust < 4,
        ca: match trust {
            0 | 1 | 4..=7 => Some(f("ca.pem")),
            8 => Some(f("leaf_key.pem")),
            _ => Some(f("missing.pem")),
        },
        cert: r.bool().then(|| (f("cl.pem"), f("cl_key.pem"))),
        alpn: match r.below(4) {
            0 => Some("mqtt2".into()),
            1 => Some("nothing".into()).filter(|_| r.chance(1, 4)),
            2 => Some("other".into()),
            _ => None,
        },
        tls_null: api == Api::C && r.chance(1, 40),
    };
    if o.tls_null {
        // what a null pointer stands for; the roots of the system do not vouch for our broker
        (o.insecure, o.ca, o.cert, o.alpn) = (false, None, None, None);
    }
    o
}

struct Pair {
    a: Side,
    b: Side,
    api: Api,
    desc: String,
    ms: u64,
    parsed: Vec<usize>,
    v5: bool,
    pid: u16,
    open: Vec<u16>,
    trace: Vec<String>,
}

fn show(v: &[u8]) -> String {
    short(&hex(&v[..v.len().min(150)]), 300)
}

impl Pair {
    fn sync(&mut self) -> Verdict {
        let t = Instant::now();
        while self.a.kind == Kind::Quic && t.elapsed() < Duration::from_secs(3) {
            if self.a.rx == self.b.rx && self.a.is_connected() == self.b.is_connected() && self.a.seen() == self.b.seen() {
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
            self.a.tick(0);
            self.b.tick(0);
        }
        if self.a.seen() != self.b.seen() {
            let f = |s: Seen| format!("ALPN {:?}, name {:?}, client certificate {}, up {}", s.alpn.map(|a| String::from_utf8_lossy(&a).to_string()), s.server_name, s.client_cert.is_some(), s.up);
            return fail("handshake", format!("the broker saw {} natively and {} through {:?}; {}; {}", f(self.a.seen()), f(self.b.seen()), self.api, self.desc, self.tail()));
        }
        let (x, y) = (&self.a.rx, &self.b.rx);
        if x != y {
            let i = (0..x.len().max(y.len())).find(|i| x.get(*i) != y.get(*i)).unwrap();
            let none = vec![];
            let (x, y) = (x.get(i).unwrap_or(&none), y.get(i).unwrap_or(&none));
            let k = x.iter().zip(y).take_while(|(p, q)| p == q).count();
            return fail("outgoing", format!("stream {i} from byte {k} of {} and {}: native {} and {:?} {}; {}; {}", x.len(), y.len(), show(&x[k.saturating_sub(4)..]), self.api, show(&y[k.saturating_sub(4)..]), self.desc, self.tail()));
        }
        ensure!(self.a.rets == self.b.rets, "returns", "native {:?} and {:?} {:?}; {}; {}", self.a.rets.last(), self.api, self.b.rets.last(), self.desc, self.tail());
        ensure!(self.a.is_connected() == self.b.is_connected(), "state", "connected: native {} and {:?} {}; {}; {}", self.a.is_connected(), self.api, self.b.is_connected(), self.desc, self.tail());
        ensure!(self.a.conn_ok == self.b.conn_ok || self.api == Api::Object, "returns", "connect ok: native {}, {:?} {}; {}", self.a.conn_ok, self.api, self.b.conn_ok, self.desc);
        if let (Some(p), Some(q)) = (self.a.next_tick(), self.b.next_tick()) {
            ensure!((p < 0) == (q < 0) && (p - q).abs() < 500, "next-tick", "native {p} and {:?} {q}; {}; {}", self.api, self.desc, self.tail());
        }
        Ok(())
    }
    fn tail(&self) -> String {
        let n = self.trace.len().saturating_sub(12);
        short(&self.trace[n..].join(", "), 1200)
    }
    fn both(&mut self, what: String, mut f: impl FnMut(&mut Side)) -> Verdict {
        self.trace.push(what);
        f(&mut self.a);
        f(&mut self.b);
        self.sync()
    }
    fn broker(&mut self, at: usize, b: Vec<u8>) -> Verdict {
        self.both(format!("broker {at}: {}", show(&b)), |s| s.incoming(at, &b))
    }
    /// Answers what has come, or some of it.
    fn answers(&mut self, r: &mut Rng) -> Vec<(usize, Vec<u8>)> {
        self.parsed.resize(self.a.rx.len(), 0);
        (0..self.a.rx.len()).map(|k| (k, self.answer(k, r))).collect()
    }
    fn answer(&mut self, k: usize, r: &mut Rng) -> Vec<u8> {
        let mut out = vec![];
        while self.parsed[k] < self.a.rx[k].len() {
            let rest = self.a.rx[k][self.parsed[k]..].to_vec();
            let Ok(Some(n)) = frame_len(&rest) else { break };
            if n > rest.len() {
                break;
            }
            self.parsed[k] += n;
            let Ok((v, _)) = decode_all(&rest[..n], self.v5) else { continue };
            for p in v {
                if r.chance(1, 12) {
                    continue;
                }
                let v5 = self.v5;
                let mut ack = |ty, pid, codes: Vec<u8>| {
                    let mut a = Pkt::ack(v5, ty, pid, 0);
                    a.codes = codes;
                    out.extend(encode(&a));
                };
                match p.ty {
                    CONNECT => {
                        let mut a = Pkt::new(v5, CONNACK);
                        if r.chance(1, 8) {
                            a.reason = if v5 { 0x87 } else { 5 };
                        } else {
                            a.session_present = r.chance(1, 4) && !p.conn.as_ref().unwrap().clean;
                        }
                        if v5 && r.chance(1, 4) && a.reason == 0 {
                            a.props.push(P::U16(0x21, r.range(1, 4) as u16));
                        }
                        out.extend(encode(&a));
                    }
                    PUBLISH if p.qos == 1 => ack(PUBACK, p.pid.unwrap(), vec![]),
                    PUBLISH if p.qos == 2 => ack(PUBREC, p.pid.unwrap(), vec![]),
                    PUBREL => ack(PUBCOMP, p.pid.unwrap(), vec![]),
                    PUBREC => ack(PUBREL, p.pid.unwrap(), vec![]),
                    SUBSCRIBE => ack(SUBACK, p.pid.unwrap(), vec![*r.pick(&[0, 1, 2, 0x80])]),
                    UNSUBSCRIBE => ack(UNSUBACK, p.pid.unwrap(), if v5 { vec![*r.pick(&[0, 0x11, 0x80])] } else { vec![] }),
                    PINGREQ => out.extend(encode(&Pkt::new(v5, PINGRESP))),
                    _ => {}
                }
            }
        }
        out
    }
}

fn run(r: &mut Rng, kind: Kind, api: Api, base: u64, obs: &mut Obs) -> Verdict {
    let o = options(r, kind, api);
    let desc = format!("{kind:?} {api:?} {}", short(&format!("{o:?}"), 700));
    obs.case(hash64(format!("{desc}{}", r.u32()).as_bytes()));
    obs.sample = Some(short(&desc, 300));
    let mut p = Pair {
        a: Side::new(kind, Api::Native, &o),
        b: Side::new(kind, api, &o),
        api,
        desc,
        ms: 0,
        parsed: vec![],
        v5: o.version == 5,
        pid: 0,
        open: vec![],
        trace: vec![],
    };
    ensure!(p.a.version() == p.b.version(), "version", "{:?} and {:?}", p.a.version(), p.b.version());
    let small = kind == Kind::Quic;
    if r.chance(9, 10) || kind == Kind::Quic {
        p.both("connect".into(), |s| s.connect())?;
        p.both("tick 0".into(), |s| s.tick(0))?;
    }
    let steps = r.range(5, if kind == Kind::Quic { 40 } else { 120 });
    for _ in 0..steps {
        match r.below(20) {
            0..=4 => {
                let (t, q, pr) = (text(r), if r.chance(1, 30) { r.u8() } else { r.below(3) as u8 }, if kind == Kind::Raw && api == Api::Object { r.bool().then(|| r.u8()) } else { None });
                let n = if small { r.below(600) } else { *r.pick(&[0, 1, 30, 3000, 70_000]) };
                let body = r.bytes(n);
                p.both(format!("publish {} {q} {n} {pr:?}", short(&t, 20)), |s| s.publish(&t, &body, q, pr))?;
            }
            5 | 6 => {
                let (f, q) = (if r.chance(1, 10) { "".into() } else { text(r) }, if r.chance(1, 20) { r.u8() } else { r.below(3) as u8 });
                p.both(format!("subscribe {} {q}", short(&f, 20)), |s| s.subscribe(&f, q, false))?;
            }
            7 => {
                let f = text(r);
                p.both(format!("unsubscribe {}", short(&f, 20)), |s| s.subscribe(&f, 0, true))?;
            }
            8..=11 => {
                for (at, mut b) in p.answers(r) {
                    if kind == Kind::Raw && r.chance(1, 40) {
                        b = r.bytes(20);
                    }
                    if r.chance(1, 6) && b.len() > 1 {
                        let k = r.below(b.len());
                        let t = b.split_off(k);
                        p.broker(at, b)?;
                        p.broker(at, t)?;
                    } else if at == 0 || !b.is_empty() {
                        p.broker(at, b)?;
                    }
                }
            }
            12 | 13 => {
                let mut b = vec![];
                for _ in 0..r.range(1, 5) {
                    let mut m = Pkt::new(p.v5, PUBLISH);
                    m.topic = text(r).replace('\u{1}', "");
                    if m.topic.is_empty() {
                        m.topic = "t".into();
                    }
                    m.qos = r.below(3) as u8;
                    m.retain = r.bool();
                    if m.qos > 0 {
                        p.pid = p.pid % 60_000 + 1;
                        m.pid = Some(p.pid);
                        p.open.push(p.pid);
                    }
                    let n = if small { r.below(300) } else { *r.pick(&[0, 1, 40, 5000]) };
                    m.payload = r.bytes(n);
                    b.extend(encode(&m));
                    obs.count("messages from the broker");
                }
                let at = r.below(p.a.rx.len());
                p.broker(at, b)?;
            }
            14..=16 => {
                // never near a whole second, where timers are due: the two engines read the real clock
                p.ms = p.ms.max(base) + *r.pick(&[0u64, 0, 1000, 1000, 4000, 20_000]);
                let ms = p.ms;
                p.both(format!("tick {ms}"), |s| s.tick(ms))?;
            }
            17 | 18 => {
                let l = r.bool();
                p.both(format!("take events list={l}"), |s| s.take(l))?;
            }
            _ => match r.below(6) {
                0 => p.both("disconnect".into(), |s| s.disconnect())?,
                1 if kind == Kind::Raw => {
                    p.both("lost".into(), |s| s.lost())?;
                    p.both("connect".into(), |s| s.connect())?;
                }
                2 if kind == Kind::Raw && p.v5 => {
                    let rc = *r.pick(&[0x18, 0x19, 0, 0xff]);
                    p.both(format!("auth {rc}"), |s| s.auth(rc))?
                }
                3 if kind != Kind::Quic => p.both("connect".into(), |s| s.connect())?,
                4 | 5 if kind == Kind::Quic => {
                    let (what, at) = (r.below(4), r.below(p.a.rx.len()));
                    if at > 0 || r.chance(1, 4) {
                        obs.count("streams broken");
                        p.both(format!("broker breaks {at} {what}"), |s| s.break_stream(what, at))?;
                    }
                }
                _ => {}
            },
        }
    }
    p.ms = p.ms.max(base) + 1000;
    let ms = p.ms;
    p.both("tick".into(), |s| s.tick(ms))?;
    for _ in 0..2 {
        p.both("take events".into(), |s| s.take(false))?;
    }
    // events
    for (i, ((x, _), (y, part))) in p.a.evs.iter().zip(&p.b.evs).enumerate() {
        let x = if *part { listed(x) } else { x.clone() };
        ensure!(x == *y, "events", "event {i} is {} natively and {} through {api:?}; {}; {}", short(&x.to_string(), 400), short(&y.to_string(), 400), p.desc, p.tail());
    }
    ensure!(p.a.evs.len() == p.b.evs.len(), "event-count", "{} events natively and {} through {api:?} (next: {:?}); {}; {}", p.a.evs.len(), p.b.evs.len(), p.a.evs.get(p.b.evs.len()).or(p.b.evs.get(p.a.evs.len())), p.desc, p.tail());
    if api == Api::Object && kind != Kind::Quic {
        ensure!(p.a.back == p.b.back, "returned-events", "the calls returned {} events natively and {} through the objects, or other ones: {:?}; {}; {}", p.a.back.len(), p.b.back.len(), p.a.back.iter().zip(&p.b.back).find(|(x, y)| x != y), p.desc, p.tail());
    }
    if kind != Kind::Raw {
        let s = p.a.seen();
        obs.count(if s.up { "handshakes done" } else { "handshakes refused" });
        if s.client_cert.is_some() {
            obs.count("client certificates");
        }
    }
    obs.add("events compared", p.a.evs.len() as u64);
    obs.add("bytes compared", p.a.rx.iter().map(|x| x.len()).sum::<usize>() as u64);
    obs.add("calls", p.trace.len() as u64);
    obs.count(match (kind, api) {
        (Kind::Raw, Api::C) => "Raw through C",
        (Kind::Raw, _) => "Raw through Object",
        (Kind::Tls, Api::C) => "Tls through C",
        (Kind::Tls, _) => "Tls through Object",
        (Kind::Quic, Api::C) => "Quic through C",
        (Kind::Quic, _) => "Quic through Object",
    });
    Ok(())
}

pub fn case(r: &mut Rng, obs: &mut Obs) -> Verdict {
    let kind = *r.pick(&[Kind::Raw, Kind::Raw, Kind::Tls, Kind::Quic]);
    let api = *r.pick(&[Api::Object, Api::C]);
    // the engines read the real clock one after the other: a difference counts when it comes again
    let mut last = Ok(());
    for k in 0..3 {
        let mut r2 = r.clone();
        let mut o = Obs::default();
        last = run(&mut r2, kind, api, [600, 350, 800][k], &mut o);
        if last.is_ok() || k == 2 {
            *obs = o;
            break;
        }
    }
    last
}

pub fn c32() {
    let mut run = Run::new("C32", "a history of calls, ticks and broker bytes compared to its end");
    for (k, n) in [
        ("events compared", 5000),
        ("bytes compared", 200_000),
        ("calls", 20_000),
        ("messages from the broker", 2000),
        ("Raw through Object", 50),
        ("Raw through C", 50),
        ("Tls through Object", 30),
        ("Tls through C", 30),
        ("Quic through Object", 30),
        ("Quic through C", 30),
        ("handshakes done", 50),
        ("handshakes refused", 10),
        ("client certificates", 5),
        ("streams broken", 20),
    ] {
        run.need(k, n);
    }
    run.assume("a difference counts only when the same history shows one three times in a row: the engines read the real clock one after the other");
    run.cases_on("histories", run.scale(400, 20_000), run.scale(120, 700) as f64, 8, |_, r, o| crate::child::batch("diff", r, 20, o));
    run.finish()
}
