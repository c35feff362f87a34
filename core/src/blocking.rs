//! C39: the blocking client: every call sends its own packet, returns the answer to it, and keeps
//! everything else that arrived.
use conv::{props_to_model, to_model, will5_from_model};
use flowsdk::mqtt_client::{MqttClient, MqttClientOptions};
use flowsdk::mqtt_serde::MqttStream;
use kit::*;
use refmqtt::*;
use std::collections::{BTreeMap, VecDeque};
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::mpsc;
use std::time::Duration;

const WAIT: Duration = Duration::from_secs(40);

/// What a call returned, in comparable form.
#[derive(Debug, Clone, PartialEq)]
enum Out {
    Conn { rc: u8, sp: bool, props: Option<Vec<P>> },
    Sub { pid: u16, codes: Vec<u8>, props: Vec<P> },
    Pub { pid: Option<u16>, rc: Option<u8>, props: Option<Vec<P>>, qos: u8 },
    Ping(bool),
    Sent(Option<u16>),
    Recv(Option<Pkt>),
    Err(ErrorKind, String),
}

struct Report {
    out: Out,
    unhandled: Vec<Pkt>,
    subs: BTreeMap<u16, String>,
    unsubs: BTreeMap<u16, Vec<String>>,
    pubs: BTreeMap<u16, (String, u8)>,
}

type Call = Box<dyn FnOnce(&mut MqttClient) -> Out + Send>;

fn e(e: std::io::Error) -> Out {
    Out::Err(e.kind(), e.to_string())
}

struct Case<'a> {
    r: &'a mut Rng,
    o: &'a mut Obs,
    v5: bool,
    g: Gen,
    call: mpsc::Sender<Call>,
    back: mpsc::Receiver<Report>,
    listener: TcpListener,
    s: Option<TcpStream>,
    got: Vec<u8>,
    /// sent by the broker and not yet read by a call
    inbox: VecDeque<Pkt>,
    unhandled: Vec<Pkt>,
    subs: BTreeMap<u16, String>,
    unsubs: BTreeMap<u16, Vec<String>>,
    pubs: BTreeMap<u16, (String, u8)>,
    log: Vec<String>,
}

fn v<T>(sig: &str, d: String) -> Result<T, Violation> {
    fail(sig, d)
}

impl Case<'_> {
    fn tail(&self) -> String {
        let n = self.log.len();
        self.log[n.saturating_sub(14)..].join("; ")
    }
    fn start(&mut self, what: String, c: Call) {
        self.log.push(what);
        let _ = self.call.send(c);
    }
    /// The next packet of the client.
    fn want(&mut self, want: Option<&Pkt>, mask_pid: bool) -> Result<Pkt, Violation> {
        let s = self.s.as_mut().unwrap();
        let mut buf = vec![0u8; 65536];
        loop {
            match frame_len(&self.got) {
                Ok(Some(n)) if self.got.len() >= n => {
                    let f: Vec<u8> = self.got.drain(..n).collect();
                    let p = match decode(&f, self.v5) {
                        Ok((p, _)) => p,
                        Err(m) => return v("bytes", format!("the client sent {} ({m:?}); {}", short(&hex(&f), 300), self.tail())),
                    };
                    if let Some(w) = want {
                        let mut w = w.clone();
                        if mask_pid {
                            w.pid = p.pid;
                            if p.pid.is_none() || p.pid == Some(0) {
                                return v("identifier", format!("{} with identifier {:?}; {}", p.name(), p.pid, self.tail()));
                            }
                        }
                        if w != p {
                            return v("request", format!("the client sent {}, the call asked for {}; {}", short(&format!("{p:?}"), 600), short(&format!("{w:?}"), 600), self.tail()));
                        }
                    }
                    self.o.count("packets_from_client");
                    return Ok(p);
                }
                Ok(_) => {}
                Err(m) => return v("bytes", format!("the client sent {} ({m:?}); {}", short(&hex(&self.got), 300), self.tail())),
            }
            match s.read(&mut buf) {
                Ok(0) => return v("closed", format!("the client closed the connection instead of sending {want:?}; {}", self.tail())),
                Ok(n) => self.got.extend(&buf[..n]),
                Err(x) => return v("silent", format!("{x}: the client did not send {}; {}", short(&format!("{want:?}"), 300), self.tail())),
            }
        }
    }
    fn put(&mut self, ps: &[Pkt]) {
        let mut b = vec![];
        for p in ps {
            b.extend(encode(p));
        }
        self.put_bytes(b);
        for p in ps {
            self.inbox.push_back(p.clone());
        }
    }
    fn put_bytes(&mut self, b: Vec<u8>) {
        let s = self.s.as_mut().unwrap();
        let mut at = 0;
        let pieces = self.r.below(4);
        for _ in 0..pieces {
            if b.len() - at < 2 {
                break;
            }
            let n = if self.r.bool() { 1 } else { self.r.range(1, b.len() - at) };
            let _ = s.write_all(&b[at..at + n]);
            at += n;
            if self.r.bool() {
                std::thread::sleep(Duration::from_micros(200));
            }
        }
        let _ = s.write_all(&b[at..]);
    }
    /// Packets a broker may send that answer nothing: never of (type, identifier) `not`.
    fn noise(&mut self, not: (u8, u16), max: usize) -> Vec<Pkt> {
        let n = if self.r.chance(1, 3) { 0 } else { self.r.below(max + 1) };
        let mut out = vec![];
        while out.len() < n {
            let tys: &[u8] = if self.v5 {
                &[PUBLISH, PUBLISH, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, PINGRESP, DISCONNECT, AUTH]
            } else {
                &[PUBLISH, PUBLISH, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, PINGRESP]
            };
            let ty = *self.r.pick(tys);
            let mut p = self.g.packet(self.r, self.v5, ty);
            if ty == AUTH {
                // AUTH in its shortest form is refused by the codec (pinned by a unit test)
                p.reason = 0x18;
            }
            if p.pid.is_some() && self.r.bool() {
                // the awaited identifier on something else, or its neighbours
                p.pid = Some(match self.r.below(3) {
                    0 => not.1.max(1),
                    1 => not.1.wrapping_add(1).max(1),
                    _ => not.1.wrapping_sub(1).max(1),
                });
            }
            if p.ty == not.0 && (p.pid.is_none() || p.pid == Some(not.1)) {
                continue;
            }
            if p.ty == PUBACK && p.pid == Some(not.1) || p.ty == SUBACK && p.pid == Some(not.1) {
                self.o.count("same_identifier_other_kind");
            }
            out.push(p);
        }
        self.o.add("noise", out.len() as u64);
        out
    }
    /// The broker's answer `a`, with noise before and after it; updates what the client must keep.
    fn answer(&mut self, a: Pkt) {
        let key = (a.ty, a.pid.unwrap_or(0));
        let mut ps = self.noise(key, 3);
        let before = ps.len();
        ps.push(a);
        // what comes behind the answer must answer no later call: publishes only
        if self.r.chance(1, 3) {
            for _ in 0..self.r.range(1, 2) {
                ps.push(self.g.packet(self.r, self.v5, PUBLISH));
            }
            self.o.count("behind_the_answer");
        }
        let _ = before;
        self.put(&ps);
    }
    /// Everything in the inbox up to the first packet that matches is kept; the match is returned.
    fn consume(&mut self, ty: u8, pid: Option<u16>) -> Option<Pkt> {
        while let Some(p) = self.inbox.pop_front() {
            if p.ty == ty && (pid.is_none() || p.pid == pid) {
                return Some(p);
            }
            self.unhandled.push(p);
        }
        None
    }
    fn result(&mut self, want: impl FnOnce(&Out) -> bool, text: String) -> Result<(), Violation> {
        let rep = match self.back.recv_timeout(WAIT) {
            Ok(r) => r,
            Err(mpsc::RecvTimeoutError::Timeout) => return v("hangs", format!("the call did not return; expected {text}; {}", self.tail())),
            Err(_) => return v("panic", format!("the client thread ended; {}", self.tail())),
        };
        self.log.push(format!("→ {}", short(&format!("{:?}", rep.out), 160)));
        if !want(&rep.out) {
            return v("result", format!("the call returned {}, expected {}; {}", short(&format!("{:?}", rep.out), 500), short(&text, 500), self.tail()));
        }
        if rep.unhandled != self.unhandled {
            let i = rep.unhandled.iter().zip(&self.unhandled).take_while(|(a, b)| a == b).count();
            return v("unhandled", format!("{} packets kept, expected {}; first difference at {i}: {} against {}; {}", rep.unhandled.len(), self.unhandled.len(), short(&format!("{:?}", rep.unhandled.get(i)), 300), short(&format!("{:?}", self.unhandled.get(i)), 300), self.tail()));
        }
        if rep.subs != self.subs || rep.unsubs != self.unsubs || rep.pubs != self.pubs {
            return v("pending", format!("pending {:?} {:?} {:?}, expected {:?} {:?} {:?}; {}", rep.subs, rep.unsubs, rep.pubs, self.subs, self.unsubs, self.pubs, self.tail()));
        }
        self.o.count("calls");
        Ok(())
    }
    /// Instead of an answer: the connection ends or breaks. Returns whether this happened.
    fn broken(&mut self, sig: &'static str, ty: u8, pid: Option<u16>) -> Option<Result<(), Violation>> {
        if !self.r.chance(1, 14) {
            return None;
        }
        let noise = self.noise((ty, pid.unwrap_or(0)), 2);
        self.put(&noise);
        let garbage = self.r.chance(1, 3);
        if garbage {
            // a reserved packet type / a SUBSCRIBE with wrong flags
            let b = if self.r.bool() { vec![0x00, 0x00] } else { vec![0x80, 0x00] };
            self.put_bytes(b);
        } else if self.r.bool() {
            // part of an answer, then the end
            let mut a = self.g.packet(self.r, self.v5, ty);
            if pid.is_some() {
                a.pid = pid;
            }
            let b = encode(&a);
            let n = self.r.below(b.len());
            self.put_bytes(b[..n].to_vec());
        }
        if !garbage {
            let _ = self.s.as_ref().unwrap().shutdown(Shutdown::Write);
        }
        self.log.push(if garbage { "broker: garbage".into() } else { "broker: end of stream".into() });
        self.o.count(if garbage { "garbage" } else { "ends" });
        let left: Vec<Pkt> = self.inbox.drain(..).collect();
        self.unhandled.extend(left);
        let k = if garbage { ErrorKind::InvalidData } else { ErrorKind::UnexpectedEof };
        let r = self.result(|o| matches!(o, Out::Err(x, _) if *x == k), format!("an error of kind {k:?} ({sig})"));
        Some(r.and_then(|_| self.nothing_more()))
    }
    /// The client adds nothing to the connection of its own accord.
    fn nothing_more(&mut self) -> Result<(), Violation> {
        let s = self.s.as_mut().unwrap();
        let _ = s.set_nonblocking(true);
        let mut b = [0u8; 4096];
        let r = s.read(&mut b);
        let _ = s.set_nonblocking(false);
        match r {
            Ok(n) if n > 0 => self.got.extend(&b[..n]),
            _ => {}
        }
        if self.got.is_empty() {
            Ok(())
        } else {
            v("extra", format!("the client also sent {}; {}", short(&hex(&self.got), 200), self.tail()))
        }
    }
}

fn listening() -> TcpListener {
    TcpListener::bind("127.0.0.1:0").expect("loopback")
}

fn accept(l: &TcpListener) -> Option<TcpStream> {
    let (s, _) = l.accept().ok()?;
    let _ = s.set_read_timeout(Some(WAIT));
    let _ = s.set_write_timeout(Some(WAIT));
    let _ = s.set_nodelay(true);
    Some(s)
}

fn session(r: &mut Rng, o: &mut Obs) -> Verdict {
    let ver = *r.pick(&[3u8, 4, 5, 5]);
    let v5 = ver == 5;
    let g = Gen { small: 40, big_every: 400 };
    // the options, and the CONNECT they ask for
    let mut c = g.packet(r, v5, CONNECT);
    c.props.clear();
    let conn = c.conn.as_mut().unwrap();
    if v5 && r.bool() {
        conn.password = r.bool().then(|| r.bytes(5));
    }
    let mut opts = MqttClientOptions { mqtt_version: ver, ..Default::default() };
    opts.client_id = conn.client_id.clone();
    opts.clean_start = conn.clean;
    opts.keep_alive = conn.keep_alive;
    opts.username = conn.username.clone();
    opts.password = conn.password.clone();
    if !v5 && conn.username.is_none() && r.bool() {
        opts.password = Some(r.bytes(4));
        o.count("v3_password_without_user");
    }
    opts.will = conn.will.as_ref().map(will5_from_model);
    opts.sessionless = r.chance(1, 8);
    if opts.sessionless {
        conn.clean = true;
    }
    opts.session_expiry_interval = r.bool().then(|| r.u32());
    opts.maximum_packet_size = r.bool().then(|| r.u32().max(1));
    opts.request_response_information = r.bool().then(|| r.bool());
    opts.request_problem_information = r.bool().then(|| r.bool());
    if v5 {
        if let Some(x) = opts.session_expiry_interval {
            c.props.push(P::U32(0x11, x));
        }
        if let Some(x) = opts.maximum_packet_size {
            c.props.push(P::U32(0x27, x));
        }
        if let Some(x) = opts.request_response_information {
            c.props.push(P::Byte(0x19, x as u8));
        }
        if let Some(x) = opts.request_problem_information {
            c.props.push(P::Byte(0x17, x as u8));
        }
    }
    let sessionless = opts.sessionless;
    let listener = listening();
    let addr = listener.local_addr().unwrap();
    let nobody = r.chance(1, 40);
    opts.peer = if nobody { "127.0.0.1:1".into() } else { addr.to_string() };
    let (ctx, crx) = mpsc::channel::<Call>();
    let (btx, brx) = mpsc::channel::<Report>();
    // a deep stack: how deep a read may go is the business of the phase `large`
    let th = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
        let mut client = MqttClient::new(opts);
        while let Ok(f) = crx.recv() {
            let out = f(&mut client);
            let rep = Report {
                out,
                unhandled: client.peek_unhandled_packets().iter().map(to_model).collect(),
                subs: client.get_pending_subscribes().iter().map(|(a, b)| (*a, b.clone())).collect(),
                unsubs: client.get_pending_unsubscribes().iter().map(|(a, b)| (*a, b.clone())).collect(),
                pubs: client.get_pending_publishes().iter().map(|(a, b)| (*a, b.clone())).collect(),
            };
            if btx.send(rep).is_err() {
                return;
            }
        }
    }).expect("a thread");
    let mut k = Case {
        r,
        o,
        v5,
        g,
        call: ctx,
        back: brx,
        listener,
        s: None,
        got: vec![],
        inbox: VecDeque::new(),
        unhandled: vec![],
        subs: BTreeMap::new(),
        unsubs: BTreeMap::new(),
        pubs: BTreeMap::new(),
        log: vec![format!("MQTT {ver}, sessionless {sessionless}")],
    };
    let res = drive(&mut k, &c, nobody, sessionless);
    if let Some(s) = &k.s {
        let _ = s.shutdown(Shutdown::Both);
    }
    let hung = matches!(&res, Err(x) if x.sig == "hangs");
    let panicked = matches!(&res, Err(x) if x.sig == "panic" || x.sig == "closed");
    let key = hash64(k.log.join("\n").as_bytes());
    let calls = k.log.len();
    drop(k);
    if !hung {
        if let Err(p) = th.join() {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if panicked || res.is_ok() {
                return fail("panic", format!("the client panicked: {m}"));
            }
        }
    }
    res?;
    if calls > 3 {
        o.case(key);
    } else {
        o.trivial();
    }

    Ok(())
}

/// connected() or connect_send(). Returns whether the connection can be used.
fn connect(k: &mut Case, c: &Pkt, wait: bool) -> Result<bool, Violation> {
    if wait {
        k.start("connected()".into(), Box::new(|cl| match cl.connected() {
            Ok(x) => Out::Conn { rc: x.reason_code, sp: x.session_present, props: x.properties.map(|p| props_to_model(&p)) },
            Err(x) => e(x),
        }));
    } else {
        k.start("connect_send()".into(), Box::new(|cl| match cl.connect_send() {
            Ok(()) => Out::Sent(None),
            Err(x) => e(x),
        }));
    }
    k.s = None;
    k.inbox.clear();
    k.got.clear();
    match accept(&k.listener) {
        Some(s) => k.s = Some(s),
        None => return v("connect", format!("no connection; {}", k.tail())),
    }
    k.want(Some(c), false)?;
    k.o.count("connects");
    let v5 = k.v5;
    let mut a = k.g.packet(k.r, v5, CONNACK);
    if k.r.chance(3, 4) {
        a.reason = 0;
        a.session_present = k.r.bool();
    }
    if !wait {
        k.result(|o| *o == Out::Sent(None), "Ok".into())?;
        k.answer(a.clone());
        // the CONNACK is read like any other packet, by recv_packet
        loop {
            k.start("recv_packet()".into(), Box::new(recv));
            let p = k.inbox.pop_front();
            let done = p.as_ref().is_some_and(|p| p.ty == CONNACK);
            k.result(|o| *o == Out::Recv(p.clone()), format!("{p:?}"))?;
            if done {
                break;
            }
        }
        return Ok(true);
    }
    match k.r.below(16) {
        0 => {
            let _ = k.s.as_ref().unwrap().shutdown(Shutdown::Write);
            k.result(|o| matches!(o, Out::Err(ErrorKind::UnexpectedEof, _)), "an error: end of stream".into())?;
            k.nothing_more()?;
            k.o.count("connect_ends");
            return Ok(false);
        }
        1 => {
            let p = k.g.packet(k.r, v5, PUBLISH);
            k.put(&[p]);
            k.inbox.clear();
            k.result(|o| matches!(o, Out::Err(..)), "an error: not a CONNACK".into())?;
            k.nothing_more()?;
            k.o.count("not_a_connack");
            return Ok(false);
        }
        _ => {}
    }
    let mut ps = vec![a.clone()];
    if k.r.chance(1, 3) {
        ps.push(k.g.packet(k.r, v5, PUBLISH));
    }
    k.put(&ps);
    k.inbox.pop_front();
    let want = Out::Conn { rc: a.reason, sp: a.session_present, props: v5.then(|| a.props.clone()) };
    if a.reason == 0 && !a.session_present {
        if !k.pubs.is_empty() || !k.subs.is_empty() {
            k.o.count("pending_cleared");
        }
        k.subs.clear();
        k.unsubs.clear();
        k.pubs.clear();
    } else if a.reason == 0 && !k.pubs.is_empty() {
        k.o.count("pending_kept");
    }
    // an absent property list and an empty one are the same answer
    let norm = |o: &Out| match o {
        Out::Conn { rc, sp, props } => Out::Conn { rc: *rc, sp: *sp, props: props.clone().or(v5.then(Vec::new)) },
        x => x.clone(),
    };
    k.result(|o| norm(o) == want, format!("{want:?}"))?;
    Ok(a.reason == 0)
}

fn recv(cl: &mut MqttClient) -> Out {
    match cl.recv_packet() {
        Ok(p) => Out::Recv(p.as_ref().map(to_model)),
        Err(x) => e(x),
    }
}

fn sub_pkt(v5: bool, f: &str, qos: u8) -> Pkt {
    let mut p = Pkt::new(v5, SUBSCRIBE);
    p.filters = vec![(f.to_string(), qos)];
    p
}

fn pub_out(x: std::io::Result<flowsdk::mqtt_client::PublishResult>) -> Out {
    match x {
        Ok(x) => Out::Pub { pid: x.packet_id, rc: x.reason_code, props: x.properties.map(|p| props_to_model(&p)), qos: x.qos },
        Err(x) => e(x),
    }
}

fn drive(k: &mut Case, c: &Pkt, nobody: bool, sessionless: bool) -> Verdict {
    let v5 = k.v5;
    if nobody {
        let wait = k.r.bool();
        k.start("connect to a closed port".into(), Box::new(move |cl| {
            let r = if wait { cl.connected().map(|_| ()) } else { cl.connect_send() };
            match r {
                Ok(()) => Out::Sent(None),
                Err(x) => e(x),
            }
        }));
        k.o.count("nobody_listening");
        return k.result(|o| matches!(o, Out::Err(ErrorKind::ConnectionRefused, _)), "ConnectionRefused".into());
    }
    if k.r.chance(1, 10) {
        // before any connection
        let which = k.r.below(4);
        k.start(format!("early call {which}"), Box::new(move |cl| match which {
            0 => cl.subscribed("a", 1).map_or_else(e, |_| Out::Sent(None)),
            1 => pub_out(cl.published("a", b"x", 0, false)),
            2 => cl.pingd().map_or_else(e, |p| Out::Ping(p.success)),
            _ => cl.disconnected(0).map_or_else(e, |_| Out::Sent(None)),
        }));
        k.o.count("early_calls");
        k.result(|o| matches!(o, Out::Err(..)), "an error".into())?;
    }
    for _ in 0..k.r.range(1, 3) {
        let wait = k.r.chance(3, 4);
        if !connect(k, c, wait)? {
            continue;
        }
        for _ in 0..k.r.range(2, 12) {
            if !step(k, sessionless)? {
                break;
            }
        }
        // what the application does with the packets kept for it
        match k.r.below(4) {
            0 => {
                let want: Vec<Pkt> = std::mem::take(&mut k.unhandled);
                let n = want.len();
                k.start("clear_unhandled_packets()".into(), Box::new(|cl| {
                    cl.clear_unhandled_packets();
                    Out::Sent(None)
                }));
                let _ = n;
                k.result(|o| *o == Out::Sent(None), "()".into())?;
            }
            1 if !k.unhandled.is_empty() => {
                let first = k.unhandled.remove(0);
                k.start("pop_unhandled_packet()".into(), Box::new(|cl| Out::Recv(cl.pop_unhandled_packet().as_ref().map(to_model))));
                k.o.count("popped");
                k.result(|o| *o == Out::Recv(Some(first.clone())), format!("{first:?}"))?;
            }
            _ => {}
        }
    }
    Ok(())
}

/// One call on an established connection; whether the connection is still usable.
fn step(k: &mut Case, sessionless: bool) -> Result<bool, Violation> {
    let v5 = k.v5;
    let g = Gen { small: 40, big_every: 400 };
    let qos = k.r.below(3) as u8;
    let what = k.r.below(14);
    if sessionless && !matches!(what, 7 | 8 | 9 | 12 | 13) {
        // no session: refused, and nothing is sent
        k.start(format!("sessionless call {what}"), Box::new(move |cl| match what {
            0..=2 => cl.subscribed("a", qos).map_or_else(e, |_| Out::Sent(None)),
            3 => cl.unsubscribed(vec!["a"]).map_or_else(e, |_| Out::Sent(None)),
            4 => cl.publish_send("a", b"x", qos, false).map_or_else(e, Out::Sent),
            _ => pub_out(cl.published("a", b"x", qos, false)),
        }));
        k.o.count("sessionless_calls");
        k.result(|o| matches!(o, Out::Err(..)), "an error".into())?;
        k.nothing_more()?;
        return Ok(true);
    }
    match what {
        0 | 1 => {
            let f = g.filter(k.r);
            let w = sub_pkt(v5, &f, qos);
            k.start(format!("subscribed({:?}, {qos})", short(&f, 20)), Box::new(move |cl| match cl.subscribed(&f, qos) {
                Ok(x) => Out::Sub { pid: x.packet_id, codes: x.reason_codes, props: props_to_model(&x.properties) },
                Err(x) => e(x),
            }));
            let pid = k.want(Some(&w), true)?.pid;
            if let Some(r) = k.broken("SUBACK", SUBACK, pid) {
                return r.map(|_| false);
            }
            let mut a = g.packet(k.r, v5, SUBACK);
            a.pid = pid;
            k.answer(a.clone());
            k.consume(SUBACK, pid);
            let want = Out::Sub { pid: pid.unwrap(), codes: a.codes.clone(), props: a.props.clone() };
            k.o.count("subscribed");
            k.result(|o| *o == want, format!("{want:?}"))?;
        }
        2 | 3 => {
            let fs: Vec<String> = (0..k.r.range(1, 3)).map(|_| g.filter(k.r)).collect();
            let mut w = Pkt::new(v5, UNSUBSCRIBE);
            w.filters = fs.iter().map(|f| (f.clone(), 0)).collect();
            let n = fs.len();
            k.start(format!("unsubscribed({n})"), Box::new(move |cl| {
                let r = if n == 1 { cl.unsubscribed_single(&fs[0]) } else { cl.unsubscribed(fs.iter().map(|s| s.as_str()).collect()) };
                match r {
                    Ok(x) => Out::Sub { pid: x.packet_id, codes: x.reason_codes, props: props_to_model(&x.properties) },
                    Err(x) => e(x),
                }
            }));
            let pid = k.want(Some(&w), true)?.pid;
            if let Some(r) = k.broken("UNSUBACK", UNSUBACK, pid) {
                return r.map(|_| false);
            }
            let mut a = g.packet(k.r, v5, UNSUBACK);
            a.pid = pid;
            k.answer(a.clone());
            k.consume(UNSUBACK, pid);
            let codes = if v5 { a.codes.clone() } else { vec![0; n] };
            let want = Out::Sub { pid: pid.unwrap(), codes, props: a.props.clone() };
            k.o.count("unsubscribed");
            k.result(|o| *o == want, format!("{want:?}"))?;
        }
        4..=6 => {
            let mut w = Pkt::new(v5, PUBLISH);
            w.qos = qos;
            w.topic = g.topic(k.r);
            w.retain = k.r.bool();
            w.payload = if k.r.chance(1, 60) {
                k.o.count("large_publishes");
                let n = k.r.range(200_000, 3_000_000);
                k.r.bytes(n)
            } else {
                let n = k.r.below(300);
                k.r.bytes(n)
            };
            let (t, p, ret) = (w.topic.clone(), w.payload.clone(), w.retain);
            k.start(format!("published({:?}, {} bytes, {qos})", short(&t, 20), p.len()), Box::new(move |cl| pub_out(cl.published(&t, &p, qos, ret))));
            let pid = k.want(Some(&w), qos > 0)?.pid;
            let (rc, props) = match qos {
                0 => (None, None),
                1 => {
                    if let Some(r) = k.broken("PUBACK", PUBACK, pid) {
                        return r.map(|_| false);
                    }
                    let mut a = g.packet(k.r, v5, PUBACK);
                    a.pid = pid;
                    k.answer(a.clone());
                    k.consume(PUBACK, pid);
                    (Some(a.reason), v5.then_some(a.props))
                }
                _ => {
                    if let Some(r) = k.broken("PUBREC", PUBREC, pid) {
                        return r.map(|_| false);
                    }
                    let mut a = g.packet(k.r, v5, PUBREC);
                    a.pid = pid;
                    let mut noise = k.noise((PUBREC, pid.unwrap()), 3);
                    // a PUBCOMP of this identifier is no answer to a PUBLISH
                    noise.push(a.clone());
                    k.put(&noise);
                    k.consume(PUBREC, pid);
                    if a.reason >= 0x80 {
                        k.o.count("refused_by_pubrec");
                        (Some(a.reason), Some(a.props))
                    } else {
                        k.want(Some(&Pkt::ack(v5, PUBREL, pid.unwrap(), 0)), false)?;
                        if let Some(r) = k.broken("PUBCOMP", PUBCOMP, pid) {
                            return r.map(|_| false);
                        }
                        let mut a = g.packet(k.r, v5, PUBCOMP);
                        a.pid = pid;
                        k.answer(a.clone());
                        k.consume(PUBCOMP, pid);
                        k.o.count("qos2_exchanges");
                        (Some(a.reason), v5.then_some(a.props))
                    }
                }
            };
            let want = Out::Pub { pid, rc, props, qos };
            k.o.count("published");
            k.result(|o| *o == want, format!("{want:?}"))?;
        }
        7 | 8 => {
            k.start("pingd()".into(), Box::new(|cl| cl.pingd().map_or_else(e, |p| Out::Ping(p.success))));
            k.want(Some(&Pkt::new(v5, PINGREQ)), false)?;
            if let Some(r) = k.broken("PINGRESP", PINGRESP, None) {
                return r.map(|_| false);
            }
            k.answer(Pkt::new(v5, PINGRESP));
            k.consume(PINGRESP, None);
            k.o.count("pings");
            k.result(|o| *o == Out::Ping(true), "a ping answer".into())?;
        }
        9 if k.r.chance(1, 3) => {
            // the end, by the client
            let send = k.r.bool();
            let rc = if send || !v5 { 0 } else { *k.r.pick(&[0u8, 4, 0x80, 0x93]) };
            k.start(format!("disconnect {rc}"), Box::new(move |cl| {
                let r = if send { cl.disconnect_send() } else { cl.disconnected(rc) };
                r.map_or_else(e, |_| Out::Sent(None))
            }));
            let mut w = Pkt::new(v5, DISCONNECT);
            w.reason = rc;
            k.want(Some(&w), false)?;
            k.o.count("disconnects");
            k.result(|o| *o == Out::Sent(None), "Ok".into())?;
            k.nothing_more()?;
            return Ok(false);
        }
        10 => {
            let f = g.filter(k.r);
            let w = sub_pkt(v5, &f, qos);
            let f2 = f.clone();
            k.start("subscribe_send".into(), Box::new(move |cl| cl.subscribe_send(&f2, qos).map_or_else(e, |p| Out::Sent(Some(p)))));
            let pid = k.want(Some(&w), true)?.pid;
            k.subs.insert(pid.unwrap(), f);
            k.o.count("send_calls");
            k.result(|o| *o == Out::Sent(pid), format!("{pid:?}"))?;
        }
        11 => {
            let f = g.filter(k.r);
            let mut w = Pkt::new(v5, UNSUBSCRIBE);
            w.filters = vec![(f.clone(), 0)];
            let f2 = f.clone();
            k.start("unsubscribe_send".into(), Box::new(move |cl| cl.unsubscribe_send_single(&f2).map_or_else(e, |p| Out::Sent(Some(p)))));
            let pid = k.want(Some(&w), true)?.pid;
            k.unsubs.insert(pid.unwrap(), vec![f]);
            k.o.count("send_calls");
            k.result(|o| *o == Out::Sent(pid), format!("{pid:?}"))?;
        }
        12 => {
            k.start("ping_send".into(), Box::new(|cl| cl.ping_send().map_or_else(e, |_| Out::Sent(None))));
            k.want(Some(&Pkt::new(v5, PINGREQ)), false)?;
            k.o.count("send_calls");
            k.result(|o| *o == Out::Sent(None), "Ok".into())?;
            if !sessionless {
                let mut w = Pkt::new(v5, PUBLISH);
                w.qos = qos;
                w.topic = g.topic(k.r);
                w.retain = k.r.bool();
                w.payload = k.r.bytes(9);
                let (t, p, ret) = (w.topic.clone(), w.payload.clone(), w.retain);
                k.start("publish_send".into(), Box::new(move |cl| cl.publish_send(&t, &p, qos, ret).map_or_else(e, Out::Sent)));
                let pid = k.want(Some(&w), qos > 0)?.pid;
                if let Some(i) = pid {
                    k.pubs.insert(i, (w.topic.clone(), qos));
                }
                k.o.count("send_calls");
                k.result(|o| *o == Out::Sent(pid), format!("{pid:?}"))?;
                if k.r.bool() {
                    if let Some(i) = pid {
                        let was = k.pubs.remove(&i);
                        k.start("complete_publish".into(), Box::new(move |cl| {
                            Out::Err(ErrorKind::Other, format!("{:?} {:?}", cl.complete_publish(i), cl.complete_publish(i)))
                        }));
                        let t = format!("{was:?} None");
                        k.result(|o| matches!(o, Out::Err(_, s) if *s == t), t.clone())?;
                    }
                }
            }
        }
        _ => {
            // recv_packet takes whatever is next
            if k.inbox.is_empty() || k.r.bool() {
                let ps = k.noise((0, 1), 3);
                if ps.is_empty() {
                    return Ok(true);
                }
                k.put(&ps);
            }
            if let Some(p) = k.inbox.pop_front() {
                k.start("recv_packet()".into(), Box::new(recv));
                k.o.count("received_directly");
                k.result(|o| *o == Out::Recv(Some(p.clone())), format!("{p:?}"))?;
            }
            // leave no packet behind that a later call would take for its answer
            while k.inbox.iter().any(|p| p.ty != PUBLISH) {
                let p = k.inbox.pop_front();
                k.start("recv_packet()".into(), Box::new(recv));
                k.result(|o| *o == Out::Recv(p.clone()), format!("{p:?}"))?;
            }
        }
    }
    k.nothing_more()?;
    Ok(true)
}

/// A reader that hands out a byte stream in pieces, with errors in between, and notes how deep the
/// stack is at each read.
struct Pieces {
    data: Vec<u8>,
    at: usize,
    r: Rng,
    errors: bool,
    max: usize,
    low: usize,
    high: usize,
    failed: usize,
}

impl Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let here = &here_marker() as *const u8 as usize;
        self.low = self.low.min(here);
        self.high = self.high.max(here);
        if self.high - self.low > 1 << 20 {
            // far too deep: end here, before the stack does
            return Ok(0);
        }
        if self.errors && self.r.chance(1, 5) {
            self.failed += 1;
            return Err(std::io::Error::new(if self.r.bool() { ErrorKind::WouldBlock } else { ErrorKind::TimedOut }, "later"));
        }
        let n = self.r.range(1, self.max).min(b.len()).min(self.data.len() - self.at);
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

#[inline(never)]
fn here_marker() -> u8 {
    std::hint::black_box(0)
}

/// MqttStream over any reader: the packets of the stream, once, in order, whatever the pieces.
fn pieces(r: &mut Rng, o: &mut Obs, large: bool) -> Verdict {
    let v5 = r.bool();
    let g = Gen { small: 40, big_every: 400 };
    let mut ps = vec![];
    let mut data = vec![];
    for _ in 0..r.range(1, if large { 3 } else { 12 }) {
        let mut p = g.any(r, v5);
        if p.ty == AUTH {
            p.reason = 0x18;
        }
        if large {
            p = g.packet(r, v5, PUBLISH);
            let n = r.range(150_000, 600_000);
            p.payload = r.bytes(n);
        }
        data.extend(encode(&p));
        ps.push(p);
    }
    let cut = r.chance(1, 4);
    if cut {
        let last = encode(ps.last().unwrap()).len();
        let n = r.range(1, last);
        data.truncate(data.len() - n);
        ps.pop();
    }
    let max = if large { 4096 } else { *r.pick(&[1usize, 2, 7, 100, 1024, 5000]) };
    let reader = Pieces { data, at: 0, r: r.clone(), errors: r.bool() && !large, max, low: usize::MAX, high: 0, failed: 0 };
    let ver = if v5 { 5 } else { *r.pick(&[3u8, 4]) };
    let key = r.u64();
    let body = move || -> Result<usize, Violation> {
        let mut s = MqttStream::new(reader, 16384, ver);
        let mut i = 0;
        let mut errs = 0;
        loop {
            let next = s.next();
            // a read of a later kilobyte must not stand on the frames of the earlier ones
            let st = s.mut_stream();
            let depth = st.high.saturating_sub(st.low);
            ensure!(depth < 65536, "stack", "while packet {i} was read, the stack grew by {depth} bytes");
            match next {
                Some(Ok(p)) => {
                    let m = to_model(&p);
                    if ps.get(i) != Some(&m) {
                        return fail("stream", format!("packet {i} of the stream is {}, expected {}", short(&format!("{m:?}"), 300), short(&format!("{:?}", ps.get(i)), 300)));
                    }
                    i += 1;
                }
                Some(Err(x)) => {
                    errs += 1;
                    if errs > s.mut_stream().failed {
                        return fail("stream-error", format!("error {x:?} on legal packets after {i} of {}", ps.len()));
                    }
                }
                None => break,
            }
        }
        if i != ps.len() {
            return fail("stream-end", format!("{i} packets of {} before the end", ps.len()));
        }
        Ok(errs)
    };
    let errs = match std::thread::Builder::new().stack_size(1 << 24).spawn(body).expect("a thread").join() {
        Ok(x) => x?,
        Err(_) => return fail("panic", "MqttStream panicked"),
    };
    o.add("read_errors", errs as u64);
    o.count(if large { "large_packets" } else { "streams" });
    o.case(key);
    Ok(())
}

/// The identifier counter goes round without handing out 0.
fn wrap(v5: bool, o: &mut Obs) -> Verdict {
    let l = listening();
    let addr = l.local_addr().unwrap();
    let n = 66_000usize;
    let th = std::thread::spawn(move || -> Result<Vec<u16>, String> {
        let s = accept(&l).ok_or("no connection")?;
        let mut w = s.try_clone().unwrap();
        let mut a = Pkt::new(v5, CONNACK);
        a.reason = 0;
        let mut s = std::io::BufReader::new(s);
        let mut buf: Vec<u8> = vec![];
        let mut ids = vec![];
        let mut chunk = vec![0u8; 1 << 16];
        let mut first = true;
        loop {
            let k = s.read(&mut chunk).map_err(|e| e.to_string())?;
            if k == 0 {
                return Ok(ids);
            }
            buf.extend(&chunk[..k]);
            let (ps, used) = decode_all(&buf, v5).map_err(|e| format!("{e:?}"))?;
            buf.drain(..used);
            for p in ps {
                if first {
                    w.write_all(&encode(&a)).map_err(|e| e.to_string())?;
                    first = false;
                }
                if p.ty == PUBLISH {
                    ids.push(p.pid.unwrap_or(0));
                }
            }
        }
    });
    let mut c = MqttClient::new(MqttClientOptions { peer: addr.to_string(), mqtt_version: if v5 { 5 } else { 4 }, ..Default::default() });
    let mut sent = vec![];
    if let Err(x) = c.connected() {
        return fail("connect", format!("{x}"));
    }
    for _ in 0..n {
        match c.publish_send("t", b"", 1, false) {
            Ok(Some(p)) => {
                sent.push(p);
                c.complete_publish(p);
            }
            x => return fail("send", format!("publish {} gave {x:?}", sent.len())),
        }
    }
    drop(c);
    let got = match th.join().unwrap() {
        Ok(g) => g,
        Err(x) => return fail("bytes", x),
    };
    ensure!(got == sent, "identifiers", "the identifiers on the wire are not those returned");
    ensure!(!sent.contains(&0), "identifier", "identifier 0 at publish {}", sent.iter().position(|x| *x == 0).unwrap());
    let mut last = std::collections::HashMap::new();
    for (i, p) in sent.iter().enumerate() {
        if let Some(j) = last.insert(*p, i) {
            ensure!(i - j >= 60_000, "identifier-soon", "identifier {p} again after {} publishes", i - j);
        }
    }
    o.add("identifiers", sent.len() as u64);
    o.case(v5 as u64);
    Ok(())
}

pub fn c39() -> ! {
    let mut run = Run::new("C39", "a session is non-trivial when it made calls; distinct by calls, answers and noise");
    for (c, n) in [("calls", 8000), ("noise", 5000), ("same_identifier_other_kind", 50), ("qos2_exchanges", 150), ("refused_by_pubrec", 100), ("ends", 60), ("garbage", 30), ("connect_ends", 20), ("not_a_connack", 20), ("nobody_listening", 10), ("sessionless_calls", 200), ("send_calls", 500), ("received_directly", 200), ("behind_the_answer", 300), ("pending_cleared", 20), ("pending_kept", 20), ("large_publishes", 5), ("popped", 40), ("v3_password_without_user", 20), ("streams", 1000), ("large_packets", 6), ("read_errors", 500), ("identifiers", 130_000)] {
        run.need(c, n);
    }
    run.assume("the broker keeps to MQTT except where it is said to end or break the connection; a call that has not returned after 40 s never will");
    run.cases("wrap", 2, 60.0, |i, _, o| wrap(i == 1, o));
    run.cases("pieces", run.scale(4000, 60_000), 20.0, |_, r, o| pieces(r, o, false));
    run.cases("large", run.scale(10, 100), 30.0, |_, r, o| pieces(r, o, true));
    run.cases_on("session", run.scale(4000, 60_000), if thorough() { 400.0 } else { 40.0 }, 16, |_, r, o| session(r, o));
    run.finish()
}
