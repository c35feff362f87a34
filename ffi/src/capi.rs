//! C31: random programs against the C interface, under AddressSanitizer.
use crate::child::say;
use crate::peer::*;
use flowsdk_ffi::engine::*;
use kit::*;
use refmqtt::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::c_char;
use std::ptr::{null, null_mut};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
enum H {
    Raw(*mut MqttEngineFFI),
    Tls(*mut TlsMqttEngineFFI),
    Quic(*mut QuicMqttEngineFFI),
}

/// A handle and the broker at its other end.
struct Seat {
    h: H,
    v5: bool,
    start: Instant,
    tls: Option<Tls>,
    quic: Option<Quic>,
    rx: Vec<Vec<u8>>,
    parsed: Vec<usize>,
    /// unread datagrams and ciphertext on their way back
    back: Vec<Vec<u8>>,
    pid: u16,
}

/// What has been handed out and not been given back.
enum Res {
    Bytes(*mut u8, usize, u64),
    Str(*mut c_char, u64),
    List(*mut MqttEventListFFI, usize, u64),
    Grams(*mut MqttDatagramC, usize, u64),
}

unsafe fn bytes_hash(p: *const u8, n: usize) -> u64 {
    hash64(std::slice::from_raw_parts(p, n))
}
unsafe fn grams_hash(p: *mut MqttDatagramC, n: usize) -> u64 {
    let mut h = 0u64;
    for d in std::slice::from_raw_parts(p, n) {
        h = h.rotate_left(7) ^ hash64(CStr::from_ptr(d.addr).to_bytes()) ^ bytes_hash(d.data, d.data_len);
    }
    h
}
unsafe fn list_hash(l: *mut MqttEventListFFI, n: usize) -> u64 {
    (0..n).fold(0u64, |h, i| h.rotate_left(9) ^ mqtt_event_list_get_tag(l, i) as u64 ^ (mqtt_event_list_get_published_pid(l, i) as u64) << 20)
}

impl Res {
    fn kind(&self) -> &'static str {
        match self {
            Res::Bytes(..) => "bytes",
            Res::Str(..) => "string",
            Res::List(..) => "list",
            Res::Grams(..) => "datagrams",
        }
    }
    /// Reads it through again and gives it back.
    unsafe fn free(self) -> Verdict {
        let k = self.kind();
        let same = match self {
            Res::Bytes(p, n, h) => {
                let x = bytes_hash(p, n) == h;
                mqtt_engine_free_bytes(p, n);
                x
            }
            Res::Str(p, h) => {
                let x = hash64(CStr::from_ptr(p).to_bytes()) == h;
                mqtt_engine_free_string(p);
                x
            }
            Res::List(p, n, h) => {
                let x = mqtt_event_list_len(p) == n && list_hash(p, n) == h;
                mqtt_event_list_free(p);
                x
            }
            Res::Grams(p, n, h) => {
                let x = grams_hash(p, n) == h;
                mqtt_quic_engine_free_datagrams(p, n);
                x
            }
        };
        ensure!(same, "changed", "{k} handed out had changed when they were given back");
        Ok(())
    }
}

/// A C string argument: nothing, or bytes on a heap block of exactly their size.
fn cstr(r: &mut Rng) -> Option<CString> {
    let b = match r.below(12) {
        0 => return None,
        1 => vec![],
        2 => vec![b'x'; r.range(60_000, 70_000)],
        3 | 4 => {
            let n = r.range(1, 40);
            r.bytes(n).into_iter().map(|b| b.max(1)).collect()
        }
        5 => "é漢字/😀".as_bytes().to_vec(),
        6 => b"a/+/b/#".to_vec(),
        _ => format!("t/{}", r.below(50)).into_bytes(),
    };
    Some(CString::new(b).unwrap())
}
fn ptr(c: &Option<CString>) -> *const c_char {
    c.as_ref().map_or(null(), |c| c.as_ptr())
}
fn shown(c: &Option<CString>) -> String {
    c.as_ref().map_or("null".into(), |c| {
        let b = c.as_bytes();
        format!("{}:{}", b.len(), short(&String::from_utf8_lossy(b), 12))
    })
}

/// A buffer argument.
fn buffer(r: &mut Rng) -> Option<Box<[u8]>> {
    let n = *r.pick(&[0, 1, 2, 30, 500, 5000, 100_000]);
    (!r.chance(1, 15)).then(|| r.bytes(n).into_boxed_slice())
}
fn bptr(b: &Option<Box<[u8]>>) -> (*const u8, usize) {
    b.as_ref().map_or((null(), 0), |b| (b.as_ptr(), b.len()))
}

fn version(r: &mut Rng) -> u8 {
    if r.chance(1, 10) {
        r.u8()
    } else {
        *r.pick(&[3, 4, 5, 5])
    }
}

struct Tls4 {
    s: [Option<CString>; 4],
    insecure: u8,
}
impl Tls4 {
    fn new(r: &mut Rng) -> Option<Tls4> {
        if r.chance(1, 12) {
            return None;
        }
        let f = |r: &mut Rng, names: &[&str]| match r.below(8) {
            0 => cstr(r),
            1 => None,
            _ => Some(CString::new(format!("{DIR}{}", r.pick(names))).unwrap()),
        };
        let certs = r.chance(1, 3);
        Some(Tls4 {
            s: [
                f(r, &["ca.pem", "ca.pem", "ca.pem", "leaf_key.pem", "missing.pem"]),
                if certs { f(r, &["cl.pem", "cl.pem", "leaf.pem", "cl_key.pem"]) } else { None },
                if certs { f(r, &["cl_key.pem", "cl_key.pem", "leaf_key.pem", "cl.pem"]) } else { None },
                if r.chance(1, 6) { cstr(r) } else { None },
            ],
            insecure: if r.bool() { r.u8() } else { 1 },
        })
    }
    fn with<T>(o: &Option<Tls4>, f: impl FnOnce(*const MqttTlsOptionsC) -> T) -> T {
        let Some(o) = o else { return f(null()) };
        let c = Box::new(MqttTlsOptionsC {
            ca_cert_file: ptr(&o.s[0]),
            client_cert_file: ptr(&o.s[1]),
            client_key_file: ptr(&o.s[2]),
            alpn: ptr(&o.s[3]),
            insecure_skip_verify: o.insecure,
            enable_key_log: 0,
        });
        f(&*c)
    }
}

const LONG: usize = 2_000_000;

struct World<'a> {
    seats: Vec<Seat>,
    held: Vec<Res>,
    r: &'a mut Rng,
    /// no corruption on the way
    calm: bool,
    n: HashMap<&'static str, u64>,
}

impl World<'_> {
    fn did(&mut self, k: &'static str) {
        *self.n.entry(k).or_default() += 1;
    }
    unsafe fn open(&mut self) -> Verdict {
        let (id, v) = (cstr(self.r), version(self.r));
        let known = matches!(v, 3..=5);
        let start = Instant::now();
        let h = match self.r.below(4) {
            0 => {
                say(&format!("engine_new {} {v}", shown(&id)));
                H::Raw(mqtt_engine_new(ptr(&id), v))
            }
            1 => {
                let (u, p) = (cstr(self.r), cstr(self.r));
                say(&format!("engine_new_with_opts {} {v}", shown(&id)));
                let o = Box::new(MqttOptionsC {
                    client_id: ptr(&id),
                    mqtt_version: v,
                    clean_start: self.r.bool(),
                    keep_alive: *self.r.pick(&[0, 1, 60, 65535]),
                    username: ptr(&u),
                    password: ptr(&p),
                    reconnect_base_delay_ms: *self.r.pick(&[0, 1, 1000, u64::MAX]),
                    reconnect_max_delay_ms: *self.r.pick(&[0, 1, 30_000, u64::MAX]),
                    max_reconnect_attempts: *self.r.pick(&[0, 1, u32::MAX]),
                });
                let none = self.r.chance(1, 20);
                let h = mqtt_engine_new_with_opts(if none { null() } else { &*o });
                if none {
                    ensure!(h.is_null(), "made-from-nothing", "an engine from null options");
                    return Ok(());
                }
                H::Raw(h)
            }
            2 => {
                let name = match self.r.below(8) {
                    0 => cstr(self.r),
                    1 => Some(c"127.0.0.1".to_owned()),
                    2 => Some(CString::new(*self.r.pick(&["", "a b", "-", "..", "xn--\u{e9}", "[::1]", "::1"])).unwrap()),
                    _ => Some(c"localhost".to_owned()),
                };
                let t = Tls4::new(self.r);
                say(&format!("tls_engine_new {} {v} {} {}", shown(&id), shown(&name), t.is_some()));
                let h = Tls4::with(&t, |t| mqtt_tls_engine_new(ptr(&id), v, ptr(&name), t));
                let usable = name.as_ref().is_none_or(|n| rustls::pki_types::ServerName::try_from(n.to_string_lossy().into_owned()).is_ok());
                ensure!(usable || h.is_null(), "bad-name-accepted", "an engine for the server name {}", shown(&name));
                if usable && known && h.is_null() {
                    // allowed only where a client certificate was named or the ALPN name is none
                    let odd = |a: &Option<CString>| a.as_ref().is_some_and(|a| !(1..=255).contains(&a.to_string_lossy().len()));
                    ensure!(t.as_ref().is_some_and(|t| odd(&t.s[3]) || (t.s[1].is_some() && t.s[2].is_some())), "refused", "no TLS engine for {} {v}", shown(&name));
                    self.did("unusable TLS options");
                    return Ok(());
                }
                if !usable {
                    self.did("unusable TLS options");
                }
                H::Tls(h)
            }
            _ => {
                say(&format!("quic_engine_new {} {v}", shown(&id)));
                H::Quic(mqtt_quic_engine_new(ptr(&id), v))
            }
        };
        let null = match h {
            H::Raw(p) => p.is_null(),
            H::Tls(p) => p.is_null(),
            H::Quic(p) => p.is_null(),
        };
        ensure!(known || null, "bad-version-accepted", "an engine for MQTT version {v}");
        if !known {
            self.did("unknown versions");
        }
        if null {
            ensure!(!known || matches!(h, H::Tls(_)), "refused", "no engine for version {v}");
            return Ok(());
        }
        if let H::Raw(p) = h {
            ensure!(mqtt_engine_get_version(p) == v, "version", "{} instead of {v}", mqtt_engine_get_version(p));
        }
        self.did("engines");
        self.seats.push(Seat {
            h,
            v5: v == 5,
            start,
            tls: matches!(h, H::Tls(_)).then(Tls::new),
            quic: matches!(h, H::Quic(_)).then(Quic::new),
            rx: vec![vec![]],
            parsed: vec![],
            back: vec![],
            pid: 0,
        });
        Ok(())
    }

    unsafe fn hold_bytes(&mut self, p: *mut u8, n: usize) {
        self.did("buffers");
        self.held.push(Res::Bytes(p, n, bytes_hash(p, n)));
    }
    unsafe fn hold_str(&mut self, p: *mut c_char) -> String {
        self.did("strings");
        let b = CStr::from_ptr(p).to_bytes();
        self.held.push(Res::Str(p, hash64(b)));
        String::from_utf8_lossy(b).to_string()
    }

    /// Takes what is to go out and hands it to the broker.
    unsafe fn flush(&mut self, i: usize) -> Verdict {
        let h = self.seats[i].h;
        // without a place for the length nothing may be taken
        if self.r.chance(1, 12) {
            let nothing = match h {
                H::Raw(p) => mqtt_engine_take_outgoing(p, null_mut()).is_null(),
                H::Tls(p) => mqtt_tls_engine_take_socket_data(p, null_mut()).is_null(),
                H::Quic(p) => mqtt_quic_engine_take_outgoing_datagrams(p, null_mut()).is_null(),
            };
            self.did("no place for the length");
            ensure!(nothing, "no-length", "data handed out without its length");
        }
        let mut n = Box::new(0xdead_beefusize);
        match h {
            H::Raw(_) | H::Tls(_) => {
                let p = match h {
                    H::Raw(p) => mqtt_engine_take_outgoing(p, &mut *n),
                    H::Tls(p) => mqtt_tls_engine_take_socket_data(p, &mut *n),
                    _ => null_mut(),
                };
                ensure!(*n < LONG && p.is_null() == (*n == 0), "length", "length {} for null={}", *n, p.is_null());
                if !p.is_null() {
                    let s = &mut self.seats[i];
                    let b = std::slice::from_raw_parts(p, *n);
                    match &mut s.tls {
                        Some(t) => {
                            t.feed(b, &mut s.rx[0]);
                            let o = t.out();
                            if !o.is_empty() {
                                s.back.push(o);
                            }
                        }
                        None => s.rx[0].extend_from_slice(b),
                    }
                    self.hold_bytes(p, *n);
                }
            }
            H::Quic(e) => {
                let p = mqtt_quic_engine_take_outgoing_datagrams(e, &mut *n);
                ensure!(*n < LONG && p.is_null() == (*n == 0), "length", "count {} for null={}", *n, p.is_null());
                if !p.is_null() {
                    let s = &mut self.seats[i];
                    let q = s.quic.as_mut().unwrap();
                    for d in std::slice::from_raw_parts(p, *n) {
                        q.feed(std::slice::from_raw_parts(d.data, d.data_len));
                    }
                    self.did("datagram arrays");
                    self.held.push(Res::Grams(p, *n, grams_hash(p, *n)));
                }
                let s = &mut self.seats[i];
                let q = s.quic.as_mut().unwrap();
                q.drive(&mut s.rx);
                s.back.append(&mut q.out);
            }
        }
        Ok(())
    }

    unsafe fn incoming(&mut self, i: usize, b: &[u8]) {
        let b: Box<[u8]> = b.into();
        match self.seats[i].h {
            H::Raw(p) => mqtt_engine_handle_incoming(p, b.as_ptr(), b.len()),
            H::Tls(p) => mqtt_tls_engine_handle_socket_data(p, b.as_ptr(), b.len()),
            H::Quic(p) => {
                let a = match self.r.below(12) {
                    0 => cstr(self.r),
                    1 => Some(c"10.0.0.1:80".to_owned()),
                    _ => Some(CString::new(ADDR).unwrap()),
                };
                mqtt_quic_engine_handle_datagram(p, b.as_ptr(), b.len(), ptr(&a))
            }
        }
    }

    /// Answers of the broker to what has come, and messages of its own.
    fn answers(&mut self, i: usize, at: usize) -> Vec<u8> {
        let mut out = vec![];
        let s = &mut self.seats[i];
        s.parsed.resize(s.rx.len(), 0);
        while s.parsed[at] < s.rx[at].len() {
            let rest = s.rx[at][s.parsed[at]..].to_vec();
            let Ok(Some(n)) = frame_len(&rest) else { break };
            if n > rest.len() {
                break;
            }
            s.parsed[at] += n;
            let Ok((v, _)) = decode_all(&rest[..n], s.v5) else { continue };
            for p in v {
                let mut a = match p.ty {
                    CONNECT => {
                        let mut a = Pkt::new(s.v5, CONNACK);
                        a.session_present = self.r.bool() && p.conn.as_ref().is_some_and(|c| !c.clean);
                        a.reason = if self.r.chance(1, 12) { if s.v5 { 0x87 } else { 5 } } else { 0 };
                        a
                    }
                    PUBLISH if p.qos == 1 => Pkt::ack(s.v5, PUBACK, p.pid.unwrap(), 0),
                    PUBLISH if p.qos == 2 => Pkt::ack(s.v5, PUBREC, p.pid.unwrap(), 0),
                    PUBREL => Pkt::ack(s.v5, PUBCOMP, p.pid.unwrap(), 0),
                    PUBREC => Pkt::ack(s.v5, PUBREL, p.pid.unwrap(), 0),
                    SUBSCRIBE | UNSUBSCRIBE => Pkt::ack(s.v5, if p.ty == SUBSCRIBE { SUBACK } else { UNSUBACK }, p.pid.unwrap(), 0),
                    PINGREQ => Pkt::new(s.v5, PINGRESP),
                    _ => continue,
                };
                if p.ty == SUBSCRIBE || (p.ty == UNSUBSCRIBE && s.v5) {
                    a.codes = vec![0];
                }
                out.extend(encode(&a));
            }
        }
        for _ in 0..self.r.below(4) {
            let s = &mut self.seats[i];
            let mut m = Pkt::new(s.v5, PUBLISH);
            m.topic = if self.r.chance(1, 10) { "é/".repeat(2000) } else { format!("m/{}", self.r.below(9)) };
            m.qos = self.r.below(3) as u8;
            if m.qos > 0 {
                s.pid = s.pid % 60_000 + 1;
                m.pid = Some(s.pid);
            }
            let n = *self.r.pick(&[0, 0, 1, 100, 4000]);
            m.payload = self.r.bytes(n);
            out.extend(encode(&m));
        }
        out
    }

    unsafe fn broker(&mut self, i: usize) -> Verdict {
        for at in 0..self.seats[i].rx.len() {
            self.broker_on(i, at)?;
        }
        Ok(())
    }

    unsafe fn broker_on(&mut self, i: usize, at: usize) -> Verdict {
        let mut b = self.answers(i, at);
        match if self.calm { 99 } else { self.r.below(25) } {
            0 => {
                let n = self.r.range(1, 60);
                b = self.r.bytes(n)
            }
            1 if !b.is_empty() => {
                let k = self.r.below(b.len());
                b[k] ^= 1 << self.r.below(8);
            }
            2 => b.truncate(self.r.below(b.len() + 1)),
            _ => {}
        }
        say(&format!("broker sends {} on {at}", b.len()));
        let s = &mut self.seats[i];
        let mut msgs = match (&mut s.tls, &mut s.quic) {
            (Some(t), _) => {
                t.send(&b);
                let mut v = std::mem::take(&mut s.back);
                v.push(t.out());
                v
            }
            (_, Some(q)) => {
                q.send(at, &b);
                match self.r.below(if at > 0 { 15 } else { 60 }) {
                    0 => q.reset(at, 7),
                    1 => q.stop(at, 9),
                    2 => q.finish(at),
                    3 => q.close(b"bye\0bye"),
                    _ => {}
                }
                q.drive(&mut s.rx);
                let mut v = std::mem::take(&mut s.back);
                v.append(&mut q.out);
                v
            }
            _ => vec![b],
        };
        if !self.calm && self.r.chance(1, 25) && !msgs.is_empty() {
            let k = self.r.below(msgs.len());
            if !msgs[k].is_empty() {
                let j = self.r.below(msgs[k].len());
                msgs[k][j] ^= 1 << self.r.below(8);
            }
        }
        if !self.calm && self.r.chance(1, 30) {
            let n = self.r.range(0, 1400);
            msgs.push(self.r.bytes(n));
        }
        for m in msgs {
            self.incoming(i, &m);
        }
        Ok(())
    }

    unsafe fn events(&mut self, i: usize) -> Verdict {
        let h = self.seats[i].h;
        if self.r.bool() {
            say("take_events");
            let p = match h {
                H::Raw(p) => mqtt_engine_take_events(p),
                H::Tls(p) => mqtt_tls_engine_take_events(p),
                H::Quic(p) => mqtt_quic_engine_take_events(p),
            };
            ensure!(!p.is_null(), "no-events-string", "null from take_events");
            let s = self.hold_str(p);
            let v: Result<Vec<serde_json::Value>, _> = serde_json::from_str(&s);
            ensure!(v.is_ok(), "events-unreadable", "{}", short(&s, 300));
            return Ok(());
        }
        say("take_events_list");
        let l = match h {
            H::Raw(p) => mqtt_engine_take_events_list(p),
            H::Tls(p) => mqtt_tls_engine_take_events_list(p),
            H::Quic(p) => mqtt_quic_engine_take_events_list(p),
        };
        ensure!(!l.is_null(), "no-list", "null from take_events_list");
        let n = mqtt_event_list_len(l);
        self.did("lists");
        self.held.push(Res::List(l, n, list_hash(l, n)));
        self.read_list(l, n)
    }

    /// All getters at all places, fitting or not.
    unsafe fn read_list(&mut self, l: *mut MqttEventListFFI, n: usize) -> Verdict {
        let mut at: Vec<usize> = (0..n.min(40)).collect();
        at.extend([n, n + 1, usize::MAX, usize::MAX / 2]);
        for i in at {
            let tag = mqtt_event_list_get_tag(l, i);
            ensure!((tag == 0) == (i >= n) && tag <= 13, "tag", "tag {tag} at {i} of {n}");
            let rc = mqtt_event_list_get_connected_rc(l, i);
            ensure!(tag == 1 || rc == 0, "getter", "connected_rc {rc} for tag {tag}");
            let t = mqtt_event_list_get_message_topic(l, i);
            ensure!(t.is_null() == (tag != 3), "getter", "message_topic null={} for tag {tag}", t.is_null());
            if !t.is_null() {
                self.hold_str(t);
            }
            if self.r.chance(1, 8) {
                ensure!(mqtt_event_list_get_message_payload(l, i, null_mut()).is_null(), "no-length", "a payload handed out without its length");
            }
            let mut k = Box::new(usize::MAX);
            let p = mqtt_event_list_get_message_payload(l, i, &mut *k);
            ensure!(p.is_null() == (tag != 3), "getter", "message_payload null={} for tag {tag}", p.is_null());
            if !p.is_null() {
                ensure!(*k < LONG, "length", "payload of {}", *k);
                self.hold_bytes(p, *k);
                self.did("messages");
            }
            let x = mqtt_event_list_get_published_pid(l, i);
            ensure!((x == -1) == (tag != 4) && x <= 65535, "getter", "published_pid {x} for tag {tag}");
            let x = mqtt_event_list_get_subscribed_pid(l, i);
            ensure!((x == -1) == (tag != 5) && x <= 65535, "getter", "subscribed_pid {x} for tag {tag}");
            for (s, own) in [(mqtt_event_list_get_error_message(l, i), 8), (mqtt_event_list_get_stream_close_reason(l, i), 11)] {
                ensure!(s.is_null() == (tag != own), "getter", "string of tag {own}: null={} for tag {tag}", s.is_null());
                if !s.is_null() {
                    self.hold_str(s);
                }
            }
            let (id, ec, by) = (mqtt_event_list_get_stream_id(l, i), mqtt_event_list_get_stream_error_code(l, i), mqtt_event_list_get_stream_closed_by_peer(l, i));
            ensure!(matches!(tag, 11..=13) || id == 0, "getter", "stream_id {id} for tag {tag}");
            ensure!(matches!(tag, 12 | 13) || ec == 0, "getter", "stream_error_code {ec} for tag {tag}");
            ensure!((by == -1) == (tag != 11) && by < 2, "getter", "closed_by_peer {by} for tag {tag}");
            if matches!(tag, 11..=13) {
                self.did("stream events");
            }
        }
        Ok(())
    }

    /// The calls without an engine.
    unsafe fn nothing(&mut self) -> Verdict {
        say("null handles");
        self.did("null handles");
        let (t, b) = (cstr(self.r), buffer(self.r));
        let (bp, bn) = bptr(&b);
        let (q, ms) = (self.r.u8(), self.r.u64());
        let (e, s, u) = (null_mut(), null_mut(), null_mut());
        mqtt_engine_free(e);
        mqtt_tls_engine_free(s);
        mqtt_quic_engine_free(u);
        mqtt_engine_connect(e);
        mqtt_tls_engine_connect(s);
        mqtt_engine_handle_incoming(e, bp, bn);
        mqtt_tls_engine_handle_socket_data(s, bp, bn);
        mqtt_quic_engine_handle_datagram(u, bp, bn, ptr(&t));
        mqtt_engine_handle_tick(e, ms);
        mqtt_tls_engine_handle_tick(s, ms);
        mqtt_quic_engine_handle_tick(u, ms);
        mqtt_engine_disconnect(e);
        mqtt_tls_engine_disconnect(s);
        mqtt_quic_engine_disconnect(u);
        mqtt_engine_auth(e, q);
        mqtt_engine_handle_connection_lost(e);
        mqtt_engine_free_bytes(null_mut(), self.r.below(100));
        mqtt_engine_free_string(null_mut());
        mqtt_quic_engine_free_datagrams(null_mut(), self.r.below(100));
        mqtt_event_list_free(null_mut());
        let ints = [
            mqtt_engine_publish(e, ptr(&t), bp, bn, q),
            mqtt_tls_engine_publish(s, ptr(&t), bp, bn, q),
            mqtt_quic_engine_publish(u, ptr(&t), bp, bn, q),
            mqtt_engine_subscribe(e, ptr(&t), q),
            mqtt_tls_engine_subscribe(s, ptr(&t), q),
            mqtt_quic_engine_subscribe(u, ptr(&t), q),
            mqtt_engine_unsubscribe(e, ptr(&t)),
            mqtt_tls_engine_unsubscribe(s, ptr(&t)),
            mqtt_quic_engine_unsubscribe(u, ptr(&t)),
            mqtt_quic_engine_connect(u, c"127.0.0.1:1".as_ptr(), c"localhost".as_ptr(), null()),
            mqtt_engine_next_tick_ms(e) as i32,
            mqtt_event_list_get_published_pid(null(), 0),
            mqtt_event_list_get_subscribed_pid(null(), 0),
            mqtt_event_list_get_stream_closed_by_peer(null(), 0),
        ];
        ensure!(ints.iter().all(|x| *x == -1), "null-handle", "calls without an engine returned {ints:?} instead of -1");
        let zeros = [
            mqtt_engine_is_connected(e) as u64,
            mqtt_tls_engine_is_connected(s) as u64,
            mqtt_quic_engine_is_connected(u) as u64,
            mqtt_event_list_len(null()) as u64,
            mqtt_event_list_get_tag(null(), 0) as u64,
            mqtt_event_list_get_connected_rc(null(), 0) as u64,
            mqtt_event_list_get_stream_id(null(), 0),
            mqtt_event_list_get_stream_error_code(null(), 0),
            mqtt_engine_get_version(e) as u64,
        ];
        ensure!(zeros.iter().all(|x| *x == 0), "null-handle", "queries without an engine returned {zeros:?} instead of 0");
        let mut n = 0;
        let nulls = [
            mqtt_engine_take_outgoing(e, &mut n).is_null(),
            mqtt_tls_engine_take_socket_data(s, &mut n).is_null(),
            mqtt_quic_engine_take_outgoing_datagrams(u, &mut n).is_null(),
            mqtt_engine_take_events(e).is_null(),
            mqtt_tls_engine_take_events(s).is_null(),
            mqtt_quic_engine_take_events(u).is_null(),
            mqtt_engine_take_events_list(e).is_null(),
            mqtt_tls_engine_take_events_list(s).is_null(),
            mqtt_quic_engine_take_events_list(u).is_null(),
            mqtt_event_list_get_message_topic(null(), 0).is_null(),
            mqtt_event_list_get_message_payload(null(), 0, &mut n).is_null(),
            mqtt_event_list_get_error_message(null(), 0).is_null(),
            mqtt_event_list_get_stream_close_reason(null(), 0).is_null(),
            mqtt_engine_new_with_opts(null()).is_null(),
        ];
        ensure!(nulls.iter().all(|x| *x), "null-handle", "calls without an engine returned {nulls:?} where null was due");
        Ok(())
    }

    unsafe fn tick(&mut self, i: usize) -> Verdict {
        let h = self.seats[i].h;
        let real = self.seats[i].start.elapsed().as_millis() as u64;
        let ms = if matches!(h, H::Quic(_)) { real + self.r.below(5) as u64 } else { *self.r.pick(&[0, 1, real, real + 3000, 100_000, 10_000_000, u64::MAX / 4]) };
        say(&format!("tick {ms}"));
        match h {
            H::Raw(p) => {
                mqtt_engine_handle_tick(p, ms);
                ensure!(mqtt_engine_next_tick_ms(p) >= -1, "next-tick", "{}", mqtt_engine_next_tick_ms(p));
            }
            H::Tls(p) => mqtt_tls_engine_handle_tick(p, ms),
            H::Quic(p) => mqtt_quic_engine_handle_tick(p, ms),
        }
        self.flush(i)?;
        Ok(())
    }

    unsafe fn close(&mut self, i: usize) {
        say(&format!("free {i}"));
        let s = self.seats.swap_remove(i);
        match s.h {
            H::Raw(p) => mqtt_engine_free(p),
            H::Tls(p) => mqtt_tls_engine_free(p),
            H::Quic(p) => mqtt_quic_engine_free(p),
        }
    }

    unsafe fn step(&mut self) -> Verdict {
        if self.seats.is_empty() || (self.seats.len() < 4 && self.r.chance(1, 25)) {
            return self.open();
        }
        let i = self.r.below(self.seats.len());
        let h = self.seats[i].h;
        match self.r.below(40) {
            0 => self.nothing()?,
            1 => {
                if self.r.chance(1, 3) {
                    self.close(i)
                }
            }
            2..=4 => {
                say("connect");
                match h {
                    H::Raw(p) => mqtt_engine_connect(p),
                    H::Tls(p) => mqtt_tls_engine_connect(p),
                    H::Quic(p) => {
                        let addr = match self.r.below(10) {
                            0 => cstr(self.r),
                            1 => Some(CString::new(*self.r.pick(&["localhost:14567", "127.0.0.1", "127.0.0.1:99999", "::1:1", "[::1]:1", "0.0.0.0:0"])).unwrap()),
                            _ => Some(CString::new(ADDR).unwrap()),
                        };
                        let name = match self.r.below(10) {
                            0 => cstr(self.r),
                            1 => Some(c"a b".to_owned()),
                            _ => Some(c"localhost".to_owned()),
                        };
                        let t = Tls4::new(self.r);
                        say(&format!("quic_connect {} {}", shown(&addr), shown(&name)));
                        let x = Tls4::with(&t, |t| mqtt_quic_engine_connect(p, ptr(&addr), ptr(&name), t));
                        ensure!(x == 0 || x == -1, "connect-return", "{x}");
                        let ok = |s: &Option<CString>, f: fn(String) -> bool| s.as_ref().is_some_and(|s| f(s.to_string_lossy().into_owned()));
                        let good = ok(&addr, |a| a.parse::<std::net::SocketAddr>().is_ok()) && ok(&name, |n| rustls::pki_types::ServerName::try_from(n).is_ok());
                        ensure!(good || x == -1, "bad-connect-accepted", "connecting to {} as {} reported success", shown(&addr), shown(&name));
                        if !good {
                            self.did("unusable addresses");
                        }
                        if x == 0 {
                            self.seats[i].quic = Some(Quic::new());
                            self.seats[i].rx = vec![vec![]];
                            self.seats[i].parsed.clear();
                            self.seats[i].back.clear();
                        }
                    }
                }
                self.flush(i)?;
                if self.r.chance(3, 4) {
                    for _ in 0..4 {
                        self.broker(i)?;
                        self.tick(i)?;
                    }
                }
            }
            5..=9 => {
                let (t, b) = (cstr(self.r), buffer(self.r));
                let (bp, bn) = bptr(&b);
                let q = if self.r.chance(1, 6) { self.r.u8() } else { self.r.below(3) as u8 };
                say(&format!("publish {} {:?} qos {q}", shown(&t), b.as_ref().map(|b| b.len())));
                let x = match h {
                    H::Raw(p) => mqtt_engine_publish(p, ptr(&t), bp, bn, q),
                    H::Tls(p) => mqtt_tls_engine_publish(p, ptr(&t), bp, bn, q),
                    H::Quic(p) => mqtt_quic_engine_publish(p, ptr(&t), bp, bn, q),
                };
                ensure!((-1..=65535).contains(&x), "publish-return", "{x}");
                // other faults may also be reported by an Error event
                if t.is_none() {
                    ensure!(x == -1, "bad-publish-accepted", "publish to null returned {x}");
                }
                if x == -1 {
                    self.did("refused publishes");
                } else {
                    ensure!((x == 0) == (q == 0), "publish-return", "{x} for QoS {q}");
                    self.did("publishes");
                }
            }
            10 | 11 => {
                let (t, q, un) = (cstr(self.r), if self.r.chance(1, 6) { self.r.u8() } else { self.r.below(3) as u8 }, self.r.chance(1, 3));
                say(&format!("subscribe {} qos {q} un={un}", shown(&t)));
                let x = match h {
                    H::Raw(p) if un => mqtt_engine_unsubscribe(p, ptr(&t)),
                    H::Tls(p) if un => mqtt_tls_engine_unsubscribe(p, ptr(&t)),
                    H::Quic(p) if un => mqtt_quic_engine_unsubscribe(p, ptr(&t)),
                    H::Raw(p) => mqtt_engine_subscribe(p, ptr(&t), q),
                    H::Tls(p) => mqtt_tls_engine_subscribe(p, ptr(&t), q),
                    H::Quic(p) => mqtt_quic_engine_subscribe(p, ptr(&t), q),
                };
                ensure!(x == -1 || (1..=65535).contains(&x), "subscribe-return", "{x}");
                ensure!(t.is_some() || x == -1, "bad-subscribe-accepted", "subscribe to null returned {x}");
            }
            12..=15 => {
                say("take");
                self.flush(i)?
            }
            16..=23 => self.broker(i)?,
            24..=27 => {
                self.tick(i)?
            }
            28..=31 => self.events(i)?,
            32 => {
                say("disconnect");
                match h {
                    H::Raw(p) => mqtt_engine_disconnect(p),
                    H::Tls(p) => mqtt_tls_engine_disconnect(p),
                    H::Quic(p) => mqtt_quic_engine_disconnect(p),
                }
            }
            33 => {
                if let H::Raw(p) = h {
                    say("lost, auth");
                    if self.r.bool() {
                        mqtt_engine_handle_connection_lost(p);
                        self.seats[i].rx = vec![vec![]];
                        self.seats[i].parsed.clear();
                    } else {
                        mqtt_engine_auth(p, self.r.u8());
                    }
                }
            }
            34 => {
                // no data
                say("null data");
                let n = self.r.below(1000);
                match h {
                    H::Raw(p) => mqtt_engine_handle_incoming(p, null(), n),
                    H::Tls(p) => mqtt_tls_engine_handle_socket_data(p, null(), n),
                    H::Quic(p) => mqtt_quic_engine_handle_datagram(p, null(), n, null()),
                }
            }
            _ => {
                let c = match h {
                    H::Raw(p) => mqtt_engine_is_connected(p),
                    H::Tls(p) => mqtt_tls_engine_is_connected(p),
                    H::Quic(p) => mqtt_quic_engine_is_connected(p),
                };
                ensure!(c == 0 || c == 1, "state", "{c}");
                if c == 1 {
                    self.did("seen connected");
                }
                while self.held.len() > 30 || (!self.held.is_empty() && self.r.bool()) {
                    let k = self.r.below(self.held.len());
                    say(&format!("give back {}", self.held[k].kind()));
                    let x = self.held.swap_remove(k);
                    x.free()?;
                }
            }
        }
        Ok(())
    }
}

fn program(r: &mut Rng) -> Result<HashMap<&'static str, u64>, Violation> {
    let mut w = World { calm: r.bool(), seats: vec![], held: vec![], r, n: HashMap::new() };
    let v = (|| unsafe {
        for _ in 0..w.r.range(20, 300) {
            w.step()?;
        }
        say("all engines freed");
        while !w.seats.is_empty() {
            w.close(0);
        }
        // what was handed out outlives the engines
        for x in std::mem::take(&mut w.held) {
            x.free()?;
        }
        Ok(())
    })();
    v?;
    Ok(w.n)
}

pub fn case(r: &mut Rng, o: &mut Obs) -> Verdict {
    o.case(r.clone().u64());
    let mut r2 = r.clone();
    for (k, n) in program(&mut r2)? {
        o.add(k, n);
    }
    o.sample = Some(format!("a program with {}", o.counts.iter().map(|(k, n)| format!("{n} {k}")).collect::<Vec<_>>().join(", ")));
    let mut seen = vec![];
    for _ in 0..4 {
        let mut r2 = r.clone();
        let before = alloc::live();
        say("the same program again");
        let x = program(&mut r2)?;
        drop(x);
        seen.push(alloc::live() - before);
        if seen.last() == Some(&0) {
            break;
        }
    }
    o.count("programs balanced");
    ensure!(seen.len() < 4 || !(seen.iter().all(|x| *x > 0)), "leak", "after everything was given back, {seen:?} bytes more were in use than before, run after run");
    ensure!(seen.len() < 4 || !(seen.iter().all(|x| *x < 0)), "freed-as-more", "after everything was given back, {seen:?} bytes fewer were in use than before, run after run");
    Ok(())
}

#[derive(Clone, Copy)]
struct Shared(*mut MqttEngineFFI);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

/// One handle, used by several threads: everything taken out exactly once.
pub fn threads(r: &mut Rng, o: &mut Obs) -> Verdict {
    o.case(r.clone().u64());
    let v5 = r.bool();
    let n = r.range(50, 400);
    let e = Shared(unsafe { mqtt_engine_new(c"shared".as_ptr(), if v5 { 5 } else { 4 }) });
    unsafe { mqtt_engine_connect(e.0) };
    let mut conn = encode(&Pkt::new(v5, CONNACK));
    unsafe { mqtt_engine_handle_incoming(e.0, conn.as_ptr(), conn.len()) };
    conn.clear();
    let done = AtomicBool::new(false);
    let calls = AtomicUsize::new(0);
    let mut events: Vec<serde_json::Value> = vec![];
    let (mut out, mut topics) = (vec![], vec![]);
    let mut tick = 0;
    let seeds = [r.u64(), r.u64(), r.u64(), r.u64(), r.u64()];
    let mut pids = vec![];
    std::thread::scope(|s| {
        let e = &e;
        let (done, calls) = (&done, &calls);
        // the reader of the socket
        let feeder = s.spawn(move || {
            let mut r = Rng::new(seeds[0]);
            for k in 0..n {
                let mut m = Pkt::new(v5, PUBLISH);
                m.topic = format!("n/{k}");
                m.payload = vec![k as u8; k % 50];
                let b = encode(&m);
                unsafe { mqtt_engine_handle_incoming(e.0, b.as_ptr(), b.len()) };
                if r.chance(1, 20) {
                    std::thread::yield_now();
                }
            }
        });
        let publisher = |seed: u64, who: usize| {
            s.spawn(move || {
                let mut r = Rng::new(seed);
                let mut v = vec![];
                for k in 0..n / 2 {
                    let t = CString::new(format!("p/{who}/{k}")).unwrap();
                    let q = r.below(2) as u8;
                    v.push((q, unsafe { mqtt_engine_publish(e.0, t.as_ptr(), b"x".as_ptr(), 1, q) }));
                    if r.chance(1, 20) {
                        std::thread::yield_now();
                    }
                }
                v
            })
        };
        let (p1, p2) = (publisher(seeds[1], 1), publisher(seeds[2], 2));
        let ticker = s.spawn(move || {
            let mut t = 0;
            while !done.load(Ordering::Relaxed) {
                t += 1;
                unsafe {
                    mqtt_engine_handle_tick(e.0, t % 900);
                    mqtt_engine_is_connected(e.0);
                    mqtt_engine_next_tick_ms(e.0);
                }
                calls.fetch_add(3, Ordering::Relaxed);
                std::thread::yield_now();
            }
            t
        });
        let taker = |list: bool| {
            s.spawn(move || {
                let mut v = vec![];
                loop {
                    let last = done.load(Ordering::SeqCst);
                    if list {
                        let l = unsafe { mqtt_engine_take_events_list(e.0) };
                        for i in 0..unsafe { mqtt_event_list_len(l) } {
                            if let Some(t) = unsafe { crate::side::take_str(mqtt_event_list_get_message_topic(l, i)) } {
                                v.push(t);
                            }
                        }
                        unsafe { mqtt_event_list_free(l) };
                    } else {
                        let t = unsafe { crate::side::take_str(mqtt_engine_take_events(e.0)) }.unwrap();
                        let j: Vec<serde_json::Value> = serde_json::from_str(&t).unwrap();
                        v.extend(j.iter().filter_map(|x| x["MessageReceived"]["topic"].as_str().map(|s| s.to_string())));
                    }
                    calls.fetch_add(1, Ordering::Relaxed);
                    if last {
                        return v;
                    }
                    std::thread::yield_now();
                }
            })
        };
        let (t1, t2) = (taker(true), taker(false));
        let writer = s.spawn(move || {
            let mut v = vec![];
            loop {
                let last = done.load(Ordering::SeqCst);
                let mut k = 0;
                let p = unsafe { mqtt_engine_take_outgoing(e.0, &mut k) };
                v.extend(unsafe { crate::side::take_bytes(p, k) });
                if last {
                    return v;
                }
                std::thread::yield_now();
            }
        });
        feeder.join().unwrap();
        pids.extend(p1.join().unwrap());
        pids.extend(p2.join().unwrap());
        std::thread::sleep(Duration::from_millis(2));
        done.store(true, Ordering::SeqCst);
        tick = ticker.join().unwrap();
        topics.extend(t1.join().unwrap());
        topics.extend(t2.join().unwrap());
        out.extend(writer.join().unwrap());
    });
    let l = unsafe { crate::side::take_str(mqtt_engine_take_events(e.0)) }.unwrap();
    events.extend(serde_json::from_str::<Vec<serde_json::Value>>(&l).unwrap());
    topics.extend(events.iter().filter_map(|x| x["MessageReceived"]["topic"].as_str().map(|s| s.to_string())));
    let mut k = 0;
    let p = unsafe { mqtt_engine_take_outgoing(e.0, &mut k) };
    out.extend(unsafe { crate::side::take_bytes(p, k) });
    unsafe { mqtt_engine_free(e.0) };
    // messages
    let mut got: Vec<usize> = topics.iter().filter_map(|t| t.strip_prefix("n/").and_then(|t| t.parse().ok())).collect();
    got.sort();
    ensure!(got == (0..n).collect::<Vec<_>>(), "threads-messages", "{} of {n} messages came out, {} different ones", got.len(), {
        let mut g = got.clone();
        g.dedup();
        g.len()
    });
    // publishes
    let d = decode_all(&out, v5);
    let Ok((pkts, used)) = d else { return fail("threads-bytes", "the bytes taken out are no packets".to_string()) };
    ensure!(used == out.len(), "threads-bytes", "{used} of {} bytes are packets", out.len());
    let want = pids.iter().filter(|x| x.1 >= 0).count();
    let sent: Vec<_> = pkts.iter().filter(|p| p.ty == PUBLISH).collect();
    let mut t: Vec<_> = sent.iter().map(|p| p.topic.clone()).collect();
    t.sort();
    t.dedup();
    ensure!(t.len() == sent.len(), "threads-publishes", "{} publishes on {} topics", sent.len(), t.len());
    ensure!(sent.len() <= want, "threads-publishes", "{} publishes for {want} calls", sent.len());
    let mut ids: Vec<i32> = pids.iter().filter(|x| x.0 == 1 && x.1 > 0).map(|x| x.1).collect();
    ids.sort();
    let k = ids.len();
    ids.dedup();
    ensure!(ids.len() == k, "threads-pids", "one packet identifier for two publishes");
    o.add("messages through shared handles", n as u64);
    o.add("publishes through shared handles", sent.len() as u64);
    o.add("calls beside them", (calls.load(Ordering::Relaxed) + tick as usize) as u64);
    o.sample = Some(format!("{n} messages and {want} publishes through one handle from seven threads"));
    Ok(())
}

pub fn c31() {
    let mut run = Run::new("C31", "a program of C calls with everything given back, under AddressSanitizer, balanced");
    for (k, n) in [
        ("engines", 500),
        ("buffers", 5000),
        ("strings", 3000),
        ("lists", 1000),
        ("datagram arrays", 500),
        ("messages", 1000),
        ("publishes", 500),
        ("refused publishes", 200),
        ("null handles", 300),
        ("no place for the length", 200),
        ("unknown versions", 20),
        ("unusable TLS options", 5),
        ("unusable addresses", 10),
        ("seen connected", 300),
        ("stream events", 20),
        ("programs balanced", 200),
        ("messages through shared handles", 3000),
        ("publishes through shared handles", 2000),
    ] {
        run.need(k, n);
    }
    run.assume("pointers passed in are valid or null, and what is given back was handed out and is given back once");
    run.cases_on("programs", run.scale(300, 20_000), run.scale(120, 700) as f64, 8, |_, r, o| crate::child::batch("capi", r, 8, o));
    run.cases_on("threads", run.scale(40, 2000), run.scale(40, 150) as f64, 2, |_, r, o| crate::child::batch("threads", r, 6, o));
    run.finish()
}
