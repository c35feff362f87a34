//! An independent MQTT 3.1.1 / 5.0 codec written from the standards. It shares no code with the
//! library under test; it is the oracle of the wire-format monitors and the language of the
//! scripted brokers.

use kit::Rng;

pub const CONNECT: u8 = 1;
pub const CONNACK: u8 = 2;
pub const PUBLISH: u8 = 3;
pub const PUBACK: u8 = 4;
pub const PUBREC: u8 = 5;
pub const PUBREL: u8 = 6;
pub const PUBCOMP: u8 = 7;
pub const SUBSCRIBE: u8 = 8;
pub const SUBACK: u8 = 9;
pub const UNSUBSCRIBE: u8 = 10;
pub const UNSUBACK: u8 = 11;
pub const PINGREQ: u8 = 12;
pub const PINGRESP: u8 = 13;
pub const DISCONNECT: u8 = 14;
pub const AUTH: u8 = 15;

pub const NAMES: [&str; 16] = [
    "RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK",
    "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH",
];

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Byte(u8, u8),
    U16(u8, u16),
    U32(u8, u32),
    Vbi(u8, u32),
    Str(u8, String),
    Bin(u8, Vec<u8>),
    Pair(String, String),
}

impl P {
    pub fn id(&self) -> u8 {
        match self {
            P::Byte(i, _) | P::U16(i, _) | P::U32(i, _) | P::Vbi(i, _) | P::Str(i, _) | P::Bin(i, _) => *i,
            P::Pair(..) => 0x26,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct WillM {
    pub qos: u8,
    pub retain: bool,
    pub topic: String,
    pub payload: Vec<u8>,
    pub props: Vec<P>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Conn {
    pub name: String,
    pub level: u8,
    pub clean: bool,
    pub keep_alive: u16,
    pub client_id: String,
    pub will: Option<WillM>,
    pub username: Option<String>,
    pub password: Option<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Pkt {
    pub v5: bool,
    pub ty: u8,
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub pid: Option<u16>,
    pub reason: u8,
    pub session_present: bool,
    pub topic: String,
    pub payload: Vec<u8>,
    pub props: Vec<P>,
    pub codes: Vec<u8>,
    pub filters: Vec<(String, u8)>,
    pub conn: Option<Conn>,
}

impl Pkt {
    pub fn new(v5: bool, ty: u8) -> Pkt {
        Pkt { v5, ty, ..Default::default() }
    }
    pub fn ack(v5: bool, ty: u8, pid: u16, reason: u8) -> Pkt {
        Pkt { v5, ty, pid: Some(pid), reason, ..Default::default() }
    }
    pub fn name(&self) -> &'static str {
        NAMES[self.ty as usize]
    }
}

/// Property table: id → (kind, packets that may carry it). Bit 0 of the mask is "will".
pub fn prop_info(id: u8) -> Option<(char, u32)> {
    let m = |l: &[u8]| l.iter().fold(0u32, |a, b| a | 1 << b);
    const W: u8 = 0;
    Some(match id {
        0x01 => ('b', m(&[PUBLISH, W])),
        0x02 => ('4', m(&[PUBLISH, W])),
        0x03 => ('s', m(&[PUBLISH, W])),
        0x08 => ('s', m(&[PUBLISH, W])),
        0x09 => ('d', m(&[PUBLISH, W])),
        0x0b => ('v', m(&[PUBLISH, SUBSCRIBE])),
        0x11 => ('4', m(&[CONNECT, CONNACK, DISCONNECT])),
        0x12 => ('s', m(&[CONNACK])),
        0x13 => ('2', m(&[CONNACK])),
        0x15 => ('s', m(&[CONNECT, CONNACK, AUTH])),
        0x16 => ('d', m(&[CONNECT, CONNACK, AUTH])),
        0x17 => ('b', m(&[CONNECT])),
        0x18 => ('4', m(&[W])),
        0x19 => ('b', m(&[CONNECT])),
        0x1a => ('s', m(&[CONNACK])),
        0x1c => ('s', m(&[CONNACK, DISCONNECT])),
        0x1f => ('s', m(&[CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH])),
        0x21 => ('2', m(&[CONNECT, CONNACK])),
        0x22 => ('2', m(&[CONNECT, CONNACK])),
        0x23 => ('2', m(&[PUBLISH])),
        0x24 => ('b', m(&[CONNACK])),
        0x25 => ('b', m(&[CONNACK])),
        0x26 => ('p', 0xffff & !(1 << PINGREQ) & !(1 << PINGRESP)),
        0x27 => ('4', m(&[CONNECT, CONNACK])),
        0x28 => ('b', m(&[CONNACK])),
        0x29 => ('b', m(&[CONNACK])),
        0x2a => ('b', m(&[CONNACK])),
        _ => return None,
    })
}

pub const PROP_IDS: [u8; 27] = [
    0x01, 0x02, 0x03, 0x08, 0x09, 0x0b, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1c, 0x1f, 0x21, 0x22,
    0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a,
];

// ---------------------------------------------------------------- encoding

pub fn enc_vbi(mut n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    loop {
        let b = (n & 127) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 128);
    }
}

fn put_bin(o: &mut Vec<u8>, b: &[u8]) {
    assert!(b.len() <= 65535);
    o.push((b.len() >> 8) as u8);
    o.push(b.len() as u8);
    o.extend_from_slice(b);
}

pub fn enc_prop(o: &mut Vec<u8>, p: &P) {
    o.push(p.id());
    match p {
        P::Byte(_, v) => o.push(*v),
        P::U16(_, v) => o.extend_from_slice(&[(v >> 8) as u8, *v as u8]),
        P::U32(_, v) => o.extend_from_slice(&[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, *v as u8]),
        P::Vbi(_, v) => o.extend(enc_vbi(*v as usize)),
        P::Str(_, s) => put_bin(o, s.as_bytes()),
        P::Bin(_, b) => put_bin(o, b),
        P::Pair(k, v) => {
            put_bin(o, k.as_bytes());
            put_bin(o, v.as_bytes());
        }
    }
}

pub fn enc_props(o: &mut Vec<u8>, ps: &[P]) {
    let mut b = Vec::new();
    for p in ps {
        enc_prop(&mut b, p);
    }
    o.extend(enc_vbi(b.len()));
    o.extend(b);
}

/// `form` selects among the equivalent encodings the standard allows (0 = shortest).
pub fn encode_form(p: &Pkt, form: u8) -> Vec<u8> {
    let mut b = Vec::new();
    let mut flags = 0u8;
    let id = |b: &mut Vec<u8>| {
        let v = p.pid.expect("packet id");
        b.push((v >> 8) as u8);
        b.push(v as u8);
    };
    match p.ty {
        CONNECT => {
            let c = p.conn.as_ref().expect("connect");
            put_bin(&mut b, c.name.as_bytes());
            b.push(c.level);
            let mut f = 0u8;
            if c.clean {
                f |= 2;
            }
            if let Some(w) = &c.will {
                f |= 4 | w.qos << 3;
                if w.retain {
                    f |= 0x20;
                }
            }
            if c.password.is_some() {
                f |= 0x40;
            }
            if c.username.is_some() {
                f |= 0x80;
            }
            b.push(f);
            b.push((c.keep_alive >> 8) as u8);
            b.push(c.keep_alive as u8);
            if p.v5 {
                enc_props(&mut b, &p.props);
            }
            put_bin(&mut b, c.client_id.as_bytes());
            if let Some(w) = &c.will {
                if p.v5 {
                    enc_props(&mut b, &w.props);
                }
                put_bin(&mut b, w.topic.as_bytes());
                put_bin(&mut b, &w.payload);
            }
            if let Some(u) = &c.username {
                put_bin(&mut b, u.as_bytes());
            }
            if let Some(u) = &c.password {
                put_bin(&mut b, u);
            }
        }
        CONNACK => {
            b.push(p.session_present as u8);
            b.push(p.reason);
            if p.v5 {
                enc_props(&mut b, &p.props);
            }
        }
        PUBLISH => {
            flags = (p.dup as u8) << 3 | p.qos << 1 | p.retain as u8;
            put_bin(&mut b, p.topic.as_bytes());
            if p.qos > 0 {
                id(&mut b);
            }
            if p.v5 {
                enc_props(&mut b, &p.props);
            }
            b.extend_from_slice(&p.payload);
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            if p.ty == PUBREL {
                flags = 2;
            }
            id(&mut b);
            if p.v5 {
                if p.reason != 0 || !p.props.is_empty() || form > 0 {
                    b.push(p.reason);
                    if !p.props.is_empty() || form > 1 {
                        enc_props(&mut b, &p.props);
                    }
                }
            }
        }
        SUBSCRIBE => {
            flags = 2;
            id(&mut b);
            if p.v5 {
                enc_props(&mut b, &p.props);
            }
            for (t, o) in &p.filters {
                put_bin(&mut b, t.as_bytes());
                b.push(*o);
            }
        }
        UNSUBSCRIBE => {
            flags = 2;
            id(&mut b);
            if p.v5 {
                enc_props(&mut b, &p.props);
            }
            for (t, _) in &p.filters {
                put_bin(&mut b, t.as_bytes());
            }
        }
        SUBACK | UNSUBACK => {
            id(&mut b);
            if p.v5 {
                enc_props(&mut b, &p.props);
            }
            if p.v5 || p.ty == SUBACK {
                b.extend_from_slice(&p.codes);
            }
        }
        PINGREQ | PINGRESP => {}
        DISCONNECT | AUTH => {
            if p.v5 && (p.reason != 0 || !p.props.is_empty() || form > 0) {
                b.push(p.reason);
                if !p.props.is_empty() || form > 1 || p.ty == AUTH {
                    enc_props(&mut b, &p.props);
                }
            }
        }
        _ => panic!("packet type {}", p.ty),
    }
    let mut o = vec![p.ty << 4 | flags];
    o.extend(enc_vbi(b.len()));
    o.extend(b);
    o
}

pub fn encode(p: &Pkt) -> Vec<u8> {
    encode_form(p, 0)
}

// ---------------------------------------------------------------- decoding

/// Why a frame is not conforming.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Mal {
    Incomplete,
    PacketType,
    FixedFlags,
    RemainingLength,
    NonMinimalVbi,
    Truncated, // a field or section runs past the end of the frame
    Trailing,  // bytes left over
    Utf8,
    Utf8Char, // NUL or BOM
    ZeroPid,
    Qos3,
    DupQos0,
    Wildcard, // in a topic name
    EmptyTopic,
    ProtoName,
    ProtoLevel,
    ConnectReserved,
    WillFlags,
    PasswordNoUser,
    ConnAckReserved,
    SessionPresentOnError,
    SubOptions,
    EmptyList,
    BadFilter,
    SubAckCode,
    UnknownProp,
    PropNotAllowed,
    DupProp,
    PropValue,
}

struct Rd<'a> {
    b: &'a [u8],
    i: usize,
}

type R<T> = Result<T, Mal>;

impl<'a> Rd<'a> {
    fn u8(&mut self) -> R<u8> {
        let v = *self.b.get(self.i).ok_or(Mal::Truncated)?;
        self.i += 1;
        Ok(v)
    }
    fn u16(&mut self) -> R<u16> {
        Ok((self.u8()? as u16) << 8 | self.u8()? as u16)
    }
    fn u32(&mut self) -> R<u32> {
        Ok((self.u16()? as u32) << 16 | self.u16()? as u32)
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.i < n {
            return Err(Mal::Truncated);
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    fn bin(&mut self) -> R<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn str(&mut self) -> R<String> {
        let s = String::from_utf8(self.bin()?).map_err(|_| Mal::Utf8)?;
        if s.contains('\0') {
            return Err(Mal::Utf8Char);
        }
        Ok(s)
    }
    fn vbi(&mut self) -> R<usize> {
        let mut v = 0usize;
        for k in 0..4 {
            let b = self.u8()?;
            v |= ((b & 127) as usize) << (7 * k);
            if b & 128 == 0 {
                if k > 0 && b == 0 {
                    return Err(Mal::NonMinimalVbi);
                }
                return Ok(v);
            }
        }
        Err(Mal::RemainingLength)
    }
    fn left(&self) -> usize {
        self.b.len() - self.i
    }
    fn props(&mut self, site: u8) -> R<Vec<P>> {
        let n = self.vbi()?;
        let mut r = Rd { b: self.take(n)?, i: 0 };
        let mut out: Vec<P> = Vec::new();
        while r.left() > 0 {
            let id = r.vbi()?;
            let (kind, mask) = u8::try_from(id).ok().and_then(prop_info).ok_or(Mal::UnknownProp)?;
            let id = id as u8;
            let p = match kind {
                'b' => P::Byte(id, r.u8()?),
                '2' => P::U16(id, r.u16()?),
                '4' => P::U32(id, r.u32()?),
                'v' => P::Vbi(id, r.vbi()? as u32),
                's' => P::Str(id, r.str()?),
                'd' => P::Bin(id, r.bin()?),
                _ => P::Pair(r.str()?, r.str()?),
            };
            if mask & (1 << site) == 0 {
                return Err(Mal::PropNotAllowed);
            }
            let multi = id == 0x26 || (id == 0x0b && site == PUBLISH);
            if !multi && out.iter().any(|q| q.id() == id) {
                return Err(Mal::DupProp);
            }
            let bad = match &p {
                P::Byte(_, v) => *v > 1,
                P::U16(0x21, v) | P::U16(0x23, v) => *v == 0,
                P::U32(0x27, v) => *v == 0,
                P::Vbi(_, v) => *v == 0,
                _ => false,
            };
            if bad {
                return Err(Mal::PropValue);
            }
            out.push(p);
        }
        Ok(out)
    }
}

pub fn bad_filter(f: &str) -> bool {
    if f.is_empty() {
        return true;
    }
    let ls: Vec<&str> = f.split('/').collect();
    for (i, l) in ls.iter().enumerate() {
        if l.contains('#') && (*l != "#" || i + 1 != ls.len()) {
            return true;
        }
        if l.contains('+') && *l != "+" {
            return true;
        }
    }
    if let Some(r) = f.strip_prefix("$share/") {
        match r.split_once('/') {
            None => return true,
            Some((n, t)) => {
                if n.is_empty() || t.is_empty() || n.contains(['+', '#']) {
                    return true;
                }
            }
        }
    }
    false
}

/// Length of the first frame: Ok(None) if more bytes are needed.
pub fn frame_len(b: &[u8]) -> R<Option<usize>> {
    if b.is_empty() {
        return Ok(None);
    }
    let mut r = Rd { b, i: 1 };
    match r.vbi() {
        Ok(n) => {
            let t = r.i + n;
            Ok(if b.len() >= t { Some(t) } else { None })
        }
        Err(Mal::Truncated) => Ok(None),
        Err(e) => Err(e),
    }
}

/// Total length announced by a complete fixed header, whether or not the body is there.
pub fn announced_len(b: &[u8]) -> Option<usize> {
    if b.is_empty() {
        return None;
    }
    let mut r = Rd { b, i: 1 };
    let n = r.vbi().ok()?;
    Some(r.i + n)
}

/// Canonical order of will properties (their order carries no meaning).
pub fn canon_will(ps: &mut [P]) {
    let rank = |p: &P| [0x18u8, 0x01, 0x02, 0x03, 0x08, 0x09, 0x26].iter().position(|x| *x == p.id()).unwrap_or(99);
    ps.sort_by_key(rank);
}

/// Strict decoder: the first frame of `b`.
pub fn decode(b: &[u8], v5: bool) -> R<(Pkt, usize)> {
    let n = frame_len(b)?.ok_or(Mal::Incomplete)?;
    let mut h = Rd { b: &b[..n], i: 1 };
    let _ = h.vbi();
    let mut r = Rd { b: &b[..n], i: h.i };
    let ty = b[0] >> 4;
    let fl = b[0] & 15;
    if ty == 0 || (!v5 && ty == AUTH) {
        return Err(Mal::PacketType);
    }
    let want = match ty {
        PUBREL | SUBSCRIBE | UNSUBSCRIBE => 2,
        _ => 0,
    };
    if ty != PUBLISH && fl != want {
        return Err(Mal::FixedFlags);
    }
    let mut p = Pkt::new(v5, ty);
    match ty {
        CONNECT => {
            let mut c = Conn { name: r.str()?, ..Default::default() };
            if c.name != "MQTT" {
                return Err(Mal::ProtoName);
            }
            c.level = r.u8()?;
            if c.level != if v5 { 5 } else { 4 } {
                return Err(Mal::ProtoLevel);
            }
            let f = r.u8()?;
            if f & 1 != 0 {
                return Err(Mal::ConnectReserved);
            }
            c.clean = f & 2 != 0;
            c.keep_alive = r.u16()?;
            if f & 4 == 0 && f & 0x38 != 0 {
                return Err(Mal::WillFlags);
            }
            if (f >> 3) & 3 == 3 {
                return Err(Mal::Qos3);
            }
            if !v5 && f & 0x40 != 0 && f & 0x80 == 0 {
                return Err(Mal::PasswordNoUser);
            }
            if v5 {
                p.props = r.props(CONNECT)?;
            }
            c.client_id = r.str()?;
            if f & 4 != 0 {
                let mut w = WillM { qos: (f >> 3) & 3, retain: f & 0x20 != 0, ..Default::default() };
                if v5 {
                    w.props = r.props(0)?;
                    canon_will(&mut w.props);
                }
                w.topic = r.str()?;
                w.payload = r.bin()?;
                c.will = Some(w);
            }
            if f & 0x80 != 0 {
                c.username = Some(r.str()?);
            }
            if f & 0x40 != 0 {
                c.password = Some(r.bin()?);
            }
            p.conn = Some(c);
        }
        CONNACK => {
            let f = r.u8()?;
            if f & 0xfe != 0 {
                return Err(Mal::ConnAckReserved);
            }
            p.session_present = f == 1;
            p.reason = r.u8()?;
            if p.session_present && p.reason != 0 {
                return Err(Mal::SessionPresentOnError);
            }
            if v5 {
                p.props = r.props(CONNACK)?;
            }
        }
        PUBLISH => {
            p.dup = fl & 8 != 0;
            p.qos = (fl >> 1) & 3;
            p.retain = fl & 1 != 0;
            if p.qos == 3 {
                return Err(Mal::Qos3);
            }
            if p.qos == 0 && p.dup {
                return Err(Mal::DupQos0);
            }
            p.topic = r.str()?;
            if p.topic.contains(['+', '#']) {
                return Err(Mal::Wildcard);
            }
            if p.qos > 0 {
                p.pid = Some(r.u16()?);
                if p.pid == Some(0) {
                    return Err(Mal::ZeroPid);
                }
            }
            if v5 {
                p.props = r.props(PUBLISH)?;
            }
            if p.topic.is_empty() && !p.props.iter().any(|x| x.id() == 0x23) {
                return Err(Mal::EmptyTopic);
            }
            p.payload = r.take(r.left())?.to_vec();
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            p.pid = Some(r.u16()?);
            if p.pid == Some(0) {
                return Err(Mal::ZeroPid);
            }
            if v5 && r.left() > 0 {
                p.reason = r.u8()?;
                if r.left() > 0 {
                    p.props = r.props(ty)?;
                }
            }
        }
        SUBSCRIBE | UNSUBSCRIBE => {
            p.pid = Some(r.u16()?);
            if p.pid == Some(0) {
                return Err(Mal::ZeroPid);
            }
            if v5 {
                p.props = r.props(ty)?;
            }
            while r.left() > 0 {
                let t = r.str()?;
                if bad_filter(&t) {
                    return Err(Mal::BadFilter);
                }
                let mut o = 0;
                if ty == SUBSCRIBE {
                    o = r.u8()?;
                    if v5 && o & 4 != 0 && t.starts_with("$share/") {
                        return Err(Mal::SubOptions);
                    }
                    if o & 3 == 3 || (v5 && (o & 0xc0 != 0 || (o >> 4) & 3 == 3)) || (!v5 && o & 0xfc != 0) {
                        return Err(Mal::SubOptions);
                    }
                }
                p.filters.push((t, o));
            }
            if p.filters.is_empty() {
                return Err(Mal::EmptyList);
            }
        }
        SUBACK | UNSUBACK => {
            p.pid = Some(r.u16()?);
            if p.pid == Some(0) {
                return Err(Mal::ZeroPid);
            }
            if v5 {
                p.props = r.props(ty)?;
            }
            if v5 || ty == SUBACK {
                p.codes = r.take(r.left())?.to_vec();
                if p.codes.is_empty() {
                    return Err(Mal::EmptyList);
                }
                if !v5 && p.codes.iter().any(|c| !matches!(c, 0 | 1 | 2 | 0x80)) {
                    return Err(Mal::SubAckCode);
                }
            }
        }
        PINGREQ | PINGRESP => {}
        _ => {
            if v5 && r.left() > 0 {
                p.reason = r.u8()?;
                if r.left() > 0 || ty == AUTH {
                    p.props = r.props(ty)?;
                }
            }
        }
    }
    if r.left() > 0 {
        return Err(Mal::Trailing);
    }
    Ok((p, n))
}

/// Splits a buffer into whole packets; the remainder is returned.
pub fn decode_all(b: &[u8], v5: bool) -> Result<(Vec<Pkt>, usize), (Mal, usize)> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match decode(&b[i..], v5) {
            Ok((p, n)) => {
                out.push(p);
                i += n;
            }
            Err(Mal::Incomplete) => break,
            Err(e) => return Err((e, i)),
        }
    }
    Ok((out, i))
}

// ---------------------------------------------------------------- generation

pub struct Gen {
    /// upper bound of generated string/binary lengths in ordinary draws
    pub small: usize,
    /// how often (1 in n) a draw is made large (up to 65535)
    pub big_every: usize,
}

impl Default for Gen {
    fn default() -> Self {
        Gen { small: 12, big_every: 60 }
    }
}

const CHARS: [&str; 14] =
    ["a", "Z", "0", " ", "$", "é", "ß", "中", "\u{7ff}", "\u{ffff}", "𝄞", "\u{10fffd}", "\u{1}", "~"];

impl Gen {
    pub fn len(&self, r: &mut Rng) -> usize {
        if r.chance(1, self.big_every) {
            *r.pick(&[126usize, 127, 128, 129, 255, 256, 257, 1000, 16382, 16383, 16384, 16385, 65534, 65535])
        } else {
            r.below(self.small + 1)
        }
    }
    pub fn text(&self, r: &mut Rng) -> String {
        let n = self.len(r);
        self.text_len(r, n)
    }
    pub fn text_len(&self, r: &mut Rng, n: usize) -> String {
        let mut s = String::new();
        let ascii = r.chance(1, 2) || n > 300 && r.chance(2, 3);
        while s.len() < n {
            let c = if ascii { *r.pick(&["a", "b", "c", "x", "Q", "7", "-", "_"]) } else { *r.pick(&CHARS) };
            if s.len() + c.len() <= n {
                s.push_str(c);
            } else {
                s.push('z');
            }
        }
        s
    }
    pub fn bin(&self, r: &mut Rng) -> Vec<u8> {
        let n = self.len(r);
        r.bytes(n)
    }
    pub fn topic(&self, r: &mut Rng) -> String {
        let n = r.range(1, 4);
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(self.text(r));
        }
        let mut t = v.join("/").replace(['+', '#'], "_");
        if t.is_empty() {
            t.push('t');
        }
        trunc(&mut t, 65535);
        t
    }
    pub fn filter(&self, r: &mut Rng) -> String {
        let n = r.range(1, 4);
        let mut v = Vec::new();
        for i in 0..n {
            v.push(match r.below(6) {
                0 => "+".to_string(),
                1 if i + 1 == n => "#".to_string(),
                _ => self.text(r).replace(['+', '#', '/'], "_"),
            });
        }
        let mut t = v.join("/");
        if t.is_empty() {
            t.push('t');
        }
        if r.chance(1, 8) {
            t = format!("$share/g{}/{}", r.below(9), t);
        }
        if t.len() > 65535 {
            t = "long".into();
        }
        if bad_filter(&t) {
            t = "ok/+/x".into();
        }
        t
    }
    pub fn pid(&self, r: &mut Rng) -> u16 {
        if r.chance(1, 3) {
            *r.pick(&[1u16, 2, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 65534, 65535])
        } else {
            (r.u16()).max(1)
        }
    }
    pub fn u32(&self, r: &mut Rng) -> u32 {
        if r.chance(1, 2) {
            *r.pick(&[0u32, 1, 127, 128, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX])
        } else {
            r.u32()
        }
    }
    pub fn prop(&self, r: &mut Rng, id: u8) -> P {
        match prop_info(id).unwrap().0 {
            'b' => P::Byte(id, r.below(2) as u8),
            '2' => {
                let v = *r.pick(&[0u16, 1, 2, 255, 256, 0x1234, 65535]);
                P::U16(id, if v == 0 && (id == 0x21 || id == 0x23) { 1 } else { v })
            }
            '4' => {
                let v = self.u32(r);
                P::U32(id, if v == 0 && id == 0x27 { 1 } else { v })
            }
            'v' => P::Vbi(
                id,
                *r.pick(&[1u32, 2, 127, 128, 129, 16383, 16384, 2097151, 2097152, 268435454, 268435455]),
            ),
            's' => P::Str(
                id,
                if id == 0x08 {
                    self.topic(r)
                } else {
                    self.text(r)
                },
            ),
            'd' => P::Bin(id, self.bin(r)),
            _ => P::Pair(self.text(r), self.text(r)),
        }
    }
    /// A legal property list for packet type `site` (0 = will).
    pub fn props(&self, r: &mut Rng, site: u8) -> Vec<P> {
        if r.chance(1, 3) {
            return vec![];
        }
        let mut ids: Vec<u8> =
            PROP_IDS.iter().copied().filter(|i| prop_info(*i).unwrap().1 & (1 << site) != 0).collect();
        r.shuffle(&mut ids);
        let k = if r.chance(1, 6) { ids.len() } else { r.below(4.min(ids.len()) + 1) };
        ids.truncate(k);
        for _ in 0..r.below(3) {
            if r.bool() {
                ids.push(0x26);
            } else if site == PUBLISH {
                ids.push(0x0b);
            }
        }
        r.shuffle(&mut ids);
        ids.iter().map(|i| self.prop(r, *i)).collect()
    }
    pub fn reason(&self, r: &mut Rng, ty: u8) -> u8 {
        let l: &[u8] = match ty {
            CONNACK => &[0, 0, 0x80, 0x81, 0x82, 0x85, 0x87, 0x95, 0x9f],
            PUBACK | PUBREC => &[0, 0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
            PUBREL | PUBCOMP => &[0, 0, 0x92],
            DISCONNECT => &[0, 0, 4, 0x80, 0x81, 0x8b, 0x8d, 0x8e, 0x98, 0xa2],
            AUTH => &[0, 0x18, 0x19],
            _ => &[0],
        };
        *r.pick(l)
    }
    pub fn packet(&self, r: &mut Rng, v5: bool, ty: u8) -> Pkt {
        let mut p = Pkt::new(v5, ty);
        match ty {
            CONNECT => {
                let mut c = Conn {
                    name: "MQTT".into(),
                    level: if v5 { 5 } else { 4 },
                    clean: r.bool(),
                    keep_alive: *r.pick(&[0u16, 1, 60, 255, 256, 65535]),
                    client_id: self.text(r),
                    ..Default::default()
                };
                if r.bool() {
                    let mut w = WillM {
                        qos: r.below(3) as u8,
                        retain: r.bool(),
                        topic: self.topic(r),
                        payload: self.bin(r),
                        props: vec![],
                    };
                    if v5 {
                        w.props = self.props(r, 0);
                        canon_will(&mut w.props);
                    }
                    c.will = Some(w);
                }
                if r.bool() {
                    c.username = Some(self.text(r));
                }
                if r.bool() && (v5 || c.username.is_some()) {
                    c.password = Some(self.bin(r));
                }
                if v5 {
                    p.props = self.props(r, ty);
                }
                p.conn = Some(c);
            }
            CONNACK => {
                if v5 {
                    p.reason = self.reason(r, ty);
                    p.props = self.props(r, ty);
                } else {
                    p.reason = *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5]);
                }
                p.session_present = p.reason == 0 && r.bool();
            }
            PUBLISH => {
                p.qos = r.below(3) as u8;
                p.dup = p.qos > 0 && r.bool();
                p.retain = r.bool();
                p.topic = self.topic(r);
                p.payload = if r.chance(1, 200) {
                    let n = *r.pick(&[65536usize, 100_000, 2_097_140, 2_097_152]);
                    r.bytes(n)
                } else {
                    self.bin(r)
                };
                if p.qos > 0 {
                    p.pid = Some(self.pid(r));
                }
                if v5 {
                    p.props = self.props(r, ty);
                    if p.props.iter().any(|x| x.id() == 0x23) && r.chance(1, 3) {
                        p.topic = String::new();
                    }
                }
            }
            PUBACK | PUBREC | PUBREL | PUBCOMP => {
                p.pid = Some(self.pid(r));
                if v5 {
                    p.reason = self.reason(r, ty);
                    p.props = self.props(r, ty);
                }
            }
            SUBSCRIBE | UNSUBSCRIBE => {
                p.pid = Some(self.pid(r));
                if v5 {
                    p.props = self.props(r, ty);
                }
                for _ in 0..r.range(1, 4) {
                    let o = if ty == UNSUBSCRIBE {
                        0
                    } else if v5 {
                        r.below(3) as u8 | (r.below(4) as u8) << 2 | (r.below(3) as u8) << 4
                    } else {
                        r.below(3) as u8
                    };
                    let f = self.filter(r);
                    let o = if f.starts_with("$share/") { o & !4 } else { o };
                    p.filters.push((f, o));
                }
            }
            SUBACK | UNSUBACK => {
                p.pid = Some(self.pid(r));
                if v5 {
                    p.props = self.props(r, ty);
                }
                if v5 || ty == SUBACK {
                    for _ in 0..r.range(1, 5) {
                        p.codes.push(if ty == UNSUBACK {
                            *r.pick(&[0, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91])
                        } else if v5 {
                            *r.pick(&[0, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2])
                        } else {
                            *r.pick(&[0, 1, 2, 0x80])
                        });
                    }
                }
            }
            DISCONNECT | AUTH => {
                if v5 {
                    p.reason = self.reason(r, ty);
                    p.props = self.props(r, ty);
                }
            }
            _ => {}
        }
        p
    }
    pub fn any(&self, r: &mut Rng, v5: bool) -> Pkt {
        let ty = r.range(1, if v5 { 15 } else { 14 }) as u8;
        self.packet(r, v5, ty)
    }
}

fn trunc(s: &mut String, n: usize) {
    if s.len() > n {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
    }
}
