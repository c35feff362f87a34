//! C01–C07: wire format monitors.
use crate::*;
use flowsdk::mqtt_serde::control_packet::MqttPacket as M;
use flowsdk::mqtt_serde::parser::leveled::{self, LeveledParseOk, ParseLevel, ParsedPacket, VariableHeader};
use flowsdk::mqtt_serde::parser::stream::{MqttParser, MqttStream};
use flowsdk::mqtt_serde::parser::ParseOk;
use kit::*;
use refmqtt::*;

/// The version numbers of the interface: 3 and 4 both stand for MQTT 3.1.1, and are taken in turn.
pub fn vnum(v5: bool) -> u8 {
    thread_local!(static TURN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    if v5 {
        5
    } else {
        TURN.with(|t| {
            t.set(!t.get());
            3 + t.get() as u8
        })
    }
}

pub fn dec(b: &[u8], v5: bool) -> Result<ParseOk, String> {
    M::from_bytes_with_version(b, vnum(v5)).map_err(|e| e.to_string())
}

/// A generator with varying appetite for large fields.
pub fn some_gen(r: &mut Rng) -> Gen {
    match r.below(8) {
        0 => Gen { small: 3, big_every: 1_000_000 },
        1 => Gen { small: 40, big_every: 4 },
        2 => Gen { small: 200, big_every: 30 },
        _ => Gen::default(),
    }
}

pub fn some_packet(r: &mut Rng, i: u64) -> Pkt {
    let g = some_gen(r);
    let v5 = r.bool();
    let n = if v5 { 15 } else { 14 };
    let ty = (i % n) as u8 + 1;
    let mut p = g.packet(r, v5, ty);
    if r.chance(1, 25) {
        crowd(r, &mut p);
    }
    // put some PUBLISH frames exactly on the remaining-length boundaries
    if ty == PUBLISH && r.chance(1, 6) {
        let want = *r.pick(&[127usize, 128, 16383, 16384, 16385]);
        let have = encode(&Pkt { payload: vec![], ..p.clone() });
        let body = have.len() - announced_hdr(&have);
        if body <= want {
            p.payload = r.bytes(want - body);
        }
    }
    p
}

/// Long lists: properties, filters, codes.
fn crowd(r: &mut Rng, p: &mut Pkt) {
    let g = Gen { small: 3, big_every: 1_000_000 };
    let n = *r.pick(&[17usize, 33, 65, 129, 257, 400]);
    let mut list = |r: &mut Rng, ps: &mut Vec<P>| (0..n).for_each(|_| ps.push(g.prop(r, 0x26)));
    let will = r.bool();
    match p.ty {
        SUBSCRIBE | UNSUBSCRIBE if !p.v5 || r.bool() => {
            for _ in 0..n {
                let (_, o) = *r.pick(&p.filters.iter().map(|f| (0, f.1 & 0x3b)).collect::<Vec<_>>());
                p.filters.push((g.filter(r), o));
            }
        }
        SUBACK | UNSUBACK if !p.codes.is_empty() && (!p.v5 || r.bool()) => {
            for _ in 0..n {
                let c = *r.pick(&p.codes);
                p.codes.push(c);
            }
        }
        CONNECT if p.v5 && will && p.conn.as_ref().unwrap().will.is_some() => list(r, &mut p.conn.as_mut().unwrap().will.as_mut().unwrap().props),
        CONNECT | CONNACK | PUBLISH..=SUBACK | UNSUBSCRIBE | UNSUBACK | DISCONNECT | AUTH if p.v5 => {
            list(r, &mut p.props);
            if p.ty == PUBLISH {
                (0..n).for_each(|_| p.props.push(g.prop(r, 0x0b)));
            }
        }
        _ => {}
    }
}

fn announced_hdr(b: &[u8]) -> usize {
    let mut i = 1;
    while b[i] & 128 != 0 {
        i += 1;
    }
    i + 1
}

fn suffix(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => vec![],
        1 => {
            let n = r.range(1, 30);
            r.bytes(n)
        }
        2 => vec![0xff; r.range(1, 9)],
        _ => {
            let v5 = r.bool();
            encode(&Gen::default().any(r, v5))
        }
    }
}

pub fn c01() {
    let mut run = Run::new("C01", "a packet with fields beyond the fixed header, identified by its encoded bytes");
    run.need("roundtrips", 20_000);
    run.need("packet_kinds", 1);
    run.assume("strings with U+0000 or a leading U+FEFF, and MQTT 5 shared subscriptions with No Local, are not well-formed packets");
    let n = run.scale(160_000, 3_000_000);
    let budget = run.scale(25, 500) as f64;
    run.cases("roundtrip", n, budget, |i, r, o| {
        let p = some_packet(r, i);
        let m = conv::from_model(&p);
        let b = match m.to_bytes() {
            Ok(b) => b,
            Err(e) => return fail("encode-refused", format!("{e} for {p:?}")),
        };
        o.count("roundtrips");
        if i < 29 {
            o.count("packet_kinds");
        }
        if b.len() <= 2 {
            o.trivial()
        } else {
            o.case(hash64(&b))
        }
        if i < 3 {
            o.sample = Some(format!("{} {}", p.name(), hex(&b)));
        }
        let sfx = suffix(r);
        let mut w = b.clone();
        w.extend(&sfx);
        match dec(&w, p.v5) {
            Ok(ParseOk::Packet(q, n)) => {
                ensure!(n == b.len(), "consumed", "consumed {n} of {} bytes: {}", b.len(), hex(&w));
                ensure!(q == m, "roundtrip-differs", "{} decoded as {q:?} instead of {m:?}", hex(&b));
            }
            x => return fail("roundtrip-rejected", format!("{x:?} for {} = {m:?}", hex(&w))),
        }
        // the other encoder entry point
        let mut buf = sfx.clone();
        match enc_into(&m, &mut buf) {
            Some(Ok(())) => ensure!(buf[..sfx.len()] == sfx[..] && buf[sfx.len()..] == b[..], "encode-to-buffer", "encode_to_buffer of {m:?} gave {} not {}", hex(&buf), hex(&b)),
            Some(Err(e)) => return fail("encode-to-buffer", format!("encode_to_buffer of {m:?}: {e}")),
            None => {}
        }
        // and the per-packet decoder
        if let Some(x) = dec_direct(&m, &b) {
            match x {
                Ok(ParseOk::Packet(q, n)) => ensure!(n == b.len() && q == m, "direct-decode", "{} decoded as {q:?} ({n}) instead of {m:?}", hex(&b)),
                y => return fail("direct-decode", format!("{y:?} for {}", hex(&b))),
            }
        }
        let mut ps = MqttParser::new(16, vnum(p.v5));
        ps.feed(&w);
        match ps.next_packet() {
            Ok(Some(q)) => ensure!(q == m && ps.buffer_mut()[..] == sfx[..], "parser", "stream parser gave {q:?}, leaving {}", hex(&ps.buffer_mut()[..])),
            x => return fail("parser", format!("stream parser: {x:?} for {}", hex(&w))),
        }
        Ok(())
    });
    run.finish()
}

macro_rules! each {
    ($m:expr, $p:ident => $e:expr) => {
        match $m {
            M::Connect5($p) => $e,
            M::ConnAck5($p) => $e,
            M::Publish5($p) => $e,
            M::PubAck5($p) => $e,
            M::PubRec5($p) => $e,
            M::PubRel5($p) => $e,
            M::PubComp5($p) => $e,
            M::Subscribe5($p) => $e,
            M::SubAck5($p) => $e,
            M::Unsubscribe5($p) => $e,
            M::UnsubAck5($p) => $e,
            M::PingReq5($p) => $e,
            M::PingResp5($p) => $e,
            M::Disconnect5($p) => $e,
            M::Auth($p) => $e,
            M::Connect3($p) => $e,
            M::ConnAck3($p) => $e,
            M::Publish3($p) => $e,
            M::PubAck3($p) => $e,
            M::PubRec3($p) => $e,
            M::PubRel3($p) => $e,
            M::PubComp3($p) => $e,
            M::Subscribe3($p) => $e,
            M::SubAck3($p) => $e,
            M::Unsubscribe3($p) => $e,
            M::UnsubAck3($p) => $e,
            M::PingReq3($p) => $e,
            M::PingResp3($p) => $e,
            M::Disconnect3($p) => $e,
        }
    };
}

fn enc_into(m: &M, buf: &mut Vec<u8>) -> Option<Result<(), String>> {
    use flowsdk::mqtt_serde::control_packet::MqttControlPacket as C;
    Some(each!(m, p => C::encode_to_buffer(p, buf).map_err(|e| e.to_string())))
}

fn dec_direct(m: &M, b: &[u8]) -> Option<Result<ParseOk, String>> {
    use flowsdk::mqtt_serde::control_packet::MqttControlPacket as C;
    fn go<T: C>(_: &T, b: &[u8]) -> Result<ParseOk, String> {
        T::from_bytes(b).map_err(|e| e.to_string())
    }
    Some(each!(m, p => go(p, b)))
}

pub fn c02() {
    let mut run = Run::new("C02", "a packet with fields beyond the fixed header, identified by its encoded bytes");
    run.need("encoded", 10_000);
    run.need("decoded", 10_000);
    run.assume("the independent codec in /verif/refmqtt reads the standards correctly");
    run.assume("an AUTH packet is only exchanged with an explicit reason code (the library's tests pin that form)");
    let n = run.scale(160_000, 3_000_000);
    let budget = run.scale(25, 500) as f64;
    run.cases("wire", n, budget, |i, r, o| {
        let p = some_packet(r, i);
        let m = conv::from_model(&p);
        // what the library writes
        let b = match m.to_bytes() {
            Ok(b) => b,
            Err(e) => return fail("encode-refused", format!("{e} for {p:?}")),
        };
        o.count("encoded");
        match refmqtt::decode(&b, p.v5) {
            Ok((q, n)) => {
                ensure!(q == p, format!("wire-encode:{}", p.name()), "{m:?} is written as {} which reads as {q:?}", hex(&b));
                ensure!(n == b.len(), "wire-length", "{} bytes for a frame of {n}: {}", b.len(), hex(&b));
            }
            Err(e) => return fail(format!("wire-encode:{}", p.name()), format!("{m:?} is written as {} which is malformed ({e:?})", hex(&b))),
        }
        // what the library reads
        let form = r.below(3) as u8;
        let form = if p.ty == AUTH { form.max(1) } else { form };
        let w = refmqtt::encode_form(&p, form);
        o.count("decoded");
        match dec(&w, p.v5) {
            Ok(ParseOk::Packet(q, n)) => {
                ensure!(n == w.len(), "wire-consumed", "consumed {n} of {}", hex(&w));
                let q = conv::to_model(&q);
                ensure!(q == p, format!("wire-decode:{}", p.name()), "{} is read as {q:?} instead of {p:?}", hex(&w));
            }
            x => return fail(format!("wire-decode:{}", p.name()), format!("{} = {p:?} is read as {x:?}", hex(&w))),
        }
        if p.ty == CONNECT {
            let mut ps = MqttParser::new(64, 0);
            // the version is known as soon as its byte is there, and not before
            let (_, nl) = flowsdk::mqtt_serde::parser::parse_vbi(&w[1..]).unwrap();
            let at = 1 + nl + 2 + u16::from_be_bytes([w[1 + nl], w[2 + nl]]) as usize;
            let cut = if r.bool() { at - r.below(at + 1) } else { at + r.below(2) };
            ps.feed(&w[..cut]);
            match catch(|| ps.set_mqtt_vsn(0)) {
                Ok(Ok(v)) => ensure!(cut > at && v == if p.v5 { 5 } else { 4 }, "version-detect", "version {v} detected from the first {cut} bytes of {}", hex(&w)),
                Ok(Err(e)) => ensure!(cut <= at, "version-detect", "{e} from the first {cut} bytes of {}", hex(&w)),
                Err((loc, msg)) => return fail("version-detect", format!("set_mqtt_vsn panicked at {loc} ({msg}) on the first {cut} bytes of {}", hex(&w))),
            }
            ps.feed(&w[cut..]);
            match ps.set_mqtt_vsn(0) {
                Ok(v) => ensure!(v == if p.v5 { 5 } else { 4 }, "version-detect", "version {v} detected for {}", hex(&w)),
                Err(e) => return fail("version-detect", format!("{e} for {}", hex(&w))),
            }
            match ps.next_packet() {
                Ok(Some(q)) => ensure!(conv::to_model(&q) == p, "version-detect", "after the version was detected {} is read as {q:?}", hex(&w)),
                x => return fail("version-detect", format!("after the version was detected {} is read as {x:?}", hex(&w))),
            }
            o.count("versions_detected");
        }
        if w.len() <= 2 {
            o.trivial()
        } else {
            o.case(hash64(&w))
        }
        if i < 3 {
            o.sample = Some(format!("{} {}", p.name(), hex(&w)));
        }
        Ok(())
    });
    run.finish()
}

/// Hostile bytes: random, or a valid frame damaged in one of many ways.
pub fn hostile(r: &mut Rng, v5: bool) -> Vec<u8> {
    let g = if r.chance(1, 10) { some_gen(r) } else { Gen { small: 6, big_every: 1_000_000 } };
    if r.chance(1, 10) {
        let n = r.below(40);
        let mut b = r.bytes(n);
        if n > 1 && r.bool() {
            b[1] = (n - 2) as u8 & 127;
        }
        return b;
    }
    let p = g.any(r, v5);
    let form = r.below(3) as u8;
    let mut b = encode_form(&p, form);
    let big = b.len() > 20_000;
    for _ in 0..r.range(1, 4) {
        let n = b.len();
        if n == 0 {
            break;
        }
        match r.below(if big { 4 } else { 11 }) {
            0 => {
                let k = r.below(n);
                b[k] ^= 1 << r.below(8);
            }
            1 => {
                let k = r.below(n);
                b[k] = *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 0xfe, 0x26, 0x0b, 0x1f]);
            }
            2 => b[0] = r.u8(),
            3 => b.truncate(r.below(n + 1)),
            4 => {
                let k = r.below(n + 1);
                b.insert(k, r.u8());
            }
            5 => {
                let k = r.below(n);
                b.remove(k);
            }
            6 => {
                // retarget the remaining length to the real length (so inner damage is reached)
                let h = hdr_len(&b).unwrap_or(1).min(b.len());
                let body = b.split_off(h);
                b.truncate(1);
                b.extend(enc_vbi(body.len()));
                b.extend(body);
            }
            7 => {
                let x = encode(&g.any(r, v5));
                b.extend(x);
            }
            8 => {
                // tamper with the remaining length
                let h = hdr_len(&b).unwrap_or(1).min(b.len());
                let body = b.split_off(h);
                b.truncate(1);
                let d = *r.pick(&[0usize, 1, 2, 5, 100, 1 << 14, 1 << 21, 268_435_455]);
                let v = if r.bool() { body.len() + d } else { body.len().saturating_sub(d) };
                b.extend(enc_vbi(v.min(268_435_455)));
                b.extend(body);
            }
            9 => {
                // two-byte length field somewhere
                let k = r.below(n);
                let v = *r.pick(&[0u16, 1, 0xff, 0x100, 0x7fff, 0xffff]);
                b[k] = (v >> 8) as u8;
                if k + 1 < n {
                    b[k + 1] = v as u8;
                }
            }
            _ => {
                let (i, j) = (r.below(n), r.below(n));
                b.swap(i, j);
            }
        }
    }
    b
}

fn hdr_len(b: &[u8]) -> Option<usize> {
    for i in 1..5 {
        if *b.get(i)? & 128 == 0 {
            return Some(i + 1);
        }
    }
    None
}

/// Length of the first frame as the fixed header announces it (non-minimal lengths included).
fn raw_frame(b: &[u8]) -> Option<usize> {
    let h = hdr_len(b)?;
    let mut v = 0usize;
    for (k, x) in b[1..h].iter().enumerate() {
        v |= ((x & 127) as usize) << (7 * k);
    }
    Some(h + v)
}

#[derive(PartialEq, Debug, Clone)]
enum Out {
    Pkt(Box<M>, usize),
    More,
    Bad,
}

fn out(x: Result<ParseOk, String>) -> Out {
    match x {
        Ok(ParseOk::Packet(m, n)) => Out::Pkt(Box::new(m), n),
        Ok(_) => Out::More,
        Err(_) => Out::Bad,
    }
}

/// The building blocks of the decoders, each on its own, against direct readings of the format.
fn helpers(r: &mut Rng, o: &mut Obs) -> Verdict {
    use flowsdk::mqtt_serde::base_data::*;
    use flowsdk::mqtt_serde::parser;
    let n = r.below(9);
    let mut b = r.bytes(n);
    match r.below(4) {
        0 if n > 1 => (b[0], b[1]) = (0, r.below(7) as u8),
        1 => b.iter_mut().for_each(|x| *x = *r.clone().pick(&[0u8, 1, 0x7f, 0x80, 0xff])),
        2 => b.iter_mut().for_each(|x| *x |= 0x80),
        _ => {}
    }
    o.count("helper_inputs");
    let h = hex(&b);
    let be2 = (n >= 2).then(|| (u16::from_be_bytes([b[0], b[1]]), 2));
    let be4 = (n >= 4).then(|| (u32::from_be_bytes([b[0], b[1], b[2], b[3]]), 4));
    let bin = be2.filter(|l| n >= 2 + l.0 as usize).map(|l| (b[2..2 + l.0 as usize].to_vec(), 2 + l.0 as usize));
    let text = bin.clone().and_then(|(x, k)| String::from_utf8(x).ok().map(|s| (s, k)));
    let vbi = {
        let mut v = 0usize;
        let k = b.iter().take(4).position(|x| x & 0x80 == 0);
        k.filter(|k| *k == 0 || b[*k] != 0).map(|k| {
            for (i, x) in b[..=k].iter().enumerate() {
                v |= ((x & 0x7f) as usize) << (7 * i);
            }
            (v, k + 1)
        })
    };
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {
            match catch(|| $got) {
                Ok(g) => {
                    let g = g.ok();
                    ensure!(g == $want, concat!("helper:", $what), "{} of {h} gives {g:?}, expected {:?}", $what, $want)
                }
                Err((loc, msg)) => return fail(concat!("panic:", $what), format!("{} panicked at {loc} ({msg}) on {h}", $what)),
            }
        };
    }
    same!("TwoByteInteger", TwoByteInteger::decode(&b), be2);
    same!("parse_packet_id", parser::parse_packet_id(&b), be2);
    same!("FourByteInteger", FourByteInteger::decode(&b), be4);
    same!("VariableByteInteger", VariableByteInteger::decode(&b), vbi);
    same!("parse_vbi", parser::parse_vbi(&b), vbi);
    same!("parse_remaining_length", parser::parse_remaining_length(&b), vbi);
    same!("BinaryData", BinaryData::decode(&b), bin);
    same!("parse_binary_data", parser::parse_binary_data(&b), bin);
    same!("Utf8String", Utf8String::decode(&b), text);
    let strict = text.clone().filter(|t| !t.0.contains('\0'));
    same!("parse_utf8_string", parser::parse_utf8_string(&b), strict);
    same!("read_string", parser::read_string(&b), strict);
    let pair = text.clone().and_then(|(k, at)| {
        let c = &b[at..];
        let l = (c.len() >= 2).then(|| u16::from_be_bytes([c[0], c[1]]) as usize)?;
        (c.len() >= 2 + l).then(|| String::from_utf8(c[2..2 + l].to_vec()).ok()).flatten().map(|v| ((k, v), at + 2 + l))
    });
    same!("Utf8StringPair", Utf8StringPair::decode(&b), pair);
    same!("read_u8", parser::read_u8(&b), b.first().copied());
    same!("packet_type", parser::packet_type(&b), b.first().map(|x| x >> 4));
    // and back
    let v = r.u32() >> r.below(32);
    ensure!(FourByteInteger::encode(v) == v.to_be_bytes(), "helper:encode", "FourByteInteger {v}");
    ensure!(TwoByteInteger::encode(v as u16) == (v as u16).to_be_bytes(), "helper:encode", "TwoByteInteger {v}");
    let w = v & 0x0fff_ffff;
    let e = VariableByteInteger::encode(w);
    ensure!(e == enc_vbi(w as usize), "helper:encode", "VariableByteInteger {w} gives {}", hex(&e));
    o.case(hash64(&b));
    Ok(())
}

pub fn c03() {
    let mut run = Run::new("C03", "a byte string that reaches a packet decoder (complete fixed header), identified by its bytes");
    run.need("inputs", 100_000);
    run.need("accepted", 1_000);
    run.need("rejected", 10_000);
    run.need("incomplete", 1_000);
    run.need("alloc_checked", 1_000);
    run.assume("memory in proportion means: peak allocation while decoding at most 256 bytes per input byte plus 64 KiB");
    let n = run.scale(1_500_000, 40_000_000);
    let budget = run.scale(30, 600) as f64;
    run.need("helper_inputs", 50_000);
    run.cases("helpers", run.scale(60_000, 1_000_000), budget / 6.0, |_, r, o| helpers(r, o));
    run.cases("hostile", n, budget, |i, r, o| {
        let v5 = r.bool();
        let b = hostile(r, v5);
        o.count("inputs");
        if raw_frame(&b).is_some() {
            o.case(hash64(&b))
        } else {
            o.trivial()
        }
        if i < 3 {
            o.sample = Some(hex(&b));
        }
        let ver = vnum(v5);
        let guard = |what: &str, f: &mut dyn FnMut() -> Verdict| -> Verdict {
            match catch(f) {
                Ok(v) => v,
                Err((loc, msg)) if panic_in_harness(&loc) => panic!("{what}: {loc}: {msg}"),
                Err((loc, msg)) => fail(format!("panic:{what}"), format!("{what} panicked at {loc} ({msg}) on {}", hex(&b))),
            }
        };
        let mut first = Out::Bad;
        guard("from_bytes", &mut || {
            let (x, peak) = alloc::peak_during(|| out(dec(&b, v5)));
            o.count("alloc_checked");
            ensure!(peak <= 256 * b.len() + 65536, "alloc", "decoding {} bytes allocated {peak}: {}", b.len(), hex(&b));
            first = x;
            Ok(())
        })?;
        let frame = raw_frame(&b);
        let complete = frame.is_some_and(|n| n <= b.len());
        match &first {
            Out::Pkt(m, n) => {
                o.count("accepted");
                ensure!(complete && frame == Some(*n), "consumed", "consumed {n}, the frame is {frame:?}: {}", hex(&b));
                guard("to_bytes", &mut || {
                    let _ = m.to_bytes();
                    Ok(())
                })?;
            }
            Out::More => {
                o.count("incomplete");
                ensure!(!complete, "waits-for-more", "a complete frame of {frame:?} bytes is reported as incomplete: {}", hex(&b));
            }
            Out::Bad => o.count("rejected"),
        }
        if complete {
            let n = frame.unwrap();
            let mut w = b[..n].to_vec();
            guard("from_bytes", &mut || {
                let x = out(dec(&w, v5));
                ensure!(x == first, "depends-on-suffix", "frame {} gives {x:?} alone but {first:?} when followed by {}", hex(&w), hex(&b[n..]));
                Ok(())
            })?;
            w.extend(suffix(r));
            guard("from_bytes", &mut || {
                let x = out(dec(&w, v5));
                ensure!(x == first, "depends-on-suffix", "frame {} gives {x:?} in {} but {first:?} in {}", hex(&b[..n]), hex(&w), hex(&b));
                Ok(())
            })?;
        }
        guard("parser", &mut || {
            let mut p = MqttParser::new(8, ver);
            p.feed(&b);
            let mut left = b.len();
            for k in 0..=b.len() {
                match p.next_packet() {
                    Ok(Some(_)) => {
                        let now = p.buffer_mut().len();
                        ensure!(now < left, "no-progress", "next_packet consumed nothing on {}", hex(&b));
                        left = now;
                    }
                    _ => break,
                }
                ensure!(k < b.len(), "no-progress", "too many packets out of {}", hex(&b));
            }
            Ok(())
        })?;
        guard("set_mqtt_vsn", &mut || {
            let mut p = MqttParser::new(8, 0);
            p.feed(&b);
            let _ = p.set_mqtt_vsn(0);
            Ok(())
        })?;
        guard("packet_frame_len", &mut || {
            match leveled::packet_frame_len(&b) {
                Ok(Some(n)) => ensure!(frame == Some(n) && n <= b.len(), "frame-len", "packet_frame_len {n} for {}", hex(&b)),
                Ok(None) => ensure!(!complete, "frame-len", "packet_frame_len None for {}", hex(&b)),
                Err(_) => {}
            }
            Ok(())
        })?;
        let lv = |what: &str, x: Result<LeveledParseOk, flowsdk::mqtt_serde::parser::ParseError>| -> Verdict {
            match x {
                Ok(LeveledParseOk::Packet(_, n)) => ensure!(complete && frame == Some(n), "leveled-consumed", "{what} consumed {n}, frame {frame:?}: {}", hex(&b)),
                Ok(LeveledParseOk::Continue(..)) => ensure!(!complete, "leveled-waits", "{what} waits for more on {}", hex(&b)),
                Err(_) => {}
            }
            Ok(())
        };
        guard("parse_type_only", &mut || lv("parse_type_only", leveled::parse_type_only(&b)))?;
        let by = bytes::Bytes::copy_from_slice(&b);
        guard("parse_raw_body", &mut || lv("parse_raw_body", leveled::parse_raw_body(by.clone())))?;
        guard("parse_headers_only", &mut || {
            let (x, peak) = alloc::peak_during(|| leveled::parse_headers_only(by.clone(), ver));
            ensure!(peak <= 256 * b.len() + 65536, "alloc", "parse_headers_only of {} bytes allocated {peak}: {}", b.len(), hex(&b));
            lv("parse_headers_only", x)
        })?;
        for l in [ParseLevel::HeadersParsed, ParseLevel::RawBody, ParseLevel::TypeOnly] {
            guard("next_parsed", &mut || {
                let mut p = MqttParser::with_level(8, ver, l);
                p.feed(&b);
                for _ in 0..=b.len() {
                    let before = p.buffer_mut().len();
                    match p.next_parsed() {
                        Ok(Some(_)) => ensure!(p.buffer_mut().len() < before, "no-progress", "next_parsed consumed nothing on {}", hex(&b)),
                        _ => break,
                    }
                }
                Ok(())
            })?;
        }
        Ok(())
    });
    run.finish()
}

struct Chunked {
    chunks: std::collections::VecDeque<Vec<u8>>,
    stall: bool,
    stalls: u64,
}

impl std::io::Read for Chunked {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.stall = !self.stall;
        if self.stall {
            self.stalls += 1;
            return Err(std::io::Error::from(std::io::ErrorKind::WouldBlock));
        }
        let Some(mut c) = self.chunks.pop_front() else { return Ok(0) };
        let n = c.len().min(out.len());
        out[..n].copy_from_slice(&c[..n]);
        if n < c.len() {
            self.chunks.push_front(c.split_off(n));
        }
        Ok(n)
    }
}

fn cut(r: &mut Rng, b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut i = 0;
    let style = r.below(5);
    while i < b.len() {
        let n = match style {
            0 => 1,
            1 => r.range(1, 3),
            2 => r.range(1, 40),
            3 => {
                if r.chance(1, 4) {
                    r.range(1, 3000)
                } else {
                    1
                }
            }
            _ => r.range(1, b.len()),
        }
        .min(b.len() - i);
        v.push(b[i..i + n].to_vec());
        i += n;
    }
    v
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum End {
    Clean,
    Partial(usize),
    Error(usize), // bytes consumed before the failing frame
}

pub fn c04() {
    let mut run = Run::new("C04", "a byte stream of at least one whole packet cut into at least two chunks, identified by stream and cuts");
    run.need("streams", 5_000);
    run.need("packets", 20_000);
    run.need("fixed_header_splits", 2_000);
    run.need("ended_in_error", 500);
    run.need("ended_partial", 500);
    let n = run.scale(60_000, 1_500_000);
    let budget = run.scale(25, 500) as f64;
    run.cases("chunks", n, budget, |i, r, o| {
        let v5 = r.bool();
        let g = if r.chance(1, 8) { some_gen(r) } else { Gen { small: 5, big_every: 400 } };
        let mut b: Vec<u8> = Vec::new();
        let mut want: Vec<(Pkt, usize)> = Vec::new();
        for _ in 0..r.range(1, 8) {
            let mut p = g.any(r, v5);
            if p.ty == PUBLISH && r.chance(1, 3) {
                let n = *r.pick(&[118usize, 122, 127, 128, 300, 16370, 16384]);
                p.payload = r.bytes(n);
            }
            let form = if p.ty == AUTH { 1 } else { r.below(3) as u8 };
            b.extend(encode_form(&p, form));
            want.push((p, b.len()));
            if b.len() > 60_000 {
                break;
            }
        }
        let good = b.len();
        // the end of the stream
        let mut end = End::Clean;
        match r.below(4) {
            0 => {
                let x = encode(&g.any(r, v5));
                let k = r.range(1, x.len().min(500)).min(x.len() - 1).max(1);
                if k < x.len() {
                    b.extend(&x[..k]);
                    end = End::Partial(good);
                }
            }
            1 => {
                let bad: &[&[u8]] = &[&[0x00, 0x00], &[0x36, 0x03, 0, 1, b'a'], &[0x30, 0xff, 0xff, 0xff, 0xff, 1], &[0x82, 0x02, 0, 1], &[0x20, 0x02, 0xff, 0], &[0x32, 1, 0]];
                let k = r.below(if v5 { 6 } else { 5 });
                let k = if !v5 && k == 3 { 0 } else { k };
                b.extend(bad[k]);
                let t = suffix(r);
                b.extend(t);
                end = End::Error(good);
            }
            _ => {}
        }
        let cuts = cut(r, &b);
        o.count("streams");
        o.add("packets", want.len() as u64);
        {
            // splits that fall inside a fixed header
            let mut pos = 0;
            let starts: Vec<usize> = std::iter::once(0).chain(want.iter().map(|x| x.1)).collect();
            for c in &cuts {
                pos += c.len();
                if starts.iter().any(|s| pos == s + 1 || (pos > *s && pos < (s + hdr_len(&b[*s..]).unwrap_or(1)))) {
                    o.count("fixed_header_splits");
                }
            }
        }
        match end {
            End::Clean => o.count("ended_clean"),
            End::Partial(_) => o.count("ended_partial"),
            End::Error(_) => o.count("ended_in_error"),
        }
        let mut key = hash64(&b);
        for c in &cuts {
            key = key.wrapping_mul(31).wrapping_add(c.len() as u64);
        }
        if cuts.len() > 1 {
            o.case(key)
        } else {
            o.trivial()
        }
        if i < 3 {
            o.sample = Some(format!("{} bytes, {} packets, {} chunks, {end:?}", b.len(), want.len(), cuts.len()));
        }
        let show = |r: &str| format!("{r}: stream {} cut into {:?}", hex(&b), cuts.iter().map(|c| c.len()).take(200).collect::<Vec<_>>());
        // MqttParser at full level
        let poll = r.below(4);
        for api in 0..2 {
            let mut ps = MqttParser::new(*r.pick(&[0usize, 4, 4096]), vnum(v5));
            let mut got: Vec<M> = Vec::new();
            let mut err = false;
            let mut polls = 0usize;
            let mut step = |ps: &mut MqttParser, got: &mut Vec<M>, max: usize| -> Result<bool, String> {
                for _ in 0..max {
                    polls += 1;
                    let x = if api == 0 {
                        ps.next_packet()
                    } else {
                        ps.next_parsed().map(|x| x.map(|y| y.into_packet()))
                    };
                    match x {
                        Ok(Some(m)) => got.push(m),
                        Ok(None) => return Ok(true),
                        Err(e) => return Err(e.to_string()),
                    }
                }
                Ok(false)
            };
            for (k, c) in cuts.iter().enumerate() {
                ps.feed(c);
                let max = match poll {
                    0 => usize::MAX,
                    1 => 1,
                    2 => 0,
                    _ => {
                        if r.bool() {
                            2
                        } else {
                            0
                        }
                    }
                };
                if err {
                    continue;
                }
                if let Err(e) = step(&mut ps, &mut got, max) {
                    err = true;
                    ensure!(matches!(end, End::Error(_)), "spurious-error", "after chunk {k} the parser reports {e}; {}", show("parser"));
                }
            }
            if !err {
                if let Err(e) = step(&mut ps, &mut got, usize::MAX) {
                    err = true;
                    ensure!(matches!(end, End::Error(_)), "spurious-error", "at the end the parser reports {e}; {}", show("parser"));
                }
            }
            let models: Vec<Pkt> = got.iter().map(conv::to_model).collect();
            ensure!(models.len() == want.len() && models.iter().zip(&want).all(|(a, b)| *a == b.0), "packets-differ", "{} packets instead of {}; {}", models.len(), want.len(), show("parser"));
            match end {
                End::Error(_) => {
                    ensure!(err, "missed-error", "malformed frame not reported; {}", show("parser"));
                    // and it stays at the same place
                    ensure!(ps.next_packet().is_err(), "missed-error", "the error went away; {}", show("parser"));
                }
                _ => {
                    ensure!(!err, "spurious-error", "{}", show("parser"));
                    let left = ps.buffer_mut().len();
                    ensure!(left == b.len() - good, "left-over", "{left} bytes left, expected {}; {}", b.len() - good, show("parser"));
                }
            }
        }
        // shallower levels see the same frames
        for l in [ParseLevel::TypeOnly, ParseLevel::RawBody, ParseLevel::HeadersParsed] {
            let mut ps = MqttParser::with_level(4, vnum(v5), l);
            let mut tys = Vec::new();
            for c in &cuts {
                ps.feed(c);
                while tys.len() < want.len() {
                    match ps.next_parsed() {
                        Ok(Some(p)) => tys.push(p.packet_type() as u8),
                        _ => break,
                    }
                }
            }
            ensure!(tys == want.iter().map(|w| w.0.ty).collect::<Vec<_>>(), "levels-differ", "{l:?} saw types {tys:?}; {}", show("parser"));
        }
        // the reading iterator
        let src = Chunked { chunks: cuts.clone().into(), stall: r.bool(), stalls: 0 };
        let mut st = MqttStream::new(src, 8, vnum(v5));
        let mut got = Vec::new();
        let mut errs = 0;
        let mut budget = 4 * cuts.len() + 4 * want.len() + b.len() / 256 + 50;
        let mut failed = false;
        loop {
            budget -= 1;
            ensure!(budget > 0, "stream-stuck", "{}", show("MqttStream"));
            match st.next() {
                None => break,
                Some(Ok(m)) => got.push(conv::to_model(&m)),
                Some(Err(flowsdk::mqtt_serde::parser::ParseError::IoError(_))) => errs += 1,
                Some(Err(_)) => {
                    failed = true;
                    break;
                }
            }
        }
        o.add("read_stalls", errs);
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| *a == b.0), "stream-packets-differ", "{} packets instead of {}; {}", got.len(), want.len(), show("MqttStream"));
        ensure!(failed == matches!(end, End::Error(_)), "stream-error", "failed={failed}; {}", show("MqttStream"));
        Ok(())
    });
    run.finish()
}

/// The malformed-packet classes the library documents (docs/PROTOCOL_COMPLIANCE.md) or, for
/// MQTT 3.1.1, checks unconditionally.
fn must_reject(v5: bool, ty: u8, e: Mal) -> bool {
    use Mal::*;
    match e {
        FixedFlags => v5,
        PacketType | RemainingLength | NonMinimalVbi | Truncated | Trailing | Utf8 | Utf8Char | ConnectReserved | ConnAckReserved | ProtoName => true,
        Qos3 => v5 || ty == PUBLISH,
        SubOptions => true,
        DupQos0 | Wildcard => v5,
        WillFlags => v5,
        PasswordNoUser | ProtoLevel | SubAckCode => !v5,
        ZeroPid => v5 && matches!(ty, SUBSCRIBE | SUBACK | UNSUBSCRIBE | UNSUBACK),
        EmptyList => v5,
        BadFilter => v5 && ty == SUBSCRIBE,
        UnknownProp => v5,
        _ => false,
    }
}

/// Replaces one string field of the model by `s`; returns false if it has none.
fn put_text(r: &mut Rng, p: &mut Pkt, s: &str) -> bool {
    let mut slots: Vec<Box<dyn FnOnce(&mut Pkt)>> = Vec::new();
    let t = s.to_string();
    macro_rules! slot {
        ($c:expr) => {{
            let t = t.clone();
            slots.push(Box::new(move |p: &mut Pkt| $c(p, t)));
        }};
    }
    if p.ty == PUBLISH {
        slot!(|p: &mut Pkt, t: String| p.topic = t);
    }
    for k in 0..p.filters.len() {
        slot!(|p: &mut Pkt, t: String| p.filters[k].0 = t);
    }
    for (k, q) in p.props.iter().enumerate() {
        match q {
            P::Str(id, _) => {
                let id = *id;
                slot!(|p: &mut Pkt, t: String| p.props[k] = P::Str(id, t))
            }
            P::Pair(..) => {
                if r.bool() {
                    slot!(|p: &mut Pkt, t: String| p.props[k] = P::Pair(t, "v".into()))
                } else {
                    slot!(|p: &mut Pkt, t: String| p.props[k] = P::Pair("k".into(), t))
                }
            }
            _ => {}
        }
    }
    if let Some(c) = &p.conn {
        slot!(|p: &mut Pkt, t: String| p.conn.as_mut().unwrap().client_id = t);
        if c.username.is_some() {
            slot!(|p: &mut Pkt, t: String| p.conn.as_mut().unwrap().username = Some(t));
        }
        if let Some(w) = &c.will {
            slot!(|p: &mut Pkt, t: String| p.conn.as_mut().unwrap().will.as_mut().unwrap().topic = t);
            for (k, q) in w.props.iter().enumerate() {
                match q {
                    P::Str(id, _) => {
                        let id = *id;
                        slot!(|p: &mut Pkt, t: String| p.conn.as_mut().unwrap().will.as_mut().unwrap().props[k] = P::Str(id, t))
                    }
                    P::Pair(..) => slot!(|p: &mut Pkt, t: String| p.conn.as_mut().unwrap().will.as_mut().unwrap().props[k] = P::Pair("k".into(), t)),
                    _ => {}
                }
            }
        }
    }
    if slots.is_empty() {
        return false;
    }
    let k = r.below(slots.len());
    let f = slots.swap_remove(k);
    f(p);
    true
}

fn reframe(b0: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![b0];
    v.extend(enc_vbi(body.len()));
    v.extend(body);
    v
}

/// A frame intended to be malformed in one specific way.
fn malformed(r: &mut Rng, v5: bool) -> (&'static str, Vec<u8>) {
    let g = Gen { small: 6, big_every: 2000 };
    let mut p = g.any(r, v5);
    let b = encode_form(&p, if p.ty == AUTH { 1 } else { r.below(3) as u8 });
    let h = announced_hdr(&b);
    let body = b[h..].to_vec();
    match r.below(20) {
        0 => {
            let mut b = b;
            b[0] ^= 1 + r.below(15) as u8;
            ("flags", b)
        }
        1 => {
            let mut b = b;
            b[0] &= 15;
            ("type 0", b)
        }
        2 => {
            // a longer encoding of the remaining length
            let mut v = vec![b[0]];
            let mut l = enc_vbi(body.len());
            let k = l.len() - 1;
            l[k] |= 128;
            let extra = r.range(0, 4 - (k + 1).min(4));
            for _ in 0..extra {
                l.push(0x80);
            }
            l.push(0);
            v.extend(l);
            v.extend(&body);
            ("non-minimal remaining length", v)
        }
        3 => ("cut", reframe(b[0], &body[..r.below(body.len() + 1)])),
        4 => {
            let mut x = body.clone();
            let n = r.range(1, 6);
            x.extend(r.bytes(n));
            ("trailing", reframe(b[0], &x))
        }
        5 => {
            let t = *r.pick(&["\0", "a\0", "\0b", "x\0y", "é\0中"]);
            put_text(r, &mut p, t);
            ("NUL", encode(&p))
        }
        6 => {
            put_text(r, &mut p, "\u{1}QQQQ\u{2}");
            let mut b = encode(&p);
            let bad: &[u8] = r.pick(&[&b"ab\xffc"[..], b"\xc0\x80zz", b"\xed\xa0\x80x", b"abc\xe2", b"\xf5\x80\x80\x80", b"\x80bcd", b"a\xc3bc", b"\xf4\x90\x80\x80"]);
            if let Some(k) = b.windows(6).position(|w| w == b"\x01QQQQ\x02") {
                b[k + 1..k + 5].copy_from_slice(bad);
            }
            ("utf-8", b)
        }
        7 => {
            p = g.packet(r, v5, PUBLISH);
            let mut b = encode(&p);
            b[0] |= 6;
            if p.qos == 0 {
                let h = announced_hdr(&b);
                let mut body = b[h..].to_vec();
                let k = 2 + p.topic.len();
                body.splice(k..k, [0, 9]);
                b = reframe(b[0], &body);
            }
            ("qos 3", b)
        }
        8 => {
            p = g.packet(r, v5, PUBLISH);
            p.qos = 0;
            p.pid = None;
            p.dup = true;
            ("dup at qos 0", encode(&p))
        }
        9 => {
            p = g.packet(r, v5, PUBLISH);
            p.topic = r.pick(&["a/#", "+", "#", "a+", "a/+/b", "x#y"]).to_string();
            ("wildcard topic", encode(&p))
        }
        10 => {
            p = g.packet(r, v5, CONNECT);
            let mut b = encode(&p);
            let k = announced_hdr(&b) + 7;
            match r.below(3) {
                0 => {
                    b[k] |= 1;
                    ("connect reserved", b)
                }
                1 if b[k] & 4 == 0 => {
                    b[k] |= *r.pick(&[8u8, 16, 0x20, 0x28, 0x38]);
                    ("will flags", b)
                }
                _ => {
                    b[k] |= 0x18;
                    ("will qos 3", b)
                }
            }
        }
        11 => {
            p = g.packet(r, v5, CONNECT);
            let c = p.conn.as_mut().unwrap();
            if r.bool() {
                c.name = r.pick(&["MQTX", "mqtt", "", "MQTT5", "MQIsdp", "MQTT "]).to_string();
            } else if !v5 {
                c.level = *r.pick(&[0u8, 1, 3, 5, 6, 255]);
            } else {
                c.name = "MQT".into();
            }
            ("protocol name or level", encode(&p))
        }
        12 => {
            p = g.packet(r, v5, CONNACK);
            let mut b = encode(&p);
            let k = announced_hdr(&b);
            b[k] |= 1 << r.range(1, 7);
            ("connack flags", b)
        }
        13 => {
            p = g.packet(r, v5, SUBSCRIBE);
            let k = r.below(p.filters.len());
            p.filters[k].1 = if v5 { *r.pick(&[3u8, 0x30, 0x31, 0x40, 0x80, 0xc1, 0x33]) } else { *r.pick(&[3u8, 4, 0x80, 0xff]) };
            ("subscription options", encode(&p))
        }
        14 => {
            p = g.packet(r, v5, SUBSCRIBE);
            let k = r.below(p.filters.len());
            if r.chance(1, 4) {
                p.filters[k] = ("$share/g/t".into(), 5);
                return ("no local shared", encode(&p));
            }
            p.filters[k].0 = r.pick(&["", "a#", "#/a", "a/#/b", "a+", "+a/b", "a/b+", "$share/g", "$share//t", "$share/g/", "a/##", "$share/g/a#"]).to_string();
            ("filter", encode(&p))
        }
        15 => {
            let ty = *r.pick(&[SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK]);
            p = g.packet(r, v5, ty);
            p.pid = Some(0);
            ("packet id 0", encode(&p))
        }
        16 => {
            let ty = *r.pick(&[SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK]);
            p = g.packet(r, v5, ty);
            p.filters.clear();
            p.codes.clear();
            ("empty list", encode(&p))
        }
        17 if !v5 => {
            if r.bool() {
                p = g.packet(r, v5, CONNECT);
                let c = p.conn.as_mut().unwrap();
                c.username = None;
                c.password = Some(vec![1]);
                ("password without user", encode(&p))
            } else {
                p = g.packet(r, v5, SUBACK);
                let k = r.below(p.codes.len());
                p.codes[k] = *r.pick(&[3u8, 0x7f, 0x81, 0xff]);
                ("suback code", encode(&p))
            }
        }
        17 | 18 if v5 => {
            // damage the property section of a packet that has one
            let ty = *r.pick(&[CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH]);
            p = g.packet(r, true, ty);
            p.props = vec![P::Pair("\u{1}kk\u{2}".into(), "vv".into())];
            let b = encode(&p);
            let h = announced_hdr(&b);
            let mut body = b[h..].to_vec();
            let k = body.windows(4).position(|w| w == b"\x01kk\x02").unwrap() - 3; // at the property id
            match r.below(5) {
                0 => {
                    body[k] = *r.pick(&[0x04u8, 0x05, 0x0a, 0x10, 0x14, 0x1b, 0x20, 0x2b, 0x7f, 0x00, 0x30]);
                    ("unknown property", reframe(b[0], &body))
                }
                1 => {
                    body[k - 1] = 0x7f;
                    body.truncate(body.len().min(k + 0x70));
                    ("property length too long", reframe(b[0], &body))
                }
                2 => {
                    body[k - 1] -= r.range(1, 9) as u8;
                    ("property length too short", reframe(b[0], &body))
                }
                3 => {
                    body[k - 1] |= 0x80;
                    body.insert(k, 0);
                    ("non-minimal property length", reframe(b[0], &body))
                }
                _ => {
                    body[k + 1] = 0xff;
                    ("property string too long", reframe(b[0], &body))
                }
            }
        }
        18 => {
            let ty = *r.pick(&[PUBACK, PUBREC, PUBREL, PUBCOMP, UNSUBACK, CONNACK, PINGREQ, PINGRESP, DISCONNECT]);
            p = g.packet(r, v5, ty);
            let b = encode(&p);
            let h = announced_hdr(&b);
            let mut body = b[h..].to_vec();
            body.push(0);
            ("wrong fixed length", reframe(b[0], &body))
        }
        _ => {
            let ty = *r.pick(&[PINGREQ, PINGRESP]);
            p = g.packet(r, v5, ty);
            let n = r.range(1, 5);
            let x = r.bytes(n);
            ("ping with a body", reframe(encode(&p)[0], &x))
        }
    }
}

pub fn c05() {
    let mut run = Run::new("C05", "a complete frame the independent decoder classifies as malformed in a documented way, identified by its bytes");
    for k in ["FixedFlags", "PacketType", "NonMinimalVbi", "Truncated", "Trailing", "Utf8", "Utf8Char", "Qos3", "DupQos0", "Wildcard", "ConnectReserved", "WillFlags", "ProtoName", "ConnAckReserved", "SubOptions", "BadFilter", "ZeroPid", "EmptyList", "UnknownProp", "SubAckCode", "PasswordNoUser", "ProtoLevel", "RemainingLength"] {
        run.need(k, 50);
    }
    run.assume("the library is built with the strict-protocol-compliance feature (its default)");
    let n = run.scale(700_000, 20_000_000);
    let budget = run.scale(25, 500) as f64;
    run.cases("malformed", n, budget, |i, r, o| {
        let v5 = r.bool();
        let (what, mut b) = if i % 4 == 3 {
            ("mutation", hostile(r, v5))
        } else if i % 97 == 0 {
            ("five-byte length", {
                let mut b = vec![r.u8() | 0x10, 0xff, 0xff, 0xff, 0x80 | r.u8()];
                let n = r.below(10);
                b.extend(r.bytes(n));
                b
            })
        } else {
            malformed(r, v5)
        };
        let e = match refmqtt::decode(&b, v5) {
            Err(e) => e,
            Ok(_) => {
                o.trivial();
                o.count("came_out_valid");
                return Ok(());
            }
        };
        let ty = b.first().map_or(0, |x| x >> 4);
        if e == Mal::Incomplete || !must_reject(v5, ty, e) {
            o.trivial();
            o.count("other_class");
            return Ok(());
        }
        o.count(Box::leak(format!("{e:?}").into_boxed_str()));
        o.case(hash64(&b));
        if i < 4 {
            o.sample = Some(format!("{what} ({e:?}) {}", hex(&b)));
        }
        if r.bool() {
            // a malformed length field may only be followed by more bytes; anything else by anything
            b.extend(suffix(r));
        }
        let x = dec(&b, v5);
        ensure!(x.is_err(), format!("accepted:{e:?}:{}", NAMES[ty as usize]), "v5={v5} {what} ({e:?}): {} gives {x:?}", hex(&b));
        let mut ps = MqttParser::new(0, vnum(v5));
        ps.feed(&b);
        let y = ps.next_packet();
        ensure!(y.is_err(), format!("accepted:{e:?}:{}", NAMES[ty as usize]), "v5={v5} {what} ({e:?}): the stream parser gives {y:?} for {}", hex(&b));
        Ok(())
    });
    run.finish()
}

/// What the headers-only level must report for packet `p`, rendered for comparison, and the raw payload.
fn vh_text(p: &Pkt, flags: u8) -> String {
    let pr = |ps: &[P]| format!("{ps:?}");
    match (p.v5, p.ty) {
        (_, CONNECT) => {
            let c = p.conn.as_ref().unwrap();
            format!("CONNECT {} {} {} {} {:02x} {}", c.name, c.level, c.clean, c.keep_alive, flags, if p.v5 { pr(&p.props) } else { String::new() })
        }
        (true, CONNACK) => format!("CONNACK {} {} {}", p.session_present, p.reason, pr(&p.props)),
        (false, CONNACK) => format!("CONNACK {} {}", p.session_present, p.reason),
        (_, PUBLISH) => format!("PUBLISH {:?} {} {} {} {:?} {}", p.topic, p.qos, p.dup, p.retain, p.pid, if p.v5 { pr(&p.props) } else { String::new() }),
        (true, PUBACK | PUBREC | PUBREL | PUBCOMP) => format!("{} {:?} {} {}", p.name(), p.pid.unwrap(), p.reason, pr(&p.props)),
        (true, SUBSCRIBE | SUBACK | UNSUBSCRIBE | UNSUBACK) => format!("{} {:?} {}", p.name(), p.pid.unwrap(), pr(&p.props)),
        (true, DISCONNECT | AUTH) => format!("{} {} {}", p.name(), p.reason, pr(&p.props)),
        (false, PUBACK | PUBREC | PUBREL | PUBCOMP | SUBSCRIBE | SUBACK | UNSUBSCRIBE | UNSUBACK) => format!("ID {}", p.pid.unwrap()),
        _ => "EMPTY".into(),
    }
}

fn vh_got(v: &VariableHeader) -> String {
    use VariableHeader::*;
    let pr = |ps: &Vec<flowsdk::mqtt_serde::mqttv5::common::properties::Property>| format!("{:?}", conv::props_to_model(ps));
    match v {
        ConnectV5 { protocol_name, protocol_version, clean_start, keep_alive, connect_flags, properties } => format!("CONNECT {protocol_name} {protocol_version} {clean_start} {keep_alive} {connect_flags:02x} {}", pr(properties)),
        ConnectV3 { protocol_name, protocol_version, clean_session, keep_alive, connect_flags } => format!("CONNECT {protocol_name} {protocol_version} {clean_session} {keep_alive} {connect_flags:02x} "),
        ConnAckV5 { session_present, reason_code, properties } => format!("CONNACK {session_present} {reason_code} {}", pr(&properties.clone().unwrap_or_default())),
        ConnAckV3 { session_present, return_code } => format!("CONNACK {session_present} {return_code}"),
        PublishV5 { topic_name, qos, dup, retain, packet_id, properties } => format!("PUBLISH {topic_name:?} {qos} {dup} {retain} {packet_id:?} {}", pr(properties)),
        PublishV3 { topic_name, qos, dup, retain, message_id } => format!("PUBLISH {topic_name:?} {qos} {dup} {retain} {message_id:?} "),
        PubAckV5 { packet_id, reason_code, properties } => format!("PUBACK {packet_id} {reason_code} {}", pr(properties)),
        PubRecV5 { packet_id, reason_code, properties } => format!("PUBREC {packet_id} {reason_code} {}", pr(properties)),
        PubRelV5 { packet_id, reason_code, properties } => format!("PUBREL {packet_id} {reason_code} {}", pr(properties)),
        PubCompV5 { packet_id, reason_code, properties } => format!("PUBCOMP {packet_id} {reason_code} {}", pr(properties)),
        SubscribeV5 { packet_id, properties } => format!("SUBSCRIBE {packet_id} {}", pr(properties)),
        SubAckV5 { packet_id, properties } => format!("SUBACK {packet_id} {}", pr(properties)),
        UnsubscribeV5 { packet_id, properties } => format!("UNSUBSCRIBE {packet_id} {}", pr(properties)),
        UnsubAckV5 { packet_id, properties } => format!("UNSUBACK {packet_id} {}", pr(properties)),
        DisconnectV5 { reason_code, properties } => format!("DISCONNECT {reason_code} {}", pr(properties)),
        AuthV5 { reason_code, properties } => format!("AUTH {reason_code} {}", pr(properties)),
        PacketIdOnlyV3 { message_id } => format!("ID {message_id}"),
        Empty => "EMPTY".into(),
    }
}

/// Where the raw payload starts in the frame (after the variable header).
fn payload_of(p: &Pkt, b: &[u8]) -> Vec<u8> {
    let mut tail = Vec::new();
    match p.ty {
        PUBLISH => tail = p.payload.clone(),
        CONNECT => {
            // everything after the properties: re-encode with no properties and a known prefix length
            let q = Pkt { props: vec![], ..p.clone() };
            let e = encode(&q);
            let h = announced_hdr(&e);
            let skip = 10 + p.v5 as usize;
            tail = e[h + skip..].to_vec();
        }
        SUBSCRIBE | UNSUBSCRIBE => {
            for (t, o) in &p.filters {
                tail.push((t.len() >> 8) as u8);
                tail.push(t.len() as u8);
                tail.extend(t.as_bytes());
                if p.ty == SUBSCRIBE {
                    tail.push(*o);
                }
            }
        }
        SUBACK | UNSUBACK => tail = p.codes.clone(),
        _ => {}
    }
    assert!(b.ends_with(&tail));
    tail
}

pub fn c06() {
    let mut run = Run::new("C06", "a well-formed frame, or a damaged one full parsing accepts, identified by its bytes");
    run.need("valid_frames", 10_000);
    run.need("damaged_accepted", 100);
    run.need("prefixes", 10_000);
    let n = run.scale(300_000, 6_000_000);
    let budget = run.scale(25, 500) as f64;
    run.cases("levels", n, budget, |i, r, o| {
        let valid = i % 3 != 2;
        let (b, p) = if valid {
            let p = some_packet(r, i);
            let form = r.below(3) as u8;
            let form = if p.ty == AUTH { form.max(1) } else { form };
            (encode_form(&p, form), Some(p))
        } else {
            let v5 = r.bool();
            let b = hostile(r, v5);
            (b, None)
        };
        let v5 = p.as_ref().map_or_else(|| r.bool(), |p| p.v5);
        let full = out(dec(&b, v5));
        let Out::Pkt(m, n) = full else {
            ensure!(p.is_none(), "full-rejects", "{p:?} rejected: {}", hex(&b));
            o.trivial();
            return Ok(());
        };
        o.count(if valid { "valid_frames" } else { "damaged_accepted" });
        o.case(hash64(&b));
        if i < 3 {
            o.sample = Some(hex(&b));
        }
        let sfx = if valid { suffix(r) } else { vec![] };
        let mut w = b.clone();
        w.extend(&sfx);
        let by = bytes::Bytes::from(w.clone());
        ensure!(matches!(leveled::packet_frame_len(&w), Ok(Some(k)) if k == n), "frame-len", "packet_frame_len {:?}, consumed {n}: {}", leveled::packet_frame_len(&w), hex(&w));
        let ty = b[0] >> 4;
        let h = announced_hdr(&b);
        match leveled::parse_type_only(&w) {
            Ok(LeveledParseOk::Packet(ParsedPacket::TypeOnly(t), k)) => ensure!(k == n && t.packet_type as u8 == ty && t.flags == b[0] & 15 && t.packet_type == m.packet_type(), "type-only", "{t:?} {k} for {}", hex(&w)),
            x => return fail("type-only", format!("{x:?} for {}", hex(&w))),
        }
        match leveled::parse_raw_body(by.clone()) {
            Ok(LeveledParseOk::Packet(ParsedPacket::RawBody(t), k)) => ensure!(k == n && t.packet_type as u8 == ty && t.flags == b[0] & 15 && t.remaining[..] == b[h..n], "raw-body", "{t:?} {k} for {}", hex(&w)),
            x => return fail("raw-body", format!("{x:?} for {}", hex(&w))),
        }
        match leveled::parse_headers_only(by.clone(), vnum(v5)) {
            Ok(LeveledParseOk::Packet(ParsedPacket::HeadersParsed(t), k)) => {
                ensure!(k == n && t.packet_type as u8 == ty && t.flags == b[0] & 15 && (t.mqtt_version == 5) == v5, "headers", "{t:?} {k} for {}", hex(&w));
                let q = conv::to_model(&m);
                let cf = if ty == CONNECT { b[h + 2 + q.conn.as_ref().unwrap().name.len() + 1] } else { 0 };
                let (a, c) = (vh_got(&t.variable_header), vh_text(&q, cf));
                ensure!(a == c, format!("headers:{}", NAMES[ty as usize]), "headers-only reports {a}, full parsing {c}: {}", hex(&b));
                if let Some(p) = &p {
                    let pay = payload_of(p, &b);
                    ensure!(t.raw_payload[..] == pay[..], "raw-payload", "payload {} instead of {} for {}", hex(&t.raw_payload), hex(&pay), hex(&b));
                } else {
                    ensure!(b[..n].ends_with(&t.raw_payload), "raw-payload", "payload {} of {}", hex(&t.raw_payload), hex(&b));
                }
            }
            x => return fail("headers", format!("{} for {} which full parsing accepts", short(&format!("{x:?}"), 300), hex(&w))),
        }
        // streaming at each level leaves exactly the suffix
        for l in [ParseLevel::Full, ParseLevel::TypeOnly, ParseLevel::RawBody, ParseLevel::HeadersParsed] {
            let mut ps = MqttParser::with_level(8, vnum(v5), l);
            ps.feed(&w);
            match ps.next_parsed() {
                Ok(Some(q)) => {
                    ensure!(q.packet_type() as u8 == ty && ps.buffer_mut()[..] == w[n..], "next-parsed", "{l:?}: {q:?}, left {} for {}", hex(&ps.buffer_mut()[..]), hex(&w));
                    match &q {
                        ParsedPacket::Full(f) => ensure!(*f == *m, "next-parsed", "{l:?}: {f:?} for {}", hex(&w)),
                        ParsedPacket::RawBody(t) => ensure!(t.remaining[..] == b[h..n], "next-parsed", "{l:?} for {}", hex(&w)),
                        _ => {}
                    }
                    ensure!(q.as_packet().is_some() == (l == ParseLevel::Full), "next-parsed", "{l:?}");
                }
                x => return fail("next-parsed", format!("{l:?}: {} for {}", short(&format!("{x:?}"), 300), hex(&w))),
            }
        }
        // a proper prefix is incomplete at every level
        let k = if r.bool() { r.below(n.min(8)) } else { r.below(n) }.max(1);
        if k < n {
            o.count("prefixes");
            let pre = &b[..k];
            ensure!(matches!(leveled::packet_frame_len(pre), Ok(None)), "prefix", "packet_frame_len of prefix {}", hex(pre));
            ensure!(matches!(leveled::parse_type_only(pre), Ok(LeveledParseOk::Continue(..))), "prefix", "type-only of prefix {}", hex(pre));
            let pb = bytes::Bytes::copy_from_slice(pre);
            ensure!(matches!(leveled::parse_raw_body(pb.clone()), Ok(LeveledParseOk::Continue(..))), "prefix", "raw-body of prefix {}", hex(pre));
            ensure!(matches!(leveled::parse_headers_only(pb, vnum(v5)), Ok(LeveledParseOk::Continue(..))), "prefix", "headers of prefix {}", hex(pre));
            ensure!(matches!(dec(pre, v5), Ok(ParseOk::Continue(..))), "prefix", "full parse of prefix {}", hex(pre));
        }
        Ok(())
    });
    run.finish()
}

fn extreme(r: &mut Rng, m: &mut M) -> bool {
    use flowsdk::mqtt_serde::mqttv5::common::properties::Property as Q;
    let big = |r: &mut Rng| match r.below(4) {
        // too many bytes, but not too many characters
        0 => "é".repeat(*r.pick(&[32768usize, 32769, 65535])),
        1 => "𝄞".repeat(*r.pick(&[16384usize, 16385, 32768, 65535])),
        _ => "x".repeat(*r.pick(&[65536usize, 65537, 65600, 70_000, 131_072, 131_073])),
    };
    let bigb = |r: &mut Rng| vec![7u8; *r.pick(&[65536usize, 65537, 65600, 70_000, 131_072])];
    let q = *r.pick(&[3u8, 4, 5, 7, 8, 16, 64, 127, 128, 255]);
    fn props<'a>(m: &'a mut M) -> Option<&'a mut Vec<Q>> {
        Some(match m {
            M::Connect5(p) => &mut p.properties,
            M::Publish5(p) => &mut p.properties,
            M::PubAck5(p) => &mut p.properties,
            M::PubRec5(p) => &mut p.properties,
            M::PubRel5(p) => &mut p.properties,
            M::PubComp5(p) => &mut p.properties,
            M::Subscribe5(p) => &mut p.properties,
            M::SubAck5(p) => &mut p.properties,
            M::Unsubscribe5(p) => &mut p.properties,
            M::UnsubAck5(p) => &mut p.properties,
            M::Disconnect5(p) => &mut p.properties,
            M::Auth(p) => &mut p.properties,
            M::ConnAck5(p) => p.properties.get_or_insert_with(Vec::new),
            _ => return None,
        })
    }
    if r.chance(1, 3) {
        if let Some(ps) = props(m) {
            let x = match r.below(16) {
                0 => Q::SubscriptionIdentifier(*r.pick(&[268_435_456u32, 268_435_457, 1 << 30, u32::MAX])),
                1 => Q::UserProperty(big(r), "v".into()),
                2 => Q::UserProperty("k".into(), big(r)),
                3 => Q::ContentType(big(r)),
                4 => Q::ResponseTopic(big(r)),
                5 => Q::CorrelationData(bigb(r)),
                6 => Q::AuthenticationMethod(big(r)),
                7 => Q::AuthenticationData(bigb(r)),
                8 => Q::ReasonString(big(r)),
                9 => Q::ServerReference(big(r)),
                10 => Q::AssignedClientIdentifier(big(r)),
                11 => Q::ResponseInformation(big(r)),
                12 => Q::SubscriptionIdentifier(0),
                13 => Q::PayloadFormatIndicator(r.u8()),
                14 => Q::MaximumQoS(r.u8()),
                _ => Q::ReasonString("a\0b".into()),
            };
            let k = r.below(ps.len() + 1);
            ps.insert(k, x);
            return true;
        }
    }
    match m {
        M::Connect5(c) => match r.below(7) {
            0 => c.client_id = big(r),
            1 => c.username = Some(big(r)),
            2 => c.password = Some(bigb(r)),
            3 => c.protocol_name = big(r),
            _ => {
                let Some(w) = &mut c.will else { return false };
                match r.below(4) {
                    0 => w.will_topic = big(r),
                    1 => w.will_message = bigb(r),
                    2 => w.properties.correlation_data = Some(bigb(r)),
                    _ => w.will_qos = q,
                }
            }
        },
        M::Connect3(c) => match r.below(7) {
            0 => c.client_id = big(r),
            1 => c.username = Some(big(r)),
            2 => c.password = Some(bigb(r)),
            3 => c.protocol_name = big(r),
            _ => {
                let Some(w) = &mut c.will else { return false };
                match r.below(3) {
                    0 => w.topic = big(r),
                    1 => w.message = bigb(r),
                    _ => w.qos = q,
                }
            }
        },
        M::ConnAck3(c) => c.return_code = r.u8(),
        M::Publish5(p) => match r.below(4) {
            0 => p.topic_name = big(r),
            1 => p.qos = q,
            2 => {
                p.qos = r.range(1, 2) as u8;
                p.packet_id = *r.pick(&[None, Some(0)]);
            }
            _ => {
                p.qos = 0;
                p.dup = true;
            }
        },
        M::Publish3(p) => match r.below(4) {
            0 => p.topic_name = big(r),
            1 => p.qos = q,
            2 => {
                p.qos = r.range(1, 2) as u8;
                p.message_id = *r.pick(&[None, Some(0)]);
            }
            _ => {
                p.qos = 0;
                p.dup = true;
            }
        },
        M::Subscribe5(s) => match r.below(5) {
            0 => s.packet_id = 0,
            1 => s.subscriptions.clear(),
            k => {
                let j = r.below(s.subscriptions.len());
                match k {
                    2 => s.subscriptions[j].topic_filter = big(r),
                    3 => s.subscriptions[j].qos = q,
                    _ => s.subscriptions[j].retain_handling = q,
                }
            }
        },
        M::Subscribe3(s) => match r.below(4) {
            0 => s.message_id = 0,
            1 => s.subscriptions.clear(),
            k => {
                let j = r.below(s.subscriptions.len());
                match k {
                    2 => s.subscriptions[j].topic_filter = big(r),
                    _ => s.subscriptions[j].qos = q,
                }
            }
        },
        M::Unsubscribe5(s) => {
            let j = r.below(s.topic_filters.len());
            match r.below(3) {
                0 => s.packet_id = 0,
                1 => s.topic_filters.clear(),
                _ => s.topic_filters[j] = big(r),
            }
        }
        M::Unsubscribe3(s) => {
            let j = r.below(s.topic_filters.len());
            match r.below(3) {
                0 => s.message_id = 0,
                1 => s.topic_filters.clear(),
                _ => s.topic_filters[j] = big(r),
            }
        }
        M::SubAck5(s) => {
            if r.bool() {
                s.packet_id = 0
            } else {
                s.reason_codes.clear()
            }
        }
        M::SubAck3(s) => s.return_codes.push(r.u8()),
        M::PubAck5(a) => a.packet_id = 0,
        M::PubRec5(a) => a.packet_id = 0,
        M::PubRel5(a) => a.packet_id = 0,
        M::PubComp5(a) => a.packet_id = 0,
        M::PubAck3(a) => a.message_id = 0,
        _ => return false,
    }
    true
}

fn normal(m: &M) -> M {
    let mut m = m.clone();
    match &mut m {
        M::Publish5(p) if p.qos == 0 => p.packet_id = None,
        M::Publish3(p) if p.qos == 0 => p.message_id = None,
        M::ConnAck5(c) if c.properties.as_ref().is_some_and(|p| p.is_empty()) => c.properties = None,
        _ => {}
    }
    m
}

/// False once a list the mutator indexes has been emptied.
fn has_lists(m: &M) -> bool {
    match m {
        M::Subscribe5(s) => !s.subscriptions.is_empty(),
        M::Subscribe3(s) => !s.subscriptions.is_empty(),
        M::Unsubscribe5(s) => !s.topic_filters.is_empty(),
        M::Unsubscribe3(s) => !s.topic_filters.is_empty(),
        _ => true,
    }
}

/// Whether a string or binary field is longer than its two length bytes can say.
fn conv_overlong(m: &M) -> bool {
    let p = match catch(|| conv::to_model(m)) {
        Ok(p) => p,
        Err(_) => return false,
    };
    let pr = |ps: &[P]| {
        ps.iter().any(|x| match x {
            P::Str(_, s) => s.len() > 65535,
            P::Bin(_, b) => b.len() > 65535,
            P::Pair(k, v) => k.len() > 65535 || v.len() > 65535,
            _ => false,
        })
    };
    pr(&p.props)
        || p.topic.len() > 65535
        || p.filters.iter().any(|f| f.0.len() > 65535)
        || p.conn.as_ref().is_some_and(|c| {
            c.client_id.len() > 65535
                || c.name.len() > 65535
                || c.username.as_ref().is_some_and(|x| x.len() > 65535)
                || c.password.as_ref().is_some_and(|x| x.len() > 65535)
                || c.will.as_ref().is_some_and(|w| w.topic.len() > 65535 || w.payload.len() > 65535 || pr(&w.props))
        })
}

fn c07_check(m: &M, v5: bool, overlong: bool, o: &mut Obs) -> Verdict {
    let show = || short(&format!("{m:?}"), 400);
    let r = match catch(|| m.to_bytes()) {
        Ok(x) => x,
        Err((loc, msg)) => return fail("panic:to_bytes", format!("to_bytes panicked at {loc} ({msg}) on {}", show())),
    };
    let mut buf = vec![0xaa, 0xbb];
    let r2 = enc_into(m, &mut buf);
    match r {
        Err(_) => {
            o.count("refused");
            ensure!(matches!(r2, Some(Err(_)) | None), "entry-points-differ", "encode_to_buffer accepts what to_bytes refuses: {}", show());
            Ok(())
        }
        Ok(b) => {
            o.count("encoded");
            ensure!(!overlong, "overlong-encoded", "a field of more than 65535 bytes was encoded: {}", show());
            ensure!(matches!(r2, Some(Ok(())) | None) && buf[2..] == b[..], "entry-points-differ", "encode_to_buffer and to_bytes differ: {}", show());
            ensure!(announced_len(&b) == Some(b.len()), "announced-length", "announced {:?}, produced {} bytes for {}", announced_len(&b), b.len(), show());
            match out(dec(&b, v5)) {
                Out::Pkt(q, n) => {
                    o.count("readable");
                    ensure!(n == b.len() && *q == normal(m), "reads-back-differently", "{} reads back as {}", show(), short(&format!("{q:?}"), 400));
                }
                Out::More => return fail("announced-length", format!("the decoder wants more than {} bytes for {}", b.len(), show())),
                Out::Bad => o.count("rejected_by_decoder"),
            }
            Ok(())
        }
    }
}

pub fn c07() {
    let mut run = Run::new("C07", "a packet value with at least one out-of-range field, identified by its debug form");
    run.need("refused", 5_000);
    run.need("encoded", 2_000);
    run.need("oversized_bodies", 1);
    run.need("overlong_fields", 5_000);
    run.assume("a frame that no strict decoder accepts counts as refused by the receiver; a frame that reads back as something else is the violation");
    let n = run.scale(60_000, 1_000_000);
    let budget = run.scale(25, 500) as f64;
    run.cases("extreme", n, budget, |i, r, o| {
        let v5 = r.bool();
        let mut p = Gen { small: 4, big_every: 1_000_000 }.any(r, v5);
        if r.chance(1, 3) {
            p = Gen { small: 4, big_every: 1_000_000 }.packet(r, v5, *r.clone().pick(&[CONNECT, PUBLISH, SUBSCRIBE]));
        }
        let mut m = conv::from_model(&p);
        let mut any = false;
        for _ in 0..r.range(1, 2) {
            if !has_lists(&m) {
                break;
            }
            any |= extreme(r, &mut m);
        }
        if any {
            o.case(hash64(format!("{m:?}").as_bytes()));
        } else {
            o.trivial();
        }
        if i < 3 {
            o.sample = Some(short(&format!("{m:?}"), 300));
        }
        let overlong = conv_overlong(&m);
        if overlong {
            o.count("overlong_fields");
        }
        c07_check(&m, v5, overlong, o)
    });
    // bodies at and beyond the largest remaining length
    let sizes: &[usize] = &[268_435_455, 268_435_456, 268_435_460];
    run.cases_on("oversized", sizes.len() * 2, 120.0, 2, |i, _r, o| {
        let v5 = i % 2 == 1;
        let total = sizes[i as usize / 2];
        let mut p = Pkt::new(v5, PUBLISH);
        p.topic = "t".into();
        let over = 3 + v5 as usize;
        p.payload = vec![5u8; total - over];
        let m = conv::from_model(&p);
        drop(p);
        o.case(i + 1);
        o.count("oversized_bodies");
        let r = m.to_bytes();
        if total <= 268_435_455 {
            let b = match r {
                Ok(b) => b,
                Err(e) => return fail("refuses-maximum", format!("a packet of the largest legal size is refused: {e}")),
            };
            ensure!(announced_len(&b) == Some(b.len()), "announced-length", "announced {:?} of {}", announced_len(&b), b.len());
            match dec(&b, v5) {
                Ok(ParseOk::Packet(q, n)) => ensure!(n == b.len() && q == m, "reads-back-differently", "largest packet"),
                Ok(ParseOk::Continue(..)) | Ok(_) => return fail("reads-back-differently", "the largest legal packet is not read back"),
                Err(e) => return fail("reads-back-differently", format!("largest packet: {e}")),
            }
        } else if let Ok(b) = r {
            return fail("oversized-encoded", format!("a body of {total} bytes was encoded with header {}", hex(&b[..6])));
        }
        Ok(())
    });
    run.finish()
}
