//! C26: streams and connections come to an end from either side while others carry traffic.
use crate::qsim::*;
use crate::quic::{over, resumed, wait_connected};
use crate::rig::*;
use flowsdk::mqtt_client::MqttEvent;
use kit::*;
use refmqtt::*;
use std::collections::BTreeMap;
use std::time::Duration;

/// What was done to a stream, and what was reported of it.
#[derive(Default, Clone, Debug)]
struct Life {
    cl_fin: bool,
    cl_reset: Option<u64>,
    cl_stop: Option<u64>,
    sv_fin: bool,
    sv_reset: Option<u64>,
    sv_stop: Option<u64>,
    garbage: bool,
    closed_local: usize,
    closed_peer: usize,
    resets: usize,
    stops: usize,
    /// nothing more can be sent on it
    refused: bool,
}

struct Lives {
    m: BTreeMap<u64, Life>,
    errors: usize,
    garbage: usize,
}

impl Lives {
    fn new() -> Lives {
        Lives { m: BTreeMap::new(), errors: 0, garbage: 0 }
    }

    /// The engine knows of the end of a stream: what was issued on the default one before belongs
    /// to that stream.
    fn gone(g: &mut Rig, sid: u64) {
        let k = g.key_of(sid);
        if k != sid {
            let v = g.cmds.remove(&k).unwrap_or_default();
            g.cmds.insert(sid, v);
            for x in g.mine.values_mut() {
                if x.1 == k {
                    x.1 = sid;
                }
            }
        }
        g.gone.insert(sid);
        g.dead.insert(sid);
    }

    fn take(&mut self, g: &mut Rig, obs: &mut Obs) -> Verdict {
        for e in std::mem::take(&mut g.other_evs) {
            match &e {
                MqttEvent::StreamClosed { stream_id, by_peer, .. } => {
                    let l = self.m.entry(*stream_id).or_default();
                    if *by_peer {
                        l.closed_peer += 1;
                        ensure!(l.sv_fin, "reported-end", "{e:?}, but the broker did not finish it: {l:?}");
                        ensure!(l.closed_peer == 1, "reported-twice", "{e:?} again");
                        obs.count("ends reported: finished by the broker");
                    } else {
                        l.closed_local += 1;
                        ensure!(l.cl_fin, "reported-end", "{e:?}, but the application did not finish it: {l:?}");
                        ensure!(l.closed_local == 1, "reported-twice", "{e:?} again");
                        obs.count("ends reported: finish completed");
                    }
                }
                MqttEvent::StreamReset { stream_id, error_code } => {
                    let l = self.m.entry(*stream_id).or_default();
                    l.resets += 1;
                    ensure!(l.sv_reset == Some(*error_code), "reported-end", "{e:?}, but {l:?}");
                    ensure!(l.resets == 1, "reported-twice", "{e:?} again");
                    obs.count("ends reported: reset by the broker");
                    l.refused = true;
                    Lives::gone(g, *stream_id);
                }
                MqttEvent::StreamStopped { stream_id, error_code } => {
                    let l = self.m.entry(*stream_id).or_default();
                    l.stops += 1;
                    ensure!(l.sv_stop == Some(*error_code), "reported-end", "{e:?}, but {l:?}");
                    ensure!(l.stops == 1, "reported-twice", "{e:?} again");
                    obs.count("ends reported: stopped by the broker");
                    l.refused = true;
                    Lives::gone(g, *stream_id);
                }
                MqttEvent::Error(_) if self.errors < self.garbage => self.errors += 1,
                _ => return fail("events", format!("unexpected event {e:?}")),
            }
        }
        ensure!(g.disconnected == 0, "events", "unexpected Disconnected");
        Ok(())
    }

    /// One end of a stream. Returns what was done.
    fn op(&mut self, g: &mut Rig, r: &mut Rng, obs: &mut Obs) -> Result<String, Violation> {
        let code = *r.pick(&[0, 1, 77, 65536, (1 << 62) - 1]);
        if r.bool() {
            // the application, on a stream it opened or the broker opened
            let known: Vec<u64> = g.cmds.keys().copied().filter(|k| *k < u64::MAX - 1).collect();
            if known.is_empty() {
                return Ok(String::new());
            }
            let sid = *r.pick(&known);
            let l = self.m.entry(sid).or_default();
            if l.resets + l.stops > 0 {
                // the engine has dropped it
                let c = &mut g.net.cl;
                let res = [c.finish_stream(sid).is_err(), c.reset_stream(sid, code).is_err(), c.stop_stream(sid, code).is_err()];
                ensure!(res == [true; 3], "after-end", "stream {sid} has ended ({l:?}), but was it taken: {res:?}");
                return Ok(String::new());
            }
            match r.below(3) {
                0 if !l.cl_fin && l.cl_reset.is_none() => {
                    let res = g.net.cl.finish_stream(sid);
                    if res.is_err() && l.garbage {
                        return Ok(String::new());
                    }
                    ensure!(res.is_ok(), "finish", "stream {sid} {l:?}: {res:?}");
                    l.cl_fin = true;
                    l.refused = true;
                    g.fins.insert(sid);
                    obs.count("streams finished by the application");
                }
                1 if l.cl_reset.is_none() && l.closed_local == 0 => {
                    let res = g.net.cl.reset_stream(sid, code);
                    if res.is_err() && (l.cl_fin || l.garbage) {
                        // acknowledged in the meantime
                        return Ok(String::new());
                    }
                    ensure!(res.is_ok(), "reset", "stream {sid} {l:?}: {res:?}");
                    l.cl_reset = Some(code);
                    l.refused = true;
                    g.gone.insert(sid);
                    obs.count("streams reset by the application");
                }
                2 if l.cl_stop.is_none() => {
                    let res = g.net.cl.stop_stream(sid, code);
                    if res.is_err() {
                        // the broker's side is over already
                        ensure!(l.sv_fin || l.sv_reset.is_some() || l.garbage, "stop", "stream {sid} {l:?}: {res:?}");
                        return Ok(String::new());
                    }
                    l.cl_stop = Some(code);
                    g.dead.insert(sid);
                    obs.count("streams stopped by the application");
                }
                _ => return Ok(String::new()),
            }
            return Ok(format!("app {sid} {l:?}"));
        }
        // the broker, on any data stream it knows
        let known: Vec<u64> = g.obs.iter().filter(|(k, o)| **k != 0 && (g.cmds.contains_key(k) || !o.cmds.is_empty() || *k % 4 == 1)).map(|(k, _)| *k).collect();
        if known.is_empty() || g.net.srv().is_none() {
            return Ok(String::new());
        }
        let sid = *r.pick(&known);
        let Some(c) = g.net.srv() else { return Ok(String::new()) };
        let Some(s) = c.stream(sid) else { return Ok(String::new()) };
        let sending = !s.want_fin && s.reset_sent.is_none();
        let l = self.m.entry(sid).or_default();
        match r.below(7) {
            0 | 1 if sending => {
                s.want_fin = true;
                l.sv_fin = true;
                g.shut.insert(sid);
                obs.count("streams finished by the broker");
            }
            2 | 3 if s.reset_sent.is_none() && !s.finned => {
                c.reset(sid, code);
                l.sv_reset = Some(code);
                g.shut.insert(sid);
                g.dead.insert(sid);
                obs.count("streams reset by the broker");
            }
            4 | 5 if s.stop_sent.is_none() && !s.rx_fin && s.rx_reset.is_none() => {
                c.stop(sid, code);
                l.sv_stop = Some(code);
                // some commands under way are lost with it
                g.dead.insert(sid);
                g.gone.insert(sid);
                obs.count("streams stopped by the broker");
            }
            6 if sending && !l.garbage && l.cl_stop.is_none() && r.chance(1, 2) => {
                // not MQTT: the rest of this stream is lost
                let b = *r.pick(&[&[0x00u8, 0x00][..], &[0xf7, 0x01, 0x00], &[0x30, 0xff, 0xff, 0xff, 0xff, 0x01], &[0x40, 0x01, 0x00]]);
                c.send(sid, b);
                l.garbage = true;
                self.garbage += 1;
                g.shut.insert(sid);
                g.dead.insert(sid);
                obs.count("streams broken by the broker");
            }
            _ => return Ok(String::new()),
        }
        Ok(format!("broker {sid} {l:?}"))
    }

    /// After everything under way arrived.
    fn check(&mut self, g: &mut Rig, r: &mut Rng, obs: &mut Obs) -> Verdict {
        let mut bad = String::new();
        for k in 0..4000 {
            if k % 20 == 0 {
                bad = self.missing(g);
                if bad.is_empty() && k >= 100 {
                    break;
                }
            }
            g.turn(r, 4000, obs)?;
            self.take(g, obs)?;
        }
        ensure!(bad.is_empty(), "end-missing", "{bad}\n{}", g.dump());
        ensure!(self.errors == self.garbage || self.m.values().any(|l| l.garbage && (l.sv_stop.is_some() || l.cl_stop.is_some() || l.sv_reset.is_some())), "garbage", "{} streams carried bytes that are no MQTT packet, {} errors were reported: {:?}", self.garbage, self.errors, self.m.iter().filter(|x| x.1.garbage).collect::<Vec<_>>());
        // acknowledgements that arrived were reported, once each
        let mut want: BTreeMap<u16, usize> = BTreeMap::new();
        let mut most: BTreeMap<u16, usize> = BTreeMap::new();
        for (s, p) in &g.acked_on {
            *most.entry(*p).or_default() += 1;
            if !g.dead.contains(s) {
                *want.entry(*p).or_default() += 1;
            }
        }
        let mut got: BTreeMap<u16, usize> = BTreeMap::new();
        for p in g.got_pubs.iter().map(|x| x.0).chain(g.got_subs.iter().map(|x| x.0)) {
            *got.entry(p).or_default() += 1;
        }
        for (p, n) in &want {
            ensure!(got.get(p).is_some_and(|k| k >= n), "completions", "exchange {p} was acknowledged {n} times on streams that carried on, reported {:?} times", got.get(p));
        }
        for (p, n) in &got {
            ensure!(most.get(p).is_some_and(|k| k >= n), "completions", "exchange {p} was reported {n} times, acknowledged {:?} times", most.get(p));
        }
        let bound = g.obs.keys().chain(g.cmds.keys()).filter(|k| **k != 0 && **k < u64::MAX - 1).collect::<std::collections::BTreeSet<_>>().iter().filter(|k| self.m.get(k).is_none_or(|l| l.stops + l.resets == 0 && !(l.closed_local == 1 && l.closed_peer == 1))).count();
        ensure!(g.net.cl.data_stream_count() <= bound, "stream-count", "{} data streams counted as active, {} are: {:?}", g.net.cl.data_stream_count(), bound, self.m);
        Ok(())
    }

    fn missing(&mut self, g: &mut Rig) -> String {
        for (sid, l) in &self.m {
            let s = g.net.srv().and_then(|c| c.stream(*sid).map(|s| (s.rx_fin, s.rx_reset, s.stopped)));
            let ended = l.stops + l.resets;
            if l.cl_fin && l.cl_reset.is_none() && l.sv_stop.is_none() && l.sv_reset.is_none() && l.closed_local != 1 {
                return format!("stream {sid} was finished: completion reported {} times; {l:?}", l.closed_local);
            }
            if l.sv_fin && l.sv_stop.is_none() && l.sv_reset.is_none() && l.cl_stop.is_none() && !l.garbage && l.closed_peer != 1 {
                return format!("the broker finished stream {sid}: reported {} times; {l:?}", l.closed_peer);
            }
            let own = l.cl_fin || l.cl_reset.is_some() || l.cl_stop.is_some() || l.garbage;
            if (l.sv_reset.is_some() || l.sv_stop.is_some()) && !own && ended == 0 {
                return format!("the broker reset or stopped stream {sid}: never reported; {l:?}");
            }
            if l.sv_reset.is_some() && l.sv_stop.is_none() && l.cl_stop.is_none() && !l.garbage && l.resets != 1 {
                return format!("the broker reset stream {sid}: reported {} times; {l:?}", l.resets);
            }
            if l.sv_stop.is_none() && ended == 0 {
                // what the application did arrives at the broker
                if l.cl_fin && l.cl_reset.is_none() && s.is_none_or(|s| !s.0) {
                    return format!("stream {sid} was finished, the broker sees {s:?}; {l:?}");
                }
                if l.cl_reset.is_some() && !l.cl_fin && s.is_none_or(|s| s.1 != l.cl_reset) {
                    return format!("stream {sid} was reset, the broker sees {s:?}; {l:?}");
                }
                if l.cl_stop.is_some() && !l.sv_fin && !l.garbage && l.sv_reset.is_none() && s.is_none_or(|s| s.2 != l.cl_stop) {
                    return format!("stream {sid} was stopped, the broker sees {s:?}; {l:?}");
                }
            }
        }
        String::new()
    }
}

fn traffic(g: &mut Rig, lives: &mut Lives, r: &mut Rng, obs: &mut Obs, log: &mut Vec<String>, steps: usize, ops: bool) -> Verdict {
    for _ in 0..steps {
        match r.below(14) {
            0 => {
                if let Ok(h) = g.net.cl.open_data_stream() {
                    ensure!(!g.cmds.contains_key(&h), "open", "stream handle {h} given out twice");
                    g.cmds.insert(h, vec![]);
                    obs.count("streams opened");
                } else {
                    obs.count("streams not opened");
                }
            }
            1..=5 => {
                let mut v: Vec<Option<u64>> = vec![None, None];
                v.extend(g.cmds.keys().filter(|k| **k < u64::MAX - 1).map(|k| Some(*k)));
                let s = *r.pick(&v);
                for _ in 0..r.range(1, 4) {
                    let took = g.command(r, s, obs)?;
                    if let Some(h) = s {
                        let l = lives.m.entry(h).or_default();
                        ensure!(!(took && l.refused), "after-end", "a command was taken on stream {h}: {l:?}");
                    }
                }
            }
            6 => {
                if let Some(c) = g.net.srv() {
                    if c.lost.is_none() {
                        if let Some(id) = c.open() {
                            g.obs.entry(id).or_default();
                            g.broker_publish(r, id);
                            obs.count("streams opened by the broker");
                        }
                    }
                }
            }
            7..=9 => {
                let v: Vec<u64> = g.obs.keys().copied().filter(|k| *k != 0 && !g.shut.contains(k) && !g.dead.contains(k)).collect();
                if !v.is_empty() {
                    for _ in 0..r.range(1, 5) {
                        let s = *r.pick(&v);
                        g.broker_publish(r, s);
                    }
                }
            }
            10 if ops => {
                let s = lives.op(g, r, obs)?;
                if !s.is_empty() {
                    log.push(s);
                }
            }
            11 if r.chance(1, 6) => {
                // the client's address changes
                let p = g.net.caddr.port();
                g.net.caddr.set_port(if p == 65000 { 40000 } else { p + 1 });
                if r.bool() {
                    ensure!(g.net.cl.notify_local_address_changed().is_ok(), "migration", "refused");
                }
                obs.count("changes of address");
            }
            _ => {}
        }
        // streams of the broker become known with their first message
        let known: Vec<u64> = g.obs.iter().filter(|(k, o)| **k % 4 == 1 && o.got_msgs > 0 && !g.cmds.contains_key(k)).map(|(k, _)| *k).collect();
        for k in known {
            g.cmds.insert(k, vec![]);
        }
        g.broker_flush(r, false);
        let dt = *r.pick(&[0, 500, 2000, 10_000]);
        g.turn(r, dt, obs)?;
        lives.take(g, obs)?;
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    PeerClose,
    Blackhole,
    Restart,
    CtrlFin,
    CtrlReset,
    CtrlStop,
    Close,
    DisconnectAndClose,
    Silent,
    OwnCtrlFin,
    OwnCtrlReset,
    Replaced,
}

/// The connection ends; what is reported of it.
fn end(g: &mut Rig, e: End, quiet: bool, r: &mut Rng, obs: &mut Obs) -> Verdict {
    g.net.clean_path();
    let code = *r.pick(&[0u64, 1, 500, (1 << 62) - 1]);
    let reason = format!("r{}", r.below(100)).into_bytes();
    let now = g.net.now;
    let mut reported = true;
    let mut secs = 5;
    let local = matches!(e, End::Close | End::DisconnectAndClose | End::Silent | End::Replaced | End::OwnCtrlFin | End::OwnCtrlReset);
    match e {
        End::PeerClose => {
            let c = g.net.srv().unwrap();
            c.conn.close(now, quinn_proto::VarInt::from_u64(code).unwrap(), reason.clone().into());
        }
        End::Blackhole => {
            g.net.blackhole_to_c = r.bool();
            g.net.blackhole_to_s = !g.net.blackhole_to_c || r.bool();
            // the broker gives up 120 s after it last heard of the client, which may send until 120 s
            // after that, and gives up 120 s later still
            secs = 420;
        }
        End::Restart => {
            let sc = g.net.cfg.quic_server(server_tls(true));
            g.net.new_server(sc);
            let floor = g.net.accepted;
            g.net.floor = floor;
            // something to send
            for _ in 0..5 {
                g.command(r, None, obs)?;
            }
            secs = 20;
        }
        End::CtrlFin => g.net.srv().unwrap().stream(0).unwrap().want_fin = true,
        End::CtrlReset => g.net.srv().unwrap().reset(0, code),
        End::CtrlStop => g.net.srv().unwrap().stop(0, code),
        End::Close => ensure!(g.net.cl.close(code, &reason).is_ok(), "close", "refused"),
        End::DisconnectAndClose => ensure!(g.net.cl.disconnect_and_close(code, &reason).is_ok(), "close", "refused"),
        End::Silent => g.net.cl.close_silent(),
        End::OwnCtrlFin => ensure!(g.net.cl.finish_stream(0).is_ok(), "close", "refused"),
        End::OwnCtrlReset => ensure!(g.net.cl.reset_stream(0, code).is_ok(), "close", "refused"),
        End::Replaced => return Ok(()),
    }
    if local {
        reported = false;
        if e != End::DisconnectAndClose {
            ensure!(!g.net.cl.is_connected(), "still-connected", "{e:?}, but the engine is connected");
        }
    }
    let late = g.net.now + Duration::from_secs(secs);
    let large = g.net.large;
    let mut seen: Vec<MqttEvent> = vec![];
    let mut settled = 0;
    while g.net.now < late && settled < 100 {
        let dt = if secs > 100 { 50_000 } else { 5_000 };
        g.net.step(Duration::from_micros(dt));
        if !matches!(e, End::Restart | End::Blackhole) {
            g.observe(r, obs)?;
        }
        seen.extend(std::mem::take(&mut g.net.evs));
        if !g.net.cl.is_connected() {
            settled += 1;
        }
    }
    g.net.clean_path();
    for x in &seen {
        // exchanges completed on the way
        let pid = match x {
            MqttEvent::Published(p) => p.packet_id,
            MqttEvent::Subscribed(p) => Some(p.packet_id),
            MqttEvent::Unsubscribed(p) => Some(p.packet_id),
            _ => None,
        };
        if let Some(p) = pid {
            g.mine.remove(&p);
        }
    }
    if e == End::Restart && g.net.large == large {
        obs.count("restarts the client could not notice");
        return Ok(());
    }
    ensure!(!g.net.cl.is_connected(), "still-connected", "{e:?}: still connected after {secs} s");
    // pull apart what the run had under way and what ended it
    let ours = |x: &MqttEvent| {
        matches!(
            x,
            MqttEvent::TransportClosed { .. } | MqttEvent::Disconnected(_) | MqttEvent::StreamClosed { stream_id: 0, .. } | MqttEvent::StreamReset { stream_id: 0, .. } | MqttEvent::StreamStopped { stream_id: 0, .. }
        )
    };
    let ends: Vec<&MqttEvent> = seen.iter().filter(|x| ours(x)).collect();
    let lost = ends.iter().filter(|x| matches!(x, MqttEvent::Disconnected(None))).count();
    let closed: Vec<_> = ends.iter().filter_map(|x| if let MqttEvent::TransportClosed { by_peer, error_code, reason } = x { Some((*by_peer, *error_code, reason.clone())) } else { None }).collect();
    if reported {
        ensure!(lost == 1, "lost-reported", "{e:?}: the loss was reported {lost} times: {ends:?}");
    }
    let want: &[(bool, Option<u64>)] = match e {
        End::PeerClose => &[(true, Some(code))],
        End::Blackhole => &[(false, None)],
        End::Restart => &[(true, None)],
        _ => &[],
    };
    let got: Vec<(bool, Option<u64>)> = closed.iter().map(|x| (x.0, x.1)).collect();
    ensure!(got == want, "lost-reported", "{e:?} (code {code}): reported {closed:?}");
    if e == End::PeerClose {
        ensure!(closed[0].2.contains(std::str::from_utf8(&reason).unwrap()), "lost-reported", "the reason {reason:?} is not in {closed:?}");
    }
    let ctrl: Vec<&&MqttEvent> = ends.iter().filter(|x| !matches!(x, MqttEvent::TransportClosed { .. } | MqttEvent::Disconnected(_))).collect();
    let ok = match (e, ctrl.as_slice()) {
        (End::CtrlFin, [MqttEvent::StreamClosed { by_peer: true, .. }]) => true,
        (End::CtrlReset, [MqttEvent::StreamReset { error_code, .. }]) => *error_code == code,
        (End::CtrlStop, [MqttEvent::StreamStopped { error_code, .. }]) => *error_code == code,
        (End::CtrlFin | End::CtrlReset | End::CtrlStop, _) => false,
        (End::OwnCtrlFin, [MqttEvent::StreamClosed { by_peer: false, .. }]) => true,
        (_, x) => x.is_empty(),
    };
    ensure!(ok, "lost-reported", "{e:?} (code {code}): reported of the control stream {ctrl:?}");
    // the broker's view of what the application did
    let c = g.net.conns.values().chain(g.net.done.iter()).filter(|c| c.idx >= g.net.floor).last();
    match e {
        End::Close | End::DisconnectAndClose => {
            let c = c.unwrap();
            // quinn-proto sends no CONNECTION_CLOSE while its congestion window is used up
            let held = !quiet && c.app_close.is_none();
            if held {
                obs.count("closes held by the congestion window");
            }
            ensure!(held || c.app_close == Some((code, reason.clone())), "close-code", "{e:?} with code {code} and {reason:?}: the broker saw {:?}, {:?}", c.app_close, c.lost);
        }
        End::OwnCtrlFin => {
            let s = &c.unwrap().streams[&0];
            ensure!(s.rx_fin && s.rx_reset.is_none(), "own-end", "the control stream was finished, the broker saw fin {} reset {:?}", s.rx_fin, s.rx_reset);
        }
        End::OwnCtrlReset => {
            let s = &c.unwrap().streams[&0];
            ensure!(s.rx_reset == Some(code), "own-end", "the control stream was reset with {code}, the broker saw fin {} reset {:?}", s.rx_fin, s.rx_reset);
        }
        _ => {}
    }
    // over is over
    g.net.evs.clear();
    let n = g.cmds.values().map(|v| v.len()).sum::<usize>();
    if !local || r.bool() {
        for _ in 0..3 {
            let took = g.command(r, None, obs)?;
            ensure!(!took, "after-end", "a command was taken after {e:?}");
        }
    }
    let _ = n;
    for _ in 0..40 {
        g.net.step(Duration::from_millis(25));
    }
    let more: Vec<MqttEvent> = g.net.evs.drain(..).filter(|x| ours(x) || matches!(x, MqttEvent::Connected(_))).collect();
    ensure!(more.is_empty(), "reported-twice", "after {e:?} was reported: {more:?}");
    Ok(())
}

pub fn c26_case(r: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut cfg = QCfg::random(r);
    cfg.rm = 65535;
    let mut ncfg = NetCfg::random(r);
    if r.bool() {
        ncfg.stream_window = ncfg.stream_window.max(2000);
        ncfg.conn_window = ncfg.conn_window.max(5000);
    }
    let mut g = Rig::new(cfg, ncfg.clone(), r);
    let (a, now) = (g.net.addr, g.net.now);
    let err = |e| Violation { sig: "connect".into(), detail: format!("{e:?}") };
    g.net.cl.connect(a, "localhost", client_tls(), now).map_err(err)?;
    let gens = r.range(1, 4);
    let mut log = vec![];
    for gen in 0..gens {
        wait_connected(&mut g, r, obs)?;
        let mut lives = Lives::new();
        let steps = r.range(20, 80);
        traffic(&mut g, &mut lives, r, obs, &mut log, steps, true)?;
        g.net.cfg.loss = g.net.cfg.loss.min(50);
        let settled = g.settle_with(r, obs, 120, |g, obs| lives.take(g, obs));
        if let Err(mut v) = settled {
            v.detail += &format!("\n{:?}", lives.m);
            return Err(v);
        }
        lives.check(&mut g, r, obs)?;
        if gen > 0 {
            resumed(&mut g, obs)?;
        }
        g.net.cfg = ncfg.clone();
        // some exchanges left open, then the end
        g.hold_replies = r.bool();
        let mut later = Lives::new();
        let k = r.below(8);
        let before = g.hold_replies;
        for _ in 0..k {
            g.command(r, None, obs)?;
            g.turn(r, 3000, obs)?;
            lives.take(&mut g, obs)?;
        }
        g.hold_replies = before;
        later.errors = 0;
        if !g.hold_replies {
            let settled = g.settle_with(r, obs, 120, |g, obs| lives.take(g, obs));
            settled?;
            // nothing left under way, so that a CONNECTION_CLOSE is not held back
            for _ in 0..60 {
                g.turn(r, 50_000, obs)?;
                lives.take(&mut g, obs)?;
            }
        } else {
            // acknowledgements the application owes are of no interest here
            g.manual_queue.clear();
        }
        let e = *r.pick(&[
            End::PeerClose,
            End::Blackhole,
            End::Restart,
            End::CtrlFin,
            End::CtrlReset,
            End::CtrlStop,
            End::Close,
            End::DisconnectAndClose,
            End::Silent,
            End::OwnCtrlFin,
            End::OwnCtrlReset,
            End::Replaced,
        ]);
        log.push(format!("end {e:?}"));
        obs.count(match e {
            End::PeerClose => "connections closed by the broker",
            End::Blackhole => "connections timed out",
            End::Restart => "connections reset by a restarted broker",
            End::CtrlFin | End::CtrlReset | End::CtrlStop => "control streams ended by the broker",
            End::OwnCtrlFin | End::OwnCtrlReset => "control streams ended by the application",
            _ => "connections ended by the application",
        });
        let quiet = !g.hold_replies;
        end(&mut g, e, quiet, r, obs)?;
        if gen + 1 == gens {
            break;
        }
        let keep = r.bool();
        let (evs, conns) = (std::mem::take(&mut g.net.evs), std::mem::take(&mut g.net.conns));
        let _ = evs;
        over_keep(&mut g, conns, keep);
        g.connack.session_present = r.bool();
        g.net.cfg = ncfg.clone();
        let now = g.net.now;
        if r.bool() {
            g.net.cl.reconnect(now).map_err(err)?;
        } else {
            g.net.cl.connect(a, "localhost", client_tls(), now).map_err(err)?;
        }
        ensure!(!g.net.cl.is_connected(), "still-connected", "connected before the new handshake");
        obs.count("reconnects");
    }
    obs.add("datagrams", g.net.dgrams);
    obs.add("datagrams lost", g.net.dropped);
    obs.case(hash64(format!("{:?}{:?}{log:?}", g.cfg, g.net.cfg).as_bytes()));
    if obs.sample.is_none() {
        obs.sample = Some(log.join("\n"));
    }
    Ok(())
}

/// The run's books are closed; the broker's old connections may live on and talk to a client that
/// has a new one.
fn over_keep(g: &mut Rig, conns: BTreeMap<usize, SConn>, keep: bool) {
    let order = g.net.by_order.clone();
    let (a, b) = g.net.in_flight();
    over(g);
    if keep {
        g.net.conns = conns;
        g.net.by_order = order;
        g.net.put_in_flight(a, b);
    }
    g.net.floor = g.net.accepted;
}

pub fn c26() {
    let mut run = Run::new("C26", "every case ends a connection; most end streams as well");
    for (k, n) in [
        ("ends reported: finished by the broker", 100),
        ("ends reported: finish completed", 100),
        ("ends reported: reset by the broker", 100),
        ("ends reported: stopped by the broker", 100),
        ("streams reset by the application", 100),
        ("streams stopped by the application", 100),
        ("streams broken by the broker", 30),
        ("changes of address", 50),
        ("connections closed by the broker", 50),
        ("connections timed out", 50),
        ("connections reset by a restarted broker", 50),
        ("control streams ended by the broker", 50),
        ("control streams ended by the application", 50),
        ("reconnects", 300),
        ("exchanges resumed", 100),
    ] {
        run.need(k, n);
    }
    run.assume("time is virtual for QUIC; the server side is quinn-proto with the ring provider");
    run.cases("lifecycle", run.scale(4_000, 300_000), run.scale(60, 600) as f64, |_, r, o| c26_case(r, o));
    run.finish()
}
