//! The statistics themselves: counters, merging, percentiles and the tags of ring operations.
use crate::stats::*;
use crate::worker_common::*;
use kit::*;
use std::time::Duration;

fn sample(r: &mut Rng) -> Duration {
    match r.below(4) {
        0 => Duration::from_nanos(r.below(50) as u64),
        1 => Duration::from_micros(r.below(100_000) as u64),
        2 => Duration::from_millis(r.below(10_000) as u64),
        _ => Duration::from_nanos(r.u64() % 20_000_000_000),
    }
}

fn case(r: &mut Rng, obs: &mut Obs) -> Verdict {
    // merging
    let workers = r.below(6);
    let mut all = vec![];
    let mut per = vec![];
    for _ in 0..workers {
        let n = match r.below(5) {
            0 => 0,
            1 => 1,
            2 => r.below(10),
            _ => r.below(300),
        };
        let same = r.chance(1, 6);
        let one = sample(r);
        let v: Vec<Duration> = (0..n).map(|_| if same { one } else { sample(r) }).collect();
        all.extend(v.iter().copied());
        per.push(v);
    }
    let merged = merge_latency_samples(per);
    all.sort();
    ensure!(merged == all, "merge", "{} samples merged to {} or in another order", all.len(), merged.len());
    // percentiles: between the two samples around the exact rank
    for _ in 0..6 {
        let p = match r.below(4) {
            0 => *r.pick(&[0.0, 50.0, 95.0, 99.0, 99.9, 100.0]),
            1 => r.below(101) as f64,
            _ => r.below(100_001) as f64 / 1000.0,
        };
        let got = percentile(&all, p);
        if all.is_empty() {
            ensure!(got == Duration::ZERO, "percentile-of-nothing", "{got:?}");
            continue;
        }
        let rank = (all.len() - 1) as f64 * p / 100.0;
        let (lo, hi) = ((rank - 1e-9).floor().max(0.0) as usize, ((rank + 1e-9).ceil() as usize).min(all.len() - 1));
        ensure!(
            all[lo] <= got && got <= all[hi],
            "percentile",
            "P{p} of {} samples is {got:?}, the samples around that rank are {:?} and {:?}",
            all.len(),
            all[lo],
            all[hi]
        );
        obs.count("percentiles");
    }
    // counters
    let s = BenchStats::new();
    let mut want = [0u64; 8];
    let mut nomatch = 0;
    for _ in 0..r.below(40) {
        let k = r.below(8);
        let kind = [
            ErrorKind::Socket,
            ErrorKind::Connect,
            ErrorKind::Send,
            ErrorKind::Receive,
            ErrorKind::MqttConnect,
            ErrorKind::MqttPublish,
            ErrorKind::MqttClient,
            ErrorKind::MqttDisconnect,
        ][k];
        match r.below(3) {
            0 => {
                s.record_error(kind);
                want[k] += 1;
            }
            1 => {
                let n = r.below(4) as u64;
                s.record_errors(kind, n);
                want[k] += n;
            }
            _ => {
                let n = r.below(3) as u64;
                s.record_puback_no_match(n);
                nomatch += n;
            }
        }
        obs.count("counted");
    }
    let g = s.snapshot();
    let got = [
        g.socket_errors,
        g.connect_errors,
        g.send_errors,
        g.receive_errors,
        g.mqtt_connect_errors,
        g.mqtt_publish_errors,
        g.mqtt_client_errors,
        g.mqtt_disconnect_errors,
    ];
    ensure!(got == want, "counters", "recorded {want:?}, counted {got:?}");
    ensure!(g.errors == want.iter().sum::<u64>(), "error-total", "recorded {want:?}, in all {}", g.errors);
    ensure!(g.mqtt_errors == want[4..].iter().sum::<u64>(), "mqtt-total", "recorded {want:?}, MQTT {}", g.mqtt_errors);
    ensure!(g.puback_no_match == nomatch, "no-match", "recorded {nomatch}, counted {}", g.puback_no_match);
    ensure!(g.sent == 0 && g.acked == 0 && g.connected == 0 && g.done == 0, "other-counters", "an error moved another counter");
    // tags
    let key = match r.below(3) {
        0 => r.below(100),
        1 => r.below(1 << 20),
        _ => (r.u64() & 0xffff_ffff_ffff) as usize,
    };
    let op = *r.pick(&[OP_CONNECT, OP_SEND, OP_RECV]);
    let (k, o) = decode_user_data(encode_user_data(key, op));
    ensure!(k == key && o == op, "tag", "({key}, {op}) came back as ({k}, {o})");
    let (c, d, e) = (r.bool(), r.bool(), r.bool());
    let mut got: Vec<(usize, u64)> = pending_user_data(key, c, d, e).map(decode_user_data).collect();
    got.sort();
    let mut want: Vec<(usize, u64)> = [(c, OP_CONNECT), (d, OP_SEND), (e, OP_RECV)].iter().filter(|x| x.0).map(|x| (key, x.1)).collect();
    want.sort();
    ensure!(got == want, "pending", "pending operations {want:?} listed as {got:?}");
    obs.case(hash64(format!("{all:?}{want:?}{nomatch}").as_bytes()));
    Ok(())
}

pub fn phase(run: &mut Run) {
    run.cases("numbers", run.scale(20_000, 400_000), run.scale(6, 60) as f64, |_, r, obs| case(r, obs));
    run.need("percentiles", 1000);
    run.need("counted", 1000);
}
