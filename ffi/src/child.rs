//! Batches of cases in a process of their own: an abort or a sanitizer report ends only that.
use kit::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::Mutex;

static NAMES: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);

fn name(s: &str) -> &'static str {
    let mut g = NAMES.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), l);
    l
}

/// One line to the parent, at once.
pub fn say(s: &str) {
    let mut b = s.replace('\n', " ").into_bytes();
    b.push(b'\n');
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(&b);
    let _ = o.flush();
}

/// In the child: runs case numbers from..from+n of the batch.
pub fn serve(what: &str, seed: u64, n: u64, f: impl Fn(&mut Rng, &mut Obs) -> Verdict) -> ! {
    let _ = what;
    static LAST: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = i.payload();
        let msg = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or_default();
        eprintln!("panicked at {loc}: {msg}");
        *LAST.lock().unwrap() = (loc, msg);
    }));
    for k in 0..n {
        say(&format!("case {k}"));
        let mut r = Rng::new(seed.wrapping_add(k.wrapping_mul(0x9E3779B97F4A7C15)));
        let mut o = Obs::default();
        let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r, &mut o))).map_err(|_| LAST.lock().unwrap().clone());
        for (k, n) in &o.counts {
            say(&format!("count {n} {k}"));
        }
        for h in &o.hashes {
            say(&format!("hash {h}"));
        }
        if let Some(s) = &o.sample {
            say(&format!("sample {s}"));
        }
        match v {
            Ok(Ok(())) => {}
            Ok(Err(v)) => say(&format!("bad {} :: {}", v.sig, v.detail)),
            Err((loc, msg)) => say(&format!("panic {loc} :: {msg}")),
        }
    }
    say("end");
    std::process::exit(0)
}

/// In the parent: one batch.
pub fn batch(what: &str, r: &mut Rng, n: u64, obs: &mut Obs) -> Verdict {
    let seed = r.u64();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["--child", what, &seed.to_string(), &n.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| panic!("no child: {e}"))
        .unwrap();
    let mut err = c.stderr.take().unwrap();
    let et = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let pid = c.id();
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let guard = std::thread::spawn(move || {
        if let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = rx.recv_timeout(std::time::Duration::from_secs(120)) {
            unsafe { libc::kill(pid as i32, libc::SIGABRT) };
        }
    });
    let mut lines: std::collections::VecDeque<String> = Default::default();
    let (mut k, mut ended, mut bad) = (0, false, Ok(()));
    for l in BufReader::new(c.stdout.take().unwrap()).lines() {
        let Ok(l) = l else { break };
        let (a, rest) = l.split_once(' ').unwrap_or((&l, ""));
        match a {
            "case" => {
                k = rest.parse().unwrap_or(0);
                lines.clear();
            }
            "count" => {
                let (n, k) = rest.split_once(' ').unwrap();
                obs.add(name(k), n.parse().unwrap());
            }
            "hash" => obs.case(rest.parse().unwrap()),
            "sample" => obs.sample = Some(rest.into()),
            "bad" if bad.is_ok() => {
                let (s, d) = rest.split_once(" :: ").unwrap_or((rest, ""));
                bad = fail(s, format!("{d}; program {k} of batch seed {seed}: {}", tail(&lines)));
            }
            "panic" if bad.is_ok() => {
                let (s, d) = rest.split_once(" :: ").unwrap_or((rest, ""));
                if panic_in_harness(s) {
                    panic!("in the child: {rest}");
                }
                bad = fail(format!("panic:{}", place(s)), format!("panicked at {s}: {d}; program {k} of batch seed {seed}: {}", tail(&lines)));
            }
            "end" => ended = true,
            _ => {
                lines.push_back(l);
                if lines.len() > 60 {
                    lines.pop_front();
                }
            }
        }
    }
    let st = c.wait().unwrap();
    let _ = tx.send(());
    let _ = guard.join();
    let err = et.join().unwrap();
    bad?;
    if ended && st.success() {
        return Ok(());
    }
    // how it died
    if let Some(l) = err.lines().find(|l| l.contains("ERROR: AddressSanitizer")) {
        let kind = l.split("AddressSanitizer: ").nth(1).unwrap_or("").split(' ').next().unwrap_or("").to_string();
        let frames: Vec<&str> = err.lines().filter(|l| l.trim_start().starts_with('#') && l.contains("flowsdk")).take(4).map(|l| l.trim()).collect();
        return fail(format!("asan:{kind}"), format!("{}; {}; program {k} of batch seed {seed}: {}", l, frames.join(" | "), tail(&lines)));
    }
    let what = err.lines().filter(|l| l.contains("panicked at")).last().unwrap_or("").to_string();
    if let Some(i) = err.find("panicked at") {
        let msg = short(&err[i..].replace('\n', " "), 300);
        let loc = err[i..].split("panicked at ").nth(1).unwrap_or("").split([' ', '\n']).next().unwrap_or("").trim_end_matches(':').to_string();
        if panic_in_harness(&loc) {
            panic!("in the child: {msg}");
        }
        return fail(format!("abort:{}", place(&loc)), format!("the process was ended ({st}) by a panic across the C interface: {msg}; program {k} of batch seed {seed}: {}", tail(&lines)));
    }
    fail("died", format!("{st}; {}; {what}; program {k} of batch seed {seed}: {}", short(&err, 400), tail(&lines)))
}

/// A location without line numbers.
fn place(s: &str) -> String {
    let f = s.split(':').next().unwrap_or(s);
    f.rsplit("/ws/").next().unwrap_or(f).to_string()
}

fn tail(l: &std::collections::VecDeque<String>) -> String {
    let v: Vec<&str> = l.iter().rev().take(25).rev().map(|s| s.as_str()).collect();
    short(&v.join("; "), 2500)
}
