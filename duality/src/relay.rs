//! C34: the proxy pair between clients and a broker, all over loopback sockets. The two proxies are the
//! real programs; the clients and the broker are scripted here and record every byte.
use kit::*;
use refmqtt::*;
use std::collections::{BTreeMap, HashMap};
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU16, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// How long anything owed may take.
const OWED: Duration = Duration::from_secs(25);

// ------------------------------------------------------------------ processes

static PORT: AtomicU16 = AtomicU16::new(0);

fn free_port() -> u16 {
    loop {
        let n = PORT.fetch_add(1, SeqCst);
        let p = 10_000 + ((std::process::id() as u64 * 7919 + n as u64 * 3) % 20_000) as u16;
        // both forms the proxies use
        if TcpListener::bind(("0.0.0.0", p)).is_ok() {
            return p;
        }
    }
}

struct Proc(Child);

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

fn launch(bin: &str, port: u16, to: SocketAddr) -> Option<Proc> {
    let exe = std::env::current_exe().unwrap().with_file_name(bin);
    let mut p = Proc(
        Command::new(&exe)
            .args([port.to_string(), to.to_string()])
            .env("RUST_LOG", "off")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("harness: cannot start {exe:?}: {e}")),
    );
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(20) {
        if p.0.try_wait().unwrap().is_some() {
            return None;
        }
        if TcpStream::connect(("127.0.0.1", port)).is_ok() {
            std::thread::sleep(Duration::from_millis(5));
            return if p.0.try_wait().unwrap().is_some() { None } else { Some(p) };
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    None
}

/// A proxy on a port of its own.
fn start(bin: &str, to: SocketAddr) -> (Proc, u16) {
    for _ in 0..20 {
        let port = free_port();
        if let Some(p) = launch(bin, port, to) {
            return (p, port);
        }
    }
    panic!("harness: {bin} does not start")
}

/// The same proxy again on the same port, after it ended.
fn restart(bin: &str, port: u16, to: SocketAddr) -> Proc {
    for _ in 0..100 {
        if let Some(p) = launch(bin, port, to) {
            return p;
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    panic!("harness: {bin} does not start again on {port}")
}

// ------------------------------------------------------------------ one end of a connection

#[derive(Default, Debug, Clone)]
struct Got {
    bytes: Vec<u8>,
    /// the stream ended in order
    eof: bool,
    /// the stream broke
    broken: bool,
}

/// One end of a connection: everything read is recorded by a thread of its own.
struct End {
    tcp: TcpStream,
    got: Arc<(Mutex<Got>, Condvar)>,
    /// reading is held back while set
    hold: Arc<AtomicBool>,
}

impl End {
    fn new(tcp: TcpStream, first: Vec<u8>, hold: bool) -> End {
        let got = Arc::new((Mutex::new(Got { bytes: first, ..Default::default() }), Condvar::new()));
        let hold = Arc::new(AtomicBool::new(hold));
        let (g, h, mut t) = (got.clone(), hold.clone(), tcp.try_clone().unwrap());
        t.set_read_timeout(None).unwrap();
        std::thread::spawn(move || {
            let mut b = vec![0u8; 65536];
            loop {
                while h.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(2));
                }
                let r = t.read(&mut b);
                let mut s = g.0.lock().unwrap();
                match r {
                    Ok(0) => s.eof = true,
                    Ok(n) => s.bytes.extend_from_slice(&b[..n]),
                    Err(e) if e.kind() == ErrorKind::Interrupted => continue,
                    Err(_) => s.broken = true,
                }
                g.1.notify_all();
                if s.eof || s.broken {
                    return;
                }
            }
        });
        End { tcp, got, hold }
    }
    /// Wait until `f` holds of what arrived; whether it did.
    fn wait(&self, d: Duration, f: impl Fn(&Got) -> bool) -> bool {
        let t = Instant::now();
        let mut g = self.got.0.lock().unwrap();
        loop {
            if f(&g) {
                return true;
            }
            if t.elapsed() >= d {
                return false;
            }
            g = self.got.1.wait_timeout(g, (d - t.elapsed().min(d)).min(Duration::from_millis(200))).unwrap().0;
        }
    }
    fn got(&self) -> Got {
        self.got.0.lock().unwrap().clone()
    }
    fn over(&self, d: Duration) -> bool {
        self.wait(d, |g| g.eof || g.broken)
    }
    fn len(&self) -> usize {
        self.got.0.lock().unwrap().bytes.len()
    }
    fn fin(&self) {
        let _ = self.tcp.shutdown(Shutdown::Write);
    }
    /// Break the connection with a reset, at once.
    fn reset(&self) {
        let a: libc::sockaddr = unsafe { std::mem::zeroed() }; // AF_UNSPEC: disconnect
        unsafe { libc::connect(self.tcp.as_raw_fd(), &a, std::mem::size_of_val(&a) as u32) };
    }
}

/// How bytes are cut up on their way out.
#[derive(Clone, Copy, Debug)]
enum Cut {
    Whole,
    Packets,
    Bytes,
    Random,
}

/// Write `frames` in pieces; false if the peer broke the connection.
fn send(tcp: &TcpStream, frames: &[Vec<u8>], cut: Cut, r: &mut Rng) -> bool {
    let mut t = tcp;
    let all: Vec<u8> = match cut {
        Cut::Packets => vec![],
        _ => frames.concat(),
    };
    match cut {
        Cut::Whole => t.write_all(&all).is_ok(),
        Cut::Packets => {
            for f in frames {
                if t.write_all(f).is_err() {
                    return false;
                }
                if r.chance(1, 8) {
                    std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
                }
            }
            true
        }
        Cut::Bytes | Cut::Random => {
            let mut i = 0;
            let slow = all.len().min(60);
            while i < all.len() {
                let n = match cut {
                    // one byte at a time at first, then on
                    Cut::Bytes if i < slow => 1,
                    Cut::Bytes => r.range(1, 400),
                    _ => *r.pick(&[1usize, 2, 3, 5, 7, 11, 20, 100, 1400, 16_384, 16_385]),
                }
                .min(all.len() - i);
                if t.write_all(&all[i..i + n]).is_err() {
                    return false;
                }
                i += n;
                if i < slow || r.chance(1, 10) {
                    std::thread::sleep(Duration::from_micros(r.below(800) as u64));
                }
            }
            true
        }
    }
}

// ------------------------------------------------------------------ the broker

/// The broker's listener: every connection is handed to the script of the client named in its CONNECT.
struct Broker {
    addr: SocketAddr,
    book: Arc<Mutex<HashMap<String, mpsc::Sender<End>>>>,
    stop: Arc<AtomicBool>,
    /// connections on which anything arrived
    spoke: Arc<AtomicU64>,
    strays: Arc<Mutex<Vec<String>>>,
}

fn name_of(p: &Pkt) -> String {
    p.conn.as_ref().and_then(|c| c.username.clone()).unwrap_or_default()
}

impl Broker {
    fn start() -> Broker {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let b = Broker {
            addr: l.local_addr().unwrap(),
            book: Default::default(),
            stop: Default::default(),
            spoke: Default::default(),
            strays: Default::default(),
        };
        b.serve(l);
        b
    }
    fn serve(&self, l: TcpListener) {
        let (book, stop, spoke, strays) = (self.book.clone(), self.stop.clone(), self.spoke.clone(), self.strays.clone());
        l.set_nonblocking(true).unwrap();
        std::thread::spawn(move || {
            while !stop.load(SeqCst) {
                let Ok((tcp, _)) = l.accept() else {
                    std::thread::sleep(Duration::from_millis(1));
                    continue;
                };
                let (book, spoke, strays) = (book.clone(), spoke.clone(), strays.clone());
                std::thread::spawn(move || {
                    tcp.set_nonblocking(false).unwrap();
                    let _ = tcp.set_nodelay(true);
                    let mut buf = vec![];
                    let mut b = [0u8; 4096];
                    let mut t = &tcp;
                    loop {
                        match t.read(&mut b) {
                            Ok(0) | Err(_) => {
                                if !buf.is_empty() {
                                    strays.lock().unwrap().push(hex(&buf));
                                }
                                return;
                            }
                            Ok(n) => {
                                if buf.is_empty() {
                                    spoke.fetch_add(1, SeqCst);
                                }
                                buf.extend_from_slice(&b[..n])
                            }
                        }
                        let hit = decode(&buf, true).or_else(|e| if e == Mal::Incomplete { Err(e) } else { decode(&buf, false) });
                        match hit {
                            Ok((p, _)) => {
                                let tx = book.lock().unwrap().remove(&name_of(&p));
                                match tx {
                                    Some(tx) => {
                                        let _ = tx.send(End::new(tcp, buf, false));
                                    }
                                    None => strays.lock().unwrap().push(hex(&buf)),
                                }
                                return;
                            }
                            Err(Mal::Incomplete) => {}
                            Err(_) => {
                                strays.lock().unwrap().push(hex(&buf));
                                return;
                            }
                        }
                    }
                });
            }
        });
    }
    fn expect(&self, name: &str) -> mpsc::Receiver<End> {
        let (tx, rx) = mpsc::channel();
        self.book.lock().unwrap().insert(name.into(), tx);
        rx
    }
}

impl Drop for Broker {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
    }
}

// ------------------------------------------------------------------ scripts

#[derive(Clone, Copy, Debug, PartialEq)]
enum Finish {
    /// the client says what it has and closes its sending side at once
    ClientSends,
    /// the client closes once it has everything
    ClientHasAll,
    ClientReset,
    /// the broker says what it has and closes its sending side at once
    BrokerSends,
    BrokerHasAll,
    BrokerReset,
    /// an undecodable packet after the others
    ClientMangles,
    BrokerMangles,
}

#[derive(Clone)]
struct Script {
    name: String,
    v5: bool,
    up: Vec<Pkt>,
    down: Vec<Pkt>,
    finish: Finish,
    cut_up: Cut,
    cut_down: Cut,
    /// CONNECT is answered before the client goes on
    waits: bool,
}

fn up_types(v5: bool) -> &'static [u8] {
    if v5 {
        &[PUBLISH, PUBLISH, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, UNSUBSCRIBE, PINGREQ, AUTH]
    } else {
        &[PUBLISH, PUBLISH, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, UNSUBSCRIBE, PINGREQ]
    }
}

fn down_types(v5: bool) -> &'static [u8] {
    if v5 {
        &[PUBLISH, PUBLISH, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, PINGRESP, AUTH]
    } else {
        &[PUBLISH, PUBLISH, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, PINGRESP]
    }
}

fn connect(r: &mut Rng, g: &Gen, v5: bool, name: &str, ids: &[String]) -> Pkt {
    let mut p = g.packet(r, v5, CONNECT);
    let c = p.conn.as_mut().unwrap();
    c.username = Some(name.into());
    if r.chance(3, 4) {
        c.client_id = r.pick(ids).clone();
    }
    p
}

fn script(r: &mut Rng, n: usize, ids: &[String], finish: Finish) -> Script {
    let v5 = r.bool();
    let g = Gen { small: *r.pick(&[6usize, 30, 200]), big_every: 80 };
    let name = format!("who-{n}-{:x}", r.u32());
    let mut up = vec![connect(r, &g, v5, &name, ids)];
    let mut down = vec![g.packet(r, v5, CONNACK)];
    let k = *r.pick(&[0usize, 1, 3, 10, 40]);
    for _ in 0..k {
        let ty = *r.pick(up_types(v5));
        up.push(g.packet(r, v5, ty));
    }
    let k = *r.pick(&[0usize, 1, 3, 10, 40]);
    for _ in 0..k {
        let ty = *r.pick(down_types(v5));
        down.push(g.packet(r, v5, ty));
    }
    match finish {
        Finish::ClientSends | Finish::ClientHasAll if r.bool() => up.push(g.packet(r, v5, DISCONNECT)),
        Finish::BrokerSends | Finish::BrokerHasAll if v5 && r.bool() => down.push(g.packet(r, v5, DISCONNECT)),
        _ => {}
    }
    let cuts = [Cut::Whole, Cut::Packets, Cut::Bytes, Cut::Random];
    Script { name, v5, up, down, finish, cut_up: *r.pick(&cuts), cut_down: *r.pick(&cuts), waits: r.bool() }
}

/// In every form the standard has for the packet (AUTH always with its reason code, as the library's tests pin).
fn frames(ps: &[Pkt]) -> Vec<Vec<u8>> {
    ps.iter().enumerate().map(|(i, p)| encode_form(p, if p.ty == AUTH { 1 } else { (i % 3) as u8 })).collect()
}

/// A packet no decoder can accept, of this version.
fn mangled(r: &mut Rng, v5: bool) -> Vec<u8> {
    match r.below(if v5 { 3 } else { 4 }) {
        // a remaining length that never ends
        0 => vec![0x30, 0xff, 0xff, 0xff, 0xff, 0x7f],
        // packet type 0
        1 => vec![0x00, 0x00],
        // a topic longer than its packet
        2 => vec![0x30, 0x03, 0x00, 0x09, b'a'],
        // type 15 exists in version 5 only
        _ => vec![0xf0, 0x00],
    }
}

/// `bytes` against the packets that were sent: all of them if `all`, else some first part of them.
fn same(what: &str, sc: &Script, sent: &[Pkt], bytes: &[u8], all: bool) -> Verdict {
    let (got, used) = match decode_all(bytes, sc.v5) {
        Ok(x) => x,
        Err((e, at)) => return fail(format!("{what}-malformed"), format!("{}: {e:?} at {at}: {}", sc.name, hex(&bytes[at..bytes.len().min(at + 200)]))),
    };
    for (i, (a, b)) in sent.iter().zip(&got).enumerate() {
        ensure!(a == b, format!("{what}-differs"), "{}: packet {i} of {} sent as {a:?} arrived as {b:?}", sc.name, sent.len());
    }
    ensure!(got.len() <= sent.len(), format!("{what}-extra"), "{}: {} packets sent, {} arrived; the first beyond: {:?}", sc.name, sent.len(), got.len(), got[sent.len()]);
    if all {
        ensure!(
            got.len() == sent.len() && used == bytes.len(),
            format!("{what}-lost"),
            "{}: {} packets sent, {} arrived ({} bytes over); the first lost: {}; {:?}",
            sc.name,
            sent.len(),
            got.len(),
            bytes.len() - used,
            sent.get(got.len()).map_or(String::new(), |p| short(&format!("{p:?}"), 400)),
            (sc.finish, sc.cut_up, sc.cut_down, sc.waits)
        );
    }
    Ok(())
}

#[derive(Default)]
struct Tally {
    up: u64,
    down: u64,
    sessions: BTreeMap<&'static str, u64>,
}

/// Play one script against the r-proxy at `port`; judge what both ends saw.
fn play(port: u16, broker: &Broker, sc: &Script, mut r: Rng, tally: &Mutex<Tally>) -> Verdict {
    let rx = broker.expect(&sc.name);
    let tcp = match TcpStream::connect(("127.0.0.1", port)) {
        Ok(t) => t,
        Err(e) => return fail("client-refused", format!("{}: {e}", sc.name)),
    };
    let _ = tcp.set_nodelay(true);
    let client = End::new(tcp, vec![], false);
    let (fu, fd) = (frames(&sc.up), frames(&sc.down));
    let (lu, ld) = (fu.concat().len(), fd.concat().len());
    let answered = sc.waits && sc.up.len() > 1;
    let mut ur = Rng::new(r.u64());
    let mut dr = Rng::new(r.u64());
    let mut bad = if sc.v5 { mangled(&mut r, true) } else { mangled(&mut r, false) };
    bad.extend(encode(&Pkt { topic: "after".into(), ..Pkt::new(sc.v5, PUBLISH) }));
    // the client's sending side
    let ct = client.tcp.try_clone().unwrap();
    let (sc2, bad2, ans) = (sc.clone(), bad.clone(), Arc::new(AtomicBool::new(false)));
    let ans2 = ans.clone();
    let sender = std::thread::spawn(move || {
        if answered {
            send(&ct, &fu[..1], sc2.cut_up, &mut ur);
            let t = Instant::now();
            while !ans2.load(SeqCst) && t.elapsed() < OWED {
                std::thread::sleep(Duration::from_millis(1));
            }
            send(&ct, &fu[1..], sc2.cut_up, &mut ur);
        } else {
            send(&ct, &fu, sc2.cut_up, &mut ur);
        }
        if sc2.finish == Finish::ClientMangles {
            let _ = (&ct).write_all(&bad2);
        }
        if sc2.finish == Finish::ClientSends {
            let _ = ct.shutdown(Shutdown::Write);
        }
    });
    let server = match rx.recv_timeout(OWED) {
        Ok(e) => e,
        Err(_) => {
            ans.store(true, SeqCst);
            let _ = client.tcp.shutdown(Shutdown::Both);
            let _ = sender.join();
            return fail("connect-lost", format!("{}: the broker never got the CONNECT; {:?}", sc.name, (sc.finish, sc.cut_up, sc.waits)));
        }
    };
    let st = server.tcp.try_clone().unwrap();
    let (sc2, bad2) = (sc.clone(), bad);
    let server_sender = std::thread::spawn(move || {
        send(&st, &fd[..1], sc2.cut_down, &mut dr);
        send(&st, &fd[1..], sc2.cut_down, &mut dr);
        if sc2.finish == Finish::BrokerMangles {
            let _ = (&st).write_all(&bad2);
        }
        if sc2.finish == Finish::BrokerSends {
            let _ = st.shutdown(Shutdown::Write);
        }
    });
    if answered {
        client.wait(OWED, |g| !g.bytes.is_empty() || g.eof || g.broken);
        ans.store(true, SeqCst);
    }
    let mut verdict = Ok(());
    let (mut all_up, mut all_down) = (true, true);
    let full = |e: &End, ps: &[Pkt], n: usize, d: Duration| {
        // the far side may choose a shorter or longer form of the same packets
        e.wait(d, |g| g.eof || g.broken || (g.bytes.len() >= n / 4 && !decode_all(&g.bytes, sc.v5).is_ok_and(|(x, _)| x.len() < ps.len())))
    };
    let mut problem = |sig: &str, d: String| {
        if verdict.is_ok() {
            verdict = fail(sig, format!("{}: {d}; {:?}", sc.name, (sc.finish, sc.cut_up, sc.cut_down, sc.waits)));
        }
    };
    let over = |e: &End, who: &str, problem: &mut dyn FnMut(&str, String)| {
        if !e.over(OWED) {
            problem("left-open", format!("the {who} still sees an open connection {} s after the other side ended it", OWED.as_secs()));
        }
    };
    match sc.finish {
        Finish::ClientSends => {
            all_down = false;
            let _ = sender.join();
            full(&server, &sc.up, lu, OWED);
            over(&server, "broker", &mut problem);
            server.fin();
            over(&client, "client", &mut problem);
        }
        Finish::BrokerSends => {
            all_up = false;
            let _ = server_sender.join();
            full(&client, &sc.down, ld, OWED);
            over(&client, "client", &mut problem);
            client.fin();
            over(&server, "broker", &mut problem);
            let _ = sender.join();
            return finish(sc, client, server, all_up, all_down, verdict, tally);
        }
        Finish::ClientHasAll | Finish::BrokerHasAll => {
            full(&server, &sc.up, lu, OWED);
            full(&client, &sc.down, ld, OWED);
            let _ = sender.join();
            if sc.finish == Finish::ClientHasAll {
                let _ = client.tcp.shutdown(Shutdown::Both);
                over(&server, "broker", &mut problem);
            } else {
                let _ = server.tcp.shutdown(Shutdown::Both);
                over(&client, "client", &mut problem);
            }
        }
        Finish::ClientReset => {
            (all_up, all_down) = (false, false);
            std::thread::sleep(Duration::from_micros(r.below(4000) as u64));
            client.reset();
            ans.store(true, SeqCst);
            let _ = sender.join();
            over(&server, "broker", &mut problem);
        }
        Finish::BrokerReset => {
            (all_up, all_down) = (false, false);
            std::thread::sleep(Duration::from_micros(r.below(4000) as u64));
            server.reset();
            over(&client, "client", &mut problem);
        }
        Finish::ClientMangles => {
            // everything before the bad packet is delivered, nothing after it
            all_down = false;
            let _ = sender.join();
            over(&server, "broker", &mut problem);
            server.fin();
            over(&client, "client", &mut problem);
        }
        Finish::BrokerMangles => {
            all_up = false;
            let _ = server_sender.join();
            over(&client, "client", &mut problem);
            client.fin();
            over(&server, "broker", &mut problem);
            let _ = sender.join();
            return finish(sc, client, server, all_up, all_down, verdict, tally);
        }
    }
    finish(sc, client, server, all_up, all_down, verdict, tally)
}

fn finish(sc: &Script, client: End, server: End, all_up: bool, all_down: bool, verdict: Verdict, tally: &Mutex<Tally>) -> Verdict {
    let (u, d) = (server.got(), client.got());
    let _ = client.tcp.shutdown(Shutdown::Both);
    let _ = server.tcp.shutdown(Shutdown::Both);
    // what arrived is judged first: it explains more than a connection left open
    same("to-broker", sc, &sc.up, &u.bytes, all_up)?;
    same("to-client", sc, &sc.down, &d.bytes, all_down)?;
    verdict?;
    let mut t = tally.lock().unwrap();
    t.up += decode_all(&u.bytes, sc.v5).map_or(0, |x| x.0.len() as u64);
    t.down += decode_all(&d.bytes, sc.v5).map_or(0, |x| x.0.len() as u64);
    let k = match sc.finish {
        Finish::ClientSends => "client_sent_and_closed",
        Finish::ClientHasAll => "client_closed",
        Finish::ClientReset => "client_reset",
        Finish::BrokerSends => "broker_sent_and_closed",
        Finish::BrokerHasAll => "broker_closed",
        Finish::BrokerReset => "broker_reset",
        Finish::ClientMangles => "client_malformed",
        Finish::BrokerMangles => "broker_malformed",
    };
    *t.sessions.entry(k).or_default() += 1;
    Ok(())
}

fn add(o: &mut Obs, t: &Mutex<Tally>) {
    let t = t.lock().unwrap();
    o.add("to_broker", t.up);
    o.add("to_client", t.down);
    for (k, n) in &t.sessions {
        o.add(k, *n);
    }
}

const FINISHES: [Finish; 8] = [
    Finish::ClientSends,
    Finish::ClientHasAll,
    Finish::ClientReset,
    Finish::BrokerSends,
    Finish::BrokerHasAll,
    Finish::BrokerReset,
    Finish::ClientMangles,
    Finish::BrokerMangles,
];

fn ids(r: &mut Rng) -> Vec<String> {
    let g = Gen { small: 10, big_every: 1_000_000 };
    let mut v = vec![String::new(), "same".into(), "y".repeat(40_000), "caf\u{e9} \u{4e2d}".into(), "tab\tnewline\n".into(), "x".repeat(300)];
    for _ in 0..r.below(4) {
        v.push(g.text(r));
    }
    v
}

struct Rig {
    broker: Broker,
    s: Proc,
    sport: u16,
    r: Proc,
    rport: u16,
}

impl Rig {
    fn new() -> Rig {
        let broker = Broker::start();
        let (s, sport) = start("s-proxy", broker.addr);
        let (r, rport) = start("r-proxy", SocketAddr::from(([127, 0, 0, 1], sport)));
        Rig { broker, s, sport, r, rport }
    }
    fn alive(&mut self) -> Verdict {
        for (n, p) in [("s-proxy", &mut self.s), ("r-proxy", &mut self.r)] {
            if let Ok(Some(s)) = p.0.try_wait() {
                return fail("proxy-died", format!("{n} ended with {s}"));
            }
        }
        let s = self.broker.strays.lock().unwrap();
        ensure!(s.is_empty(), "stray", "a connection to the broker that no client made: {}", short(&s[0], 400));
        Ok(())
    }
}

/// The first problem of the lot; the signature of a lost CONNECT is least telling, so it goes last.
fn worst(vs: Vec<Verdict>) -> Verdict {
    let mut bad: Vec<Violation> = vs.into_iter().filter_map(|v| v.err()).collect();
    bad.sort_by_key(|v| (v.sig == "connect-lost", v.sig == "left-open"));
    match bad.into_iter().next() {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ phases

fn mixed(i: u64, r: &mut Rng, o: &mut Obs) -> Verdict {
    let mut rig = Rig::new();
    let ids = ids(r);
    let tally = Mutex::new(Tally::default());
    let mut n = 0;
    for _ in 0..r.range(1, 3) {
        let k = *r.pick(&[1usize, 2, 5, 12]);
        let scripts: Vec<Script> = (0..k)
            .map(|_| {
                n += 1;
                let f = *r.pick(&FINISHES);
                script(r, n, &ids, f)
            })
            .collect();
        let vs = std::thread::scope(|s| {
            let hs: Vec<_> = scripts
                .iter()
                .map(|sc| {
                    let rr = Rng::new(r.u64());
                    let (b, t, p) = (&rig.broker, &tally, rig.rport);
                    s.spawn(move || play(p, b, sc, rr, t))
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        let mut key = vec![];
        for s in &scripts {
            key.extend(format!("{:?}{}{}", (s.finish, s.cut_up, s.cut_down, s.waits, s.v5), s.up.len(), s.down.len()).bytes());
        }
        worst(vs)?;
        o.case(hash64(&key));
    }
    if i == 0 {
        o.sample = Some(format!("{n} clients over one pair of proxies"));
    }
    rig.alive()?;
    add(o, &tally);
    Ok(())
}

/// A numbered PUBLISH.
fn numbered(v5: bool, n: usize, size: usize) -> Pkt {
    let mut payload = (n as u64).to_be_bytes().to_vec();
    payload.resize(size.max(8), (n % 251) as u8);
    Pkt { topic: format!("t/{}", n % 7), payload, ..Pkt::new(v5, PUBLISH) }
}

fn bulk(r: &mut Rng, n: usize, ids: &[String], up: usize, down: usize, size: usize) -> Script {
    let v5 = r.bool();
    let g = Gen { small: 10, big_every: 1_000_000 };
    let name = format!("bulk-{n}-{:x}", r.u32());
    let mut u = vec![connect(r, &g, v5, &name, ids)];
    u.extend((0..up).map(|i| numbered(v5, i, size)));
    let mut d = vec![Pkt::new(v5, CONNACK)];
    d.extend((0..down).map(|i| numbered(v5, i, size)));
    Script { name, v5, up: u, down: d, finish: Finish::ClientHasAll, cut_up: Cut::Whole, cut_down: Cut::Whole, waits: r.bool() }
}

/// Everything both ways at once, and packets of many megabytes.
fn flood(_: u64, r: &mut Rng, o: &mut Obs) -> Verdict {
    let mut rig = Rig::new();
    let ids = ids(r);
    let tally = Mutex::new(Tally::default());
    let k = r.range(1, 3);
    let scripts: Vec<Script> = (0..k)
        .map(|n| match r.below(4) {
            0 => {
                let size = *r.pick(&[4_194_290usize, 4_200_000, 9_000_000]);
                let (a, b) = (r.below(3), r.below(3));
                bulk(r, n, &ids, a, b, size)
            }
            1 => {
                let size = r.range(2_000, 20_000);
                bulk(r, n, &ids, 1500, 1500, size)
            }
            _ => {
                let (a, b) = (r.range(3_000, 9_000), r.range(3_000, 9_000));
                bulk(r, n, &ids, a, b, 200)
            }
        })
        .collect();
    let vs = std::thread::scope(|s| {
        let hs: Vec<_> = scripts
            .iter()
            .map(|sc| {
                let rr = Rng::new(r.u64());
                let (b, t, p) = (&rig.broker, &tally, rig.rport);
                s.spawn(move || play(p, b, sc, rr, t))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
    });
    worst(vs)?;
    rig.alive()?;
    o.case(hash64(format!("{:?}", scripts.iter().map(|s| (s.up.len(), s.down.len(), s.v5)).collect::<Vec<_>>()).as_bytes()));
    o.add("floods", k as u64);
    add(o, &tally);
    Ok(())
}

/// Clients that do not read, and brokers that do not read, next to ones that do.
fn stalled(_: u64, r: &mut Rng, o: &mut Obs) -> Verdict {
    let mut rig = Rig::new();
    let ids = ids(r);
    let tally = Mutex::new(Tally::default());
    let k = r.range(1, 6);
    let mut held = vec![];
    for n in 0..k {
        let up = r.bool();
        let size = 8_000;
        let count = 1500; // 12 MB: more than every buffer on the way
        let sc = bulk(r, n, &ids, if up { count } else { 0 }, if up { 0 } else { count }, size);
        let rx = rig.broker.expect(&sc.name);
        let Ok(tcp) = TcpStream::connect(("127.0.0.1", rig.rport)) else { return fail("client-refused", "while others are stalled") };
        let client = End::new(tcp, vec![], !up);
        let fu = frames(&sc.up);
        let _ = (&client.tcp).write_all(&fu[0]);
        let Ok(server) = rx.recv_timeout(OWED) else { return fail("connect-lost", format!("{}: while {n} others are stalled", sc.name)) };
        server.hold.store(up, SeqCst);
        let (ct, st, fd) = (client.tcp.try_clone().unwrap(), server.tcp.try_clone().unwrap(), frames(&sc.down));
        let h = std::thread::spawn(move || {
            let a = std::thread::spawn(move || (&ct).write_all(&fu[1..].concat()).is_ok());
            let _ = (&st).write_all(&fd.concat());
            let _ = a.join();
        });
        held.push((sc, client, server, h, up));
    }
    // let them fill everything up
    std::thread::sleep(Duration::from_millis(r.range(300, 700) as u64));
    let others: Vec<Script> = (0..r.range(1, 4)).map(|n| script(r, 100 + n, &ids, Finish::ClientHasAll)).collect();
    let t = Instant::now();
    let vs = std::thread::scope(|s| {
        let hs: Vec<_> = others
            .iter()
            .map(|sc| {
                let rr = Rng::new(r.u64());
                let (b, t, p) = (&rig.broker, &tally, rig.rport);
                s.spawn(move || play(p, b, sc, rr, t))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
    });
    if let Err(v) = worst(vs) {
        return fail(format!("next-to-stalled-{}", v.sig), format!("with {k} stalled clients, after {:?}: {}", t.elapsed(), v.detail));
    }
    // were they in fact held back?
    for (sc, c, s, _, up) in &held {
        let all = if *up { sc.up.len() } else { sc.down.len() } * 8_000;
        if (if *up { s.len() } else { c.len() }) < all {
            o.count("held_back");
        }
    }
    for (_, c, s, _, up) in &held {
        if *up { s } else { c }.hold.store(false, SeqCst);
    }
    for (sc, c, s, h, up) in held {
        let (lu, ld) = (frames(&sc.up).concat().len(), frames(&sc.down).concat().len());
        s.wait(OWED, |g| g.bytes.len() >= lu || g.eof || g.broken);
        c.wait(OWED, |g| g.bytes.len() >= ld || g.eof || g.broken);
        let (u, d) = (s.got(), c.got());
        let what = if up { "stalled-broker" } else { "stalled-client" };
        let sent = same("to-broker", &sc, &sc.up, &u.bytes, true).and_then(|_| same("to-client", &sc, &sc.down, &d.bytes, true));
        let _ = c.tcp.shutdown(Shutdown::Both);
        let _ = s.tcp.shutdown(Shutdown::Both);
        let _ = h.join();
        if let Err(v) = sent {
            return fail(format!("{what}-{}", v.sig), v.detail);
        }
        o.add("to_broker", sc.up.len() as u64);
        o.add("to_client", sc.down.len() as u64);
    }
    rig.alive()?;
    o.case(r.u64());
    o.add("stalls", k as u64);
    add(o, &tally);
    Ok(())
}

/// What was sent before the end arrives, however long the other side makes it wait.
fn patient(_: u64, r: &mut Rng, o: &mut Obs) -> Verdict {
    let mut rig = Rig::new();
    let ids = ids(r);
    let mut held = vec![];
    for n in 0..r.range(2, 5) {
        let up = r.bool() || n == 0;
        let (size, count) = (8_000, r.range(100, 900));
        let sc = bulk(r, n, &ids, if up { count } else { 0 }, if up { 0 } else { count }, size);
        let rx = rig.broker.expect(&sc.name);
        let Ok(tcp) = TcpStream::connect(("127.0.0.1", rig.rport)) else { return fail("client-refused", "patient") };
        let client = End::new(tcp, vec![], !up);
        let fu = frames(&sc.up);
        let _ = (&client.tcp).write_all(&fu[0]);
        let Ok(server) = rx.recv_timeout(OWED) else { return fail("connect-lost", sc.name.clone()) };
        server.hold.store(up, SeqCst);
        let (ct, st, fd) = (client.tcp.try_clone().unwrap(), server.tcp.try_clone().unwrap(), frames(&sc.down));
        let h = std::thread::spawn(move || {
            if up {
                let _ = (&ct).write_all(&fu[1..].concat());
                let _ = ct.shutdown(Shutdown::Write);
            } else {
                let _ = (&st).write_all(&fd.concat());
                let _ = st.shutdown(Shutdown::Write);
            }
        });
        held.push((sc, client, server, h, up));
    }
    std::thread::sleep(Duration::from_millis(r.range(6_500, 9_000) as u64));
    for (_, c, s, _, up) in &held {
        if *up { s } else { c }.hold.store(false, SeqCst);
    }
    for (sc, c, s, h, up) in held {
        let (lu, ld) = (frames(&sc.up).concat().len(), frames(&sc.down).concat().len());
        let what = if up {
            s.wait(OWED, |g| g.bytes.len() >= lu || g.eof || g.broken);
            same("to-broker", &sc, &sc.up, &s.got().bytes, true)
        } else {
            c.wait(OWED, |g| g.bytes.len() >= ld || g.eof || g.broken);
            same("to-client", &sc, &sc.down, &c.got().bytes, true)
        };
        let _ = c.tcp.shutdown(Shutdown::Both);
        let _ = s.tcp.shutdown(Shutdown::Both);
        let _ = h.join();
        if let Err(v) = what {
            return fail(format!("late-reader-{}", v.sig), v.detail);
        }
        o.add("to_broker", sc.up.len() as u64);
        o.add("to_client", sc.down.len() as u64);
        o.count("late_readers");
    }
    rig.alive()?;
    o.case(r.u64());
    Ok(())
}

/// A session that is up: both ends, with CONNECT and CONNACK through.
fn up(rig: &Rig, r: &mut Rng, n: usize, ids: &[String]) -> Result<(Script, End, End), Violation> {
    let v5 = r.bool();
    let g = Gen { small: 10, big_every: 1_000_000 };
    let name = format!("up-{n}-{:x}", r.u32());
    let sc = Script {
        up: vec![connect(r, &g, v5, &name, ids)],
        down: vec![Pkt::new(v5, CONNACK)],
        name,
        v5,
        finish: Finish::ClientHasAll,
        cut_up: Cut::Whole,
        cut_down: Cut::Whole,
        waits: false,
    };
    let rx = rig.broker.expect(&sc.name);
    let tcp = TcpStream::connect(("127.0.0.1", rig.rport)).map_err(|e| Violation { sig: "client-refused".into(), detail: e.to_string() })?;
    let client = End::new(tcp, vec![], false);
    let _ = (&client.tcp).write_all(&encode(&sc.up[0]));
    let Ok(server) = rx.recv_timeout(OWED) else { return fail("connect-lost", format!("{}: the broker never got {:?}", sc.name, sc.up[0])) };
    let _ = (&server.tcp).write_all(&encode(&sc.down[0]));
    if !client.wait(OWED, |g| g.bytes.len() >= 4 || g.eof || g.broken) {
        return fail("to-client-lost", format!("{}: the CONNACK never came", sc.name));
    }
    same("to-broker", &sc, &sc.up, &server.got().bytes, true)?;
    same("to-client", &sc, &sc.down, &client.got().bytes, true)?;
    Ok((sc, client, server))
}

/// Proxies that die and come back, a broker that is not there.
fn faults(_: u64, r: &mut Rng, o: &mut Obs) -> Verdict {
    let mut rig = Rig::new();
    let ids = ids(r);
    let tally = Mutex::new(Tally::default());
    let k = r.range(1, 5);
    let mut ses = vec![];
    for n in 0..k {
        ses.push(up(&rig, r, n, &ids)?);
    }
    let kind = r.below(5);
    let what = match kind {
        0 => {
            // the s-proxy dies: both ends of every session see it
            let _ = rig.s.0.kill();
            let _ = rig.s.0.wait();
            "s-proxy killed"
        }
        1 => {
            let _ = rig.r.0.kill();
            let _ = rig.r.0.wait();
            "r-proxy killed"
        }
        2 => {
            // a termination signal
            unsafe { libc::kill(rig.r.0.id() as i32, libc::SIGTERM) };
            let t = Instant::now();
            while rig.r.0.try_wait().unwrap().is_none() {
                if t.elapsed() > OWED {
                    return fail("r-proxy-stays", format!("r-proxy still runs {:?} after SIGTERM", t.elapsed()));
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            "r-proxy terminated"
        }
        3 => {
            // the broker goes away
            for (_, _, s) in &ses {
                let _ = s.tcp.shutdown(Shutdown::Both);
            }
            "broker gone"
        }
        _ => {
            for (_, c, _) in &ses {
                let _ = c.tcp.shutdown(Shutdown::Both);
            }
            "clients gone"
        }
    };
    for (sc, c, s) in &ses {
        ensure!(kind == 4 || c.over(OWED), "left-open", "{what}: client {} still sees an open connection after {} s", sc.name, OWED.as_secs());
        ensure!(kind == 3 || s.over(OWED), "left-open", "{what}: the broker still sees client {} after {} s", sc.name, OWED.as_secs());
        same("to-broker", sc, &sc.up, &s.got().bytes, true)?;
        same("to-client", sc, &sc.down, &c.got().bytes, true)?;
    }
    drop(ses);
    o.count(match kind {
        0 => "s_proxy_killed",
        1 => "r_proxy_killed",
        2 => "r_proxy_terminated",
        3 => "broker_gone",
        _ => "clients_gone",
    });
    if kind == 0 && r.bool() {
        // with no s-proxy a client is let go
        let tcp = TcpStream::connect(("127.0.0.1", rig.rport)).map_err(|e| Violation { sig: "client-refused".into(), detail: e.to_string() })?;
        let c = End::new(tcp, vec![], false);
        let _ = (&c.tcp).write_all(&encode(&connect(r, &Gen::default(), true, "nobody", &ids)));
        ensure!(c.over(OWED), "left-open", "no s-proxy: a client still sees an open connection after {} s", OWED.as_secs());
        o.count("no_s_proxy");
    }
    match kind {
        0 => rig.s = restart("s-proxy", rig.sport, rig.broker.addr),
        1 | 2 => rig.r = restart("r-proxy", rig.rport, SocketAddr::from(([127, 0, 0, 1], rig.sport))),
        _ => {}
    }
    // as good as new
    let scripts: Vec<Script> = (0..r.range(1, 4)).map(|n| script(r, 50 + n, &ids, *[Finish::ClientHasAll, Finish::BrokerHasAll, Finish::ClientSends].get(n % 3).unwrap())).collect();
    let vs: Vec<Verdict> = std::thread::scope(|s| {
        let hs: Vec<_> = scripts
            .iter()
            .map(|sc| {
                let rr = Rng::new(r.u64());
                let (b, t, p) = (&rig.broker, &tally, rig.rport);
                s.spawn(move || play(p, b, sc, rr, t))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if let Err(v) = worst(vs) {
        return fail(format!("afterwards-{}", v.sig), format!("after {what}: {}", v.detail));
    }
    // first packets that are no CONNECT, from a client next to a live one
    let (sc, c, s) = up(&rig, r, 90, &ids)?;
    let before = rig.broker.spoke.load(SeqCst);
    let first: Vec<u8> = match r.below(4) {
        0 => encode(&Pkt { topic: "t".into(), payload: vec![1; 20], ..Pkt::new(true, PUBLISH) }),
        1 => b"GET / HTTP/1.1\r\nHost: x\r\n\r\n".to_vec(),
        2 => vec![0x10, 0x0c, 0, 4, b'M', b'Q', b'T', b'T', 0, 2, 0, 60, 0, 0],
        _ => vec![0x10, 0xff, 0xff, 0xff, 0xff, 0x7f, 0, 0, 0, 0, 0, 0, 0],
    };
    let tcp = TcpStream::connect(("127.0.0.1", rig.rport)).map_err(|e| Violation { sig: "client-refused".into(), detail: e.to_string() })?;
    let b = End::new(tcp, vec![], false);
    let _ = (&b.tcp).write_all(&first);
    ensure!(b.over(OWED), "left-open", "a client that began with {} still sees an open connection after {} s", hex(&first), OWED.as_secs());
    ensure!(rig.broker.spoke.load(SeqCst) == before, "stray", "the broker heard of a client that began with {}", hex(&first));
    o.count("no_connect");
    let more: Vec<Pkt> = (0..20).map(|i| numbered(sc.v5, i, 50)).collect();
    let n = s.len();
    let _ = (&c.tcp).write_all(&frames(&more).concat());
    s.wait(OWED, |g| decode_all(&g.bytes[n..], sc.v5).is_ok_and(|x| x.0.len() >= 20) || g.eof || g.broken);
    same("to-broker", &sc, &more, &s.got().bytes[n..], true)?;
    rig.alive()?;
    // no broker at all
    if r.bool() {
        rig.broker.stop.store(true, SeqCst);
        std::thread::sleep(Duration::from_millis(20));
        let tcp = TcpStream::connect(("127.0.0.1", rig.rport)).map_err(|e| Violation { sig: "client-refused".into(), detail: e.to_string() })?;
        let z = End::new(tcp, vec![], false);
        let _ = (&z.tcp).write_all(&encode(&connect(r, &Gen::default(), true, "nobody", &ids)));
        ensure!(z.over(OWED), "left-open", "no broker: a client still sees an open connection after {} s", OWED.as_secs());
        o.count("no_broker");
        // and the one that was there is still served
        let n = c.len();
        let _ = (&s.tcp).write_all(&frames(&more).concat());
        c.wait(OWED, |g| decode_all(&g.bytes[n..], sc.v5).is_ok_and(|x| x.0.len() >= 20) || g.eof || g.broken);
        same("to-client", &sc, &more, &c.got().bytes[n..], true)?;
    }
    let _ = c.tcp.shutdown(Shutdown::Both);
    ensure!(s.over(OWED), "left-open", "the broker still sees client {} after {} s", sc.name, OWED.as_secs());
    o.case(r.u64());
    add(o, &tally);
    Ok(())
}

/// Hundreds of clients connected at the same time.
fn crowd(_: u64, r: &mut Rng, o: &mut Obs) -> Verdict {
    let mut rig = Rig::new();
    let ids = ids(r);
    let k = r.range(230, 400);
    let mut all = vec![];
    for n in 0..k {
        all.push(up(&rig, r, n, &ids)?);
    }
    let before: Vec<(usize, usize)> = all.iter().map(|(_, c, s)| (s.len(), c.len())).collect();
    for (n, (sc, c, s)) in all.iter().enumerate() {
        let _ = (&c.tcp).write_all(&encode(&numbered(sc.v5, n, 20)));
        let _ = (&s.tcp).write_all(&encode(&numbered(sc.v5, n + 1, 20)));
    }
    for (n, ((sc, c, s), (a, b))) in all.iter().zip(before).enumerate() {
        for (what, e, at, m) in [("to-broker", s, a, n), ("to-client", c, b, n + 1)] {
            let want = vec![numbered(sc.v5, m, 20)];
            let len = encode(&want[0]).len();
            e.wait(OWED, |g| g.bytes.len() >= at + len || g.eof || g.broken);
            same(what, sc, &want, &e.got().bytes[at..], true)?;
        }
    }
    // half of them leave; the others stay
    for (i, (_, c, _)) in all.iter().enumerate() {
        if i % 2 == 0 {
            let _ = c.tcp.shutdown(Shutdown::Both);
        }
    }
    for (i, (sc, c, s)) in all.iter().enumerate() {
        if i % 2 == 0 {
            ensure!(s.over(OWED), "left-open", "the broker still sees client {} after {} s", sc.name, OWED.as_secs());
        } else {
            let at = s.len();
            let want = vec![numbered(sc.v5, i + 2, 30)];
            let _ = (&c.tcp).write_all(&encode(&want[0]));
            s.wait(OWED, |g| g.bytes.len() >= at + encode(&want[0]).len() || g.eof || g.broken);
            let g = s.got();
            ensure!(!g.eof && !g.broken, "others-closed", "client {} was closed when others left", sc.name);
            same("to-broker", sc, &want, &g.bytes[at..], true)?;
        }
    }
    for (_, c, s) in &all {
        let _ = c.tcp.shutdown(Shutdown::Both);
        let _ = s.tcp.shutdown(Shutdown::Both);
    }
    rig.alive()?;
    o.case(r.u64());
    o.add("crowded", k as u64);
    o.add("to_broker", k as u64 * 2);
    o.add("to_client", k as u64 * 2);
    Ok(())
}

pub fn c34() {
    let mut run = Run::new("C34", "a set of clients and broker scripts through one pair of proxies, identified by their endings, segmentation and sizes");
    for k in ["to_broker", "to_client", "client_sent_and_closed", "client_reset", "broker_sent_and_closed", "broker_reset", "client_malformed", "broker_malformed", "floods", "held_back", "no_connect", "no_broker", "crowded", "late_readers"] {
        run.need(k, 1);
    }
    run.assume("a side that resets its connection gives up what has not arrived yet; what a half-closed client has still to receive is not asserted");
    let (a, b) = (run.scale(600, 20_000), run.scale(16, 600));
    run.cases("mixed", a, run.scale(14, 250) as f64, mixed);
    run.cases_on("flood", b, run.scale(10, 200) as f64, 2, flood);
    run.cases_on("stalled", b, run.scale(10, 200) as f64, 2, stalled);
    run.cases("faults", a / 2, run.scale(12, 200) as f64, faults);
    run.cases_on("patient", run.scale(3, 60), run.scale(14, 300) as f64, 3, patient);
    run.cases_on("crowd", run.scale(2, 40), run.scale(10, 100) as f64, 2, crowd);
    run.finish()
}
