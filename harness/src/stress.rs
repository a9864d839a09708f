//! Real threads, real time: a shared client or monitor is used from several threads of a multi
//! threaded runtime against a gateway on a thread of its own. What the gateway saw and what the
//! callers got is recorded with time stamps and judged afterwards.
use crate::inter::{Jitter, JITTER};
use crate::net::address;
use crate::refc::*;
use crate::sim::fresh_addr;
use crate::util::*;
use crate::{Case, Out};
use knx_ip_client::transport::udp::UdpClient;
use knx_ip_client::transport::udp_monitor::UdpMonitor;
use std::collections::{BTreeMap, HashMap};
use std::net::{SocketAddr, SocketAddrV4, UdpSocket};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

type Nanos = u64;

/// the value of unique number n: the low bits of the first byte tell what the bus does with it
fn value(n: u64, kind: u8) -> Vec<u8> {
    let mut v = vec![kind];
    v.extend(&n.to_be_bytes()[3..]);
    v
}

const GOOD: u8 = 0;
const REFUSED: u8 = 1;
const LOST: u8 = 2;
const BUS: u8 = 3;

#[derive(Default)]
struct Seen {
    /// write requests: address, value, when
    writes: Vec<(u16, Vec<u8>, Nanos)>,
    reads: Vec<(u16, Nanos)>,
    /// spontaneous writes on the bus
    bus: Vec<(u16, Vec<u8>, Nanos)>,
    problems: Vec<(&'static str, String)>,
    sent: u64,
    acks: u64,
    requests: u64,
    connected: bool,
    /// rounds of the gateway without anything to do or to wait for
    settled: u64,
}

struct Bus {
    addr: SocketAddrV4,
    seen: Arc<Mutex<Seen>>,
    stop: Arc<AtomicBool>,
    /// no spontaneous telegrams any more
    quiet: Arc<AtomicBool>,
    thread: Option<std::thread::JoinHandle<()>>,
}

struct Style {
    /// up to so many microseconds between request and answer
    delay: u64,
    /// one spontaneous telegram in so many loops
    bus: u64,
    addrs: Vec<u16>,
    /// telegrams for a monitor: how many
    stream: u64,
}

fn gateway(seed: u64, style: Style, t0: Instant) -> Result<Bus, String> {
    let addr = fresh_addr();
    let sock = UdpSocket::bind(addr).map_err(|e| format!("bind {}: {}", addr, e))?;
    sock.set_read_timeout(Some(Duration::from_micros(300))).map_err(|e| e.to_string())?;
    let seen = Arc::new(Mutex::new(Seen::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let quiet = Arc::new(AtomicBool::new(false));
    let (seen2, stop2, quiet2) = (seen.clone(), stop.clone(), quiet.clone());
    let thread = std::thread::spawn(move || {
        let mut rng = Rng::new(seed);
        let mut store: HashMap<u16, Vec<u8>> = HashMap::new();
        let mut peer: Option<SocketAddr> = None;
        let ch = rng.u8();
        let mut up = false;
        let (mut my_seq, mut next_seq) = (0u8, 0u8);
        let mut unacked: BTreeMap<u8, bool> = BTreeMap::new();
        // answers to be sent: due time, what
        enum What {
            Con(u16, bool, u16, Payload),
            Resp(u16),
        }
        let mut due: Vec<(Instant, What)> = vec![];
        let mut n = 0u64;
        let mut streamed = 0u64;
        let mut buf = [0u8; 2048];
        let mut problems: Vec<(&'static str, String)> = vec![];
        while !stop2.load(Ordering::Relaxed) {
            let got = sock.recv_from(&mut buf);
            let at = |i: Instant| (i - t0).as_nanos() as Nanos;
            if let Ok((len, from)) = got {
                let f = Frame::parse(&buf[..len]);
                if f.is_none() {
                    problems.push(("C03", format!("client sent {}", hex(&buf[..len]))));
                }
                match f {
                    Some(Frame::ConnectReq { .. }) => {
                        if up {
                            problems.push(("C16", "a second connection was requested".into()));
                        }
                        peer = Some(from);
                        up = true;
                        my_seq = 0;
                        next_seq = 0;
                        unacked.clear();
                        let r = Frame::ConnectResp {
                            ch,
                            status: 0,
                            ep: Some(CLIENT_HPAI),
                            ia: 0x1101,
                        };
                        let _ = sock.send_to(&r.bytes(), from);
                        seen2.lock().unwrap().connected = true;
                    }
                    Some(Frame::StateReq { ch: c, .. }) => {
                        let _ = sock.send_to(&Frame::StateResp { ch: c, status: 0 }.bytes(), from);
                    }
                    Some(Frame::DiscReq { ch: c, .. }) => {
                        let _ = sock.send_to(&Frame::DiscResp { ch: c, status: 0 }.bytes(), from);
                    }
                    Some(Frame::TunAck { ch: c, seq, status }) => {
                        seen2.lock().unwrap().acks += 1;
                        if c != ch || status != 0 || unacked.remove(&seq).is_none() {
                            problems.push(("C11", format!("unexpected acknowledge for channel {} number {} status {}", c, seq, status)));
                        }
                    }
                    Some(Frame::FeatSet { ch: c, seq, .. }) | Some(Frame::TunReq { ch: c, seq, .. }) if c != ch || seq != next_seq => {
                        problems.push(("C10", format!("request with channel {} number {} instead of {} {}", c, seq, ch, next_seq)));
                        next_seq = seq.wrapping_add(1);
                    }
                    Some(Frame::FeatSet { seq, .. }) => {
                        next_seq = next_seq.wrapping_add(1);
                        let _ = sock.send_to(&Frame::TunAck { ch, seq, status: 0 }.bytes(), from);
                    }
                    Some(Frame::TunReq { seq, cemi, .. }) => {
                        next_seq = next_seq.wrapping_add(1);
                        let _ = sock.send_to(&Frame::TunAck { ch, seq, status: 0 }.bytes(), from);
                        let t = at(Instant::now());
                        let mut s = seen2.lock().unwrap();
                        s.requests += 1;
                        if let Some(d) = LData::parse(&cemi) {
                            let mut lost = false;
                            let mut ok = true;
                            if d.apci == APCI_WRITE {
                                let v = d.payload.value();
                                ok = v[0] & 3 != REFUSED;
                                lost = v[0] & 3 == LOST;
                                if v[0] & 3 == GOOD {
                                    store.insert(d.dst, v.clone());
                                }
                                s.writes.push((d.dst, v, t));
                            } else if d.apci == APCI_READ {
                                s.reads.push((d.dst, t));
                            } else {
                                problems.push(("C24", format!("client sent telegram {}", hex(&cemi))));
                            }
                            if !lost {
                                let mut when = Instant::now() + Duration::from_micros(rng.below(style.delay + 1));
                                let what = What::Con(d.dst, ok, d.apci, d.payload.clone());
                                due.push((when, what));
                                if d.apci == APCI_READ {
                                    when += Duration::from_micros(rng.below(style.delay + 1));
                                    due.push((when, What::Resp(d.dst)));
                                }
                            }
                        } else {
                            problems.push(("C24", format!("client sent telegram {}", hex(&cemi))));
                        }
                    }
                    _ => (),
                }
            }
            let now = Instant::now();
            due.sort_by_key(|d| d.0);
            let mut out: Vec<LData> = vec![];
            // not more than fits into the socket buffer of a receiver which is behind
            while !due.is_empty() && due[0].0 <= now && unacked.len() + out.len() < 40 {
                match due.remove(0).1 {
                    What::Con(dst, ok, apci, p) => out.push(LData::con(dst, ok, apci, p)),
                    // the value at the time of sending, so that an answer nobody waits for any more is never outdated
                    What::Resp(dst) => out.push(LData::ind(0x1105, dst, APCI_RESPONSE, Payload::Long(store.get(&dst).cloned().unwrap_or(vec![0xff])))),
                }
            }
            if up && style.bus > 0 && !quiet2.load(Ordering::Relaxed) && unacked.len() < 30 && rng.below(style.bus) == 0 {
                n += 1;
                if rng.chance(1, 2) {
                    let a = *rng.pick(&style.addrs);
                    let v = value(n, BUS);
                    store.insert(a, v.clone());
                    seen2.lock().unwrap().bus.push((a, v.clone(), at(Instant::now())));
                    out.push(LData::ind(0x1106, a, APCI_WRITE, Payload::Long(v)));
                } else {
                    // of other addresses; also requests of others and confirmations
                    let a = 0x6000 + rng.below(16) as u16;
                    out.push(match rng.below(3) {
                        0 => LData::ind(0x1107, a, APCI_RESPONSE, Payload::Long(value(n, BUS))),
                        1 => LData::ind(0x1107, *rng.pick(&style.addrs), APCI_READ, Payload::Short(0)),
                        _ => LData::con(a, rng.chance(1, 2), APCI_WRITE, Payload::Long(value(n, BUS))),
                    });
                }
            }
            while up && streamed < style.stream && unacked.len() < 20 && out.len() < 20 {
                streamed += 1;
                let v = value(streamed, BUS);
                seen2.lock().unwrap().bus.push((0x0a00, v.clone(), at(Instant::now())));
                out.push(LData::ind(0x1106, 0x0a00, APCI_WRITE, Payload::Long(v)));
                if rng.chance(1, 8) {
                    out.push(LData::con(0x0a00, true, APCI_WRITE, Payload::Long(vec![1, 2])));
                }
            }
            for d in out {
                if let Some(p) = peer {
                    let f = Frame::TunReq {
                        ch,
                        seq: my_seq,
                        cemi: d.bytes(),
                    };
                    unacked.insert(my_seq, true);
                    my_seq = my_seq.wrapping_add(1);
                    seen2.lock().unwrap().sent += 1;
                    let _ = sock.send_to(&f.bytes(), p);
                }
            }
            if quiet2.load(Ordering::Relaxed) {
                let mut s = seen2.lock().unwrap();
                s.settled = if got.is_err() && due.is_empty() && unacked.is_empty() { s.settled + 1 } else { 0 };
            }
            if !problems.is_empty() {
                seen2.lock().unwrap().problems.append(&mut problems);
            }
        }
    });
    Ok(Bus {
        addr,
        seen,
        stop,
        quiet,
        thread: Some(thread),
    })
}

impl Bus {
    fn end(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
    fn wait(&self, limit: Duration, f: impl Fn(&Seen) -> bool) -> bool {
        let t = Instant::now();
        while t.elapsed() < limit {
            if f(&self.seen.lock().unwrap()) {
                return true;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        f(&self.seen.lock().unwrap())
    }
}

/// Longest time this process was not run when it should have been; what takes long then says nothing.
struct Stalls {
    worst: Arc<AtomicU64>,
    stop: Arc<AtomicBool>,
}

impl Stalls {
    fn watch() -> Stalls {
        let (worst, stop) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicBool::new(false)));
        let (w, s) = (worst.clone(), stop.clone());
        std::thread::spawn(move || {
            while !s.load(Ordering::Relaxed) {
                let t = Instant::now();
                std::thread::sleep(Duration::from_millis(20));
                w.fetch_max(t.elapsed().as_millis() as u64, Ordering::Relaxed);
            }
        });
        Stalls { worst, stop }
    }
    fn bad(&self) -> bool {
        self.worst.load(Ordering::Relaxed) > 1_000
    }
}

impl Drop for Stalls {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
    }
}

#[derive(Clone, Debug)]
enum Got {
    Value(Vec<u8>),
    Done,
    Failed(String),
    Cancelled,
}

#[derive(Clone, Debug)]
struct Done {
    thread: usize,
    write: Option<Vec<u8>>,
    status: bool,
    dst: u16,
    call: Nanos,
    ret: Nanos,
    got: Got,
}

type Sent = Arc<Mutex<Vec<(Instant, Vec<u8>)>>>;

/// delays at the socket calls of the threads which use the code under test
#[derive(Clone)]
struct Delays {
    seed: Arc<AtomicU64>,
    one_in: u64,
    micros: u64,
    sent: Sent,
}

impl Delays {
    fn new(rng: &mut Rng) -> Delays {
        let (one_in, micros) = *rng.pick(&[(1u64, 0u64), (2, 300), (3, 1500), (8, 3000), (1, 600)]);
        Delays {
            seed: Arc::new(AtomicU64::new(rng.u64())),
            one_in,
            micros,
            sent: Arc::new(Mutex::new(vec![])),
        }
    }
    fn enter(&self) {
        let seed = self.seed.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed);
        JITTER.with(|j| {
            *j.borrow_mut() = Some(Jitter {
                rng: Rng::new(seed),
                one_in: self.one_in,
                micros: self.micros,
                sent: self.sent.clone(),
            })
        });
    }
    fn leave(&self) {
        let _ = JITTER.try_with(|j| *j.borrow_mut() = None);
    }
}

fn runtime(threads: usize, delays: &Delays) -> Result<tokio::runtime::Runtime, String> {
    let delays = delays.clone();
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(threads)
        .enable_all()
        .on_thread_start(move || delays.enter())
        .build()
        .map_err(|e| e.to_string())
}

fn foreign_panics(out: &mut Out) {
    for p in std::mem::take(&mut *FOREIGN_PANICS.lock().unwrap()) {
        if is_harness_panic(&p) {
            out.harness_err = Some(p);
        } else {
            out.viol("*", format!("panic: {}", p));
        }
    }
}

/// reads and writes of several threads through one client
pub fn stress(case: &Case, out: &mut Out) {
    let mut rng = Rng::new(case.seed);
    let t0 = Instant::now();
    let stalls = Stalls::watch();
    let n_addrs = *rng.pick(&[1usize, 2, 4, 8]);
    let mut addrs: Vec<u16> = vec![];
    while addrs.len() < n_addrs {
        let a = (rng.u16() & 0x0fff) | 0x0800;
        if !addrs.contains(&a) {
            addrs.push(a);
        }
    }
    // Addresses written by others are only read here: a read which ends with the telegram of another
    // device leaves its confirmation and response behind, and nothing in the protocol tells them from
    // those of the next operation on that address.
    let others: Vec<u16> = addrs.iter().map(|a| a | 0x1000).collect();
    let style = Style {
        delay: *rng.pick(&[0u64, 100, 1000, 3000]),
        bus: *rng.pick(&[0u64, 3, 10, 50]),
        addrs: others.clone(),
        stream: 0,
    };
    let lossy = case.idx % 24 == 5;
    let cancels = rng.chance(1, 2);
    let many_status = rng.chance(1, 3);
    let mut bus = match gateway(rng.u64(), style, t0) {
        Ok(b) => b,
        Err(e) => {
            out.harness_err = Some(e);
            return;
        }
    };
    let delays = Delays::new(&mut rng);
    let rt = match runtime(*rng.pick(&[1usize, 2, 4]), &delays) {
        Ok(r) => r,
        Err(e) => {
            out.harness_err = Some(e);
            return;
        }
    };
    let client = match rt.block_on(UdpClient::connect(bus.addr)) {
        Ok(c) => Arc::new(c),
        Err(e) => {
            out.harness_err = Some(e.to_string());
            return;
        }
    };
    if !bus.wait(Duration::from_secs(20), |s| s.connected) {
        out.viol("C24", "no connection was requested from a working gateway");
        bus.end();
        std::mem::forget(rt);
        return;
    }
    // until the response has been processed operations may fail
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(10) {
        let _ = rt.block_on(client.write_group_address_value(address(&mut rng, 0x5fff), value(0, REFUSED), false));
        if bus.seen.lock().unwrap().writes.len() > 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    let uniq = Arc::new(AtomicU64::new(1));
    let n_threads = rng.range(2, 6) as usize;
    let n_ops = rng.range(20, 60);
    let (tx, rx) = mpsc::channel();
    let now = move || (Instant::now() - t0).as_nanos() as Nanos;
    // ends the case early when an operation failed by its time out
    let abort = Arc::new(AtomicBool::new(false));
    for th in 0..n_threads {
        let abort = abort.clone();
        let (client, addrs, others, uniq, tx) = (client.clone(), addrs.clone(), others.clone(), uniq.clone(), tx.clone());
        let handle = rt.handle().clone();
        let mut rng = Rng::new(rng.u64());
        let delays = delays.clone();
        std::thread::spawn(move || {
            delays.enter();
            let mut v: Vec<Done> = vec![];
            for k in 0..n_ops {
                if abort.load(Ordering::Relaxed) {
                    break;
                }
                let dst = *rng.pick(&addrs);
                let n = uniq.fetch_add(1, Ordering::Relaxed);
                let mut d = Done {
                    thread: th,
                    write: None,
                    status: false,
                    dst,
                    call: 0,
                    ret: 0,
                    got: Got::Cancelled,
                };
                match if many_status && rng.chance(1, 3) { 9 } else { rng.below(20) } {
                    0..=8 => {
                        if rng.chance(1, 3) {
                            d.dst = *rng.pick(&others);
                        }
                        let a = address(&mut rng, d.dst);
                        d.call = now();
                        d.got = match handle.block_on(client.read_group_address_value(a)) {
                            Ok(v) => Got::Value(v),
                            Err(e) => Got::Failed(e.to_string()),
                        };
                    }
                    9 => {
                        d.status = true;
                        d.call = now();
                        d.got = match handle.block_on(client.get_connection_status()) {
                            Ok(s) => Got::Value(vec![s.status]),
                            Err(e) => Got::Failed(e.to_string()),
                        };
                    }
                    10 if cancels => {
                        // an address nobody else uses, as its late answers are those of a later operation, too
                        d.dst = 0x7000 + n as u16 % 0x800;
                        let a = address(&mut rng, d.dst);
                        let limit = Duration::from_micros(rng.below(3000));
                        let read = rng.chance(1, 2);
                        let val = value(n, GOOD);
                        if !read {
                            d.write = Some(val.clone());
                        }
                        d.call = now();
                        let r = handle.block_on(async {
                            tokio::time::timeout(limit, async {
                                if read {
                                    client.read_group_address_value(a).await.map(Got::Value)
                                } else {
                                    client.write_group_address_value(a, val, false).await.map(|_| Got::Done)
                                }
                            })
                            .await
                        });
                        d.got = match r {
                            Ok(Ok(g)) => g,
                            Ok(Err(e)) => Got::Failed(e.to_string()),
                            Err(_) => Got::Cancelled,
                        };
                    }
                    c => {
                        let kind = if lossy && th == 0 && k == n_ops / 2 {
                            LOST
                        } else if c == 11 {
                            REFUSED
                        } else {
                            GOOD
                        };
                        let a = address(&mut rng, dst);
                        let val = value(n, kind);
                        d.write = Some(val.clone());
                        d.call = now();
                        d.got = match handle.block_on(client.write_group_address_value(a, val, false)) {
                            Ok(()) => Got::Done,
                            Err(e) => Got::Failed(e.to_string()),
                        };
                    }
                }
                d.ret = now();
                if !lossy && d.ret - d.call > 9_000_000_000 {
                    abort.store(true, Ordering::Relaxed);
                }
                v.push(d);
                match rng.below(6) {
                    0 => std::thread::sleep(Duration::from_micros(rng.below(500))),
                    1 => std::thread::yield_now(),
                    _ => (),
                }
            }
            let _ = tx.send(v);
        });
    }
    drop(tx);
    let mut all: Vec<Done> = vec![];
    let limit = Instant::now() + Duration::from_secs(60);
    let mut complete = 0;
    while complete < n_threads {
        match rx.recv_timeout(limit.saturating_duration_since(Instant::now())) {
            Ok(v) => {
                all.extend(v);
                complete += 1;
            }
            Err(_) => break,
        }
    }
    if complete < n_threads {
        foreign_panics(out);
        if !stalls.bad() {
            out.viol("C24", format!("deadlock: {} of {} threads did not finish their operations in 60s", n_threads - complete, n_threads));
        }
        bus.end();
        std::mem::forget(rt);
        return;
    }
    bus.quiet.store(true, Ordering::Relaxed);
    bus.wait(Duration::from_secs(5), |s| s.settled > 10);
    bus.end();
    rt.shutdown_timeout(Duration::from_secs(5));
    foreign_panics(out);
    let seen = bus.seen.lock().unwrap();
    let mut order: Vec<&Done> = all.iter().collect();
    order.sort_by_key(|d| d.call);
    if out.want_text {
        for d in &order {
            out.text.push_str(&format!("{:>10.3}ms {:>10.3}ms thread {} {:?}\n", d.call as f64 / 1e6, d.ret as f64 / 1e6, d.thread, d));
        }
        for w in &seen.writes {
            out.text.push_str(&format!("{:>10.3}ms bus: write {:04x} {}\n", w.2 as f64 / 1e6, w.0, hex(&w.1)));
        }
        for w in &seen.bus {
            out.text.push_str(&format!("{:>10.3}ms bus: spontaneous {:04x} {}\n", w.2 as f64 / 1e6, w.0, hex(&w.1)));
        }
    }
    for (p, m) in &seen.problems {
        out.viol(p, m.clone());
        out.trusted = true;
    }
    if seen.acks < seen.sent && !stalls.bad() {
        out.viol("C11", format!("{} of {} telegrams were acknowledged", seen.acks, seen.sent));
    }
    // writes
    let mut count: HashMap<(u16, &[u8]), u64> = HashMap::new();
    for w in &seen.writes {
        *count.entry((w.0, &w.1)).or_insert(0) += 1;
    }
    let mut expected: HashMap<(u16, Vec<u8>), ()> = HashMap::new();
    let hard = |out: &mut Out, m: String| {
        out.viol("C24", m);
        out.trusted = true;
    };
    for d in &all {
        let took = (d.ret - d.call) / 1_000_000;
        if let Some(v) = &d.write {
            expected.insert((d.dst, v.clone()), ());
            let n = count.get(&(d.dst, v.as_slice())).copied().unwrap_or(0);
            let kind = v[0] & 3;
            match &d.got {
                Got::Done if n != 1 => hard(out, format!("the bus saw the successful write of {} to {:04x} {} times", hex(v), d.dst, n)),
                Got::Done if kind != GOOD => hard(out, format!("the write of {} to {:04x} succeeded without confirmation", hex(v), d.dst)),
                _ if n > 1 => hard(out, format!("the bus saw the write of {} to {:04x} {} times", hex(v), d.dst, n)),
                Got::Failed(_) if kind == REFUSED && n == 1 => (),
                Got::Failed(_) if kind == LOST && took > 9_000 => (),
                Got::Failed(e) if !stalls.bad() => {
                    for p in ["C24", "C14"] {
                        out.viol(p, format!("the write of {} to {:04x} failed after {}ms: {}", hex(v), d.dst, took, e));
                    }
                }
                _ => (),
            }
        } else {
            match &d.got {
                Got::Value(s) if d.status && s == &[0] => (),
                Got::Value(s) if d.status => hard(out, format!("status query returned status {}", s[0])),
                Got::Failed(e) if !stalls.bad() => {
                    for p in ["C24", if d.status { "C18" } else { "C13" }] {
                        out.viol(p, format!("{} {:04x} failed after {}ms: {}", if d.status { "status query" } else { "read of" }, d.dst, took, e));
                    }
                }
                _ => (),
            }
        }
    }
    for w in &seen.writes {
        if w.0 != 0x5fff && !expected.contains_key(&(w.0, w.1.clone())) {
            hard(out, format!("the bus saw a write of {} to {:04x} nobody asked for", hex(&w.1), w.0));
        }
    }
    // reads: per address, values and intervals of the writes and reads
    let mut n_reads = 0;
    for a in addrs.iter().chain(&others) {
        let mut zones: BTreeMap<Vec<u8>, (Nanos, Nanos, Nanos)> = BTreeMap::new(); // earliest end, latest start, start of the write
        zones.insert(vec![0xff], (0, 0, 0));
        for d in all.iter().filter(|d| d.dst == *a) {
            if let Some(v) = &d.write {
                if v[0] & 3 == GOOD && count.contains_key(&(d.dst, v.as_slice())) {
                    let end = if matches!(d.got, Got::Done) { d.ret } else { u64::MAX };
                    zones.insert(v.clone(), (end, d.call, d.call));
                }
            }
        }
        for w in seen.bus.iter().filter(|w| w.0 == *a) {
            // it takes effect when the client gets it
            zones.insert(w.1.clone(), (w.2 + 5_000_000_000, w.2, w.2));
        }
        for d in all.iter().filter(|d| d.dst == *a && d.write.is_none() && !d.status) {
            if let Got::Value(v) = &d.got {
                n_reads += 1;
                match zones.get_mut(v) {
                    None => hard(out, format!("a read of {:04x} returned {} which the bus never had there", a, hex(v))),
                    Some(z) => {
                        if d.ret < z.2 {
                            hard(out, format!("a read of {:04x} returned {} before it was written", a, hex(v)));
                        }
                        z.0 = z.0.min(d.ret);
                        z.1 = z.1.max(d.call);
                    }
                }
            }
        }
        // unique values: linearizable if no two forward zones overlap and none contains a backward zone
        let forward: Vec<(&Vec<u8>, Nanos, Nanos)> = zones.iter().filter(|(_, z)| z.0 < z.1).map(|(v, z)| (v, z.0, z.1)).collect();
        for (i, f) in forward.iter().enumerate() {
            for g in &forward[i + 1..] {
                if f.1 < g.2 && g.1 < f.2 {
                    hard(out, format!("the results for {:04x} cannot be ordered: values {} and {}", a, hex(f.0), hex(g.0)));
                }
            }
            for (v, z) in zones.iter().filter(|(_, z)| z.0 >= z.1) {
                if f.1 < z.1 && z.0 < f.2 {
                    hard(out, format!("the results for {:04x} cannot be ordered: value {} while {} was there", a, hex(v), hex(f.0)));
                }
            }
        }
    }
    out.evals += 1;
    let overlapping = order.windows(2).filter(|w| w[1].call < w[0].ret).count() as u64;
    out.count("operations of concurrent threads", all.len() as u64);
    out.count("status queries judged", all.iter().filter(|d| d.status).count() as u64);
    out.count("overlapping operations", overlapping);
    out.count("reads checked for order", n_reads);
    out.count("writes seen by the bus", seen.writes.len() as u64);
    out.count("operations cancelled", all.iter().filter(|d| matches!(d.got, Got::Cancelled)).count() as u64);
    out.count("telegrams sent by the bus", seen.sent);
    out.count("acknowledges checked", seen.acks);
    out.count("tunnel requests checked", seen.requests);
    if stalls.bad() {
        out.count("cases with stalls of the machine", 1);
    }
    // the interleaving of the threads at the bus
    let mut shape: Vec<(Nanos, usize, bool)> = all.iter().map(|d| (d.ret, d.thread, d.write.is_some())).collect();
    shape.sort();
    out.distinct.push(fnv(format!("{:?}", shape.iter().map(|s| (s.1, s.2)).collect::<Vec<_>>()).as_bytes()));
    if out.sample.is_none() {
        out.sample = Some(format!(
            "{} threads, {} operations ({} overlapping), {} reads and {} writes at the bus, {} telegrams of the bus",
            n_threads,
            all.len(),
            overlapping,
            seen.reads.len(),
            seen.writes.len(),
            seen.sent
        ));
    }
}

/// several threads fetch the telegrams of one monitor while others write through it
pub fn stress_monitor(case: &Case, out: &mut Out) {
    let mut rng = Rng::new(case.seed);
    let t0 = Instant::now();
    let stalls = Stalls::watch();
    let total = rng.range(100, 1500);
    let style = Style {
        delay: *rng.pick(&[0u64, 100, 1000]),
        bus: 0,
        addrs: vec![],
        stream: total,
    };
    let mut bus = match gateway(rng.u64(), style, t0) {
        Ok(b) => b,
        Err(e) => {
            out.harness_err = Some(e);
            return;
        }
    };
    let delays = Delays::new(&mut rng);
    let rt = match runtime(*rng.pick(&[1usize, 2, 4]), &delays) {
        Ok(r) => r,
        Err(e) => {
            out.harness_err = Some(e);
            return;
        }
    };
    let monitor = match rt.block_on(UdpMonitor::connect(&bus.addr.to_string())) {
        Ok(c) => Arc::new(c),
        Err(e) => {
            out.harness_err = Some(e.to_string());
            return;
        }
    };
    let stop = Arc::new(AtomicBool::new(false));
    let delivered = Arc::new(AtomicU64::new(0));
    let n_consumers = rng.range(1, 4) as usize;
    let n_writers = rng.below(3) as usize;
    let cancels = rng.chance(1, 2);
    let (tx, rx) = mpsc::channel();
    for _ in 0..n_consumers {
        let (m, stop, delivered, tx, handle) = (monitor.clone(), stop.clone(), delivered.clone(), tx.clone(), rt.handle().clone());
        let mut rng = Rng::new(rng.u64());
        let delays = delays.clone();
        std::thread::spawn(move || {
            delays.enter();
            let mut v: Vec<(u16, Vec<u8>)> = vec![];
            while !stop.load(Ordering::Relaxed) {
                let limit = if cancels { Duration::from_micros(rng.below(300)) } else { Duration::from_millis(20) };
                if let Ok(Ok(ind)) = handle.block_on(async { tokio::time::timeout(limit, m.next_msg()).await }) {
                    v.push((ind.l_data.dest, ind.value.clone()));
                    delivered.fetch_add(1, Ordering::Relaxed);
                }
                if rng.chance(1, 50) {
                    std::thread::sleep(Duration::from_micros(rng.below(2000)));
                }
            }
            let _ = tx.send(v);
        });
    }
    let written = Arc::new(AtomicU64::new(0));
    let mut writers = vec![];
    for _ in 0..n_writers {
        let (m, stop, written, handle) = (monitor.clone(), stop.clone(), written.clone(), rt.handle().clone());
        let mut rng = Rng::new(rng.u64());
        let delays = delays.clone();
        writers.push(std::thread::spawn(move || {
            delays.enter();
            let mut n = 0;
            while !stop.load(Ordering::Relaxed) && n < 60 {
                n += 1;
                let a = address(&mut rng, 0x0b00);
                if handle.block_on(m.write_group_address_value(a, value(n, GOOD), false)).is_ok() {
                    written.fetch_add(1, Ordering::Relaxed);
                }
                std::thread::sleep(Duration::from_micros(rng.below(1000)));
            }
        }));
    }
    drop(tx);
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(40) && delivered.load(Ordering::Relaxed) < total {
        std::thread::sleep(Duration::from_millis(2));
    }
    std::thread::sleep(Duration::from_millis(5));
    stop.store(true, Ordering::Relaxed);
    let t = Instant::now();
    while !writers.iter().all(|w| w.is_finished()) {
        if t.elapsed() > Duration::from_secs(30) {
            if !stalls.bad() {
                out.viol("C14", "deadlock: a write does not return");
            }
            bus.end();
            std::mem::forget(rt);
            return;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    let mut per: Vec<Vec<(u16, Vec<u8>)>> = vec![];
    for _ in 0..n_consumers {
        match rx.recv_timeout(Duration::from_secs(30)) {
            Ok(v) => per.push(v),
            Err(_) => {
                if !stalls.bad() {
                    out.viol("C12", "deadlock: a consumer does not return");
                }
                bus.end();
                std::mem::forget(rt);
                return;
            }
        }
    }
    bus.quiet.store(true, Ordering::Relaxed);
    bus.wait(Duration::from_secs(5), |s| s.settled > 10);
    bus.end();
    rt.shutdown_timeout(Duration::from_secs(5));
    foreign_panics(out);
    let seen = bus.seen.lock().unwrap();
    for (p, m) in &seen.problems {
        out.viol(p, m.clone());
        out.trusted = true;
    }
    let pos: HashMap<&[u8], usize> = seen.bus.iter().enumerate().map(|(i, w)| (w.1.as_slice(), i)).collect();
    let mut times = vec![0u32; seen.bus.len()];
    for v in &per {
        let mut last = None;
        for (dst, val) in v {
            match pos.get(val.as_slice()) {
                Some(i) if *dst == 0x0a00 => {
                    times[*i] += 1;
                    if last >= Some(*i) {
                        out.viol("C12", format!("one consumer got telegram {} after telegram {}", i, last.unwrap()));
                        out.trusted = true;
                    }
                    last = Some(*i);
                }
                _ => {
                    out.viol("C12", format!("delivered telegram for {:04x} value {} was not sent", dst, hex(val)));
                    out.trusted = true;
                }
            }
        }
    }
    if let Some(i) = times.iter().position(|n| *n > 1) {
        out.viol("C12", format!("telegram {} was delivered {} times", i, times[i]));
        out.trusted = true;
    }
    let missing = times.iter().filter(|n| **n == 0).count();
    if (missing > 0 || (seen.bus.len() as u64) < total) && !stalls.bad() {
        out.viol("C12", format!("{} of {} telegrams were not delivered", missing as u64 + total - seen.bus.len() as u64, total));
    }
    if seen.acks < seen.sent && !stalls.bad() {
        out.viol("C11", format!("{} of {} telegrams were acknowledged", seen.acks, seen.sent));
    }
    let writes = seen.writes.len() as u64;
    if writes != written.load(Ordering::Relaxed) {
        out.viol("C14", format!("the bus saw {} of {} writes", writes, written.load(Ordering::Relaxed)));
    }
    out.evals += 1;
    out.count("telegrams delivered", delivered.load(Ordering::Relaxed));
    out.count("acknowledges checked", seen.acks);
    out.count("tunnel requests checked", seen.requests);
    let mut who: Vec<(usize, usize)> = vec![];
    for (k, v) in per.iter().enumerate() {
        for (_, val) in v {
            if let Some(i) = pos.get(val.as_slice()) {
                who.push((*i, k));
            }
        }
    }
    who.sort();
    out.distinct.push(fnv(format!("{:?}", who).as_bytes()));
    if out.want_text {
        out.text = format!("consumer of each telegram: {:?}\n", who);
    }
    if out.sample.is_none() {
        out.sample = Some(format!(
            "{} telegrams to {} consumers ({} writers), received by each: {:?}",
            total,
            n_consumers,
            n_writers,
            per.iter().map(|v| v.len()).collect::<Vec<_>>()
        ));
    }
}

/// disconnecting while other threads use the handle
pub fn stress_disconnect(case: &Case, out: &mut Out) {
    let mut rng = Rng::new(case.seed);
    let t0 = Instant::now();
    let stalls = Stalls::watch();
    let is_monitor = rng.chance(1, 2);
    let style = Style {
        delay: *rng.pick(&[0u64, 100, 1000]),
        bus: if is_monitor { 0 } else { *rng.pick(&[0u64, 3, 20]) },
        addrs: vec![0x0900],
        // not more than the monitor keeps for its consumers
        stream: if is_monitor { *rng.pick(&[0u64, 10, 25]) } else { 0 },
    };
    let mut bus = match gateway(rng.u64(), style, t0) {
        Ok(b) => b,
        Err(e) => {
            out.harness_err = Some(e);
            return;
        }
    };
    let delays = Delays::new(&mut rng);
    let rt = match runtime(*rng.pick(&[1usize, 2, 4]), &delays) {
        Ok(r) => r,
        Err(e) => {
            out.harness_err = Some(e);
            return;
        }
    };
    #[derive(Clone)]
    enum H {
        C(Arc<UdpClient>),
        M(Arc<UdpMonitor>),
    }
    let h = if is_monitor {
        rt.block_on(UdpMonitor::connect(&bus.addr.to_string())).map(|m| H::M(Arc::new(m)))
    } else {
        rt.block_on(UdpClient::connect(bus.addr)).map(|c| H::C(Arc::new(c)))
    };
    let h = match h {
        Ok(h) => h,
        Err(e) => {
            out.harness_err = Some(e.to_string());
            return;
        }
    };
    if !bus.wait(Duration::from_secs(20), |s| s.connected) {
        out.viol("C17", "no connection was requested from a working gateway");
        bus.end();
        std::mem::forget(rt);
        return;
    }
    // until the response has been processed operations fail
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(10) {
        let a = address(&mut rng, 0x5fff);
        let ok = match &h {
            H::C(c) => rt.block_on(c.write_group_address_value(a, value(0, GOOD), false)).is_ok(),
            H::M(m) => rt.block_on(m.is_connected()),
        };
        if ok {
            break;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    let stop = Arc::new(AtomicBool::new(false));
    let ops = Arc::new(AtomicU64::new(0));
    let mut ths = vec![];
    for k in 0..rng.below(4) {
        let (h, stop, ops, delays, handle) = (h.clone(), stop.clone(), ops.clone(), delays.clone(), rt.handle().clone());
        let mut rng = Rng::new(rng.u64());
        ths.push(std::thread::spawn(move || {
            delays.enter();
            let mut n = 0;
            while !stop.load(Ordering::Relaxed) {
                n += 1;
                let a = address(&mut rng, 0x0800 + k as u16);
                match &h {
                    H::C(c) => match rng.below(4) {
                        0 => drop(handle.block_on(c.get_connection_status())),
                        1 => drop(handle.block_on(c.read_group_address_value(a))),
                        _ => drop(handle.block_on(c.write_group_address_value(a, value(n, GOOD), false))),
                    },
                    // confirmations nobody fetches must not fill the monitor's queue
                    H::M(m) => match if n > 20 { 0 } else { rng.below(4) } {
                        0 => drop(handle.block_on(m.is_connected())),
                        1 => drop(handle.block_on(m.solecitate_group_read(a))),
                        2 => drop(handle.block_on(m.write_group_address_value(a, value(n, GOOD), false))),
                        _ => drop(handle.block_on(async { tokio::time::timeout(Duration::from_millis(1), m.next_msg()).await })),
                    },
                }
                ops.fetch_add(1, Ordering::Relaxed);
                std::thread::sleep(Duration::from_micros(rng.below(400)));
            }
        }));
    }
    std::thread::sleep(Duration::from_micros(rng.below(20_000)));
    // from several threads at once: one of them disconnects
    let n = rng.range(1, 2);
    let (tx, rx) = mpsc::channel();
    for _ in 0..n {
        let (h, delays, handle, tx) = (h.clone(), delays.clone(), rt.handle().clone(), tx.clone());
        std::thread::spawn(move || {
            delays.enter();
            let start = Instant::now();
            let r = match &h {
                H::C(c) => handle.block_on(c.disconnect()).map(|_| 0).map_err(|e| e.to_string()),
                H::M(m) => handle.block_on(m.disconnect()).map_err(|e| e.to_string()),
            };
            delays.leave();
            let _ = tx.send((start, Instant::now(), r));
        });
    }
    let mut res = vec![];
    for _ in 0..n {
        match rx.recv_timeout(Duration::from_secs(60)) {
            Ok(r) => res.push(r),
            Err(_) => {
                foreign_panics(out);
                if !stalls.bad() {
                    for p in ["C17", "C24"] {
                        out.viol(p, "deadlock: a disconnect did not return in 60s");
                    }
                }
                stop.store(true, Ordering::Relaxed);
                bus.end();
                std::mem::forget(rt);
                return;
            }
        }
    }
    let end = Instant::now();
    std::thread::sleep(Duration::from_millis(*rng.pick(&[5u64, 30])));
    stop.store(true, Ordering::Relaxed);
    let t = Instant::now();
    let mut hung = false;
    while !ths.iter().all(|w| w.is_finished()) {
        if t.elapsed() > Duration::from_secs(60) {
            hung = true;
            break;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    let done: Vec<&(Instant, Instant, Result<u8, String>)> = res.iter().filter(|r| r.2.is_ok()).collect();
    if hung {
        if !stalls.bad() {
            for p in ["C17", "C24"] {
                out.viol(p, "deadlock: an operation did not return in 60s after the disconnection");
            }
        }
    } else if done.is_empty() {
        if !stalls.bad() {
            out.viol("C17", format!("disconnect failed: {:?}", res.iter().map(|r| &r.2).collect::<Vec<_>>()));
        }
    } else {
        let first = done.iter().map(|r| r.1).min().unwrap();
        if let Some(s) = delays.sent.lock().unwrap().iter().find(|s| s.0 > first) {
            out.viol("C17", format!("{} was sent {}us after the disconnection", hex(&s.1), (s.0 - first).as_micros()));
            out.trusted = true;
        }
        if done.len() > 1 {
            out.viol("C17", "two disconnections of one connection succeeded");
            out.trusted = true;
        }
        if let H::M(m) = &h {
            if rt.block_on(m.is_connected()) {
                out.viol("C17", "still connected after the disconnection");
                out.trusted = true;
            }
            let mut rest = 0;
            loop {
                match rt.block_on(async { tokio::time::timeout(Duration::from_secs(20), m.next_msg()).await }) {
                    Err(_) => {
                        if !stalls.bad() {
                            out.viol("C17", "waiting for telegrams does not end after the disconnection");
                        }
                        break;
                    }
                    Ok(Ok(_)) => {
                        rest += 1;
                        if rest > 1000 {
                            break;
                        }
                    }
                    Ok(Err(_)) => break,
                }
            }
        }
    }
    bus.end();
    rt.shutdown_timeout(Duration::from_secs(5));
    foreign_panics(out);
    let seen = bus.seen.lock().unwrap();
    for (p, m) in &seen.problems {
        out.viol(p, m.clone());
        out.trusted = true;
    }
    out.evals += 1;
    out.count("disconnects judged", done.len() as u64);
    out.count("operations racing with a disconnection", ops.load(Ordering::Relaxed));
    let sent = delays.sent.lock().unwrap();
    let kinds: Vec<u8> = sent.iter().map(|s| s.1.get(3).copied().unwrap_or(0)).collect();
    out.distinct.push(fnv(&kinds));
    if out.sample.is_none() {
        out.sample = Some(format!(
            "{} with {} other threads: {} datagrams sent before the disconnection ended, {:?}ms for it",
            if is_monitor { "monitor" } else { "client" },
            ths.len(),
            sent.len(),
            res.iter().map(|r| (end - r.0).as_millis()).collect::<Vec<_>>()
        ));
    }
}
