//! knxmon: runtime monitors for knx-ip-client. `knxmon <property>` runs the workloads of a property
//! against the real code and judges what was observed; `knxmon --replay <file>` runs one case again.
mod codec;
mod inter;
mod isolation;
mod net;
mod oracle;
mod resources;
mod refc;
mod search;
mod sim;
mod stress;
mod util;

use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

pub struct Case {
    pub seed: u64,
    pub idx: u64,
    pub thorough: bool,
}

#[derive(Default)]
pub struct Out {
    pub viols: Vec<(String, String)>,
    pub counters: BTreeMap<&'static str, u64>,
    pub distinct: Vec<u64>,
    pub sample: Option<String>,
    pub evals: u64,
    pub harness_err: Option<String>,
    pub want_text: bool,
    pub text: String,
    /// the violations were observed in an execution which need not happen again
    pub trusted: bool,
}

impl Out {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn viol(&mut self, p: &str, m: impl Into<String>) {
        self.viols.push((p.to_string(), m.into()));
    }
}

type FamFn = fn(&Case, &mut Out);

/// workload families: name, function, cases in a quick run, cases in a thorough run
const FAMILIES: &[(&str, FamFn, u64, u64)] = &[
    ("decode_fuzz", codec::decode_fuzz, 3_000, 200_000),
    ("frames", codec::frames, 1_500, 60_000),
    ("addresses", codec::addresses, 256, 12_800),
    ("dp_fixed", codec::dp_fixed, 320, 6_400),
    ("dp_float", codec::dp_float, 960, 64_000),
    ("dp_scaling", codec::dp_scaling, 960, 16_000),
    ("payloads", codec::payloads, 4_000, 160_000),
    ("ops_client", net::ops_client, 600, 12_000),
    ("monitor_stream", net::monitor_stream, 300, 6_000),
    ("monitor_backlog", net::monitor_backlog, 200, 3_000),
    ("wrap", net::wrap, 60, 600),
    ("reconnects", net::reconnects, 300, 6_000),
    ("resources", resources::resources, 140, 1_400),
    ("isolation", isolation::isolation, 1_000, 12_000),
    ("hostile", net::hostile, 400, 10_000),
    ("crashes", net::crashes, 200, 4_000),
    ("full_buffers", net::full_buffers, 300, 6_000),
    ("send_faults", net::send_faults, 400, 8_000),
    ("long_session", net::long_session, 100, 1_500),
    ("connecting", net::connecting, 300, 6_000),
    ("disconnecting", net::disconnecting, 400, 8_000),
    ("disconnect_values", net::disconnect_values, 512, 2_048),
    ("status", net::status, 512, 8_000),
    ("notifications", net::notifications, 300, 6_000),
    ("info_service", net::info_service, 300, 6_000),
    ("gateway_disconnect", net::gateway_disconnect, 300, 6_000),
    ("dropping", net::dropping, 300, 6_000),
    ("idle_client", net::idle_client, 150, 3_000),
    ("chaos", net::chaos, 300, 6_000),
    ("values", net::values, 100, 1_000),
    ("search", search::search, 1_200, 24_000),
    ("stress", stress::stress, 120, 3_000),
    ("stress_monitor", stress::stress_monitor, 60, 1_500),
    ("stress_disconnect", stress::stress_disconnect, 300, 6_000),
];

/// property: families which exercise it, and observations without which the run means nothing
const PLAN: &[(&str, &[&str], &[&str])] = &[
    ("C01", &["decode_fuzz", "frames", "addresses"], &["inputs accepted", "inputs refused", "texts parsed"]),
    ("C02", &["frames"], &["round trips"]),
    ("C03", &["frames", "ops_client", "monitor_stream", "gateway_disconnect", "disconnecting", "status"], &["encodings compared", "frames sent by the client"]),
    ("C04", &["frames"], &["decodings compared", "damaged frames that must be refused", "damaged frames accepted and compared", "datagrams dispatched"]),
    ("C05", &["addresses"], &["addresses parsed", "invalid addresses", "conversions"]),
    ("C06", &["dp_fixed"], &["datapoint values", "short inputs"]),
    ("C07", &["dp_float"], &["words decoded", "floats encoded", "floats out of range"]),
    ("C08", &["dp_scaling"], &["percentages encoded", "bytes converted", "percentages out of range"]),
    ("C09", &["payloads"], &["requests compared", "indications compared"]),
    ("C10", &["ops_client", "monitor_stream", "wrap", "send_faults", "reconnects", "values", "chaos", "stress", "full_buffers"], &["tunnel requests checked"]),
    ("C11", &["monitor_stream", "idle_client", "ops_client", "hostile", "send_faults", "chaos", "stress", "stress_monitor", "full_buffers"], &["acknowledges checked"]),
    ("C12", &["monitor_stream", "monitor_backlog", "reconnects", "wrap", "chaos", "stress_monitor", "full_buffers"], &["telegrams delivered"]),
    ("C13", &["ops_client", "idle_client", "status", "chaos", "stress", "full_buffers"], &["reads and writes judged", "acknowledges checked"]),
    ("C14", &["ops_client", "monitor_stream", "send_faults", "chaos", "stress", "stress_monitor", "full_buffers"], &["reads and writes judged", "acknowledges checked"]),
    ("C15", &["long_session", "reconnects", "monitor_stream", "monitor_backlog", "disconnecting", "values", "chaos"], &["connection state requests", "connections replaced"]),
    ("C16", &["hostile", "crashes", "send_faults", "idle_client", "values", "chaos", "full_buffers"], &["connections", "faults injected", "datagrams received by the client"]),
    ("C17", &["disconnecting", "disconnect_values", "chaos", "stress_disconnect"], &["disconnects judged"]),
    ("C18", &["status", "ops_client", "long_session", "stress"], &["status queries judged"]),
    ("C19", &["search"], &["searches judged", "search responses returned", "invalid datagrams skipped", "searches that could not be sent"]),
    ("C20", &["notifications", "info_service", "reconnects", "monitor_backlog", "connecting", "full_buffers"], &["notifications", "connections enabling the info service", "first requests of connections of a monitor"]),
    ("C21", &["gateway_disconnect", "monitor_stream", "values", "chaos", "full_buffers"], &["disconnect responses sent", "connections replaced"]),
    ("C22", &["dropping", "chaos"], &["handles dropped"]),
    ("C23", &["connecting", "crashes", "reconnects", "values", "chaos", "monitor_backlog"], &["failed connection attempts", "operations without connection", "connections"]),
    ("C24", &["stress", "stress_disconnect"], &["overlapping operations", "reads checked for order", "writes seen by the bus", "operations cancelled"]),
    ("C26", &["isolation"], &["operations of undisturbed handles", "handles", "tunnel requests checked", "telegrams delivered"]),
    ("C25", &["resources"], &["rounds of activity", "datagrams observed"]),
];

fn family(name: &str) -> Option<(&'static str, FamFn, u64, u64)> {
    FAMILIES.iter().find(|f| f.0 == name).copied()
}

fn case_seed(base: u64, fam: &str, idx: u64) -> u64 {
    mix(mix(base, fnv(fam.as_bytes())), idx)
}

struct Running {
    clock: libc::clockid_t,
    cpu0: u64,
    wall0: Instant,
    fam: &'static str,
    idx: u64,
}

/// CPU time after which a case counts as hanging; they normally take milliseconds
const CPU_LIMIT_MS: u64 = 60_000;

fn run_case(f: FamFn, case: &Case, want_text: bool) -> Out {
    let mut out = Out {
        want_text,
        ..Out::default()
    };
    take_panics();
    // every fourth case runs with logging switched on
    set_logging(case.idx % 4 == 3);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(case, &mut out)));
    inter::reset();
    let ps = take_panics();
    if r.is_err() {
        for p in ps {
            if is_harness_panic(&p) {
                out.harness_err = Some(p);
            } else {
                out.viol("*", format!("panic: {}", p));
            }
        }
    }
    out
}

fn esc_list(v: &[String]) -> String {
    v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
}

fn self_test() -> Result<(), String> {
    let a = std::net::UdpSocket::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
    let b = std::net::UdpSocket::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
    b.set_read_timeout(Some(Duration::from_secs(5))).map_err(|e| e.to_string())?;
    a.send_to(b"x", b.local_addr().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let mut buf = [0u8; 4];
    b.recv(&mut buf).map_err(|e| format!("loopback does not work: {}", e))?;
    Ok(())
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    running: Vec<Mutex<Option<Running>>>,
    done: AtomicU64,
}

struct Total {
    counters: BTreeMap<&'static str, u64>,
    per_family: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    evals: u64,
    candidates: Vec<(&'static str, u64, String, bool)>,
    errors: Vec<String>,
}

fn replay_dir() -> String {
    let root = std::env::var("KNXMON_ROOT").unwrap_or_else(|_| "/verif".into());
    format!("{}/replays", root)
}

fn write_replay(prop: &str, fam: &str, idx: u64, base: u64, thorough: bool, msgs: &[String], text: &str) -> String {
    let dir = replay_dir();
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}-{}.txt", dir, prop, fam, base, idx);
    let body = format!(
        "property={}\nfamily={}\nidx={}\nbase={}\nthorough={}\n\n{}\n\n{}",
        prop,
        fam,
        idx,
        base,
        thorough,
        msgs.join("\n"),
        text
    );
    let _ = std::fs::write(&path, body);
    path
}

fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|s| s.to_string())).unwrap_or_default();
    run_one(&get("property"), &get("family"), get("idx").parse().unwrap_or(0), get("base").parse().unwrap_or(0), get("thorough") == "true")
}

fn run_one(prop: &str, fam: &str, idx: u64, base: u64, thorough: bool) -> i32 {
    let f = match family(fam) {
        Some(f) => f,
        None => {
            eprintln!("unknown family {}", fam);
            return 2;
        }
    };
    IS_WORKER.with(|w| w.set(true));
    sim::set_slot(0);
    let case = Case {
        seed: case_seed(base, fam, idx),
        idx,
        thorough,
    };
    let out = run_case(f.1, &case, true);
    println!("{}", out.text);
    if let Some(e) = &out.harness_err {
        println!("harness error: {}", e);
    }
    let mut rc = 0;
    for (p, m) in &out.viols {
        println!("{}: {}", p, m);
        if p == prop || p == "*" {
            rc = 1;
        }
    }
    rc
}

fn main() {
    install_panic_hook();
    install_logger();
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "--replay" {
        std::process::exit(replay(&args[2]));
    }
    if args.len() >= 6 && args[1] == "--one" {
        std::process::exit(run_one(&args[2], &args[3], args[4].parse().unwrap_or(0), args[5].parse().unwrap_or(0), args.get(6).map(|s| s == "true").unwrap_or(false)));
    }
    let prop = args.get(1).cloned().unwrap_or_default();
    let plan = match PLAN.iter().find(|p| p.0 == prop) {
        Some(p) => p,
        None => {
            eprintln!("usage: knxmon <property>|--replay <file>");
            std::process::exit(2);
        }
    };
    if let Err(e) = self_test() {
        eprintln!("this environment cannot run the check: {}", e);
        std::process::exit(2);
    }
    std::process::exit(check(plan));
}

fn check(plan: &'static (&'static str, &'static [&'static str], &'static [&'static str])) -> i32 {
    let prop = plan.0;
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale: f64 = std::env::var("KNXMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let budget = Duration::from_secs(
        std::env::var("KNXMON_BUDGET")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 3600 } else { 150 }),
    );
    // families are interleaved, so that a run which is cut short has seen all of them
    let mut jobs: Vec<(&'static str, FamFn, u64)> = vec![];
    let mut lists: Vec<(&'static str, FamFn, u64)> = vec![];
    for name in plan.1 {
        let f = family(name).expect("family of the plan");
        let n = (if thorough { f.3 } else { f.2 }) as f64 * scale;
        lists.push((f.0, f.1, (n as u64).max(1)));
    }
    let most = lists.iter().map(|l| l.2).max().unwrap_or(0);
    for k in 0..most {
        for l in &lists {
            // spread the shorter lists evenly
            let (a, b) = (k * l.2 / most, (k + 1) * l.2 / most);
            if b > a {
                jobs.push((l.0, l.1, a));
            }
        }
    }
    let jobs = Arc::new(jobs);
    let threads = std::env::var("KNXMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let sh = Arc::new(Shared {
        next: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        running: (0..threads).map(|_| Mutex::new(None)).collect(),
        done: AtomicU64::new(0),
    });
    let total = Arc::new(Mutex::new(Total {
        counters: BTreeMap::new(),
        per_family: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        evals: 0,
        candidates: vec![],
        errors: vec![],
    }));
    let mut hs = vec![];
    for w in 0..threads {
        let (jobs, sh, total) = (jobs.clone(), sh.clone(), total.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    IS_WORKER.with(|x| x.set(true));
                    sim::set_slot(w as u32 + 1);
                    let clock = my_cpu_clock();
                    loop {
                        if sh.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let k = sh.next.fetch_add(1, Ordering::Relaxed) as usize;
                        if k >= jobs.len() {
                            break;
                        }
                        let (fam, f, idx) = jobs[k];
                        *sh.running[w].lock().unwrap() = Some(Running {
                            clock,
                            cpu0: thread_cpu_ms(clock),
                            wall0: Instant::now(),
                            fam,
                            idx,
                        });
                        let case = Case {
                            seed: case_seed(base, fam, idx),
                            idx,
                            thorough,
                        };
                        let out = run_case(f, &case, false);
                        *sh.running[w].lock().unwrap() = None;
                        let mut t = total.lock().unwrap();
                        for (k, n) in out.counters {
                            *t.counters.entry(k).or_insert(0) += n;
                        }
                        t.evals += out.evals;
                        *t.per_family.entry(fam).or_insert(0) += 1;
                        if t.distinct.len() < 20_000_000 {
                            t.distinct.extend(out.distinct);
                        }
                        if let Some(s) = out.sample {
                            if t.samples.len() < 4 {
                                t.samples.push(format!("[{}] {}", fam, s));
                            }
                        }
                        if let Some(e) = out.harness_err {
                            t.errors.push(format!("{} {}: {}", fam, idx, e));
                        }
                        if let Some(m) = out.viols.iter().find(|v| v.0 == prop || v.0 == "*") {
                            t.candidates.push((fam, idx, m.1.clone(), out.trusted));
                            if t.candidates.len() >= 8 {
                                sh.stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    sh.done.fetch_add(1, Ordering::Relaxed);
                })
                .expect("thread"),
        );
    }
    // watch the workers
    let mut hangs: Vec<(&'static str, u64)> = vec![];
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if sh.done.load(Ordering::Relaxed) as usize == threads {
            break;
        }
        if t0.elapsed() > budget {
            sh.stop.store(true, Ordering::Relaxed);
        }
        for r in &sh.running {
            let g = r.lock().unwrap();
            if let Some(r) = g.as_ref() {
                if thread_cpu_ms(r.clock).saturating_sub(r.cpu0) > CPU_LIMIT_MS || r.wall0.elapsed() > Duration::from_secs(240) {
                    if !hangs.contains(&(r.fam, r.idx)) {
                        hangs.push((r.fam, r.idx));
                    }
                }
            }
        }
        if !hangs.is_empty() {
            sh.stop.store(true, Ordering::Relaxed);
            // the others get a moment
            std::thread::sleep(Duration::from_secs(2));
            break;
        }
    }
    let exploring = t0.elapsed().as_secs_f64();
    let mut confirmed: Option<(String, String)> = None;
    let mut inconclusive: Vec<String> = vec![];
    for (fam, idx) in &hangs {
        // once more, in a process of its own
        let me = std::env::current_exe().expect("exe");
        let mut c = std::process::Command::new(me)
            .args(["--one", prop, fam, &idx.to_string(), &base.to_string(), &thorough.to_string()])
            .stdout(std::process::Stdio::null())
            .spawn()
            .expect("child");
        let s = Instant::now();
        let mut ended = false;
        while s.elapsed() < Duration::from_millis(CPU_LIMIT_MS + 20_000) {
            if let Ok(Some(_)) = c.try_wait() {
                ended = true;
                break;
            }
            std::thread::sleep(Duration::from_millis(50));
        }
        if ended {
            inconclusive.push(format!("{} {}: took too long once", fam, idx));
        } else {
            let _ = c.kill();
            let _ = c.wait();
            let m = format!("the code under test does not come to rest: case {} {} runs for more than {}s of CPU time", fam, idx, CPU_LIMIT_MS / 1000);
            let path = write_replay(prop, fam, *idx, base, thorough, &[m.clone()], "");
            confirmed = Some((m, path));
            break;
        }
    }
    let mut t = match total.lock() {
        Ok(t) => t,
        Err(p) => p.into_inner(),
    };
    // A violation counts if it happens again when the case runs alone
    IS_WORKER.with(|x| x.set(true));
    sim::set_slot(0);
    let cands = std::mem::take(&mut t.candidates);
    if confirmed.is_none() {
        'all: for (fam, idx, first, trusted) in &cands {
            let f = family(fam).expect("family");
            for _ in 0..4 {
                let case = Case {
                    seed: case_seed(base, fam, *idx),
                    idx: *idx,
                    thorough,
                };
                let out = run_case(f.1, &case, true);
                let ms: Vec<String> = out.viols.iter().filter(|v| v.0 == prop || v.0 == "*").map(|v| v.1.clone()).collect();
                if !ms.is_empty() {
                    let path = write_replay(prop, fam, *idx, base, thorough, &ms, &out.text);
                    confirmed = Some((format!("[{} {}] {}", fam, idx, ms[0]), path));
                    break 'all;
                }
            }
            if *trusted {
                // seen once in an execution with real threads, which need not happen again
                let path = write_replay(prop, fam, *idx, base, thorough, &[first.clone()], "");
                confirmed = Some((format!("[{} {}] {}", fam, idx, first), path));
                break;
            }
            inconclusive.push(format!("{} {}: {}", fam, idx, first));
        }
    }
    let mut rc = 0;
    if confirmed.is_none() && hangs.is_empty() {
        for k in plan.2 {
            if t.counters.get(k).copied().unwrap_or(0) == 0 {
                let m = format!("nothing to judge: \"{}\" is 0 after {} cases against a working gateway", k, t.evals);
                let path = write_replay(prop, plan.1[0], 0, base, thorough, &[m.clone()], "");
                confirmed = Some((m, path));
                break;
            }
        }
    }
    if !t.errors.is_empty() && confirmed.is_none() {
        for e in t.errors.iter().take(5) {
            eprintln!("error of the check: {}", e);
        }
        // a few runs may fail for lack of resources, but not many
        if t.errors.len() as u64 * 50 > t.evals {
            rc = 2;
        }
    }
    let done: u64 = t.per_family.values().sum();
    let counters: Vec<String> = t.counters.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let fams: Vec<String> = t.per_family.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let samples = esc_list(&t.samples);
    let evidence = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"cases_per_family\": {{{}}},\n  \"cases_planned\": {},\n  \"cases_run\": {},\n  \"observed\": {{{}}},\n  \"inconclusive\": [{}],\n  \"harness_errors\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(prop),
        json_str(if thorough { "thorough" } else { "quick" }),
        base,
        t.evals,
        t.distinct.len(),
        json_str(RULE),
        samples,
        fams.join(", "),
        jobs.len(),
        done,
        counters.join(", "),
        esc_list(&inconclusive),
        t.errors.len(),
        esc_list(&ASSUMPTIONS.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        t0.elapsed().as_secs_f64(),
        confirmed.is_some() as u32
    );
    let dir = format!("{}/evidence", std::env::var("KNXMON_ROOT").unwrap_or_else(|_| "/verif".into()));
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, prop), evidence) {
        eprintln!("evidence: {}", e);
        rc = 2;
    }
    println!("{}: {} cases, {} evaluations, {} distinct, {:.1}s exploring", prop, done, t.evals, t.distinct.len(), exploring);
    for (k, v) in &t.counters {
        println!("  {}: {}", k, v);
    }
    for i in &inconclusive {
        println!("  inconclusive (seen once, not when run alone): {}", i);
    }
    if let Some((m, path)) = confirmed {
        println!("  {}", m);
        println!("VIOLATION property={} replay={}", prop, path);
        rc = 1;
    }
    rc
}

const RULE: &str = "Cases are generated from VERIF_SEED, the workload family and the case number. A simulated session is non-trivial if more than 4 events were observed at the socket and API boundary; distinct ones differ in the sequence of event kinds (services, message codes, errors, calls, results). A codec evaluation is one input judged against the reference; distinct ones differ in the input bytes or value.";
const ASSUMPTIONS: &[&str] = &[
    "the reference codec in refc.rs states the KNXnet/IP and cEMI layouts correctly",
    "tokio's paused clock and current thread scheduler are a legal schedule of the real one",
    "loopback datagrams are neither reordered nor lost unless the workload does so",
];
