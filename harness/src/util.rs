//! Small helpers: PRNG, hashing, JSON output, panic capture, allocation and CPU accounting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::fmt::Write;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.u64() as u16
    }
    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// a byte with the corners over represented
    pub fn corner8(&mut self) -> u8 {
        match self.below(5) {
            0 => *self.pick(&[0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xfe, 0xff]),
            _ => self.u8(),
        }
    }
    pub fn corner16(&mut self) -> u16 {
        match self.below(5) {
            0 => *self.pick(&[0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x0800, 0x07ff]),
            _ => self.u16(),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.usize(i + 1));
        }
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(23) ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93));
    r.u64()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- allocation accounting

pub struct CountingAlloc;

thread_local! {
    static ALLOCATED: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

fn live_by(n: i64) {
    let _ = LIVE.try_with(|a| a.set(a.get() + n));
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCATED.try_with(|a| a.set(a.get() + l.size() as u64));
        live_by(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCATED.try_with(|a| a.set(a.get() + l.size() as u64));
        live_by(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live_by(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCATED.try_with(|a| a.set(a.get() + n as u64));
        live_by(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// bytes allocated and not freed by this thread
pub fn live() -> i64 {
    LIVE.with(|a| a.get())
}

pub fn allocated() -> u64 {
    ALLOCATED.with(|a| a.get())
}

// ---------------------------------------------------------------- panics

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
/// panics on threads which are not workers (multi threaded runtimes)
pub static FOREIGN_PANICS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
thread_local! {
    pub static IS_WORKER: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let text = format!("{} at {}", msg, loc);
        if std::env::var("KNXMON_TRACE_PANIC").is_ok() {
            eprintln!("panic: {}", text);
        }
        if IS_WORKER.with(|w| w.get()) {
            PANICS.with(|p| p.borrow_mut().push(text));
        } else {
            FOREIGN_PANICS.lock().unwrap().push(text);
        }
    }));
}

pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// A panic whose location is in this harness is an error of the harness.
pub fn is_harness_panic(p: &str) -> bool {
    match p.rsplit_once(" at ") {
        Some((_, loc)) => loc.starts_with("src/") || loc.contains("/verif/harness/"),
        None => false,
    }
}

/// CPU time of the given thread clock in ms
pub fn thread_cpu_ms(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::clock_gettime(clock, &mut ts);
    }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

pub fn my_cpu_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    unsafe {
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
    }
    c
}

// ---------------------------------------------------------------- log output

thread_local! {
    static LOGGING: Cell<bool> = const { Cell::new(false) };
}

/// Formats what the code under test logs, as a user with logging switched on does, and forgets it.
struct Sink;

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGING.try_with(|l| l.get()).unwrap_or(false)
    }
    fn log(&self, r: &log::Record) {
        struct Null;
        impl Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        if self.enabled(r.metadata()) {
            let _ = write!(Null, "{}", r.args());
        }
    }
    fn flush(&self) {}
}

pub fn install_logger() {
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
}

pub fn set_logging(on: bool) {
    LOGGING.with(|l| l.set(on));
}
