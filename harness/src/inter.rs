//! The observation boundary: send, sendto, recv and recvfrom of libc are interposed by the
//! executable, so that every datagram the code under test sends or receives is recorded in one
//! totally ordered log with its virtual time, errors can be injected, and the discovery multicast
//! can be redirected to mock devices. State is per thread: one simulation runs on one thread.
use libc::{c_int, c_void, size_t, sockaddr, socklen_t, ssize_t};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::net::{Ipv4Addr, SocketAddrV4};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// datagram given to the kernel by the code under test; err: the send failed (injected or real)
    Tx { t: u64, fd: i32, data: Vec<u8>, err: Option<i32>, to: Option<SocketAddrV4> },
    /// datagram received by the code under test
    Rx { t: u64, fd: i32, data: Vec<u8> },
    RxErr { t: u64, fd: i32, err: i32 },
    /// events of the harness: calls, returns, deliveries, notifications, faults
    Note { t: u64, note: Note },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Note {
    OpStart { id: usize, op: Op },
    OpEnd { id: usize, res: Res },
    Mark(String),
    Connected(bool),
    Notified { listener: usize },
    Registered { listener: usize },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Read { dst: u16 },
    Write { dst: u16, value: Vec<u8>, small: bool },
    MonWrite { dst: u16, value: Vec<u8>, small: bool },
    MonRead { dst: u16 },
    Status,
    Disconnect,
    MonDisconnect,
    Next { consumer: usize },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    Value(Vec<u8>),
    Status { ch: u8, status: u8 },
    Code(u8),
    Msg { src: u16, dst: u16, apci: u16, value: Vec<u8> },
    Err(String),
    Cancelled,
}

impl Ev {
    pub fn t(&self) -> u64 {
        match self {
            Ev::Tx { t, .. } | Ev::Rx { t, .. } | Ev::RxErr { t, .. } | Ev::Note { t, .. } => *t,
        }
    }
}

pub type SendFault = Box<dyn FnMut(&[u8]) -> Option<i32>>;
pub type RecvFault = Box<dyn FnMut() -> Option<i32>>;

pub struct Net {
    pub base: tokio::time::Instant,
    pub log: Vec<Ev>,
    pub gw_fds: HashSet<i32>,
    pub sent: u64,
    pub received: u64,
    pub send_fault: Option<SendFault>,
    pub recv_fault: Option<RecvFault>,
    pub redirect: Option<SocketAddrV4>,
    pub injected: u64,
    /// until then the send buffers of the client's sockets are full, and how often a call met that
    pub full_until: u64,
    /// only for tunneling requests (what is smaller still fits)
    pub full_for_requests: bool,
    pub full: HashSet<i32>,
    /// nothing is recorded
    pub quiet: bool,
}

impl Net {
    pub fn new() -> Net {
        Net {
            base: tokio::time::Instant::now(),
            log: vec![],
            gw_fds: HashSet::new(),
            sent: 0,
            received: 0,
            send_fault: None,
            recv_fault: None,
            redirect: None,
            injected: 0,
            full_until: 0,
            full_for_requests: false,
            full: HashSet::new(),
            quiet: false,
        }
    }
    pub fn record(&mut self, e: Ev) -> usize {
        if self.quiet {
            return self.log.len();
        }
        self.log.push(e);
        self.log.len() - 1
    }
    pub fn now(&self) -> u64 {
        (tokio::time::Instant::now() - self.base).as_millis() as u64
    }
}

thread_local! {
    pub static NET: RefCell<Option<Net>> = const { RefCell::new(None) };
}

pub fn with_net<T>(f: impl FnOnce(&mut Net) -> T) -> T {
    NET.with(|n| f(n.borrow_mut().as_mut().expect("simulation is active")))
}

fn try_net<T>(f: impl FnOnce(&mut Net) -> T) -> Option<T> {
    NET.try_with(|n| match n.try_borrow_mut() {
        Ok(mut g) => g.as_mut().map(f),
        Err(_) => None,
    })
    .ok()
    .flatten()
}

pub fn note(n: Note) -> usize {
    with_net(|net| {
        let t = net.now();
        net.record(Ev::Note { t, note: n })
    })
}

pub fn mark(s: impl Into<String>) {
    note(Note::Mark(s.into()));
}

/// Injected delays around the socket calls of threads which take part in a stress run: what
/// happens between a system call and the next step of the code becomes likely instead of rare.
pub struct Jitter {
    pub rng: crate::util::Rng,
    /// one call in so many is delayed
    pub one_in: u64,
    pub micros: u64,
    /// datagrams sent by these threads: when the call started
    pub sent: std::sync::Arc<std::sync::Mutex<Vec<(std::time::Instant, Vec<u8>)>>>,
}

thread_local! {
    pub static JITTER: RefCell<Option<Jitter>> = const { RefCell::new(None) };
}

fn jitter() {
    let d = JITTER
        .try_with(|j| match j.try_borrow_mut() {
            Ok(mut g) => g.as_mut().and_then(|j| if j.rng.below(j.one_in) == 0 { Some(j.rng.below(j.micros + 1)) } else { None }),
            Err(_) => None,
        })
        .ok()
        .flatten();
    if let Some(us) = d {
        std::thread::sleep(std::time::Duration::from_micros(us));
    }
}

fn sending(data: &[u8]) {
    let _ = JITTER.try_with(|j| {
        if let Ok(g) = j.try_borrow() {
            if let Some(j) = g.as_ref() {
                let now = std::time::Instant::now();
                j.sent.lock().unwrap().push((now, data.to_vec()));
            }
        }
    });
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

fn errno() -> i32 {
    unsafe { *libc::__errno_location() }
}

unsafe fn raw_sendto(fd: c_int, buf: *const c_void, len: size_t, flags: c_int, addr: *const sockaddr, alen: socklen_t) -> ssize_t {
    libc::syscall(libc::SYS_sendto, fd, buf, len, flags, addr, alen) as ssize_t
}

unsafe fn raw_recvfrom(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int, addr: *mut sockaddr, alen: *mut socklen_t) -> ssize_t {
    libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, addr, alen) as ssize_t
}

unsafe fn do_send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int, addr: *const sockaddr, alen: socklen_t) -> ssize_t {
    let data = std::slice::from_raw_parts(buf as *const u8, len);
    let mut to: Option<SocketAddrV4> = None;
    if !addr.is_null() && (*addr).sa_family as i32 == libc::AF_INET {
        let a = &*(addr as *const libc::sockaddr_in);
        to = Some(SocketAddrV4::new(Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr)), u16::from_be(a.sin_port)));
    }
    let plan = try_net(|net| {
        if net.gw_fds.contains(&fd) {
            return (false, None, None);
        }
        if net.now() < net.full_until && (!net.full_for_requests || data.get(2..4) == Some(&[4, 0x20])) {
            net.full.insert(fd);
            net.injected += 1;
            return (true, Some(libc::EAGAIN), None);
        }
        let fault = match net.send_fault.take() {
            Some(mut f) => {
                let e = f(data);
                net.send_fault = Some(f);
                e
            }
            None => None,
        };
        let redirect = match (to, net.redirect) {
            (Some(a), Some(r)) if a.ip().is_multicast() => Some(r),
            _ => None,
        };
        (true, fault, redirect)
    });
    let (client, fault, redirect) = match plan {
        None => {
            jitter();
            sending(data);
            let r = raw_sendto(fd, buf, len, flags, addr, alen);
            let e = errno();
            jitter();
            set_errno(e);
            return r;
        }
        Some(p) => p,
    };
    let (ret, err) = if let Some(e) = fault {
        (-1, e)
    } else {
        let r = if let Some(r) = redirect {
            let mut sa: libc::sockaddr_in = std::mem::zeroed();
            sa.sin_family = libc::AF_INET as u16;
            sa.sin_port = r.port().to_be();
            sa.sin_addr.s_addr = u32::from(*r.ip()).to_be();
            raw_sendto(fd, buf, len, flags, &sa as *const _ as *const sockaddr, std::mem::size_of::<libc::sockaddr_in>() as u32)
        } else {
            raw_sendto(fd, buf, len, flags, addr, alen)
        };
        (r, if r < 0 { errno() } else { 0 })
    };
    try_net(|net| {
        if ret >= 0 {
            net.sent += 1;
        }
        if matches!(fault, Some(e) if e != libc::EAGAIN) {
            net.injected += 1;
        }
        if client && !(ret < 0 && err == libc::EAGAIN) {
            let t = net.now();
            net.record(Ev::Tx {
                t,
                fd: serial(fd),
                data: data.to_vec(),
                err: if ret < 0 { Some(err) } else { None },
                to,
            });
        }
    });
    if ret < 0 {
        set_errno(err);
    }
    ret
}

unsafe fn do_recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int, addr: *mut sockaddr, alen: *mut socklen_t) -> ssize_t {
    let plan = try_net(|net| {
        if net.gw_fds.contains(&fd) {
            return (false, None);
        }
        let fault = match net.recv_fault.take() {
            Some(mut f) => {
                let e = f();
                net.recv_fault = Some(f);
                e
            }
            None => None,
        };
        (true, fault)
    });
    let (client, fault) = match plan {
        None => {
            let r = raw_recvfrom(fd, buf, len, flags, addr, alen);
            let e = errno();
            jitter();
            set_errno(e);
            return r;
        }
        Some(p) => p,
    };
    // The log gets the whole datagram, also if the buffer of the caller is too small for it
    let mut whole = [0u8; 4096];
    let mut whole_len = -1;
    if client && fault.is_none() {
        whole_len = raw_recvfrom(
            fd,
            whole.as_mut_ptr() as *mut c_void,
            whole.len(),
            flags | libc::MSG_PEEK | libc::MSG_DONTWAIT,
            std::ptr::null_mut(),
            std::ptr::null_mut(),
        );
    }
    let (ret, err) = if let Some(e) = fault {
        (-1, e)
    } else if client && whole_len < 0 {
        // also consumes a pending socket error
        (-1, errno())
    } else {
        let r = raw_recvfrom(fd, buf, len, flags, addr, alen);
        (r, if r < 0 { errno() } else { 0 })
    };
    try_net(|net| {
        if fault.is_some() {
            net.injected += 1;
        }
        if ret >= 0 {
            net.received += 1;
            if client {
                let t = net.now();
                let data = whole[..whole_len.max(0) as usize].to_vec();
                net.record(Ev::Rx { t, fd: serial(fd), data });
            }
        } else if client && err != libc::EAGAIN {
            let t = net.now();
            net.record(Ev::RxErr { t, fd: serial(fd), err });
        }
    });
    if ret < 0 {
        set_errno(err);
    }
    ret
}

thread_local! {
    /// descriptor: epoll descriptor and the interest registered for it
    static EPOLL: RefCell<HashMap<i32, (i32, u32, u64)>> = RefCell::new(HashMap::new());
}

#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(epfd: c_int, op: c_int, fd: c_int, event: *mut libc::epoll_event) -> c_int {
    let r = libc::syscall(libc::SYS_epoll_ctl, epfd, op, fd, event) as c_int;
    if op == libc::EPOLL_CTL_DEL {
        let e = errno();
        let _ = EPOLL.try_with(|m| m.try_borrow_mut().map(|mut m| m.remove(&fd)));
        set_errno(e);
    } else if r == 0 && !event.is_null() {
        let e = errno();
        let (events, data) = ((*event).events, (*event).u64);
        let _ = EPOLL.try_with(|m| {
            if let Ok(mut m) = m.try_borrow_mut() {
                m.insert(fd, (epfd, events, data));
            }
        });
        set_errno(e);
    }
    r
}

/// at the start of a case
pub fn forget_descriptors() {
    EPOLL.with(|m| m.borrow_mut().clear());
}

/// The send buffers are full for so long. The reactor learns that they no longer are as from the
/// kernel: by an edge of the descriptor.
pub fn fill_send_buffers(millis: u64) {
    with_net(|n| n.full_until = n.now() + millis);
    tokio::task::spawn_local(async move {
        tokio::time::sleep(std::time::Duration::from_millis(millis)).await;
        let waiting = match try_net(|n| (n.now() >= n.full_until, n.full.clone())) {
            Some((true, w)) => w,
            _ => return,
        };
        EPOLL.with(|m| {
            for (fd, (epfd, events, data)) in m.borrow().iter() {
                if waiting.contains(fd) {
                    let mut ev = libc::epoll_event { events: *events, u64: *data };
                    unsafe { libc::syscall(libc::SYS_epoll_ctl, *epfd, libc::EPOLL_CTL_MOD, *fd, &mut ev) };
                }
            }
        });
    });
}

thread_local! {
    static SOCKETS: RefCell<Vec<(c_int, i32)>> = const { RefCell::new(Vec::new()) };
    static SERIAL: Cell<i32> = const { Cell::new(0) };
}

/// sockets opened and not closed by this thread
pub fn open_sockets() -> usize {
    SOCKETS.with(|s| s.borrow().len())
}

/// descriptors are used again, these numbers are not
fn serial(fd: c_int) -> i32 {
    SOCKETS.try_with(|s| s.try_borrow().ok().and_then(|s| s.iter().rev().find(|x| x.0 == fd).map(|x| x.1))).ok().flatten().unwrap_or(-fd)
}

/// the one opened last by this thread
pub fn last_socket() -> i32 {
    SOCKETS.with(|s| s.borrow().last().map(|x| x.1).unwrap_or(-1))
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, protocol: c_int) -> c_int {
    let fd = libc::syscall(libc::SYS_socket, domain, ty, protocol) as c_int;
    if fd >= 0 && domain == libc::AF_INET {
        let _ = SOCKETS.try_with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                let n = SERIAL.with(|n| {
                    n.set(n.get() + 1);
                    n.get()
                });
                s.push((fd, n));
            }
        });
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _ = SOCKETS.try_with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            s.retain(|x| x.0 != fd);
        }
    });
    libc::syscall(libc::SYS_close, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    do_send(fd, buf, len, flags, std::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, len: size_t, flags: c_int, addr: *const sockaddr, alen: socklen_t) -> ssize_t {
    do_send(fd, buf, len, flags, addr, alen)
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    do_recv(fd, buf, len, flags, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int, addr: *mut sockaddr, alen: *mut socklen_t) -> ssize_t {
    do_recv(fd, buf, len, flags, addr, alen)
}

/// after a case which may have ended early
pub fn reset() {
    let _ = NET.try_with(|n| {
        if let Ok(mut g) = n.try_borrow_mut() {
            *g = None;
        }
    });
}
