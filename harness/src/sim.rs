//! Virtual time simulation of a KNXnet/IP gateway around the real client code, over real loopback
//! sockets, in one current thread runtime with a paused clock and a seeded scheduler.
use crate::inter::*;
use crate::refc::*;
use crate::util::*;
use std::collections::VecDeque;
use std::future::Future;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::os::fd::AsRawFd;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::UdpSocket;
use tokio::time::sleep;

pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

thread_local! {
    static SLOT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static ADDR_NR: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn set_slot(n: u32) {
    SLOT.with(|s| s.set(n));
}

/// Every simulation gets loopback addresses of its own, with a port outside of the ephemeral range.
pub fn fresh_addr() -> SocketAddrV4 {
    let n = ADDR_NR.with(|a| {
        a.set(a.get() + 1);
        a.get()
    });
    let slot = SLOT.with(|s| s.get());
    let pid = std::process::id();
    SocketAddrV4::new(Ipv4Addr::new(127, 1 + (pid % 240) as u8, (slot * 16 + (n / 250) % 16) as u8, 1 + (n % 250) as u8), 3671)
}

#[derive(Clone, Debug)]
pub enum ConnPol {
    Accept,
    AcceptAfter(u64),
    /// error status, short (8 byte) or long frame
    Refuse(u8, bool),
    Silent,
    Garbage(Vec<Vec<u8>>),
    /// does not answer, but sends something every so many milliseconds for so many milliseconds
    Chatty(Vec<u8>, u64, u64),
    /// datagrams of a previous connection, one every so many milliseconds, then acceptance
    Crowded(Vec<Vec<u8>>, u64),
}

#[derive(Clone, Debug)]
pub enum HbPol {
    Status(u8),
    StatusAfter(u8, u64),
    Silent,
    /// so many equal responses at once
    Burst(u64),
}

#[derive(Clone, Debug)]
pub enum DiscPol {
    /// so many connection state responses, the answer, and again so many
    Burst(u64, u64),
    Status(u8),
    StatusAfter(u8, u64),
    Silent,
}

#[derive(Clone, Debug)]
pub enum GwMsg {
    /// sent as a new tunneling request
    Cemi(Vec<u8>),
    /// the last tunneling request again
    Repeat,
    /// a request with another sequence number than the next one, not repeated
    Stale(Vec<u8>),
    /// a feature response, with the next sequence number
    Feature,
    Raw(Vec<u8>),
}

pub type TunnelPol = Box<dyn FnMut(&mut Rng, u8, &[u8]) -> Vec<(u64, GwMsg)> + Send>;

pub struct GwState {
    pub sock: Option<Arc<UdpSocket>>,
    pub peer: Option<SocketAddr>,
    pub channel: u8,
    pub connected: bool,
    pub sessions: u32,
    pub tx_seq: u8,
    pub last_req: Option<Vec<u8>>,
    pub conn: VecDeque<ConnPol>,
    pub conn_default: ConnPol,
    pub channels: VecDeque<u8>,
    pub hb: VecDeque<HbPol>,
    pub hb_default: HbPol,
    pub disc: VecDeque<DiscPol>,
    pub disc_default: DiscPol,
    pub tunnel: TunnelPol,
    pub ack: bool,
    pub feature_resp: bool,
    /// drops all input without processing it
    pub deaf: bool,
    pub rng: Rng,
    pub data_ep: Hpai,
    pub frames: Vec<(u64, Vec<u8>)>,
}

#[derive(Clone)]
pub struct Gw {
    pub st: Arc<Mutex<GwState>>,
    pub addr: SocketAddrV4,
}

pub fn bind_gw(addr: SocketAddrV4) -> Result<Arc<UdpSocket>, String> {
    let s = std::net::UdpSocket::bind(addr).map_err(|e| format!("bind {}: {:?}", addr, e))?;
    let fd = s.as_raw_fd();
    let size: libc::c_int = 4 << 20;
    unsafe {
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_RCVBUF, &size as *const _ as *const libc::c_void, 4);
    }
    s.set_nonblocking(true).map_err(|e| e.to_string())?;
    with_net(|n| n.gw_fds.insert(fd));
    UdpSocket::from_std(s).map(Arc::new).map_err(|e| e.to_string())
}

pub fn unbind_gw(s: &Arc<UdpSocket>) {
    let fd = s.as_raw_fd();
    with_net(|n| n.gw_fds.remove(&fd));
}

impl GwState {
    pub fn send_raw(&mut self, b: &[u8]) {
        if let (Some(s), Some(p)) = (&self.sock, self.peer) {
            let _ = s.try_send_to(b, p);
        }
    }

    pub fn send_cemi(&mut self, cemi: Vec<u8>) {
        let f = Frame::TunReq {
            ch: self.channel,
            seq: self.tx_seq,
            cemi,
        }
        .bytes();
        self.tx_seq = self.tx_seq.wrapping_add(1);
        self.last_req = Some(f.clone());
        self.send_raw(&f);
    }

    pub fn send_msg(&mut self, m: GwMsg) {
        match m {
            GwMsg::Cemi(c) => self.send_cemi(c),
            GwMsg::Repeat => {
                if let Some(f) = self.last_req.clone() {
                    self.send_raw(&f);
                }
            }
            GwMsg::Stale(cemi) => {
                let d = *self.rng.pick(&[254u8, 254, 253, 250, 128, 1, 2, 100]);
                let f = Frame::TunReq { ch: self.channel, seq: self.tx_seq.wrapping_add(d), cemi };
                self.last_req = None;
                self.send_raw(&f.bytes());
            }
            GwMsg::Feature => {
                let f = Frame::FeatResp {
                    ch: self.channel,
                    seq: self.tx_seq,
                    feature: *self.rng.pick(&[2u8, 6, 7, 8]),
                    status: if self.rng.chance(1, 4) { self.rng.u8() } else { 0 },
                    value: self.rng.u8(),
                }
                .bytes();
                self.tx_seq = self.tx_seq.wrapping_add(1);
                self.last_req = Some(f.clone());
                self.send_raw(&f);
            }
            GwMsg::Raw(b) => self.send_raw(&b),
        }
    }

    fn accept(&mut self) -> Vec<u8> {
        let ch = match self.channels.pop_front() {
            Some(c) => c,
            None => {
                // never the previous one again, so that sessions can be told apart
                let mut c = self.rng.corner8();
                while c == self.channel {
                    c = self.rng.u8();
                }
                c
            }
        };
        self.channel = ch;
        self.connected = true;
        self.sessions += 1;
        self.tx_seq = 0;
        self.last_req = None;
        Frame::ConnectResp {
            ch,
            status: 0,
            ep: Some(self.data_ep.clone()),
            ia: self.rng.u16(),
        }
        .bytes()
    }
}

impl Gw {
    pub fn new(seed: u64) -> Result<Gw, String> {
        let addr = fresh_addr();
        Gw::new_at(seed, addr)
    }

    pub fn new_at(seed: u64, addr: SocketAddrV4) -> Result<Gw, String> {
        let mut rng = Rng::new(seed);
        let data_ep = match rng.below(8) {
            0 | 1 => Hpai { proto: 1, ip: [0; 4], port: 0 },
            // what the gateway announces is not where the client's frames go
            2 => Hpai {
                proto: *rng.pick(&[1u8, 2, 2, 0, 255]),
                ip: rng.u32().to_be_bytes(),
                port: rng.u32() as u16,
            },
            _ => Hpai {
                proto: 1,
                ip: addr.ip().octets(),
                port: 3671,
            },
        };
        let channel = rng.u8();
        let gw = Gw {
            st: Arc::new(Mutex::new(GwState {
                sock: None,
                peer: None,
                channel,
                connected: false,
                sessions: 0,
                tx_seq: 0,
                last_req: None,
                conn: VecDeque::new(),
                conn_default: ConnPol::Accept,
                channels: VecDeque::new(),
                hb: VecDeque::new(),
                hb_default: HbPol::Status(0),
                disc: VecDeque::new(),
                disc_default: DiscPol::Status(0),
                tunnel: Box::new(default_tunnel),
                ack: true,
                feature_resp: true,
                deaf: false,
                rng,
                data_ep,
                frames: vec![],
            })),
            addr,
        };
        Ok(gw)
    }

    pub fn with<T>(&self, f: impl FnOnce(&mut GwState) -> T) -> T {
        f(&mut self.st.lock().unwrap())
    }

    pub fn addr_str(&self) -> String {
        self.addr.to_string()
    }

    /// starts (or restarts) the gateway: the socket gets bound, all sessions are unknown
    pub fn start(&self) -> Result<(), String> {
        let sock = bind_gw(self.addr)?;
        self.with(|s| {
            s.sock = Some(sock.clone());
            s.connected = false;
        });
        let gw = self.clone();
        tokio::spawn(async move {
            let mut buf = vec![0u8; 4096];
            loop {
                let me = gw.with(|s| s.sock.as_ref().map(|x| Arc::ptr_eq(x, &sock)).unwrap_or(false));
                if !me {
                    return;
                }
                match sock.recv_from(&mut buf).await {
                    Ok((n, peer)) => {
                        let me = gw.with(|s| s.sock.as_ref().map(|x| Arc::ptr_eq(x, &sock)).unwrap_or(false));
                        if me {
                            gw.handle(&buf[..n], peer);
                        }
                    }
                    Err(_) => sleep(ms(1)).await,
                }
            }
        });
        Ok(())
    }

    /// the process of the gateway dies: its port is closed
    pub async fn crash(&self) {
        let s = self.with(|s| {
            s.connected = false;
            s.sock.take()
        });
        if let Some(s) = s {
            // wake up the receive task, which then drops its reference
            let _ = s.try_send_to(&[0], SocketAddr::V4(self.addr));
            for _ in 0..1000 {
                if Arc::strong_count(&s) == 1 {
                    break;
                }
                tokio::task::yield_now().await;
            }
            unbind_gw(&s);
            drop(s);
            sleep(ms(2)).await;
        }
    }

    pub fn send_after(&self, delay: u64, m: GwMsg) {
        if delay == 0 {
            self.with(|s| s.send_msg(m));
        } else {
            let gw = self.clone();
            let session = self.with(|s| s.sessions);
            tokio::spawn(async move {
                sleep(ms(delay)).await;
                gw.with(|s| {
                    // telegrams of a session end with it
                    if s.sessions == session && s.connected || matches!(m, GwMsg::Raw(_)) {
                        s.send_msg(m)
                    }
                });
            });
        }
    }

    fn handle(&self, b: &[u8], peer: SocketAddr) {
        let t = with_net(|n| n.now());
        let mut out: Vec<(u64, GwMsg)> = vec![];
        self.with(|s| {
            s.frames.push((t, b.to_vec()));
            if s.deaf {
                return;
            }
            s.peer = Some(peer);
            let f = match Frame::parse(b) {
                Some(f) => f,
                None => return,
            };
            match f {
                Frame::ConnectReq { .. } => {
                    let pol = s.conn.pop_front().unwrap_or_else(|| s.conn_default.clone());
                    s.connected = false;
                    match pol {
                        ConnPol::Accept => {
                            let r = s.accept();
                            s.send_raw(&r);
                        }
                        ConnPol::AcceptAfter(d) => {
                            let r = s.accept();
                            out.push((d, GwMsg::Raw(r)));
                        }
                        ConnPol::Refuse(st, long) => {
                            let ep = if long { Some(s.data_ep.clone()) } else { None };
                            let ch = s.rng.u8();
                            s.send_raw(&Frame::ConnectResp { ch, status: st, ep, ia: 0 }.bytes());
                        }
                        ConnPol::Silent => (),
                        ConnPol::Garbage(g) => {
                            for x in g {
                                s.send_raw(&x);
                            }
                        }
                        ConnPol::Crowded(g, every) => {
                            let r = s.accept();
                            let n = g.len() as u64;
                            for (i, b) in g.into_iter().enumerate() {
                                out.push((every * i as u64, GwMsg::Raw(b)));
                            }
                            out.push((every * n, GwMsg::Raw(r)));
                        }
                        ConnPol::Chatty(b, every, long) => {
                            let mut t = every;
                            while t < long {
                                out.push((t, GwMsg::Raw(b.clone())));
                                t += every;
                            }
                        }
                    }
                }
                Frame::StateReq { ch, .. } => {
                    if !s.connected || ch != s.channel {
                        // E_CONNECTION_ID
                        s.send_raw(&Frame::StateResp { ch, status: 0x21 }.bytes());
                        return;
                    }
                    match s.hb.pop_front().unwrap_or_else(|| s.hb_default.clone()) {
                        HbPol::Status(st) => s.send_raw(&Frame::StateResp { ch, status: st }.bytes()),
                        HbPol::StatusAfter(st, d) => out.push((d, GwMsg::Raw(Frame::StateResp { ch, status: st }.bytes()))),
                        HbPol::Silent => (),
                        HbPol::Burst(n) => {
                            for _ in 0..n {
                                s.send_raw(&Frame::StateResp { ch, status: 0 }.bytes());
                            }
                        }
                    }
                }
                Frame::DiscReq { ch, .. } => match s.disc.pop_front().unwrap_or_else(|| s.disc_default.clone()) {
                    DiscPol::Status(st) => {
                        s.connected = false;
                        s.send_raw(&Frame::DiscResp { ch, status: st }.bytes());
                    }
                    DiscPol::StatusAfter(st, d) => out.push((d, GwMsg::Raw(Frame::DiscResp { ch, status: st }.bytes()))),
                    DiscPol::Silent => (),
                    DiscPol::Burst(n, m) => {
                        for _ in 0..n {
                            s.send_raw(&Frame::StateResp { ch, status: 0 }.bytes());
                        }
                        s.connected = false;
                        s.send_raw(&Frame::DiscResp { ch, status: 0 }.bytes());
                        for _ in 0..m {
                            s.send_raw(&Frame::StateResp { ch, status: 0 }.bytes());
                        }
                    }
                },
                Frame::TunReq { ch, seq, cemi } => {
                    if !s.connected || ch != s.channel {
                        return;
                    }
                    if s.ack {
                        s.send_raw(&Frame::TunAck { ch, seq, status: 0 }.bytes());
                    }
                    let mut rng = s.rng.clone();
                    out.extend((s.tunnel)(&mut rng, seq, &cemi));
                    s.rng = rng;
                }
                Frame::FeatSet { ch, seq, feature, value } => {
                    if !s.connected || ch != s.channel {
                        return;
                    }
                    if s.ack {
                        s.send_raw(&Frame::TunAck { ch, seq, status: 0 }.bytes());
                    }
                    if s.feature_resp {
                        let f = Frame::FeatResp {
                            ch,
                            seq: s.tx_seq,
                            feature,
                            status: if s.rng.chance(1, 4) { s.rng.u8() } else { 0 },
                            value,
                        }
                        .bytes();
                        s.tx_seq = s.tx_seq.wrapping_add(1);
                        s.send_raw(&f);
                    }
                }
                _ => (),
            }
        });
        for (d, m) in out {
            self.send_after(d, m);
        }
    }
}

/// confirms everything, answers reads with a value derived from the address
pub fn default_tunnel(_rng: &mut Rng, _seq: u8, cemi: &[u8]) -> Vec<(u64, GwMsg)> {
    let d = match LData::parse(cemi) {
        Some(d) => d,
        None => return vec![],
    };
    let mut out = vec![(0, GwMsg::Cemi(LData::con(d.dst, true, d.apci, d.payload.clone()).bytes()))];
    if d.apci == APCI_READ {
        out.push((0, GwMsg::Cemi(LData::ind(0x1105, d.dst, APCI_RESPONSE, Payload::Long(d.dst.to_be_bytes().to_vec())).bytes())));
    }
    out
}

/// Keeps virtual time honest: the clock of the paused runtime advances to the next timer even if a
/// datagram has just arrived, so there is always a timer at most `step` ahead, and time stands still
/// as long as a datagram which was sent has not been received by its socket.
async fn ticker(step: u64) {
    let mut stuck = 0u64;
    loop {
        sleep(ms(step)).await;
        let mut spins = 0;
        loop {
            let (s, r) = with_net(|n| (n.sent, n.received));
            let inflight = s.wrapping_sub(r);
            if inflight <= stuck {
                stuck = inflight;
                break;
            }
            spins += 1;
            if spins > if stuck == 0 { 200 } else { 60 } {
                // dropped by the kernel, or waiting in a socket nobody reads
                stuck = inflight;
                break;
            }
            tokio::task::yield_now().await;
            if spins > 100 {
                std::thread::sleep(Duration::from_micros(10));
            }
        }
    }
}

pub struct SimOut<T> {
    pub log: Vec<Ev>,
    pub panics: Vec<String>,
    pub injected: u64,
    pub result: Result<T, String>,
}

/// runs one simulation; Err: the harness could not run it
pub fn simulate<T: 'static, F, Fut>(seed: u64, f: F) -> SimOut<T>
where
    F: FnOnce() -> Fut,
    Fut: Future<Output = Result<T, String>>,
{
    take_panics();
    forget_descriptors();
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
        .build()
        .expect("runtime");
    // the futures of the library need not be Send to be monitored
    let local = tokio::task::LocalSet::new();
    let result = local.block_on(&rt, async {
        NET.with(|n| *n.borrow_mut() = Some(Net::new()));
        let t = tokio::spawn(ticker(5));
        let r = f().await;
        t.abort();
        r
    });
    // the library's tasks end here, what they still send is not part of the observation
    let net = NET.with(|n| n.borrow_mut().take());
    drop(local);
    drop(rt);
    let net = net.expect("simulation is active");
    SimOut {
        log: net.log,
        panics: take_panics(),
        injected: net.injected,
        result,
    }
}

pub fn now() -> u64 {
    with_net(|n| n.now())
}

pub async fn wait_until(limit: u64, mut f: impl FnMut() -> bool) -> bool {
    let end = now() + limit;
    loop {
        if f() {
            return true;
        }
        if now() >= end {
            return false;
        }
        sleep(ms(5)).await;
    }
}
