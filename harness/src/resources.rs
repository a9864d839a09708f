//! Resource use: the same activity again and again, what is held afterwards does not grow.
use crate::codec;
use crate::inter::*;
use crate::net::*;
use crate::refc::*;
use crate::sim::*;
use crate::util::*;
use crate::{Case, Out};
use knx_ip_client::transport::udp::UdpClient;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc;
use tokio::time::{sleep, timeout};

/// more than the queues and buffers of the runtime vary by, less than what a small leak per event adds up to
const MAX_GROWTH: i64 = 8_000;
/// after the last handle is gone
const MAX_KEPT: i64 = 400;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Held {
    bytes: i64,
    sockets: usize,
    tasks: usize,
}

fn held() -> Held {
    Held {
        bytes: live(),
        sockets: open_sockets(),
        tasks: tokio::runtime::Handle::current().metrics().num_alive_tasks(),
    }
}

const ACTS: [&str; 17] = [
    "telegrams",
    "operations without an answer",
    "cancelled operations",
    "disconnect requests of the gateway",
    "refused connections",
    "malformed datagrams",
    "dropped listeners",
    "status queries",
    "heart beats",
    "waiting for messages",
    "unanswered disconnects",
    "searches",
    "other handles",
    "repeated telegrams and feature responses",
    "operations",
    "send errors",
    "malformed telegrams",
];

struct Ctx {
    gw: Gw,
    node: Node,
    monitor: bool,
    uniq: Arc<AtomicU64>,
    rng: Rng,
}

impl Ctx {
    async fn up(&self) {
        wait_until(130_000, || self.gw.with(|s| s.connected && s.conn.is_empty())).await;
        sleep(ms(20)).await;
    }

    /// what is waiting in the queue is fetched, so that the same is there each time
    async fn drain(&self) {
        while self.monitor {
            match timeout(ms(50), self.node.next(0)).await {
                Err(_) => return,
                Ok(Res::Err(e)) if e.contains("closed") => return,
                _ => (),
            }
        }
    }

    async fn telegrams(&mut self, n: u64, what: u64) {
        for i in 0..n {
            let m = match what {
                1 => GwMsg::Cemi(gen_bad_cemi(&mut self.rng, &self.uniq)),
                2 if i % 3 == 0 => GwMsg::Feature,
                2 if i % 3 == 1 => GwMsg::Repeat,
                // all of one size, what the queue holds does not vary then
                _ => {
                    let u = self.uniq.fetch_add(1, Ordering::Relaxed) as u32;
                    let value = Payload::Long(u.to_be_bytes().to_vec());
                    GwMsg::Cemi(LData::ind(self.rng.u16(), self.rng.u16(), APCI_WRITE, value).bytes())
                }
            };
            self.gw.with(|s| s.send_msg(m));
            if i % 10 == 9 {
                sleep(ms(1)).await;
            }
        }
        sleep(ms(20)).await;
    }

    async fn act(&mut self, act: usize, group: &Option<std::net::SocketAddrV4>) {
        match act {
            0 => self.telegrams(100, 0).await,
            1 => {
                self.gw.with(|s| s.tunnel = Box::new(|_, _, _| vec![]));
                for _ in 0..10 {
                    let dst = self.rng.u16();
                    self.node.random_op(&mut self.rng, dst).await;
                }
            }
            2 => {
                for _ in 0..30 {
                    let d = *self.rng.pick(&[0u64, 0, 1, 5, 100]);
                    let dst = self.rng.u16();
                    let _ = timeout(ms(d), self.node.random_op(&mut self.rng, dst)).await;
                }
            }
            3 => {
                for _ in 0..8 {
                    self.gw.with(|s| {
                        let ch = s.channel;
                        s.connected = false;
                        s.send_raw(&Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes())
                    });
                    self.up().await;
                }
            }
            4 => {
                self.gw.with(|s| {
                    for k in 0..6 {
                        s.conn.push_back(match k {
                            0 => ConnPol::Silent,
                            1 => ConnPol::Garbage(vec![vec![6, 0x10, 2, 6, 0, 9, 1]]),
                            _ => ConnPol::Refuse(0x24, k % 2 == 0),
                        });
                    }
                    let ch = s.channel;
                    s.connected = false;
                    s.send_raw(&Frame::StateResp { ch, status: 0x21 }.bytes())
                });
                self.up().await;
            }
            5 => {
                for _ in 0..8 {
                    let ch = self.gw.with(|s| s.channel);
                    let b = gen_hostile(&mut self.rng, ch, &self.uniq);
                    self.gw.with(|s| s.send_raw(&b));
                    sleep(ms(20)).await;
                    self.up().await;
                }
            }
            6 => {
                if let Node::M(m) = &self.node {
                    for k in 0..20 {
                        let (tx, rx) = mpsc::channel(1 + k % 3);
                        m.add_on_connect(tx).await;
                        drop(rx);
                    }
                }
                self.gw.with(|s| {
                    let ch = s.channel;
                    s.connected = false;
                    s.send_raw(&Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes())
                });
                self.up().await;
            }
            7 => {
                for _ in 0..30 {
                    self.gw.with(|s| s.hb_default = if s.rng.chance(1, 20) { HbPol::Silent } else { HbPol::Status(0) });
                    self.node.status().await;
                }
                self.gw.with(|s| s.hb_default = HbPol::Status(0));
            }
            8 => {
                for k in 0..10 {
                    if k == 5 {
                        self.gw.with(|s| s.hb.push_back(HbPol::Status(0x26)));
                    }
                    sleep(ms(60_000)).await;
                }
                self.up().await;
            }
            9 => {
                self.telegrams(20, 0).await;
                for _ in 0..30 {
                    let d = *self.rng.pick(&[0u64, 0, 1, 5, 100]);
                    let _ = timeout(ms(d), self.node.next(0)).await;
                }
            }
            10 => {
                self.gw.with(|s| s.disc_default = DiscPol::Silent);
                for _ in 0..5 {
                    let d = *self.rng.pick(&[5u64, 12_000]);
                    let _ = timeout(ms(d), self.node.disconnect()).await;
                }
            }
            11 => {
                if group.is_some() {
                    for _ in 0..6 {
                        let max = *self.rng.pick(&[30u64, 100, 3_000]);
                        let d = *self.rng.pick(&[1u64, 50, 5_000]);
                        let _ = timeout(ms(d), UdpClient::search(ms(max))).await;
                    }
                    // late answers
                    sleep(ms(4_000)).await;
                }
            }
            12 => {
                // in all states; addresses which cannot be used are refused
                for k in 0..8 {
                    let at = fresh_addr();
                    let other = match Gw::new_at(self.rng.u64(), at) {
                        Ok(g) => g,
                        Err(_) => continue,
                    };
                    if k % 3 != 2 && other.start().is_ok() {
                        if let Ok(n) = Node::connect(&other, k % 2 == 0).await {
                            let d = *self.rng.pick(&[0u64, 10, 500]);
                            sleep(ms(d)).await;
                            if k % 4 == 0 {
                                let _ = timeout(ms(12_000), n.disconnect()).await;
                            }
                        }
                        sleep(ms(50)).await;
                        other.crash().await;
                    } else {
                        let v6: SocketAddr = "[::1]:3671".parse().expect("address");
                        let _ = UdpClient::connect(v6).await;
                        let _ = knx_ip_client::transport::udp_monitor::UdpMonitor::connect("[::1]:3671").await;
                    }
                }
                sleep(ms(1_500)).await;
            }
            13 => self.telegrams(100, 2).await,
            14 => {
                self.gw.with(|s| s.tunnel = echo());
                for _ in 0..20 {
                    let dst = self.rng.u16();
                    self.node.random_op(&mut self.rng, dst).await;
                }
            }
            15 => {
                let mut r2 = Rng::new(self.rng.u64());
                with_net(|n| {
                    n.send_fault = Some(Box::new(move |_| {
                        if r2.chance(1, 3) {
                            Some(*r2.pick(&[libc::ENETUNREACH, libc::EPERM, libc::EHOSTUNREACH, libc::ENOBUFS]))
                        } else {
                            None
                        }
                    }))
                });
                for _ in 0..10 {
                    let dst = self.rng.u16();
                    self.telegrams(1, 0).await;
                    let _ = timeout(ms(500), self.node.random_op(&mut self.rng, dst)).await;
                }
                with_net(|n| n.send_fault = None);
                // the gateway does not know which of its connections still exist
                self.gw.with(|s| {
                    let ch = s.channel;
                    s.send_raw(&Frame::StateResp { ch, status: 0x21 }.bytes());
                });
                sleep(ms(45_000)).await;
                self.up().await;
            }
            _ => self.telegrams(100, 1).await,
        }
        self.up().await;
        if act != 0 {
            self.drain().await;
        }
        self.gw.with(|s| {
            s.frames.clear();
            s.hb.clear();
        });
    }
}

pub fn echo() -> TunnelPol {
    Box::new(|_, _, cemi| match LData::parse(cemi) {
        Some(d) => {
            let mut out = vec![(0, GwMsg::Cemi(LData::con(d.dst, true, d.apci, d.payload.clone()).bytes()))];
            if d.apci == APCI_READ {
                out.push((1, GwMsg::Cemi(LData::ind(0x1105, d.dst, APCI_RESPONSE, Payload::Long(vec![1, 2])).bytes())));
            }
            out
        }
        None => vec![],
    })
}

pub fn resources(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let bad: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let seen: Arc<Mutex<(u64, u64, i64)>> = Arc::new(Mutex::new((0, 0, 0)));
    let (bad2, seen2) = (bad.clone(), seen.clone());
    let rounds = if case.thorough { 150 } else { 50 };
    let idx = case.idx as usize;
    let r = simulate(seed, || async move {
        with_net(|n| n.quiet = true);
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        // every activity on its own in turn, then mixtures
        let acts: Vec<usize> = if idx < 4 * ACTS.len() {
            vec![idx % ACTS.len()]
        } else {
            (0..rng.range(2, 4)).map(|_| rng.usize(ACTS.len())).collect()
        };
        let monitor_only = |a: &usize| matches!(*a, 6 | 9);
        let client_only = |a: &usize| matches!(*a, 7);
        let monitor = rng.chance(1, 2) && !client_only(&acts[0]) || monitor_only(&acts[0]);
        let acts: Vec<usize> = acts.into_iter().filter(|a| if monitor { !client_only(a) } else { !monitor_only(a) }).collect();
        let names: Vec<&str> = acts.iter().map(|a| ACTS[*a]).collect();
        // what is created once and kept for ever
        for k in 0..2 {
            let other = Gw::new(rng.u64())?;
            other.start()?;
            let n = Node::connect(&other, k == 0).await?;
            up(&other, 1).await;
            n.random_op(&mut rng, 1).await;
            drop(n);
            sleep(ms(1_500)).await;
            other.crash().await;
        }
        let nothing = live();
        let gw = Gw::new(rng.u64())?;
        gw.start()?;
        let before = held();
        let node = Node::connect(&gw, monitor).await?;
        if !up(&gw, 1).await {
            return Err("no connection".into());
        }
        // devices which answer searches
        // listeners which stay, some of them never read
        let mut listeners = vec![];
        if let Node::M(m) = &node {
            for _ in 0..rng.below(4) {
                let (tx, rx) = mpsc::channel(rng.range(1, 4) as usize);
                m.add_on_connect(tx).await;
                listeners.push(rx);
            }
        }
        let mut group = None;
        let mut devices = None;
        let mut before = before;
        if acts.contains(&11) {
            let g = bind_gw(fresh_addr())?;
            if let Ok(SocketAddr::V4(a)) = g.local_addr() {
                with_net(|n| n.redirect = Some(a));
                group = Some(a);
            }
            let mut r2 = Rng::new(rng.u64());
            devices = Some(tokio::task::spawn_local(async move {
                let mut buf = [0u8; 1024];
                loop {
                    if let Ok((n, peer)) = g.recv_from(&mut buf).await {
                        if let Some(Frame::SearchReq { ep }) = Frame::parse(&buf[..n]) {
                            let to = SocketAddr::new(peer.ip(), ep.port);
                            for _ in 0..5 {
                                let _ = g.send_to(&codec::search_response(&mut r2).1, to).await;
                                sleep(ms(7)).await;
                            }
                        }
                    }
                }
            }));
            before.sockets += 1;
        }
        let mut ctx = Ctx {
            gw: gw.clone(),
            node,
            monitor,
            uniq,
            rng,
        };
        // the least of some rounds each: what is just being processed is not counted
        let mut first = held();
        let mut last = first;
        let n = rounds - 20;
        for k in 0..rounds {
            for a in &acts {
                ctx.act(*a, &group).await;
            }
            for l in listeners.iter_mut().skip(1) {
                while l.try_recv().is_ok() {}
            }
            let h = held();
            if k == 12 || k >= 12 && k < 20 && h.bytes < first.bytes {
                first = h;
            }
            if k == rounds - 8 || k >= rounds - 8 && h.bytes < last.bytes {
                last = h;
            }
        }
        let who = if monitor { "monitor" } else { "client" };
        let mut v = vec![];
        if last.sockets > first.sockets {
            v.push(format!("{} more sockets are open after {} more rounds of {:?} ({})", last.sockets - first.sockets, n, names, who));
        }
        if last.tasks > first.tasks {
            v.push(format!("{} more tasks are alive after {} more rounds of {:?} ({})", last.tasks - first.tasks, n, names, who));
        }
        if last.bytes - first.bytes > MAX_GROWTH {
            v.push(format!("{} more bytes are allocated after {} more rounds of {:?} ({})", last.bytes - first.bytes, n, names, who));
        }
        seen2.lock().unwrap().0 += rounds;
        seen2.lock().unwrap().1 += with_net(|n| n.sent + n.received);
        seen2.lock().unwrap().2 = last.bytes - first.bytes;
        if std::env::var("KNXMON_RES").is_ok() {
            eprintln!("{:?} {} {:?} {:?} growth {}", names, who, first, last, last.bytes - first.bytes);
        }
        let Ctx { node, gw: _gw2, .. } = ctx;
        drop(_gw2);
        drop(node);
        sleep(ms(2_000)).await;
        let after = held();
        if after.sockets > before.sockets {
            v.push(format!("{} sockets are still open after the handle was dropped ({:?}, {})", after.sockets - before.sockets, names, who));
        }
        if after.tasks > before.tasks {
            v.push(format!("{} tasks are still alive after the handle was dropped ({:?}, {})", after.tasks - before.tasks, names, who));
        }
        drop(listeners);
        gw.crash().await;
        drop(gw);
        if let Some(d) = devices {
            d.abort();
        }
        sleep(ms(1_000)).await;
        let kept = live() - nothing;
        if std::env::var("KNXMON_RES").is_ok() {
            eprintln!("after {:?} {} {} kept", names, who, kept);
        }
        if kept > MAX_KEPT {
            v.push(format!("{} bytes are still allocated after the handle was dropped ({:?}, {})", kept, names, who));
        }
        bad2.lock().unwrap().extend(v);
        Ok(())
    });
    for p in &r.panics {
        if is_harness_panic(p) {
            out.harness_err = Some(p.clone());
        } else {
            out.viols.push(("C16".into(), format!("panic: {}", p)));
        }
    }
    if let Err(e) = &r.result {
        out.harness_err.get_or_insert(e.clone());
    }
    for b in bad.lock().unwrap().drain(..) {
        out.viols.push(("C25".into(), b));
    }
    let (rounds, datagrams, growth) = *seen.lock().unwrap();
    out.count("rounds of activity", rounds);
    out.count("datagrams observed", datagrams);
    out.evals += 1;
    out.distinct.push(seed ^ growth as u64);
    if out.want_text {
        out.text.push_str(&format!("growth {} bytes in {} rounds, {} datagrams\n", growth, rounds, datagrams));
    }
}
