//! Workloads on UdpClient and UdpMonitor against the simulated gateway.
use crate::inter::*;
use crate::oracle;
use crate::refc::*;
use crate::sim::*;
use crate::util::*;
use crate::{Case, Out};
use knx_ip_client::packets::addresses::KnxAddress;
use knx_ip_client::transport::udp::UdpClient;
use knx_ip_client::transport::udp_monitor::UdpMonitor;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::future::Future;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use tokio::task::JoinHandle;
use tokio::time::{sleep, timeout};

thread_local! {
    static OP_ID: Cell<usize> = const { Cell::new(0) };
    /// which handle the next operation belongs to, and those so far
    pub static TELL_APART: Cell<bool> = const { Cell::new(false) };
    static OWNER: Cell<usize> = const { Cell::new(0) };
    static HANDLE: Cell<usize> = const { Cell::new(0) };
    static HANDLES: RefCell<HashMap<usize, usize>> = RefCell::new(HashMap::new());
    static OWNERS: RefCell<HashMap<usize, usize>> = RefCell::new(HashMap::new());
}

pub fn forget_owners() {
    OWNER.with(|o| o.set(0));
    OWNERS.with(|o| o.borrow_mut().clear());
    HANDLES.with(|o| o.borrow_mut().clear());
}

pub fn op_owner(id: usize) -> usize {
    OWNERS.with(|o| o.borrow().get(&id).copied().unwrap_or(0))
}

/// records call and return of an operation, also if it gets cancelled
pub async fn op<F: Future<Output = Res>>(o: Op, f: F) -> Res {
    struct Guard(usize, bool);
    impl Drop for Guard {
        fn drop(&mut self) {
            if !self.1 {
                let _ = NET.try_with(|n| {
                    if let Ok(mut g) = n.try_borrow_mut() {
                        if let Some(net) = g.as_mut() {
                            let t = net.now();
                            net.record(Ev::Note {
                                t,
                                note: Note::OpEnd {
                                    id: self.0,
                                    res: Res::Cancelled,
                                },
                            });
                        }
                    }
                });
            }
        }
    }
    let id = OP_ID.with(|i| {
        i.set(i.get() + 1);
        i.get()
    });
    let owner = OWNER.with(|o| o.get());
    if owner != 0 {
        OWNERS.with(|o| o.borrow_mut().insert(id, owner));
    }
    note(Note::OpStart { id, op: o });
    let mut g = Guard(id, false);
    let r = f.await;
    note(Note::OpEnd { id, res: r.clone() });
    g.1 = true;
    r
}

/// a group address in any of the notations, given as number or as text
pub fn address(rng: &mut Rng, a: u16) -> KnxAddress {
    let (m, mid, s, s11) = ((a >> 11) as u8, ((a >> 8) & 7) as u8, a as u8, a & 0x7ff);
    match rng.below(6) {
        0 => KnxAddress::group_1_level(a),
        1 => KnxAddress::group_2_level(m, s11),
        2 => KnxAddress::try_from(format!("{}/{}", m, s11).as_str()).unwrap_or_else(|_| KnxAddress::group_1_level(a)),
        3 => KnxAddress::try_from(format!("{}/{}/{}", m, mid, s).as_str()).unwrap_or_else(|_| KnxAddress::group_1_level(a)),
        4 => KnxAddress::try_from(format!("{}", a).as_str()).unwrap_or_else(|_| KnxAddress::group_1_level(a)),
        _ => KnxAddress::group_3_level(m, mid, s),
    }
}

#[derive(Clone)]
pub enum Node {
    C(Arc<UdpClient>),
    M(Arc<UdpMonitor>),
}

impl Node {
    /// tells handles apart, also after they are gone
    pub fn owner(&self) -> usize {
        let p = self.place();
        HANDLES.with(|h| h.borrow().get(&p).copied().unwrap_or(0))
    }
    fn place(&self) -> usize {
        match self {
            Node::C(c) => Arc::as_ptr(c) as usize,
            Node::M(m) => Arc::as_ptr(m) as usize,
        }
    }
    /// after its creation
    pub fn register(&self) -> usize {
        let n = HANDLE.with(|h| {
            h.set(h.get() + 1);
            h.get()
        });
        HANDLES.with(|h| h.borrow_mut().insert(self.place(), n));
        n
    }
    fn mine(&self) {
        if TELL_APART.with(|t| t.get()) {
            OWNER.with(|o| o.set(self.owner()));
        }
    }
    pub async fn connect(gw: &Gw, monitor: bool) -> Result<Node, String> {
        if monitor {
            UdpMonitor::connect(&gw.addr_str()).await.map(|m| Node::M(Arc::new(m))).map_err(|e| format!("{:?}", e))
        } else {
            UdpClient::connect(gw.addr).await.map(|m| Node::C(Arc::new(m))).map_err(|e| format!("{:?}", e))
        }
    }
    pub async fn read(&self, a: KnxAddress) -> Res {
        self.mine();
        let dst = a.to_u16();
        match self {
            Node::C(c) => {
                op(Op::Read { dst }, async {
                    match c.read_group_address_value(a).await {
                        Ok(v) => Res::Value(v),
                        Err(e) => Res::Err(format!("{}", e)),
                    }
                })
                .await
            }
            Node::M(m) => {
                op(Op::MonRead { dst }, async {
                    match m.solecitate_group_read(a).await {
                        Ok(()) => Res::Ok,
                        Err(e) => Res::Err(format!("{}", e)),
                    }
                })
                .await
            }
        }
    }
    pub async fn write(&self, a: KnxAddress, value: Vec<u8>, small: bool) -> Res {
        self.mine();
        let dst = a.to_u16();
        let v = value.clone();
        match self {
            Node::C(c) => {
                op(Op::Write { dst, value, small }, async {
                    match c.write_group_address_value(a, v, small).await {
                        Ok(()) => Res::Ok,
                        Err(e) => Res::Err(format!("{}", e)),
                    }
                })
                .await
            }
            Node::M(m) => {
                op(Op::MonWrite { dst, value, small }, async {
                    match m.write_group_address_value(a, v, small).await {
                        Ok(()) => Res::Ok,
                        Err(e) => Res::Err(format!("{}", e)),
                    }
                })
                .await
            }
        }
    }
    pub async fn status(&self) -> Res {
        self.mine();
        match self {
            Node::C(c) => {
                op(Op::Status, async {
                    match c.get_connection_status().await {
                        Ok(r) => Res::Status {
                            ch: r.communication_channel_id,
                            status: r.status,
                        },
                        Err(e) => Res::Err(format!("{}", e)),
                    }
                })
                .await
            }
            Node::M(_) => Res::Ok,
        }
    }
    pub async fn disconnect(&self) -> Res {
        self.mine();
        match self {
            Node::C(c) => {
                op(Op::Disconnect, async {
                    match c.disconnect().await {
                        Ok(()) => Res::Ok,
                        Err(e) => Res::Err(format!("{}", e)),
                    }
                })
                .await
            }
            Node::M(m) => {
                op(Op::MonDisconnect, async {
                    match m.disconnect().await {
                        Ok(c) => Res::Code(c),
                        Err(e) => Res::Err(format!("{}", e)),
                    }
                })
                .await
            }
        }
    }
    pub async fn next(&self, consumer: usize) -> Res {
        self.mine();
        match self {
            Node::M(m) => {
                op(Op::Next { consumer }, async {
                    match m.next_msg().await {
                        Ok(i) => Res::Msg {
                            src: i.l_data.src,
                            dst: i.l_data.dest,
                            apci: i.apci,
                            value: i.value,
                        },
                        Err(e) => Res::Err(format!("{}", e)),
                    }
                })
                .await
            }
            Node::C(_) => Res::Ok,
        }
    }
    pub async fn random_op(&self, rng: &mut Rng, dst: u16) -> Res {
        let a = address(rng, dst);
        if rng.chance(1, 2) {
            self.read(a).await
        } else {
            let (v, small) = gen_value(rng);
            self.write(a, v, small).await
        }
    }
}

pub fn gen_value(rng: &mut Rng) -> (Vec<u8>, bool) {
    if rng.chance(1, 4) {
        let n = if rng.chance(1, 8) { rng.usize(3) } else { 1 };
        let v = if rng.chance(1, 4) { vec![rng.u8(); n] } else { vec![rng.u8() & 0x3f; n] };
        (v, true)
    } else {
        let n = match rng.below(8) {
            0 => *rng.pick(&[0, 1, 13, 14, 15, 16, 17, 252, 253]),
            1 => rng.range(1, 253),
            2 if rng.chance(1, 2) => *rng.pick(&[254, 255, 256, 300, 1000]),
            _ => rng.range(1, 8),
        };
        (rng.bytes(n as usize), false)
    }
}

/// a valid telegram with a value which does not occur twice (unless it is in short form)
pub fn gen_ind(rng: &mut Rng, uniq: &AtomicU64, dst: Option<u16>) -> LData {
    let n = uniq.fetch_add(1, Ordering::Relaxed) as u32;
    let payload = match rng.below(6) {
        0 => Payload::Short(rng.u8() & 0x3f),
        1 => {
            let extra = match rng.below(3) {
                0 => rng.range(0, 249),
                1 => *rng.pick(&[0, 9, 10, 11, 12, 13, 249]),
                _ => rng.range(0, 20),
            } as usize;
            let mut v = n.to_be_bytes().to_vec();
            v.extend(rng.bytes(extra));
            Payload::Long(v)
        }
        2 => Payload::Long(vec![n as u8]),
        _ => Payload::Long(n.to_be_bytes().to_vec()),
    };
    let apci = match rng.below(6) {
        0 => rng.below(16) as u16,
        1 => APCI_READ,
        2 | 3 => APCI_RESPONSE,
        _ => APCI_WRITE,
    };
    let src = rng.corner16();
    let dst = dst.unwrap_or_else(|| rng.corner16());
    let mut d = LData::ind(src, dst, apci, payload);
    if rng.chance(1, 3) {
        d.ctrl1 = (d.ctrl1 & 0x80) | (rng.u8() & 0x7f);
        d.ctrl2 = rng.u8();
    }
    if rng.chance(1, 6) {
        for _ in 0..rng.range(1, 3) {
            let t = *rng.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xfe]);
            let l = rng.below(12) as usize;
            d.add_info.push((t, rng.bytes(l)));
        }
        if rng.chance(1, 12) {
            // as long as it gets, more than 512 bytes with a long value
            d.add_info = vec![(0xfe, rng.bytes(253))];
        }
    }
    d
}

/// content of a tunneling request which is no L_Data telegram for anybody
pub fn gen_bad_cemi(rng: &mut Rng, uniq: &AtomicU64) -> Vec<u8> {
    match rng.below(3) {
        0 => {
            let mut d = gen_ind(rng, uniq, None);
            if rng.chance(1, 3) {
                d.mc = L_DATA_CON;
            }
            let b = d.bytes();
            // a confirmation is recognisable without its payload
            let max = if d.mc == L_DATA_CON { b.len().min(7) } else { b.len() };
            b[..rng.usize(max)].to_vec()
        }
        1 => {
            let mc = *rng.pick(&[0x00u8, 0x10, 0x11, 0x13, 0x25, 0x2d, 0x2f, 0x41, 0x89, 0xfc, 0xf0, 0xff]);
            let mut d = gen_ind(rng, uniq, None);
            d.mc = mc;
            d.bytes()
        }
        _ => vec![],
    }
}

/// any datagram except a disconnect response, an accepting connect response, or something that could be taken as telegram
pub fn gen_hostile(rng: &mut Rng, ch: u8, uniq: &AtomicU64) -> Vec<u8> {
    loop {
        let mut b = match rng.below(10) {
            0 => {
                let n = rng.below(40) as usize;
                rng.bytes(n)
            }
            1 => {
                let n = rng.range(0, 1400) as usize;
                let mut b = rng.bytes(n);
                if n > 6 {
                    b[0] = 6;
                    b[1] = 0x10;
                }
                b
            }
            2 => {
                // known service, any content
                let s = *rng.pick(&[0x0201u16, 0x0202, 0x0203, 0x0204, 0x0205, 0x0206, 0x0207, 0x0208, 0x0209, 0x0310, 0x0311, 0x0420, 0x0421, 0x0422, 0x0423, 0x0424, 0x0425, 0x0530, 0x0950]);
                let n = rng.below(60) as usize;
                let mut b = vec![6, 0x10, (s >> 8) as u8, s as u8];
                b.extend(((6 + n) as u16).to_be_bytes());
                b.extend(rng.bytes(n));
                b
            }
            3 | 4 | 5 => {
                // mutated valid frame
                let mut b = gen_gateway_frame(rng, ch, uniq).bytes();
                for _ in 0..rng.range(1, 3) {
                    match rng.below(4) {
                        0 => {
                            let i = rng.usize(b.len().max(1));
                            if i < b.len() {
                                b[i] = rng.corner8();
                            }
                        }
                        1 => {
                            let n = rng.usize(b.len() + 1);
                            b.truncate(n);
                        }
                        2 => {
                            let n = rng.below(20) as usize;
                            b.extend(rng.bytes(n));
                        }
                        _ => {
                            if b.len() > 5 {
                                b[4] = rng.corner8();
                                b[5] = rng.corner8();
                            }
                        }
                    }
                }
                b
            }
            6 => vec![],
            7 => Frame::StateResp { ch, status: rng.range(1, 255) as u8 }.bytes(),
            8 => Frame::ConnectResp {
                ch,
                status: rng.range(1, 255) as u8,
                ep: if rng.chance(1, 2) { Some(CLIENT_HPAI) } else { None },
                ia: 0,
            }
            .bytes(),
            _ => {
                let n = *rng.pick(&[1usize, 2, 3, 4, 5, 6, 7, 9, 600, 1023, 1024, 1025, 1300, 3000]);
                vec![*rng.pick(&[0u8, 6, 0xff]); n]
            }
        };
        if oracle::service(&b) == 0x020a || oracle::opens(&b) {
            continue;
        }
        if oracle::service(&b) == 0x0420 && b.len() > 10 && Frame::parse(&b).is_none() && matches!(b[10], 0x29 | 0x2b | 0x2e) {
            b[10] = 0x13;
        }
        if let Some(Frame::TunReq { cemi, .. }) = Frame::parse(&b) {
            if cemi.first().map(|m| matches!(m, 0x29 | 0x2b | 0x2e)).unwrap_or(false) {
                if LData::parse(&cemi).map(|d| d.add_info.is_empty()) != Some(true) {
                    b[10] = 0x13;
                }
            }
        }
        return b;
    }
}

pub fn gen_gateway_frame(rng: &mut Rng, ch: u8, uniq: &AtomicU64) -> Frame {
    match rng.below(7) {
        0 => Frame::StateResp { ch, status: 0 },
        1 => Frame::TunAck {
            ch,
            seq: rng.u8(),
            status: rng.below(3) as u8,
        },
        2 => Frame::FeatResp {
            ch,
            seq: rng.u8(),
            feature: *rng.pick(&[2u8, 6, 7, 8]),
            status: 0,
            value: rng.u8(),
        },
        3 => Frame::DiscReq {
            ch: rng.u8(),
            ep: CLIENT_HPAI,
        },
        4 => Frame::ConnectResp {
            ch,
            status: 0x24,
            ep: None,
            ia: 0,
        },
        _ => Frame::TunReq {
            ch,
            seq: rng.u8(),
            cemi: gen_ind(rng, uniq, None).bytes(),
        },
    }
}

// ---------------------------------------------------------------- consumers and traffic

/// reads telegrams until stopped, with the given pauses and cancellations; returns after stop once nothing comes any more
pub fn consumer(node: &Node, id: usize, seed: u64, pause: u64, cancel: bool, stop: Arc<AtomicBool>) -> JoinHandle<()> {
    let node = node.clone();
    tokio::task::spawn_local(async move {
        let mut rng = Rng::new(seed);
        let patient = !cancel && rng.chance(1, 3);
        loop {
            let stopping = stop.load(Ordering::Relaxed);
            if patient && !stopping {
                // one call waits as long as nothing comes
                let ended = async {
                    while !stop.load(Ordering::Relaxed) {
                        sleep(ms(5_000)).await;
                    }
                };
                tokio::select! {
                    biased;
                    r = node.next(id) => match r {
                        Res::Err(e) if e.contains("closed") && stop.load(Ordering::Relaxed) => return,
                        Res::Err(_) => sleep(ms(1)).await,
                        _ if pause > 0 => sleep(ms(rng.range(0, pause * 2))).await,
                        _ => (),
                    },
                    _ = ended => (),
                }
                continue;
            }
            let limit = if stopping {
                500
            } else if cancel && rng.chance(1, 2) {
                rng.range(1, 50)
            } else {
                1000
            };
            match timeout(ms(limit), node.next(id)).await {
                Err(_) if stopping => return,
                Err(_) => (),
                Ok(Res::Err(e)) if e.contains("closed") && stopping => return,
                Ok(Res::Err(_)) => sleep(ms(1)).await,
                Ok(_) => {
                    if pause > 0 && !stopping {
                        sleep(ms(rng.range(0, pause * 2))).await
                    } else if rng.chance(1, 8) {
                        tokio::task::yield_now().await
                    }
                }
            }
        }
    })
}

pub async fn up(gw: &Gw, sessions: u32) -> bool {
    let ok = wait_until(120_000, || gw.with(|s| s.sessions >= sessions && s.connected)).await;
    sleep(ms(20)).await;
    ok
}

/// run the oracles over the log of a finished simulation
pub fn finish<T>(case: &Case, out: &mut Out, r: SimOut<T>, complete: bool) {
    let mut v: oracle::Viols = vec![];
    for p in &r.panics {
        if is_harness_panic(p) {
            out.harness_err = Some(p.clone());
        } else {
            v.push(("C16", format!("panic: {}", p)));
        }
    }
    if let Err(e) = &r.result {
        out.harness_err.get_or_insert(e.clone());
    }
    let an = oracle::analyse(&r.log);
    out.count("frames sent by the client", oracle::conform(&r.log, &mut v));
    out.count("tunnel requests checked", oracle::sequence(&r.log, &an, &mut v));
    out.count("acknowledges checked", oracle::acks(&r.log, &an, &mut v));
    out.count("telegrams delivered", oracle::deliveries(&r.log, &an, complete, &mut v));
    out.count("reads and writes judged", oracle::operations(&r.log, &an, &mut v));
    out.count("operations without connection", oracle::unconnected(&r.log, &an, &mut v));
    out.count("connected states judged", oracle::connected_state(&r.log, &an, &mut v));
    out.count("first requests of connections of a monitor", oracle::info_service(&r.log, &an, &mut v));
    out.count("connection state requests", oracle::heartbeats(&r.log, &an, &mut v));
    out.count("connections replaced", oracle::session_ends(&r.log, &an, &mut v));
    out.count("disconnect responses sent", oracle::disconnect_answers(&r.log, &an, &mut v));
    out.count("disconnects judged", oracle::disconnects(&r.log, &an, &mut v));
    out.count("status queries judged", oracle::status_queries(&r.log, &an, &mut v));
    out.count("failed connection attempts", oracle::attempts(&r.log, &an, &mut v));
    out.count("connections", an.sessions.len() as u64);
    out.count("events observed", r.log.len() as u64);
    out.count("datagrams received by the client", r.log.iter().filter(|e| matches!(e, Ev::Rx { .. })).count() as u64);
    out.count("faults injected", r.injected);
    out.count("virtual seconds", r.log.last().map(|e| e.t() / 1000).unwrap_or(0));
    out.evals += 1;
    if r.log.len() > 4 {
        out.distinct.push(oracle::shape(&r.log));
    }
    for (p, m) in v {
        out.viols.push((p.to_string(), m));
    }
    if out.want_text {
        out.text.push_str(&oracle::render(&r.log, if std::env::var("KNXMON_FULL").is_ok() { usize::MAX } else { 4000 }));
    }
    if out.sample.is_none() && case.idx == 0 {
        out.sample = Some(format!("first events of case {}:\n{}", case.idx, oracle::render(&r.log[..r.log.len().min(14)], 14)));
    }
}

fn vi(out: &mut Out, p: &str, m: String) {
    out.viols.push((p.to_string(), m));
}

// ---------------------------------------------------------------- gateway behaviours

/// answers requests in all kinds of right and wrong ways, surrounded by other traffic
pub fn nasty_tunnel(uniq: Arc<AtomicU64>, harsh: u64, monitor: bool) -> TunnelPol {
    Box::new(move |rng, _seq, cemi| {
        let d = match LData::parse(cemi) {
            Some(d) => d,
            None => return vec![],
        };
        let mut out: Vec<(u64, GwMsg)> = vec![];
        let noise = |rng: &mut Rng, out: &mut Vec<(u64, GwMsg)>, t: u64| {
            let m = match rng.below(8) {
                // another address, often a neighbour that differs in one bit
                0 | 1 => {
                    let o = d.dst ^ (1 << rng.below(16));
                    let mut x = gen_ind(rng, &uniq, Some(o));
                    if rng.chance(1, 4) {
                        x.mc = L_DATA_CON;
                    }
                    if rng.chance(1, 4) {
                        x.src = d.dst;
                    }
                    GwMsg::Cemi(x.bytes())
                }
                // another device reads the same address
                2 => GwMsg::Cemi(LData::ind(rng.u16(), d.dst, APCI_READ, Payload::Short(0)).bytes()),
                // something else with the same address
                3 => {
                    let ap = *rng.pick(&[0u16, 3, 4, 5, 6, 8, 10, 15]);
                    GwMsg::Cemi(LData::ind(rng.u16(), d.dst, ap, Payload::Long(rng.bytes(2))).bytes())
                }
                4 if rng.chance(1, 3) => GwMsg::Stale(gen_bad_cemi(rng, &uniq)),
                4 => GwMsg::Cemi(gen_bad_cemi(rng, &uniq)),
                5 => GwMsg::Repeat,
                6 => GwMsg::Raw(
                    Frame::TunAck {
                        ch: rng.u8(),
                        seq: rng.u8(),
                        status: rng.below(2) as u8,
                    }
                    .bytes(),
                ),
                _ => {
                    let mut x = LData::ind(rng.u16(), d.dst, APCI_WRITE, Payload::Long(rng.bytes(3)));
                    // what a monitor makes of L_Busmon.ind is left open
                    x.mc = *rng.pick(&[0x11u8, 0x10, 0x2d, 0x2f, 0x13, 0x2b, 0x2b]);
                    if monitor && x.mc == 0x2b {
                        x.mc = 0x25;
                    }
                    GwMsg::Cemi(x.bytes())
                }
            };
            out.push((t, m));
        };
        let mut t = 0;
        let step = |rng: &mut Rng, t: &mut u64| match rng.below(6) {
            0 => *t += rng.range(1, 50),
            1 => *t += rng.range(1, 3000),
            _ => (),
        };
        for _ in 0..rng.below(1 + harsh) {
            noise(rng, &mut out, t);
            step(rng, &mut t);
        }
        // a lot is going on elsewhere on the bus just now
        if rng.chance(1, 15) {
            for _ in 0..rng.range(10, 95) {
                let mut x = gen_ind(rng, &uniq, Some(d.dst ^ 1));
                x.dst ^= rng.below(1 << 14) as u16 * 4;
                out.push((t, GwMsg::Cemi(x.bytes())));
            }
        }
        let answer_late = rng.chance(1, 10);
        let con_first = rng.chance(3, 4);
        let con = |rng: &mut Rng, out: &mut Vec<(u64, GwMsg)>, t: u64| {
            let ok = match rng.below(8) {
                0 => return,
                1 => false,
                _ => true,
            };
            let mut c = LData::con(d.dst, ok, d.apci, d.payload.clone());
            if rng.chance(1, 2) {
                // gateways fill in what they like
                c.src = if rng.chance(1, 2) { rng.corner16() } else { d.dst };
            }
            if rng.chance(1, 4) {
                c.ctrl1 = rng.u8() & 0xfe | !ok as u8;
                c.ctrl2 = rng.u8();
            }
            if rng.chance(1, 8) {
                c.add_info = gen_ind(rng, &uniq, None).add_info;
            }
            if rng.chance(1, 8) {
                c.payload = Payload::Short(0);
            }
            out.push((t, GwMsg::Cemi(c.bytes())))
        };
        if con_first {
            con(rng, &mut out, t);
            step(rng, &mut t);
            for _ in 0..rng.below(1 + harsh) {
                noise(rng, &mut out, t);
                step(rng, &mut t);
            }
        }
        if d.apci == APCI_READ && !rng.chance(1, 12) {
            if answer_late {
                t = t.max(rng.range(10_500, 14_000));
            } else if rng.chance(1, 10) {
                t = t.max(rng.range(5_000, 9_700));
            }
            let mut x = gen_ind(rng, &uniq, Some(d.dst));
            x.apci = if rng.chance(1, 5) { APCI_WRITE } else { APCI_RESPONSE };
            out.push((t, GwMsg::Cemi(x.bytes())));
            if rng.chance(1, 6) {
                out.push((t, GwMsg::Repeat));
            }
            if rng.chance(1, 6) {
                let mut x = gen_ind(rng, &uniq, Some(d.dst));
                x.apci = APCI_WRITE;
                out.push((t + rng.below(20), GwMsg::Cemi(x.bytes())));
            }
        }
        if !con_first {
            if d.apci == APCI_WRITE {
                // other telegrams for the address come before the confirmation
                let mut x = gen_ind(rng, &uniq, Some(d.dst));
                x.apci = *rng.pick(&[APCI_WRITE, APCI_RESPONSE, APCI_READ]);
                out.push((t, GwMsg::Cemi(x.bytes())));
                step(rng, &mut t);
                if answer_late {
                    t = t.max(rng.range(10_500, 14_000));
                }
            }
            con(rng, &mut out, t);
        }
        for (t, _) in out.iter_mut() {
            // not at the very time out
            if *t > 9_800 && *t < 10_300 {
                *t = 10_300;
            }
        }
        out
    })
}

/// traffic nobody asked for, until stopped
pub fn traffic(gw: &Gw, seed: u64, uniq: Arc<AtomicU64>, mean: u64, stop: Arc<AtomicBool>) -> JoinHandle<()> {
    let gw = gw.clone();
    tokio::task::spawn_local(async move {
        let mut rng = Rng::new(seed);
        while !stop.load(Ordering::Relaxed) {
            sleep(ms(rng.range(0, mean * 2))).await;
            let n = if rng.chance(1, 10) { rng.range(2, 30) } else { 1 };
            for _ in 0..n {
                let m = match rng.below(13) {
                    0 => GwMsg::Repeat,
                    12 => GwMsg::Feature,
                    1 if rng.chance(1, 3) => GwMsg::Stale(gen_bad_cemi(&mut rng, &uniq)),
                    1 => GwMsg::Cemi(gen_bad_cemi(&mut rng, &uniq)),
                    2 => {
                        let mut d = gen_ind(&mut rng, &uniq, None);
                        d.mc = L_DATA_CON;
                        GwMsg::Cemi(d.bytes())
                    }
                    _ => GwMsg::Cemi(gen_ind(&mut rng, &uniq, None).bytes()),
                };
                gw.with(|s| {
                    if s.connected {
                        s.send_msg(m)
                    }
                });
            }
        }
    })
}

// ---------------------------------------------------------------- families

/// operations of a client with all kinds of answers and traffic
pub fn ops_client(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(rng.below(1 << 24)));
        let gw = Gw::new(rng.u64())?;
        let harsh = rng.below(5);
        gw.with(|s| {
            s.tunnel = nasty_tunnel(uniq.clone(), harsh, false);
            s.ack = rng.chance(9, 10);
            if rng.chance(1, 3) {
                s.channels.push_back(rng.corner8());
            }
        });
        gw.start()?;
        let node = Node::connect(&gw, false).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        let stop = Arc::new(AtomicBool::new(false));
        let tr = if rng.chance(1, 2) { Some(traffic(&gw, rng.u64(), uniq.clone(), *rng.pick(&[5u64, 50, 500]), stop.clone())) } else { None };
        let tasks = rng.range(1, 4) as usize;
        let per = rng.range(1, 12);
        // addresses of concurrent operations are different, but may be close to each other
        let base = rng.corner16();
        let mut hs = vec![];
        for k in 0..tasks {
            let node = node.clone();
            let mut rng = Rng::new(rng.u64());
            let pool: Vec<u16> = (0..3).map(|j| base.wrapping_add((k * 3 + j) as u16) ^ ((k as u16) << 11)).collect();
            let pool: Vec<u16> = pool.into_iter().map(|a| (a & !3) | k as u16).collect();
            hs.push(tokio::task::spawn_local(async move {
                for _ in 0..per {
                    if rng.chance(1, 3) {
                        sleep(ms(rng.range(0, 3000))).await;
                    }
                    let dst = *rng.pick(&pool);
                    if rng.chance(1, 10) {
                        let d = *rng.pick(&[0u64, 1, 5, 100, 3000]);
                        let _ = timeout(ms(d), node.random_op(&mut rng, dst)).await;
                        // a late answer to the cancelled operation
                    } else if rng.chance(1, 12) {
                        node.status().await;
                    } else {
                        node.random_op(&mut rng, dst).await;
                    }
                }
            }));
        }
        for h in hs {
            let _ = h.await;
        }
        stop.store(true, Ordering::Relaxed);
        if let Some(t) = tr {
            let _ = t.await;
        }
        sleep(ms(2500)).await;
        Ok(())
    });
    finish(case, out, r, false);
}

/// telegram streams to a monitor with consumers of all kinds, operations in between
pub fn monitor_stream(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(rng.below(1 << 24)));
        let gw = Gw::new(rng.u64())?;
        let harsh = rng.below(3);
        gw.with(|s| {
            s.tunnel = nasty_tunnel(uniq.clone(), harsh, true);
            s.feature_resp = rng.chance(3, 4);
        });
        gw.start()?;
        let node = Node::connect(&gw, true).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        let stop = Arc::new(AtomicBool::new(false));
        let stop_t = Arc::new(AtomicBool::new(false));
        let mut cs = vec![];
        let n = *rng.pick(&[1usize, 1, 1, 2, 3]);
        for i in 0..n {
            let pause = *rng.pick(&[0u64, 0, 10, 300, 2000]);
            cs.push(consumer(&node, i, rng.u64(), pause, rng.chance(1, 3), stop.clone()));
        }
        if rng.chance(1, 20) {
            // nothing happens on the bus for hours
            sleep(ms(*rng.pick(&[700_000u64, 3_700_000, 30_000_000]))).await;
        }
        let duration = *rng.pick(&[2_000u64, 20_000, 130_000, 400_000]);
        let mean = *rng.pick(&[5u64, 50, 300, 2000]);
        let total = duration / mean;
        // keep the kernel's socket buffer from overflowing
        let mean = if total > 4000 { duration / 4000 } else { mean };
        let tr = traffic(&gw, rng.u64(), uniq.clone(), mean.max(1), stop_t.clone());
        let end = now() + duration;
        while now() < end {
            sleep(ms(rng.range(1, duration / 4 + 2).min(end - now() + 1))).await;
            match rng.below(4) {
                0 => {
                    let dst = rng.corner16();
                    node.random_op(&mut rng, dst).await;
                }
                1 => {
                    if let Node::M(m) = &node {
                        let c = m.is_connected().await;
                        note(Note::Connected(c));
                    }
                }
                2 if rng.chance(1, 3) => {
                    // the gateway ends the session, or reports an error
                    gw.with(|s| {
                        let ch = s.channel;
                        let f = match rng.below(3) {
                            0 => Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes(),
                            1 => Frame::StateResp { ch, status: 0x26 }.bytes(),
                            _ => vec![6, 0x10, 0x09, 0x99, 0, 6],
                        };
                        s.send_raw(&f);
                    });
                }
                _ => (),
            }
        }
        stop_t.store(true, Ordering::Relaxed);
        let _ = tr.await;
        sleep(ms(100)).await;
        stop.store(true, Ordering::Relaxed);
        for c in cs {
            let _ = c.await;
        }
        Ok(())
    });
    finish(case, out, r, true);
}

/// a slow or stalled consumer, more telegrams than the queue holds, heart beats while it is full
pub fn monitor_backlog(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(rng.below(1 << 24)));
        let gw = Gw::new(rng.u64())?;
        gw.start()?;
        let node = Node::connect(&gw, true).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        // a disconnection that is not answered, meanwhile telegrams arrive
        let disc = if rng.chance(1, 3) {
            gw.with(|s| s.disc.push_back(DiscPol::Silent));
            let node = node.clone();
            let h = tokio::task::spawn_local(async move {
                node.disconnect().await;
            });
            sleep(ms(rng.below(20))).await;
            Some(h)
        } else {
            None
        };
        let n = *rng.pick(&[5u64, 99, 100, 100, 101, 102, 130, 180, 200]);
        let regular = rng.chance(1, 2);
        for i in 0..n {
            let m = match rng.below(20) {
                _ if regular => GwMsg::Cemi(gen_ind(&mut rng, &uniq, None).bytes()),
                0 => GwMsg::Repeat,
                2 => GwMsg::Feature,
                1 => GwMsg::Cemi(gen_bad_cemi(&mut rng, &uniq)),
                _ => GwMsg::Cemi(gen_ind(&mut rng, &uniq, None).bytes()),
            };
            gw.with(|s| s.send_msg(m));
            if rng.chance(1, 4) || i % 50 == 49 {
                sleep(ms(rng.range(1, 20))).await;
            }
        }
        // nobody reads for a while: heart beats go on
        sleep(ms(*rng.pick(&[10u64, 1_000, 61_000, 125_000, 200_000]))).await;
        if let Some(h) = disc {
            let _ = h.await;
        }
        // an outage while the telegrams are waiting
        if rng.chance(1, 3) {
            gw.with(|s| {
                for _ in 0..s.rng.range(1, 3) {
                    s.conn.push_back(ConnPol::Refuse(0x24, false));
                }
                let f = match s.rng.below(3) {
                    0 => Frame::DiscReq { ch: s.channel, ep: CLIENT_HPAI },
                    1 => Frame::StateResp { ch: s.channel, status: 0x21 },
                    _ => Frame::StateResp { ch: s.channel, status: 0x26 },
                };
                s.send_raw(&f.bytes());
            });
            sleep(ms(rng.range(100, 5_000))).await;
            if let Node::M(m) = &node {
                note(Note::Connected(m.is_connected().await));
            }
            node.random_op(&mut rng, 0x0102).await;
            sleep(ms(rng.range(5_000, 40_000))).await;
            if let Node::M(m) = &node {
                note(Note::Connected(m.is_connected().await));
            }
            node.random_op(&mut rng, 0x0102).await;
        }
        let stop = Arc::new(AtomicBool::new(false));
        let nc = rng.range(1, 2) as usize;
        let mut cs = vec![];
        for i in 0..nc {
            cs.push(consumer(&node, i, rng.u64(), *rng.pick(&[0u64, 20, 700]), rng.chance(1, 2), stop.clone()));
        }
        sleep(ms(*rng.pick(&[10u64, 500, 70_000, 130_000]))).await;
        for _ in 0..rng.below(20) {
            gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
            sleep(ms(rng.range(0, 40))).await;
        }
        sleep(ms(1500)).await;
        stop.store(true, Ordering::Relaxed);
        for c in cs {
            let _ = c.await;
        }
        Ok(())
    });
    finish(case, out, r, true);
}

/// more than 256 requests in one session, in both directions
pub fn wrap(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        gw.start()?;
        // heart beats wait for their responses while the sequence numbers start again
        let slow = rng.chance(1, 2);
        if slow {
            let d = *rng.pick(&[2_000u64, 9_000, 9_500]);
            gw.with(|s| s.hb_default = HbPol::StatusAfter(0, d));
        }
        let pause = if slow { rng.range(200, 3000) } else { 20 };
        let node = Node::connect(&gw, monitor).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        let stop = Arc::new(AtomicBool::new(false));
        let c = if monitor { Some(consumer(&node, 0, rng.u64(), 0, false, stop.clone())) } else { None };
        let total = rng.range(260, 560);
        let tasks = rng.range(1, 3);
        let mut hs = vec![];
        for k in 0..tasks {
            let node = node.clone();
            let gw = gw.clone();
            let uniq = uniq.clone();
            let mut rng = Rng::new(rng.u64());
            hs.push(tokio::task::spawn_local(async move {
                for i in 0..total / tasks {
                    let dst = ((k as u16) << 12) | (i as u16 & 0x3ff);
                    node.random_op(&mut rng, dst).await;
                    if rng.chance(1, 2) {
                        gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
                    }
                    if rng.chance(1, 4) {
                        sleep(ms(rng.range(0, pause))).await;
                    }
                }
            }));
        }
        if !monitor && rng.chance(1, 2) {
            let node = node.clone();
            let every = rng.range(500, 20_000);
            let stop = stop.clone();
            hs.push(tokio::task::spawn_local(async move {
                while !stop.load(Ordering::Relaxed) {
                    sleep(ms(every)).await;
                    node.status().await;
                }
            }));
        }
        for h in hs.drain(..tasks as usize) {
            let _ = h.await;
        }
        if monitor && rng.chance(1, 2) {
            // the sequence number of the last telegram again, after nothing but other services
            for k in 0..3 {
                gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
                for i in 0..if k < 2 { 255 } else { 0 } {
                    gw.with(|s| s.send_msg(GwMsg::Feature));
                    if i % 20 == 0 {
                        sleep(ms(2)).await;
                    }
                }
                sleep(ms(20)).await;
            }
        }
        sleep(ms(1200)).await;
        stop.store(true, Ordering::Relaxed);
        for h in hs.into_iter().chain(c) {
            let _ = h.await;
        }
        Ok(())
    });
    finish(case, out, r, true);
}

/// sessions lost in all kinds of ways, operations and telegrams before, during and after
pub fn reconnects(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        let same_channel = rng.chance(1, 4);
        gw.with(|s| {
            if same_channel {
                let c = s.rng.u8();
                s.channels = vec![c; 40].into();
            }
        });
        gw.start()?;
        let node = Node::connect(&gw, monitor).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        let stop = Arc::new(AtomicBool::new(false));
        let c = if monitor { Some(consumer(&node, 0, rng.u64(), *rng.pick(&[0u64, 0, 200]), rng.chance(1, 3), stop.clone())) } else { None };
        for round in 0..rng.range(1, 8) {
            let dst0 = (round as u16) << 8;
            for j in 0..rng.below(5) {
                gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
                if rng.chance(1, 3) {
                    gw.with(|s| s.send_msg(GwMsg::Repeat));
                }
                if rng.chance(1, 2) {
                    node.random_op(&mut rng, dst0 | j as u16).await;
                }
            }
            // an operation in progress while the session is lost
            let pending = if rng.chance(1, 3) {
                gw.with(|s| s.tunnel = Box::new(|_, _, _| vec![]));
                let node = node.clone();
                let mut rng = Rng::new(rng.u64());
                let h = tokio::task::spawn_local(async move {
                    node.random_op(&mut rng, dst0 | 0x80).await;
                });
                sleep(ms(rng_range_small())).await;
                Some(h)
            } else {
                None
            };
            let refusals = rng.below(3);
            gw.with(|s| {
                for _ in 0..refusals {
                    s.conn.push_back(match s.rng.below(3) {
                        0 => ConnPol::Silent,
                        1 => ConnPol::Refuse(0x24, true),
                        _ => ConnPol::Refuse(0x24, false),
                    });
                }
                if s.rng.chance(1, 3) {
                    let d = s.rng.range(1, 5000);
                    s.conn.push_back(ConnPol::AcceptAfter(d));
                }
                s.tunnel = Box::new(default_tunnel);
                let ch = s.channel;
                let f = match s.rng.below(5) {
                    0 => Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes(),
                    1 => Frame::StateResp { ch, status: 0x21 }.bytes(),
                    2 => vec![6, 0x10, 0x05, 0x30, 0, 6],
                    3 => vec![1, 2, 3],
                    _ => {
                        let mut b = Frame::TunReq { ch, seq: 0, cemi: vec![] }.bytes();
                        b[0] = 7;
                        b
                    }
                };
                // telegrams right before and after, some of them get lost with the session
                if s.rng.chance(1, 2) {
                    let d = gen_ind(&mut Rng::new(s.rng.u64()), &uniq, None);
                    s.send_cemi(d.bytes());
                }
                s.send_raw(&f);
                if s.rng.chance(1, 2) {
                    let d = gen_ind(&mut Rng::new(s.rng.u64()), &uniq, None);
                    s.send_cemi(d.bytes());
                }
                s.connected = false;
            });
            let want = gw.with(|s| s.sessions) + 1;
            // operations while there is no connection
            if refusals > 0 {
                sleep(ms(rng.range(100, 3000))).await;
                for _ in 0..rng.below(3) {
                    node.random_op(&mut rng, dst0 | 0x90).await;
                    if rng.chance(1, 3) {
                        node.status().await;
                    }
                }
            }
            let ok = wait_until(200_000, || gw.with(|s| s.sessions >= want && s.connected)).await;
            if !ok {
                return Ok(());
            }
            sleep(ms(6000)).await;
            if let Some(h) = pending {
                let _ = h.await;
            }
        }
        node.random_op(&mut rng, 0x7fff).await;
        sleep(ms(1500)).await;
        stop.store(true, Ordering::Relaxed);
        if let Some(c) = c {
            let _ = c.await;
        }
        Ok(())
    });
    finish(case, out, r, true);
}

fn rng_range_small() -> u64 {
    3
}

/// waits until the node works again: a read is answered, or a telegram delivered and a write seen by the gateway
async fn works(gw: &Gw, node: &Node, uniq: &AtomicU64, limit: u64) -> bool {
    let end = now() + limit;
    gw.with(|s| s.tunnel = Box::new(default_tunnel));
    while now() < end {
        match node {
            Node::C(_) => {
                if let Ok(Res::Value(v)) = timeout(ms(1500), node.read(KnxAddress::group_1_level(0x4242))).await {
                    if v == [0x42, 0x42] {
                        return true;
                    }
                }
            }
            Node::M(_) => {
                let n = uniq.fetch_add(1, Ordering::Relaxed) as u32;
                let d = LData::ind(0x1234, 0x4343, APCI_WRITE, Payload::Long(n.to_be_bytes().to_vec()));
                let sent = gw.with(|s| {
                    if s.connected {
                        s.send_cemi(d.bytes());
                    }
                    s.connected
                });
                if sent {
                    let stop = now() + 1500;
                    let mut got = false;
                    while now() < stop {
                        match timeout(ms(300), node.next(0)).await {
                            Ok(Res::Msg { dst, value, .. }) if dst == 0x4343 && value == n.to_be_bytes() => {
                                got = true;
                                break;
                            }
                            Ok(Res::Err(_)) => sleep(ms(5)).await,
                            _ => (),
                        }
                    }
                    if got && node.write(KnxAddress::group_1_level(0x4444), vec![n as u8], false).await == Res::Ok {
                        let w = wait_until(200, || {
                            gw.with(|s| {
                                s.frames.iter().rev().take(50).any(|(_, f)| match Frame::parse(f) {
                                    Some(Frame::TunReq { cemi, .. }) => LData::parse(&cemi).map(|d| d.dst == 0x4444 && d.payload == Payload::Long(vec![n as u8])).unwrap_or(false),
                                    _ => false,
                                })
                            })
                        })
                        .await;
                        if w {
                            return true;
                        }
                    }
                }
            }
        }
        sleep(ms(1000)).await;
    }
    false
}

const RECOVERY: u64 = 105_000;

/// hostile datagrams in every state
pub fn hostile(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let bad = Arc::new(std::sync::Mutex::new(None));
    let bad2 = bad.clone();
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        if rng.chance(1, 4) {
            gw.with(|s| {
                let n = s.rng.range(1, 3);
                for _ in 0..n {
                    let mut r2 = Rng::new(s.rng.u64());
                    let k = r2.range(1, 4);
                    let g = (0..k).map(|_| gen_hostile(&mut r2, 1, &uniq)).collect();
                    s.conn.push_back(ConnPol::Garbage(g));
                }
            });
        }
        gw.start()?;
        let node = Node::connect(&gw, monitor).await?;
        up(&gw, 1).await;
        let stop = Arc::new(AtomicBool::new(false));
        let c = if monitor { Some(consumer(&node, 0, rng.u64(), 0, false, stop.clone())) } else { None };
        for _ in 0..rng.range(1, 12) {
            for _ in 0..rng.range(1, 4) {
                let ch = gw.with(|s| s.channel);
                let b = gen_hostile(&mut rng, ch, &uniq);
                gw.with(|s| s.send_raw(&b));
                if rng.chance(1, 3) {
                    sleep(ms(rng.range(0, 30))).await;
                }
            }
            if rng.chance(1, 3) {
                let node = node.clone();
                let mut r2 = Rng::new(rng.u64());
                tokio::task::spawn_local(async move {
                    let _ = timeout(ms(12_000), node.random_op(&mut r2, 0x0101)).await;
                });
            }
            let d = *rng.pick(&[1u64, 20, 500, 12_000, 61_000]);
            sleep(ms(d)).await;
        }
        stop.store(true, Ordering::Relaxed);
        if let Some(c) = c {
            let _ = c.await;
        }
        let t = now();
        if !works(&gw, &node, &uniq, RECOVERY).await {
            *bad2.lock().unwrap() = Some(format!("no working connection within {}s after hostile datagrams ended at t={}ms", RECOVERY / 1000, t));
        }
        Ok(())
    });
    if let Some(b) = bad.lock().unwrap().take() {
        vi(out, "C16", b);
    }
    finish(case, out, r, false);
}

/// the gateway dies and comes back; errors of the socket calls
pub fn crashes(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let bad = Arc::new(std::sync::Mutex::new(None));
    let bad2 = bad.clone();
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        let start_later = rng.chance(1, 4);
        if !start_later {
            gw.start()?;
        }
        let node = Node::connect(&gw, monitor).await?;
        if start_later {
            sleep(ms(rng.range(1, 60_000))).await;
            if rng.chance(1, 2) {
                node.random_op(&mut rng, 0x0102).await;
            }
            gw.start()?;
        }
        wait_until(60_000, || gw.with(|s| s.connected)).await;
        sleep(ms(20)).await;
        for _ in 0..rng.range(1, 4) {
            let kind = rng.below(4);
            let down = *rng.pick(&[5u64, 200, 9_000, 45_000, 130_000]);
            match kind {
                0 => {
                    // port closed: refused
                    gw.crash().await;
                    let end = now() + down;
                    while now() < end {
                        if rng.chance(1, 2) {
                            let _ = timeout(ms(11_000), node.random_op(&mut rng, 0x0103)).await;
                        }
                        sleep(ms(rng.range(1, down / 2 + 1))).await;
                    }
                    gw.start()?;
                }
                1 => {
                    // silent, and without memory afterwards
                    gw.with(|s| s.deaf = true);
                    sleep(ms(down)).await;
                    gw.with(|s| {
                        s.deaf = false;
                        s.connected = false;
                    });
                }
                2 => {
                    // errors of the receive call
                    let n = rng.range(1, 4);
                    let mut left = n;
                    let errs = [libc::ECONNREFUSED, libc::ENETUNREACH, libc::ENOMEM, libc::EHOSTUNREACH, libc::EIO, libc::ENETDOWN, libc::EINTR, libc::ENOBUFS];
                    let e = *rng.pick(&errs);
                    with_net(|net| {
                        net.recv_fault = Some(Box::new(move || {
                            if left > 0 {
                                left -= 1;
                                Some(e)
                            } else {
                                None
                            }
                        }))
                    });
                    gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
                    sleep(ms(down)).await;
                    with_net(|net| net.recv_fault = None);
                }
                _ => {
                    // errors of the send call, for some time
                    let errs = [libc::ENOBUFS, libc::ENETUNREACH, libc::EPERM, libc::EHOSTUNREACH, libc::ENETDOWN, libc::ECONNREFUSED];
                    let e = *rng.pick(&errs);
                    let rate = rng.range(1, 4);
                    let mut r2 = Rng::new(rng.u64());
                    with_net(|net| net.send_fault = Some(Box::new(move |_| if r2.chance(1, rate) { Some(e) } else { None })));
                    let end = now() + down;
                    while now() < end {
                        gw.with(|s| {
                            if s.connected {
                                s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes())
                            }
                        });
                        if rng.chance(1, 2) {
                            let _ = timeout(ms(3_000), node.random_op(&mut rng, 0x0104)).await;
                        }
                        sleep(ms(rng.range(1, down / 2 + 1))).await;
                    }
                    with_net(|net| net.send_fault = None);
                }
            }
            let t = now();
            if !works(&gw, &node, &uniq, RECOVERY).await {
                *bad2.lock().unwrap() = Some(format!(
                    "no working connection within {}s after {} which ended at t={}ms",
                    RECOVERY / 1000,
                    ["a crash of the gateway", "a silence and restart of the gateway", "receive errors", "send errors"][kind as usize],
                    t
                ));
                return Ok(());
            }
        }
        Ok(())
    });
    if let Some(b) = bad.lock().unwrap().take() {
        vi(out, "C16", b);
    }
    finish(case, out, r, false);
}

/// local send errors of single requests
pub fn send_faults(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        gw.start()?;
        let node = Node::connect(&gw, monitor).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        let mut r2 = Rng::new(rng.u64());
        let e = *rng.pick(&[libc::ENOBUFS, libc::ENETUNREACH, libc::EPERM, libc::ENETDOWN, libc::EMSGSIZE]);
        let rate = rng.range(2, 8);
        with_net(|net| {
            net.send_fault = Some(Box::new(move |b| {
                if oracle::service(b) == 0x0420 && r2.chance(1, rate) {
                    Some(e)
                } else {
                    None
                }
            }))
        });
        let tasks = rng.range(1, 3);
        let n = rng.range(3, 30);
        let mut hs = vec![];
        for k in 0..tasks {
            let node = node.clone();
            let gw = gw.clone();
            let uniq = uniq.clone();
            let mut rng = Rng::new(rng.u64());
            hs.push(tokio::task::spawn_local(async move {
                for i in 0..n {
                    node.random_op(&mut rng, ((k as u16) << 12) | i as u16).await;
                    if rng.chance(1, 4) {
                        gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
                        sleep(ms(rng.range(0, 20))).await;
                    }
                }
            }));
        }
        for h in hs {
            let _ = h.await;
        }
        sleep(ms(1500)).await;
        Ok(())
    });
    finish(case, out, r, false);
}

/// The send buffer is full now and then: whatever sends waits in the middle of what it is doing,
/// while operations are called and cancelled, telegrams arrive and connections end.
pub fn full_buffers(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let bad = Arc::new(std::sync::Mutex::new(vec![]));
    let bad2 = bad.clone();
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(rng.below(1 << 24)));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        gw.start()?;
        let node = Node::connect(&gw, monitor).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        let stop = Arc::new(AtomicBool::new(false));
        let mut hs = vec![];
        if monitor {
            hs.push(consumer(&node, 0, rng.u64(), *rng.pick(&[0u64, 20]), rng.chance(1, 3), stop.clone()));
        }
        for k in 0..rng.range(1, 3) {
            let node = node.clone();
            let stop = stop.clone();
            let mut rng = Rng::new(rng.u64());
            hs.push(tokio::task::spawn_local(async move {
                let mut i = 0u16;
                while !stop.load(Ordering::Relaxed) {
                    let dst = ((k as u16) << 12) | i;
                    i += 1;
                    if rng.chance(1, 6) {
                        let d = rng.below(600);
                        let _ = timeout(ms(d), node.random_op(&mut rng, dst)).await;
                    } else if rng.chance(1, 12) && !monitor {
                        node.status().await;
                    } else {
                        node.random_op(&mut rng, dst).await;
                    }
                    sleep(ms(rng.range(0, 400))).await;
                }
            }));
        }
        let end = now() + rng.range(20_000, 140_000);
        while now() < end {
            let before = rng.below(50);
            let long = *rng.pick(&[1u64, 20, 100, 500]);
            let event = rng.below(8);
            let small_fit = rng.chance(1, 2);
            with_net(|n| n.full_for_requests = small_fit);
            fill_send_buffers(long);
            if rng.chance(1, 2) {
                sleep(ms(before)).await;
            }
            match event {
                0 => gw.with(|s| {
                    let ch = s.channel;
                    s.send_raw(&Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes())
                }),
                1 => gw.with(|s| {
                    let ch = s.channel;
                    s.send_raw(&Frame::StateResp { ch, status: 0x26 }.bytes())
                }),
                2 | 3 => {
                    for _ in 0..rng.range(1, 10) {
                        gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
                    }
                }
                _ => (),
            }
            // what had to wait is sent before they are full again
            sleep(ms(rng.range(1, 3000).max(long + 10))).await;
        }
        sleep(ms(1500)).await;
        stop.store(true, Ordering::Relaxed);
        for h in hs {
            let _ = h.await;
        }
        let b = now();
        if !works(&gw, &node, &uniq, 30_000).await {
            bad2.lock().unwrap().push(format!("no working connection within 30s after the send buffers were full until t={}ms", b));
        }
        Ok(())
    });
    for b in bad.lock().unwrap().drain(..) {
        vi(out, "C16", b);
    }
    finish(case, out, r, false);
}

/// long sessions
pub fn long_session(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        let nasty = rng.chance(1, 2);
        gw.with(|s| {
            let n = s.rng.below(20);
            for _ in 0..n {
                let d = s.rng.range(1, 9000);
                let p = match s.rng.below(8) {
                    0 => HbPol::StatusAfter(0, d),
                    1 => HbPol::Silent,
                    2 if nasty => HbPol::Status(s.rng.range(1, 255) as u8),
                    3 if nasty => HbPol::Status(*s.rng.pick(&[0x21u8, 0x26, 0x27])),
                    _ => HbPol::Status(0),
                };
                s.hb.push_back(p);
            }
            if s.rng.chance(1, 3) {
                // starts with an outage
                for _ in 0..s.rng.range(1, 8) {
                    s.conn.push_back(ConnPol::Silent);
                }
            }
        });
        gw.start()?;
        let node = Node::connect(&gw, monitor).await?;
        let stop = Arc::new(AtomicBool::new(false));
        let mut hs = vec![];
        if monitor && rng.chance(2, 3) {
            hs.push(consumer(&node, 0, rng.u64(), *rng.pick(&[0u64, 5000]), rng.chance(1, 4), stop.clone()));
        }
        match rng.below(5) {
            0 => hs.push(traffic(&gw, rng.u64(), uniq.clone(), *rng.pick(&[400u64, 3000, 30_000]), stop.clone())),
            3 => {
                // unanswered operations during which heart beats fall due, and then nothing but heart beats
                let node = node.clone();
                let gw = gw.clone();
                let mut rng = Rng::new(rng.u64());
                let stop = stop.clone();
                hs.push(tokio::task::spawn_local(async move {
                    while !stop.load(Ordering::Relaxed) {
                        sleep(ms(rng.below(60_000))).await;
                        match rng.below(4) {
                            0 | 1 if !monitor => {
                                gw.with(|s| s.hb.push_front(HbPol::Silent));
                                node.status().await;
                            }
                            2 => {
                                gw.with(|s| s.disc.push_front(DiscPol::Silent));
                                node.disconnect().await;
                            }
                            _ => {
                                gw.with(|s| s.tunnel = Box::new(|_, _, _| vec![]));
                                let dst = rng.u16();
                                node.random_op(&mut rng, dst).await;
                            }
                        }
                        sleep(ms(130_000)).await;
                    }
                }))
            }
            4 => {
                // a request waits for room in the send buffers while the heart beat falls due
                let node = node.clone();
                let gw = gw.clone();
                let mut rng = Rng::new(rng.u64());
                let stop = stop.clone();
                hs.push(tokio::task::spawn_local(async move {
                    let mut last = 0;
                    while !stop.load(Ordering::Relaxed) {
                        let seen = gw.with(|s| s.frames.iter().rev().find(|f| f.1.get(2..4) == Some(&[2, 7])).map(|f| f.0));
                        let due = match seen {
                            Some(t) if t > last => t + 60_000,
                            _ => {
                                sleep(ms(100)).await;
                                continue;
                            }
                        };
                        last = due - 60_000;
                        let from = due - rng.range(10, 300);
                        if now() < from {
                            sleep(ms(from - now())).await;
                            fill_send_buffers(due - from + rng.range(5, 500));
                            let dst = rng.u16();
                            node.random_op(&mut rng, dst).await;
                        }
                    }
                }))
            }
            1 => {
                let node = node.clone();
                let mut rng = Rng::new(rng.u64());
                let stop = stop.clone();
                let every = *rng.pick(&[500u64, 20_000, 59_990, 60_000]);
                hs.push(tokio::task::spawn_local(async move {
                    while !stop.load(Ordering::Relaxed) {
                        let dst = rng.u16();
                        node.random_op(&mut rng, dst).await;
                        sleep(ms(every)).await;
                    }
                }))
            }
            _ => (),
        }
        // also hours without anything but heart beats
        if rng.chance(1, 8) {
            sleep(ms(*rng.pick(&[3_700_000u64, 8_000_000, 30_000_000]))).await;
        }
        let end = now() + *rng.pick(&[150_000u64, 400_000, 1_300_000]);
        while now() < end {
            sleep(ms(rng.range(1000, 120_000))).await;
            if rng.chance(1, 6) {
                gw.with(|s| {
                    let ch = s.channel;
                    s.send_raw(&Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes());
                    s.connected = false;
                    for _ in 0..s.rng.below(6) {
                        s.conn.push_back(ConnPol::Silent);
                    }
                });
            }
            if rng.chance(1, 6) {
                // unsolicited, but fine
                gw.with(|s| {
                    let ch = s.channel;
                    s.send_raw(&Frame::StateResp { ch, status: 0 }.bytes())
                });
            }
        }
        stop.store(true, Ordering::Relaxed);
        for h in hs {
            let _ = timeout(ms(120_000), h).await;
        }
        Ok(())
    });
    finish(case, out, r, false);
}

/// refusals, silence, errors and garbage before the first acceptance
pub fn connecting(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let bad = Arc::new(std::sync::Mutex::new(vec![]));
    let bad2 = bad.clone();
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        // also outages of an hour
        let n = if rng.chance(1, 10) { rng.range(20, 90) } else { rng.below(6) };
        gw.with(|s| {
            for _ in 0..n {
                let p = match s.rng.below(6) {
                    0 => ConnPol::Silent,
                    // datagrams without an answer do not prolong the attempt
                    5 => {
                        let ch = s.rng.u8();
                        let seq = s.rng.u8();
                        let b = s.rng.pick(&[Frame::StateResp { ch, status: 0 }, Frame::TunAck { ch, seq, status: 0 }]).bytes();
                        let every = *s.rng.pick(&[300u64, 5_000, 9_700, 20_000, 29_000]) + s.rng.below(700);
                        ConnPol::Chatty(b, every, s.rng.range(60_000, 150_000))
                    }
                    1 => {
                        let st = if s.rng.chance(1, 2) { *s.rng.pick(&[0x22u8, 0x23, 0x24, 0x25, 0x29, 1, 255]) } else { s.rng.range(1, 255) as u8 };
                        ConnPol::Refuse(st, s.rng.chance(1, 2))
                    }
                    2 => {
                        let mut r2 = Rng::new(s.rng.u64());
                        let k = r2.range(1, 5);
                        let mut g: Vec<Vec<u8>> = (0..k).map(|_| gen_hostile(&mut r2, 9, &uniq)).collect();
                        // what comes after a connect response would be taken for the answer to the next request
                        if let Some(i) = g.iter().position(|b| oracle::service(b) == 0x0206) {
                            g.truncate(i + 1);
                        }
                        ConnPol::Garbage(g)
                    }
                    3 => ConnPol::Garbage(vec![Frame::StateResp { ch: 1, status: 0 }.bytes(), {
                        // connect response, cut
                        let b = Frame::ConnectResp {
                            ch: 5,
                            status: 0,
                            ep: Some(CLIENT_HPAI),
                            ia: 0x1102,
                        }
                        .bytes();
                        let n = s.rng.usize(b.len());
                        b[..n].to_vec()
                    }]),
                    _ => ConnPol::Refuse(0x24, false),
                };
                s.conn.push_back(p);
            }
            if s.rng.chance(1, 3) {
                let d = s.rng.range(1, 25_000);
                s.conn.push_back(ConnPol::AcceptAfter(d));
            } else if s.rng.chance(1, 2) {
                // what belongs to no connection, or to another one, is not an answer
                let n = s.rng.range(1, 20);
                let mut g = vec![];
                for _ in 0..n {
                    let ch = s.rng.u8();
                    let seq = s.rng.u8();
                    let status = *s.rng.pick(&[0u8, 0, 0x21, 0x26]);
                    let cemi = gen_ind(&mut s.rng, &uniq, None).bytes();
                    g.push(match s.rng.below(7) {
                        0 => Frame::DiscResp { ch, status }.bytes(),
                        1 => Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes(),
                        2 => Frame::StateResp { ch, status }.bytes(),
                        3 => Frame::TunAck { ch, seq, status }.bytes(),
                        4 => Frame::FeatResp { ch, seq, feature: 8, status: 0, value: 1 }.bytes(),
                        5 => Frame::TunReq { ch, seq, cemi }.bytes(),
                        _ => {
                            let n = s.rng.usize(600);
                            let mut b = s.rng.bytes(n);
                            // not a connect response
                            if b.len() > 3 && b[2] == 2 {
                                b[2] = 7;
                            }
                            b
                        }
                    });
                }
                let every = s.rng.range(0, 25_000 / n);
                s.conn.push_back(ConnPol::Crowded(g, every));
            }
        });
        let late = rng.chance(1, 3);
        if !late {
            gw.start()?;
        }
        if late && rng.chance(1, 2) {
            // not even the connect request can be sent
            let mut left = rng.range(1, 4);
            let e = *rng.pick(&[libc::ENETUNREACH, libc::EHOSTUNREACH, libc::EPERM, libc::ENOBUFS]);
            with_net(|net| {
                net.send_fault = Some(Box::new(move |_| {
                    if left > 0 {
                        left -= 1;
                        Some(e)
                    } else {
                        None
                    }
                }))
            });
        }
        let node = Node::connect(&gw, monitor).await?;
        if late {
            for _ in 0..rng.range(1, 4) {
                sleep(ms(rng.range(1, 25_000))).await;
                node.random_op(&mut rng, 0x0201).await;
                if rng.chance(1, 3) {
                    node.status().await;
                }
                if rng.chance(1, 6) {
                    node.disconnect().await;
                }
            }
            gw.start()?;
        }
        let limit = now() + 41_500 * (n + 3);
        while now() < limit && !gw.with(|s| s.connected) {
            sleep(ms(rng.range(1, 15_000))).await;
            if rng.chance(1, 3) {
                node.random_op(&mut rng, 0x0202).await;
            }
            if let Node::M(m) = &node {
                let c = m.is_connected().await;
                note(Note::Connected(c));
            }
        }
        if !gw.with(|s| s.connected) {
            bad2.lock().unwrap().push("no connection although the gateway accepts".to_string());
        }
        sleep(ms(26_000)).await;
        let a = now();
        if !works(&gw, &node, &uniq, 5_000).await {
            bad2.lock().unwrap().push(format!("accepted connection is not usable at t={}ms", a));
        }
        sleep(ms(45_000)).await;
        if gw.with(|s| s.sessions) != 1 {
            bad2.lock().unwrap().push(format!("{} connections were requested after the first acceptance", gw.with(|s| s.sessions)));
        }
        Ok(())
    });
    for b in bad.lock().unwrap().drain(..) {
        vi(out, "C23", b);
    }
    finish(case, out, r, false);
}

/// disconnecting in all situations
pub fn disconnecting(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let bad = Arc::new(std::sync::Mutex::new(vec![]));
    let bad2 = bad.clone();
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        let pol = match rng.below(7) {
            6 => DiscPol::Burst(rng.below(40), rng.below(40)),
            0 if rng.chance(1, 2) => DiscPol::Status(rng.range(1, 255) as u8),
            0 => DiscPol::Status(*rng.pick(&[1u8, 2, 0x0f, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x29])),
            1 => DiscPol::Silent,
            2 => DiscPol::StatusAfter(0, rng.range(1, 9_500)),
            _ => DiscPol::Status(0),
        };
        let clean = matches!(pol, DiscPol::Status(0) | DiscPol::StatusAfter(0, _) | DiscPol::Burst(..));
        let silent = matches!(pol, DiscPol::Silent);
        let slow = matches!(pol, DiscPol::StatusAfter(..));
        gw.with(|s| s.disc.push_back(pol));
        gw.start()?;
        let node = Node::connect(&gw, monitor).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        let stop = Arc::new(AtomicBool::new(false));
        let stop_c = Arc::new(AtomicBool::new(false));
        // a monitor with more than 100 telegrams waiting does not receive anything
        let reader = if monitor { Some(consumer(&node, 0, rng.u64(), 0, rng.chance(1, 3), stop_c.clone())) } else { None };
        let tr = if rng.chance(1, 2) { Some(traffic(&gw, rng.u64(), uniq.clone(), *rng.pick(&[20u64, 200]), stop.clone())) } else { None };
        // at a heart beat, or any other time
        let d = *rng.pick(&[0u64, 100, 20_000, 59_900, 59_970, 59_975, 59_980, 59_985, 59_990, 60_000, 119_980]);
        // a heart beat is due while it waits for the answer
        let d = if (silent || slow) && rng.chance(1, 2) { *rng.pick(&[50_500u64, 110_500]) + rng.below(9_000) } else { d };
        sleep(ms(d + rng.below(5))).await;
        let other = if rng.chance(1, 4) {
            let node = node.clone();
            let mut rng = Rng::new(rng.u64());
            if rng.chance(1, 2) {
                gw.with(|s| s.tunnel = Box::new(|_, _, _| vec![]));
            }
            let h = tokio::task::spawn_local(async move {
                node.random_op(&mut rng, 0x0303).await;
            });
            sleep(ms(rng_range_small())).await;
            Some(h)
        } else {
            None
        };
        let unread = if monitor && rng.chance(1, 2) {
            let k = rng.range(1, 20);
            for _ in 0..k {
                gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
            }
            true
        } else {
            false
        };
        sleep(ms(30)).await;
        if monitor && slow {
            // nobody can read while it disconnects: not more than 100 telegrams may come
            stop.store(true, Ordering::Relaxed);
        }
        if rng.chance(1, 2) {
            if let Some(h) = &reader {
                // nobody reads when it disconnects
                h.abort();
            }
        }
        if silent && rng.chance(1, 2) {
            // other control messages do not prolong the waiting
            let every = *rng.pick(&[800u64, 4_000, 8_000, 9_500]);
            for k in 1..=60_000 / every {
                gw.with(|s| {
                    let ch = s.channel;
                    Some(Frame::StateResp { ch, status: 0 }.bytes())
                })
                .map(|b| gw.send_after(k * every, GwMsg::Raw(b)));
            }
        }
        // cancelled before the confirmation comes
        let cancel = clean && rng.chance(1, 4);
        let mut confirmed = false;
        let r = if cancel {
            stop.store(true, Ordering::Relaxed);
            let d = if slow { rng.below(3_000) } else { rng.below(3) };
            match timeout(ms(d), node.disconnect()).await {
                Ok(r) => r,
                Err(_) => {
                    sleep(ms(10_500)).await;
                    confirmed = gw.with(|s| s.frames.iter().any(|f| f.1.get(2..4) == Some(&[2, 9])));
                    if !confirmed {
                        return Ok(());
                    }
                    Res::Cancelled
                }
            }
        } else {
            node.disconnect().await
        };
        if let Some(h) = reader {
            h.abort();
            let _ = h.await;
        }
        let done = confirmed || matches!(r, Res::Ok | Res::Code(0));
        if let Some(h) = other {
            let _ = h.await;
        }
        if clean && !done {
            bad2.lock().unwrap().push(format!("disconnect failed: {:?}", r));
        }
        if done {
            if let Node::M(m) = &node {
                if m.is_connected().await {
                    bad2.lock().unwrap().push("still connected after the disconnection".to_string());
                }
            }
            stop.store(true, Ordering::Relaxed);
            // the gateway may have sent something in the meantime
            for _ in 0..rng.below(4) {
                gw.with(|s| {
                    let m = gen_ind(&mut Rng::new(s.rng.u64()), &uniq, None);
                    s.send_cemi(m.bytes())
                });
            }
            for _ in 0..rng.below(4) {
                sleep(ms(rng.range(0, 40_000))).await;
                match rng.below(4) {
                    0 => {
                        node.disconnect().await;
                    }
                    1 => {
                        node.status().await;
                    }
                    _ => {
                        node.random_op(&mut rng, 0x0304).await;
                    }
                }
            }
            if monitor {
                // what was received can be fetched, then fetching fails
                let mut errors = 0;
                for _ in 0..400 {
                    match timeout(ms(20_000), node.next(0)).await {
                        Err(_) => {
                            bad2.lock().unwrap().push("waiting for telegrams does not end after the disconnection".to_string());
                            break;
                        }
                        Ok(Res::Err(_)) => {
                            errors += 1;
                            if errors > 40 {
                                break;
                            }
                        }
                        Ok(_) => errors = 0,
                    }
                }
                let _ = unread;
            }
            sleep(ms(*rng.pick(&[1000u64, 65_000, 200_000]))).await;
        } else if matches!(r, Res::Err(_)) && gw.with(|s| s.connected) {
            // not answered: the connection is still usable
            if let Node::C(_) = node {
                gw.with(|s| s.tunnel = Box::new(default_tunnel));
            }
            if silent {
                stop.store(true, Ordering::Relaxed);
                sleep(ms(rng.below(3_000))).await;
                // at most 100 telegrams may wait for a disconnection
                while monitor && timeout(ms(500), node.next(0)).await.is_ok() {}
                let work = rng.chance(1, 2);
                if work && !works(&gw, &node, &uniq, 12_000).await {
                    bad2.lock().unwrap().push("the connection does not work after an unanswered disconnect request".to_string());
                }
                // asked again, it is answered
                let r = node.disconnect().await;
                if !matches!(r, Res::Ok | Res::Code(0)) {
                    bad2.lock().unwrap().push(format!("second disconnection failed: {:?}", r));
                }
                sleep(ms(65_000)).await;
            }
        }
        stop.store(true, Ordering::Relaxed);
        if let Some(t) = tr {
            let _ = t.await;
        }
        Ok(())
    });
    for b in bad.lock().unwrap().drain(..) {
        vi(out, "C17", b);
    }
    let monitor_complete = r.log.iter().any(|e| matches!(e, Ev::Note { note: Note::OpEnd { res: Res::Code(0), .. }, .. }));
    finish(case, out, r, monitor_complete);
}

/// status queries
pub fn status(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let idx = case.idx;
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let gw = Gw::new(rng.u64())?;
        let n = rng.range(1, 12);
        let errors = idx < 256 || rng.chance(1, 2);
        let (at, value, d0) = (rng.usize(n as usize), idx as u8, *rng.pick(&[0u64, 10, 3000]));
        gw.with(|s| {
            for _ in 0..n + 3 {
                let d = s.rng.range(1, 12_000);
                let d = if d > 9_800 && d < 10_300 { 10_300 } else { d };
                let p = match s.rng.below(9) {
                    0 => HbPol::Silent,
                    8 => HbPol::Burst(s.rng.range(2, 60)),
                    1 | 2 => HbPol::StatusAfter(0, d),
                    3 if errors => HbPol::Status(*s.rng.pick(&[0x21u8, 0x22, 0x24, 0x26, 0x27, 0x29])),
                    _ => HbPol::Status(0),
                };
                s.hb.push_back(p);
            }
            if errors {
                // every value in turn
                s.hb[at] = HbPol::StatusAfter(value, 1 + d0);
            }
        });
        gw.start()?;
        let node = Node::connect(&gw, false).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        let stop = Arc::new(AtomicBool::new(false));
        let tr = if rng.chance(1, 2) { Some(traffic(&gw, rng.u64(), uniq.clone(), *rng.pick(&[20u64, 200]), stop.clone())) } else { None };
        let mut hs = vec![];
        for _ in 0..n {
            sleep(ms(*rng.pick(&[0u64, 100, 5_000, 30_000, 59_000]) + rng.below(1000))).await;
            if rng.chance(1, 5) {
                let node = node.clone();
                hs.push(tokio::task::spawn_local(async move {
                    node.status().await;
                }));
            } else if rng.chance(1, 8) {
                let _ = timeout(ms(rng.below(2000)), node.status()).await;
            } else {
                node.status().await;
            }
            if rng.chance(1, 4) {
                node.random_op(&mut rng, 0x0401).await;
            }
        }
        for h in hs {
            let _ = h.await;
        }
        stop.store(true, Ordering::Relaxed);
        if let Some(t) = tr {
            let _ = t.await;
        }
        sleep(ms(1500)).await;
        Ok(())
    });
    finish(case, out, r, false);
}

/// notifications and connected state
pub fn notifications(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let bad = Arc::new(std::sync::Mutex::new(vec![]));
    let bad2 = bad.clone();
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let gw = Gw::new(rng.u64())?;
        let first_refused = rng.below(3);
        gw.with(|s| {
            for _ in 0..first_refused {
                s.conn.push_back(ConnPol::Refuse(0x24, true));
            }
        });
        gw.start()?;
        let node = Node::connect(&gw, true).await?;
        let m = match &node {
            Node::M(m) => m.clone(),
            _ => unreachable!(),
        };
        struct L {
            id: usize,
            got: Arc<AtomicU64>,
            base: u32,
            exact: bool,
            cap: u64,
            rx: Option<tokio::sync::mpsc::Receiver<()>>,
        }
        let mut ls: Vec<L> = vec![];
        let mut id = 0;
        let mut add = |rng: &mut Rng, sessions: u32| {
            id += 1;
            let cap = *rng.pick(&[1usize, 1, 2, 8]);
            let (tx, mut rx) = tokio::sync::mpsc::channel::<()>(cap);
            let got = Arc::new(AtomicU64::new(0));
            let my = id;
            let l = match rng.below(4) {
                // reads immediately
                0 | 1 => {
                    let g = got.clone();
                    tokio::task::spawn_local(async move {
                        while rx.recv().await.is_some() {
                            g.fetch_add(1, Ordering::Relaxed);
                            note(Note::Notified { listener: my });
                        }
                    });
                    L {
                        id: my,
                        got,
                        base: sessions,
                        exact: true,
                        cap: cap as u64,
                        rx: None,
                    }
                }
                // never reads
                2 => L {
                    id: my,
                    got,
                    base: sessions,
                    exact: false,
                    cap: cap as u64,
                    rx: Some(rx),
                },
                // gone
                _ => {
                    drop(rx);
                    L {
                        id: my,
                        got,
                        base: sessions,
                        exact: false,
                        cap: 0,
                        rx: None,
                    }
                }
            };
            note(Note::Registered { listener: my });
            (l, tx)
        };
        if first_refused == 0 {
            up(&gw, 1).await;
            sleep(ms(100)).await;
        }
        let rounds = rng.range(1, 8);
        for round in 0..rounds {
            for _ in 0..rng.below(3) {
                let n = gw.with(|s| s.sessions);
                let (l, tx) = add(&mut rng, n);
                m.add_on_connect(tx).await;
                ls.push(l);
            }
            // lose the connection, if there is one
            let refusals = rng.below(3);
            let silent_ms = rng.range(200, 3000);
            let was = gw.with(|s| s.sessions);
            if !(round == 0 && first_refused > 0) && rng.chance(1, 5) {
                // the heart beat cannot be sent; also while nobody fetches more telegrams than are kept
                let backlog = if rng.chance(1, 2) { 120 } else { rng.below(5) };
                for _ in 0..backlog {
                    gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
                }
                let mut left = 1;
                with_net(|net| {
                    net.send_fault = Some(Box::new(move |b| {
                        if left > 0 && oracle::service(b) == 0x0207 {
                            left -= 1;
                            Some(libc::ENETUNREACH)
                        } else {
                            None
                        }
                    }))
                });
                gw.with(|s| {
                    s.conn.push_back(ConnPol::Silent);
                });
                if wait_until(70_000, || gw.with(|s| !s.connected)).await {
                    sleep(ms(rng.range(50, 9_000))).await;
                    if m.is_connected().await {
                        bad2.lock().unwrap().push(format!("t={}ms: connected while a new connection is being requested", now()));
                    }
                } else {
                    // kept the connection in spite of the error
                    gw.with(|s| s.conn.clear());
                    with_net(|net| net.send_fault = None);
                    gw.with(|s| {
                        let ch = s.channel;
                        s.send_raw(&Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes());
                        s.connected = false;
                    });
                }
                for _ in 0..400 {
                    if timeout(ms(100), node.next(0)).await.is_err() {
                        break;
                    }
                }
            } else if !(round == 0 && first_refused > 0) {
                if m.is_connected().await != gw.with(|s| s.connected) {
                    bad2.lock().unwrap().push(format!("t={}ms: connected state is {} in round {}", now(), m.is_connected().await, round));
                }
                gw.with(|s| {
                    for _ in 0..refusals {
                        s.conn.push_back(ConnPol::Refuse(0x24, false));
                    }
                    s.conn.push_back(ConnPol::AcceptAfter(silent_ms));
                    let ch = s.channel;
                    let f = match s.rng.below(3) {
                        0 => Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes(),
                        1 => Frame::StateResp { ch, status: 0x27 }.bytes(),
                        _ => vec![6, 0x10, 0x05, 0x31, 0, 6],
                    };
                    s.send_raw(&f);
                    s.connected = false;
                });
                sleep(ms(100)).await;
                if m.is_connected().await {
                    bad2.lock().unwrap().push(format!("t={}ms: still connected after the loss of the connection", now()));
                }
            }
            let ok = wait_until(100_000, || gw.with(|s| s.sessions > was && s.connected)).await;
            if !ok {
                bad2.lock().unwrap().push(format!("t={}ms: no new connection", now()));
                return Ok(());
            }
            // accepted, but the response is on its way
            sleep(ms(3_200)).await;
            if !m.is_connected().await {
                bad2.lock().unwrap().push(format!("t={}ms: not connected although the gateway accepted", now()));
            }
            sleep(ms(rng.range(0, 70_000))).await;
            for l in &mut ls {
                let sessions = gw.with(|s| s.sessions) - l.base;
                let pending = l.rx.as_mut().map(|r| r.len() as u64).unwrap_or(0);
                let got = l.got.load(Ordering::Relaxed);
                if l.exact && got != sessions as u64 {
                    bad2.lock()
                        .unwrap()
                        .push(format!("t={}ms: listener {} got {} notifications for {} connections", now(), l.id, got, sessions));
                    l.exact = false;
                } else if l.rx.is_some() && pending != (sessions as u64).min(l.cap) {
                    bad2.lock().unwrap().push(format!(
                        "t={}ms: listener {} (capacity {}) has {} pending notifications for {} connections",
                        now(),
                        l.id,
                        l.cap,
                        pending,
                        sessions
                    ));
                }
                if l.rx.is_some() {
                    match rng.below(6) {
                        // goes away
                        0 => l.rx = None,
                        // reads all that came, and gets the next ones again
                        1 | 2 => {
                            while l.rx.as_mut().map(|r| r.try_recv().is_ok()) == Some(true) {
                                note(Note::Notified { listener: l.id });
                            }
                            l.base += sessions;
                        }
                        _ => (),
                    }
                }
            }
        }
        if rng.chance(1, 2) {
            let r = node.disconnect().await;
            if r == Res::Code(0) && m.is_connected().await {
                bad2.lock().unwrap().push("connected after the disconnection".to_string());
            }
        }
        Ok(())
    });
    for b in bad.lock().unwrap().drain(..) {
        vi(out, "C20", b);
    }
    out.count("notifications", r.log.iter().filter(|e| matches!(e, Ev::Note { note: Note::Notified { .. }, .. })).count() as u64);
    finish(case, out, r, false);
}

/// A monitor enables the info service in every connection, also when that request has to wait or
/// cannot be sent; until then there is no connection: no notification, not connected, nothing else sent.
pub fn info_service(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let gw = Gw::new(rng.u64())?;
        let same = rng.chance(1, 2);
        if same {
            let ch = rng.u8();
            gw.with(|s| s.channels.extend([ch; 40]));
        }
        gw.start()?;
        // requests to enable it fail with this error
        let failing = Arc::new(AtomicU64::new(rng.below(3)));
        let f2 = failing.clone();
        let e = *rng.pick(&[libc::ENOBUFS, libc::ENETUNREACH, libc::EPERM, libc::ENETDOWN]);
        with_net(|net| {
            net.send_fault = Some(Box::new(move |b| {
                if oracle::service(b) == 0x0424 && f2.load(Ordering::Relaxed) > 0 {
                    f2.fetch_sub(1, Ordering::Relaxed);
                    Some(e)
                } else {
                    None
                }
            }))
        });
        if rng.chance(1, 3) {
            gw.with(|s| s.conn.push_back(ConnPol::AcceptAfter(300)));
            let d = rng.range(301, 2_500);
            tokio::task::spawn_local(async move {
                sleep(ms(100)).await;
                fill_send_buffers(d);
            });
        }
        let node = Node::connect(&gw, true).await?;
        let m = match &node {
            Node::M(m) => m.clone(),
            _ => unreachable!(),
        };
        // listeners which read at once
        for id in 1..=rng.range(1, 3) as usize {
            let (tx, mut rx) = tokio::sync::mpsc::channel::<()>(8);
            m.add_on_connect(tx).await;
            note(Note::Registered { listener: id });
            tokio::task::spawn_local(async move {
                while rx.recv().await.is_some() {
                    note(Note::Notified { listener: id });
                }
            });
        }
        let stop = Arc::new(AtomicBool::new(false));
        let s2 = stop.clone();
        let n2 = node.clone();
        let mut r2 = Rng::new(rng.u64());
        let asks = tokio::task::spawn_local(async move {
            while !s2.load(Ordering::Relaxed) {
                sleep(ms(r2.range(1, 700))).await;
                if let Node::M(m) = &n2 {
                    let b = m.is_connected().await;
                    note(Note::Connected(b));
                }
                if r2.chance(1, 6) {
                    n2.random_op(&mut r2, 0x0a03).await;
                }
            }
        });
        let c = consumer(&node, 0, rng.u64(), 0, false, stop.clone());
        for _ in 0..rng.range(1, 6) {
            if rng.chance(1, 3) {
                gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
            }
            sleep(ms(rng.range(2_600, 15_000))).await;
            failing.store(if rng.chance(1, 2) { 0 } else { rng.range(1, 3) }, Ordering::Relaxed);
            let full = rng.chance(1, 2);
            let delay = rng.range(200, 900);
            gw.with(|s| {
                if full {
                    s.conn.push_back(ConnPol::AcceptAfter(delay));
                }
                let ch = s.channel;
                let f = match s.rng.below(3) {
                    0 => Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes(),
                    1 => Frame::StateResp { ch, status: 0x27 }.bytes(),
                    _ => vec![6, 0x10, 0x05, 0x31, 0, 6],
                };
                s.send_raw(&f);
            });
            if full {
                sleep(ms(rng.range(50, 150))).await;
                fill_send_buffers(delay + rng.range(1, 2_000));
            }
        }
        sleep(ms(13_000)).await;
        stop.store(true, Ordering::Relaxed);
        let _ = asks.await;
        let _ = c.await;
        Ok(())
    });
    // one notification per listener and enabled connection, not before it was enabled
    let an = oracle::analyse(&r.log);
    let mut enabled = vec![];
    for s in &an.sessions {
        if let Some(k) = (s.start + 1..s.end.min(r.log.len())).find(|k| matches!(&r.log[*k], Ev::Tx { err: None, data, .. } if oracle::service(data) == 0x0424)) {
            enabled.push((k, r.log[k].t()));
        }
    }
    let mut listeners: Vec<(usize, usize)> = vec![];
    for (i, e) in r.log.iter().enumerate() {
        if let Ev::Note { note: Note::Registered { listener }, .. } = e {
            listeners.push((*listener, i));
        }
    }
    let last = r.log.last().map(|e| e.t()).unwrap_or(0);
    for (l, from) in &listeners {
        let mut got = 0;
        for (i, e) in r.log.iter().enumerate() {
            match e {
                Ev::Note { t, note: Note::Notified { listener } } if listener == l => {
                    got += 1;
                    let have = enabled.iter().filter(|k| k.0 > *from && k.0 < i).count();
                    if got > have {
                        vi(out, "C20", format!("t={}ms: listener {} got notification {} with {} connections in which the info service was enabled", t, l, got, have));
                        break;
                    }
                }
                _ => (),
            }
        }
        let due = enabled.iter().filter(|k| k.0 > *from && k.1 + 1000 < last).count();
        if got < due && r.result.is_ok() {
            vi(out, "C20", format!("listener {} got {} notifications for {} connections", l, got, due));
        }
    }
    out.count("connections enabling the info service", enabled.len() as u64);
    finish(case, out, r, true);
}

/// disconnect requests of the gateway
pub fn gateway_disconnect(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let bad = Arc::new(std::sync::Mutex::new(vec![]));
    let bad2 = bad.clone();
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        gw.start()?;
        let node = Node::connect(&gw, monitor).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        for _ in 0..rng.range(1, 8) {
            for _ in 0..rng.below(4) {
                let dst = rng.u16();
                node.random_op(&mut rng, dst).await;
            }
            let own = rng.chance(1, 2);
            let sessions = gw.with(|s| s.sessions);
            // with an operation waiting for its answer
            let waiting = !monitor && rng.chance(1, 2);
            let answer_after = rng.range(50, 3000);
            let h = if waiting {
                gw.with(|s| {
                    s.tunnel = Box::new(move |r, q, c| default_tunnel(r, q, c).into_iter().map(|(_, m)| (answer_after, m)).collect());
                });
                let node = node.clone();
                let mut rng2 = Rng::new(rng.u64());
                let h = tokio::task::spawn_local(async move { node.random_op(&mut rng2, 0x0501).await });
                sleep(ms(rng.range(5, 30))).await;
                gw.with(|s| s.tunnel = Box::new(default_tunnel));
                Some(h)
            } else {
                None
            };
            if own && rng.chance(1, 5) {
                // the answer cannot be sent
                let mut left = 1;
                let e = *rng.pick(&[libc::ENETUNREACH, libc::EPERM, libc::ENOBUFS]);
                with_net(|net| {
                    net.send_fault = Some(Box::new(move |b| {
                        if left > 0 && oracle::service(b) == 0x020a {
                            left -= 1;
                            Some(e)
                        } else {
                            None
                        }
                    }))
                });
            }
            if !own && rng.chance(1, 2) {
                gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
            }
            for _ in 0..rng.range(1, 3) {
                gw.with(|s| {
                    let ch = if own {
                        s.channel
                    } else {
                        let mut c = s.rng.u8();
                        if c == s.channel {
                            c = c.wrapping_add(1);
                        }
                        c
                    };
                    let ep = match s.rng.below(3) {
                        0 => CLIENT_HPAI,
                        1 => s.data_ep.clone(),
                        _ => Hpai {
                            proto: s.rng.u8(),
                            ip: [s.rng.u8(), s.rng.u8(), 3, 4],
                            port: s.rng.u16(),
                        },
                    };
                    s.send_raw(&Frame::DiscReq { ch, ep }.bytes());
                    if own {
                        s.connected = false;
                    }
                });
                if own {
                    break;
                }
                // the numbering goes on
                if rng.chance(1, 2) {
                    gw.with(|s| s.send_msg(GwMsg::Repeat));
                }
                sleep(ms(rng.range(0, 50))).await;
            }
            if own {
                let ok = wait_until(2_000, || gw.with(|s| s.sessions > sessions && s.connected)).await;
                if !ok {
                    bad2.lock().unwrap().push(format!("t={}ms: no new connection within 2 seconds", now()));
                    return Ok(());
                }
                sleep(ms(20)).await;
            }
            if let Some(h) = h {
                let r = h.await.map_err(|e| e.to_string())?;
                if !own && !matches!(r, Res::Ok | Res::Value(_) | Res::Err(_)) {
                    bad2.lock().unwrap().push(format!("operation in progress ended with {:?}", r));
                }
            }
            if !own {
                sleep(ms(200)).await;
                if gw.with(|s| s.sessions) != sessions {
                    bad2.lock().unwrap().push(format!("t={}ms: disconnect request for another channel cost the connection", now()));
                }
            }
            if !works(&gw, &node, &uniq, 3_000).await {
                bad2.lock().unwrap().push(format!("t={}ms: connection does not work after a disconnect request (own channel: {})", now(), own));
                return Ok(());
            }
            if rng.chance(1, 4) {
                sleep(ms(rng.range(1, 61_000))).await;
            }
        }
        sleep(ms(1500)).await;
        Ok(())
    });
    for b in bad.lock().unwrap().drain(..) {
        vi(out, "C21", b);
    }
    let k = out.viols.len();
    finish(case, out, r, false);
    // telegrams and numbering around disconnect requests of the gateway
    for i in k..out.viols.len() {
        if matches!(out.viols[i].0.as_str(), "C10" | "C12") {
            let m = out.viols[i].1.clone();
            vi(out, "C21", m);
        }
    }
}

/// dropping the handle
pub fn dropping(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let bad = Arc::new(std::sync::Mutex::new(vec![]));
    let bad2 = bad.clone();
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        let state = rng.below(7);
        gw.with(|s| match state {
            0 => s.conn_default = ConnPol::Silent,
            1 => s.conn_default = ConnPol::Refuse(0x24, true),
            _ => (),
        });
        if state != 2 {
            gw.start()?;
        }
        let tasks0 = tokio::runtime::Handle::current().metrics().num_alive_tasks();
        let node = Node::connect(&gw, monitor).await?;
        match state {
            0 | 1 | 2 => sleep(ms(rng.range(0, 100_000))).await,
            _ => {
                up(&gw, 1).await;
                let k = *rng.pick(&[0u64, 1, 50, 99, 100, 101, 150]);
                for i in 0..k {
                    gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
                    if i % 20 == 0 {
                        sleep(ms(rng.range(0, 5))).await;
                    }
                }
                if rng.chance(1, 2) {
                    let _ = timeout(ms(rng.range(0, 4000)), node.random_op(&mut rng, 0x0601)).await;
                }
                if rng.chance(1, 4) {
                    gw.with(|s| s.disc.push_back(DiscPol::Silent));
                    let _ = timeout(ms(rng.range(0, 4000)), node.disconnect()).await;
                }
                if state >= 5 {
                    // the connection is lost, and not regained
                    gw.with(|s| {
                        s.conn_default = if state == 5 { ConnPol::Silent } else { ConnPol::Refuse(0x24, true) };
                        let ch = s.channel;
                        s.connected = false;
                        let b = match s.rng.below(3) {
                            0 => Frame::StateResp { ch, status: 0x21 }.bytes(),
                            1 => vec![1, 2, 3],
                            _ => Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes(),
                        };
                        s.send_raw(&b)
                    });
                    sleep(ms(rng.range(0, 100_000))).await;
                } else {
                    sleep(ms(*rng.pick(&[0u64, 10, 59_970, 61_000, 130_000]))).await;
                }
            }
        }
        // the other references first
        let clones = rng.below(3);
        let others: Vec<Node> = (0..clones).map(|_| node.clone()).collect();
        drop(others);
        drop(node);
        mark("dropped");
        let t = now();
        let end = t + *rng.pick(&[65_000u64, 130_000]);
        if state >= 3 && (state < 5 || rng.chance(1, 2)) {
            for _ in 0..rng.below(5) {
                sleep(ms(rng.range(1, 1500))).await;
                gw.with(|s| {
                    let b = match s.rng.below(3) {
                        0 => {
                            let ch = s.channel;
                            Frame::StateResp { ch, status: 0x21 }.bytes()
                        }
                        1 => vec![1, 2, 3],
                        _ => {
                            let m = gen_ind(&mut Rng::new(s.rng.u64()), &uniq, None);
                            s.send_cemi(m.bytes());
                            return;
                        }
                    };
                    s.send_raw(&b)
                });
            }
        }
        if state == 2 {
            gw.start()?;
        }
        if state < 5 || rng.chance(1, 3) {
            gw.with(|s| s.conn_default = ConnPol::Accept);
        }
        while now() < end {
            sleep(ms(500)).await;
        }
        let late: Vec<String> = with_net(|n| {
            n.log
                .iter()
                .filter_map(|e| match e {
                    Ev::Tx { t: x, data, .. } if *x > t + 1000 => Some(format!("t={}ms: {}", x, hex(data))),
                    _ => None,
                })
                .collect()
        });
        if !late.is_empty() {
            bad2.lock().unwrap().push(format!("handle dropped at t={}ms, sent afterwards: {}", t, late.join(", ")));
        }
        // the gateway's receive task is ours
        let tasks1 = tokio::runtime::Handle::current().metrics().num_alive_tasks();
        let mine = if state == 2 { 1 } else { 0 };
        if tasks1 > tasks0 + mine {
            bad2.lock().unwrap().push(format!("handle dropped at t={}ms, {} background tasks still alive at t={}ms", t, tasks1 - tasks0 - mine, now()));
        }
        Ok(())
    });
    for b in bad.lock().unwrap().drain(..) {
        vi(out, "C22", b);
    }
    out.count("handles dropped", 1);
    finish(case, out, r, false);
}

/// a client nobody uses receives telegrams
pub fn idle_client(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let bad = Arc::new(std::sync::Mutex::new(vec![]));
    let bad2 = bad.clone();
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let gw = Gw::new(rng.u64())?;
        gw.start()?;
        let node = Node::connect(&gw, false).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        let n = *rng.pick(&[20u64, 99, 100, 101, 150, 300, 600]);
        for i in 0..n {
            let m = match rng.below(20) {
                0 => GwMsg::Repeat,
                3 | 4 => GwMsg::Feature,
                1 => GwMsg::Cemi(gen_bad_cemi(&mut rng, &uniq)),
                2 => {
                    let mut d = gen_ind(&mut rng, &uniq, Some(0x4242));
                    if rng.chance(1, 2) {
                        d.mc = L_DATA_CON;
                    }
                    GwMsg::Cemi(d.bytes())
                }
                _ => GwMsg::Cemi(gen_ind(&mut rng, &uniq, None).bytes()),
            };
            gw.with(|s| s.send_msg(m));
            if rng.chance(1, 4) || i % 50 == 49 {
                sleep(ms(*rng.pick(&[1u64, 10, 200]))).await;
            }
        }
        sleep(ms(*rng.pick(&[10u64, 2_000, 121_000]))).await;
        // the stale telegrams for the address are not its value
        if !works(&gw, &node, &uniq, 3_000).await {
            bad2.lock().unwrap().push(format!("client does not work after {} unread telegrams", n));
        }
        let dst = rng.u16();
        node.random_op(&mut rng, dst).await;
        sleep(ms(1500)).await;
        Ok(())
    });
    for b in bad.lock().unwrap().drain(..) {
        vi(out, "C16", b.clone());
        vi(out, "C13", b);
    }
    finish(case, out, r, false);
}

/// everything at once
pub fn chaos(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let bad = Arc::new(std::sync::Mutex::new(vec![]));
    let bad2 = bad.clone();
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        let harsh = rng.below(4);
        gw.with(|s| s.tunnel = nasty_tunnel(uniq.clone(), harsh, monitor));
        gw.start()?;
        let node = Node::connect(&gw, monitor).await?;
        let stop = Arc::new(AtomicBool::new(false));
        let stop_c = Arc::new(AtomicBool::new(false));
        let mut cs = vec![];
        if monitor {
            for i in 0..rng.range(1, 2) {
                cs.push(consumer(&node, i as usize, rng.u64(), *rng.pick(&[0u64, 30, 1000]), rng.chance(1, 3), stop_c.clone()));
            }
        }
        let tr = traffic(&gw, rng.u64(), uniq.clone(), *rng.pick(&[50u64, 500, 5000]), stop.clone());
        let mut hs = vec![];
        for k in 0..rng.range(1, 3) {
            let node = node.clone();
            let stop = stop.clone();
            let mut rng = Rng::new(rng.u64());
            hs.push(tokio::task::spawn_local(async move {
                while !stop.load(Ordering::Relaxed) {
                    sleep(ms(*rng.pick(&[0u64, 10, 500, 5_000, 30_000]))).await;
                    let dst = ((k as u16) << 12) | rng.below(4) as u16;
                    if rng.chance(1, 8) {
                        let d = rng.below(4000);
                        let _ = timeout(ms(d), node.random_op(&mut rng, dst)).await;
                    } else if rng.chance(1, 10) {
                        node.status().await;
                    } else {
                        node.random_op(&mut rng, dst).await;
                    }
                }
            }));
        }
        let end = now() + *rng.pick(&[20_000u64, 100_000, 400_000]);
        while now() < end {
            sleep(ms(rng.range(10, 40_000))).await;
            match rng.below(9) {
                0 => gw.with(|s| {
                    let ch = s.channel;
                    s.send_raw(&Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes());
                    s.connected = false;
                }),
                1 => gw.with(|s| {
                    let ch = s.channel.wrapping_add(1);
                    s.send_raw(&Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes())
                }),
                2 => {
                    let ch = gw.with(|s| s.channel);
                    let b = gen_hostile(&mut rng, ch, &uniq);
                    gw.with(|s| s.send_raw(&b));
                }
                3 => {
                    gw.crash().await;
                    sleep(ms(rng.range(1, 20_000))).await;
                    gw.start()?;
                }
                4 => gw.with(|s| {
                    for _ in 0..s.rng.range(1, 3) {
                        s.conn.push_back(ConnPol::Refuse(0x24, true));
                    }
                    let ch = s.channel;
                    s.send_raw(&Frame::StateResp { ch, status: 0x21 }.bytes());
                    s.connected = false;
                }),
                5 => {
                    let mut left = rng.range(1, 2);
                    let svc = *rng.pick(&[0x0420u16, 0x0421, 0x0207, 0x0424, 0x0205]);
                    with_net(|net| {
                        net.send_fault = Some(Box::new(move |b| {
                            if oracle::service(b) == svc && left > 0 {
                                left -= 1;
                                Some(libc::ENOBUFS)
                            } else {
                                None
                            }
                        }))
                    });
                }
                6 => {
                    let mut left = rng.range(1, 2);
                    with_net(|net| {
                        net.recv_fault = Some(Box::new(move || {
                            if left > 0 {
                                left -= 1;
                                Some(libc::ENETDOWN)
                            } else {
                                None
                            }
                        }))
                    });
                }
                7 => gw.with(|s| {
                    s.hb.push_back(HbPol::Status(0x26));
                }),
                _ => (),
            }
        }
        with_net(|net| {
            net.send_fault = None;
            net.recv_fault = None;
        });
        stop.store(true, Ordering::Relaxed);
        let _ = tr.await;
        for h in hs {
            if timeout(ms(150_000), h).await.is_err() {
                bad2.lock().unwrap().push(("C16", "an operation does not end".to_string()));
                return Ok(());
            }
        }
        sleep(ms(500)).await;
        stop_c.store(true, Ordering::Relaxed);
        for c in cs {
            let _ = c.await;
        }
        let t = now();
        if !works(&gw, &node, &uniq, RECOVERY).await {
            bad2.lock().unwrap().push(("C16", format!("no working connection within {}s after t={}ms", RECOVERY / 1000, t)));
            return Ok(());
        }
        if rng.chance(1, 3) {
            // what works() left over
            while monitor && timeout(ms(500), node.next(0)).await.is_ok() {}
            drop(node);
            mark("dropped");
            let t = now();
            sleep(ms(65_000)).await;
            let late = with_net(|n| n.log.iter().any(|e| matches!(e, Ev::Tx { t: x, .. } if *x > t + 1000)));
            if late {
                bad2.lock().unwrap().push(("C22", format!("handle dropped at t={}ms, but it still sends", t)));
            }
        } else if rng.chance(1, 2) {
            node.disconnect().await;
            sleep(ms(65_000)).await;
        }
        Ok(())
    });
    for (p, b) in bad.lock().unwrap().drain(..) {
        vi(out, p, b);
    }
    finish(case, out, r, false);
}

/// every channel, every status, every field value of the control services in turn
pub fn values(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let monitor = rng.chance(1, 2);
        let gw = Gw::new(rng.u64())?;
        let mut statuses: Vec<u8> = (1..=255).collect();
        let mut channels: Vec<u8> = (0..=255).collect();
        let mut foreign: Vec<u8> = (0..=255).collect();
        for l in [&mut statuses, &mut channels, &mut foreign] {
            for i in (1..l.len()).rev() {
                l.swap(i, rng.usize(i + 1));
            }
        }
        gw.with(|s| s.channels = channels.clone().into());
        gw.start()?;
        let node = Node::connect(&gw, monitor).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        let stop = Arc::new(AtomicBool::new(false));
        let c = if monitor { Some(consumer(&node, 0, rng.u64(), 0, false, stop.clone())) } else { None };
        let mut sessions = 1;
        let n = 40 + rng.below(24);
        for k in 0..n as usize {
            // nothing of this costs the connection
            for _ in 0..rng.below(4) {
                let f = foreign.pop().unwrap_or(0);
                let (x, y) = (rng.u8(), rng.u8());
                let fr = gw.with(|s| match s.rng.below(6) {
                    0 | 1 if f != s.channel => Frame::DiscReq {
                        ch: f,
                        ep: if x < 128 { CLIENT_HPAI } else { Hpai { proto: 1 + (x & 1), ip: [127, 0, 0, x], port: u16::from_be_bytes([x, y]) } },
                    },
                    2 => Frame::StateResp { ch: f, status: 0 },
                    3 | 4 => Frame::TunAck { ch: f, seq: x, status: y },
                    _ => Frame::StateResp { ch: s.channel, status: 0 },
                });
                gw.with(|s| s.send_raw(&fr.bytes()));
                if rng.chance(1, 2) {
                    sleep(ms(rng.below(30))).await;
                }
            }
            if rng.chance(1, 3) {
                gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
            }
            if rng.chance(1, 3) {
                node.random_op(&mut rng, k as u16).await;
            }
            let st = statuses[k];
            if rng.chance(1, 6) {
                let long = rng.chance(1, 2);
                gw.with(|s| s.conn.push_back(ConnPol::Refuse(st ^ 0x5a | 1, long)));
            }
            match rng.below(5) {
                0 if !monitor => {
                    gw.with(|s| s.hb.push_front(HbPol::Status(st)));
                    node.status().await;
                }
                1 => {
                    // the answer to a heart beat
                    let hb = gw.with(|s| {
                        s.hb.push_front(HbPol::Status(st));
                        s.hb.len()
                    });
                    wait_until(62_000, || gw.with(|s| s.hb.len() < hb)).await;
                }
                2 => gw.with(|s| {
                    let ch = s.channel;
                    let ep = if st < 128 { CLIENT_HPAI } else { Hpai { proto: 2 - (st & 1), ip: [10, 0, st, 1], port: st as u16 * 257 } };
                    s.send_raw(&Frame::DiscReq { ch, ep }.bytes());
                    s.connected = false;
                }),
                _ => gw.with(|s| {
                    let ch = s.channel;
                    s.send_raw(&Frame::StateResp { ch, status: st }.bytes());
                    s.connected = false;
                }),
            }
            sessions += 1;
            if !up(&gw, sessions).await {
                break;
            }
        }
        sleep(ms(500)).await;
        stop.store(true, Ordering::Relaxed);
        if let Some(h) = c {
            h.abort();
        }
        Ok(())
    });
    finish(case, out, r, false);
}

/// every status of a disconnect response
pub fn disconnect_values(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let idx = case.idx;
    let bad = Arc::new(std::sync::Mutex::new(vec![]));
    let bad2 = bad.clone();
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(0));
        let status = (idx & 255) as u8;
        let monitor = idx & 256 == 0;
        let gw = Gw::new(rng.u64())?;
        gw.with(|s| {
            let d = s.rng.below(4) * s.rng.below(2_000);
            s.disc.push_back(DiscPol::StatusAfter(status, d));
            let ch = s.rng.u8();
            s.channels = vec![ch, ch.wrapping_add(1), ch.wrapping_add(2)].into();
        });
        gw.start()?;
        let node = Node::connect(&gw, monitor).await?;
        if !up(&gw, 1).await {
            return Ok(());
        }
        let k = rng.below(4);
        for _ in 0..k {
            if monitor {
                gw.with(|s| s.send_cemi(gen_ind(&mut rng, &uniq, None).bytes()));
            } else {
                node.random_op(&mut rng, 0x0305).await;
            }
        }
        sleep(ms(rng.below(100))).await;
        let r = node.disconnect().await;
        let as_stated = match (monitor, &r) {
            (true, Res::Code(c)) => *c == status,
            (false, Res::Ok) => status == 0,
            (false, Res::Err(_)) => status != 0,
            _ => false,
        };
        if !as_stated {
            bad2.lock().unwrap().push(format!("disconnection answered with status {:#04x} returned {:?}", status, r));
        }
        sleep(ms(rng.below(70_000))).await;
        Ok(())
    });
    for b in bad.lock().unwrap().drain(..) {
        vi(out, "C17", b);
    }
    finish(case, out, r, false);
}
