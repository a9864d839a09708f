//! Several handles in one process: none of them notices the others.
use crate::inter::*;
use crate::net::*;
use crate::oracle;
use crate::refc::*;
use crate::resources::echo;
use crate::sim::*;
use crate::util::*;
use crate::{codec, Case, Out};
use knx_ip_client::packets::addresses::KnxAddress;
use knx_ip_client::transport::udp::UdpClient;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use tokio::time::{sleep, timeout};

/// an operation of a handle whose own gateway behaves well has to end within
const PROMPT: u64 = 1_000;

struct Party {
    fd: i32,
    owner: usize,
    calm: bool,
    monitor: bool,
}

/// what one of the handles did and saw
fn part(log: &[Ev], p: &Party) -> Vec<Ev> {
    let marker = format!("dropped {}", p.owner);
    log.iter()
        .filter_map(|e| match e {
            Ev::Tx { fd, .. } | Ev::Rx { fd, .. } | Ev::RxErr { fd, .. } => {
                if *fd == p.fd {
                    Some(e.clone())
                } else {
                    None
                }
            }
            Ev::Note { t, note } => match note {
                Note::OpStart { id, .. } | Note::OpEnd { id, .. } => {
                    if op_owner(*id) == p.owner {
                        Some(e.clone())
                    } else {
                        None
                    }
                }
                Note::Mark(m) if *m == marker => Some(Ev::Note {
                    t: *t,
                    note: Note::Mark("dropped".into()),
                }),
                _ => None,
            },
        })
        .collect()
}

async fn calm(k: usize, gw: Gw, node: Node, seed: u64, uniq: Arc<AtomicU64>, end: u64, bad: Arc<Mutex<Vec<String>>>, done: Arc<AtomicU64>) {
    let mut rng = Rng::new(seed);
    let answers: Arc<Mutex<Vec<u8>>> = Arc::new(Mutex::new(vec![]));
    let (a2, u2) = (answers.clone(), uniq.clone());
    gw.with(|s| {
        s.tunnel = Box::new(move |_, _, cemi| match LData::parse(cemi) {
            Some(d) => {
                let mut out = vec![(0, GwMsg::Cemi(LData::con(d.dst, true, d.apci, d.payload.clone()).bytes()))];
                if d.apci == APCI_READ {
                    let v = (u2.fetch_add(1, Ordering::Relaxed) as u32).to_be_bytes().to_vec();
                    *a2.lock().unwrap() = v.clone();
                    out.push((3, GwMsg::Cemi(LData::ind(0x1105, d.dst, APCI_RESPONSE, Payload::Long(v)).bytes())));
                }
                out
            }
            None => vec![],
        })
    });
    let who = format!("handle {} ({})", k, if matches!(node, Node::M(_)) { "monitor" } else { "client" });
    let mut registered = None;
    while now() < end {
        let d = *rng.pick(&[0u64, 1, 50, 2_000, 20_000]);
        sleep(ms(rng.below(d + 1))).await;
        let t0 = now();
        if let Node::M(m) = &node {
            if !m.is_connected().await {
                bad.lock().unwrap().push(format!("t={}ms: {} reports that it is not connected", t0, who));
                return;
            }
            // of connections from now on: there are none
            let rx = registered.get_or_insert_with(|| {
                let (tx, rx) = tokio::sync::mpsc::channel(8);
                let m = m.clone();
                tokio::task::spawn_local(async move { m.add_on_connect(tx).await });
                rx
            });
            if rx.try_recv().is_ok() {
                bad.lock().unwrap().push(format!("t={}ms: {} notified of a connection it did not make", t0, who));
                return;
            }
        }
        // the same addresses are in use everywhere
        let dst = rng.below(4) as u16 + 1;
        let a = KnxAddress::group_1_level(dst);
        let wrong = match &node {
            Node::C(_) => match rng.below(5) {
                0 => match node.status().await {
                    Res::Status { status: 0, ch } if ch == gw.with(|s| s.channel) => None,
                    r => Some(format!("a status query returned {:?}", r)),
                },
                1 | 2 => match node.read(a).await {
                    Res::Value(v) if v == *answers.lock().unwrap() => None,
                    r => Some(format!("a read of {:04x} returned {:?}, answered was {:?}", dst, r, answers.lock().unwrap())),
                },
                _ => {
                    let v = (uniq.fetch_add(1, Ordering::Relaxed) as u32).to_be_bytes().to_vec();
                    match node.write(a, v, false).await {
                        Res::Ok => None,
                        r => Some(format!("a write to {:04x} returned {:?}", dst, r)),
                    }
                }
            },
            Node::M(_) => {
                let v = (uniq.fetch_add(1, Ordering::Relaxed) as u32).to_be_bytes().to_vec();
                if rng.chance(1, 3) {
                    match node.write(a, v, false).await {
                        Res::Ok => None,
                        r => Some(format!("a write to {:04x} returned {:?}", dst, r)),
                    }
                } else {
                    gw.with(|s| s.send_cemi(LData::ind(0x1106, dst, APCI_WRITE, Payload::Long(v.clone())).bytes()));
                    match timeout(ms(2 * PROMPT), node.next(0)).await {
                        Ok(Res::Msg { dst: d, value, .. }) if d == dst && value == v => None,
                        Ok(r) => Some(format!("instead of the telegram to {:04x} with value {} it returned {:?}", dst, hex(&v), r)),
                        Err(_) => Some(format!("the telegram to {:04x} with value {} was not returned", dst, hex(&v))),
                    }
                }
            }
        };
        let took = now() - t0;
        let wrong = wrong.or(if took > PROMPT { Some(format!("an operation took {}ms", took)) } else { None });
        done.fetch_add(1, Ordering::Relaxed);
        if let Some(w) = wrong {
            bad.lock().unwrap().push(format!("t={}ms: {}: {}", t0, who, w));
            return;
        }
    }
}

async fn wild(gw: Gw, node: Node, seed: u64, uniq: Arc<AtomicU64>, end: u64) {
    let mut rng = Rng::new(seed);
    let mut node = Some(node);
    gw.with(|s| s.tunnel = nasty_tunnel(uniq.clone(), 3, matches!(node, Some(Node::M(_)))));
    let busy = Arc::new(AtomicBool::new(false));
    let (tx, _rx) = tokio::sync::mpsc::channel(1);
    if let Some(Node::M(m)) = &node {
        m.add_on_connect(tx).await;
    }
    while now() < end {
        match rng.below(12) {
            0 => {
                gw.with(|s| {
                    for _ in 0..s.rng.below(4) {
                        let p = if s.rng.chance(1, 2) { ConnPol::Silent } else { ConnPol::Refuse(0x24, true) };
                        s.conn.push_back(p);
                    }
                    let ch = s.channel;
                    s.connected = false;
                    s.send_raw(&Frame::DiscReq { ch, ep: CLIENT_HPAI }.bytes())
                });
            }
            1 => gw.with(|s| {
                let ch = s.channel;
                s.connected = false;
                s.send_raw(&Frame::StateResp { ch, status: 0x21 }.bytes())
            }),
            2 => {
                let ch = gw.with(|s| s.channel);
                let b = gen_hostile(&mut rng, ch, &uniq);
                gw.with(|s| s.send_raw(&b));
            }
            3 => {
                for i in 0..rng.range(1, 150) {
                    let m = gen_ind(&mut rng, &uniq, None);
                    gw.with(|s| s.send_cemi(m.bytes()));
                    if i % 16 == 15 {
                        sleep(ms(1)).await;
                    }
                }
            }
            4 => gw.with(|s| s.tunnel = Box::new(|_, _, _| vec![])),
            5 => gw.with(|s| s.tunnel = echo()),
            6 => {
                gw.crash().await;
                sleep(ms(rng.below(50_000))).await;
                let _ = gw.start();
            }
            7 if rng.chance(1, 6) && !busy.load(Ordering::Relaxed) => {
                if let Some(n) = node.take() {
                    let owner = n.owner();
                    drop(n);
                    mark(&format!("dropped {}", owner));
                }
            }
            7 | 8 => {
                if let Some(n) = &node {
                    if rng.chance(1, 3) {
                        gw.with(|s| s.disc.push_back(DiscPol::Silent));
                    }
                    if rng.chance(1, 3) {
                        let _ = timeout(ms(rng.below(12_000)), n.disconnect()).await;
                    }
                }
            }
            _ => {
                // several at once, which wait for each other
                if let Some(n) = &node {
                    if !busy.swap(true, Ordering::Relaxed) {
                        let (n, busy, mut r2) = (n.clone(), busy.clone(), Rng::new(rng.u64()));
                        let k = rng.range(1, 5);
                        tokio::task::spawn_local(async move {
                            for _ in 0..k {
                                let dst = r2.below(4) as u16 + 1;
                                if r2.chance(1, 4) {
                                    let d = r2.below(12_000);
                                    let _ = timeout(ms(d), n.random_op(&mut r2, dst)).await;
                                } else {
                                    n.random_op(&mut r2, dst).await;
                                }
                                if r2.chance(1, 3) {
                                    let d = r2.below(3_000);
                                    let _ = timeout(ms(d), n.next(0)).await;
                                }
                                if r2.chance(1, 6) {
                                    n.status().await;
                                }
                            }
                            busy.store(false, Ordering::Relaxed);
                        });
                    }
                }
            }
        }
        let d = *rng.pick(&[0u64, 50, 5_000, 30_000]);
        sleep(ms(rng.below(d + 1))).await;
    }
    wait_until(200_000, || !busy.load(Ordering::Relaxed)).await;
    if let Some(n) = node.take() {
        let owner = n.owner();
        drop(n);
        mark(&format!("dropped {}", owner));
    }
}

pub fn isolation(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let bad: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let parties: Arc<Mutex<Vec<Party>>> = Arc::new(Mutex::new(vec![]));
    let done = Arc::new(AtomicU64::new(0));
    let (bad2, parties2, done2) = (bad.clone(), parties.clone(), done.clone());
    TELL_APART.with(|t| t.set(true));
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let uniq = Arc::new(AtomicU64::new(rng.below(1 << 24)));
        let n = rng.range(2, 7) as usize;
        let same_channel = rng.chance(1, 2);
        let channel = rng.u8();
        // one family of handles only, or any
        let kind = rng.below(4);
        let end_early = rng.below(40_000);
        let end = now() + rng.range(60_000, 300_000);
        let mut hs = vec![];
        let mut keep = vec![];
        for k in 0..n {
            let gw = Gw::new(rng.u64())?;
            let monitor = match kind {
                0 => false,
                1 => true,
                _ => rng.chance(1, 2),
            };
            let is_calm = k == 0 || rng.chance(1, 2);
            let hopeless = !is_calm && rng.chance(1, 4);
            gw.with(|s| {
                if same_channel {
                    s.channels.extend(vec![channel; 200]);
                }
                if hopeless {
                    s.conn_default = if s.rng.chance(1, 2) { ConnPol::Silent } else { ConnPol::Refuse(0x22, false) };
                }
            });
            if is_calm || rng.chance(7, 8) {
                gw.start()?;
            }
            let created = now();
            let node = Node::connect(&gw, monitor).await?;
            let fd = last_socket();
            let owner = node.register();
            parties2.lock().unwrap().push(Party {
                fd,
                owner,
                calm: is_calm,
                monitor,
            });
            keep.push(node.clone());
            let (bad, done, uniq, s) = (bad2.clone(), done2.clone(), uniq.clone(), rng.u64());
            let at_once = rng.chance(1, 2);
            let weak = !is_calm;
            if weak {
                keep.pop();
            }
            hs.push(tokio::task::spawn_local(async move {
                if is_calm {
                    if !up(&gw, 1).await || now() > created + PROMPT {
                        bad.lock().unwrap().push(format!("t={}ms: handle {} has only now got a connection", now(), k));
                        return;
                    }
                    calm(k, gw, node, s, uniq, end, bad, done).await
                } else {
                    wild(gw, node, s, uniq, end - end_early).await
                }
            }));
            if !at_once {
                sleep(ms(rng.below(3_000))).await;
            }
        }
        // searches at the same time
        if rng.chance(1, 3) {
            let g = bind_gw(fresh_addr())?;
            if let Ok(SocketAddr::V4(a)) = g.local_addr() {
                with_net(|n| n.redirect = Some(a));
            }
            let mut r2 = Rng::new(rng.u64());
            let bad = bad2.clone();
            hs.push(tokio::task::spawn_local(async move {
                let mut buf = [0u8; 1024];
                while now() < end - 5_000 {
                    sleep(ms(r2.below(20_000))).await;
                    let max = r2.range(20, 3_000);
                    let t0 = now();
                    let search = UdpClient::search(ms(max));
                    let devices = async {
                        if let Ok(Ok((n, peer))) = timeout(ms(max / 2), g.recv_from(&mut buf)).await {
                            if let Some(Frame::SearchReq { ep }) = Frame::parse(&buf[..n]) {
                                let to = SocketAddr::new(peer.ip(), ep.port);
                                let _ = g.send_to(&codec::search_response(&mut r2).1, to).await;
                            }
                        }
                    };
                    let (r, _) = tokio::join!(search, devices);
                    match r {
                        Ok(r) if r.len() == 1 && now() <= t0 + max + PROMPT => (),
                        r => bad.lock().unwrap().push(format!("t={}ms: a search of {}ms answered once returned {:?} at t={}ms", t0, max, r.map(|r| r.len()), now())),
                    }
                }
            }));
        }
        for h in hs {
            if h.await.is_err() {
                return Err("a task of the workload panicked".into());
            }
        }
        drop(keep);
        Ok(())
    });
    TELL_APART.with(|t| t.set(false));
    for p in &r.panics {
        if is_harness_panic(p) {
            out.harness_err = Some(p.clone());
        } else {
            out.viols.push(("C26".into(), format!("panic: {}", p)));
        }
    }
    if let Err(e) = &r.result {
        out.harness_err.get_or_insert(e.clone());
    }
    let ps = parties.lock().unwrap();
    for (k, p) in ps.iter().enumerate() {
        let log = part(&r.log, p);
        let an = oracle::analyse(&log);
        let mut v: oracle::Viols = vec![];
        oracle::conform(&log, &mut v);
        out.count("tunnel requests checked", oracle::sequence(&log, &an, &mut v));
        out.count("acknowledges checked", oracle::acks(&log, &an, &mut v));
        out.count("telegrams delivered", oracle::deliveries(&log, &an, false, &mut v));
        out.count("reads and writes judged", oracle::operations(&log, &an, &mut v));
        oracle::unconnected(&log, &an, &mut v);
        out.count("connection state requests", oracle::heartbeats(&log, &an, &mut v));
        oracle::session_ends(&log, &an, &mut v);
        oracle::disconnect_answers(&log, &an, &mut v);
        oracle::disconnects(&log, &an, &mut v);
        oracle::status_queries(&log, &an, &mut v);
        oracle::attempts(&log, &an, &mut v);
        out.count("connections", an.sessions.len() as u64);
        let what = format!("handle {} of {} ({}{})", k, ps.len(), if p.calm { "calm " } else { "" }, if p.monitor { "monitor" } else { "client" });
        if p.calm && an.sessions.len() > 1 {
            v.push(("C26", format!("{} connections although its gateway behaves well", an.sessions.len())));
        }
        for (c, m) in v {
            out.viols.push(("C26".into(), format!("{}: [{}] {}", what, c, m)));
        }
    }
    forget_owners();
    for b in bad.lock().unwrap().drain(..) {
        out.viols.push(("C26".into(), b));
    }
    out.count("operations of undisturbed handles", done.load(Ordering::Relaxed));
    out.count("handles", ps.len() as u64);
    out.count("events observed", r.log.len() as u64);
    out.evals += 1;
    out.distinct.push(oracle::shape(&r.log));
    if out.want_text {
        out.text.push_str(&oracle::render(&r.log, if std::env::var("KNXMON_FULL").is_ok() { usize::MAX } else { 4000 }));
    }
    if out.sample.is_none() && case.idx == 0 {
        out.sample = Some(format!("first events of case {}:\n{}", case.idx, oracle::render(&r.log[..r.log.len().min(20)], 20)));
    }
}
