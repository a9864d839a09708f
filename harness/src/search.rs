//! Workload for device discovery: searches against mock devices, in virtual time.
use crate::codec;
use crate::inter::*;
use crate::oracle;
use crate::refc::*;
use crate::sim::*;
use crate::util::*;
use crate::{Case, Out};
use knx_ip_client::transport::udp::UdpClient;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::sleep;

struct Call {
    start: usize,
    t0: u64,
    end: usize,
    t1: u64,
    wanted: u64,
    res: Result<Vec<codec::Fields>, String>,
}

/// something that is certainly no search response
fn malformed(rng: &mut Rng) -> Vec<u8> {
    let (_, mut b) = codec::search_response(rng);
    match rng.below(9) {
        0 => b[0] = *rng.pick(&[0u8, 5, 7, 0x10, 0xff]),
        1 => b[1] = *rng.pick(&[0u8, 0x11, 0x20, 0x0f, 0xff]),
        2 => b[3] = *rng.pick(&[0x01u8, 0x03, 0x04, 0x05, 0x06, 0x08, 0x0a]),
        3 => b[2] = *rng.pick(&[0x00u8, 0x03, 0x04, 0x05, 0xff]),
        4 => b.truncate(rng.usize(b.len())),
        5 => b.truncate(b.len() - 1),
        6 => {
            let n = rng.usize(90);
            b = rng.bytes(n);
            if b.len() > 3 && b[..4] == [6, 0x10, 2, 2] {
                b[0] = 0;
            }
        }
        7 => b = Frame::StateResp { ch: rng.u8(), status: 0 }.bytes(),
        _ => b.clear(),
    }
    b
}

/// which datagrams are search responses, by the reference
fn valid(b: &[u8]) -> Option<codec::Fields> {
    if b.len() < 6 || b[..4] != [6, 0x10, 2, 2] || u16::from_be_bytes([b[4], b[5]]) as usize != b.len() {
        return None;
    }
    codec::ref_search_resp(b)
}

struct Window {
    start: usize,
    end: usize,
    fd: i32,
    port: u16,
    failed: bool,
}

/// can the call have been the one which used the window? Responses and invalid datagrams seen.
fn judge(log: &[Ev], c: &Call, w: &Window, sent: &[(u64, u16, Vec<u8>)]) -> Result<(u64, u64), String> {
    if w.failed {
        return match c.res {
            Err(_) => Ok((0, 0)),
            Ok(_) => Err("its request could not be sent, but it succeeded".into()),
        };
    }
    let got = match &c.res {
        Ok(g) => g,
        Err(e) => return Err(format!("it failed: {}", e)),
    };
    let seen = &log[w.start..w.end.min(c.end)];
    let (mut k, mut n_valid, mut n_bad, mut rx) = (0, 0, 0, 0);
    for e in seen {
        if let Ev::Rx { t, fd, data } = e {
            if *fd != w.fd {
                continue;
            }
            rx += 1;
            match valid(data) {
                Some(x) => {
                    n_valid += 1;
                    if k < got.len() && got[k] == x {
                        k += 1;
                    } else if *t + 20 < c.t0 + c.wanted {
                        // near the end both ways are fine
                        return Err(format!(
                            "entry {} is not the response received at t={}ms: {} but {}",
                            k,
                            t,
                            codec::show(&x),
                            got.get(k).map(codec::show).unwrap_or("there are no more".into())
                        ));
                    }
                }
                None => n_bad += 1,
            }
        }
    }
    if k < got.len() {
        return Err(format!("{} entries for {} responses", got.len(), k));
    }
    let must = sent.iter().filter(|s| s.1 == w.port && s.0 >= c.t0 && s.0 + 100 < c.t0 + c.wanted).count();
    if rx < must {
        return Err(format!("only {} of {} datagrams sent to it were received", rx, must));
    }
    Ok((n_valid, n_bad))
}

fn assign(k: usize, fits: &[Vec<bool>], used: &mut Vec<bool>, of: &mut Vec<usize>) -> bool {
    if k == fits.len() {
        return true;
    }
    for j in 0..used.len() {
        if fits[k][j] && !used[j] {
            used[j] = true;
            of.push(j);
            if assign(k + 1, fits, used, of) {
                return true;
            }
            of.pop();
            used[j] = false;
        }
    }
    false
}

pub fn search(case: &Case, out: &mut Out) {
    let seed = case.seed;
    let calls: Arc<Mutex<Vec<Call>>> = Arc::new(Mutex::new(vec![]));
    let sent: Arc<Mutex<Vec<(u64, u16, Vec<u8>)>>> = Arc::new(Mutex::new(vec![]));
    let (calls2, sent2) = (calls.clone(), sent.clone());
    let r = simulate(seed, || async move {
        let mut rng = Rng::new(seed);
        let group = bind_gw(fresh_addr())?;
        let at = match group.local_addr().map_err(|e| e.to_string())? {
            SocketAddr::V4(a) => a,
            _ => return Err("address".into()),
        };
        with_net(|n| n.redirect = Some(at));
        let faulty = rng.chance(1, 6);
        if faulty {
            let mut r2 = Rng::new(rng.u64());
            with_net(|n| {
                n.send_fault = Some(Box::new(move |_| {
                    if r2.chance(1, 2) {
                        Some(*r2.pick(&[libc::ENETUNREACH, libc::EPERM, libc::EHOSTUNREACH, libc::ENOBUFS]))
                    } else {
                        None
                    }
                }))
            });
        }
        let mut devices = vec![];
        for _ in 0..rng.range(1, 4) {
            devices.push(bind_gw(fresh_addr())?);
        }
        let max = *rng.pick(&[50u64, 1_000, 3_000, 3_000, 10_000, 60_000, 200_000, 4_000_000]);
        let density = *rng.pick(&[0u64, 1, 3, 10, 40, 40, 300]);
        let bad = *rng.pick(&[0u64, 1, 3, 5]);
        let mut r2 = Rng::new(rng.u64());
        let dev2 = devices.clone();
        let sent3 = sent2.clone();
        // the devices answer to the endpoint in the request; its address 0.0.0.0 stands for the source
        let responder = tokio::spawn(async move {
            let mut buf = [0u8; 1024];
            while let Ok((n, peer)) = group.recv_from(&mut buf).await {
                let ep = match Frame::parse(&buf[..n]) {
                    Some(Frame::SearchReq { ep }) => ep,
                    _ => continue,
                };
                let ip = if ep.ip == [0; 4] {
                    match peer.ip() {
                        std::net::IpAddr::V4(a) => a,
                        _ => continue,
                    }
                } else {
                    Ipv4Addr::from(ep.ip)
                };
                let to = SocketAddrV4::new(ip, ep.port);
                let mut previous: Option<Vec<u8>> = None;
                let mut times: Vec<u64> = (0..density).map(|_| if r2.chance(1, 3) { r2.below(40) } else { r2.below(max + max / 4 + 1) }).collect();
                // a steady stream must not prolong the search
                if r2.chance(1, 4) {
                    let step = r2.range(max / 50 + 1, max / 4 + 2);
                    times = (0..60).map(|k| k * step).collect();
                }
                for t in times {
                    let data = if r2.below(6) < bad {
                        malformed(&mut r2)
                    } else if r2.chance(1, 12) && previous.is_some() {
                        previous.clone().unwrap()
                    } else {
                        codec::search_response(&mut r2).1
                    };
                    previous = Some(data.clone());
                    let dev = dev2[r2.usize(dev2.len())].clone();
                    let sent3 = sent3.clone();
                    tokio::spawn(async move {
                        sleep(ms(t)).await;
                        if dev.try_send_to(&data, SocketAddr::V4(to)).is_ok() {
                            sent3.lock().unwrap().push((now(), to.port(), data));
                        }
                    });
                }
            }
        });
        for _ in 0..rng.range(1, 3) {
            let mut hs = vec![];
            for _ in 0..*rng.pick(&[1u64, 1, 2, 3]) {
                let wanted = match rng.below(8) {
                    0 => 0,
                    1 => rng.below(20),
                    _ => rng.range(max / 2, max),
                };
                let calls2 = calls2.clone();
                let lag = rng.below(100);
                hs.push(tokio::task::spawn_local(async move {
                    sleep(ms(lag)).await;
                    mark(format!("search for {}ms", wanted));
                    let (start, t0) = with_net(|n| (n.log.len() - 1, n.now()));
                    let res = UdpClient::search(Duration::from_millis(wanted)).await;
                    mark(format!("search for {}ms returned {}", wanted, res.as_ref().map(|r| r.len().to_string()).unwrap_or("an error".into())));
                    let (end, t1) = with_net(|n| (n.log.len() - 1, n.now()));
                    calls2.lock().unwrap().push(Call {
                        start,
                        t0,
                        end,
                        t1,
                        wanted,
                        res: res.map(|v| v.iter().map(codec::fields_search_resp).collect()).map_err(|e| e.to_string()),
                    });
                }));
            }
            for h in hs {
                let _ = h.await;
            }
            // a search after the other may get late answers only if the port is used again
            sleep(ms(max)).await;
        }
        responder.abort();
        for d in &devices {
            unbind_gw(d);
        }
        Ok(())
    });
    for p in &r.panics {
        if is_harness_panic(p) {
            out.harness_err = Some(p.clone());
            return;
        }
        out.viol("C19", format!("panic: {}", p));
    }
    if let Err(e) = &r.result {
        out.harness_err = Some(e.clone());
        return;
    }
    let log = &r.log;
    // one request per search
    let mut windows: Vec<Window> = vec![];
    for (i, e) in log.iter().enumerate() {
        if let Ev::Tx { fd, data, err, to, .. } = e {
            for w in windows.iter_mut() {
                if w.fd == *fd && w.end == log.len() {
                    w.end = i;
                }
            }
            let port = match Frame::parse(data) {
                Some(Frame::SearchReq { ep }) if ep.proto == 1 => ep.port,
                _ => {
                    out.viol("C19", format!("a search sent {}", hex(data)));
                    continue;
                }
            };
            if *to != Some(SocketAddrV4::new(Ipv4Addr::new(224, 0, 23, 12), 3671)) {
                out.viol("C19", format!("search request sent to {:?}", to));
            }
            windows.push(Window {
                start: i,
                end: log.len(),
                fd: *fd,
                port,
                failed: err.is_some(),
            });
        }
    }
    let mut calls = std::mem::take(&mut *calls.lock().unwrap());
    calls.sort_by_key(|c| c.end);
    let sent = sent.lock().unwrap();
    out.evals += calls.len() as u64;
    if windows.len() != calls.len() {
        out.viol("C19", format!("{} search requests were sent for {} searches", windows.len(), calls.len()));
    }
    let mut observed = vec![];
    // which request belongs to which of the concurrent searches is not recorded
    let verdicts: Vec<Vec<Result<(u64, u64), String>>> = calls
        .iter()
        .map(|c| {
            windows
                .iter()
                .map(|w| {
                    if w.start > c.start && w.start < c.end {
                        judge(log, c, w, &sent)
                    } else {
                        Err("no request of its own was sent".into())
                    }
                })
                .collect()
        })
        .collect();
    let fits: Vec<Vec<bool>> = verdicts.iter().map(|v| v.iter().map(|x| x.is_ok()).collect()).collect();
    let mut of = vec![];
    if assign(0, &fits, &mut vec![false; windows.len()], &mut of) {
        for (k, j) in of.iter().enumerate() {
            if windows[*j].failed {
                out.count("searches that could not be sent", 1);
            } else if let Ok((n, bad)) = &verdicts[k][*j] {
                out.count("search responses returned", *n);
                out.count("invalid datagrams skipped", *bad);
                observed.push((*n, *bad, calls[k].wanted));
            }
        }
    } else {
        for (k, c) in calls.iter().enumerate() {
            if !fits[k].contains(&true) {
                let why = verdicts[k].iter().zip(&windows).find(|(_, w)| w.start > c.start && w.start < c.end).and_then(|x| x.0.clone().err());
                out.viol("C19", format!("search at t={}ms for {}ms: {}", c.t0, c.wanted, why.unwrap_or("no request of its own was sent".into())));
            }
        }
        if out.viols.is_empty() {
            out.viol("C19", "the results of concurrent searches do not match what they received");
        }
    }
    for c in &calls {
        if c.res.is_ok() {
            let took = c.t1 - c.t0;
            if took + 2 < c.wanted || took > c.wanted + 50 {
                out.viol("C19", format!("search for {}ms returned after {}ms", c.wanted, took));
            }
        }
        out.count("searches judged", 1);
    }
    out.distinct.push(fnv(format!("{:?}", observed).as_bytes()));
    if out.sample.is_none() {
        out.sample = Some(format!("{} searches; per search (responses, invalid datagrams, ms): {:?}", calls.len(), observed));
    }
    if out.want_text {
        out.text = oracle::render(log, 4000);
    }
}
