//! Offline checkers over the event log of the client's socket boundary.
//! Each returns (property, message) pairs; they are run over every log whatever the workload was.
use crate::inter::*;
use crate::refc::*;
use crate::util::hex;
use std::collections::HashMap;

pub type Viols = Vec<(&'static str, String)>;

#[derive(Debug, Clone)]
pub struct Sess {
    pub ch: u8,
    pub start: usize,
    pub t0: u64,
    /// index of the connect request that replaced it, or the length of the log
    pub end: usize,
    pub t1: u64,
    pub replaced: bool,
}

#[derive(Debug, Default)]
pub struct An {
    pub sessions: Vec<Sess>,
    /// connect requests: index, time, failed
    pub attempts: Vec<(usize, u64, bool)>,
}

pub fn service(b: &[u8]) -> u16 {
    if b.len() >= 4 {
        u16::from_be_bytes([b[2], b[3]])
    } else {
        0
    }
}

/// a connect response which opens a connection
pub fn opens(b: &[u8]) -> bool {
    b.len() >= 20
        && b[0] == 6
        && b[1] == 0x10
        && service(b) == 0x0206
        && u16::from_be_bytes([b[4], b[5]]) >= 8
        && b[7] == 0
        && b[8] == 8
        && b[16] == 4
        && b[17] == 4
}

pub fn analyse(log: &[Ev]) -> An {
    let mut an = An::default();
    let mut connecting = false;
    let t_end = log.last().map(|e| e.t()).unwrap_or(0);
    for (i, e) in log.iter().enumerate() {
        match e {
            Ev::Tx { t, data, err, .. } if service(data) == 0x0205 => {
                if let Some(s) = an.sessions.last_mut() {
                    if s.end == usize::MAX {
                        s.end = i;
                        s.t1 = *t;
                        s.replaced = true;
                    }
                }
                an.attempts.push((i, *t, err.is_some()));
                connecting = err.is_none();
            }
            Ev::Rx { t, data, .. } if connecting => {
                if opens(data) {
                    connecting = false;
                    an.sessions.push(Sess {
                        ch: data[6],
                        start: i,
                        t0: *t,
                        end: usize::MAX,
                        t1: t_end,
                        replaced: false,
                    });
                } else if service(data) == 0x0206 {
                    connecting = false;
                }
            }
            Ev::RxErr { .. } if connecting => connecting = false,
            _ => (),
        }
    }
    for s in an.sessions.iter_mut() {
        if s.end == usize::MAX {
            s.end = log.len();
        }
    }
    an
}

impl An {
    pub fn at(&self, i: usize) -> Option<&Sess> {
        self.sessions.iter().find(|s| s.start < i && i < s.end)
    }
}

pub fn known_feature(f: u8) -> bool {
    matches!(f, 0x02 | 0x06 | 0x07 | 0x08)
}

/// well formed frame of a supported service which reports no error and does not concern the life of channel ch
pub fn benign(data: &[u8], ch: u8) -> bool {
    if data.is_empty() {
        return true;
    }
    match Frame::parse(data) {
        Some(Frame::TunReq { .. }) | Some(Frame::TunAck { .. }) => true,
        Some(Frame::FeatResp { feature, .. }) => known_feature(feature),
        Some(Frame::StateResp { status, .. }) => status == 0,
        Some(Frame::DiscReq { ch: c, .. }) => c != ch,
        _ => false,
    }
}

// ---------------------------------------------------------------- C03 on the wire

pub fn conform(log: &[Ev], v: &mut Viols) -> u64 {
    let mut n = 0;
    for e in log {
        if let Ev::Tx { t, data, to, .. } = e {
            n += 1;
            let ok = match Frame::parse(data) {
                Some(Frame::ConnectReq { ctrl, data, layer }) => ctrl == CLIENT_HPAI && data == CLIENT_HPAI && layer == 2,
                Some(Frame::StateReq { ep, .. }) | Some(Frame::DiscReq { ep, .. }) => ep == CLIENT_HPAI,
                Some(Frame::DiscResp { .. }) | Some(Frame::TunAck { .. }) => true,
                Some(Frame::FeatSet { feature, value, .. }) => feature == 8 && value == 1,
                Some(Frame::TunReq { cemi, .. }) => match LData::parse(&cemi) {
                    Some(d) => cemi == expected_req(d.dst, d.apci, &d.payload, 3) && (d.apci == APCI_READ && d.payload == Payload::Short(0) || d.apci == APCI_WRITE),
                    None => false,
                },
                Some(Frame::SearchReq { ep }) => to.is_some() && ep.proto == 1,
                _ => false,
            };
            if !ok {
                v.push(("C03", format!("t={}ms: frame sent by the client does not conform: {}", t, hex(data))));
            }
        }
    }
    n
}

// ---------------------------------------------------------------- C10

pub fn sequence(log: &[Ev], an: &An, v: &mut Viols) -> u64 {
    let mut n = 0;
    let mut expected: HashMap<usize, u8> = HashMap::new();
    for (i, e) in log.iter().enumerate() {
        let (t, data) = match e {
            Ev::Tx { t, data, err: None, .. } => (*t, data),
            _ => continue,
        };
        if data.len() < 9 || !matches!(service(data), 0x0420 | 0x0424 | 0x0422) {
            continue;
        }
        let (ch, seq) = (data[7], data[8]);
        match an.at(i) {
            None => v.push(("C10", format!("t={}ms: tunnel request without a connection: {}", t, hex(data)))),
            Some(s) => {
                n += 1;
                let exp = expected.entry(s.start).or_insert(0);
                if ch != s.ch {
                    v.push(("C10", format!("t={}ms: tunnel request with channel {} in connection with channel {}", t, ch, s.ch)));
                }
                if seq != *exp {
                    v.push(("C10", format!("t={}ms: tunnel request with sequence number {} instead of {} (channel {})", t, seq, exp, s.ch)));
                    *exp = seq;
                }
                *exp = exp.wrapping_add(1);
            }
        }
    }
    n
}

// ---------------------------------------------------------------- C11

pub fn acks(log: &[Ev], an: &An, v: &mut Viols) -> u64 {
    struct P {
        ch: u8,
        seq: u8,
        t: u64,
        required: bool,
    }
    let mut pending: Vec<P> = vec![];
    let mut n = 0;
    let t_end = log.last().map(|e| e.t()).unwrap_or(0);
    let mut missing = |p: &P, why: &str| {
        v.push(("C11", format!("request of channel {} with sequence number {} received at t={}ms {}", p.ch, p.seq, p.t, why)));
    };
    let mut extra: Vec<String> = vec![];
    for (i, e) in log.iter().enumerate() {
        let t = e.t();
        if let Some(k) = pending.iter().position(|p| p.required && p.t + 1000 < t) {
            let p = pending.remove(k);
            missing(&p, "was not acknowledged within a second");
        }
        match e {
            Ev::Rx { t, data, .. } if matches!(service(data), 0x0420 | 0x0423) && data.len() >= 9 => {
                let required = an.at(i).is_some()
                    && match Frame::parse(data) {
                        Some(Frame::TunReq { .. }) => true,
                        Some(Frame::FeatResp { feature, .. }) => known_feature(feature),
                        _ => false,
                    };
                pending.push(P {
                    ch: data[7],
                    seq: data[8],
                    t: *t,
                    required,
                });
            }
            // the connection was given up before its last request could be acknowledged
            Ev::Tx { data, .. } if service(data) == 0x0205 => {
                if let Some(p) = pending.last_mut() {
                    p.required = false;
                }
            }
            Ev::Tx { t, data, .. } if service(data) == 0x0421 => {
                n += 1;
                let (ch, seq, status) = match Frame::parse(data) {
                    Some(Frame::TunAck { ch, seq, status }) => (ch, seq, status),
                    _ => {
                        extra.push(format!("t={}ms: malformed acknowledge {}", t, hex(data)));
                        continue;
                    }
                };
                if status != 0 {
                    extra.push(format!("t={}ms: acknowledge with status {} (channel {} sequence number {})", t, status, ch, seq));
                }
                let hit = pending.iter().position(|p| p.required && p.ch == ch && p.seq == seq);
                match hit.or_else(|| pending.iter().position(|p| p.ch == ch && p.seq == seq)) {
                    None => extra.push(format!("t={}ms: acknowledge for channel {} sequence number {} which nothing asked for", t, ch, seq)),
                    Some(k) => {
                        for p in pending.drain(..=k).collect::<Vec<_>>().iter().rev().skip(1) {
                            if p.required {
                                missing(p, "was skipped by a later acknowledge");
                            }
                        }
                    }
                }
            }
            _ => (),
        }
    }
    for p in &pending {
        if p.required && p.t + 1000 < t_end {
            missing(p, "was never acknowledged");
        }
    }
    for x in extra {
        v.push(("C11", x));
    }
    n
}

// ---------------------------------------------------------------- received telegrams

#[derive(Debug, Clone)]
pub struct Tel {
    pub idx: usize,
    pub t: u64,
    pub d: LData,
    pub acked: bool,
    pub session: usize,
}

/// the valid telegrams received in connections, repetitions of the gateway removed
pub fn telegrams(log: &[Ev], an: &An) -> Vec<Tel> {
    let mut out = vec![];
    let mut last: Option<(usize, u8)> = None;
    // sequence numbers of invalid requests and responses since: they may count as received or not
    let mut doubtful: Vec<Option<u8>> = vec![];
    for (i, e) in log.iter().enumerate() {
        if let Ev::Rx { t, data, .. } = e {
            let s = match an.at(i) {
                Some(s) => s,
                None => continue,
            };
            match Frame::parse(data) {
                Some(Frame::TunReq { ch, seq, cemi }) => {
                    let rep = last == Some((s.start, seq));
                    let in_doubt = if rep { !doubtful.is_empty() } else { doubtful.iter().any(|d| *d == Some(seq)) };
                    last = Some((s.start, seq));
                    doubtful.clear();
                    if rep && !in_doubt {
                        continue;
                    }
                    if let Some(d) = LData::parse(&cemi) {
                        // acknowledged: the next acknowledge for it left the socket
                        let acked = log[i + 1..].iter().find_map(|x| match x {
                            Ev::Tx { data, err, .. } if service(data) == 0x0421 && data.len() == 10 && data[7] == ch && data[8] == seq => Some(err.is_none()),
                            _ => None,
                        });
                        out.push(Tel {
                            idx: i,
                            t: *t,
                            d,
                            acked: acked.unwrap_or(false) && !in_doubt,
                            session: s.start,
                        });
                    }
                }
                Some(Frame::FeatResp { seq, feature, .. }) if known_feature(feature) => {
                    last = Some((s.start, seq));
                    doubtful.clear();
                }
                _ => {
                    if matches!(service(data), 0x0420 | 0x0422 | 0x0423 | 0x0424 | 0x0425) {
                        doubtful.push(data.get(8).copied());
                    }
                }
            }
        }
    }
    out
}

pub struct OpRec {
    pub id: usize,
    pub op: Op,
    pub start: usize,
    pub t0: u64,
    pub end: usize,
    pub t1: u64,
    pub res: Option<Res>,
}

pub fn ops(log: &[Ev]) -> Vec<OpRec> {
    let mut out: Vec<OpRec> = vec![];
    let mut by: HashMap<usize, usize> = HashMap::new();
    for (i, e) in log.iter().enumerate() {
        if let Ev::Note { t, note } = e {
            match note {
                Note::OpStart { id, op } => {
                    by.insert(*id, out.len());
                    out.push(OpRec {
                        id: *id,
                        op: op.clone(),
                        start: i,
                        t0: *t,
                        end: log.len(),
                        t1: u64::MAX,
                        res: None,
                    });
                }
                Note::OpEnd { id, res } => {
                    let r = &mut out[by[id]];
                    r.end = i;
                    r.t1 = *t;
                    r.res = Some(res.clone());
                }
                _ => (),
            }
        }
    }
    out
}

// ---------------------------------------------------------------- C12

/// complete: the consumers were drained at the end
pub fn deliveries(log: &[Ev], an: &An, complete: bool, v: &mut Viols) -> u64 {
    let ops = ops(log);
    if !ops.iter().any(|o| matches!(o.op, Op::Next { .. })) {
        return 0;
    }
    let tels: Vec<Tel> = telegrams(log, an).into_iter().filter(|t| t.d.mc == L_DATA_IND).collect();
    let mut recs: Vec<&OpRec> = ops.iter().filter(|o| matches!(o.op, Op::Next { .. }) && matches!(o.res, Some(Res::Msg { .. }))).collect();
    recs.sort_by_key(|r| r.end);
    // per consumer the telegrams come in order; together they are all delivered once
    let mut used = vec![false; tels.len()];
    let mut pos: HashMap<usize, usize> = HashMap::new();
    let consumers: std::collections::HashSet<usize> = recs
        .iter()
        .filter_map(|r| match r.op {
            Op::Next { consumer } => Some(consumer),
            _ => None,
        })
        .collect();
    let n = recs.len() as u64;
    for r in &recs {
        let consumer = match r.op {
            Op::Next { consumer } => consumer,
            _ => 0,
        };
        let (src, dst, apci, value) = match &r.res {
            Some(Res::Msg { src, dst, apci, value }) => (*src, *dst, *apci, value),
            _ => continue,
        };
        let from = *pos.get(&consumer).unwrap_or(&0);
        let m = |i: &usize| {
            let d = &tels[*i].d;
            !used[*i] && tels[*i].idx < r.end && d.src == src && d.dst == dst && d.apci == apci && &d.payload.value() == value
        };
        match (from..tels.len()).find(m) {
            Some(i) => {
                if consumers.len() == 1 {
                    if let Some(k) = (from..i).find(|k| tels[*k].acked) {
                        v.push((
                            "C12",
                            format!(
                                "telegram {:04x}->{:04x} value {} received and acknowledged at t={}ms was skipped",
                                tels[k].d.src,
                                tels[k].d.dst,
                                hex(&tels[k].d.payload.value()),
                                tels[k].t
                            ),
                        ));
                    }
                }
                used[i] = true;
                pos.insert(consumer, i + 1);
            }
            None => {
                let late = (0..tels.len()).find(m).is_some();
                v.push((
                    "C12",
                    format!(
                        "t={}ms: delivered telegram {:04x}->{:04x} service {} value {} {}",
                        r.t1,
                        src,
                        dst,
                        apci,
                        hex(value),
                        if late { "out of order" } else { "was not received, or was delivered already" }
                    ),
                ));
            }
        }
    }
    // fetching fails for a malformed telegram, and after the end of the session
    let errors: Vec<&OpRec> = ops.iter().filter(|o| matches!(o.op, Op::Next { .. }) && matches!(o.res, Some(Res::Err(_)))).collect();
    let (mut odd, mut ended) = (0, false);
    for e in log {
        if let Ev::Rx { data, .. } = e {
            match service(data) {
                0x0420 => match Frame::parse(data) {
                    Some(Frame::TunReq { cemi, .. }) => match LData::parse(&cemi) {
                        Some(d) if d.mc == L_DATA_IND || d.mc == L_DATA_CON => (),
                        _ => odd += 1,
                    },
                    _ => odd += 1,
                },
                0x020a => ended = true,
                _ => (),
            }
        }
    }
    if !ended && errors.len() > odd {
        let last = errors[errors.len() - 1];
        v.push((
            "C12",
            format!("t={}ms: fetching a telegram failed ({:?}), {} failures for {} malformed telegrams", last.t1, last.res, errors.len(), odd),
        ));
    }
    if complete {
        for (i, t) in tels.iter().enumerate() {
            if !used[i] && t.acked {
                v.push((
                    "C12",
                    format!(
                        "telegram {:04x}->{:04x} value {} received and acknowledged at t={}ms was never delivered",
                        t.d.src,
                        t.d.dst,
                        hex(&t.d.payload.value()),
                        t.t
                    ),
                ));
            }
        }
    }
    n
}

// ---------------------------------------------------------------- C13, C14

pub const OP_TIMEOUT: u64 = 10_000;
pub const SLACK: u64 = 1_000;

fn requests(log: &[Ev], o: &OpRec, dst: u16, apci: u16) -> Vec<(usize, u64, Vec<u8>, bool)> {
    let mut v = vec![];
    for (i, e) in log.iter().enumerate().take(o.end).skip(o.start) {
        if let Ev::Tx { t, data, err, .. } = e {
            if let Some(Frame::TunReq { cemi, .. }) = Frame::parse(data) {
                if let Some(d) = LData::parse(&cemi) {
                    if d.dst == dst && d.apci == apci {
                        v.push((i, *t, cemi, err.is_some()));
                    }
                }
            }
        }
    }
    v
}

pub fn write_payload(value: &[u8], small: bool) -> Payload {
    if small {
        Payload::Short(value.first().copied().unwrap_or(0) & 0x3f)
    } else if value.is_empty() {
        Payload::Short(0)
    } else {
        Payload::Long(value.to_vec())
    }
}

/// Reads and writes; operations in progress at the same time must use different addresses.
pub fn operations(log: &[Ev], an: &An, v: &mut Viols) -> u64 {
    let tels = telegrams(log, an);
    let mut n = 0;
    for o in ops(log) {
        let (prop, dst, apci, payload) = match &o.op {
            Op::Read { dst } => ("C13", *dst, APCI_READ, Payload::Short(0)),
            Op::Write { dst, value, small } => ("C14", *dst, APCI_WRITE, write_payload(value, *small)),
            Op::MonWrite { dst, value, small } => ("C14", *dst, APCI_WRITE, write_payload(value, *small)),
            Op::MonRead { dst } => ("C14", *dst, APCI_READ, Payload::Short(0)),
            _ => continue,
        };
        n += 1;
        let what = format!("{:?} called at t={}ms", o.op, o.t0);
        let reqs = requests(log, &o, dst, apci);
        let sent: Vec<_> = reqs.iter().filter(|r| !r.3).collect();
        let too_long = matches!(&o.op, Op::Write { value, small: false, .. } | Op::MonWrite { value, small: false, .. } if value.len() > 253);
        let res = match &o.res {
            None => {
                v.push((prop, format!("{} never returned", what)));
                continue;
            }
            Some(Res::Cancelled) => {
                if sent.len() > 1 {
                    v.push((prop, format!("{} sent {} requests", what, sent.len())));
                }
                continue;
            }
            Some(r) => r,
        };
        let ok = !matches!(res, Res::Err(_));
        if too_long {
            if ok || !reqs.is_empty() {
                v.push((prop, format!("{}: value of more than 253 bytes was not refused ({:?}, {} frames)", what, res, reqs.len())));
            }
            continue;
        }
        if sent.len() > 1 {
            v.push((prop, format!("{} sent {} requests", what, sent.len())));
            continue;
        }
        // in a connection nothing has happened to, there is no reason to refuse a request
        let alive = an.sessions.iter().any(|s| {
            let (lost, t_lost) = session_lost(log, s);
            s.start < o.start && s.t0 + 50 <= o.t0 && o.end <= lost && o.t1 + 50 <= t_lost
        });
        if reqs.is_empty() && alive && !ok {
            v.push((prop, format!("{} failed without sending a request: {:?}", what, res)));
            continue;
        }
        if let Some(r) = sent.first() {
            let exp = expected_req(dst, apci, &payload, 3);
            if r.2 != exp {
                v.push((prop, format!("{} sent {} instead of {}", what, hex(&r.2), hex(&exp))));
                continue;
            }
        }
        let sent_at = sent.first().map(|r| (r.0, r.1));
        match &o.op {
            Op::MonWrite { .. } | Op::MonRead { .. } => {
                if ok != sent_at.is_some() {
                    v.push((prop, format!("{} returned {:?} with {} requests sent", what, res, sent.len())));
                }
            }
            _ => {
                let (i0, t_req) = match sent_at {
                    None => {
                        if ok {
                            v.push((prop, format!("{} returned {:?} without sending a request", what, res)));
                        }
                        continue;
                    }
                    Some(x) => x,
                };
                let hit = tels.iter().find(|t| {
                    t.idx > i0
                        && t.d.dst == dst
                        && match &o.op {
                            Op::Read { .. } => t.d.mc == L_DATA_IND && matches!(t.d.apci, APCI_RESPONSE | APCI_WRITE),
                            _ => t.d.mc == L_DATA_CON,
                        }
                });
                // answers too close to the time out can go either way
                let deadline = t_req + OP_TIMEOUT;
                let in_time = hit.filter(|h| h.t < deadline);
                let unsure = hit.map(|h| h.t + 100 > deadline && h.t < deadline + 100).unwrap_or(false);
                let gone = log[i0..o.end].iter().any(|e| matches!(e, Ev::Rx { data, .. } if service(data) == 0x020a));
                match in_time {
                    Some(h) if !unsure => {
                        // the acknowledge could not be sent: the telegram is as good as not received
                        if !h.acked {
                            continue;
                        }
                        let expected = match &o.op {
                            Op::Read { .. } => Some(Res::Value(h.d.payload.value())),
                            _ if h.d.ctrl1 & 1 == 0 => Some(Res::Ok),
                            _ => None,
                        };
                        match expected {
                            Some(x) if &x != res => v.push((prop, format!("{} returned {:?} instead of {:?} (answer received at t={}ms)", what, res, x, h.t))),
                            None if ok => v.push((prop, format!("{} succeeded in spite of the negative confirmation at t={}ms", what, h.t))),
                            _ if o.t1 > h.t + SLACK => v.push((prop, format!("{} answered at t={}ms returned at t={}ms only", what, h.t, o.t1))),
                            _ => (),
                        }
                    }
                    _ if unsure => (),
                    _ => {
                        if ok {
                            v.push((prop, format!("{} returned {:?} although no answer was received in time", what, res)));
                        } else if o.t1 + 100 < deadline && !gone {
                            v.push((prop, format!("{} gave up at t={}ms, {}ms after the request", what, o.t1, o.t1 - t_req)));
                        } else if o.t1 > deadline + SLACK {
                            v.push((prop, format!("{} timed out at t={}ms only, {}ms after the request", what, o.t1, o.t1 - t_req)));
                        }
                    }
                }
            }
        }
    }
    n
}

/// Operations called without a connection fail at once and send nothing.
/// Connected: from the connect response to the event which ended the connection.
pub fn unconnected(log: &[Ev], an: &An, v: &mut Viols) -> u64 {
    let mut n = 0;
    let all = ops(log);
    for o in &all {
        if matches!(o.op, Op::Next { .. }) {
            continue;
        }
        // operations take turns
        let turn = all
            .iter()
            .filter(|x| x.id != o.id && !matches!(x.op, Op::Next { .. }) && x.start < o.end && x.end > o.start && x.t1 <= o.t1)
            .map(|x| x.t1)
            .max()
            .unwrap_or(0)
            .max(o.t0);
        // not connected in the whole time of the call, with a margin around the start
        let margin = 50;
        let over = an.sessions.iter().any(|s| s.start < o.end && s.end > o.start || (s.t0 <= o.t1.saturating_add(margin) && s.t1 + margin >= o.t0));
        if over {
            continue;
        }
        n += 1;
        let what = format!("{:?} called without a connection at t={}ms", o.op, o.t0);
        match &o.res {
            None => v.push(("C23", format!("{} never returned", what))),
            Some(Res::Err(_)) => {
                if o.t1 > turn + SLACK {
                    v.push(("C23", format!("{} failed after {}ms only", what, o.t1 - turn)));
                }
            }
            Some(Res::Cancelled) => (),
            Some(r) => v.push(("C23", format!("{} returned {:?}", what, r))),
        }
        for e in &log[o.start..o.end] {
            if let Ev::Tx { data, .. } = e {
                if matches!(service(data), 0x0420 | 0x0207 | 0x0209) {
                    v.push(("C23", format!("{} sent {}", what, hex(data))));
                }
            }
        }
    }
    n
}

/// (index, time) of the first event which may cost the connection; the end of the session if there was none
pub fn session_lost(log: &[Ev], s: &Sess) -> (usize, u64) {
    for (i, e) in log.iter().enumerate().take(s.end).skip(s.start + 1) {
        let lost = match e {
            Ev::Rx { data, .. } => !benign(data, s.ch),
            Ev::RxErr { .. } => true,
            Ev::Tx { err, .. } => err.is_some(),
            _ => false,
        };
        if lost {
            return (i, e.t());
        }
    }
    (s.end, s.t1)
}

// ---------------------------------------------------------------- C20

/// What the monitor said about its connection. Connected: from the request enabling the info service to the first
/// event which may cost the connection. Not connected: from the connect request which replaces a
/// connection, or the end of a successful disconnection, to the next connect response.
pub fn connected_state(log: &[Ev], an: &An, v: &mut Viols) -> u64 {
    let mut n = 0;
    let all = ops(log);
    for (i, e) in log.iter().enumerate() {
        let (t, said) = match e {
            Ev::Note { t, note: Note::Connected(b) } => (*t, *b),
            _ => continue,
        };
        n += 1;
        match an.sessions.iter().rfind(|s| s.start < i && i < s.end) {
            None => {
                let near = an.sessions.iter().any(|s| s.t0 <= t + 50 && s.t1 + 50 >= t);
                if said && !near {
                    v.push(("C20", format!("t={}ms: the monitor says it is connected while there is no connection", t)));
                }
            }
            Some(s) => {
                let (lost, t_lost) = session_lost(log, s);
                // from the request enabling the info service on
                let ready = log[s.start..i].iter().any(|e| matches!(e, Ev::Tx { t: t1, data, err: None, .. } if service(data) == 0x0424 && t1 + 50 <= t));
                if i < lost && ready && t + 50 <= t_lost && !said {
                    v.push(("C20", format!("t={}ms: the monitor says it is not connected, in the connection with channel {}", t, s.ch)));
                }
                let over = all
                    .iter()
                    .any(|o| matches!(o.op, Op::MonDisconnect) && o.start > s.start && o.end < i && matches!(o.res, Some(Res::Ok)));
                if over && said {
                    v.push(("C20", format!("t={}ms: the monitor says it is connected after its disconnection", t)));
                }
            }
        }
    }
    n
}

/// A connection of a monitor begins with the request enabling the info service: nothing else is sent
/// before it, and it left the socket before the monitor says it is connected or notifies its listeners.
pub fn info_service(log: &[Ev], an: &An, v: &mut Viols) -> u64 {
    let monitor = log.iter().any(|e| match e {
        Ev::Note { note, .. } => match note {
            Note::OpStart { op, .. } => matches!(op, Op::MonWrite { .. } | Op::MonRead { .. } | Op::MonDisconnect | Op::Next { .. }),
            Note::Connected(_) | Note::Notified { .. } | Note::Registered { .. } => true,
            _ => false,
        },
        _ => false,
    });
    if !monitor {
        return 0;
    }
    let mut n = 0;
    for s in &an.sessions {
        let mut enabled = false;
        for e in log.iter().take(s.end).skip(s.start + 1) {
            match e {
                Ev::Tx { t, data, err, .. } if !enabled => {
                    n += 1;
                    match Frame::parse(data) {
                        Some(Frame::FeatSet { ch, feature: 8, value: 1, .. }) if ch == s.ch => enabled = err.is_none(),
                        _ => {
                            v.push(("C20", format!("t={}ms: the info service is not enabled in the connection with channel {} when {} is sent", t, s.ch, hex(data))));
                            enabled = true;
                        }
                    }
                }
                Ev::Note { t, note: Note::Connected(true) } if !enabled => {
                    v.push(("C20", format!("t={}ms: the monitor says it is connected before it enabled the info service (channel {})", t, s.ch)));
                    enabled = true;
                }
                _ => (),
            }
        }
    }
    n
}

// ---------------------------------------------------------------- C15

pub fn heartbeats(log: &[Ev], an: &An, v: &mut Viols) -> u64 {
    let status_ops = ops(log).iter().any(|o| o.op == Op::Status);
    let mut n = 0;
    for s in &an.sessions {
        let mut last = s.t0;
        let mut times = vec![];
        // until the session is known to be over by other means
        let (mut iend, mut tend) = (s.end, s.t1);
        for (i, e) in log.iter().enumerate().take(s.end).skip(s.start + 1) {
            match e {
                Ev::Rx { data, .. } if !benign(data, s.ch) => {
                    (iend, tend) = (i, e.t());
                    break;
                }
                Ev::RxErr { .. } => {
                    (iend, tend) = (i, e.t());
                    break;
                }
                Ev::Tx { err: Some(_), data, .. } if service(data) != 0x0420 => {
                    (iend, tend) = (i, e.t());
                    break;
                }
                Ev::Note { note: Note::Mark(m), .. } if m == "dropped" => {
                    (iend, tend) = (i, e.t());
                    break;
                }
                _ => (),
            }
        }
        for e in log.iter().take(iend).skip(s.start + 1) {
            if let Ev::Tx { t, data, .. } = e {
                if service(data) == 0x0207 {
                    n += 1;
                    if data.len() > 6 && data[6] != s.ch {
                        v.push(("C15", format!("t={}ms: connection state request for channel {} in connection with channel {}", t, data[6], s.ch)));
                    }
                    if *t > last + 61_000 {
                        v.push(("C15", format!("no connection state request from t={}ms to t={}ms", last, t)));
                    }
                    last = *t;
                    times.push(*t);
                }
            }
        }
        if tend > last + 61_000 {
            v.push(("C15", format!("no connection state request from t={}ms until t={}ms", last, tend)));
        }
        if !status_ops {
            for w in times.windows(3) {
                if w[2] < w[0] + 30_000 {
                    v.push(("C15", format!("burst of connection state requests at t={:?}ms", w)));
                    break;
                }
            }
        }
    }
    n
}

/// Connection state errors, and disconnect requests of the gateway for the own channel, must be followed by a new connect
/// request at once; benign traffic never costs the connection.
pub fn session_ends(log: &[Ev], an: &An, v: &mut Viols) -> u64 {
    let mut n = 0;
    let t_end = log.last().map(|e| e.t()).unwrap_or(0);
    for s in &an.sessions {
        if s.replaced {
            n += 1;
            let (i, _) = session_lost(log, s);
            if i >= s.end {
                v.push((
                    "C16",
                    format!("t={}ms: connection with channel {} was given up although nothing had happened to it", s.t1, s.ch),
                ));
                v.push(("C15", format!("t={}ms: connection with channel {} was replaced although no error was reported", s.t1, s.ch)));
                v.push(("C21", format!("t={}ms: connection with channel {} was replaced without reason", s.t1, s.ch)));
            }
        }
        // "at once" only counts if the connection was up to now not lost by something else
        let (i, t) = session_lost(log, s);
        if i < s.end {
            if let Ev::Rx { data, .. } = &log[i] {
                let prop = match Frame::parse(data) {
                    Some(Frame::StateResp { status, .. }) if status != 0 => "C15",
                    Some(Frame::DiscReq { ch, .. }) if ch == s.ch => "C21",
                    _ => continue,
                };
                let end = log[i..]
                    .iter()
                    .find(|e| matches!(e, Ev::Note { note: Note::Mark(m), .. } if m == "dropped"))
                    .map(|e| e.t())
                    .unwrap_or(t_end);
                let next = log[i..].iter().find_map(|e| match e {
                    Ev::Tx { t, data, .. } if service(data) == 0x0205 => Some(*t),
                    _ => None,
                });
                match next {
                    Some(x) if x <= t + SLACK => (),
                    None if end <= t + SLACK => (),
                    x => v.push((prop, format!("t={}ms: {} was not followed by a new connect request at once (next: {:?})", t, hex(data), x))),
                }
            }
        }
    }
    n
}

// ---------------------------------------------------------------- C21

pub fn disconnect_answers(log: &[Ev], an: &An, v: &mut Viols) -> u64 {
    let mut n = 0;
    let t_end = log.last().map(|e| e.t()).unwrap_or(0);
    let mut pending: Vec<(u64, u8, bool)> = vec![];
    for (i, e) in log.iter().enumerate() {
        match e {
            Ev::Rx { t, data, .. } => {
                if let Some(Frame::DiscReq { ch, .. }) = Frame::parse(data) {
                    pending.push((*t, ch, an.at(i).is_some()));
                } else if service(data) == 0x0209 && data.len() > 6 {
                    // not well formed: may be answered
                    pending.push((*t, data[6], false));
                }
            }
            Ev::Tx { data, err: Some(_), .. } if service(data) == 0x020a => {
                // tried; may be tried again
                for p in pending.iter_mut().filter(|p| data.len() > 6 && p.1 == data[6]) {
                    p.2 = false;
                }
            }
            Ev::Tx { t, data, .. } if service(data) == 0x020a => {
                n += 1;
                match Frame::parse(data) {
                    Some(Frame::DiscResp { ch, status }) => {
                        if status != 0 {
                            v.push(("C21", format!("t={}ms: disconnect response with status {}", t, status)));
                        }
                        let hit = pending.iter().position(|p| p.2 && p.1 == ch);
                        match hit.or_else(|| pending.iter().position(|p| p.1 == ch)) {
                            Some(k) => {
                                pending.remove(k);
                            }
                            None => v.push(("C21", format!("t={}ms: disconnect response for channel {} which nothing asked for", t, ch))),
                        }
                    }
                    _ => v.push(("C21", format!("t={}ms: malformed disconnect response {}", t, hex(data)))),
                }
            }
            _ => (),
        }
    }
    for (t, ch, required) in pending {
        if required && t + SLACK < t_end {
            v.push(("C21", format!("disconnect request for channel {} received at t={}ms was not answered", ch, t)));
        }
    }
    n
}

// ---------------------------------------------------------------- C17, C18

pub fn disconnects(log: &[Ev], an: &An, v: &mut Viols) -> u64 {
    let mut n = 0;
    let all = ops(log);
    for o in &all {
        if !matches!(o.op, Op::Disconnect | Op::MonDisconnect) {
            continue;
        }
        n += 1;
        let what = format!("{:?} called at t={}ms", o.op, o.t0);
        let reqs: Vec<(usize, u64, Vec<u8>, bool)> = log
            .iter()
            .enumerate()
            .take(o.end)
            .skip(o.start)
            .filter_map(|(i, e)| match e {
                Ev::Tx { t, data, err, .. } if service(data) == 0x0209 => Some((i, *t, data.clone(), err.is_some())),
                _ => None,
            })
            .collect();
        let res = match &o.res {
            None => {
                v.push(("C17", format!("{} never returned", what)));
                continue;
            }
            Some(Res::Cancelled) => {
                // confirmed later all the same
                let sent = reqs.first().filter(|r| !r.3).and_then(|r| an.at(r.0).map(|s| (r.0, s.start, s.ch)));
                if let Some((i0, session, ch)) = sent {
                    let confirmed = log.iter().enumerate().skip(i0 + 1).find_map(|(i, e)| match e {
                        Ev::Rx { t, data, .. } => match Frame::parse(data) {
                            Some(Frame::DiscResp { ch: c, status }) => Some((i, *t, c, status)),
                            _ => None,
                        },
                        _ => None,
                    });
                    if let Some((i, t, c, 0)) = confirmed {
                        if c == ch && an.sessions.iter().any(|s| s.start == session && i <= s.end) {
                            for e in &log[i..] {
                                match e {
                                    Ev::Tx { t: x, data, .. } if *x > t + SLACK => {
                                        v.push(("C17", format!("{} confirmed at t={}ms: at t={}ms {} was sent", what, t, x, hex(data))));
                                        break;
                                    }
                                    _ => (),
                                }
                            }
                        }
                    }
                }
                continue;
            }
            Some(r) => r,
        };
        let ok = !matches!(res, Res::Err(_));
        if reqs.len() > 1 {
            v.push(("C17", format!("{} sent {} requests", what, reqs.len())));
        }
        let (i0, t_req, data, failed) = match reqs.first() {
            None => {
                if ok {
                    v.push(("C17", format!("{} returned {:?} without sending a request", what, res)));
                }
                continue;
            }
            Some(r) => r.clone(),
        };
        match an.at(i0) {
            Some(s) if data.get(6) == Some(&s.ch) => (),
            Some(s) => v.push(("C17", format!("{} sent a request for channel {:?} in connection with channel {}", what, data.get(6), s.ch))),
            None => v.push(("C17", format!("{} sent a request without a connection", what))),
        }
        if failed {
            if ok {
                v.push(("C17", format!("{} returned {:?} although the request could not be sent", what, res)));
            }
            continue;
        }
        if o.t1 > t_req + OP_TIMEOUT + SLACK {
            v.push(("C17", format!("{} returned {}ms after its request only", what, o.t1 - t_req)));
        }
        let answer = log.iter().enumerate().skip(i0 + 1).find_map(|(i, e)| match e {
            Ev::Rx { t, data, .. } => match Frame::parse(data) {
                Some(Frame::DiscResp { status, .. }) => Some((i, *t, status)),
                _ => None,
            },
            _ => None,
        });
        if let Some((i, ..)) = answer {
            // crossed with the end of the connection by the gateway: left open
            if an.at(i0).is_some_and(|s| i > s.end) {
                continue;
            }
        }
        match answer.map(|a| (a.1, a.2)) {
            Some((t, status)) if t < t_req + OP_TIMEOUT - 100 => {
                let exp_ok = match o.op {
                    Op::Disconnect => status == 0,
                    _ => true,
                };
                if exp_ok != ok {
                    v.push(("C17", format!("{} returned {:?} although the gateway answered with status {}", what, res, status)));
                }
                if let Res::Code(c) = res {
                    if *c != status {
                        v.push(("C17", format!("{} returned status {} instead of {}", what, c, status)));
                    }
                }
                if o.t1 > t + SLACK {
                    v.push(("C17", format!("{} answered at t={}ms returned at t={}ms only", what, t, o.t1)));
                }
                if status == 0 {
                    if let Some(e) = log[o.end..].iter().find(|e| matches!(e, Ev::Tx { .. })) {
                        if let Ev::Tx { t, data, .. } = e {
                            v.push(("C17", format!("{}: after the disconnection, at t={}ms, {} was sent", what, t, hex(data))));
                        }
                    }
                    for later in all.iter().filter(|l| l.start > o.end && !matches!(l.op, Op::Next { .. })) {
                        match &later.res {
                            Some(Res::Err(_)) if later.t1 <= later.t0 + SLACK => (),
                            Some(Res::Cancelled) => (),
                            r => v.push(("C17", format!("{:?} called after the disconnection at t={}ms: {:?} at t={}ms", later.op, later.t0, r, later.t1))),
                        }
                    }
                }
            }
            Some((t, _)) if t < t_req + OP_TIMEOUT + 100 => (),
            _ => {
                if ok {
                    v.push(("C17", format!("{} returned {:?} although the gateway did not answer", what, res)));
                }
            }
        }
    }
    n
}

pub fn status_queries(log: &[Ev], an: &An, v: &mut Viols) -> u64 {
    let mut n = 0;
    for o in ops(log) {
        if o.op != Op::Status {
            continue;
        }
        n += 1;
        let what = format!("status query called at t={}ms", o.t0);
        let res = match &o.res {
            None => {
                v.push(("C18", format!("{} never returned", what)));
                continue;
            }
            Some(Res::Cancelled) => continue,
            Some(r) => r,
        };
        let ok = !matches!(res, Res::Err(_));
        // its request: the last one of the call that can be (a heart beat can come before it while the call waits for its turn)
        let reqs: Vec<(usize, u64, Vec<u8>, bool)> = log
            .iter()
            .enumerate()
            .take(o.end)
            .skip(o.start)
            .filter_map(|(i, e)| match e {
                Ev::Tx { t, data, err, .. } if service(data) == 0x0207 => Some((i, *t, data.clone(), err.is_some())),
                _ => None,
            })
            .collect();
        let first = match reqs.first() {
            None => {
                if ok {
                    v.push(("C18", format!("{} returned {:?} without a request", what, res)));
                } else if an.sessions.iter().any(|s| {
                    let (lost, t_lost) = session_lost(log, s);
                    s.start < o.start && s.t0 + 50 <= o.t0 && o.end <= lost && o.t1 + 50 <= t_lost
                }) {
                    v.push(("C18", format!("{} failed without sending a request: {:?}", what, res)));
                }
                continue;
            }
            Some(r) => r,
        };
        if reqs.iter().any(|r| r.3) {
            continue;
        }
        for r in &reqs {
            match an.at(r.0) {
                Some(s) if r.2.get(6) == Some(&s.ch) => (),
                x => v.push(("C18", format!("{} sent a request for channel {:?} in {:?}", what, r.2.get(6), x.map(|s| s.ch)))),
            }
        }
        let answers: Vec<(u64, u8, u8)> = log
            .iter()
            .take(o.end)
            .skip(first.0 + 1)
            .filter_map(|e| match e {
                Ev::Rx { t, data, .. } => match Frame::parse(data) {
                    Some(Frame::StateResp { ch, status }) => Some((*t, ch, status)),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        match res {
            Res::Status { ch, status } => {
                match answers.iter().rfind(|a| a.1 == *ch && a.2 == *status) {
                    None => v.push(("C18", format!("{} returned channel {} status {} which the gateway did not answer ({:?})", what, ch, status, answers))),
                    Some(a) if o.t1 > a.0 + SLACK => v.push(("C18", format!("{} answered at t={}ms returned at t={}ms only", what, a.0, o.t1))),
                    _ => (),
                }
            }
            _ => {
                let last = reqs.last().unwrap();
                // in the same connection
                let until = an.at(last.0).map(|s| s.end.min(o.end)).unwrap_or(o.end);
                if let Some(a) = log.iter().take(until).skip(last.0 + 1).find_map(|e| match e {
                    Ev::Rx { t, data, .. } if matches!(Frame::parse(data), Some(Frame::StateResp { .. })) => Some(*t),
                    _ => None,
                }) {
                    // the request may be the one of another query, whose turn was before
                    let of_other = ops(log)
                        .iter()
                        .any(|x| x.op == Op::Status && x.start != o.start && x.end > last.0 && x.end < o.end && matches!(x.res, Some(Res::Status { .. })));
                    if a + 100 < last.1 + OP_TIMEOUT && !of_other {
                        v.push(("C18", format!("{} failed ({:?}) although the gateway answered at t={}ms", what, res, a)));
                    }
                } else if o.t1 + 100 < first.1 + OP_TIMEOUT && an.at(o.end).is_some() {
                    v.push(("C18", format!("{} failed after {}ms", what, o.t1 - first.1)));
                }
                if o.t1 > last.1 + OP_TIMEOUT + SLACK {
                    v.push(("C18", format!("{} failed {}ms after its request only", what, o.t1 - last.1)));
                }
            }
        }
    }
    n
}

// ---------------------------------------------------------------- C23

/// between two attempts without a connection in between there are 10 to 41 seconds
pub fn attempts(log: &[Ev], an: &An, v: &mut Viols) -> u64 {
    let mut n = 0;
    let dropped = log.iter().position(|e| matches!(e, Ev::Note { note: Note::Mark(m), .. } if m == "dropped")).unwrap_or(log.len());
    let t_end = if dropped < log.len() { log[dropped].t() } else { log.last().map(|e| e.t()).unwrap_or(0) };
    for (k, a) in an.attempts.iter().enumerate() {
        let opened = an.sessions.iter().any(|s| s.start > a.0 && an.attempts.get(k + 1).map(|b| s.start < b.0).unwrap_or(true));
        if opened {
            continue;
        }
        n += 1;
        match an.attempts.get(k + 1) {
            Some(b) => {
                let gap = b.1 - a.1;
                if gap + 100 < 10_000 {
                    v.push(("C23", format!("connect requests at t={}ms and t={}ms, only {}ms apart", a.1, b.1, gap)));
                } else if gap > 41_000 {
                    v.push(("C23", format!("connect requests at t={}ms and t={}ms, {}ms apart", a.1, b.1, gap)));
                }
            }
            None => {
                if t_end > a.1 + 41_000 {
                    v.push(("C23", format!("connect request at t={}ms was not repeated until t={}ms", a.1, t_end)));
                }
            }
        }
    }
    n
}

/// abstract shape of a run, to count distinct ones
pub fn shape(log: &[Ev]) -> u64 {
    let mut s = Vec::with_capacity(log.len() * 3);
    for e in log {
        match e {
            Ev::Tx { data, err, .. } => {
                s.push(1);
                s.extend(service(data).to_be_bytes());
                s.push(err.is_some() as u8);
            }
            Ev::Rx { data, .. } => {
                s.push(2);
                s.extend(service(data).to_be_bytes());
                if let Some(m) = data.get(10) {
                    s.push(*m);
                }
            }
            Ev::RxErr { err, .. } => s.extend([3, *err as u8]),
            Ev::Note { note, .. } => match note {
                Note::OpStart { op, .. } => s.extend([
                    4,
                    match op {
                        Op::Read { .. } => 1,
                        Op::Write { .. } => 2,
                        Op::MonWrite { .. } => 3,
                        Op::MonRead { .. } => 4,
                        Op::Status => 5,
                        Op::Disconnect => 6,
                        Op::MonDisconnect => 7,
                        Op::Next { .. } => 8,
                    },
                ]),
                Note::OpEnd { res, .. } => s.extend([5, matches!(res, Res::Err(_)) as u8, matches!(res, Res::Cancelled) as u8]),
                Note::Connected(b) => s.extend([6, *b as u8]),
                Note::Notified { .. } => s.push(7),
                _ => (),
            },
        }
    }
    crate::util::fnv(&s)
}

pub fn render(log: &[Ev], max: usize) -> String {
    let mut o = String::new();
    let skip = log.len().saturating_sub(max);
    if skip > 0 {
        o.push_str(&format!("... {} earlier events ...\n", skip));
    }
    for e in &log[skip..] {
        match e {
            Ev::Tx { t, data, err, to, .. } => o.push_str(&format!("{:>9}ms  client -> {}{}{}\n", t, hex(data), err.map(|e| format!("  FAILED errno {}", e)).unwrap_or_default(), to.map(|a| format!("  to {}", a)).unwrap_or_default())),
            Ev::Rx { t, data, .. } => o.push_str(&format!("{:>9}ms  client <- {}\n", t, hex(data))),
            Ev::RxErr { t, err, .. } => o.push_str(&format!("{:>9}ms  client <- receive error {}\n", t, err)),
            Ev::Note { t, note } => o.push_str(&format!("{:>9}ms  {:?}\n", t, note)),
        }
    }
    o
}
