//! Independent reference codec of the KNXnet/IP and cEMI layouts (written from the
//! specification, shares no code with the crate under test). Strict: parse() accepts only frames
//! whose every length, reserved byte and identifier is right.

#[derive(Clone, Debug, PartialEq)]
pub struct Hpai {
    pub proto: u8,
    pub ip: [u8; 4],
    pub port: u16,
}

pub const CLIENT_HPAI: Hpai = Hpai { proto: 1, ip: [0; 4], port: 0 };

#[derive(Clone, Debug, PartialEq)]
pub enum Frame {
    SearchReq { ep: Hpai },
    ConnectReq { ctrl: Hpai, data: Hpai, layer: u8 },
    ConnectResp { ch: u8, status: u8, ep: Option<Hpai>, ia: u16 },
    StateReq { ch: u8, ep: Hpai },
    StateResp { ch: u8, status: u8 },
    DiscReq { ch: u8, ep: Hpai },
    DiscResp { ch: u8, status: u8 },
    TunReq { ch: u8, seq: u8, cemi: Vec<u8> },
    TunAck { ch: u8, seq: u8, status: u8 },
    FeatSet { ch: u8, seq: u8, feature: u8, value: u8 },
    FeatResp { ch: u8, seq: u8, feature: u8, status: u8, value: u8 },
}

fn hdr(service: u16, body: &[u8]) -> Vec<u8> {
    let total = (6 + body.len()) as u16;
    let mut v = vec![6, 0x10, (service >> 8) as u8, service as u8, (total >> 8) as u8, total as u8];
    v.extend_from_slice(body);
    v
}

impl Hpai {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![8, self.proto];
        v.extend_from_slice(&self.ip);
        v.extend_from_slice(&self.port.to_be_bytes());
        v
    }
    fn parse(b: &[u8]) -> Option<Hpai> {
        if b.len() < 8 || b[0] != 8 {
            return None;
        }
        Some(Hpai {
            proto: b[1],
            ip: [b[2], b[3], b[4], b[5]],
            port: u16::from_be_bytes([b[6], b[7]]),
        })
    }
}

impl Frame {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Frame::SearchReq { ep } => hdr(0x0201, &ep.bytes()),
            Frame::ConnectReq { ctrl, data, layer } => {
                let mut b = ctrl.bytes();
                b.extend(data.bytes());
                b.extend([4, 4, *layer, 0]);
                hdr(0x0205, &b)
            }
            Frame::ConnectResp { ch, status, ep, ia } => {
                let mut b = vec![*ch, *status];
                if let Some(ep) = ep {
                    b.extend(ep.bytes());
                    b.extend([4, 4]);
                    b.extend(ia.to_be_bytes());
                }
                hdr(0x0206, &b)
            }
            Frame::StateReq { ch, ep } => {
                let mut b = vec![*ch, 0];
                b.extend(ep.bytes());
                hdr(0x0207, &b)
            }
            Frame::StateResp { ch, status } => hdr(0x0208, &[*ch, *status]),
            Frame::DiscReq { ch, ep } => {
                let mut b = vec![*ch, 0];
                b.extend(ep.bytes());
                hdr(0x0209, &b)
            }
            Frame::DiscResp { ch, status } => hdr(0x020a, &[*ch, *status]),
            Frame::TunReq { ch, seq, cemi } => {
                let mut b = vec![4, *ch, *seq, 0];
                b.extend(cemi);
                hdr(0x0420, &b)
            }
            Frame::TunAck { ch, seq, status } => hdr(0x0421, &[4, *ch, *seq, *status]),
            Frame::FeatSet { ch, seq, feature, value } => hdr(0x0424, &[4, *ch, *seq, 0, *feature, 0, *value]),
            Frame::FeatResp { ch, seq, feature, status, value } => hdr(0x0423, &[4, *ch, *seq, 0, *feature, *status, *value]),
        }
    }

    /// strict
    pub fn parse(b: &[u8]) -> Option<Frame> {
        if b.len() < 6 || b[0] != 6 || b[1] != 0x10 {
            return None;
        }
        let service = u16::from_be_bytes([b[2], b[3]]);
        let total = u16::from_be_bytes([b[4], b[5]]) as usize;
        if total != b.len() {
            return None;
        }
        let p = &b[6..];
        Some(match service {
            0x0201 if p.len() == 8 => Frame::SearchReq { ep: Hpai::parse(p)? },
            0x0205 if p.len() == 20 && p[16] == 4 && p[17] == 4 && p[19] == 0 => Frame::ConnectReq {
                ctrl: Hpai::parse(p)?,
                data: Hpai::parse(&p[8..])?,
                layer: p[18],
            },
            0x0206 if p.len() == 2 => Frame::ConnectResp {
                ch: p[0],
                status: p[1],
                ep: None,
                ia: 0,
            },
            0x0206 if p.len() == 14 && p[10] == 4 && p[11] == 4 => Frame::ConnectResp {
                ch: p[0],
                status: p[1],
                ep: Some(Hpai::parse(&p[2..])?),
                ia: u16::from_be_bytes([p[12], p[13]]),
            },
            0x0207 if p.len() == 10 && p[1] == 0 => Frame::StateReq {
                ch: p[0],
                ep: Hpai::parse(&p[2..])?,
            },
            0x0208 if p.len() == 2 => Frame::StateResp { ch: p[0], status: p[1] },
            0x0209 if p.len() == 10 && p[1] == 0 => Frame::DiscReq {
                ch: p[0],
                ep: Hpai::parse(&p[2..])?,
            },
            0x020a if p.len() == 2 => Frame::DiscResp { ch: p[0], status: p[1] },
            0x0420 if p.len() >= 4 && p[0] == 4 && p[3] == 0 => Frame::TunReq {
                ch: p[1],
                seq: p[2],
                cemi: p[4..].to_vec(),
            },
            0x0421 if p.len() == 4 && p[0] == 4 => Frame::TunAck {
                ch: p[1],
                seq: p[2],
                status: p[3],
            },
            0x0424 if p.len() == 7 && p[0] == 4 && p[3] == 0 && p[5] == 0 => Frame::FeatSet {
                ch: p[1],
                seq: p[2],
                feature: p[4],
                value: p[6],
            },
            0x0423 if p.len() == 7 && p[0] == 4 && p[3] == 0 => Frame::FeatResp {
                ch: p[1],
                seq: p[2],
                feature: p[4],
                status: p[5],
                value: p[6],
            },
            _ => return None,
        })
    }
}

// ---------------------------------------------------------------- cEMI

pub const L_DATA_REQ: u8 = 0x11;
pub const L_DATA_IND: u8 = 0x29;
pub const L_DATA_CON: u8 = 0x2e;

pub const APCI_READ: u16 = 0;
pub const APCI_RESPONSE: u16 = 1;
pub const APCI_WRITE: u16 = 2;

#[derive(Clone, Debug, PartialEq)]
pub enum Payload {
    Short(u8),
    Long(Vec<u8>),
}

impl Payload {
    /// the value as the library's users see it
    pub fn value(&self) -> Vec<u8> {
        match self {
            Payload::Short(b) => vec![*b & 0x3f],
            Payload::Long(v) => v.clone(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct LData {
    pub mc: u8,
    pub add_info: Vec<(u8, Vec<u8>)>,
    pub ctrl1: u8,
    pub ctrl2: u8,
    pub src: u16,
    pub dst: u16,
    pub tpci: u8, // 6 high bits of the first TPDU byte, as a mask 0xfc
    pub apci: u16, // 4 bits
    pub payload: Payload,
}

impl LData {
    pub fn ind(src: u16, dst: u16, apci: u16, payload: Payload) -> LData {
        let long = matches!(&payload, Payload::Long(v) if v.len() + 1 > 15);
        LData {
            mc: L_DATA_IND,
            add_info: vec![],
            ctrl1: if long { 0x3c } else { 0xbc },
            ctrl2: 0xe0,
            src,
            dst,
            tpci: 0,
            apci,
            payload,
        }
    }

    pub fn con(dst: u16, ok: bool, apci: u16, payload: Payload) -> LData {
        let mut d = LData::ind(0x1101, dst, apci, payload);
        d.mc = L_DATA_CON;
        if !ok {
            d.ctrl1 |= 1;
        }
        d
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![self.mc];
        let add: Vec<u8> = self
            .add_info
            .iter()
            .flat_map(|(t, d)| {
                let mut x = vec![*t, d.len() as u8];
                x.extend(d);
                x
            })
            .collect();
        v.push(add.len() as u8);
        v.extend(add);
        v.push(self.ctrl1);
        v.push(self.ctrl2);
        v.extend(self.src.to_be_bytes());
        v.extend(self.dst.to_be_bytes());
        let hi = (self.tpci & 0xfc) | ((self.apci >> 2) & 3) as u8;
        let lo = ((self.apci & 3) << 6) as u8;
        match &self.payload {
            Payload::Short(b) => {
                v.push(1);
                v.push(hi);
                v.push(lo | (b & 0x3f));
            }
            Payload::Long(d) => {
                v.push((d.len() + 1) as u8);
                v.push(hi);
                v.push(lo);
                v.extend(d);
            }
        }
        v
    }

    /// Lenient on the values of control fields, exact on the lengths. None: not a valid L_Data.
    pub fn parse(b: &[u8]) -> Option<LData> {
        if b.len() < 2 {
            return None;
        }
        let mc = b[0];
        let addlen = b[1] as usize;
        let mut pos = 2;
        let mut add_info = vec![];
        while pos < 2 + addlen {
            let t = *b.get(pos)?;
            let l = *b.get(pos + 1)? as usize;
            let d = b.get(pos + 2..pos + 2 + l)?;
            add_info.push((t, d.to_vec()));
            pos += 2 + l;
        }
        if pos != 2 + addlen {
            return None;
        }
        let s = &b[pos..];
        if s.len() < 9 {
            return None;
        }
        let len = s[6] as usize;
        if len == 0 || len == 255 || s.len() != 8 + len {
            return None;
        }
        let apci = (((s[7] & 3) as u16) << 2) | (s[8] >> 6) as u16;
        Some(LData {
            mc,
            add_info,
            ctrl1: s[0],
            ctrl2: s[1],
            src: u16::from_be_bytes([s[2], s[3]]),
            dst: u16::from_be_bytes([s[4], s[5]]),
            tpci: s[7] & 0xfc,
            apci,
            payload: if len == 1 { Payload::Short(s[8] & 0x3f) } else { Payload::Long(s[9..].to_vec()) },
        })
    }
}

/// expected L_Data.req bytes of a group read or write
pub fn expected_req(dst: u16, apci: u16, payload: &Payload, priority: u8) -> Vec<u8> {
    let len = match payload {
        Payload::Short(_) => 1,
        Payload::Long(v) => v.len() + 1,
    };
    let mut ctrl1 = 0x20 | 0x10 | ((priority & 3) << 2);
    if len <= 15 {
        ctrl1 |= 0x80;
    }
    LData {
        mc: L_DATA_REQ,
        add_info: vec![],
        ctrl1,
        ctrl2: 0xe0,
        src: 0,
        dst,
        tpci: 0,
        apci,
        payload: payload.clone(),
    }
    .bytes()
}
