//! Monitors of the codecs: every encoder and decoder of the crate is run on generated values and
//! hostile bytes, and each result is compared with a reference that reads and writes the layout by
//! position. (C01 to C09)
use crate::refc;
use crate::util::*;
use crate::{Case, Out};
use knx_ip_client::dp_types::*;
use knx_ip_client::packets::addresses::*;
use knx_ip_client::packets::apdu::{APDU, MAX_VALUE_LENGTH};
use knx_ip_client::packets::core::*;
use knx_ip_client::packets::emi::*;
use knx_ip_client::packets::tpdu::TPDU;
use knx_ip_client::packets::tunneling::*;
use knx_ip_client::transport::udp::{parse_response, TunnelingResponse};
use std::io::Cursor;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// the content of a structure: named fields in network order
pub type Fields = Vec<(&'static str, Vec<u8>)>;
/// fields and, where the type can be encoded, its encoding
type Decoded = Result<(Fields, Option<Vec<u8>>), String>;

struct Kind {
    name: &'static str,
    /// service identifier of a KNXnet/IP frame
    service: Option<u16>,
    /// well formed content and its bytes, from the reference
    gen: fn(&mut Rng) -> (Fields, Vec<u8>),
    /// the reference reads the fields of any bytes by position; None: not all of them are there
    reference: fn(&[u8]) -> Option<Fields>,
    decode: fn(&[u8]) -> Decoded,
    encode: Option<fn(&Fields) -> Vec<u8>>,
    /// positions and the only values allowed there
    fixed: &'static [(usize, u8)],
    /// frames shorter than this part of a well formed one have to be refused
    required: fn(&[u8]) -> usize,
}

fn all(b: &[u8]) -> usize {
    b.len()
}

fn n8(v: u8) -> Vec<u8> {
    vec![v]
}
fn n16(v: u16) -> Vec<u8> {
    v.to_be_bytes().to_vec()
}

fn get<'a>(f: &'a Fields, k: &str) -> &'a [u8] {
    &f.iter().find(|x| x.0 == k).expect("field of the reference").1
}
fn get8(f: &Fields, k: &str) -> u8 {
    get(f, k)[0]
}
fn get16(f: &Fields, k: &str) -> u16 {
    let b = get(f, k);
    u16::from_be_bytes([b[0], b[1]])
}

pub fn show(f: &Fields) -> String {
    f.iter().map(|(k, v)| format!("{}={}", k, hex(v))).collect::<Vec<_>>().join(" ")
}

fn at(b: &[u8], p: usize, n: usize) -> Option<Vec<u8>> {
    b.get(p..p + n).map(|s| s.to_vec())
}

fn frame(service: u16, body: &[u8]) -> Vec<u8> {
    let total = (6 + body.len()) as u16;
    let mut v = vec![6, 0x10];
    v.extend(service.to_be_bytes());
    v.extend(total.to_be_bytes());
    v.extend_from_slice(body);
    v
}

fn hpai_bytes(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![8, *rng.pick(&[1, 1, 1, 2, 0, 0xff])];
    match rng.below(4) {
        0 => v.extend([0; 6]),
        _ => {
            v.extend(rng.bytes(4));
            v.extend(rng.corner16().to_be_bytes());
        }
    }
    v
}

fn hpai_fields(h: &HPAI) -> Fields {
    vec![
        ("proto", n8(h.host_protocol_code)),
        ("ip", h.address.ip().octets().to_vec()),
        ("port", n16(h.address.port())),
    ]
}

fn hpai_of(f: &Fields) -> HPAI {
    let ip = get(f, "ip");
    HPAI {
        host_protocol_code: get8(f, "proto"),
        address: SocketAddrV4::new(Ipv4Addr::new(ip[0], ip[1], ip[2], ip[3]), get16(f, "port")),
    }
}

fn ref_hpai(b: &[u8], p: usize) -> Option<Fields> {
    Some(vec![("proto", at(b, p + 1, 1)?), ("ip", at(b, p + 2, 4)?), ("port", at(b, p + 6, 2)?)])
}

fn err<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

fn with_ch(k: &'static str, b: &[u8], p: usize) -> Option<(&'static str, Vec<u8>)> {
    Some((k, at(b, p, 1)?))
}

// ---------------------------------------------------------------- frames

fn gen_ch_ep(rng: &mut Rng, service: u16) -> (Fields, Vec<u8>) {
    let mut body = vec![rng.corner8(), 0];
    body.extend(hpai_bytes(rng));
    let b = frame(service, &body);
    (ref_ch_ep(&b).expect("reference"), b)
}

fn ref_ch_ep(b: &[u8]) -> Option<Fields> {
    let mut f = vec![with_ch("channel", b, 6)?];
    at(b, 7, 1)?;
    f.extend(ref_hpai(b, 8)?);
    Some(f)
}

fn gen_ch_status(rng: &mut Rng, service: u16) -> (Fields, Vec<u8>) {
    let b = frame(service, &[rng.corner8(), rng.corner8()]);
    (ref_ch_status(&b).expect("reference"), b)
}

fn ref_ch_status(b: &[u8]) -> Option<Fields> {
    Some(vec![with_ch("channel", b, 6)?, with_ch("status", b, 7)?])
}

fn ref_conn_resp(b: &[u8]) -> Option<Fields> {
    let mut f = vec![with_ch("channel", b, 6)?, with_ch("status", b, 7)?];
    f.extend(ref_hpai(b, 8)?);
    at(b, 16, 2)?;
    f.push(("address", at(b, 18, 2)?));
    Some(f)
}

fn ref_tun(b: &[u8]) -> Option<Fields> {
    let total = u16::from_be_bytes([*b.get(4)?, *b.get(5)?]) as usize;
    if total < 10 {
        return None;
    }
    at(b, 9, 1)?;
    Some(vec![with_ch("channel", b, 7)?, with_ch("sequence", b, 8)?, ("cemi", at(b, 10, total - 10)?)])
}

fn ref_ack(b: &[u8]) -> Option<Fields> {
    Some(vec![with_ch("channel", b, 7)?, with_ch("sequence", b, 8)?, with_ch("status", b, 9)?])
}

fn ref_feature_resp(b: &[u8]) -> Option<Fields> {
    Some(vec![
        with_ch("channel", b, 7)?,
        with_ch("sequence", b, 8)?,
        with_ch("feature", b, 10)?,
        with_ch("status", b, 11)?,
        with_ch("value", b, 12)?,
    ])
}

fn feature(v: u8) -> KnxIpFeature {
    match v {
        2 => KnxIpFeature::MaskVersion,
        6 => KnxIpFeature::IndividualAddress,
        7 => KnxIpFeature::MaxApduLength,
        _ => KnxIpFeature::InfoServiceEnable,
    }
}

fn fields_tun(r: &TunnelingRequest) -> Fields {
    vec![
        ("channel", n8(r.communication_channel_id)),
        ("sequence", n8(r.sequence_nr)),
        ("cemi", r.get_cemi().clone()),
    ]
}
fn fields_ack(r: &TunnelingAck) -> Fields {
    vec![("channel", n8(r.communication_channel_id)), ("sequence", n8(r.sequence_nr)), ("status", n8(r.status))]
}
fn fields_feature(r: &FeatureResp) -> Fields {
    vec![
        ("channel", n8(r.communication_channel_id)),
        ("sequence", n8(r.sequence_nr)),
        ("feature", n8(r.feature as u8)),
        ("status", n8(r.status)),
        ("value", n8(r.value)),
    ]
}
fn fields_disc(r: &DisconnectRequest) -> Fields {
    // the endpoint is only visible in the encoding
    let ch = DisconnectResponse::from_disconnect_request(r).communication_channel_id;
    let p = r.packet();
    let mut f = vec![("channel", n8(ch))];
    f.extend(ref_hpai(&p, 8).unwrap_or_default());
    f
}

// ---------------------------------------------------------------- description blocks

const MEDIA: &[u8] = &[0x02, 0x03, 0x10, 0x20];

fn medium(v: u8) -> KnxMedium {
    match v {
        0x02 => KnxMedium::TP1,
        0x03 => KnxMedium::PL110,
        0x10 => KnxMedium::RF,
        _ => KnxMedium::IP,
    }
}

fn dev_bytes(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![54, 1, *rng.pick(MEDIA), rng.below(2) as u8];
    v.extend(rng.corner16().to_be_bytes());
    v.extend(rng.corner16().to_be_bytes());
    v.extend(rng.bytes(16));
    let n = *rng.pick(&[0, 1, 7, 15, 29, 30]);
    let mut name: Vec<u8> = (0..n)
        .map(|_| match rng.below(8) {
            0 => rng.range(0xa0, 0xff) as u8,
            _ => rng.range(0x20, 0x7e) as u8,
        })
        .collect();
    name.resize(30, 0);
    if rng.chance(1, 6) {
        // the field is not interpreted
        name = rng.bytes(30);
        for _ in 0..rng.below(4) {
            name[rng.usize(30)] = 0;
        }
    }
    v.extend(name);
    v
}

fn ref_dev(b: &[u8], p: usize) -> Option<Fields> {
    Some(vec![
        ("length", at(b, p, 1)?),
        ("type", at(b, p + 1, 1)?),
        ("medium", at(b, p + 2, 1)?),
        // only the lowest bit is defined
        ("device status", vec![at(b, p + 3, 1)?[0] & 1]),
        ("address", at(b, p + 4, 2)?),
        ("project", at(b, p + 6, 2)?),
        ("serial", at(b, p + 8, 6)?),
        ("multicast", at(b, p + 14, 4)?),
        ("mac", at(b, p + 18, 6)?),
        ("name", at(b, p + 24, 30)?),
    ])
}

fn fields_dev(d: &DeviceInformationDIB) -> Fields {
    vec![
        ("length", n8(d.structure_length)),
        ("type", n8(d.description_type_code as u8)),
        ("medium", n8(d.knx_medium as u8)),
        ("device status", n8(d.knx_device_status.bits())),
        ("address", n16(d.knx_individual_address.to_u16())),
        ("project", n16(d.project_installation_identifier)),
        ("serial", d.serial_number.to_vec()),
        ("multicast", d.routing_multicast_address.octets().to_vec()),
        ("mac", d.mac_address.to_vec()),
        ("name", d.friendly_name.to_vec()),
    ]
}

fn ip4(b: &[u8]) -> Ipv4Addr {
    Ipv4Addr::new(b[0], b[1], b[2], b[3])
}

fn dev_of(f: &Fields) -> DeviceInformationDIB {
    DeviceInformationDIB {
        structure_length: get8(f, "length"),
        description_type_code: DescriptionTypeCode::DeviceInfo,
        knx_medium: medium(get8(f, "medium")),
        knx_device_status: DeviceStatus::from_bits_truncate(get8(f, "device status")),
        knx_individual_address: IndividualAddress::from_u16(get16(f, "address")),
        project_installation_identifier: get16(f, "project"),
        serial_number: get(f, "serial").try_into().expect("6"),
        routing_multicast_address: ip4(get(f, "multicast")),
        mac_address: get(f, "mac").try_into().expect("6"),
        friendly_name: get(f, "name").try_into().expect("30"),
    }
}

fn fam_bytes(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(8) {
        0 => rng.usize(127),
        1 => *rng.pick(&[0, 1, 125, 126]),
        _ => rng.usize(12),
    };
    let mut v = vec![(2 + 2 * n) as u8, 2];
    v.extend(rng.bytes(2 * n));
    v
}

fn ref_fam(b: &[u8], p: usize) -> Option<Fields> {
    let l = *b.get(p)? as usize;
    if l < 2 {
        return None;
    }
    Some(vec![
        ("families length", at(b, p, 1)?),
        ("families type", at(b, p + 1, 1)?),
        ("families", at(b, p + 2, (l - 2) / 2 * 2)?),
    ])
}

fn fields_fam(d: &SupportedServiceFamiliesDIB) -> Fields {
    vec![
        ("families length", n8(d.structure_length)),
        ("families type", n8(d.description_type_code as u8)),
        ("families", d.service_families.iter().flat_map(|s| [s.service_family, s.version]).collect()),
    ]
}

fn fam_of(f: &Fields) -> SupportedServiceFamiliesDIB {
    SupportedServiceFamiliesDIB {
        structure_length: get8(f, "families length"),
        description_type_code: DescriptionTypeCode::SupportedServiceFamilies,
        service_families: get(f, "families")
            .chunks(2)
            .map(|c| ServiceFamily {
                service_family: c[0],
                version: c[1],
            })
            .collect(),
    }
}

fn fields_dib(d: &DIB) -> Fields {
    match d {
        DIB::DeviceInformation(d) => fields_dev(d),
        DIB::SupportedServiceFamilies(d) => fields_fam(d),
        DIB::IpConfig(d) => vec![
            ("length", n8(d.structure_length)),
            ("type", n8(d.description_type_code as u8)),
            ("ip", d.ip_address.octets().to_vec()),
            ("mask", d.subnet_mask.octets().to_vec()),
            ("gateway", d.default_gateway.octets().to_vec()),
            ("capabilities", n8(d.ip_capabilities)),
            ("method", n8(d.ip_assignment_method)),
        ],
        DIB::IpCurrentConfig(d) => vec![
            ("length", n8(d.structure_length)),
            ("type", n8(d.description_type_code as u8)),
            ("ip", d.current_ip_address.octets().to_vec()),
            ("mask", d.current_subnet_mask.octets().to_vec()),
            ("gateway", d.current_default_gateway.octets().to_vec()),
            ("dhcp", d.dhcp_server.octets().to_vec()),
            ("method", n8(d.current_ip_assignment_method)),
            ("reserved", n8(d.reserved)),
        ],
        DIB::KNXAddresses(d) => vec![
            ("length", n8(d.structure_length)),
            ("type", n8(d.description_type_code as u8)),
            ("address", n16(d.knx_individual_address.to_u16())),
            ("additional", d.additional_individual_addresses.iter().flat_map(|a| a.to_u16().to_be_bytes()).collect()),
        ],
        DIB::ManufacturerData(d) => vec![
            ("length", n8(d.structure_length)),
            ("type", n8(d.description_type_code as u8)),
            ("manufacturer", n16(d.knx_manufacturer_id)),
            ("data", d.manufacturer_specific_data.clone()),
        ],
    }
}

fn dec_dib(b: &[u8]) -> Decoded {
    let d = err(DIB::from_packet(&mut Cursor::new(b)))?;
    let l = d.structure_length();
    let f = fields_dib(&d);
    if f.iter().find(|x| x.0.ends_with("length")).map(|x| x.1[0]) != Some(l) {
        return Ok((vec![("structure_length()", n8(l))], None));
    }
    let p = d.packet();
    Ok((f, Some(p)))
}

fn ref_dib(b: &[u8]) -> Option<Fields> {
    let l = *b.first()? as usize;
    match *b.get(1)? {
        1 => ref_dev(b, 0),
        2 => ref_fam(b, 0),
        3 => Some(vec![
            ("length", at(b, 0, 1)?),
            ("type", at(b, 1, 1)?),
            ("ip", at(b, 2, 4)?),
            ("mask", at(b, 6, 4)?),
            ("gateway", at(b, 10, 4)?),
            ("capabilities", at(b, 14, 1)?),
            ("method", at(b, 15, 1)?),
        ]),
        4 => Some(vec![
            ("length", at(b, 0, 1)?),
            ("type", at(b, 1, 1)?),
            ("ip", at(b, 2, 4)?),
            ("mask", at(b, 6, 4)?),
            ("gateway", at(b, 10, 4)?),
            ("dhcp", at(b, 14, 4)?),
            ("method", at(b, 18, 1)?),
            ("reserved", at(b, 19, 1)?),
        ]),
        5 if l >= 4 => Some(vec![
            ("length", at(b, 0, 1)?),
            ("type", at(b, 1, 1)?),
            ("address", at(b, 2, 2)?),
            ("additional", at(b, 4, (l - 4) / 2 * 2)?),
        ]),
        0xfe if l >= 4 => Some(vec![
            ("length", at(b, 0, 1)?),
            ("type", at(b, 1, 1)?),
            ("manufacturer", at(b, 2, 2)?),
            ("data", at(b, 4, l - 4)?),
        ]),
        _ => None,
    }
}

fn gen_dib(rng: &mut Rng, code: u8) -> (Fields, Vec<u8>) {
    let b = match code {
        1 => dev_bytes(rng),
        2 => fam_bytes(rng),
        3 => {
            let mut v = vec![16, 3];
            v.extend(rng.bytes(14));
            v
        }
        4 => {
            let mut v = vec![20, 4];
            v.extend(rng.bytes(17));
            v.push(if rng.below(3) == 0 { rng.u8() } else { 0 });
            v
        }
        5 => {
            let n = match rng.below(6) {
                0 => rng.usize(126),
                _ => rng.usize(6),
            };
            let mut v = vec![(4 + 2 * n) as u8, 5];
            v.extend(rng.bytes(2 + 2 * n));
            v
        }
        _ => {
            // even data, as padding belongs to the block
            let n = match rng.below(6) {
                0 => rng.usize(126) * 2,
                _ => rng.usize(8) * 2,
            };
            let mut v = vec![(4 + n) as u8, 0xfe];
            v.extend(rng.bytes(2 + n));
            v
        }
    };
    (ref_dib(&b).expect("reference"), b)
}

fn enc_dib(f: &Fields) -> Vec<u8> {
    let code = f.iter().find(|x| x.0.ends_with("type")).expect("type").1[0];
    match code {
        1 => DIB::DeviceInformation(dev_of(f)),
        2 => DIB::SupportedServiceFamilies(fam_of(f)),
        3 => DIB::IpConfig(IpConfigDIB {
            structure_length: get8(f, "length"),
            description_type_code: DescriptionTypeCode::IpConfig,
            ip_address: ip4(get(f, "ip")),
            subnet_mask: ip4(get(f, "mask")),
            default_gateway: ip4(get(f, "gateway")),
            ip_capabilities: get8(f, "capabilities"),
            ip_assignment_method: get8(f, "method"),
        }),
        4 => DIB::IpCurrentConfig(IpCurrentConfigDIB {
            structure_length: get8(f, "length"),
            description_type_code: DescriptionTypeCode::IpCurrentConfig,
            current_ip_address: ip4(get(f, "ip")),
            current_subnet_mask: ip4(get(f, "mask")),
            current_default_gateway: ip4(get(f, "gateway")),
            dhcp_server: ip4(get(f, "dhcp")),
            current_ip_assignment_method: get8(f, "method"),
            reserved: get8(f, "reserved"),
        }),
        5 => DIB::KNXAddresses(KNXAddressesDIB {
            structure_length: get8(f, "length"),
            description_type_code: DescriptionTypeCode::KNXAddresses,
            knx_individual_address: IndividualAddress::from_u16(get16(f, "address")),
            additional_individual_addresses: get(f, "additional")
                .chunks(2)
                .map(|c| IndividualAddress::from_u16(u16::from_be_bytes([c[0], c[1]])))
                .collect(),
        }),
        _ => DIB::ManufacturerData(ManufacturerDataDIB {
            structure_length: get8(f, "length"),
            description_type_code: DescriptionTypeCode::ManufacturerData,
            knx_manufacturer_id: get16(f, "manufacturer"),
            manufacturer_specific_data: get(f, "data").to_vec(),
        }),
    }
    .packet()
}

/// fields of a well formed search response
pub fn search_response(rng: &mut Rng) -> (Fields, Vec<u8>) {
    let mut body = hpai_bytes(rng);
    body.extend(dev_bytes(rng));
    body.extend(fam_bytes(rng));
    let b = frame(0x0202, &body);
    (ref_search_resp(&b).expect("reference"), b)
}

pub fn ref_search_resp(b: &[u8]) -> Option<Fields> {
    let mut f = ref_hpai(b, 6)?;
    f.extend(ref_dev(b, 14)?);
    f.extend(ref_fam(b, 68)?);
    Some(f)
}

pub fn fields_search_resp(r: &SearchResponse) -> Fields {
    let mut f = hpai_fields(&r.control_endpoint);
    f.extend(fields_dev(&r.device_hardware));
    f.extend(fields_fam(&r.supported_service_families));
    f
}

// ---------------------------------------------------------------- cEMI

const INFO_TYPES: &[u8] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xfe];

fn gen_infos(rng: &mut Rng) -> Vec<(u8, Vec<u8>)> {
    let n = *rng.pick(&[0, 0, 0, 1, 1, 2, 3, 5]);
    let mut v: Vec<(u8, Vec<u8>)> = vec![];
    let mut room = 255usize;
    for _ in 0..n {
        let l = match rng.below(6) {
            0 => rng.usize(254),
            1 => 253,
            2 => 0,
            _ => rng.usize(9),
        };
        if room < l + 2 {
            break;
        }
        room -= l + 2;
        v.push((*rng.pick(INFO_TYPES), rng.bytes(l)));
    }
    v
}

fn info_bytes(v: &[(u8, Vec<u8>)]) -> Vec<u8> {
    v.iter()
        .flat_map(|(t, d)| {
            let mut x = vec![*t, d.len() as u8];
            x.extend(d);
            x
        })
        .collect()
}

fn gen_cemi(rng: &mut Rng) -> (Fields, Vec<u8>) {
    let infos = info_bytes(&gen_infos(rng));
    let mut b = vec![rng.corner8(), infos.len() as u8];
    b.extend(infos);
    let n = rng.usize(30);
    b.extend(rng.bytes(n));
    (ref_cemi(&b).expect("reference"), b)
}

fn ref_cemi(b: &[u8]) -> Option<Fields> {
    let end = cemi_header(b)?;
    Some(vec![
        ("message code", at(b, 0, 1)?),
        ("infos", b.get(2..end)?.to_vec()),
        ("service info", b.get(end..)?.to_vec()),
    ])
}

/// end of the additional information; it consists of whole elements
fn cemi_header(b: &[u8]) -> Option<usize> {
    let l = *b.get(1)? as usize;
    let mut p = 2;
    while p < 2 + l {
        p += 2 + *b.get(p + 1)? as usize;
    }
    if p <= b.len() {
        Some(p)
    } else {
        None
    }
}

fn lib_cemi(b: &[u8]) -> Result<CEMI, String> {
    err(CEMI::from_packet(&mut Cursor::new(b)))
}

fn dec_cemi(b: &[u8]) -> Decoded {
    let c = lib_cemi(b)?;
    let infos: Vec<(u8, Vec<u8>)> = c.additional_infos.into_iter().map(|i| (i.info_type as u8, i.value)).collect();
    Ok((vec![("message code", n8(c.msg_code)), ("infos", info_bytes(&infos)), ("service info", c.service_info)], None))
}

fn gen_ldata(rng: &mut Rng, mc: u8) -> (Fields, Vec<u8>) {
    let n = gen_len(rng);
    let payload = if n == 0 { refc::Payload::Short(rng.u8() & 0x3f) } else { refc::Payload::Long(rng.bytes(n)) };
    let mut d = refc::LData::ind(rng.corner16(), rng.corner16(), rng.below(16) as u16, payload);
    d.mc = mc;
    d.ctrl1 = rng.u8();
    d.ctrl2 = rng.u8();
    d.tpci = rng.u8() & 0xfc;
    d.add_info = gen_infos(rng);
    let b = d.bytes();
    (if mc == refc::L_DATA_CON { ref_con(&b) } else { ref_ind(&b) }.expect("reference"), b)
}

pub fn gen_len(rng: &mut Rng) -> usize {
    match rng.below(6) {
        0 => 0,
        1 => *rng.pick(&[13, 14, 15, 16, 17, 252, 253]),
        2 => rng.usize(254),
        _ => rng.range(1, 14) as usize,
    }
}

fn flags(c: u8) -> Vec<u8> {
    vec![c >> 7, c >> 5 & 1, c >> 4 & 1, c >> 1 & 1]
}

fn ref_con(b: &[u8]) -> Option<Fields> {
    let p = cemi_header(b)?;
    Some(vec![
        ("flags", flags(*b.get(p)?)),
        ("confirm", vec![1 - (b.get(p)? & 1)]),
        ("source", at(b, p + 2, 2)?),
        ("destination", at(b, p + 4, 2)?),
    ])
}

fn ref_ind(b: &[u8]) -> Option<Fields> {
    let p = cemi_header(b)?;
    let l = *b.get(p + 6)? as usize;
    let tp = at(b, p + 7, 2)?;
    Some(vec![
        ("flags", flags(*b.get(p)?)),
        ("source", at(b, p + 2, 2)?),
        ("destination", at(b, p + 4, 2)?),
        ("service", vec![(tp[0] & 3) << 2 | tp[1] >> 6]),
        ("value", if l <= 1 { vec![tp[1] & 0x3f] } else { at(b, p + 9, l - 1)? }),
    ])
}

fn lib_flags(d: &knx_ip_client::packets::emi::LData) -> Vec<u8> {
    vec![d.frame_type as u8, d.repetition as u8, d.system_broadcast as u8, d.ack_request as u8]
}

fn dec_con(b: &[u8]) -> Decoded {
    let c = err(LDataCon::from_cemi(lib_cemi(b)?))?;
    Ok((
        vec![
            ("flags", lib_flags(&c.l_data)),
            ("confirm", vec![c.confirm as u8]),
            ("source", n16(c.l_data.src)),
            ("destination", n16(c.l_data.dest)),
        ],
        None,
    ))
}

fn dec_ind(b: &[u8]) -> Decoded {
    let c = err(LDataInd::from_cemi(lib_cemi(b)?))?;
    Ok((
        vec![
            ("flags", lib_flags(&c.l_data)),
            ("source", n16(c.l_data.src)),
            ("destination", n16(c.l_data.dest)),
            ("service", vec![c.apci as u8]),
            ("value", c.value),
        ],
        None,
    ))
}

// ---------------------------------------------------------------- the table

const HDR: &[(usize, u8)] = &[(0, 6), (1, 0x10)];

const KINDS: &[Kind] = &[
    Kind {
        name: "header",
        service: None,
        gen: |r| {
            let mut b = vec![6, 0x10];
            b.extend(r.corner16().to_be_bytes());
            b.extend(r.corner16().to_be_bytes());
            (vec![("service", b[2..4].to_vec()), ("total length", b[4..6].to_vec())], b)
        },
        reference: |b| Some(vec![("service", at(b, 2, 2)?), ("total length", at(b, 4, 2)?)]),
        decode: |b| {
            let h = err(KnxNetIpHeader::from_packet(&mut Cursor::new(b)))?;
            let p = h.packet();
            Ok((vec![("service", n16(h.service_type_identifier)), ("total length", n16(h.total_length))], Some(p)))
        },
        encode: Some(|f| {
            KnxNetIpHeader {
                service_type_identifier: get16(f, "service"),
                total_length: get16(f, "total length"),
            }
            .packet()
        }),
        fixed: HDR,
        required: all,
    },
    Kind {
        name: "endpoint",
        service: None,
        gen: |r| {
            let b = hpai_bytes(r);
            (ref_hpai(&b, 0).expect("reference"), b)
        },
        reference: |b| ref_hpai(b, 0),
        decode: |b| {
            let h = err(HPAI::from_packet(&mut Cursor::new(b)))?;
            let p = h.packet();
            Ok((hpai_fields(&h), Some(p)))
        },
        encode: Some(|f| hpai_of(f).packet()),
        fixed: &[(0, 8)],
        required: all,
    },
    Kind {
        name: "connection response data",
        service: None,
        gen: |r| {
            let mut b = vec![4, 4];
            b.extend(r.corner16().to_be_bytes());
            (vec![("address", b[2..4].to_vec())], b)
        },
        reference: |b| Some(vec![("address", at(b, 2, 2)?)]),
        decode: |b| {
            let p = err(CRD::from_packet(&mut Cursor::new(b)))?.packet();
            Ok((vec![("address", at(&p, 2, 2).unwrap_or_default())], Some(p)))
        },
        encode: None,
        fixed: &[(0, 4), (1, 4)],
        required: all,
    },
    Kind {
        name: "connection response",
        service: Some(0x0206),
        gen: |r| {
            // these statuses are reported as errors, others are left to the caller
            let mut st = *r.pick(&[0, 0, 0, 0x21, 0x25, 0x26, 0x27, 0xff]);
            if r.chance(1, 4) {
                st = r.u8();
            }
            if [0x22, 0x23, 0x24, 0x29].contains(&st) {
                st = 0;
            }
            let mut body = vec![r.corner8(), st];
            body.extend(hpai_bytes(r));
            body.extend([4, 4]);
            body.extend(r.corner16().to_be_bytes());
            let b = frame(0x0206, &body);
            (ref_conn_resp(&b).expect("reference"), b)
        },
        reference: ref_conn_resp,
        decode: |b| {
            let c = err(ConnectionResponse::from_packet(&mut Cursor::new(b)))?;
            let p = c.packet();
            let mut f = vec![("channel", n8(c.get_communication_channel_id())), ("status", n8(c.get_status()))];
            f.extend(hpai_fields(&c.get_data_endpoint()));
            f.push(("address", at(&p, 18, 2).unwrap_or_default()));
            Ok((f, Some(p)))
        },
        encode: None,
        fixed: &[(0, 6), (1, 0x10), (2, 2), (3, 6), (8, 8), (16, 4), (17, 4)],
        required: all,
    },
    Kind {
        name: "connection state request",
        service: Some(0x0207),
        gen: |r| gen_ch_ep(r, 0x0207),
        reference: ref_ch_ep,
        decode: |b| {
            let c = err(ConnectionstateRequest::from_packet(&mut Cursor::new(b)))?;
            let mut f = vec![("channel", n8(c.communication_channel_id))];
            f.extend(hpai_fields(&c.control_endpoint));
            Ok((f, Some(c.packet())))
        },
        encode: Some(|f| ConnectionstateRequest::new(get8(f, "channel"), hpai_of(f)).packet()),
        fixed: &[(0, 6), (1, 0x10), (2, 2), (3, 7), (8, 8)],
        required: all,
    },
    Kind {
        name: "connection state response",
        service: Some(0x0208),
        gen: |r| gen_ch_status(r, 0x0208),
        reference: ref_ch_status,
        decode: |b| {
            let c = err(ConnectionstateResponse::from_packet(&mut Cursor::new(b)))?;
            Ok((vec![("channel", n8(c.communication_channel_id)), ("status", n8(c.status))], Some(c.packet())))
        },
        encode: Some(|f| {
            ConnectionstateResponse {
                communication_channel_id: get8(f, "channel"),
                status: get8(f, "status"),
            }
            .packet()
        }),
        fixed: &[(0, 6), (1, 0x10), (2, 2), (3, 8), (4, 0), (5, 8)],
        required: all,
    },
    Kind {
        name: "disconnect request",
        service: Some(0x0209),
        gen: |r| gen_ch_ep(r, 0x0209),
        reference: ref_ch_ep,
        decode: |b| {
            let c = err(DisconnectRequest::from_packet(&mut Cursor::new(b)))?;
            Ok((fields_disc(&c), Some(c.packet())))
        },
        encode: Some(|f| DisconnectRequest::new(get8(f, "channel"), hpai_of(f)).packet()),
        fixed: &[(0, 6), (1, 0x10), (2, 2), (3, 9), (8, 8)],
        required: all,
    },
    Kind {
        name: "disconnect response",
        service: Some(0x020a),
        gen: |r| gen_ch_status(r, 0x020a),
        reference: ref_ch_status,
        decode: |b| {
            let c = err(DisconnectResponse::from_packet(&mut Cursor::new(b)))?;
            Ok((vec![("channel", n8(c.communication_channel_id)), ("status", n8(c.status))], Some(c.packet())))
        },
        encode: Some(|f| {
            DisconnectResponse {
                communication_channel_id: get8(f, "channel"),
                status: get8(f, "status"),
            }
            .packet()
        }),
        fixed: &[(0, 6), (1, 0x10), (2, 2), (3, 0x0a), (4, 0), (5, 8)],
        required: all,
    },
    Kind {
        name: "tunneling request",
        service: Some(0x0420),
        gen: |r| {
            let n = match r.below(8) {
                0 => r.usize(1500),
                1 => 0,
                _ => r.usize(60),
            };
            let mut body = vec![4, r.corner8(), r.corner8(), 0];
            body.extend(r.bytes(n));
            let b = frame(0x0420, &body);
            (ref_tun(&b).expect("reference"), b)
        },
        reference: ref_tun,
        decode: |b| {
            let c = err(TunnelingRequest::from_packet(&mut Cursor::new(b)))?;
            Ok((fields_tun(&c), Some(c.packet())))
        },
        encode: Some(|f| TunnelingRequest::new(get8(f, "channel"), get8(f, "sequence"), get(f, "cemi").to_vec()).packet()),
        fixed: &[(0, 6), (1, 0x10), (2, 4), (3, 0x20), (6, 4)],
        required: all,
    },
    Kind {
        name: "tunneling acknowledge",
        service: Some(0x0421),
        gen: |r| {
            let b = frame(0x0421, &[4, r.corner8(), r.corner8(), r.corner8()]);
            (ref_ack(&b).expect("reference"), b)
        },
        reference: ref_ack,
        decode: |b| {
            let c = err(TunnelingAck::from_packet(&mut Cursor::new(b)))?;
            Ok((fields_ack(&c), Some(c.packet())))
        },
        encode: Some(|f| TunnelingAck::new(get8(f, "channel"), get8(f, "sequence"), get8(f, "status")).packet()),
        fixed: &[(0, 6), (1, 0x10), (2, 4), (3, 0x21), (4, 0), (5, 10), (6, 4)],
        required: all,
    },
    Kind {
        name: "feature response",
        service: Some(0x0423),
        gen: |r| {
            let b = frame(0x0423, &[4, r.corner8(), r.corner8(), 0, *r.pick(&[2, 6, 7, 8]), r.corner8(), r.corner8()]);
            (ref_feature_resp(&b).expect("reference"), b)
        },
        reference: ref_feature_resp,
        decode: |b| {
            let c = err(FeatureResp::from_packet(&mut Cursor::new(b)))?;
            Ok((fields_feature(&c), Some(c.packet())))
        },
        encode: Some(|f| {
            FeatureResp {
                feature: feature(get8(f, "feature")),
                value: get8(f, "value"),
                status: get8(f, "status"),
                communication_channel_id: get8(f, "channel"),
                sequence_nr: get8(f, "sequence"),
            }
            .packet()
        }),
        fixed: &[(0, 6), (1, 0x10), (2, 4), (3, 0x23), (4, 0), (5, 13), (6, 4)],
        required: all,
    },
    Kind {
        name: "search request",
        service: Some(0x0201),
        gen: |r| {
            let b = frame(0x0201, &hpai_bytes(r));
            (ref_hpai(&b, 6).expect("reference"), b)
        },
        reference: |b| ref_hpai(b, 6),
        decode: |b| {
            let p = err(SearchRequest::from_packet(&mut Cursor::new(b)))?.packet();
            Ok((ref_hpai(&p, 6).unwrap_or_default(), Some(p)))
        },
        encode: None,
        fixed: &[(0, 6), (1, 0x10), (2, 2), (3, 1), (6, 8)],
        required: all,
    },
    Kind {
        name: "search response",
        service: Some(0x0202),
        gen: search_response,
        reference: ref_search_resp,
        decode: |b| {
            let r = err(SearchResponse::from_packet(&mut Cursor::new(b)))?;
            Ok((fields_search_resp(&r), Some(r.packet())))
        },
        encode: Some(|f| {
            SearchResponse {
                control_endpoint: hpai_of(f),
                device_hardware: dev_of(f),
                supported_service_families: fam_of(f),
            }
            .packet()
        }),
        fixed: &[(0, 6), (1, 0x10), (2, 2), (3, 2), (6, 8), (15, 1), (69, 2)],
        required: all,
    },
    Kind {
        name: "device information block",
        service: None,
        gen: |r| gen_dib(r, 1),
        reference: ref_dib,
        decode: dec_dib,
        encode: Some(enc_dib),
        fixed: &[],
        required: all,
    },
    Kind {
        name: "service families block",
        service: None,
        gen: |r| gen_dib(r, 2),
        reference: ref_dib,
        decode: dec_dib,
        encode: Some(enc_dib),
        fixed: &[],
        required: all,
    },
    Kind {
        name: "IP configuration block",
        service: None,
        gen: |r| gen_dib(r, 3),
        reference: ref_dib,
        decode: dec_dib,
        encode: Some(enc_dib),
        fixed: &[],
        required: all,
    },
    Kind {
        name: "current IP configuration block",
        service: None,
        gen: |r| gen_dib(r, 4),
        reference: ref_dib,
        decode: dec_dib,
        encode: Some(enc_dib),
        fixed: &[],
        required: all,
    },
    Kind {
        name: "KNX addresses block",
        service: None,
        gen: |r| gen_dib(r, 5),
        reference: ref_dib,
        decode: dec_dib,
        encode: Some(enc_dib),
        fixed: &[],
        required: all,
    },
    Kind {
        name: "manufacturer data block",
        service: None,
        gen: |r| gen_dib(r, 0xfe),
        reference: ref_dib,
        decode: dec_dib,
        encode: Some(enc_dib),
        fixed: &[],
        required: all,
    },
    Kind {
        name: "cEMI",
        service: None,
        gen: gen_cemi,
        reference: ref_cemi,
        decode: dec_cemi,
        encode: None,
        fixed: &[],
        required: |b| cemi_header(b).unwrap_or(0),
    },
    Kind {
        name: "L_Data indication",
        service: None,
        gen: |r| gen_ldata(r, refc::L_DATA_IND),
        reference: ref_ind,
        decode: dec_ind,
        encode: None,
        fixed: &[],
        required: all,
    },
    Kind {
        name: "L_Data confirmation",
        service: None,
        gen: |r| gen_ldata(r, refc::L_DATA_CON),
        reference: ref_con,
        decode: dec_con,
        encode: None,
        fixed: &[],
        // read from its control and address fields
        required: |b| cemi_header(b).unwrap_or(0) + 6,
    },
];

/// services the receive tasks know
const DISPATCHED: &[u16] = &[0x0420, 0x0421, 0x0423, 0x0208, 0x0209, 0x020a];

fn dispatch(b: &[u8]) -> Result<(u16, Fields), String> {
    Ok(match err(parse_response(b.to_vec()))? {
        TunnelingResponse::TunnelingRequest(r) => (0x0420, fields_tun(&r)),
        TunnelingResponse::TunnelingAck(r) => (0x0421, fields_ack(&r)),
        TunnelingResponse::FeatureResponse(r) => (0x0423, fields_feature(&r)),
        TunnelingResponse::ConnectionstateResponse(r) => (0x0208, vec![("channel", n8(r.communication_channel_id)), ("status", n8(r.status))]),
        TunnelingResponse::DisconnectResponse(r) => (0x020a, vec![("channel", n8(r.communication_channel_id)), ("status", n8(r.status))]),
        TunnelingResponse::DisconnectRequest(r) => (0x0209, fields_disc(&r)),
    })
}

/// runs code of the crate; a panic is a violation of C01 and of nothing else
fn guard<T>(out: &mut Out, what: &str, input: &[u8], f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(_) => {
            let p = take_panics().pop().unwrap_or_default();
            if is_harness_panic(&p) {
                out.harness_err = Some(p);
            } else {
                out.viol("C01", format!("{} panics on {}: {}", what, hex(input), p));
            }
            None
        }
    }
}

// ---------------------------------------------------------------- C02, C03, C04

pub fn frames(case: &Case, out: &mut Out) {
    let mut rng = Rng::new(case.seed);
    for round in 0..40 {
        for k in KINDS {
            let (fields, bytes) = (k.gen)(&mut rng);
            out.evals += 1;
            out.distinct.push(fnv(&bytes) ^ fnv(k.name.as_bytes()));
            if round == 0 && case.idx == 0 && k.name == "search response" {
                out.sample = Some(format!("{}: {} <-> {}", k.name, show(&fields), hex(&bytes)));
            }
            // encoding
            if let Some(enc) = k.encode {
                if let Some(e) = guard(out, k.name, &bytes, || enc(&fields)) {
                    out.count("encodings compared", 1);
                    if e != bytes {
                        out.viol("C03", format!("{} with {} is encoded as {}, not as {}", k.name, show(&fields), hex(&e), hex(&bytes)));
                    }
                    // and back
                    match guard(out, k.name, &e, || (k.decode)(&e)) {
                        Some(Ok((f, _))) => {
                            out.count("round trips", 1);
                            if f != fields {
                                out.viol("C02", format!("{} with {} comes back from its encoding {} as {}", k.name, show(&fields), hex(&e), show(&f)));
                            }
                        }
                        Some(Err(m)) => out.viol("C02", format!("the encoding of a {} with {} cannot be decoded: {} ({})", k.name, show(&fields), hex(&e), m)),
                        None => (),
                    }
                }
            }
            // decoding
            match guard(out, k.name, &bytes, || (k.decode)(&bytes)) {
                Some(Ok((f, e))) => {
                    out.count("decodings compared", 1);
                    if f != fields {
                        out.viol("C04", format!("{} {} is decoded as {} instead of {}", k.name, hex(&bytes), show(&f), show(&fields)));
                    }
                    if let Some(e) = e {
                        out.count("round trips", 1);
                        if e != bytes {
                            out.viol("C02", format!("{} {} is encoded again as {}", k.name, hex(&bytes), hex(&e)));
                            if f == fields {
                                out.viol("C03", format!("{} with {} is encoded as {}, not as {}", k.name, show(&fields), hex(&e), hex(&bytes)));
                            }
                        }
                    }
                }
                Some(Err(m)) => out.viol("C04", format!("well formed {} {} is refused: {}", k.name, hex(&bytes), m)),
                None => (),
            }
            // the dispatcher
            if let Some(s) = k.service {
                let r = guard(out, "dispatcher", &bytes, || dispatch(&bytes));
                if DISPATCHED.contains(&s) {
                    out.count("datagrams dispatched", 1);
                    match r {
                        Some(Ok((s2, f))) if s2 == s && f == fields => (),
                        Some(Ok((s2, f))) => out.viol("C04", format!("{} {} is dispatched as {:04x} {} instead of {}", k.name, hex(&bytes), s2, show(&f), show(&fields))),
                        Some(Err(m)) => out.viol("C04", format!("the dispatcher refuses {} {}: {}", k.name, hex(&bytes), m)),
                        None => (),
                    }
                } else if let Some(Ok((s2, f))) = r {
                    out.viol("C04", format!("{} {} is dispatched as {:04x} {}", k.name, hex(&bytes), s2, show(&f)));
                }
            }
            // every shorter frame
            let need = (k.required)(&bytes);
            let step = if need > 80 && !case.thorough { 1 + need / 60 } else { 1 };
            let mut cut = 0;
            while cut < need {
                refused(out, k, &bytes[..cut], &format!("cut to {} of {} bytes", cut, bytes.len()));
                cut += if cut < 24 || cut + step + 8 > need { 1 } else { step };
            }
            // wrong constants
            for (p, v) in k.fixed {
                let mut b = bytes.clone();
                let mut w = match rng.below(3) {
                    0 => v ^ (1 << rng.below(8)),
                    1 => *rng.pick(&[0, 1, 0xff]),
                    _ => rng.u8(),
                };
                if w == *v {
                    w = v.wrapping_add(1);
                }
                b[*p] = w;
                refused(out, k, &b, &format!("with {:02x} instead of {:02x} at {}", w, v, p));
            }
            // a total length with which it could not even have its own fields
            let least = match (bytes.get(2), bytes.get(3)) {
                (Some(2), Some(6)) if k.fixed.len() > 4 => 8,
                (Some(4), Some(0x20)) if k.fixed.len() > 4 => 10,
                _ => 0,
            };
            if least > 0 {
                let mut b = bytes.clone();
                b[4] = 0;
                b[5] = rng.below(least) as u8;
                refused(out, k, &b, &format!("with a total length of {}", b[5]));
            }
            // more than the frame: the same content, or refused
            if k.name != "cEMI" {
                let mut b = bytes.clone();
                let n = 1 + rng.usize(20);
                b.extend(rng.bytes(n));
                if let Some(Ok((f, _))) = guard(out, k.name, &b, || (k.decode)(&b)) {
                    if f != fields {
                        out.viol("C04", format!("{} {} followed by more bytes is decoded as {} instead of {}", k.name, hex(&bytes), show(&f), show(&fields)));
                    }
                }
            }
            // damaged frames: if accepted, then with the content that is there
            for _ in 0..4 {
                let b = mutate(&mut rng, &bytes);
                faithful(out, k, &b);
            }
        }
    }
    constants(&mut rng, out);
}

fn refused(out: &mut Out, k: &Kind, b: &[u8], how: &str) {
    out.count("damaged frames that must be refused", 1);
    if let Some(Ok((f, _))) = guard(out, k.name, b, || (k.decode)(b)) {
        out.viol("C04", format!("{} {} is accepted {}: {}", k.name, hex(b), how, show(&f)));
    }
    // the same bytes to the dispatcher: it must not take them for this service
    if let Some(s) = k.service {
        if DISPATCHED.contains(&s) && b.get(2..4) == Some(&s.to_be_bytes()[..]) {
            if let Some(Ok((s2, f))) = guard(out, "dispatcher", b, || dispatch(b)) {
                out.viol("C04", format!("dispatcher accepts {} {} {}: {:04x} {}", k.name, hex(b), how, s2, show(&f)));
            }
        }
    }
}

/// anything that is accepted has the fields which the reference finds at their positions
fn faithful(out: &mut Out, k: &Kind, b: &[u8]) {
    if let Some(Ok((f, _))) = guard(out, k.name, b, || (k.decode)(b)) {
        out.count("damaged frames accepted and compared", 1);
        match (k.reference)(b) {
            Some(r) if r == f => (),
            Some(r) => out.viol("C04", format!("{} {} is decoded as {} instead of {}", k.name, hex(b), show(&f), show(&r))),
            None => out.viol("C04", format!("{} {} is decoded as {} though it does not contain all of that", k.name, hex(b), show(&f))),
        }
    }
    if b.len() >= 4 {
        if let Some(Ok((s, f))) = guard(out, "dispatcher", b, || dispatch(b)) {
            let on_wire = u16::from_be_bytes([b[2], b[3]]);
            let r = KINDS.iter().find(|k| k.service == Some(s)).and_then(|k| (k.reference)(b));
            if s != on_wire || r.as_ref() != Some(&f) {
                out.viol("C04", format!("datagram {} is dispatched as {:04x} {}", hex(b), s, show(&f)));
            }
        }
    }
}

fn mutate(rng: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + rng.below(3) {
        match rng.below(7) {
            0 if !v.is_empty() => {
                let i = rng.usize(v.len());
                v[i] ^= 1 << rng.below(8);
            }
            1 if !v.is_empty() => {
                let i = rng.usize(v.len());
                v[i] = *rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f, 0x80, 0xfd, 0xfe, 0xff]);
            }
            2 => {
                let n = rng.usize(v.len() + 1);
                v.truncate(n);
            }
            3 => {
                let n = rng.usize(12);
                v.extend(rng.bytes(n));
            }
            4 if v.len() >= 6 => {
                // total length
                let l = match rng.below(4) {
                    0 => rng.below(12) as u16,
                    1 => (v.len() as u16).wrapping_add(rng.below(5) as u16).wrapping_sub(2),
                    2 => 0xffff,
                    _ => rng.u16(),
                };
                v[4..6].copy_from_slice(&l.to_be_bytes());
            }
            5 if !v.is_empty() => {
                let i = rng.usize(v.len());
                v.remove(i);
            }
            6 if !v.is_empty() => {
                let i = rng.usize(v.len().min(12));
                v[i] = rng.u8();
            }
            _ => {
                let i = rng.usize(v.len() + 1);
                let x = rng.u8();
                v.insert(i, x);
            }
        }
    }
    v
}

fn same(out: &mut Out, what: &str, got: Vec<u8>, want: Vec<u8>) {
    out.evals += 1;
    out.count("encodings compared", 1);
    if got != want {
        out.viol("C03", format!("{} is encoded as {}, not as {}", what, hex(&got), hex(&want)));
    }
}

/// frames which are only encoded
fn constants(rng: &mut Rng, out: &mut Out) {
    let nil = [8, 1, 0, 0, 0, 0, 0, 0];
    let mut body = nil.to_vec();
    body.extend(nil);
    let with = |layer: u8| {
        let mut b = body.clone();
        b.extend([4, 4, layer, 0]);
        frame(0x0205, &b)
    };
    same(out, "link layer connection request", ConnectionRequest::tunnel().packet(), with(2));
    same(out, "bus monitor connection request", ConnectionRequest::busmonitor().packet(), with(0x80));
    same(out, "link layer connection information", CRI::tunnel_linklayer().packet(), vec![4, 4, 2, 0]);
    same(out, "raw connection information", CRI::tunnel_raw().packet(), vec![4, 4, 4, 0]);
    same(out, "bus monitor connection information", CRI::tunnel_busmonitor().packet(), vec![4, 4, 0x80, 0]);
    same(out, "UDP endpoint", HPAI::udp().packet(), nil.to_vec());
    same(out, "TCP endpoint", HPAI::tcp().packet(), vec![8, 2, 0, 0, 0, 0, 0, 0]);
    same(out, "multicast search request", SearchRequest::udp().packet(), frame(0x0201, &[8, 1, 224, 0, 23, 12, 0x0e, 0x57]));
    for _ in 0..40 {
        let ip: [u8; 4] = rng.bytes(4).try_into().expect("4");
        let port = rng.corner16();
        let a = SocketAddrV4::new(Ipv4Addr::from(ip), port);
        let mut ep = vec![8, 1];
        ep.extend(ip);
        ep.extend(port.to_be_bytes());
        same(out, &format!("search request for {}", a), SearchRequest::udp_unicast(a).packet(), frame(0x0201, &ep));
        let mut h = HPAI::udp();
        h.set_addr(a);
        same(out, &format!("endpoint {}", a), h.packet(), ep.clone());
        let (ch, seq, val) = (rng.corner8(), rng.corner8(), rng.corner8());
        let ft = *rng.pick(&[2u8, 6, 7, 8]);
        same(out, &format!("feature set {} {} {} {}", ch, seq, ft, val), FeatureSet::new(ch, seq, feature(ft), val).packet(), frame(0x0424, &[4, ch, seq, 0, ft, 0, val]));
        // requests made from a connection response name its channel
        let mut body = vec![ch, 0];
        body.extend(&ep);
        body.extend([4, 4]);
        body.extend(rng.u16().to_be_bytes());
        let b = frame(0x0206, &body);
        if let Some(Ok(c)) = guard(out, "connection response", &b, || ConnectionResponse::from_packet(&mut Cursor::new(&b[..]))) {
            let p = ConnectionstateRequest::from_connection_response(&c).packet();
            let q = DisconnectRequest::from_connection_response(&c).packet();
            for (p, s) in [(p, 0x0207u16), (q, 0x0209)] {
                out.count("encodings compared", 1);
                // which endpoint they carry is not prescribed
                let ok = p.len() == 16 && p[..6] == frame(s, &[0; 10])[..6] && p[6] == ch && p[7] == 0 && p[8] == 8;
                if !ok {
                    out.viol("C03", format!("request for channel {} made from a connection response is {}", ch, hex(&p)));
                }
            }
        }
        // a response made from a disconnect request
        let mut body = vec![ch, 0];
        body.extend(&ep);
        let b = frame(0x0209, &body);
        if let Some(Ok(d)) = guard(out, "disconnect request", &b, || DisconnectRequest::from_packet(&mut Cursor::new(&b[..]))) {
            same(out, "disconnect response", DisconnectResponse::from_disconnect_request(&d).packet(), frame(0x020a, &[ch, 0]));
        }
        // manufacturer data of odd length is padded, once
        let n = rng.usize(125) * 2 + 1;
        let data = rng.bytes(n);
        let id = rng.u16();
        let mut want = vec![(4 + n + 1) as u8, 0xfe];
        want.extend(id.to_be_bytes());
        want.extend(&data);
        want.push(0);
        let d = DIB::ManufacturerData(ManufacturerDataDIB {
            structure_length: (5 + n) as u8,
            description_type_code: DescriptionTypeCode::ManufacturerData,
            knx_manufacturer_id: id,
            manufacturer_specific_data: data.clone(),
        })
        .packet();
        same(out, "odd manufacturer data", d.clone(), want);
        match guard(out, "manufacturer block", &d, || DIB::from_packet(&mut Cursor::new(&d[..]))) {
            Some(Ok(DIB::ManufacturerData(m))) => {
                out.count("round trips", 1);
                let mut padded = data.clone();
                padded.push(0);
                if m.knx_manufacturer_id != id || m.manufacturer_specific_data != padded {
                    out.viol("C02", format!("manufacturer data {} comes back as {}", hex(&data), hex(&m.manufacturer_specific_data)));
                }
            }
            Some(r) => out.viol("C02", format!("manufacturer data {} comes back as {:?}", hex(&data), r.map_err(|e| e.to_string()))),
            None => (),
        }
        // two blocks in a row are read one after the other
        let (f1, mut two) = gen_dib(rng, 2);
        let code = *rng.pick(&[1, 3, 4, 5, 0xfe]);
        let (f2, second) = gen_dib(rng, code);
        two.extend(second);
        let mut c = Cursor::new(&two[..]);
        let r = guard(out, "description blocks", &two, || (DIB::from_packet(&mut c), DIB::from_packet(&mut c)));
        match r {
            Some((Ok(a), Ok(b))) => {
                out.count("decodings compared", 2);
                if fields_dib(&a) != f1 || fields_dib(&b) != f2 {
                    out.viol("C04", format!("blocks {} are decoded as {} and {}", hex(&two), show(&fields_dib(&a)), show(&fields_dib(&b))));
                }
            }
            Some(_) => out.viol("C04", format!("blocks {} in a row are refused", hex(&two))),
            None => (),
        }
        // friendly names
        let n = rng.usize(34);
        let name: String = (0..n)
            .map(|i| match rng.below(6) {
                0 => char::from_u32(0xa0 + rng.below(96) as u32).expect("char"),
                _ if i + 1 == n => 'x',
                _ => rng.range(0x20, 0x7e) as u8 as char,
            })
            .collect();
        let d = DeviceInformationDIB::new(
            54,
            KnxMedium::TP1,
            DeviceStatus::from_bits_truncate(0),
            IndividualAddress::from_u16(1),
            0,
            [0; 6],
            Ipv4Addr::UNSPECIFIED,
            [0; 6],
            name.clone(),
        );
        out.count("round trips", 1);
        match d {
            Ok(d) if n <= 30 => {
                let mut want: Vec<u8> = name.chars().map(|c| c as u32 as u8).collect();
                want.resize(30, 0);
                let bytes = DIB::DeviceInformation(d.clone()).packet();
                if bytes.get(24..54) != Some(&want[..]) {
                    out.viol("C03", format!("the friendly name {:?} is encoded as {}", name, hex(&bytes)));
                }
                match DIB::from_packet(&mut Cursor::new(&bytes[..])) {
                    Ok(DIB::DeviceInformation(x)) if x.friendly_name().ok().as_ref() == Some(&name) && d.friendly_name().ok().as_ref() == Some(&name) => (),
                    r => out.viol("C02", format!("the friendly name {:?} is lost: {:?}", name, r.map_err(|e| e.to_string()))),
                }
            }
            Ok(_) => out.viol("C02", format!("a friendly name of {} characters is accepted", n)),
            Err(e) if n <= 30 => out.viol("C02", format!("the friendly name {:?} is refused: {}", name, e)),
            Err(_) => (),
        }
    }
}

// ---------------------------------------------------------------- C01

fn decoders_total(out: &mut Out, b: &[u8]) {
    let limit = 256 * 1024 + 64 * b.len() as u64;
    for k in KINDS {
        let a0 = allocated();
        let r = guard(out, k.name, b, || (k.decode)(b).is_ok());
        let used = allocated() - a0;
        if used > limit {
            out.viol("C01", format!("decoding {} bytes as {} allocates {} bytes: {}", b.len(), k.name, used, hex(&b[..b.len().min(64)])));
        }
        out.count(if r == Some(true) { "inputs accepted" } else { "inputs refused" }, 1);
    }
    let a0 = allocated();
    guard(out, "dispatcher", b, || dispatch(b).is_ok());
    // structures with the length given by the caller
    for l in [0u8, 1, 2, 3, 4, 5, 54, 255, b.first().copied().unwrap_or(7)] {
        guard(out, "DeviceInformationDIB", b, || {
            let _ = DeviceInformationDIB::from_packet(&mut Cursor::new(b), l).map(|d| d.friendly_name().is_ok());
        });
        guard(out, "SupportedServiceFamiliesDIB", b, || SupportedServiceFamiliesDIB::from_packet(&mut Cursor::new(b), l).is_ok());
        guard(out, "IpConfigDIB", b, || IpConfigDIB::from_packet(&mut Cursor::new(b), l).is_ok());
        guard(out, "IpCurrentConfigDIB", b, || IpCurrentConfigDIB::from_packet(&mut Cursor::new(b), l).is_ok());
        guard(out, "KNXAddressesDIB", b, || KNXAddressesDIB::from_packet(&mut Cursor::new(b), l).is_ok());
        guard(out, "ManufacturerDataDIB", b, || ManufacturerDataDIB::from_packet(&mut Cursor::new(b), l).is_ok());
    }
    // service information of any content
    guard(out, "LDataCon", b, || LDataCon::from_cemi(raw_cemi(0x2e, b)).is_ok());
    guard(out, "LDataInd", b, || LDataInd::from_cemi(raw_cemi(0x29, b)).is_ok());
    // datapoint values
    guard(out, "PdtKnxScaledValue", b, || PdtKnxScaledValue::from_bytes(b).map(|v| v.get_value()).is_ok());
    guard(out, "PdtKnxInt", b, || PdtKnxInt::from_bytes(b).map(|v| v.get_bytes()).is_ok());
    guard(out, "PdtKnxFloat", b, || PdtKnxFloat::from_bytes(b).map(|v| v.get_bytes()).is_ok());
    guard(out, "PdtKnxFloat", b, || PdtKnxFloat::temp_from_bytes(b).map(|v| v.get_bytes()).is_ok());
    guard(out, "PdtKnxByte", b, || PdtKnxByte::from_bytes(b).map(|v| v.get_bytes()).is_ok());
    guard(out, "PdtKnxWord", b, || PdtKnxWord::from_bytes(b).map(|v| v.get_bytes()).is_ok());
    guard(out, "PdtKnxULong", b, || PdtKnxULong::from_bytes(b).map(|v| v.get_bytes()).is_ok());
    guard(out, "PdtKnxBit", b, || PdtKnxBit::from_bytes(b).map(|v| v.get_bytes()).is_ok());
    guard(out, "PdtKnxB1U3", b, || PdtKnxB1U3::from_bytes(b).map(|v| v.get_bytes()).is_ok());
    // text
    let s = String::from_utf8_lossy(b).into_owned();
    text_total(out, &s);
    let used = allocated() - a0;
    if used > 80 * limit {
        out.viol("C01", format!("decoding {} bytes allocates {} bytes in all: {}", b.len(), used, hex(&b[..b.len().min(64)])));
    }
}

fn raw_cemi(mc: u8, b: &[u8]) -> CEMI {
    CEMI {
        msg_code: mc,
        additional_infos: vec![],
        service_info: b.to_vec(),
    }
}

fn text_total(out: &mut Out, s: &str) {
    guard(out, "KnxAddress", s.as_bytes(), || KnxAddress::try_from(s).map(|a| format!("{} {:?}", a.to_u16(), a)).is_ok());
    guard(out, "IndividualAddress", s.as_bytes(), || IndividualAddress::try_from(s).map(|a| format!("{} {:?}", a.to_u16(), a)).is_ok());
    guard(out, "Group3LevelAddress", s.as_bytes(), || Group3LevelAddress::try_from(s).map(|a| format!("{} {:?}", a.to_u16(), a)).is_ok());
}

pub fn decode_fuzz(case: &Case, out: &mut Out) {
    let mut rng = Rng::new(case.seed);
    for i in 0..160 {
        let b = match rng.below(8) {
            0 => {
                let n = rng.usize(40);
                rng.bytes(n)
            }
            1 => {
                let n = match rng.below(6) {
                    0 => 65_507,
                    1 => rng.usize(2000),
                    _ => rng.usize(300),
                };
                let mut b = rng.bytes(n);
                if rng.chance(1, 2) {
                    let x = *rng.pick(&[0u8, 1, 0xfe, 0xff]);
                    b.iter_mut().for_each(|v| *v = x);
                }
                b
            }
            2 => {
                // a right header with any content
                let s = *rng.pick(&[0x0201u16, 0x0202, 0x0206, 0x0207, 0x0208, 0x0209, 0x020a, 0x0420, 0x0421, 0x0423]);
                let n = rng.usize(60);
                let mut b = frame(s, &rng.bytes(n));
                if rng.chance(1, 2) {
                    let l = rng.corner16();
                    b[4..6].copy_from_slice(&l.to_be_bytes());
                }
                if b.len() > 6 {
                    b[6] = *rng.pick(&[4, 8, 54, b[6]]);
                }
                b
            }
            3 => {
                // description blocks with any length
                let n = rng.usize(80);
                let mut b = vec![*rng.pick(&[0, 1, 2, 3, 4, 5, 16, 20, 54, 254, 255]), *rng.pick(&[1, 2, 3, 4, 5, 0xfe])];
                b.extend(rng.bytes(n));
                b
            }
            _ => {
                let k = rng.pick(KINDS);
                let (_, b) = (k.gen)(&mut rng);
                match rng.below(4) {
                    0 => b,
                    _ => mutate(&mut rng, &b),
                }
            }
        };
        out.evals += 1;
        out.distinct.push(fnv(&b));
        if i == 0 && case.idx == 0 {
            out.sample = Some(format!("all decoders on {}", hex(&b[..b.len().min(40)])));
        }
        decoders_total(out, &b);
        let s = weird_text(&mut rng);
        text_total(out, &s);
        out.count("texts parsed", 1);
    }
    // numbers to encode
    for _ in 0..200 {
        let f = f32::from_bits(rng.u32());
        guard(out, "2 byte float", &f.to_bits().to_be_bytes(), || PdtKnxFloat::general(f).get_bytes());
        guard(out, "scaling", &f.to_bits().to_be_bytes(), || PdtKnxScaledValue::scaling(f).get_bytes());
        let v = rng.u16() as i16;
        guard(out, "percent", &v.to_be_bytes(), || PdtKnxInt::percent_v16(v).get_bytes());
    }
}

fn weird_text(rng: &mut Rng) -> String {
    let n = rng.usize(9);
    let mut s = String::new();
    for _ in 0..n {
        match rng.below(12) {
            0..=3 => s.push_str(&rng.below(300).to_string()),
            4 => s.push_str(&rng.u32().to_string()),
            5 | 6 => s.push('/'),
            7 => s.push('.'),
            8 => s.push_str(rng.pick(&["", " ", "-1", "+", "\u{0}", "é", "\u{1F600}", "0x1", "1e3", "//", "..", "./"])),
            9 => s.push_str(&rng.u64().to_string()),
            10 => s.push_str(&"9".repeat(rng.usize(60))),
            _ => s.push(char::from_u32(rng.below(0xd7ff) as u32).unwrap_or('x')),
        }
    }
    s
}

// ---------------------------------------------------------------- C05

pub fn addresses(case: &Case, out: &mut Out) {
    // 64 cases cover all 65536 values
    let mut rng = Rng::new(case.seed);
    let lo = (case.idx % 64) * 1024;
    for v in lo..lo + 1024 {
        let v = v as u16;
        let texts = [
            format!("{}.{}.{}", v >> 12, v >> 8 & 15, v & 255),
            format!("{}/{}/{}", v >> 11, v >> 8 & 7, v & 255),
            format!("{}/{}", v >> 11, v & 2047),
            format!("{}", v),
        ];
        for (i, t) in texts.iter().enumerate() {
            out.evals += 1;
            out.distinct.push(fnv(t.as_bytes()));
            out.count("addresses parsed", 1);
            match KnxAddress::try_from(t.as_str()) {
                Ok(a) => {
                    let kind = match a {
                        KnxAddress::Individual(_) => 0,
                        KnxAddress::Group3Level(_) => 1,
                        KnxAddress::Group2Level(_) => 2,
                        KnxAddress::Group1Level(_) => 3,
                    };
                    if a.to_u16() != v || kind != i {
                        out.viol("C05", format!("{:?} is parsed as {:?} = {:#06x} instead of {:#06x}", t, a, a.to_u16(), v));
                    }
                }
                Err(e) => out.viol("C05", format!("the address {:?} is refused: {}", t, e)),
            }
        }
        match IndividualAddress::try_from(texts[0].as_str()) {
            Ok(a) if a.to_u16() == v && a == IndividualAddress::from_u16(v) => (),
            r => out.viol("C05", format!("individual address {:?} is parsed as {:?}", texts[0], r.map_err(|e| e.to_string()))),
        }
        match Group3LevelAddress::try_from(texts[1].as_str()) {
            Ok(a) if a.to_u16() == v => (),
            r => out.viol("C05", format!("group address {:?} is parsed as {:?}", texts[1], r.map_err(|e| e.to_string()))),
        }
        let pairs = [
            ("individual", IndividualAddress::from_u16(v).to_u16()),
            ("3 level", Group3LevelAddress::from_u16(v).to_u16()),
            ("individual constructor", KnxAddress::individual((v >> 12) as u8, (v >> 8 & 15) as u8, v as u8).to_u16()),
            ("3 level constructor", KnxAddress::group_3_level((v >> 11) as u8, (v >> 8 & 7) as u8, v as u8).to_u16()),
            ("2 level constructor", KnxAddress::group_2_level((v >> 11) as u8, v & 2047).to_u16()),
            ("1 level constructor", KnxAddress::group_1_level(v).to_u16()),
        ];
        for (n, w) in pairs {
            out.count("conversions", 1);
            if w != v {
                out.viol("C05", format!("{} address of {:#06x} has the value {:#06x}", n, v, w));
            }
        }
        // the text of an address from its value names the same address
        out.count("conversions", 1);
        let t = format!("{:?}", IndividualAddress::from_u16(v));
        if t != texts[0] {
            out.viol("C05", format!("the individual address {:#06x} is shown as {} instead of {}", v, t, texts[0]));
        }
        let t = format!("{:?}", Group3LevelAddress::from_u16(v));
        if t != texts[1] {
            out.viol("C05", format!("the group address {:#06x} is shown as {} instead of {}", v, t, texts[1]));
        }
    }
    // out of range or format
    for _ in 0..800 {
        let big = |rng: &mut Rng, max: u64| -> u64 {
            match rng.below(4) {
                0 => max + 1,
                1 => max + 1 + rng.below(max + 1),
                2 => *rng.pick(&[256, 65536, 65537, 4294967296, u64::MAX].iter().filter(|x| **x > max).copied().collect::<Vec<u64>>()),
                _ => max + 1 + rng.below(70_000),
            }
        };
        let pick = |rng: &mut Rng, max: u64, bad: bool| if bad { big(rng, max) } else { rng.below(max + 1) };
        let bad = |rng: &mut Rng, n: u64| {
            let k = rng.below(n);
            (0..n).map(|i| i == k || rng.chance(1, 5)).collect::<Vec<bool>>()
        };
        let t = match rng.below(9) {
            0 => {
                let b = bad(&mut rng, 3);
                format!("{}.{}.{}", pick(&mut rng, 15, b[0]), pick(&mut rng, 15, b[1]), pick(&mut rng, 255, b[2]))
            }
            1 => {
                let b = bad(&mut rng, 3);
                format!("{}/{}/{}", pick(&mut rng, 31, b[0]), pick(&mut rng, 7, b[1]), pick(&mut rng, 255, b[2]))
            }
            2 => {
                let b = bad(&mut rng, 2);
                format!("{}/{}", pick(&mut rng, 31, b[0]), pick(&mut rng, 2047, b[1]))
            }
            3 => {
                // not a multiple of 2^16 away by chance: always too big
                big(&mut rng, 65535).max(65536).to_string()
            }
            4 => {
                // wrong number of parts
                let n = *rng.pick(&[4usize, 5, 8]);
                let sep = *rng.pick(&["/", "."]);
                (0..n).map(|_| rng.below(8).to_string()).collect::<Vec<_>>().join(sep)
            }
            5 => {
                let n = *rng.pick(&[2usize, 1]);
                (0..n).map(|_| rng.below(8).to_string()).collect::<Vec<_>>().join(".") + if n == 1 { "." } else { "" }
            }
            6 => {
                // something that is no number
                let junk = *rng.pick(&["", "a", "-1", " 1", "1 ", "0x1", "1e1", "1,0", "é", "١", "--", "NaN"]);
                let mut p: Vec<String> = (0..3).map(|_| rng.below(8).to_string()).collect();
                let n = 1 + rng.usize(3);
                p.truncate(n);
                let k = rng.usize(n);
                p[k] = junk.to_string();
                let sep = if n == 3 && rng.chance(1, 2) { "." } else { "/" };
                p.join(sep)
            }
            7 => {
                let a = (rng.below(8), rng.below(8), rng.below(8));
                match rng.below(6) {
                    // other separators, something around it
                    4 => {
                        let sep = *rng.pick(&["\\", ":", "-", ",", ";", " ", "_", "|", "//", "/ ", "\u{2215}", "\u{ff0f}", "\0"]);
                        let n = 2 + rng.usize(2);
                        [a.0, a.1, a.2][..n].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep)
                    }
                    5 => {
                        let x = *rng.pick(&[" ", "\t", "\n", "\r\n", "\0", "\u{feff}", "g", "ga:", "\"", "(", "0b", "#"]);
                        let t = match rng.below(4) {
                            0 => format!("{}.{}.{}", a.0, a.1, a.2),
                            1 => format!("{}/{}/{}", a.0, a.1, a.2),
                            2 => format!("{}/{}", a.0, a.1),
                            _ => format!("{}", a.0),
                        };
                        if rng.chance(1, 2) {
                            format!("{}{}", x, t)
                        } else {
                            format!("{}{}", t, x)
                        }
                    }
                    0 => format!("{}.{}/{}", a.0, a.1, a.2),
                    1 => format!("{}/{}.{}", a.0, a.1, a.2),
                    2 => format!("{}/{}/{}/", a.0, a.1, a.2),
                    _ => format!("/{}/{}", a.0, a.1),
                }
            }
            _ => {
                let a = (rng.below(8), rng.below(8), rng.below(8));
                match rng.below(3) {
                    0 => format!(".{}.{}.{}", a.0, a.1, a.2),
                    1 => format!("{}.{}.{}.", a.0, a.1, a.2),
                    _ => format!("{}..{}", a.0, a.1),
                }
            }
        };
        out.evals += 1;
        out.distinct.push(fnv(t.as_bytes()));
        out.count("invalid addresses", 1);
        if let Some(Ok(a)) = guard(out, "KnxAddress", t.as_bytes(), || KnxAddress::try_from(t.as_str())) {
            out.viol("C05", format!("{:?} is accepted as {:?} = {:#06x}", t, a, a.to_u16()));
        }
        if let Some(Ok(a)) = guard(out, "IndividualAddress", t.as_bytes(), || IndividualAddress::try_from(t.as_str())) {
            out.viol("C05", format!("{:?} is accepted as individual address {:?}", t, a));
        }
        if let Some(Ok(a)) = guard(out, "Group3LevelAddress", t.as_bytes(), || Group3LevelAddress::try_from(t.as_str())) {
            out.viol("C05", format!("{:?} is accepted as group address {:?}", t, a));
        }
    }
    if case.idx == 0 {
        out.sample = Some("0..1023 in 4 notations, e.g. \"0/3/255\" -> 1023".into());
    }
}

// ---------------------------------------------------------------- C06

fn family_of(code: &str) -> &str {
    code.split('.').next().unwrap_or("")
}

struct Dp {
    name: &'static str,
    width: usize,
    family: &'static str,
    small: bool,
}

#[allow(clippy::too_many_arguments)]
fn dp<T: PartialEq + std::fmt::Debug + Copy, P: Pdt<T>>(out: &mut Out, d: &Dp, v: T, p: P, code: fn(&P) -> &str, want: &[u8], value: T, rng: &mut Rng) {
    out.evals += 1;
    out.count("datapoint values", 1);
    let b = p.get_bytes();
    if b != want {
        out.viol("C06", format!("{} of {:?} has the bytes {} instead of {}", d.name, v, hex(&b), hex(want)));
    }
    if p.get_value() != value {
        out.viol("C06", format!("{} of {:?} has the value {:?}", d.name, v, p.get_value()));
    }
    if family_of(code(&p)) != d.family {
        out.viol("C06", format!("{} of {:?} has the datapoint type {}", d.name, v, code(&p)));
    }
    if p.is_small() != d.small {
        out.viol("C06", format!("{} of {:?}: is_small() is {}", d.name, v, p.is_small()));
    }
    match P::from_bytes(want) {
        Ok(q) => {
            if q.get_value() != value || q.get_bytes() != want {
                out.viol("C06", format!("{} {} is decoded as {:?} instead of {:?}", d.name, hex(want), q.get_value(), value));
            }
            if family_of(code(&q)) != d.family || q.is_small() != d.small {
                out.viol("C06", format!("{} {} is decoded as datapoint type {} (small: {})", d.name, hex(want), code(&q), q.is_small()));
            }
        }
        Err(e) => out.viol("C06", format!("{} {} is refused: {}", d.name, hex(want), e)),
    }
    let n = rng.usize(d.width);
    out.count("short inputs", 1);
    if let Ok(q) = P::from_bytes(&want[..n]) {
        out.viol("C06", format!("{} is decoded from {} of {} bytes as {:?}", d.name, n, d.width, q.get_value()));
    }
    // what follows the value is not part of it
    if rng.chance(1, 4) {
        let mut long = want.to_vec();
        let more = 1 + rng.usize(6);
        long.extend(rng.bytes(more));
        out.count("long inputs", 1);
        if let Ok(q) = P::from_bytes(&long) {
            if q.get_value() != value || q.get_bytes() != want {
                out.viol("C06", format!("{} {} is decoded as {:?}, while its first {} bytes are {:?}", d.name, hex(&long), q.get_value(), d.width, value));
            }
        }
    }
}

pub fn dp_fixed(case: &Case, out: &mut Out) {
    let mut rng = Rng::new(case.seed);
    const BIT: Dp = Dp { name: "bit", width: 1, family: "1", small: true };
    const CTL: Dp = Dp { name: "control", width: 1, family: "3", small: true };
    const BYTE: Dp = Dp { name: "byte", width: 1, family: "20", small: false };
    const SCALED: Dp = Dp { name: "scaled value", width: 1, family: "5", small: false };
    const WORD: Dp = Dp { name: "2 byte unsigned", width: 2, family: "7", small: false };
    const INT: Dp = Dp { name: "2 byte signed", width: 2, family: "8", small: false };
    const LONG: Dp = Dp { name: "4 byte unsigned", width: 4, family: "12", small: false };
    let r = &mut rng;
    for v in [false, true] {
        dp(out, &BIT, v, PdtKnxBit::general(v), |p| &p.code, &[v as u8], v, r);
        dp(out, &BIT, v, PdtKnxBit::switch(v), |p| &p.code, &[v as u8], v, r);
    }
    for v in 0..=255u8 {
        out.distinct.push(v as u64);
        // a control value has 4 bits
        let c = v & 15;
        dp(out, &CTL, v, PdtKnxB1U3::general(v), |p| &p.code, &[c], c, r);
        dp(out, &CTL, v, PdtKnxB1U3::dimming(c & 8 != 0, c & 7), |p| &p.code, &[c], c, r);
        dp(out, &CTL, v, PdtKnxB1U3::blinds(c & 8 != 0, c & 7), |p| &p.code, &[c], c, r);
        dp(out, &BYTE, v, PdtKnxByte::general(v), |p| &p.code, &[v], v, r);
        dp(out, &SCALED, v, PdtKnxScaledValue::general(v), |p| &p.code, &[v], v, r);
        // a received bit is the value of its byte
        match PdtKnxBit::from_bytes(&[v]) {
            Ok(b) if v > 1 || b.get_value() == (v == 1) => (),
            _ => out.viol("C06", format!("bit {} is not decoded as it is", v)),
        }
        match PdtKnxB1U3::from_bytes(&[v]) {
            Ok(b) if b.get_value() == c => (),
            _ => out.viol("C06", format!("control value {:#04x} is not decoded as {:#04x}", v, c)),
        }
    }
    let lo = (case.idx % 16) * 4096;
    for w in lo..lo + 4096 {
        let w = w as u16;
        out.distinct.push(0x1_0000 + w as u64);
        dp(out, &WORD, w, PdtKnxWord::general(w), |p| &p.code, &w.to_be_bytes(), w, r);
        let i = w as i16;
        dp(out, &INT, i, PdtKnxInt::general(i), |p| &p.code, &i.to_be_bytes(), i, r);
        dp(out, &INT, i, PdtKnxInt::value_2_count(i), |p| &p.code, &i.to_be_bytes(), i, r);
        let pc = (i as i32 * 100).clamp(-32768, 32767) as i16;
        dp(out, &INT, i, PdtKnxInt::percent_v16(i), |p| &p.code, &pc.to_be_bytes(), pc, r);
    }
    for _ in 0..4096 {
        let v = match r.below(4) {
            0 => 1u32 << r.below(32),
            1 => (1u64 << r.below(33)).wrapping_sub(1) as u32,
            _ => r.u32(),
        };
        out.distinct.push(0x1_0000_0000 + v as u64);
        dp(out, &LONG, v, PdtKnxULong::general(v), |p| &p.code, &v.to_be_bytes(), v, r);
    }
    if case.idx == 0 {
        out.sample = Some("2 byte signed -32768: general, value_2_count and percent_v16, to bytes and back".into());
    }
}

// ---------------------------------------------------------------- C07

/// hundredths, exactly
fn word_value(w: u16) -> i64 {
    let e = (w >> 11) & 15;
    let m = (w & 0x7ff) as i64 - if w & 0x8000 != 0 { 2048 } else { 0 };
    m << e
}

fn float_ok(v: f32, w: u16) -> Result<(), String> {
    // the product of a 32 bit float with 100 is rounded
    let x = v as f64 * 100.0;
    let eps = x.abs() * 1.3e-7;
    let got = word_value(w) as f64;
    let (lo, hi) = (-2048.0 * 32768.0, 2047.0 * 32768.0);
    if x >= hi - eps {
        return if (got - x.min(hi)).abs() <= 16384.0 && got > 0.0 { Ok(()) } else { Err(format!("saturates at {} instead of {}", got / 100.0, hi / 100.0)) };
    }
    if x <= lo + eps {
        return if (got - x.max(lo)).abs() <= 16384.0 && got < 0.0 { Ok(()) } else { Err(format!("saturates at {} instead of {}", got / 100.0, lo / 100.0)) };
    }
    let mut e = 0;
    while x + eps < -2048.0 * (1 << e) as f64 || x - eps > 2047.0 * (1 << e) as f64 {
        e += 1;
    }
    // at the border of two exponents rounding may make the next one necessary
    let next = x - 2.0 * eps < -2048.0 * (1 << e) as f64 || x + 2.0 * eps > 2047.0 * (1 << e) as f64;
    let step = (1 << (e + next as i32)) as f64;
    if (got - x).abs() > step / 2.0 + eps {
        return Err(format!("is {} away, more than half a step of {}", (got - x).abs() / 100.0, step / 100.0));
    }
    if x != 0.0 && got != 0.0 && (x < 0.0) != (got < 0.0) {
        return Err("has the other sign".into());
    }
    Ok(())
}

fn check_float(out: &mut Out, v: f32) {
    out.evals += 1;
    out.count("floats encoded", 1);
    let b = match guard(out, "2 byte float", &v.to_bits().to_be_bytes(), || PdtKnxFloat::general(v).get_bytes()) {
        Some(b) => b,
        None => {
            out.viol("C07", format!("encoding {:?} panics", v));
            return;
        }
    };
    if b.len() != 2 {
        out.viol("C07", format!("{:?} is encoded as {}", v, hex(&b)));
        return;
    }
    if PdtKnxFloat::temp(v).get_bytes() != b {
        out.viol("C07", format!("the temperature {:?} is encoded as {} instead of {}", v, hex(&PdtKnxFloat::temp(v).get_bytes()), hex(&b)));
    }
    if v.is_nan() {
        return;
    }
    let w = u16::from_be_bytes([b[0], b[1]]);
    if v.is_infinite() {
        let want = if v > 0.0 { 2047i64 << 15 } else { -2048i64 << 15 };
        if word_value(w) != want {
            out.viol("C07", format!("{:?} is encoded as {:#06x} = {}", v, w, word_value(w) as f64 / 100.0));
        }
        return;
    }
    if v.abs() > 670_761.0 && (v > 0.0 || v < -671_089.0) {
        out.count("floats out of range", 1);
        let want = if v > 0.0 { 2047i64 << 15 } else { -2048i64 << 15 };
        if word_value(w) != want {
            out.viol("C07", format!("{:?} does not saturate, it is encoded as {:#06x} = {}", v, w, word_value(w) as f64 / 100.0));
        }
        return;
    }
    if let Err(m) = float_ok(v, w) {
        out.viol("C07", format!("{:?} is encoded as {:#06x} = {}, which {}", v, w, word_value(w) as f64 / 100.0, m));
    }
}

pub fn dp_float(case: &Case, out: &mut Out) {
    let mut rng = Rng::new(case.seed);
    let lo = (case.idx % 16) * 4096;
    for w in lo..lo + 4096 {
        let w = w as u16;
        out.evals += 1;
        out.distinct.push(w as u64);
        out.count("words decoded", 1);
        let want = word_value(w) as f64 / 100.0;
        for (n, r) in [("float", PdtKnxFloat::from_bytes(&w.to_be_bytes())), ("temperature", PdtKnxFloat::temp_from_bytes(&w.to_be_bytes()))] {
            match r {
                Ok(f) => {
                    let v = f.get_value() as f64;
                    if (v - want).abs() > want.abs() * 3e-7 {
                        out.viol("C07", format!("{} {:#06x} is decoded as {} instead of {}", n, w, v, want));
                    }
                    if family_of(&f.code) != "9" || f.is_small() {
                        out.viol("C07", format!("{} {:#06x} is decoded as datapoint type {}", n, w, f.code));
                    }
                    let b = f.get_bytes();
                    if b.len() != 2 || word_value(u16::from_be_bytes([b[0], b[1]])) != word_value(w) {
                        out.viol("C07", format!("{} {:#06x} = {} is encoded again as {}", n, w, want, hex(&b)));
                    }
                }
                Err(e) => out.viol("C07", format!("{} {:#06x} is refused: {}", n, w, e)),
            }
        }
    }
    for n in [0usize, 1, 3, 4] {
        if PdtKnxFloat::from_bytes(&vec![1; n]).is_ok() {
            out.viol("C07", format!("{} bytes are decoded as a 2 byte float", n));
        }
    }
    for v in [0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 670760.96, -671088.64, 670433.28, 20.47, 20.48, -20.48, -20.49] {
        check_float(out, v);
    }
    let n = if case.thorough { 60_000 } else { 12_000 };
    for _ in 0..n {
        let v = match rng.below(6) {
            0 => f32::from_bits(rng.u32()),
            1 => {
                // around the limits of an exponent
                let m = *rng.pick(&[2047.0f64, 2048.0, -2048.0, -2049.0, 1024.0, -1024.0, 1023.5, 2047.5, -2048.5]);
                let e = rng.below(16);
                let d = (rng.below(2001) as f64 - 1000.0) / 1000.0;
                ((m + d) * (1u64 << e) as f64 / 100.0) as f32
            }
            2 => {
                // halfway between steps
                let m = rng.below(4095) as f64 - 2047.5;
                (m * (1u64 << rng.below(16)) as f64 / 100.0) as f32
            }
            3 => (rng.below(200_001) as f64 / 100.0 - 1000.0) as f32,
            4 => {
                let x = 1_400_000.0 * (rng.u64() as f64 / u64::MAX as f64) - 700_000.0;
                x as f32
            }
            _ => {
                let x = 10f64.powf(rng.u64() as f64 / u64::MAX as f64 * 9.0 - 3.0);
                (if rng.chance(1, 2) { x } else { -x }) as f32
            }
        };
        out.distinct.push(0x1_0000_0000 + v.to_bits() as u64);
        check_float(out, v);
    }
    if case.idx == 0 {
        out.sample = Some("words 0x0000..0x0fff decoded and encoded again; 20.475 between 20.47 and 20.48".into());
    }
}

// ---------------------------------------------------------------- C08

pub fn dp_scaling(case: &Case, out: &mut Out) {
    let mut rng = Rng::new(case.seed);
    let mut ps: Vec<f32> = vec![0.0, 100.0, 50.0, 0.1, 99.9];
    for b in 0..=255u32 {
        let x = b as f32 / 2.55;
        ps.push(x.clamp(0.0, 100.0));
        let h = (b as f32 + 0.5) / 2.55;
        for d in -3i32..=3 {
            ps.push(f32::from_bits((h.to_bits() as i32 + d) as u32).clamp(0.0, 100.0));
        }
        // bytes survive
        out.count("bytes converted", 1);
        match PdtKnxScaledValue::from_bytes(&[b as u8]) {
            Ok(p) => {
                let pc = p.get_value();
                let want = b as f64 / 2.55;
                if (pc as f64 - want).abs() > 1e-4 {
                    out.viol("C08", format!("byte {} is read as {}%", b, pc));
                }
                let back = PdtKnxScaledValue::scaling(pc).get_bytes();
                if back != [b as u8] {
                    out.viol("C08", format!("byte {} is read as {}% and written as {}", b, pc, hex(&back)));
                }
            }
            Err(e) => out.viol("C08", format!("byte {} is refused: {}", b, e)),
        }
    }
    for _ in 0..if case.thorough { 100_000 } else { 20_000 } {
        ps.push(match rng.below(3) {
            0 => (rng.below(10_001) as f64 / 100.0) as f32,
            1 => {
                let v = f32::from_bits(rng.below(0x42c8_0001) as u32);
                v.clamp(0.0, 100.0)
            }
            _ => (rng.u64() as f64 / u64::MAX as f64 * 100.0) as f32,
        });
    }
    ps.sort_by(|a, b| a.partial_cmp(b).expect("number"));
    let mut last = 0u8;
    for p in ps {
        out.evals += 1;
        out.distinct.push(p.to_bits() as u64);
        out.count("percentages encoded", 1);
        let v = PdtKnxScaledValue::scaling(p);
        let b = v.get_bytes();
        if b.len() != 1 {
            out.viol("C08", format!("{}% is encoded as {}", p, hex(&b)));
            continue;
        }
        let x = p as f64 * 2.55;
        if (b[0] as f64 - x).abs() > 0.5 + 5e-5 || (p == 0.0 && b[0] != 0) || (p == 100.0 && b[0] != 255) {
            out.viol("C08", format!("{}% is encoded as {}", p, b[0]));
        }
        if b[0] < last {
            out.viol("C08", format!("{}% is encoded as {}, less than a smaller percentage", p, b[0]));
        }
        last = b[0];
        let back = v.get_value();
        if (back as f64 - p as f64).abs() > 0.5 / 2.55 + 1e-4 {
            out.viol("C08", format!("{}% comes back as {}%", p, back));
        }
        if family_of(&v.code) != "5" || v.is_small() {
            out.viol("C08", format!("{}% has the datapoint type {}", p, v.code));
        }
    }
    for _ in 0..200 {
        let x = (rng.u64() as f64 / u64::MAX as f64).powi(3) * 1e6;
        for (p, want) in [(100.0 + x, 255u8), (-x, 0)] {
            out.count("percentages out of range", 1);
            let b = PdtKnxScaledValue::scaling(p as f32).get_bytes();
            if b != [want] {
                out.viol("C08", format!("{}% is encoded as {} instead of {}", p, hex(&b), want));
            }
        }
    }
    for (p, want) in [(f32::INFINITY, 255u8), (f32::NEG_INFINITY, 0), (f32::MAX, 255), (f32::MIN, 0)] {
        if PdtKnxScaledValue::scaling(p).get_bytes() != [want] {
            out.viol("C08", format!("{}% is encoded as {}", p, hex(&PdtKnxScaledValue::scaling(p).get_bytes())));
        }
    }
    if case.idx == 0 {
        out.sample = Some("50.0% -> 128 (127.5), 99.9% -> 255, all bytes to percent and back".into());
    }
}

// ---------------------------------------------------------------- C09

fn any_address(rng: &mut Rng, v: u16) -> KnxAddress {
    match rng.below(4) {
        0 => KnxAddress::group_1_level(v),
        1 => KnxAddress::group_2_level((v >> 11) as u8, v & 2047),
        2 => KnxAddress::group_3_level((v >> 11) as u8, (v >> 8 & 7) as u8, v as u8),
        _ => KnxAddress::try_from(format!("{}/{}/{}", v >> 11, v >> 8 & 7, v & 255).as_str()).unwrap_or(KnxAddress::group_1_level(v)),
    }
}

fn payload_case(rng: &mut Rng, out: &mut Out, apdu: APDU, apci: u16, payload: refc::Payload, what: &str) {
    let dst = rng.corner16();
    let mut m = LDataReqMessage::new(any_address(rng, dst), TPDU::t_data_group(apdu));
    let mut prio = 3;
    if rng.chance(1, 2) {
        prio = rng.below(4) as u8;
        m.set_priority(prio);
    }
    out.evals += 1;
    out.count("requests compared", 1);
    let want = refc::expected_req(dst, apci, &payload, prio);
    let got = match guard(out, what, &want, || m.packet()) {
        Some(b) => b,
        None => {
            out.viol("C09", format!("building the {} panics", what));
            return;
        }
    };
    out.distinct.push(fnv(&want));
    if got != want {
        out.viol("C09", format!("{} to {:#06x} of {} is {}, not {}", what, dst, hex(&payload.value()), hex(&got), hex(&want)));
    }
    // the same payload as an indication, as the gateway passes it on
    if got.len() < 11 {
        return;
    }
    let src = rng.corner16();
    let mut ind = got.clone();
    ind[0] = refc::L_DATA_IND;
    ind[4..6].copy_from_slice(&src.to_be_bytes());
    indication(out, &ind, src, dst, apci, &payload, want[2]);
}

fn indication(out: &mut Out, ind: &[u8], src: u16, dst: u16, apci: u16, payload: &refc::Payload, ctrl1: u8) {
    out.count("indications compared", 1);
    let r = guard(out, "L_Data.ind", ind, || lib_cemi(ind).and_then(|c| err(LDataInd::from_cemi(c))));
    match r {
        Some(Ok(i)) => {
            let f = flags(ctrl1);
            if i.l_data.src != src || i.l_data.dest != dst || i.apci != apci || lib_flags(&i.l_data) != f || i.value != payload.value() {
                out.viol(
                    "C09",
                    format!(
                        "indication {} is decoded as src {:#06x} dst {:#06x} service {} flags {:?} value {}",
                        hex(ind),
                        i.l_data.src,
                        i.l_data.dest,
                        i.apci,
                        lib_flags(&i.l_data),
                        hex(&i.value)
                    ),
                );
            }
        }
        Some(Err(e)) => out.viol("C09", format!("indication {} is refused: {}", hex(ind), e)),
        None => out.viol("C09", format!("indication {} makes the decoder panic", hex(ind))),
    }
}

pub fn payloads(case: &Case, out: &mut Out) {
    let mut rng = Rng::new(case.seed);
    let r = &mut rng;
    // every length
    for n in 1..=MAX_VALUE_LENGTH.min(253) {
        let v = r.bytes(n);
        payload_case(r, out, APDU::group_value_write(v.clone(), false), refc::APCI_WRITE, refc::Payload::Long(v), "write");
    }
    if MAX_VALUE_LENGTH != 253 {
        out.viol("C09", format!("the longest value is {} bytes", MAX_VALUE_LENGTH));
    }
    // every short value
    for b in 0..64u8 {
        let mut v = vec![b];
        if r.chance(1, 4) {
            v.push(r.u8());
        }
        payload_case(r, out, APDU::group_value_write(v, true), refc::APCI_WRITE, refc::Payload::Short(b), "short write");
    }
    for _ in 0..64 {
        payload_case(r, out, APDU::group_value_read(), refc::APCI_READ, refc::Payload::Short(0), "read");
    }
    // datapoints
    for _ in 0..64 {
        let (a, b, c) = (r.u8(), r.u16(), r.u32());
        let bit = r.chance(1, 2);
        payload_case(r, out, APDU::group_value_write_pd(PdtKnxBit::switch(bit)), refc::APCI_WRITE, refc::Payload::Short(bit as u8), "bit write");
        payload_case(r, out, APDU::group_value_write_pd(PdtKnxB1U3::general(a)), refc::APCI_WRITE, refc::Payload::Short(a & 15), "control write");
        payload_case(r, out, APDU::group_value_write_pd(PdtKnxByte::general(a)), refc::APCI_WRITE, refc::Payload::Long(vec![a]), "byte write");
        payload_case(r, out, APDU::group_value_write_pd(PdtKnxScaledValue::general(a)), refc::APCI_WRITE, refc::Payload::Long(vec![a]), "scaled write");
        payload_case(r, out, APDU::group_value_write_pd(PdtKnxWord::general(b)), refc::APCI_WRITE, refc::Payload::Long(b.to_be_bytes().to_vec()), "word write");
        payload_case(r, out, APDU::group_value_write_pd(PdtKnxInt::general(b as i16)), refc::APCI_WRITE, refc::Payload::Long(b.to_be_bytes().to_vec()), "int write");
        payload_case(r, out, APDU::group_value_write_pd(PdtKnxULong::general(c)), refc::APCI_WRITE, refc::Payload::Long(c.to_be_bytes().to_vec()), "long write");
        let t = PdtKnxFloat::temp(b as f32 / 100.0 - 273.0);
        let tb = t.get_bytes();
        payload_case(r, out, APDU::group_value_write_pd(t), refc::APCI_WRITE, refc::Payload::Long(tb), "float write");
    }
    // indications with all flags and additional infos
    for _ in 0..200 {
        let n = gen_len(r);
        let p = if n == 0 { refc::Payload::Short(r.u8() & 0x3f) } else { refc::Payload::Long(r.bytes(n)) };
        let (src, dst, apci) = (r.corner16(), r.corner16(), *r.pick(&[0u16, 1, 2]));
        let mut d = refc::LData::ind(src, dst, apci, p.clone());
        d.add_info = gen_infos(r);
        // the frame type goes with the length, the other bits are free
        d.ctrl1 = (d.ctrl1 & 0x80) | (r.u8() & 0x7f);
        d.ctrl2 = r.u8() | 0x80;
        out.evals += 1;
        let b = d.bytes();
        out.distinct.push(fnv(&b));
        indication(out, &b, src, dst, apci, &p, d.ctrl1);
    }
    if case.idx == 0 {
        out.sample = Some(format!("write of 3f in short form to 1/2/3: {}", hex(&refc::expected_req(0x0a03, 2, &refc::Payload::Short(0x3f), 3))));
    }
}
