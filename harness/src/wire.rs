//! An independent reference implementation of the MQTT 5 wire format, written from the
//! specification: strict decoding of what a client sends, encoding of what a broker sends,
//! and classification of arbitrary broker bytes.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum PVal {
    U8(u8),
    U16(u16),
    U32(u32),
    Vbi(u32),
    Str(String),
    Bin(Vec<u8>),
    Pair(String, String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Prop {
    pub id: u8,
    pub val: PVal,
}

pub fn pr(id: u8, val: PVal) -> Prop {
    Prop { id, val }
}

#[derive(Clone, Copy, PartialEq)]
pub enum PKind {
    U8,
    U16,
    U32,
    Vbi,
    Str,
    Bin,
    Pair,
}

/// Kind of value of each property MQTT 5 defines (table 2-4).
pub fn prop_kind(id: u8) -> Option<PKind> {
    use PKind::*;
    Some(match id {
        0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2A => U8,
        0x13 | 0x21 | 0x22 | 0x23 => U16,
        0x02 | 0x11 | 0x18 | 0x27 => U32,
        0x0B => Vbi,
        0x03 | 0x08 | 0x12 | 0x15 | 0x1A | 0x1C | 0x1F => Str,
        0x09 | 0x16 => Bin,
        0x26 => Pair,
        _ => return None,
    })
}

/// Properties the specification allows in a packet of this type (by packet type number).
pub fn legal_props(ptype: u8) -> &'static [u8] {
    match ptype {
        1 => &[0x11, 0x15, 0x16, 0x17, 0x19, 0x21, 0x22, 0x26, 0x27],
        2 => &[
            0x11, 0x12, 0x13, 0x15, 0x16, 0x1A, 0x1C, 0x1F, 0x21, 0x22, 0x24, 0x25, 0x26, 0x27, 0x28,
            0x29, 0x2A,
        ],
        3 => &[0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x23, 0x26],
        4 | 5 | 6 | 7 | 9 | 11 => &[0x1F, 0x26],
        8 => &[0x0B, 0x26],
        10 => &[0x26],
        14 => &[0x11, 0x1C, 0x1F, 0x26],
        15 => &[0x15, 0x16, 0x1F, 0x26],
        _ => &[],
    }
}

/// Properties the library under test models in packets it receives.
pub fn modelled_props(ptype: u8) -> &'static [u8] {
    match ptype {
        2 | 4 | 9 | 11 | 14 => &[0x1F, 0x26],
        3 => &[0x01, 0x02, 0x08, 0x09, 0x26],
        _ => &[],
    }
}

pub const CONNACK_REASONS: &[(u8, &str)] = &[
    (0, "Success"),
    (128, "UnspecifiedError"),
    (129, "MalformedPacket"),
    (130, "ProtocolError"),
    (131, "ImplementationSpecificError"),
    (132, "UnsupportedProtocolVersion"),
    (133, "ClientIdentifierNotValid"),
    (134, "BadUserNameOrPassword"),
    (135, "NotAuthorized"),
    (136, "ServerUnavailable"),
    (137, "ServerBusy"),
    (138, "Banned"),
    (140, "BadAuthenticationMethod"),
    (144, "TopicNameInvalid"),
    (149, "PacketTooLarge"),
    (151, "QuotaExceeded"),
    (153, "PayloadFormatInvalid"),
    (154, "RetainNotSupported"),
    (155, "QoSNotSupported"),
    (156, "UseAnotherServer"),
    (157, "ServerMoved"),
    (159, "ConnectionRateExceeded"),
];
pub const SUBACK_REASONS: &[(u8, &str)] = &[
    (0, "QoS0"),
    (1, "QoS1"),
    (2, "QoS2"),
    (128, "UnspecifiedError"),
    (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"),
    (143, "TopicFilterInvalid"),
    (145, "PacketIdentifierInUse"),
    (151, "QuotaExceeded"),
    (158, "SharedSubsNotSupported"),
    (161, "SubIdsNotSupported"),
    (162, "WildcardSubsNotSupported"),
];
pub const UNSUBACK_REASONS: &[(u8, &str)] = &[
    (0, "Success"),
    (17, "NoSubscriptionExisted"),
    (128, "UnspecifiedError"),
    (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"),
    (143, "TopicFilterInvalid"),
    (145, "PacketIdentifierInUse"),
];
pub const PUBACK_REASONS: &[(u8, &str)] = &[
    (0, "Success"),
    (16, "NoMatchingSubscibers"),
    (128, "UnspecifiedError"),
    (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"),
    (144, "TopicNameInvalid"),
    (145, "PacketIdentifierInUse"),
    (151, "QuotaExceeded"),
    (153, "PayloadFormatInvalid"),
];
/// Reasons a server may send (table 3-13 less "disconnect with will").
pub const DISCONNECT_REASONS: &[(u8, &str)] = &[
    (0, "Normal"),
    (128, "UnspecifiedError"),
    (129, "MalformedPacket"),
    (130, "ProtocolError"),
    (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"),
    (137, "ServerBusy"),
    (139, "ServerShuttingDown"),
    (141, "KeepAliveTimeout"),
    (142, "SessionTakenOver"),
    (143, "TopicFilterInvalid"),
    (144, "TopicNameInvalid"),
    (147, "ReceiveMaximumExceeded"),
    (148, "TopicAliasInvalid"),
    (149, "PacketTooLarge"),
    (150, "MessageRateTooHigh"),
    (151, "QuotaExceeded"),
    (152, "AdministrativeAction"),
    (153, "PayloadFormatInvalid"),
    (154, "RetainNotSupported"),
    (155, "QoSNotSupported"),
    (156, "UseAnotherServer"),
    (157, "ServerMoved"),
    (158, "SharedSubsNotSupported"),
    (159, "ConnectionRateExceeded"),
    (160, "MaximumConnectTime"),
    (161, "SubscrpitionIdsNotSupported"),
    (162, "WildcardSubsNotSupported"),
];

pub fn reason_name(table: &[(u8, &'static str)], code: u8) -> Option<&'static str> {
    table.iter().find(|(c, _)| *c == code).map(|(_, n)| *n)
}

// ---------------------------------------------------------------- encoding (broker side)

pub fn vbi(mut n: u32) -> Vec<u8> {
    assert!(n <= 268_435_455);
    let mut v = vec![];
    loop {
        let b = (n & 0x7F) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

fn put_bin(out: &mut Vec<u8>, b: &[u8]) {
    assert!(b.len() <= 65535);
    out.push((b.len() >> 8) as u8);
    out.push((b.len() & 0xFF) as u8);
    out.extend_from_slice(b);
}

pub fn put_prop(out: &mut Vec<u8>, p: &Prop) {
    out.push(p.id);
    match &p.val {
        PVal::U8(v) => out.push(*v),
        PVal::U16(v) => out.extend_from_slice(&v.to_be_bytes()),
        PVal::U32(v) => out.extend_from_slice(&v.to_be_bytes()),
        PVal::Vbi(v) => out.extend_from_slice(&vbi(*v)),
        PVal::Str(s) => put_bin(out, s.as_bytes()),
        PVal::Bin(b) => put_bin(out, b),
        PVal::Pair(k, v) => {
            put_bin(out, k.as_bytes());
            put_bin(out, v.as_bytes());
        }
    }
}

pub fn props_bytes(ps: &[Prop]) -> Vec<u8> {
    let mut body = vec![];
    for p in ps {
        put_prop(&mut body, p);
    }
    let mut out = vbi(body.len() as u32);
    out.extend_from_slice(&body);
    out
}

pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut out = vec![first];
    out.extend_from_slice(&vbi(body.len() as u32));
    out.extend_from_slice(body);
    out
}

/// Packets a broker sends. Acks with `props: None` use the short form without a property length;
/// with `reason: None` also without a reason code.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SPkt {
    Connack { sp: bool, reason: u8, props: Vec<Prop> },
    Publish { dup: bool, qos: u8, retain: bool, topic: String, id: u16, props: Vec<Prop>, payload: Vec<u8> },
    Puback { id: u16, reason: Option<u8>, props: Option<Vec<Prop>> },
    Suback { id: u16, props: Vec<Prop>, reason: u8 },
    Unsuback { id: u16, props: Vec<Prop>, reason: u8 },
    Pingresp,
    Disconnect { reason: Option<u8>, props: Option<Vec<Prop>> },
}

impl SPkt {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![];
        match self {
            SPkt::Connack { sp, reason, props } => {
                b.push(*sp as u8);
                b.push(*reason);
                b.extend_from_slice(&props_bytes(props));
                frame(0x20, &b)
            }
            SPkt::Publish { dup, qos, retain, topic, id, props, payload } => {
                put_bin(&mut b, topic.as_bytes());
                if *qos > 0 {
                    b.extend_from_slice(&id.to_be_bytes());
                }
                b.extend_from_slice(&props_bytes(props));
                b.extend_from_slice(payload);
                frame(0x30 | (*dup as u8) << 3 | qos << 1 | *retain as u8, &b)
            }
            SPkt::Puback { id, reason, props } => {
                b.extend_from_slice(&id.to_be_bytes());
                if let Some(r) = reason {
                    b.push(*r);
                    if let Some(p) = props {
                        b.extend_from_slice(&props_bytes(p));
                    }
                }
                frame(0x40, &b)
            }
            SPkt::Suback { id, props, reason } => {
                b.extend_from_slice(&id.to_be_bytes());
                b.extend_from_slice(&props_bytes(props));
                b.push(*reason);
                frame(0x90, &b)
            }
            SPkt::Unsuback { id, props, reason } => {
                b.extend_from_slice(&id.to_be_bytes());
                b.extend_from_slice(&props_bytes(props));
                b.push(*reason);
                frame(0xB0, &b)
            }
            SPkt::Pingresp => vec![0xD0, 0],
            SPkt::Disconnect { reason, props } => {
                if let Some(r) = reason {
                    b.push(*r);
                    if let Some(p) = props {
                        b.extend_from_slice(&props_bytes(p));
                    }
                }
                frame(0xE0, &b)
            }
        }
    }
}

// ---------------------------------------------------------------- decoding primitives

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub i: usize,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    /// malformed by the specification, in a way the property lists name
    Malformed(&'static str),
    /// something the specification forbids or the library does not support, but about which the
    /// listed properties promise nothing more than "no panic"
    Gray(&'static str),
}
use Bad::*;

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, i: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.i
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        if self.left() < n {
            return Err(Malformed("length overruns the packet"));
        }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> Result<u8, Bad> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, Bad> {
        let b = self.take(2)?;
        Ok((b[0] as u16) << 8 | b[1] as u16)
    }
    pub fn u32(&mut self) -> Result<u32, Bad> {
        Ok((self.u16()? as u32) << 16 | self.u16()? as u32)
    }
    pub fn bin(&mut self) -> Result<&'a [u8], Bad> {
        let n = self.u16()? as usize;
        self.take(n)
    }
    pub fn string(&mut self) -> Result<String, Bad> {
        let b = self.bin()?;
        match std::str::from_utf8(b) {
            Ok(s) if s.contains('\0') => Err(Malformed("U+0000 in a string")),
            Ok(s) => Ok(s.to_owned()),
            Err(_) => Err(Malformed("invalid UTF-8")),
        }
    }
    /// (value, minimal encoding?)
    pub fn vbi(&mut self) -> Result<(u32, bool), Bad> {
        let mut v = 0u32;
        for k in 0..4 {
            let b = self.u8()?;
            v |= ((b & 0x7F) as u32) << (7 * k);
            if b & 0x80 == 0 {
                return Ok((v, k == 0 || b != 0));
            }
        }
        Err(Malformed("variable byte integer longer than 4 bytes"))
    }
    /// Property list for packet type `ptype`; `allowed` = accepted ids, `legal` = ids legal by the spec
    pub fn props(&mut self, allowed: &[u8], legal: &[u8], gray: &mut Option<&'static str>) -> Result<Vec<Prop>, Bad> {
        let (len, minimal) = self.vbi()?;
        if !minimal {
            gray.get_or_insert("non-minimal variable byte integer");
        }
        let body = self.take(len as usize)?;
        let mut r = Rd::new(body);
        let mut out: Vec<Prop> = vec![];
        while r.left() > 0 {
            let id = r.u8()?;
            let kind = match prop_kind(id) {
                None => return Err(Malformed("unknown property")),
                Some(k) => k,
            };
            if !allowed.contains(&id) {
                if legal.contains(&id) {
                    return Err(Gray("property the library does not model"));
                }
                return Err(Malformed("property not allowed in this packet"));
            }
            let val = match kind {
                PKind::U8 => PVal::U8(r.u8()?),
                PKind::U16 => PVal::U16(r.u16()?),
                PKind::U32 => PVal::U32(r.u32()?),
                PKind::Vbi => {
                    let (v, m) = r.vbi()?;
                    if !m {
                        gray.get_or_insert("non-minimal variable byte integer");
                    }
                    PVal::Vbi(v)
                }
                PKind::Str => PVal::Str(r.string()?),
                PKind::Bin => PVal::Bin(r.bin()?.to_vec()),
                PKind::Pair => {
                    let k = r.string()?;
                    PVal::Pair(k, r.string()?)
                }
            };
            if id != 0x26 && out.iter().any(|p| p.id == id) {
                gray.get_or_insert("repeated property");
            }
            if id == 0x01 && !matches!(val, PVal::U8(0) | PVal::U8(1)) {
                gray.get_or_insert("payload format other than 0 or 1");
            }
            out.push(Prop { id, val });
        }
        Ok(out)
    }
}

// ---------------------------------------------------------------- client -> broker, strict

#[derive(Clone, Debug, PartialEq)]
pub enum CPkt {
    Connect { level: u8, flags: u8, keep_alive: u16, props: Vec<Prop>, client_id: String },
    Publish { dup: bool, qos: u8, retain: bool, topic: String, id: u16, props: Vec<Prop>, payload: Vec<u8> },
    /// PUBACK, PUBREC, PUBREL, PUBCOMP (type 4..=7)
    Ack { ptype: u8, id: u16, reason: u8, props: Vec<Prop> },
    Subscribe { id: u16, props: Vec<Prop>, filters: Vec<(String, u8)> },
    Unsubscribe { id: u16, props: Vec<Prop>, filters: Vec<String> },
    Pingreq,
    Disconnect { reason: u8, props: Vec<Prop> },
    Auth,
}

/// Length of the first complete frame in `b`, None if more bytes are needed.
pub fn frame_len(b: &[u8]) -> Result<Option<usize>, Bad> {
    if b.len() < 2 {
        return Ok(None);
    }
    let mut v = 0usize;
    for k in 0..4 {
        match b.get(1 + k) {
            None => return Ok(None),
            Some(x) => {
                v |= ((x & 0x7F) as usize) << (7 * k);
                if x & 0x80 == 0 {
                    let total = 2 + k + v;
                    return Ok(if b.len() >= total { Some(total) } else { None });
                }
            }
        }
    }
    Err(Malformed("remaining length longer than 4 bytes"))
}

/// Decodes one complete frame from a client. Anything short of well-formed is an error.
pub fn decode_client(f: &[u8]) -> Result<CPkt, String> {
    decode_client_(f).map_err(|e| format!("{:?}", e))
}

fn decode_client_(f: &[u8]) -> Result<CPkt, Bad> {
    let mut r = Rd::new(f);
    let first = r.u8()?;
    let ptype = first >> 4;
    let flags = first & 15;
    let (_, minimal) = r.vbi()?;
    if !minimal {
        return Err(Malformed("non-minimal remaining length"));
    }
    let want_flags = match ptype {
        3 => flags,
        6 | 8 | 10 => 2,
        _ => 0,
    };
    if flags != want_flags {
        return Err(Malformed("reserved header flags"));
    }
    let mut gray = None;
    let legal = legal_props(ptype);
    let pkt = match ptype {
        1 => {
            if r.bin()? != b"MQTT" {
                return Err(Malformed("protocol name"));
            }
            let level = r.u8()?;
            let cf = r.u8()?;
            let keep_alive = r.u16()?;
            let props = r.props(legal, legal, &mut gray)?;
            let client_id = r.string()?;
            CPkt::Connect { level, flags: cf, keep_alive, props, client_id }
        }
        3 => {
            let qos = flags >> 1 & 3;
            if qos == 3 {
                return Err(Malformed("QoS 3"));
            }
            let topic = r.string()?;
            let id = if qos > 0 { r.u16()? } else { 0 };
            if qos > 0 && id == 0 {
                return Err(Malformed("zero packet identifier"));
            }
            let props = r.props(legal, legal, &mut gray)?;
            let payload = r.take(r.left())?.to_vec();
            CPkt::Publish { dup: flags & 8 != 0, qos, retain: flags & 1 != 0, topic, id, props, payload }
        }
        4..=7 => {
            let id = r.u16()?;
            if id == 0 {
                return Err(Malformed("zero packet identifier"));
            }
            let reason = if r.left() > 0 { r.u8()? } else { 0 };
            let props = if r.left() > 0 { r.props(legal, legal, &mut gray)? } else { vec![] };
            CPkt::Ack { ptype, id, reason, props }
        }
        8 | 10 => {
            let id = r.u16()?;
            if id == 0 {
                return Err(Malformed("zero packet identifier"));
            }
            let props = r.props(legal, legal, &mut gray)?;
            if r.left() == 0 {
                return Err(Malformed("no topic filter"));
            }
            if ptype == 8 {
                let mut filters = vec![];
                while r.left() > 0 {
                    let t = r.string()?;
                    filters.push((t, r.u8()?));
                }
                CPkt::Subscribe { id, props, filters }
            } else {
                let mut filters = vec![];
                while r.left() > 0 {
                    filters.push(r.string()?);
                }
                CPkt::Unsubscribe { id, props, filters }
            }
        }
        12 => CPkt::Pingreq,
        14 => {
            let reason = if r.left() > 0 { r.u8()? } else { 0 };
            let props = if r.left() > 0 { r.props(legal, legal, &mut gray)? } else { vec![] };
            CPkt::Disconnect { reason, props }
        }
        15 => {
            r.take(r.left())?;
            CPkt::Auth
        }
        _ => return Err(Malformed("packet type a client may not send")),
    };
    if let Some(g) = gray {
        return Err(Malformed(g));
    }
    if r.left() > 0 {
        return Err(Malformed("bytes left over in the packet"));
    }
    Ok(pkt)
}

// ---------------------------------------------------------------- broker -> client, classification

/// Classifies one complete frame from a broker (in a connected session, or the first one).
pub fn classify(f: &[u8]) -> Result<SPkt, Bad> {
    let mut r = Rd::new(f);
    let first = r.u8()?;
    let ptype = first >> 4;
    let flags = first & 15;
    let (_, minimal) = r.vbi()?;
    let mut gray: Option<&'static str> = None;
    if !minimal {
        gray.get_or_insert("non-minimal remaining length");
    }
    match ptype {
        0 => return Err(Malformed("unassigned packet type")),
        1 | 8 | 10 | 12 => return Err(Malformed("packet only a client may send")),
        5 | 6 | 7 | 15 => return Err(Gray("packet type the library does not support")),
        3 => {}
        _ if flags != 0 => return Err(Malformed("reserved header flags")),
        _ => {}
    }
    let ok = modelled_props(ptype);
    let legal = legal_props(ptype);
    let reason = |r: &mut Rd, t: &[(u8, &'static str)]| -> Result<u8, Bad> {
        let c = r.u8()?;
        if reason_name(t, c).is_none() {
            return Err(Malformed("unknown reason code"));
        }
        Ok(c)
    };
    let id = |r: &mut Rd| -> Result<u16, Bad> {
        match r.u16()? {
            0 => Err(Malformed("zero packet identifier")),
            n => Ok(n),
        }
    };
    let pkt = match ptype {
        2 => {
            let fl = r.u8()?;
            if fl > 1 {
                return Err(Malformed("reserved CONNACK flags"));
            }
            let reason = reason(&mut r, CONNACK_REASONS)?;
            let props = r.props(ok, legal, &mut gray)?;
            SPkt::Connack { sp: fl == 1, reason, props }
        }
        3 => {
            let qos = flags >> 1 & 3;
            if qos == 3 {
                return Err(Malformed("QoS 3"));
            }
            let topic = r.string()?;
            let id = if qos > 0 { id(&mut r)? } else { 0 };
            let props = r.props(ok, legal, &mut gray)?;
            let payload = r.take(r.left())?.to_vec();
            if qos == 2 {
                gray.get_or_insert("QoS 2");
            }
            if qos == 0 && flags & 8 != 0 {
                gray.get_or_insert("DUP with QoS 0");
            }
            if topic.is_empty() || topic.contains(|c| c == '+' || c == '#') {
                gray.get_or_insert("topic name");
            }
            let text = props.iter().any(|p| p.id == 1 && p.val == PVal::U8(1));
            if text && std::str::from_utf8(&payload).is_err() {
                // "the receiver MAY validate": allowed to reject or to accept
                gray.get_or_insert("text payload is not UTF-8");
            }
            SPkt::Publish { dup: flags & 8 != 0, qos, retain: flags & 1 != 0, topic, id, props, payload }
        }
        4 => {
            let id = id(&mut r)?;
            let mut rs = None;
            let mut props = None;
            if r.left() > 0 {
                rs = Some(reason(&mut r, PUBACK_REASONS)?);
                if r.left() > 0 {
                    props = Some(r.props(ok, legal, &mut gray)?);
                }
            }
            SPkt::Puback { id, reason: rs, props }
        }
        9 => {
            let id = id(&mut r)?;
            let props = r.props(ok, legal, &mut gray)?;
            let reason = reason(&mut r, SUBACK_REASONS)?;
            SPkt::Suback { id, props, reason }
        }
        11 => {
            let id = id(&mut r)?;
            let props = r.props(ok, legal, &mut gray)?;
            let reason = reason(&mut r, UNSUBACK_REASONS)?;
            SPkt::Unsuback { id, props, reason }
        }
        13 => SPkt::Pingresp,
        14 => {
            let mut rs = None;
            let mut props = None;
            if r.left() > 0 {
                let c = r.u8()?;
                if c == 4 {
                    gray.get_or_insert("a reason only a client may send");
                } else if reason_name(DISCONNECT_REASONS, c).is_none() {
                    return Err(Malformed("unknown reason code"));
                }
                rs = Some(c);
                if r.left() > 0 {
                    props = Some(r.props(ok, legal, &mut gray)?);
                }
            }
            SPkt::Disconnect { reason: rs, props }
        }
        _ => unreachable!(),
    };
    if r.left() > 0 {
        gray.get_or_insert("bytes left over in the packet");
    }
    match gray {
        Some(g) => Err(Gray(g)),
        None => Ok(pkt),
    }
}
