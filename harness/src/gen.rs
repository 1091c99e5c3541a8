//! Generators. Cases hold compact descriptions (a length and a pattern rather than the bytes), so
//! that they shrink well and replay files stay readable.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::wire::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Txt {
    S(String),
    /// exactly `len` bytes of UTF-8, content depending on position and `k`
    Big { len: u32, k: u8 },
}

pub fn big_text(len: usize, k: u8) -> String {
    let mut s = String::with_capacity(len + 4);
    let mut i = 0usize;
    while s.len() < len {
        let room = len - s.len();
        let x = i.wrapping_mul(31).wrapping_add(i / 97).wrapping_add(k as usize);
        if k % 8 == 6 && s.len() >= (k / 32) as usize % 4 && room >= 4 {
            // the same wide character throughout
            s.push(['é', '€', '😀', '\u{800}'][(k / 8) as usize % 4]);
        } else if (k % 4 == 3 && x % 11 == 0 || k % 8 == 5) && room >= 4 {
            s.push(['é', '€', '😀', 'ß'][(x / 11 + i) % 4]);
        } else {
            s.push((b'a' + (x % 26) as u8) as char);
        }
        i += 1;
    }
    // a multi-byte character may have overshot: it never does, room was checked
    debug_assert_eq!(s.len(), len);
    s
}

impl Txt {
    pub fn get(&self) -> String {
        match self {
            Txt::S(s) => s.clone(),
            Txt::Big { len, k } => big_text(*len as usize, *k),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Txt::S(s) => s.len(),
            Txt::Big { len, .. } => *len as usize,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Blob {
    B(Vec<u8>),
    Big { len: u32, k: u8 },
    T(Txt),
    /// as long as needed for the packet's remaining length to be `total`
    Fit { total: u32, k: u8, text: bool },
}

pub fn big_bytes(len: usize, k: u8) -> Vec<u8> {
    (0..len).map(|i| (i.wrapping_mul(37).wrapping_add(i / 251).wrapping_add(k as usize)) as u8).collect()
}

impl Blob {
    /// `rest`: remaining length of the packet without this payload
    pub fn get(&self, rest: usize) -> Vec<u8> {
        match self {
            Blob::B(b) => b.clone(),
            Blob::Big { len, k } => big_bytes(*len as usize, *k),
            Blob::T(t) => t.get().into_bytes(),
            Blob::Fit { total, k, text } => {
                let n = (*total as usize).saturating_sub(rest);
                if *text {
                    big_text(n, *k).into_bytes()
                } else {
                    big_bytes(n, *k)
                }
            }
        }
    }
}

/// Lengths at which encodings change form.
pub fn edge_len(max: u32) -> BoxedStrategy<u32> {
    let edges: Vec<u32> = [0u32, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 4095, 4096, 8191, 8192, 8193, 16382, 16383, 16384, 16385, 32767, 32768, 65533, 65534, 65535]
        .into_iter()
        .filter(|x| *x <= max)
        .collect();
    prop_oneof![3 => proptest::sample::select(edges), 1 => 0..=max.min(3000)].boxed()
}

fn ch() -> BoxedStrategy<char> {
    prop_oneof![
        10 => proptest::char::range('a', 'z'),
        3 => proptest::char::range(' ', '~'),
        1 => proptest::char::range('\u{1}', '\u{1f}'),
        1 => proptest::sample::select(vec!['"', '\\', '\'', '\n', '\t', '\r', '\u{7f}', 'é', '€', '😀', '\u{301}', '\u{200b}', '\u{feff}', '\u{fffd}', '\u{10ffff}', '{', '}', '(', ')', '[', ']', ',']),
        1 => any::<char>().prop_map(|c| if c == '\0' { 'x' } else { c }),
    ]
    .boxed()
}

/// Strings that programs tend to treat specially.
const WORDS: &[&str] = &[
    "", " ", "a", "k", "/", "//", "/a", "a/", "a//b", "#", "+", "a/#", "+/+", "a/+/b", "$", "$SYS", "$SYS/broker/load", "$SYS/#", "$share/g/t",
    "$share/g/#", "$share//t", "$share", "$queue/t", "$local/x", "homeassistant/status", " a", "a ", "\ta\n", "a\r\n", "\u{feff}", "\u{feff}a",
    "a\u{feff}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{7f}", "\u{80}", "\u{9f}", "\u{1}", "e\u{301}", "\u{e9}", "\u{d7ff}", "\u{e000}", "\u{fdd0}", "\u{10000}", "\u{10ffff}",
    "İ", "ß", "A", "Á", "null", "None", "0", "-1", "true", "{}", "[]", "{\"a\":1}", "\"", "\"\"", "\\", "\\n", "'", "%s", "%00", "${x}", "..", "../a", "a=b", "a;b", "a,b", "a:b",
    "\u{202e}a", "😀", "👨\u{200d}👩", "request-id", "content-type", "trace", "response", "reason", "key", "value",
];

/// Few different ones, so that equal ones meet.
fn word() -> BoxedStrategy<Txt> {
    prop_oneof![
        1 => proptest::sample::select(vec!["", "a", "k"]),
        1 => proptest::sample::select(WORDS),
    ]
    .prop_map(|s| Txt::S(s.to_string()))
    .boxed()
}

/// A name and a value; often ones that other pairs have too.
pub fn pair(max: u32) -> BoxedStrategy<(Txt, Txt)> {
    prop_oneof![
        3 => (txt(max), txt(max)),
        2 => (word(), word()),
        1 => (word(), txt(max)),
        1 => txt(max).prop_map(|t| (t.clone(), t)),
    ]
    .boxed()
}

/// Any string MQTT can carry, up to `max` bytes.
pub fn txt(max: u32) -> BoxedStrategy<Txt> {
    prop_oneof![
        3 => word(),
        1 => (word(), "[a-z]{1,3}", word()).prop_map(|(a, m, z)| match (a, z) {
            (Txt::S(a), Txt::S(z)) => Txt::S(a + &m + &z),
            _ => unreachable!(),
        }),
        8 => vec(ch(), 0..12).prop_map(|v| Txt::S(v.into_iter().collect())),
        4 => "[a-z0-9]{1,5}(/[a-z0-9+#$]{0,4}){0,4}".prop_map(Txt::S),
        2 => (edge_len(max.min(1024)), any::<u8>()).prop_map(|(len, k)| Txt::Big { len, k }),
        1 => (edge_len(max), any::<u8>()).prop_map(|(len, k)| Txt::Big { len, k }),
        1 => (12..=max.clamp(12, 400), prop_oneof![1 => any::<u8>(), 3 => any::<u8>().prop_map(|k| k & !7 | 5 + (k & 1))]).prop_map(|(len, k)| Txt::Big { len, k }),
    ]
    .boxed()
}

/// A topic name: not empty, no wildcards.
pub fn topic_name(max: u32) -> BoxedStrategy<Txt> {
    txt(max)
        .prop_map(|t| match t {
            Txt::S(s) => {
                let s: String = s.chars().map(|c| if c == '+' || c == '#' { '_' } else { c }).collect();
                Txt::S(if s.is_empty() { "t".into() } else { s })
            }
            Txt::Big { len, k } => Txt::Big { len: len.max(1), k },
        })
        .boxed()
}

pub fn bytes(max: u32) -> BoxedStrategy<Blob> {
    prop_oneof![
        6 => vec(any::<u8>(), 0..16).prop_map(Blob::B),
        1 => vec(proptest::sample::select(vec![0u8, 0x30, 0x40, 0x7f, 0x80, 0xc0, 0xd0, 0xe0, 0xef, 0xbb, 0xbf, 0xff]), 0..6).prop_map(Blob::B),
        2 => (edge_len(max.min(1024)), any::<u8>()).prop_map(|(len, k)| Blob::Big { len, k }),
        1 => (edge_len(max), any::<u8>()).prop_map(|(len, k)| Blob::Big { len, k }),
    ]
    .boxed()
}

/// Payloads; `Fit` aims the packet's remaining length at the variable-byte-integer boundaries.
pub fn payload(text: bool) -> BoxedStrategy<Blob> {
    let fit = (proptest::sample::select(vec![126u32, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 32768, 65535, 65536, 70000]), any::<u8>())
        .prop_map(move |(total, k)| Blob::Fit { total, k, text });
    // a payload, unlike other text, may have NUL in it
    let nul = ("[a-z\0]{0,4}", proptest::sample::select(vec!["", "\0", "\0\0", "\n", "\r\n", " ", "\u{feff}"])).prop_map(|(s, z)| s + z);
    if text {
        prop_oneof![10 => txt(3000).prop_map(Blob::T), 2 => txt(65535).prop_map(Blob::T), 2 => fit, 1 => nul.prop_map(|s| Blob::T(Txt::S(s)))].boxed()
    } else {
        prop_oneof![10 => bytes(3000), 2 => bytes(65535), 2 => fit, 1 => nul.prop_map(|s| Blob::B(s.into_bytes())), 1 => txt(3000).prop_map(Blob::T)].boxed()
    }
}

/// Publish properties the library models.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum PProp {
    Format(u8),
    Expiry(u32),
    Response(Txt),
    Corr(Blob),
    User(Txt, Txt),
    /// a user property (or several) that brings the property section to `total` bytes
    UserFit { total: u32, k: u8 },
    /// this many small user properties
    Users(u32),
}

fn crowd(n: u32) -> impl Iterator<Item = Prop> {
    (0..n).map(|i| pr(0x26, PVal::Pair(if i % 7 == 0 { String::new() } else { format!("u{}", i % 1000) }, format!("{}", i))))
}

/// Numbers of all magnitudes.
pub fn log_uniform(max: u32) -> BoxedStrategy<u32> {
    let bits = 32 - max.leading_zeros();
    (3..=bits, any::<u32>()).prop_map(move |(b, r)| (r & ((1u64 << b) - 1) as u32).clamp(1, max)).boxed()
}

/// Something that can come again with one thing changed.
pub trait Tweak {
    fn tweak(&mut self, how: u8);
}

fn other_case(t: &mut Txt) {
    if let Txt::S(s) = t {
        *s = s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    }
}

fn tweak_props(p: &mut Vec<PProp>, how: u8) {
    match how % 3 {
        0 => p.reverse(),
        1 => {
            p.pop();
        }
        _ => match p.last_mut() {
            Some(PProp::User(_, v)) => *v = Txt::S("other".into()),
            Some(PProp::Expiry(v)) => *v ^= 1,
            Some(PProp::Response(t)) => other_case(t),
            _ => {}
        },
    }
}

fn tweak_payload(b: &mut Blob, how: u8) {
    match b {
        Blob::B(v) => match how % 2 {
            0 => v.push(how),
            _ => {
                v.pop();
            }
        },
        Blob::T(t) => other_case(t),
        Blob::Big { k, .. } => *k ^= 1,
        Blob::Fit { .. } => {}
    }
}

impl Tweak for InMsg {
    fn tweak(&mut self, how: u8) {
        match how % 10 {
            0 => other_case(&mut self.topic),
            1 => self.retain = !self.retain,
            2 => self.dup = !self.dup,
            3 => self.id = self.id % 65535 + 1,
            4 => self.qos = 1 - self.qos.min(1),
            5 => tweak_props(&mut self.props, how / 10),
            6 => tweak_payload(&mut self.payload, how / 10),
            _ => {}
        }
    }
}

impl Tweak for Pub {
    fn tweak(&mut self, how: u8) {
        match how % 8 {
            0 => other_case(&mut self.topic),
            1 => self.qos = Some(how / 8 % 3),
            2 => tweak_props(&mut self.props, how / 8),
            3 => tweak_payload(&mut self.payload, how / 8),
            _ => {}
        }
    }
}

/// Some elements come again, right away or later, the same or nearly so.
pub fn again<T: Tweak + Clone + std::fmt::Debug + 'static>(v: BoxedStrategy<Vec<T>>) -> BoxedStrategy<Vec<T>> {
    let copies = prop_oneof![
        2 => Just(vec![]),
        1 => vec((any::<prop::sample::Index>(), prop_oneof![2 => Just(None), 1 => any::<prop::sample::Index>().prop_map(Some)], any::<u8>()), 1..4),
    ];
    (v, copies)
        .prop_map(|(mut v, copies)| {
            for (from, to, how) in copies {
                if !v.is_empty() {
                    let i = from.index(v.len());
                    let mut x = v[i].clone();
                    x.tweak(how);
                    let at = to.map_or(i + how as usize % 2, |t| t.index(v.len() + 1));
                    v.insert(at, x);
                }
            }
            v
        })
        .boxed()
}

pub fn resolve_props(ps: &[PProp], head: &[Prop]) -> Vec<Prop> {
    let mut out: Vec<Prop> = head.to_vec();
    let size = |v: &[Prop]| {
        let mut b = vec![];
        v.iter().for_each(|p| put_prop(&mut b, p));
        b.len()
    };
    for p in ps {
        let x = match p {
            PProp::Users(n) => {
                out.extend(crowd(*n));
                continue;
            }
            PProp::Format(v) => pr(0x01, PVal::U8(*v)),
            PProp::Expiry(v) => pr(0x02, PVal::U32(*v)),
            PProp::Response(t) => pr(0x08, PVal::Str(t.get())),
            PProp::Corr(b) => pr(0x09, PVal::Bin(b.get(0))),
            PProp::User(k, v) => pr(0x26, PVal::Pair(k.get(), v.get())),
            PProp::UserFit { total, k } => {
                // as many large ones as it takes
                while *total as usize > size(&out) + 1 + 2 + 1 + 2 + 65535 {
                    out.push(pr(0x26, PVal::Pair("f".into(), big_text(65000, *k))));
                }
                let rest = size(&out) + 1 + 2 + 1 + 2;
                let n = (*total as usize).saturating_sub(rest).min(65535);
                pr(0x26, PVal::Pair("k".into(), big_text(n, *k)))
            }
        };
        out.push(x);
    }
    out
}

fn u32s() -> BoxedStrategy<u32> {
    prop_oneof![any::<u32>(), proptest::sample::select(vec![0, 1, 255, 256, 65535, 65536, u32::MAX, 1 << 31])].boxed()
}

/// A property list in which only user properties repeat. `format`: may contain a payload format.
pub fn pprops(format: bool, max: u32) -> BoxedStrategy<Vec<PProp>> {
    let user = pair(max).prop_map(|(k, v)| PProp::User(k, v));
    let fit = (proptest::sample::select(vec![126u32, 127, 128, 129, 255, 256, 16382, 16383, 16384]), any::<u8>())
        .prop_map(|(total, k)| PProp::UserFit { total, k });
    let mut arms: Vec<(u32, BoxedStrategy<PProp>)> = vec![
        (2, u32s().prop_map(PProp::Expiry).boxed()),
        (2, topic_name(max).prop_map(PProp::Response).boxed()),
        (2, bytes(max).prop_map(PProp::Corr).boxed()),
        (4, user.boxed()),
        (1, fit.boxed()),
    ];
    if max >= 1000 {
        arms.push((1, (2u32..150).prop_map(PProp::Users).boxed()));
    }
    if format {
        arms.push((3, (0u8..2).prop_map(PProp::Format).boxed()));
    }
    vec(proptest::strategy::Union::new_weighted(arms), 0..7)
        .prop_map(|v| {
            let mut out: Vec<PProp> = vec![];
            for p in v {
                let rep = matches!(p, PProp::User(..) | PProp::UserFit { .. } | PProp::Users(_));
                if rep || !out.iter().any(|q| std::mem::discriminant(q) == std::mem::discriminant(&p)) {
                    out.push(p);
                }
            }
            out
        })
        .boxed()
}

// ---------------------------------------------------------------- outbound publishes

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pub {
    pub topic: Txt,
    pub text: bool,
    pub payload: Blob,
    pub qos: Option<u8>,
    pub props: Vec<PProp>,
}

impl Pub {
    pub fn expect_props(&self) -> Vec<Prop> {
        resolve_props(&self.props, &[pr(0x01, PVal::U8(self.text as u8))])
    }
    pub fn payload_bytes(&self) -> Vec<u8> {
        let rest = match &self.payload {
            Blob::Fit { .. } => {
                2 + self.topic.len() + if self.qos.unwrap_or(0) > 0 { 2 } else { 0 } + props_bytes(&self.expect_props()).len()
            }
            // does not matter, and there may be no encoding of the properties
            _ => 0,
        };
        self.payload.get(rest)
    }
    pub fn builder(&self) -> ruq::PublishBuilder {
        use ruq::{Property, PublishBuilder};
        let pl = self.payload_bytes();
        let topic = self.topic.get();
        let mut b = if self.text {
            PublishBuilder::from_str(&topic, std::str::from_utf8(&pl).expect("text payload"))
        } else {
            PublishBuilder::from_bytes(&topic, &pl)
        };
        let mut ps: Vec<Property> = vec![];
        for p in self.expect_props().into_iter().skip(1) {
            ps.push(match (p.id, p.val) {
                (0x02, PVal::U32(v)) => Property::MessageExpiryInterval(v),
                (0x08, PVal::Str(s)) => Property::ResponseTopic(s),
                (0x09, PVal::Bin(v)) => Property::CorrelationData(v),
                (0x26, PVal::Pair(k, v)) => Property::UserProperty(k, v),
                _ => unreachable!(),
            });
        }
        // builder calls in either order must not matter, nor what was overridden
        if self.topic.len() % 2 == 0 {
            if let Some(q) = self.qos {
                if pl.len() % 3 == 0 {
                    b = b.qos(crate::sim::qos((q + 1) % 3));
                }
                b = b.qos(crate::sim::qos(q));
            }
        }
        for p in ps {
            b = b.with_property(p);
        }
        if self.topic.len() % 2 == 1 {
            if let Some(q) = self.qos {
                b = b.qos(crate::sim::qos(q));
            }
        }
        if pl.len() % 5 == 1 {
            // a builder may serve several times
            let c = b.clone();
            drop(b);
            b = c;
        }
        b
    }
    /// Is `p` this publish?
    pub fn matches(&self, p: &CPkt) -> Result<(), String> {
        match p {
            CPkt::Publish { dup, qos, retain, topic, id, props, payload } => {
                let q = self.qos.unwrap_or(0);
                if *dup {
                    return Err("DUP is set".into());
                }
                if *retain {
                    return Err("RETAIN is set".into());
                }
                if *qos != q {
                    return Err(format!("QoS {} instead of {}", qos, q));
                }
                if (*id != 0) != (q > 0) {
                    return Err(format!("identifier {} with QoS {}", id, q));
                }
                if *topic != self.topic.get() {
                    return Err(format!("topic {:?} instead of {:?}", crate::sim::clip(topic), self.topic));
                }
                let want = self.expect_props();
                if *props != want {
                    return Err(format!(
                        "properties {} instead of {}",
                        crate::sim::clip(&format!("{:?}", props)),
                        crate::sim::clip(&format!("{:?}", want))
                    ));
                }
                let pl = self.payload_bytes();
                if *payload != pl {
                    return Err(format!(
                        "payload of {} bytes ({}) instead of {} bytes ({})",
                        payload.len(),
                        crate::sim::hex(payload, 16),
                        pl.len(),
                        crate::sim::hex(&pl, 16)
                    ));
                }
                Ok(())
            }
            other => Err(format!("a {} instead of a PUBLISH", crate::sim::clip(&format!("{:?}", other)))),
        }
    }
}

pub fn publish(max: u32, max_qos: u8) -> BoxedStrategy<Pub> {
    any::<bool>()
        .prop_flat_map(move |text| {
            (
                txt(max),
                Just(text),
                payload(text),
                prop_oneof![1 => Just(None), 4 => (0..=max_qos).prop_map(Some)],
                pprops(false, max),
            )
        })
        .prop_map(|(topic, text, payload, qos, props)| Pub { topic, text, payload, qos, props })
        .boxed()
}

/// A small publish, for histories.
pub fn small_publish(max_qos: u8) -> BoxedStrategy<Pub> {
    (
        "[a-z]{1,3}(/[a-z]{0,3})?",
        any::<bool>(),
        "[a-z]{0,6}",
        0..=max_qos,
        vec(("[a-z]{0,3}", "[a-z]{0,3}").prop_map(|(k, v)| PProp::User(Txt::S(k), Txt::S(v))), 0..2),
    )
        .prop_map(|(t, text, p, q, props)| Pub {
            topic: Txt::S(t),
            text,
            payload: Blob::T(Txt::S(p)),
            qos: Some(q),
            props,
        })
        .boxed()
}

// ---------------------------------------------------------------- inbound

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct InMsg {
    pub topic: Txt,
    pub payload: Blob,
    pub qos: u8,
    pub dup: bool,
    pub retain: bool,
    pub id: u16,
    pub props: Vec<PProp>,
}

impl InMsg {
    pub fn pkt(&self) -> SPkt {
        let props = resolve_props(&self.props, &[]);
        let rest = 2 + self.topic.len() + if self.qos > 0 { 2 } else { 0 } + props_bytes(&props).len();
        SPkt::Publish {
            dup: self.dup && self.qos > 0,
            qos: self.qos,
            retain: self.retain,
            topic: self.topic.get(),
            id: if self.qos > 0 { self.id } else { 0 },
            payload: self.payload.get(rest),
            props,
        }
    }
}

pub fn pktid() -> BoxedStrategy<u16> {
    prop_oneof![
        4 => 1u16..=8,
        2 => proptest::sample::select(vec![1u16, 127, 128, 255, 256, 257, 32767, 32768, 65279, 65280, 65534, 65535]),
        3 => 1u16..=65535,
    ]
    .boxed()
}

pub fn in_msg(max: u32, max_qos: u8) -> BoxedStrategy<InMsg> {
    (pprops(true, max), any::<bool>())
        .prop_flat_map(move |(props, force_text)| {
            let text = props.iter().any(|p| *p == PProp::Format(1));
            (
                topic_name(max),
                payload(text || force_text),
                0..=max_qos,
                any::<bool>(),
                any::<bool>(),
                pktid(),
                Just(props),
            )
        })
        .prop_map(|(topic, payload, qos, dup, retain, id, props)| InMsg { topic, payload, qos, dup, retain, id, props })
        .boxed()
}

pub fn small_in_msg(max_qos: u8) -> BoxedStrategy<InMsg> {
    (
        "[a-z]{1,3}(/[a-z]{0,3})?",
        "[a-z]{0,6}",
        0..=max_qos,
        any::<bool>(),
        any::<bool>(),
        pktid(),
        pprops(true, 40),
    )
        .prop_map(|(t, p, qos, dup, retain, id, props)| InMsg {
            topic: Txt::S(t),
            payload: Blob::T(Txt::S(p)),
            qos,
            dup,
            retain,
            id,
            props: props.into_iter().filter(|p| !matches!(p, PProp::UserFit { .. })).take(2).collect(),
        })
        .boxed()
}

/// Reason-string and user properties of acknowledgements (at most one reason string).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct AProps {
    pub users: Vec<(Txt, Txt)>,
    /// position and text of the reason string
    pub reason: Option<(u8, Txt)>,
    /// further user properties, which bring the list to this many bytes
    #[serde(default)]
    pub fit: Option<(u32, u8)>,
    /// this many small user properties at the end
    #[serde(default)]
    pub crowd: u32,
}

impl AProps {
    pub fn get(&self) -> Vec<Prop> {
        let mut v: Vec<Prop> = self.users.iter().map(|(k, x)| pr(0x26, PVal::Pair(k.get(), x.get()))).collect();
        if let Some((pos, t)) = &self.reason {
            let at = *pos as usize % (v.len() + 1);
            v.insert(at, pr(0x1F, PVal::Str(t.get())));
        }
        if let Some((total, k)) = self.fit {
            let mut n = props_bytes(&v).len();
            let mut more: Vec<Prop> = vec![];
            while total as usize >= n + 7 {
                let l = (total as usize - n - 6).min(65535);
                n += l + 6;
                more.push(pr(0x26, PVal::Pair("f".into(), big_text(l, k))));
            }
            if k % 2 == 0 {
                v.extend(more);
            } else {
                v.splice(0..0, more);
            }
        }
        v.extend(crowd(self.crowd));
        v
    }
    pub fn none() -> Self {
        AProps { users: vec![], reason: None, fit: None, crowd: 0 }
    }
}

pub fn aprops(max: u32) -> BoxedStrategy<AProps> {
    let some = (vec(pair(max), 0..5), proptest::option::of((any::<u8>(), txt(max)))).prop_map(|(users, reason)| AProps { users, reason, fit: None, crowd: 0 }).boxed();
    if max < 1000 {
        return prop_oneof![2 => Just(AProps::none()), 5 => some].boxed();
    }
    // to where the property length, or the remaining length, takes another byte
    let sizes: Vec<u32> = if max < 65535 { (118..130).collect() } else { (118..130).chain(16375..16386).chain([2097145, 2097151, 2097152]).collect() };
    let many = (vec((word(), word()), 5..70), proptest::option::of((any::<u8>(), txt(60)))).prop_map(|(users, reason)| AProps { users, reason, fit: None, crowd: 0 });
    let fit = (vec(pair(20), 0..2), proptest::option::of((any::<u8>(), txt(20))), proptest::sample::select(sizes), any::<u8>())
        .prop_map(|(users, reason, total, k)| AProps { users, reason, fit: Some((total, k)), crowd: 0 });
    prop_oneof![6 => Just(AProps::none()), 15 => some, 2 => many, 2 => fit].boxed()
}

pub fn code(table: &'static [(u8, &'static str)]) -> BoxedStrategy<u8> {
    let codes: Vec<u8> = table.iter().map(|(c, _)| *c).collect();
    prop_oneof![1 => Just(codes[0]), 3 => proptest::sample::select(codes)].boxed()
}

/// Acknowledgement packets in every legal form.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum InAck {
    Suback { id: u16, reason: u8, props: AProps },
    Unsuback { id: u16, reason: u8, props: AProps },
    /// form 0: identifier only, 1: with reason, 2: with properties
    Puback { id: u16, form: u8, reason: u8, props: AProps },
}

impl InAck {
    pub fn pkt(&self) -> SPkt {
        match self {
            InAck::Suback { id, reason, props } => SPkt::Suback { id: *id, reason: *reason, props: props.get() },
            InAck::Unsuback { id, reason, props } => SPkt::Unsuback { id: *id, reason: *reason, props: props.get() },
            InAck::Puback { id, form, reason, props } => SPkt::Puback {
                id: *id,
                reason: if *form > 0 { Some(*reason) } else { None },
                props: if *form > 1 { Some(props.get()) } else { None },
            },
        }
    }
}

pub fn in_ack(max: u32) -> BoxedStrategy<InAck> {
    prop_oneof![
        (pktid(), code(SUBACK_REASONS), aprops(max)).prop_map(|(id, reason, props)| InAck::Suback { id, reason, props }),
        (pktid(), code(UNSUBACK_REASONS), aprops(max)).prop_map(|(id, reason, props)| InAck::Unsuback { id, reason, props }),
        (pktid(), 0u8..3, code(PUBACK_REASONS), aprops(max))
            .prop_map(|(id, form, reason, props)| InAck::Puback { id, form, reason, props }),
    ]
    .boxed()
}
