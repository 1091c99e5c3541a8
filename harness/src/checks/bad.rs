//! C10, C11: what a broken or hostile broker can and cannot do.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::inbound::{cut, last_piece, piece, send_cut, Cut, Piece};
use super::notes;
use crate::engine::{phase, Env, Obs, Report};
use crate::gen::*;
use crate::sim::*;
use crate::wire::*;
use crate::{ensure, violation};

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Chunk {
    P(Piece),
    Bytes(Vec<u8>),
    /// this header byte, remaining length `body.len() + over`, this body
    Typed { first: u8, over: i8, body: Vec<u8> },
    /// a header byte and raw length bytes
    Len { first: u8, len: Vec<u8> },
    /// a well-formed packet cut short, its lengths left as they were
    Torn { p: Piece, keep: u16 },
    /// the first bytes of a well-formed packet under a header that says that is all there is
    Short { p: Piece, keep: u16 },
    /// a legal packet the library may not support; see `odd`
    Odd(u8),
    /// a packet with `n` properties of one kind
    Crowd { first: u8, kind: u8, n: u32, damage: u8, at: u16, xor: u8 },
    Cmd(u8),
    Step(u8),
}

/// Legal MQTT 5 packets beyond the library's subset.
fn odd(k: u8) -> Vec<u8> {
    let publ = |qos: u8, props: Vec<Prop>| {
        SPkt::Publish { dup: false, qos, retain: false, topic: "t".into(), id: if qos > 0 { 7 } else { 0 }, props, payload: b"x".to_vec() }.encode()
    };
    let all: Vec<Vec<u8>> = vec![
        publ(2, vec![]),
        publ(2, vec![pr(0x26, PVal::Pair("a".into(), "b".into()))]),
        frame(0x50, &[0, 1]),
        frame(0x50, &[0, 1, 0]),
        frame(0x62, &[0, 1]),
        frame(0x70, &[0, 1]),
        frame(0x70, &[0, 9, 0, 0]),
        frame(0xF0, &[0x18, 0x00]),
        frame(0xF0, &[]),
        publ(0, vec![pr(0x23, PVal::U16(1))]),
        publ(0, vec![pr(0x0B, PVal::Vbi(300))]),
        publ(1, vec![pr(0x03, PVal::Str("text/plain".into()))]),
        SPkt::Disconnect { reason: Some(0x9D), props: Some(vec![pr(0x1C, PVal::Str("other".into()))]) }.encode(),
        SPkt::Connack { sp: false, reason: 0, props: vec![pr(0x13, PVal::U16(30))] }.encode(),
        SPkt::Connack { sp: true, reason: 0, props: vec![pr(0x21, PVal::U16(10)), pr(0x27, PVal::U32(1 << 20)), pr(0x25, PVal::U8(0)), pr(0x12, PVal::Str("id".into()))] }.encode(),
        SPkt::Connack { sp: false, reason: 0, props: vec![] }.encode(),
        frame(0x10, b"\0\x04MQTT\x05\x02\0\x0a\0\0\0"),
        frame(0x82, &[0, 1, 0, 0, 1, b'f', 0]),
        frame(0xA2, &[0, 1, 0, 0, 1, b'f']),
        frame(0xC0, &[]),
        frame(0x00, &[]),
    ];
    all[k as usize % all.len()].clone()
}
const N_ODD: u8 = 21;

impl Chunk {
    fn bytes(&self) -> Option<Vec<u8>> {
        Some(match self {
            Chunk::P(p) => p.bytes(),
            Chunk::Bytes(b) => b.clone(),
            Chunk::Typed { first, over, body } => {
                let mut b = vec![*first];
                b.extend(vbi((body.len() as i64 + *over as i64).max(0) as u32));
                b.extend_from_slice(body);
                b
            }
            Chunk::Len { first, len } => {
                let mut b = vec![*first];
                b.extend_from_slice(len);
                b
            }
            Chunk::Torn { p, keep } => {
                let b = p.bytes();
                let k = *keep as usize % b.len();
                b[..k].to_vec()
            }
            Chunk::Short { p, keep } => {
                let b = p.bytes();
                let body = match Rd::new(&b[1..]).vbi() {
                    Ok((n, _)) => b[b.len() - (n as usize).min(b.len() - 1)..].to_vec(),
                    Err(_) => b[1..].to_vec(),
                };
                let k = *keep as usize % (body.len() + 1);
                frame(b[0], &body[..k])
            }
            Chunk::Odd(k) => odd(*k),
            Chunk::Crowd { first, kind, n, damage, at, xor } => {
                let one: &[u8] = match kind {
                    0 => &[0x26, 0, 0, 0, 0],
                    1 => &[0x26, 0, 1, b'a', 0, 1, b'b'],
                    2 => &[0x1F, 0, 0],
                    3 => &[0x01, 0],
                    4 => &[0x02, 0, 0, 0, 9],
                    _ => &[0x09, 0, 0],
                };
                let ps: Vec<u8> = one.iter().copied().cycle().take(one.len() * *n as usize).collect();
                let mut b = match first {
                    0x20 => vec![0, 0],
                    0x30 => vec![0, 1, b't'],
                    0x32 => vec![0, 1, b't', 0, 7],
                    0x40 => vec![0, 1, 0],
                    0xE0 => vec![0x8B],
                    _ => vec![0, 1],
                };
                b.extend(vbi(ps.len() as u32));
                b.extend_from_slice(&ps);
                if matches!(first, 0x90 | 0xB0) {
                    b.push(0);
                }
                let i = (*at as usize * b.len()) >> 16;
                match damage {
                    0 => b[i] ^= xor,
                    1 => b.truncate(i),
                    _ => {}
                }
                let mut b = frame(*first, &b);
                if *damage == 2 {
                    b.truncate(b.len() - 1 - i.min(b.len() - 1));
                }
                b
            }
            Chunk::Cmd(_) | Chunk::Step(_) => return None,
        })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadCase {
    seed: u64,
    /// CONNACK first?
    connack: bool,
    chunks: Vec<Chunk>,
    cut: Cut,
    /// 0: the broker closes, 1: it resets, 2: it stays, and time passes until a ping falls due
    then: u8,
}

/// Is the event loop still at work? It may have ended by now.
async fn still_serving(s: &mut Sess) -> Res {
    let t = "harness/fence/probe";
    if s.end.is_some() {
        return Ok(());
    }
    let c = s.client();
    let r = guarded(|| c.publish(ruq::PublishBuilder::from_bytes(t, &[])));
    match r {
        Err(p) => violation!("client call panicked: {}", p),
        // a full queue or an event loop that ended meanwhile
        Ok(Err(_)) => {
            s.settle().await;
            return Ok(());
        }
        Ok(Ok(())) => {}
    }
    s.wait_(
        "a publish to be sent in spite of the bytes received (or the session to end)",
        |s| s.end.is_some() || s.pkts.iter().any(|(_, p)| matches!(p, CPkt::Publish { topic, .. } if topic == t)),
        true,
    )
    .await
}

fn run_bad(c: &BadCase, obs: &mut Obs) -> Res {
    let mut total = 0;
    let end = run(c.seed, async {
        let mut s = Sess::new()?;
        s.await_connect().await?;
        if c.connack {
            s.send(&SPkt::Connack { sp: false, reason: 0, props: vec![] }.encode()).await?;
            s.wait("the CONNACK notification", |s| !s.notifs.is_empty()).await?;
        }
        let mut batch: Vec<Vec<u8>> = vec![];
        for ch in &c.chunks {
            match ch {
                Chunk::Cmd(k) => {
                    let cl = s.client();
                    let r = guarded(|| match k % 5 {
                        0 => cl.subscribe("a/b", qos(1)),
                        1 => cl.unsubscribe("a/b"),
                        q => cl.publish(ruq::PublishBuilder::from_str("a/b", "x").qos(qos(q - 2))),
                    });
                    if let Err(p) = r {
                        violation!("client call panicked: {}", p);
                    }
                }
                Chunk::Step(n) => {
                    send_cut(&mut s, &std::mem::take(&mut batch), &c.cut).await?;
                    for _ in 0..*n {
                        s.step().await;
                    }
                }
                other => {
                    let b = other.bytes().unwrap();
                    total += b.len();
                    batch.push(b);
                }
            }
        }
        send_cut(&mut s, &batch, &c.cut).await?;
        s.settle().await;
        s.no_panic()?;
        // before CONNACK nothing may be sent: only its end can be asked for
        let in_session = s.notifs.iter().any(|n| n.kind == "ConnAck");
        if s.end.is_none() && in_session {
            still_serving(&mut s).await?;
        }
        if c.then == 2 && s.end.is_none() && in_session {
            s.pkts.clear();
            s.advance(9000).await;
            s.wait_("a ping (or the end of the session)", |s| s.end.is_some() || !s.pkts.is_empty(), true).await?;
        }
        if c.then == 1 {
            s.abort();
        } else {
            s.shutdown_write();
        }
        let e = s.wait_end("the event loop to complete after the broker closed the connection").await?;
        s.no_panic()?;
        Ok(e)
    })?;
    obs.nontrivial = total > 0;
    obs.count("hostile bytes", total as u64);
    obs.label(match end {
        End::Ok => "ends with ok",
        End::Err(_) => "ends with an error",
        End::Panic(_) => "panics",
    });
    for ch in &c.chunks {
        obs.label(match ch {
            Chunk::P(_) => "packet, perhaps damaged",
            Chunk::Bytes(_) => "random bytes",
            Chunk::Typed { .. } => "random body under a header",
            Chunk::Len { .. } => "odd length bytes",
            Chunk::Torn { .. } => "torn packet",
            Chunk::Short { .. } => "shortened packet",
            Chunk::Odd(_) => "unsupported feature",
            Chunk::Crowd { .. } => "very many properties",
            Chunk::Cmd(_) => "command",
            Chunk::Step(_) => "pause",
        });
    }
    obs.label(if c.connack { "in session" } else { "before CONNACK" });
    Ok(())
}

/// A byte that means something somewhere.
fn byte() -> BoxedStrategy<u8> {
    prop_oneof![
        3 => 0u8..8,
        2 => proptest::sample::select(vec![0x01u8, 0x02, 0x08, 0x09, 0x1F, 0x26, 0x7F, 0x80, 0x81, 0xFF, 0xFE]),
        2 => any::<u8>()
    ]
    .boxed()
}

fn header() -> BoxedStrategy<u8> {
    prop_oneof![
        4 => proptest::sample::select(vec![0x20u8, 0x30, 0x31, 0x32, 0x34, 0x36, 0x3B, 0x40, 0x90, 0xB0, 0xD0, 0xE0]),
        1 => proptest::sample::select(vec![0x00u8, 0x10, 0x50, 0x62, 0x70, 0x82, 0xA2, 0xC0, 0xF0]),
        1 => any::<u8>(),
    ]
    .boxed()
}

fn chunk() -> BoxedStrategy<Chunk> {
    let any_piece = || prop_oneof![3 => piece(300), 2 => last_piece()];
    prop_oneof![
        3 => any_piece().prop_map(Chunk::P),
        2 => vec(byte(), 1..24).prop_map(Chunk::Bytes),
        1 => vec(any::<u8>(), 1..200).prop_map(Chunk::Bytes),
        5 => (header(), prop_oneof![5 => Just(0i8), 1 => -3i8..4], vec(byte(), 0..16)).prop_map(|(first, over, body)| Chunk::Typed { first, over, body }),
        1 => (header(), vec(prop_oneof![Just(0x80u8), Just(0xFF), Just(0x7F), any::<u8>()], 1..7)).prop_map(|(first, len)| Chunk::Len { first, len }),
        1 => (any_piece(), any::<u16>()).prop_map(|(p, keep)| Chunk::Torn { p, keep }),
        4 => (any_piece(), any::<u16>()).prop_map(|(p, keep)| Chunk::Short { p, keep }),
        1 => (0..N_ODD).prop_map(Chunk::Odd),
        1 => any::<u8>().prop_map(Chunk::Cmd),
        1 => (1u8..4).prop_map(Chunk::Step),
    ]
    .boxed()
}

fn bad_case(n: usize) -> BoxedStrategy<BadCase> {
    (any::<u64>(), prop_oneof![4 => Just(true), 1 => Just(false)], vec(chunk(), 1..n), cut(), 0u8..3)
        .prop_map(|(seed, connack, chunks, cut, then)| BadCase { seed, connack, chunks, cut, then })
        .boxed()
}

#[cfg(feature = "hooks")]
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DecCase {
    chunks: Vec<Chunk>,
    cuts: Vec<u16>,
}

#[cfg(feature = "hooks")]
fn run_dec(c: &DecCase, obs: &mut Obs) -> Res {
    let b: Vec<u8> = c.chunks.iter().filter_map(|x| x.bytes()).flatten().collect();
    let mut at: Vec<usize> = c.cuts.iter().map(|x| (*x as usize * b.len()) / 65536).collect();
    at.sort();
    let mut segs: Vec<&[u8]> = vec![];
    let mut o = 0;
    for a in at {
        segs.push(&b[o..a]);
        o = a;
    }
    segs.push(&b[o..]);
    match guarded(|| ruq::verif_hooks::decode_chunks(&segs)) {
        Ok((p, r)) => {
            obs.count("packets decoded", p.len() as u64);
            obs.label(if r.is_ok() { "waiting for more" } else { "refused" });
        }
        Err(p) => violation!("decoder panicked: {} on {}", p, hex(&b, 64)),
    }
    obs.nontrivial = b.len() > 1;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OddCase {
    seed: u64,
    k: u8,
    before: Vec<InMsg>,
    /// a QoS 2 publish is under way
    qos2_out: bool,
    connack: bool,
}

/// Unsupported features: an error, or service as MQTT has it.
fn run_odd(c: &OddCase, obs: &mut Obs) -> Res {
    let bytes = odd(c.k);
    run(c.seed, async {
        let mut s = Sess::new()?;
        s.await_connect().await?;
        if c.connack {
            s.send(&SPkt::Connack { sp: false, reason: 0, props: vec![] }.encode()).await?;
            s.wait("the CONNACK notification", |s| !s.notifs.is_empty()).await?;
            if c.qos2_out {
                let cl = s.client();
                let _ = guarded(|| cl.publish(ruq::PublishBuilder::from_bytes("q", b"q").qos(qos(2))));
                s.wait("the publish", |s| s.pkts.len() > 1).await?;
            }
            for m in &c.before {
                s.send(&m.pkt().encode()).await?;
            }
            s.fence_in().await?;
        }
        s.send(&bytes).await?;
        s.settle().await;
        s.no_panic()?;
        let in_session = s.notifs.iter().any(|n| n.kind == "ConnAck");
        if s.end.is_none() && in_session {
            still_serving(&mut s).await?;
        }
        let was_alive = s.end.is_none();
        s.shutdown_write();
        let e = s.wait_end("the event loop to complete after the broker closed the connection").await?;
        s.no_panic()?;
        if !was_alive {
            ensure!(e != End::Ok || bytes[0] >> 4 == 14, "{} ended the session as if in order", hex(&bytes, 32));
        }
        Ok(())
    })?;
    obs.nontrivial = true;
    Ok(())
}

pub fn c10(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "session",
        "1-8 chunks of whatever bytes: random ones, random bodies under every packet header with right and wrong lengths, valid packets with a byte changed, torn off or shortened under a matching header, odd length bytes, unsupported features; before or after CONNACK, with commands in between, cut in any way, then a close, a reset or time passing; never a panic, commands and pings still served while the session lasts, completion once the broker closes; non-trivial: at least one byte",
        env.n(150_000, 2_000_000),
        || bad_case(8),
        run_bad,
    );
    phase(
        env,
        rep,
        "unsupported",
        "every legal packet outside the library's subset (QoS 2 packets, AUTH, unmodelled properties, a second CONNACK) and packets only a client may send, in and before a session",
        env.n(8000, 80_000),
        || {
            (any::<u64>(), 0..N_ODD, vec(small_in_msg(1), 0..4), any::<bool>(), prop_oneof![4 => Just(true), 1 => Just(false)])
                .prop_map(|(seed, k, before, qos2_out, connack)| OddCase { seed, k, before, qos2_out, connack })
                .boxed()
        },
        run_odd,
    );
    phase(
        env,
        rep,
        "crowds",
        "as session, with one packet of any kind whose list of properties has up to 400000 entries, whole, changed in one byte, torn or shortened; non-trivial: at least one byte",
        env.n(60, 800),
        || {
            let crowded = (proptest::sample::select(vec![0x20u8, 0x30, 0x32, 0x40, 0x90, 0xB0, 0xE0]), 0u8..6, log_uniform(400_000), 0u8..5, any::<u16>(), any::<u8>())
                .prop_map(|(first, kind, n, damage, at, xor)| Chunk::Crowd { first, kind, n, damage, at, xor });
            (any::<u64>(), any::<bool>(), vec(chunk(), 0..2), crowded, vec(chunk(), 0..2), 0u8..3)
                .prop_map(|(seed, connack, mut chunks, crowd, more, then)| {
                    // the crowd first, most of the time: what precedes may end the session
                    if chunks.len() == 1 && seed % 3 != 0 {
                        chunks.clear();
                    }
                    chunks.push(crowd);
                    chunks.extend(more);
                    BadCase { seed, connack, chunks, cut: Cut::Whole, then }
                })
                .boxed()
        },
        run_bad,
    );
    #[cfg(feature = "hooks")]
    phase(
        env,
        rep,
        "decoder",
        "the same kind of bytes, in random segments, fed to the stream decoder itself",
        env.n(600_000, 10_000_000),
        || (vec(chunk(), 1..6), vec(any::<u16>(), 0..4)).prop_map(|(chunks, cuts)| DecCase { chunks, cuts }).boxed(),
        run_dec,
    );
    notes(&["a call into the library that uses 25 s of CPU time, or two minutes blocked, counts as one that never returns"])
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Defect {
    /// change one byte of the packet
    Set { at: u16, near: bool, val: u8 },
    Xor { at: u16, xor: u8 },
    /// keep this much of the body, under a header that says so
    Trunc { keep: u16, from_end: bool },
    /// another first byte
    First(u8),
    ZeroId,
    Reason(u8),
    /// append a property with this identifier and these bytes
    AddProp { id: u8, val: Vec<u8>, first: bool },
    /// damage a string: byte `at` of the `which`-th one
    Utf8 { which: u8, at: u16, val: u8 },
    /// property length off by this
    PropLen(i16),
    /// a five byte remaining length
    LongLen([u8; 5]),
    /// a property length encoded in five bytes
    LongPropLen,
    Qos3,
    /// the low four bits of the first byte
    Flags(u8),
    /// only a client may send this
    Client(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MalCase {
    seed: u64,
    prefix: Vec<Piece>,
    base: Piece,
    defects: Vec<Defect>,
    tail: Vec<Piece>,
    cut: Cut,
    /// has everything before the bad packet been acknowledged when it arrives?
    fenced: bool,
    /// the session has not been accepted yet: the bad packet takes CONNACK's place
    first: bool,
}

struct Parts {
    first: u8,
    before: Vec<u8>,
    props: Option<Vec<u8>>,
    after: Vec<u8>,
}

/// Takes a well-formed packet apart.
fn parts(p: &SPkt) -> Parts {
    let b = p.encode();
    let n = {
        let mut r = Rd::new(&b[1..]);
        r.vbi().unwrap();
        1 + r.i
    };
    let body = &b[n..];
    let at = match p {
        SPkt::Connack { .. } => Some(2),
        SPkt::Publish { topic, id, .. } => Some(2 + topic.len() + if *id != 0 { 2 } else { 0 }),
        SPkt::Puback { props, .. } => props.as_ref().map(|_| 3),
        SPkt::Suback { .. } | SPkt::Unsuback { .. } => Some(2),
        SPkt::Disconnect { props, .. } => props.as_ref().map(|_| 1),
        SPkt::Pingresp => None,
    };
    match at {
        None => Parts { first: b[0], before: body.to_vec(), props: None, after: vec![] },
        Some(at) => {
            let mut r = Rd::new(&body[at..]);
            let (len, _) = r.vbi().unwrap();
            let s = at + r.i;
            Parts {
                first: b[0],
                before: body[..at].to_vec(),
                props: Some(body[s..s + len as usize].to_vec()),
                after: body[s + len as usize..].to_vec(),
            }
        }
    }
}

fn join(p: &Parts, prop_len_off: i64, long: bool) -> Vec<u8> {
    let mut body = p.before.clone();
    if let Some(ps) = &p.props {
        let n = (ps.len() as i64 + prop_len_off).max(0) as u32;
        if long {
            let mut v = vbi(n);
            while v.len() < 5 {
                *v.last_mut().unwrap() |= 0x80;
                v.push(0);
            }
            body.extend(v);
        } else {
            body.extend(vbi(n));
        }
        body.extend_from_slice(ps);
    }
    body.extend_from_slice(&p.after);
    frame(p.first, &body)
}

impl MalCase {
    fn bad(&self) -> Vec<u8> {
        let pkt = match &self.base {
            Piece::Msg(m) => m.pkt(),
            Piece::Ack(a) => a.pkt(),
            Piece::Disconnect(r) => SPkt::Disconnect { reason: Some(*r), props: Some(vec![pr(0x1F, PVal::Str("bye".into()))]) },
            Piece::Bye { reason, props } => SPkt::Disconnect { reason: Some(*reason), props: Some(props.get()) },
            Piece::Raw(r) => SPkt::Connack {
                sp: false,
                reason: 0,
                props: vec![pr(0x1F, PVal::Str(format!("hi{}", r.len()))), pr(0x26, PVal::Pair("k".into(), "v".into()))],
            },
            _ => SPkt::Pingresp,
        };
        let mut p = parts(&pkt);
        let mut b = pkt.encode();
        for d in &self.defects {
            match d {
                Defect::Set { at, near, val } => {
                    let n = if *near { b.len().min(12) } else { b.len() };
                    let i = *at as usize % n;
                    b[i] = *val;
                }
                Defect::Xor { at, xor } => {
                    let i = *at as usize % b.len();
                    b[i] ^= *xor;
                }
                Defect::Trunc { keep, from_end } => {
                    let mut r = Rd::new(&b[1..]);
                    let n = match r.vbi() {
                        Ok(_) => 1 + r.i,
                        Err(_) => continue,
                    };
                    let body = b[n..].to_vec();
                    let k = if *from_end { body.len().saturating_sub(*keep as usize % 8) } else { *keep as usize % (body.len() + 1) };
                    b = frame(b[0], &body[..k]);
                }
                Defect::First(x) => b[0] = *x,
                Defect::ZeroId => {
                    let at = match &pkt {
                        SPkt::Publish { topic, id, .. } if *id != 0 => 2 + topic.len(),
                        SPkt::Puback { .. } | SPkt::Suback { .. } | SPkt::Unsuback { .. } => 0,
                        _ => continue,
                    };
                    p.before[at] = 0;
                    p.before[at + 1] = 0;
                    b = join(&p, 0, false);
                }
                Defect::Reason(c) => {
                    match &pkt {
                        SPkt::Connack { .. } => p.before[1] = *c,
                        SPkt::Suback { .. } | SPkt::Unsuback { .. } => p.after[0] = *c,
                        SPkt::Puback { .. } if p.before.len() > 2 => p.before[2] = *c,
                        SPkt::Disconnect { .. } => p.before[0] = *c,
                        _ => continue,
                    }
                    b = join(&p, 0, false);
                }
                Defect::AddProp { id, val, first } => {
                    if let Some(ps) = &mut p.props {
                        let mut x = vec![*id];
                        x.extend_from_slice(val);
                        if *first {
                            x.extend_from_slice(ps);
                            *ps = x;
                        } else {
                            ps.extend(x);
                        }
                        b = join(&p, 0, false);
                    }
                }
                Defect::Utf8 { which, at, val } => {
                    // strings: the topic, then those among the properties
                    let mut spots: Vec<(bool, usize, usize)> = vec![];
                    if let SPkt::Publish { topic, .. } = &pkt {
                        spots.push((true, 2, topic.len()));
                    }
                    let ps = match &pkt {
                        SPkt::Publish { props, .. } | SPkt::Connack { props, .. } | SPkt::Suback { props, .. } | SPkt::Unsuback { props, .. } => props.clone(),
                        SPkt::Puback { props, .. } | SPkt::Disconnect { props, .. } => props.clone().unwrap_or_default(),
                        SPkt::Pingresp => vec![],
                    };
                    let mut o = 0;
                    for q in &ps {
                        let mut x = vec![];
                        put_prop(&mut x, q);
                        match &q.val {
                            PVal::Str(s) => spots.push((false, o + 3, s.len())),
                            PVal::Pair(k, v) => {
                                spots.push((false, o + 3, k.len()));
                                spots.push((false, o + 5 + k.len(), v.len()));
                            }
                            _ => {}
                        }
                        o += x.len();
                    }
                    spots.retain(|s| s.2 > 0);
                    if spots.is_empty() {
                        continue;
                    }
                    let (topic, o, n) = spots[*which as usize % spots.len()];
                    let i = o + *at as usize % n;
                    if topic {
                        p.before[i] = *val;
                    } else if let Some(ps) = &mut p.props {
                        if i < ps.len() {
                            ps[i] = *val;
                        }
                    }
                    b = join(&p, 0, false);
                }
                Defect::PropLen(d) => b = join(&p, *d as i64, false),
                Defect::LongLen(l) => {
                    let mut x = vec![b[0]];
                    let mut l = *l;
                    for y in l.iter_mut().take(4) {
                        *y |= 0x80;
                    }
                    x.extend_from_slice(&l);
                    x.extend_from_slice(&b[2..]);
                    b = x;
                }
                Defect::LongPropLen => b = join(&p, 0, true),
                Defect::Qos3 => b[0] |= 0x06,
                Defect::Flags(x) => b[0] = b[0] & 0xF0 | x & 15,
                Defect::Client(k) => b = odd(16 + k % 4),
            }
        }
        b
    }
}

fn run_mal(c: &MalCase, obs: &mut Obs) -> Res {
    let tail: Vec<u8> = c.tail.iter().flat_map(|p| p.bytes()).collect();
    let mut stream = c.bad();
    let nbad = stream.len();
    stream.extend_from_slice(&tail);
    let why = match frame_len(&stream) {
        // a client may wait for the fifth length byte before it calls the length malformed
        Err(Bad::Malformed(w)) if stream.len() >= 6 => w,
        Err(Bad::Malformed(_)) |
        Err(Bad::Gray(_)) | Ok(None) => {
            obs.label("set aside: not a complete packet");
            return Ok(());
        }
        Ok(Some(n)) => match classify(&stream[..n]) {
            Err(Bad::Malformed(w)) => w,
            Ok(_) => {
                obs.label("set aside: still well-formed");
                return Ok(());
            }
            Err(Bad::Gray(_)) => {
                obs.label("set aside: not in the statement");
                return Ok(());
            }
        },
    };
    let prefix: Vec<SPkt> = c
        .prefix
        .iter()
        .map(|p| match p {
            Piece::Msg(m) => m.pkt(),
            Piece::Ack(a) => a.pkt(),
            _ => SPkt::Pingresp,
        })
        .collect();
    let bytes: Vec<Vec<u8>> = prefix.iter().map(|p| p.encode()).collect();
    let due: Vec<u16> = prefix.iter().filter_map(|p| if let SPkt::Publish { qos: 1, id, .. } = p { Some(*id) } else { None }).collect();
    run(c.seed, async {
        if c.first {
            let mut s = Sess::new()?;
            s.await_connect().await?;
            send_cut(&mut s, &[stream.clone()], &c.cut).await?;
            // in case it waits for more
            let e = s.wait_end("a malformed first packet to end the session").await?;
            ensure!(matches!(e, End::Err(_)), "malformed first packet ({}; {}) ended the session with {:?}", why, hex(&stream, 40), e);
            ensure!(s.notifs.is_empty(), "malformed first packet ({}) produced {}", why, clip(&s.notifs[0].text));
            ensure!(s.pkts.len() == 1, "client answered a malformed first packet ({}) with {:?}", why, s.pkts[1].1);
            return Ok(());
        }
        let mut s = Sess::connected().await?;
        if c.fenced {
            send_cut(&mut s, &bytes, &c.cut).await?;
            s.fence_in().await?;
            let n = due.len();
            let count = |s: &Sess| s.pkts.iter().filter(|p| matches!(p.1, CPkt::Ack { .. })).count();
            s.wait("PUBACKs for the messages before", move |s| count(s) >= n).await?;
            send_cut(&mut s, &[stream.clone()], &c.cut).await?;
        } else {
            let mut all = bytes.clone();
            all.push(stream[..nbad].to_vec());
            all.push(tail.clone());
            send_cut(&mut s, &all, &c.cut).await?;
        }
        let e = s
            .wait_end(&format!("the session to end at a malformed packet ({}; {})", why, hex(&stream, 40)))
            .await?;
        ensure!(matches!(e, End::Err(_)), "malformed packet ({}; {}) ended the session with {:?}", why, hex(&stream, 40), e);
        s.settle().await;
        let want: Vec<&SPkt> = prefix.iter().collect();
        if let Err(Fail::Violation(m)) = check_notifs(&s.app_notifs(), &want) {
            violation!("malformed packet ({}; {}): {}", why, hex(&stream, 40), m);
        }
        let got: Vec<u16> = s.app_pkts().iter().filter_map(|p| if let CPkt::Ack { id, .. } = p { Some(*id) } else { None }).collect();
        if c.fenced {
            ensure!(got == due, "PUBACKs {:?}, expected {:?}, with a malformed packet ({}) following", got, due, why);
        } else {
            // what the client wrote last may be lost when it closes with unread input
            ensure!(got.len() <= due.len() && got[..] == due[..got.len()], "PUBACKs {:?}, expected {:?} (or the first of them), with a malformed packet ({}) following", got, due, why);
        }
        ensure!(s.app_pkts().len() == got.len(), "client answered a malformed packet ({}) with {:?}", why, s.app_pkts().last());
        Ok(())
    })?;
    obs.nontrivial = true;
    obs.label(match why {
        "length overruns the packet" => "a length overruns the packet",
        "variable byte integer longer than 4 bytes" => "over-long property length",
        "remaining length longer than 4 bytes" => "over-long remaining length",
        w => w,
    });
    obs.label(match &c.base {
        Piece::Msg(_) => "in a PUBLISH",
        Piece::Ack(InAck::Suback { .. }) => "in a SUBACK",
        Piece::Ack(InAck::Unsuback { .. }) => "in an UNSUBACK",
        Piece::Ack(_) => "in a PUBACK",
        Piece::Disconnect(_) | Piece::Bye { .. } => "in a DISCONNECT",
        Piece::Raw(_) => "in a CONNACK",
        _ => "in a PINGRESP",
    });
    obs.label(if c.first {
        "in CONNACK's place"
    } else if c.fenced {
        "after all before it was acknowledged"
    } else {
        "along with what precedes it"
    });
    Ok(())
}

fn defect() -> BoxedStrategy<Defect> {
    let unknown: Vec<u8> = (0..=255u8).filter(|i| prop_kind(*i).is_none()).collect();
    let legal: Vec<u8> = vec![0x01, 0x02, 0x08, 0x09, 0x1F, 0x26];
    prop_oneof![
        4 => (any::<u16>(), any::<bool>(), byte()).prop_map(|(at, near, val)| Defect::Set { at, near, val }),
        2 => (any::<u16>(), 1u8..=255).prop_map(|(at, xor)| Defect::Xor { at, xor }),
        5 => (any::<u16>(), any::<bool>()).prop_map(|(keep, from_end)| Defect::Trunc { keep, from_end }),
        1 => any::<u8>().prop_map(Defect::First),
        2 => Just(Defect::ZeroId),
        3 => any::<u8>().prop_map(Defect::Reason),
        2 => (proptest::sample::select(unknown), vec(byte(), 0..6), any::<bool>()).prop_map(|(id, val, first)| Defect::AddProp { id, val, first }),
        2 => (proptest::sample::select(legal), vec(byte(), 0..6), any::<bool>()).prop_map(|(id, val, first)| Defect::AddProp { id, val, first }),
        4 => (any::<u8>(), prop_oneof![Just(0u16), Just(65535), any::<u16>()], proptest::sample::select(vec![0x00u8, 0x00, 0x80, 0xBF, 0xC0, 0xC1, 0xE0, 0xED, 0xF5, 0xFE, 0xFF]))
            .prop_map(|(which, at, val)| Defect::Utf8 { which, at, val }),
        3 => prop_oneof![-4i16..5, 100i16..400].prop_map(Defect::PropLen),
        1 => any::<[u8; 5]>().prop_map(Defect::LongLen),
        1 => Just(Defect::LongPropLen),
        1 => Just(Defect::Qos3),
        1 => (1u8..16).prop_map(Defect::Flags),
        1 => any::<u8>().prop_map(Defect::Client),
    ]
    .boxed()
}

fn mal_case(first: bool) -> BoxedStrategy<MalCase> {
    let base = if first {
        prop_oneof![6 => vec(any::<u8>(), 0..3).prop_map(Piece::Raw), 1 => piece(100)].boxed()
    } else {
        prop_oneof![
            4 => small_in_msg(1).prop_map(Piece::Msg),
            1 => in_msg(300, 1).prop_map(Piece::Msg),
            6 => in_ack(40).prop_map(Piece::Ack),
            1 => code(DISCONNECT_REASONS).prop_map(Piece::Disconnect),
            1 => (code(DISCONNECT_REASONS), aprops(60)).prop_map(|(reason, props)| Piece::Bye { reason, props }),
            1 => vec(any::<u8>(), 0..3).prop_map(Piece::Raw),
            1 => Just(Piece::Pingresp),
        ]
        .boxed()
    };
    (
        any::<u64>(),
        vec(piece(60), 0..5),
        base,
        prop_oneof![4 => vec(defect(), 1..2), 1 => vec(defect(), 2..4)],
        vec(prop_oneof![3 => piece(60), 1 => last_piece()], 0..4),
        cut(),
        any::<bool>(),
    )
        .prop_map(move |(seed, prefix, base, defects, tail, cut, fenced)| MalCase {
            seed,
            prefix: if first { vec![] } else { prefix },
            base,
            defects,
            tail,
            cut,
            fenced,
            first,
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CodeCase {
    seed: u64,
    /// 0 SUBACK, 1 UNSUBACK, 2 PUBACK, 3 PUBACK with properties, 4 DISCONNECT, 5 DISCONNECT with properties, 6 CONNACK, 7 property identifier in a PUBLISH, 8 in an acknowledgement, 9 first byte
    what: u8,
    code: u8,
}

/// Every value of every code byte.
fn run_code(c: &CodeCase, obs: &mut Obs) -> Res {
    let b = match c.what {
        0 => frame(0x90, &[0, 5, 0, c.code]),
        1 => frame(0xB0, &[0, 5, 0, c.code]),
        2 => frame(0x40, &[0, 5, c.code]),
        3 => frame(0x40, &[0, 5, c.code, 3, 0x1F, 0, 0]),
        4 => frame(0xE0, &[c.code]),
        5 => frame(0xE0, &[c.code, 3, 0x1F, 0, 0]),
        6 => frame(0x20, &[0, c.code, 0]),
        7 => frame(0x30, &[0, 1, b't', 5, c.code, 0, 0, 0, 0]),
        8 => frame(0xB0, &[0, 5, 5, c.code, 0, 0, 0, 0, 0]),
        _ => frame(c.code, &[0, 1, b't', 0, 1, 0]),
    };
    let verdict = classify(&b);
    let bad = matches!(verdict, Err(Bad::Malformed(_)));
    run(c.seed, async {
        let mut s = Sess::new()?;
        s.await_connect().await?;
        if c.what != 6 {
            s.send(&SPkt::Connack { sp: false, reason: 0, props: vec![] }.encode()).await?;
            s.wait("the CONNACK notification", |s| !s.notifs.is_empty()).await?;
            s.pkts.clear();
            s.notifs.clear();
        }
        s.send(&b).await?;
        if bad {
            let e = s.wait_end(&format!("the session to end at {:?} ({})", verdict, hex(&b, 16))).await?;
            ensure!(matches!(e, End::Err(_)), "{:?} ({}) ended the session with {:?}", verdict, hex(&b, 16), e);
            ensure!(s.notifs.is_empty(), "{:?} ({}) was delivered: {}", verdict, hex(&b, 16), clip(&s.notifs[0].text));
            ensure!(s.pkts.iter().all(|p| matches!(p.1, CPkt::Connect { .. })), "{:?} ({}) was answered with {:?}", verdict, hex(&b, 16), s.pkts);
        } else {
            s.settle().await;
            s.no_panic()?;
        }
        Ok(())
    })?;
    obs.nontrivial = bad;
    obs.label(if bad { "malformed" } else { "not malformed: no panic" });
    Ok(())
}

pub fn c11(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "malformed",
        "0-4 well-formed packets, one packet with 1-3 random defects that the reference decoder finds malformed in a way the statement names (others are set aside and not counted), then more packets; cut in any way; error, notifications exactly of the packets before, PUBACKs exactly for them; non-trivial: a malformed packet was sent",
        env.n(120_000, 1_500_000),
        || mal_case(false),
        run_mal,
    );
    phase(
        env,
        rep,
        "malformed-first",
        "the same, with the malformed packet in CONNACK's place",
        env.n(20_000, 300_000),
        || mal_case(true),
        run_mal,
    );
    rep.exhaustive_notes.push("every value of every reason code, property identifier and first header byte (thorough tier)".into());
    phase(
        env,
        rep,
        "codes",
        "packets with each value of a reason code, property identifier or first byte; non-trivial: that value is malformed",
        env.n(30_000, 200_000),
        || (any::<u64>(), 0u8..10, any::<u8>()).prop_map(|(seed, what, code)| CodeCase { seed, what, code }).boxed(),
        run_code,
    );
    notes(&["forbidden things the statement does not name (repeated properties, left-over bytes, non-minimal lengths, wildcards in a topic name) are not judged"])
}
