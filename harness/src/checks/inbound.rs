//! C06 - C09: what the broker sends is what the application is told, and what is acknowledged.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::notes;
use crate::engine::{phase, Env, Obs, Report};
use crate::gen::*;
use crate::machine::{self, Want, Weights};
use crate::sim::*;
use crate::wire::*;
use crate::{ensure, violation};

/// How the broker cuts what it writes.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cut {
    Whole,
    PerPacket,
    /// pieces of these lengths, cycled; the client runs in between
    Pieces(Vec<u16>),
}

pub fn cut() -> BoxedStrategy<Cut> {
    prop_oneof![
        3 => Just(Cut::Whole),
        2 => Just(Cut::PerPacket),
        2 => vec(prop_oneof![1u16..6, 1u16..300], 1..6).prop_map(Cut::Pieces),
    ]
    .boxed()
}

pub async fn send_cut(s: &mut Sess, pkts: &[Vec<u8>], cut: &Cut) -> Res {
    match cut {
        Cut::Whole => s.send(&pkts.concat()).await,
        Cut::PerPacket => {
            for p in pkts {
                s.send(p).await?;
                s.step().await;
                s.step().await;
            }
            Ok(())
        }
        Cut::Pieces(v) => {
            let all = pkts.concat();
            let mut i = 0;
            let mut k = 0;
            // a long stream is not sent in one-byte pieces to the end
            while i < all.len() && k < 400 {
                let n = (v[k % v.len()] as usize).min(all.len() - i);
                s.send(&all[i..i + n]).await?;
                s.step().await;
                s.step().await;
                i += n;
                k += 1;
            }
            s.send(&all[i..]).await
        }
    }
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MsgCase {
    seed: u64,
    cut: Cut,
    msgs: Vec<InMsg>,
}

fn run_msgs(c: &MsgCase, obs: &mut Obs) -> Res {
    let sent: Vec<SPkt> = c.msgs.iter().map(|m| m.pkt()).collect();
    run(c.seed, async {
        let mut s = Sess::connected().await?;
        let bytes: Vec<Vec<u8>> = sent.iter().map(|p| p.encode()).collect();
        send_cut(&mut s, &bytes, &c.cut).await?;
        s.fence_in().await?;
        s.no_panic()?;
        let want: Vec<&SPkt> = sent.iter().collect();
        check_notifs(&s.app_notifs(), &want)
    })?;
    for (m, p) in c.msgs.iter().zip(&sent) {
        obs.label(if m.qos == 0 { "QoS 0" } else { "QoS 1" });
        if let SPkt::Publish { props, payload, .. } = p {
            for q in props {
                obs.label(match q.id {
                    1 => "property: payload format",
                    2 => "property: expiry",
                    8 => "property: response topic",
                    9 => "property: correlation data",
                    _ => "property: user",
                });
            }
            if props.len() > 1 {
                obs.label("several properties");
            }
            obs.label(match payload.len() {
                0 => "empty payload",
                1..=127 => "payload up to 127",
                128..=16383 => "payload up to 16383",
                _ => "larger payload",
            });
        }
    }
    obs.nontrivial = sent.iter().any(|p| matches!(p, SPkt::Publish { props, payload, .. } if !props.is_empty() || !payload.is_empty()));
    Ok(())
}

fn msg_case(one: impl Fn() -> BoxedStrategy<InMsg>, max: usize) -> BoxedStrategy<MsgCase> {
    (any::<u64>(), cut(), again(vec(one(), 1..=max).boxed())).prop_map(|(seed, cut, msgs)| MsgCase { seed, cut, msgs }).boxed()
}

pub fn c06(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "messages",
        "1-6 well-formed QoS 0/1 PUBLISH packets, some of them sent again unchanged or nearly so, with random topics, payloads, flags, identifiers and lists of the modelled properties, sizes biased to encoding boundaries, written whole, per packet or in pieces; the notification text is parsed and compared field by field; non-trivial: some packet has a payload or properties",
        env.n(16_000, 250_000),
        || msg_case(|| in_msg(65535, 1), 6),
        run_msgs,
    );
    phase(
        env,
        rep,
        "streams",
        "30-250 small messages at a time (more than any buffer of the library holds)",
        env.n(1500, 20_000),
        || {
            (any::<u64>(), cut(), again(vec(small_in_msg(1), 30..250).boxed()))
                .prop_map(|(seed, cut, msgs)| MsgCase { seed, cut, msgs })
                .boxed()
        },
        run_msgs,
    );
    phase(
        env,
        rep,
        "huge",
        "one message whose remaining length, or length of properties, is around 2097151/2097152 or several megabytes, then a small one",
        env.n(40, 400),
        || {
            let huge = any::<bool>().prop_flat_map(|text| {
                (
                    topic_name(200),
                    (proptest::sample::select(vec![2097151u32, 2097152, 2097153, 3_500_000]), any::<u8>())
                        .prop_map(move |(total, k)| Blob::Fit { total, k, text }),
                    0u8..2,
                    pktid(),
                )
                    .prop_map(move |(topic, payload, qos, id)| InMsg {
                        topic,
                        payload,
                        qos,
                        dup: false,
                        retain: true,
                        id,
                        props: if text { vec![PProp::Format(1)] } else { vec![] },
                    })
            });
            let section = (in_msg(300, 1), proptest::sample::select(vec![2097150u32, 2097151, 2097152, 2097153, 2_500_000]), any::<u8>()).prop_map(|(mut m, total, k)| {
                m.props.push(PProp::UserFit { total, k });
                m
            });
            (any::<u64>(), prop_oneof![3 => huge, 1 => section], small_in_msg(1))
                .prop_map(|(seed, a, b)| MsgCase { seed, cut: Cut::Whole, msgs: vec![a, b] })
                .boxed()
        },
        run_msgs,
    );
    phase(
        env,
        rep,
        "crowds",
        "a message with up to 200000 user properties between others",
        env.n(60, 800),
        || {
            let crowded = (in_msg(300, 1), log_uniform(200_000)).prop_map(|(mut m, n)| {
                m.props.push(PProp::Users(n));
                m
            });
            (any::<u64>(), proptest::option::of(small_in_msg(1)), crowded, small_in_msg(1))
                .prop_map(|(seed, a, b, c)| MsgCase { seed, cut: Cut::Whole, msgs: a.into_iter().chain([b, c]).collect() })
                .boxed()
        },
        run_msgs,
    );
    let want = Want { notifs: true, ..Want::default() };
    let w = Weights {
        cmd: 8,
        burst: 1,
        handles: 2,
        input: 14,
        many_input: 2,
        ack: 3,
        sched: 10,
        drain: 3,
        clog: 1,
        advance: 1,
        late_connack: true,
        len: 50,
        ..Weights::default()
    };
    phase(
        env,
        rep,
        "history",
        "histories with messages singly, in bursts and repeated, among commands through several handles, acknowledgements, a pausing consumer and a broker that stops reading, at any scheduling; non-trivial: at least 2 accepted commands or 3 inbound packets",
        env.n(30_000, 400_000),
        move || machine::cases(w),
        move |c, o| machine::run_case(c, want, o),
    );
    super::marathon::marathon(env, rep, super::marathon::Judge::Messages);
    notes(&["notifications carry packets as Debug text; field order and layout of that text do not matter to the comparison"])
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AckCase {
    seed: u64,
    sp: bool,
    connack_reason: u8,
    connack_props: AProps,
    cut: Cut,
    /// acknowledgement, and whether to issue the matching request first
    acks: Vec<(InAck, bool)>,
}

fn run_acks(c: &AckCase, obs: &mut Obs) -> Res {
    run(c.seed, async {
        let mut s = Sess::new()?;
        s.await_connect().await?;
        let connack = SPkt::Connack { sp: c.sp, reason: c.connack_reason, props: c.connack_props.get() };
        s.send(&connack.encode()).await?;
        s.wait_("the CONNACK notification", |s| !s.notifs.is_empty(), c.connack_reason != 0).await?;
        check_notifs(&s.app_notifs(), &[&connack])?;
        if c.connack_reason != 0 {
            // what follows a refusal is another property's business
            return Ok(());
        }
        let mut sent = vec![connack];
        let mut pending: Vec<SPkt> = vec![];
        for (i, (a, solicited)) in c.acks.iter().enumerate() {
            let mut p = a.pkt();
            if *solicited {
                let l = format!("r/{}", i);
                let cl = s.client();
                let r = guarded(|| match a {
                    InAck::Suback { .. } => cl.subscribe(&l, qos(1)),
                    InAck::Unsuback { .. } => cl.unsubscribe(&l),
                    InAck::Puback { .. } => cl.publish(ruq::PublishBuilder::from_bytes(&l, b"").qos(qos(1))),
                });
                if !matches!(r, Ok(Ok(()))) {
                    violation!("a request was refused: {:?}", r);
                }
                let l2 = l.clone();
                let find = move |p: &CPkt| match p {
                    CPkt::Publish { topic, id, .. } if *topic == l2 => Some(*id),
                    CPkt::Subscribe { filters, id, .. } if filters[0].0 == l2 => Some(*id),
                    CPkt::Unsubscribe { filters, id, .. } if filters[0] == l2 => Some(*id),
                    _ => None,
                };
                let f2 = find.clone();
                s.wait("a request to be sent", move |s| s.pkts.iter().any(|p| f2(&p.1).is_some())).await?;
                let got = s.pkts.iter().find_map(|p| find(&p.1)).unwrap();
                match &mut p {
                    SPkt::Suback { id, .. } | SPkt::Unsuback { id, .. } | SPkt::Puback { id, .. } => *id = got,
                    _ => {}
                }
            }
            sent.push(p.clone());
            pending.push(p);
            if i % 3 == 2 || *solicited {
                let b: Vec<Vec<u8>> = pending.drain(..).map(|p| p.encode()).collect();
                send_cut(&mut s, &b, &c.cut).await?;
            }
        }
        let b: Vec<Vec<u8>> = pending.drain(..).map(|p| p.encode()).collect();
        send_cut(&mut s, &b, &c.cut).await?;
        s.fence_in().await?;
        s.fence_out().await?;
        s.no_panic()?;
        let want: Vec<&SPkt> = sent.iter().collect();
        check_notifs(&s.app_notifs(), &want)
    })?;
    obs.label(if c.connack_reason == 0 { "CONNACK success" } else { "CONNACK refusal" });
    for (a, solicited) in &c.acks {
        obs.label(match a {
            InAck::Suback { .. } => "SUBACK",
            InAck::Unsuback { .. } => "UNSUBACK",
            InAck::Puback { form: 0, .. } => "PUBACK, identifier only",
            InAck::Puback { form: 1, .. } => "PUBACK with reason",
            InAck::Puback { .. } => "PUBACK with properties",
        });
        obs.label(if *solicited { "answering a request" } else { "unsolicited" });
    }
    obs.nontrivial = !c.acks.is_empty() || c.connack_reason != 0 || c.connack_props != AProps::none();
    Ok(())
}

pub fn c07(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "acks",
        "a CONNACK with any reason, flag and property list, then up to 6 SUBACK/UNSUBACK/PUBACK packets with any legal reason code, identifier, property list and form, answering requests or unsolicited; every notification compared with its packet, and the session must go on; non-trivial: some acknowledgement, or a CONNACK other than the plainest",
        env.n(150_000, 2_000_000),
        || {
            (
                any::<u64>(),
                any::<bool>(),
                prop_oneof![5 => Just(0u8), 1 => code(CONNACK_REASONS)],
                aprops(2000),
                cut(),
                vec((in_ack(2000), any::<bool>()), 0..7),
            )
                .prop_map(|(seed, sp, connack_reason, connack_props, cut, acks)| AckCase {
                    seed,
                    sp: sp && connack_reason == 0,
                    connack_reason,
                    connack_props,
                    cut,
                    acks,
                })
                .boxed()
        },
        run_acks,
    );
    phase(
        env,
        rep,
        "long-strings",
        "as acks, with property strings of up to 65535 bytes",
        env.n(8000, 100_000),
        || {
            (any::<u64>(), aprops(65535), cut(), vec((in_ack(65535), any::<bool>()), 1..4))
                .prop_map(|(seed, connack_props, cut, acks)| AckCase { seed, sp: false, connack_reason: 0, connack_props, cut, acks })
                .boxed()
        },
        run_acks,
    );
    phase(
        env,
        rep,
        "crowds",
        "as acks, with up to 200000 user properties in a packet",
        env.n(60, 800),
        || {
            let crowded = |ack: BoxedStrategy<InAck>| {
                (ack, log_uniform(200_000)).prop_map(|(mut a, n)| {
                    match &mut a {
                        InAck::Suback { props, .. } | InAck::Unsuback { props, .. } => props.crowd = n,
                        InAck::Puback { props, form, .. } => {
                            *form = 2;
                            props.crowd = n
                        }
                    }
                    a
                })
            };
            (any::<u64>(), aprops(300), prop_oneof![2 => Just(0u32), 1 => log_uniform(200_000)], vec((crowded(in_ack(300)), any::<bool>()), 1..3))
                .prop_map(|(seed, mut connack_props, n, acks)| {
                    connack_props.crowd = n;
                    AckCase { seed, sp: false, connack_reason: 0, connack_props, cut: Cut::Whole, acks }
                })
                .boxed()
        },
        run_acks,
    );
    let want = Want { notifs: true, ..Want::default() };
    let w = Weights {
        cmd: 12,
        burst: 1,
        handles: 1,
        input: 3,
        ack: 14,
        ack_many: 2,
        bogus: 3,
        sched: 8,
        drain: 3,
        clog: 1,
        late_connack: true,
        len: 50,
        ..Weights::default()
    };
    phase(
        env,
        rep,
        "history",
        "histories of requests acknowledged in any order with any reason, singly and many at a time, and of acknowledgements nobody waits for, with a pausing consumer, at any scheduling; non-trivial: at least 2 accepted commands or 3 inbound packets",
        env.n(30_000, 400_000),
        move || machine::cases(w),
        move |c, o| machine::run_case(c, want, o),
    );
    super::marathon::marathon(env, rep, super::marathon::Judge::Acks);
    notes(&["notifications carry packets as Debug text; field order and layout of that text do not matter to the comparison"])
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Piece {
    Msg(InMsg),
    Ack(InAck),
    Pingresp,
    Disconnect(u8),
    Bye { reason: u8, props: AProps },
    /// a message with one byte changed
    Flipped { msg: InMsg, at: u16, xor: u8 },
    AckFlipped { ack: InAck, at: u16, xor: u8 },
    Raw(Vec<u8>),
}

impl Piece {
    pub fn bytes(&self) -> Vec<u8> {
        let flip = |mut b: Vec<u8>, at: u16, xor: u8| {
            let i = at as usize % b.len();
            b[i] ^= xor;
            b
        };
        match self {
            Piece::Msg(m) => m.pkt().encode(),
            Piece::Ack(a) => a.pkt().encode(),
            Piece::Pingresp => SPkt::Pingresp.encode(),
            Piece::Disconnect(r) => SPkt::Disconnect { reason: Some(*r), props: None }.encode(),
            Piece::Bye { reason, props } => SPkt::Disconnect { reason: Some(*reason), props: Some(props.get()) }.encode(),
            Piece::Flipped { msg, at, xor } => flip(msg.pkt().encode(), *at, *xor),
            Piece::AckFlipped { ack, at, xor } => flip(ack.pkt().encode(), *at, *xor),
            Piece::Raw(b) => b.clone(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SegCase {
    seed: u64,
    pieces: Vec<Piece>,
    /// bytes cut off the end
    chop: u16,
    fin: bool,
    /// where to cut: 0 at these places (fractions of the length), 1 every byte, 2 inside every packet,
    /// 3 in small pieces to the end
    mode: u8,
    cuts: Vec<u16>,
    /// the stream begins with the CONNACK
    #[serde(default)]
    early: bool,
}

impl SegCase {
    fn stream(&self) -> Vec<u8> {
        let mut b = if self.early { SPkt::Connack { sp: self.seed % 2 == 1, reason: 0, props: vec![] }.encode() } else { vec![] };
        b.extend(self.pieces.iter().flat_map(|p| p.bytes()));
        let n = b.len().saturating_sub(self.chop as usize);
        b.truncate(n);
        b
    }
    fn segments(&self) -> Vec<Vec<u8>> {
        let b = self.stream();
        let mut at: Vec<usize> = match self.mode {
            1 if b.len() <= 600 => (1..b.len()).collect(),
            2 => {
                let mut v = vec![];
                let mut o = 0;
                for p in &self.pieces {
                    let n = p.bytes().len();
                    for (k, c) in self.cuts.iter().enumerate() {
                        if k % 2 == 0 || n <= 4 {
                            v.push(o + *c as usize % n.max(1));
                        } else {
                            // within the fixed header and the first lengths
                            v.push(o + 1 + *c as usize % 4);
                        }
                    }
                    o += n;
                }
                v
            }
            3 => {
                let (mut v, mut o, mut k) = (vec![], 0, 0);
                while o < b.len() {
                    o += 1 + self.cuts[k % self.cuts.len()] as usize % 6;
                    k += 1;
                    v.push(o);
                }
                v
            }
            _ => self.cuts.iter().map(|c| (*c as usize * b.len()) / 65536).collect(),
        };
        at.retain(|x| *x > 0 && *x < b.len());
        at.sort();
        at.dedup();
        let mut out = vec![];
        let mut o = 0;
        for a in at {
            out.push(b[o..a].to_vec());
            o = a;
        }
        out.push(b[o..].to_vec());
        out
    }
}

#[derive(Debug, PartialEq, Clone)]
struct Outcome {
    notifs: Vec<String>,
    acks: Vec<u16>,
    end: Option<&'static str>,
}

async fn deliver(segs: &[Vec<u8>], fin: bool, early: bool) -> Res<Outcome> {
    let mut s = Sess::new()?;
    if early {
        s.await_connect().await?;
    } else {
        s.handshake().await?;
    }
    for g in segs {
        s.send(g).await?;
        // the client sees this much before more arrives
        s.settle().await;
    }
    if fin {
        s.shutdown_write();
        s.wait_end("the session to end after the broker closed").await?;
    } else {
        // it either ends or keeps waiting; ask it to prove it is alive by sending something
        s.settle().await;
        for _ in 0..50 {
            s.step().await;
        }
    }
    let waiting = early && !s.notifs.iter().any(|n| n.kind == "ConnAck");
    if s.end.is_none() && !waiting {
        // messages read so far have been acknowledged: flush them past the kernel
        s.fence_out().await?;
    } else {
        s.settle().await;
    }
    Ok(Outcome {
        notifs: s.app_notifs().iter().map(|n| format!("{} {}", n.kind, n.text)).collect(),
        acks: s.app_pkts().iter().filter_map(|p| if let CPkt::Ack { id, .. } = p { Some(*id) } else { None }).collect(),
        end: s.end.as_ref().map(|e| match e {
            End::Ok => "ok",
            End::Err(_) => "error",
            End::Panic(_) => "panic",
        }),
    })
}

fn run_seg(c: &SegCase, obs: &mut Obs) -> Res {
    let b = c.stream();
    let segs = c.segments();
    // a wait that panics or ends early is no verdict of this property unless only one side does
    let one = |segs: &[Vec<u8>]| -> Res<Result<Outcome, String>> {
        match run(c.seed, deliver(segs, c.fin, c.early)) {
            Ok(o) => Ok(Ok(o)),
            Err(Fail::Violation(m)) => Ok(Err(m)),
            Err(f) => Err(f),
        }
    };
    let a = one(&[b.clone()])?;
    let d = one(&segs)?;
    obs.nontrivial = segs.len() > 1 && b.len() > 4;
    obs.label(if c.fin { "then closed" } else { "left open" });
    match (a, d) {
        (Ok(mut a), Ok(mut d)) => {
            match a.end {
                None => obs.label("session goes on"),
                Some("ok") => obs.label("session ends with ok"),
                _ => obs.label("session ends with an error"),
            }
            if a.end.is_some() && d.end.is_some() {
                // acknowledgements still in the client's kernel are lost if it closes with unread data
                let n = a.acks.len().min(d.acks.len());
                a.acks.truncate(n);
                d.acks.truncate(n);
            }
            if a.notifs != d.notifs {
                let i = (0..).find(|i| a.notifs.get(*i) != d.notifs.get(*i)).unwrap();
                violation!(
                    "the same {} bytes give different notifications: in one piece {} of them, in {} pieces {}; number {} is {} against {}",
                    b.len(),
                    a.notifs.len(),
                    segs.len(),
                    d.notifs.len(),
                    i + 1,
                    clip(&format!("{:?}", a.notifs.get(i))),
                    clip(&format!("{:?}", d.notifs.get(i)))
                );
            }
            ensure!(a.acks == d.acks, "the same {} bytes are acknowledged differently: in one piece {:?}, in {} pieces {:?}", b.len(), a.acks, segs.len(), d.acks);
            ensure!(a.end == d.end, "the same {} bytes end the session differently: in one piece {:?}, in {} pieces {:?}", b.len(), a.end, segs.len(), d.end);
        }
        (Err(_), Err(_)) => obs.label("fails either way"),
        (Ok(_), Err(m)) => violation!("fails only when sent in {} pieces: {}", segs.len(), m),
        (Err(m), Ok(_)) => violation!("fails only when sent in one piece: {}", m),
    }
    Ok(())
}

pub fn piece(max: u32) -> BoxedStrategy<Piece> {
    prop_oneof![
        6 => small_in_msg(1).prop_map(Piece::Msg),
        2 => in_msg(max, 1).prop_map(Piece::Msg),
        3 => in_ack(max.min(300)).prop_map(Piece::Ack),
        1 => Just(Piece::Pingresp),
    ]
    .boxed()
}

pub fn last_piece() -> BoxedStrategy<Piece> {
    prop_oneof![
        2 => code(DISCONNECT_REASONS).prop_map(Piece::Disconnect),
        1 => (code(DISCONNECT_REASONS), aprops(400)).prop_map(|(reason, props)| Piece::Bye { reason, props }),
        3 => (small_in_msg(1), any::<u16>(), 1u8..=255).prop_map(|(msg, at, xor)| Piece::Flipped { msg, at, xor }),
        2 => (in_ack(40), any::<u16>(), 1u8..=255).prop_map(|(ack, at, xor)| Piece::AckFlipped { ack, at, xor }),
        1 => vec(any::<u8>(), 1..12).prop_map(Piece::Raw),
        1 => proptest::sample::select(vec![
            vec![0x30u8, 0x80, 0x80, 0x80, 0x80, 0x01],
            vec![0x30, 0xFF, 0xFF, 0xFF, 0xFF],
            vec![0x30, 0xFF, 0xFF, 0xFF, 0x7F],
            vec![0x30, 0x80],
            vec![0x00, 0x00],
            vec![0xD0, 0x80, 0x00],
        ])
        .prop_map(Piece::Raw),
    ]
    .boxed()
}

#[cfg(feature = "hooks")]
fn run_dec(c: &SegCase, obs: &mut Obs) -> Res {
    let b = c.stream();
    let segs = c.segments();
    let go = |s: &[Vec<u8>]| {
        guarded(|| {
            let v: Vec<&[u8]> = s.iter().map(|x| &x[..]).collect();
            ruq::verif_hooks::decode_chunks(&v)
        })
    };
    obs.nontrivial = segs.len() > 1 && b.len() > 4;
    match (go(&[b.clone()]), go(&segs)) {
        (Ok((p, r)), Ok((q, t))) => {
            obs.count("packets decoded", p.len() as u64);
            ensure!(p == q, "decoded differently: in one piece {}, in {} pieces {}", clip(&format!("{:?}", p)), segs.len(), clip(&format!("{:?}", q)));
            let same = match (&r, &t) {
                (Ok(x), Ok(y)) => x == y,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            ensure!(same, "decoding ends differently: in one piece {:?}, in {} pieces {:?}", r, segs.len(), t);
        }
        (Err(_), Err(_)) => obs.label("panics either way"),
        (a, d) => violation!("decoder panics only one way: {} / {}", clip(&format!("{:?}", a)), clip(&format!("{:?}", d))),
    }
    Ok(())
}

fn seg_case(max: u32, n: usize) -> BoxedStrategy<SegCase> {
    (
        any::<u64>(),
        vec(piece(max), 1..n),
        proptest::option::of(last_piece()),
        vec(small_in_msg(0).prop_map(Piece::Msg), 0..2),
        prop_oneof![3 => Just(0u16), 1 => 1u16..40],
        any::<bool>(),
        0u8..3,
        vec(any::<u16>(), 1..7),
        proptest::bool::weighted(0.2),
    )
        .prop_map(|(seed, mut pieces, last, more, chop, fin, mode, cuts, early)| {
            if let Some(l) = last {
                pieces.push(l);
                pieces.extend(more);
            }
            SegCase { seed, pieces, chop, fin, mode, cuts, early }
        })
        .boxed()
}

pub fn c08(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "session",
        "a stream of valid packets, with or without the CONNACK at its beginning, often ended by a damaged packet, a DISCONNECT, over-long lengths or a truncation, sent once in one piece and once cut at random places, inside every packet, or at every byte; notifications, PUBACKs and the way the session ends must agree; non-trivial: more than one piece and more than 4 bytes",
        env.n(35_000, 500_000),
        || seg_case(400, 6),
        run_seg,
    );
    phase(
        env,
        rep,
        "session-large",
        "as session, with packets of up to 70000 bytes",
        env.n(6000, 90_000),
        || seg_case(65535, 3),
        run_seg,
    );
    let drops = |max: u32| {
        (any::<u64>(), (topic_name(60), log_uniform(max), any::<u8>(), 0u8..2, pktid()), vec(small_in_msg(1).prop_map(Piece::Msg), 0..3), any::<bool>(), vec(any::<u16>(), 1..7))
            .prop_map(|(seed, (topic, len, k, qos, id), after, fin, cuts)| {
                let big = InMsg { topic, payload: Blob::Big { len, k }, qos, dup: false, retain: false, id, props: vec![] };
                SegCase { seed, pieces: std::iter::once(Piece::Msg(big)).chain(after).collect(), chop: 0, fin, mode: 3, cuts, early: false }
            })
            .boxed()
    };
    phase(
        env,
        rep,
        "drops",
        "a message of up to 60000 bytes, then small ones, in pieces of 1-6 bytes to the end, against the same in one piece",
        env.n(120, 2000),
        || drops(60_000),
        run_seg,
    );
    if cfg!(feature = "hooks") {
        #[cfg(feature = "hooks")]
        phase(
            env,
            rep,
            "decoder-drops",
            "as drops, fed to the stream decoder itself",
            env.n(120, 2000),
            || drops(60_000),
            run_dec,
        );
        #[cfg(feature = "hooks")]
        phase(
            env,
            rep,
            "decoder",
            "the same streams fed to the stream decoder itself",
            env.n(150_000, 2_000_000),
            || seg_case(200, 8),
            run_dec,
        );
    } else {
        rep.exhaustive_notes.push("built without hooks: decoder exercised through sessions only".into());
    }
    notes(&["that the client reads one segment before the next is written is arranged by running it to rest in between; loopback TCP may still merge segments, which only repeats the one-piece case"])
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SweepCase {
    seed: u64,
    /// start and stride through the identifiers
    start: u16,
    stride: u16,
    chunk: u16,
    dup: bool,
}

fn run_sweep(c: &SweepCase, obs: &mut Obs) -> Res {
    let due: Vec<u16> = (0..65535u32).map(|i| ((c.start as u32 + i * c.stride as u32) % 65535) as u16 + 1).collect();
    run(c.seed, async {
        let mut s = Sess::connected().await?;
        for ch in due.chunks(c.chunk as usize) {
            let mut b = vec![];
            for (i, id) in ch.iter().enumerate() {
                b.extend_from_slice(
                    &SPkt::Publish { dup: c.dup, qos: 1, retain: false, topic: "t".into(), id: *id, props: vec![], payload: vec![i as u8] }.encode(),
                );
            }
            s.send(&b).await?;
            s.step().await;
            s.notifs.clear();
        }
        s.fence_in().await?;
        s.wait("65535 PUBACKs", |s| s.pkts.len() >= 65535).await?;
        s.fence_out().await?;
        s.no_panic()?;
        let got = s.app_pkts();
        ensure!(got.len() == 65535, "{} packets for 65535 QoS 1 messages", got.len());
        for (g, id) in got.iter().zip(&due) {
            match g {
                CPkt::Ack { ptype: 4, id: x, reason: 0, .. } if x == id => {}
                _ => violation!("message with identifier {} answered by {:?}", id, g),
            }
        }
        Ok(())
    })?;
    obs.count("identifiers acknowledged", 65535);
    obs.nontrivial = true;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PaCase {
    seed: u64,
    cut: Cut,
    items: Vec<PaItem>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum PaItem {
    Msg(InMsg),
    Ack(InAck),
    Pingresp,
    Publish(u8),
    Subscribe,
}

impl Tweak for PaItem {
    fn tweak(&mut self, how: u8) {
        if let PaItem::Msg(m) = self {
            m.tweak(how)
        }
    }
}

fn run_pa(c: &PaCase, obs: &mut Obs) -> Res {
    let mut due: Vec<u16> = vec![];
    run(c.seed, async {
        let mut s = Sess::connected().await?;
        let mut pending = vec![];
        for it in &c.items {
            match it {
                PaItem::Msg(m) => {
                    if m.qos == 1 {
                        due.push(m.id);
                    }
                    pending.push(m.pkt().encode());
                }
                PaItem::Ack(a) => pending.push(a.pkt().encode()),
                PaItem::Pingresp => pending.push(SPkt::Pingresp.encode()),
                PaItem::Publish(q) => {
                    send_cut(&mut s, &std::mem::take(&mut pending), &c.cut).await?;
                    s.command_patiently("a publish", |cl| cl.publish(ruq::PublishBuilder::from_bytes("p", b"p").qos(qos(*q)))).await?;
                }
                PaItem::Subscribe => {
                    send_cut(&mut s, &std::mem::take(&mut pending), &c.cut).await?;
                    s.command_patiently("a subscribe", |cl| cl.subscribe("s", qos(1))).await?;
                }
            }
        }
        send_cut(&mut s, &pending, &c.cut).await?;
        s.fence_in().await?;
        let n = due.len();
        let acks = |s: &Sess| -> Vec<CPkt> { s.pkts.iter().filter(|p| matches!(p.1, CPkt::Ack { .. })).map(|p| p.1.clone()).collect() };
        s.wait(&format!("{} PUBACKs", n), |s| acks(s).len() >= n).await?;
        s.fence_out().await?;
        s.no_panic()?;
        let got = acks(&s);
        ensure!(got.len() == n, "{} acknowledgements for {} QoS 1 messages: {}", got.len(), n, clip(&format!("{:?}", got)));
        for (i, (g, id)) in got.iter().zip(&due).enumerate() {
            match g {
                CPkt::Ack { ptype: 4, id: x, reason: 0, .. } if x == id => {}
                _ => violation!("QoS 1 message {} has identifier {} and was answered by {:?}", i + 1, id, g),
            }
        }
        Ok(())
    })?;
    obs.count("QoS 1 messages", due.len() as u64);
    obs.count("other packets and commands", (c.items.len() - due.len()) as u64);
    obs.nontrivial = due.len() >= 2;
    Ok(())
}

pub fn c09(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "messages",
        "1-12 QoS 0/1 messages, some of them sent again unchanged or nearly so, with any identifier (small ones, so repeats, and edges favoured), DUP or not, any properties, among acknowledgements and outbound commands; exactly the due PUBACKs, in order, success; non-trivial: at least 2 QoS 1 messages",
        env.n(80_000, 1_200_000),
        || {
            let item = prop_oneof![
                8 => small_in_msg(1).prop_map(PaItem::Msg),
                1 => in_msg(3000, 1).prop_map(PaItem::Msg),
                1 => in_ack(30).prop_map(PaItem::Ack),
                1 => Just(PaItem::Pingresp),
                2 => (0u8..2).prop_map(PaItem::Publish),
                1 => Just(PaItem::Subscribe),
            ];
            (any::<u64>(), cut(), again(vec(item, 1..13).boxed())).prop_map(|(seed, cut, items)| PaCase { seed, cut, items }).boxed()
        },
        run_pa,
    );
    let want = Want { pubacks: true, ..Want::default() };
    let w = Weights {
        cmd: 8,
        burst: 1,
        handles: 2,
        input: 14,
        many_input: 2,
        ack: 5,
        sched: 8,
        drain: 3,
        clog: 1,
        advance: 1,
        drop_rx: 1,
        late_connack: false,
        len: 50,
        ..Weights::default()
    };
    phase(
        env,
        rep,
        "history",
        "histories with messages in bursts, a pausing or vanished consumer, a broker that stops reading, commands and acknowledgements",
        env.n(30_000, 400_000),
        move || machine::cases(w),
        move |c, o| machine::run_case(c, want, o),
    );
    rep.exhaustive_notes.push("every packet identifier 1..=65535 acknowledged within one session".into());
    phase(
        env,
        rep,
        "all-identifiers",
        "one session receiving a QoS 1 message with each of the 65535 identifiers, in several orders",
        env.n(6, 48),
        || {
            (any::<u64>(), 0u16..65535, prop_oneof![Just(1u16), Just(65534), Just(2), Just(32768 - 1)], prop_oneof![Just(1000u16), 1u16..500], any::<bool>())
                .prop_map(|(seed, start, stride, chunk, dup)| SweepCase { seed, start, stride, chunk: chunk.max(50), dup })
                .boxed()
        },
        run_sweep,
    );
    super::marathon::marathon(env, rep, super::marathon::Judge::Pubacks);
    notes(&["a PUBACK that would come only after later outbound traffic and a settled session would be missed"])
}
