//! C01, C02, C15: what the application asks for is what the broker reads.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::notes;
use crate::engine::{phase, Env, Obs, Report};
use crate::gen::*;
use crate::sim::*;
use crate::wire::*;
use crate::{ensure, violation};

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PubCase {
    seed: u64,
    /// issued before the connection exists
    early: bool,
    pubs: Vec<Pub>,
    /// the broker reads nothing for this many ms from now on; 255: it does read
    #[serde(default = "reads")]
    clog: u8,
}

fn reads() -> u8 {
    255
}

fn pub_case(one: BoxedStrategy<Pub>, max: usize) -> BoxedStrategy<PubCase> {
    let clog = prop_oneof![3 => Just(255u8), 1 => 0u8..255];
    (any::<u64>(), any::<bool>(), again(vec(one, 1..=max).boxed()), clog).prop_map(|(seed, early, pubs, clog)| PubCase { seed, early, pubs, clog }).boxed()
}

fn run_pubs(c: &PubCase, obs: &mut Obs) -> Res {
    run(c.seed, async {
        let clog = c.clog < 255;
        let mut s = if clog { Sess::narrow()? } else { Sess::new()? };
        if !c.early {
            s.handshake().await?;
        }
        if clog && !c.early {
            s.reading = false;
        }
        for p in &c.pubs {
            let b = p.builder();
            // few enough for the queue
            match guarded(|| s.client().publish(b)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => violation!("a publish was refused: {:?}", e),
                Err(p) => violation!("client call panicked: {}", p),
            }
            if clog && !c.early {
                s.settle().await;
            }
        }
        if c.early {
            s.handshake().await?;
        }
        if clog {
            s.reading = false;
            s.settle().await;
            s.advance(c.clog as u64 * 25).await;
            s.settle().await;
        }
        s.fence_out().await?;
        s.no_panic()?;
        let got = s.app_pkts();
        let mut used = vec![false; got.len()];
        for (i, p) in c.pubs.iter().enumerate() {
            // order is another property's business: any packet will do
            let hit = (0..got.len()).find(|j| !used[*j] && p.matches(got[*j]).is_ok());
            match hit {
                Some(j) => used[j] = true,
                None => {
                    let why = match got.get(i) {
                        Some(g) => p.matches(g).unwrap_err(),
                        None => "no packet at all".into(),
                    };
                    violation!("publish {} did not reach the broker as written: {}", i + 1, why)
                }
            }
        }
        if let Some(j) = used.iter().position(|u| !u) {
            violation!("broker received a packet nobody asked for: {}", clip(&format!("{:?}", got[j])));
        }
        Ok(())
    })?;
    for p in &c.pubs {
        let total = p.payload_bytes().len() + p.topic.len() + props_bytes(&p.expect_props()).len() + 2;
        obs.label(match p.qos {
            None => "QoS left unset",
            Some(0) => "QoS 0",
            Some(1) => "QoS 1",
            _ => "QoS 2",
        });
        if c.clog < 255 {
            obs.label("to a broker that does not read at first");
        }
        obs.label(if p.text { "text" } else { "binary" });
        obs.label(match total {
            0..=127 => "remaining length 1 byte",
            128..=16383 => "remaining length 2 bytes",
            16384..=2097151 => "remaining length 3 bytes",
            _ => "remaining length 4 bytes",
        });
        obs.label(match p.props.len() {
            0 => "no extra properties",
            1 => "1 extra property",
            _ => "several extra properties",
        });
    }
    obs.nontrivial = c.pubs.iter().any(|p| p.topic.len() > 0 && (!p.props.is_empty() || p.payload_bytes().len() > 0));
    Ok(())
}

pub fn c01(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "publish",
        "1-6 publishes (some again, unchanged or nearly so) with random topics, text/binary payloads, property lists and QoS, sizes biased to where encodings change form, issued before or after connecting, to a broker that reads at once or later (little buffer space in between); non-trivial: some publish has a topic and a payload or properties",
        env.n(60_000, 1_000_000),
        || pub_case(publish(65535, 2), 6),
        run_pubs,
    );
    phase(
        env,
        rep,
        "huge",
        "one publish whose remaining length, or length of properties, is around 2097151/2097152 or several megabytes, or with up to 100000 user properties; non-trivial: as above",
        env.n(200, 2000),
        || {
            let huge = any::<bool>().prop_flat_map(|text| {
                (
                    topic_name(300),
                    Just(text),
                    (proptest::sample::select(vec![2097150u32, 2097151, 2097152, 2097153, 3_000_000, 5_000_001]), any::<u8>())
                        .prop_map(move |(total, k)| Blob::Fit { total, k, text }),
                    proptest::option::of(0u8..=2),
                    pprops(false, 300),
                )
                    .prop_map(|(topic, text, payload, qos, props)| Pub { topic, text, payload, qos, props })
            });
            let section = (publish(300, 2), proptest::sample::select(vec![2097150u32, 2097151, 2097152, 2097153, 2_500_000]), any::<u8>()).prop_map(|(mut p, total, k)| {
                p.props.push(PProp::UserFit { total, k });
                p
            });
            let crowd = (publish(300, 2), log_uniform(100_000)).prop_map(|(mut p, n)| {
                p.props.push(PProp::Users(n));
                p
            });
            pub_case(prop_oneof![3 => huge, 1 => section, 1 => crowd].boxed(), 1)
        },
        run_pubs,
    );
    phase(
        env,
        rep,
        "long",
        "up to 300 publishes in a session, few of them different, with acknowledgements of all kinds, inbound messages and pings in between; non-trivial: at least one request",
        env.n(4000, 60_000),
        || long_case(1, 0),
        run_reqs,
    );
    super::marathon::marathon(env, rep, super::marathon::Judge::Publishes);
    notes(&[])
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Req {
    Sub(Txt, u8),
    Unsub(Txt),
    Pub(Pub),
    /// a QoS 1 message from the broker, to be acknowledged
    In(u16),
    /// let the next ping fall due
    Ping,
    Step(u8),
    /// the broker stops reading until something is waited for
    Clog,
    /// the broker acknowledges up to `n` requests
    Ack { n: u8, newest: bool, fail: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReqCase {
    #[serde(default)]
    narrow: bool,
    seed: u64,
    /// how many of the requests are issued before connecting
    early: u8,
    reqs: Vec<Req>,
    disconnect: bool,
}

fn req() -> BoxedStrategy<Req> {
    prop_oneof![
        6 => (txt(65535), 0u8..3).prop_map(|(t, q)| Req::Sub(t, q)),
        6 => txt(65535).prop_map(Req::Unsub),
        2 => small_publish(2).prop_map(Req::Pub),
        1 => pktid().prop_map(Req::In),
        1 => Just(Req::Ping),
        1 => (1u8..4).prop_map(Req::Step),
        2 => Just(Req::Clog),
    ]
    .boxed()
}

/// A command for which there is room.
fn accept(s: &mut Sess, f: impl FnOnce(&mut ruq::Client) -> Result<(), anyhow::Error>) -> Res {
    match guarded(|| f(s.client())) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => violation!("a command was refused: {:?}", e),
        Err(p) => violation!("client call panicked: {}", p),
    }
}

fn request(p: &CPkt) -> bool {
    matches!(p, CPkt::Subscribe { .. } | CPkt::Unsubscribe { .. } | CPkt::Publish { .. })
}

fn pings_seen(s: &Sess) -> usize {
    s.pkts.iter().filter(|p| p.1 == CPkt::Pingreq).count()
}

async fn answer_pings(s: &mut Sess, answered: &mut usize) -> Res {
    while *answered < pings_seen(s) {
        *answered += 1;
        s.send(&SPkt::Pingresp.encode()).await?;
    }
    s.fence_in().await
}

fn run_reqs(c: &ReqCase, obs: &mut Obs) -> Res {
    let labels = run(c.seed, async {
        let mut o = Obs::default();
        let mut s = if c.narrow { Sess::narrow()? } else { Sess::new()? };
        let mut want: Vec<&Req> = vec![];
        let mut connected = false;
        // positions of requests that are acknowledged; all before `acked_to` are
        let (mut acked, mut acked_to) = (std::collections::HashSet::new(), 0);
        // ping requests that have been answered
        let mut pings = 0;
        // requests among the first `seen` packets
        let (mut arrived, mut seen) = (0, 0);
        for (i, r) in c.reqs.iter().enumerate() {
            if i >= c.early as usize && !connected {
                s.handshake().await?;
                connected = true;
            }
            // there must be room for the command
            let n = want.len();
            if connected && n > 60 {
                for p in &s.pkts[seen..] {
                    arrived += request(&p.1) as usize;
                }
                seen = s.pkts.len();
                // fences are counted, too: so many more must have arrived
                let fences = s.fences_out();
                if arrived + 60 < n + fences {
                    s.wait("requests to be sent", |s| s.pkts[seen..].iter().filter(|p| request(&p.1)).count() + arrived + 60 >= n + fences).await?;
                }
            }
            match r {
                Req::Sub(t, q) => {
                    let t = t.get();
                    accept(&mut s, |cl| cl.subscribe(&t, qos(*q)))?;
                    want.push(r);
                    o.label("subscribe");
                }
                Req::Unsub(t) => {
                    let t = t.get();
                    accept(&mut s, |cl| cl.unsubscribe(&t))?;
                    want.push(r);
                    o.label("unsubscribe");
                }
                Req::Pub(p) => {
                    let b = p.builder();
                    accept(&mut s, |cl| cl.publish(b.clone()))?;
                    want.push(r);
                    o.label("publish");
                }
                Req::In(id) => {
                    if connected {
                        let m = SPkt::Publish { dup: false, qos: 1, retain: false, topic: "m".into(), id: *id, props: vec![], payload: vec![] };
                        s.send(&m.encode()).await?;
                        o.label("QoS 1 message in");
                    }
                }
                Req::Ping => {
                    if connected {
                        // nothing may be on the way when the clock moves
                        s.fence_out().await?;
                        answer_pings(&mut s, &mut pings).await?;
                        s.advance(8001).await;
                        let mut i = 0;
                        while i < 200 && pings_seen(&s) == pings {
                            s.step().await;
                            i += 1;
                        }
                        s.fence_out().await?;
                        if pings_seen(&s) > pings {
                            o.label("ping");
                        }
                        answer_pings(&mut s, &mut pings).await?;
                    }
                }
                Req::Ack { n, newest, fail } => {
                    let mut due: Vec<SPkt> = vec![];
                    let code = |t: &[(u8, &'static str)]| t[if *fail == 0 { 0 } else { *fail as usize % t.len() }].0;
                    for (at, p) in s.pkts.iter().enumerate().skip(acked_to) {
                        let (id, a) = match &p.1 {
                            CPkt::Publish { qos: 1, id, topic, .. } if !topic.starts_with(FENCE) => {
                                (*id, SPkt::Puback { id: *id, reason: if *fail == 0 { None } else { Some(code(PUBACK_REASONS)) }, props: None })
                            }
                            CPkt::Subscribe { id, .. } => (*id, SPkt::Suback { id: *id, props: vec![], reason: code(SUBACK_REASONS) }),
                            CPkt::Unsubscribe { id, .. } => (*id, SPkt::Unsuback { id: *id, props: vec![], reason: code(UNSUBACK_REASONS) }),
                            _ => continue,
                        };
                        if id != 0 && !acked.contains(&at) {
                            acked.insert(at);
                            due.push(a);
                            if due.len() == *n as usize && !*newest {
                                break;
                            }
                        }
                    }
                    if *newest {
                        due.reverse();
                    } else if due.is_empty() {
                        acked_to = s.pkts.len();
                    }
                    for a in due {
                        s.send(&a.encode()).await?;
                        o.label("acknowledgement");
                    }
                }
                Req::Clog => {
                    if connected && c.narrow {
                        s.reading = false;
                        o.label("broker stops reading");
                    }
                }
                Req::Step(n) => {
                    for _ in 0..*n {
                        s.step().await;
                    }
                }
            }
        }
        if !connected {
            s.handshake().await?;
        }
        if c.disconnect {
            // a socket closed with unread data resets the connection and may
            // lose what was sent last: let everything be read first
            s.fence_in().await?;
            s.command_patiently("a disconnect", |cl| cl.disconnect()).await?;
            let end = s.wait_end("the event loop to end after disconnect").await?;
            ensure!(end == End::Ok, "disconnect ended the session with {:?}", end);
            s.wait_("the connection to be closed", |s| s.eof || s.reset, true).await?;
            let last = s.pkts.last().map(|p| p.1.clone());
            ensure!(
                last == Some(CPkt::Disconnect { reason: 0, props: vec![] }),
                "last packet after disconnect is {:?}",
                last
            );
            ensure!(s.pkts.iter().filter(|p| matches!(p.1, CPkt::Disconnect { .. })).count() == 1, "more than one DISCONNECT");
            o.label("disconnect");
        } else {
            s.fence_out().await?;
        }
        s.no_panic()?;
        ensure!(s.partial() == 0, "{} bytes of an incomplete packet at the end", s.partial());
        let got: Vec<&CPkt> = s
            .app_pkts()
            .into_iter()
            .filter(|p| request(p))
            .collect();
        ensure!(got.len() == want.len(), "{} requests arrived, {} were accepted", got.len(), want.len());
        for p in s.app_pkts() {
            ensure!(
                !matches!(p, CPkt::Connect { .. } | CPkt::Auth),
                "unexpected packet in mid-session: {:?}",
                p
            );
            if let CPkt::Disconnect { .. } = p {
                ensure!(c.disconnect, "DISCONNECT although nobody asked");
            }
        }
        let mut used = vec![false; got.len()];
        for (i, r) in want.iter().enumerate() {
            let ok = |p: &CPkt| match (r, p) {
                (Req::Sub(t, q), CPkt::Subscribe { id, props, filters }) => {
                    *id != 0 && props.is_empty() && filters.len() == 1 && filters[0].0 == t.get() && filters[0].1 == *q
                }
                (Req::Unsub(t), CPkt::Unsubscribe { id, props, filters }) => {
                    *id != 0 && props.is_empty() && filters.len() == 1 && filters[0] == t.get()
                }
                (Req::Pub(p), g @ CPkt::Publish { .. }) => p.matches(g).is_ok(),
                _ => false,
            };
            match (0..got.len()).find(|j| !used[*j] && ok(got[*j])) {
                Some(j) => used[j] = true,
                None => violation!(
                    "request {} {} arrived as {}",
                    i + 1,
                    clip(&format!("{:?}", r)),
                    clip(&format!("{:?}", got[i]))
                ),
            }
        }
        Ok(o)
    })?;
    for (k, v) in labels.labels {
        obs.count(k, v);
    }
    obs.nontrivial = c.reqs.iter().any(|r| matches!(r, Req::Sub(..) | Req::Unsub(..) | Req::Pub(..)));
    Ok(())
}

/// Many requests, few of them different.
fn long_case(pubs: u32, subs: u32) -> BoxedStrategy<ReqCase> {
    let other = || {
        prop_oneof![
            2 => pktid().prop_map(Req::In),
            2 => Just(Req::Ping),
            4 => (1u8..6).prop_map(Req::Step),
            1 => Just(Req::Clog),
            6 => (prop_oneof![3 => 1u8..6, 1 => any::<u8>()], any::<bool>(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()]).prop_map(|(n, newest, fail)| Req::Ack { n, newest, fail }),
        ]
        .boxed()
    };
    let mut arms: Vec<(u32, BoxedStrategy<Req>)> = vec![(pubs, publish(300, 2).prop_map(Req::Pub).boxed())];
    if subs > 0 {
        arms.push((subs, (txt(300), 0u8..3).prop_map(|(t, q)| Req::Sub(t, q)).boxed()));
        arms.push((subs, txt(300).prop_map(Req::Unsub).boxed()));
    }
    let one = proptest::strategy::Union::new_weighted(arms);
    let pick = prop_oneof![4 => any::<proptest::sample::Index>().prop_map(Ok), 1 => other().prop_map(Err)];
    let picks = prop_oneof![vec(pick.clone(), 2..30), vec(pick, 30..300)];
    (any::<u64>(), prop_oneof![3 => Just(0u8), 1 => 1u8..90], vec(one, 1..4), picks, any::<bool>(), proptest::bool::weighted(0.2))
        .prop_map(|(seed, early, pool, picks, disconnect, narrow)| {
            let reqs = picks.into_iter().map(|p| p.map_or_else(|r| r, |i| i.get(&pool).clone())).collect();
            ReqCase { seed, early, reqs, disconnect, narrow }
        })
        .boxed()
}

pub fn c02(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "requests",
        "1-8 requests (subscribe/unsubscribe with filters of up to 65535 bytes, publishes), some issued before connecting, mixed with inbound QoS 1 messages and pings, sometimes with a broker that stops reading, half of them ended by disconnect; every byte from CONNECT on goes through a strict decoder; non-trivial: at least one subscribe or unsubscribe",
        env.n(150_000, 2_000_000),
        || {
            (any::<u64>(), prop_oneof![3 => Just(0u8), 1 => 1u8..8], vec(req(), 1..9), any::<bool>(), proptest::bool::weighted(0.3))
                .prop_map(|(seed, early, reqs, disconnect, narrow)| ReqCase { seed, early, reqs, disconnect, narrow })
                .boxed()
        },
        run_reqs,
    );
    phase(
        env,
        rep,
        "long",
        "up to 300 requests in a session, few of them different, with acknowledgements of all kinds, inbound messages and pings in between; non-trivial: at least one request",
        env.n(4000, 60_000),
        || long_case(1, 2),
        run_reqs,
    );
    super::marathon::marathon(env, rep, super::marathon::Judge::Requests);
    notes(&[])
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Big {
    Sub(u32),
    Unsub(u32),
    Pub { topic: u32, qos: u8, props: Vec<BigProp>, payload: u32 },
    /// a publish whose remaining length is exactly this
    Total { total: u32, text: bool, qos: u8, props: u8 },
    /// this text as 0 a filter to subscribe to, 1 to unsubscribe from, 2 the topic, 3 the response topic, 4 a user
    /// property's name, 5 its value, 6 correlation data, 7 a text payload, 8 a binary one
    Text { what: u8, text: String, qos: u8 },
    Plain(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum BigProp {
    Response(u32),
    Corr(u32),
    Key(u32),
    Value(u32),
    Expiry,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BigCase {
    seed: u64,
    early: bool,
    cmds: Vec<Big>,
    /// fill pattern
    k: u8,
}

const PACKET_MAX: usize = 268_435_455;

impl Big {
    fn as_pub(&self, n: usize, k: u8) -> Option<Pub> {
        let t = |len: u32| Txt::Big { len, k };
        match self {
            Big::Pub { topic, qos, props, payload } => Some(Pub {
                topic: if *topic <= 20 { Txt::S(format!("t/{}", n)) } else { t(*topic) },
                text: false,
                payload: Blob::Big { len: *payload, k },
                qos: Some(*qos),
                props: props
                    .iter()
                    .map(|p| match p {
                        BigProp::Response(l) => PProp::Response(t(*l)),
                        BigProp::Corr(l) => PProp::Corr(Blob::Big { len: *l, k }),
                        BigProp::Key(l) => PProp::User(t(*l), Txt::S("v".into())),
                        BigProp::Value(l) => PProp::User(Txt::S("k".into()), t(*l)),
                        BigProp::Expiry => PProp::Expiry(7),
                    })
                    .collect(),
            }),
            Big::Text { what, text, qos } => {
                let t = Txt::S(text.clone());
                let plain = |s: &str| Txt::S(s.into());
                Some(Pub {
                    topic: if *what == 2 { t.clone() } else { Txt::S(format!("t/{}", n)) },
                    text: *what != 8,
                    payload: if *what == 7 { Blob::T(t.clone()) } else { Blob::B(if *what == 8 { text.clone().into_bytes() } else { b"p".to_vec() }) },
                    qos: Some(*qos),
                    props: match what {
                        3 => vec![PProp::Response(t)],
                        4 => vec![PProp::User(t, plain("v"))],
                        5 => vec![PProp::User(plain("k"), plain("v")), PProp::User(plain("k"), t)],
                        6 => vec![PProp::Corr(Blob::B(text.clone().into_bytes()))],
                        _ => vec![],
                    },
                })
            }
            _ => None,
        }
    }
    /// Is every string and binary field within the limit?
    fn fits(&self) -> bool {
        match self {
            Big::Sub(n) | Big::Unsub(n) => *n <= 65535,
            Big::Pub { topic, props, .. } => {
                *topic <= 65535
                    && props.iter().all(|p| match p {
                        BigProp::Response(l) | BigProp::Corr(l) | BigProp::Key(l) | BigProp::Value(l) => *l <= 65535,
                        BigProp::Expiry => true,
                    })
            }
            Big::Total { total, .. } => *total as usize <= PACKET_MAX,
            Big::Text { what, text, .. } => *what > 5 || !text.contains('\0'),
            Big::Plain(_) => true,
        }
    }
}

fn run_big(c: &BigCase, obs: &mut Obs) -> Res {
    run(c.seed, async {
        let mut s = Sess::new()?;
        if !c.early {
            s.handshake().await?;
        }
        let mut want: Vec<(usize, &Big)> = vec![];
        for (i, b) in c.cmds.iter().enumerate() {
            let call = |cl: &mut ruq::Client| -> Result<Result<(), anyhow::Error>, String> {
                guarded(|| match b {
                    Big::Sub(n) => cl.subscribe(&big_text(*n as usize, c.k), qos(1)),
                    Big::Unsub(n) => cl.unsubscribe(&big_text(*n as usize, c.k)),
                    Big::Text { what: 0, text, qos: q } => cl.subscribe(text, qos(*q)),
                    Big::Text { what: 1, text, .. } => cl.unsubscribe(text),
                    Big::Pub { .. } | Big::Text { .. } => cl.publish(b.as_pub(i, c.k).unwrap().builder()),
                    Big::Total { total, text, qos: q, props } => cl.publish(total_builder(i, *total, *text, *q, *props)),
                    Big::Plain(q) => cl.publish(ruq::PublishBuilder::from_bytes(&format!("plain/{}", i), b"p").qos(qos(*q))),
                })
            };
            if b.fits() {
                // never more than a handful at once, so the queue has room
                let r = match call(s.client()) {
                    Ok(r) => r,
                    Err(p) => violation!("client call panicked: {}", p),
                };
                if let Err(e) = r {
                    violation!("{} is within the limits but was refused: {:?}", brief(b), e);
                }
                want.push((i, b));
            } else {
                match call(s.client()) {
                    Ok(Err(_)) => {}
                    Ok(Ok(())) => violation!("{} cannot be encoded but was accepted", brief(b)),
                    Err(p) => violation!("client call panicked: {}", p),
                }
            }
            if !c.early {
                s.settle().await;
            }
        }
        if c.early {
            s.handshake().await?;
        }
        s.fence_out().await?;
        s.no_panic()?;
        let got = s.app_pkts();
        ensure!(got.len() == want.len(), "{} packets arrived, {} commands were accepted", got.len(), want.len());
        for (g, (i, b)) in got.iter().zip(&want) {
            let ok = match (b, g) {
                (Big::Sub(n), CPkt::Subscribe { filters, .. }) => {
                    filters.len() == 1 && filters[0].0 == big_text(*n as usize, c.k) && filters[0].1 == 1
                }
                (Big::Unsub(n), CPkt::Unsubscribe { filters, .. }) => {
                    filters.len() == 1 && filters[0] == big_text(*n as usize, c.k)
                }
                (Big::Text { what: 0, text, qos }, CPkt::Subscribe { filters, .. }) => {
                    filters.len() == 1 && filters[0].0 == *text && filters[0].1 & 3 == *qos
                }
                (Big::Text { what: 1, text, .. }, CPkt::Unsubscribe { filters, .. }) => filters.len() == 1 && filters[0] == *text,
                (Big::Text { what: 0 | 1, .. }, _) => false,
                (Big::Pub { .. } | Big::Text { .. }, g) => match b.as_pub(*i, c.k).unwrap().matches(g) {
                    Ok(()) => true,
                    Err(e) => violation!("{} arrived altered: {}", brief(b), e),
                },
                (Big::Total { total, text, .. }, CPkt::Publish { topic, payload, props, qos, .. }) => {
                    let rest = 2 + topic.len() + if *qos > 0 { 2 } else { 0 } + props_bytes(props).len();
                    *topic == format!("total/{}", i) && rest + payload.len() == *total as usize && payload_ok(payload, *text)
                }
                (Big::Plain(_), CPkt::Publish { topic, payload, .. }) => *topic == format!("plain/{}", i) && payload == b"p",
                _ => false,
            };
            ensure!(ok, "{} arrived as {}", brief(b), clip(&format!("{:?}", g)));
        }
        Ok(())
    })?;
    for b in &c.cmds {
        obs.label(match (b, b.fits()) {
            (Big::Plain(_), _) => "ordinary",
            (Big::Text { .. }, true) => "text that can be encoded",
            (Big::Text { .. }, false) => "U+0000 where it cannot be",
            (_, true) => "at or below the limits",
            (_, false) => "beyond the limits",
        });
    }
    obs.nontrivial = c.cmds.iter().any(|b| !matches!(b, Big::Plain(_)));
    Ok(())
}


fn brief(b: &Big) -> String {
    clip(&format!("{:?}", b))
}


fn fill(n: usize, text: bool) -> Vec<u8> {
    if text {
        vec![b'z'; n]
    } else {
        let mut v = vec![0xF7u8; n];
        for i in (0..n).step_by(4096) {
            v[i] = (i >> 12) as u8;
        }
        v
    }
}

fn payload_ok(p: &[u8], text: bool) -> bool {
    p == &fill(p.len(), text)[..]
}

fn run_limit(b: &Big, obs: &mut Obs) -> Res {
    let Big::Total { total, text, qos, props } = b else { return Ok(()) };
    let (mut client, _ev, _rx) = ruq::Client::new("127.0.0.1:1");
    let r = match guarded(|| client.publish(total_builder(0, *total, *text, *qos, *props))) {
        Ok(r) => r,
        Err(p) => violation!("client call panicked: {}", p),
    };
    obs.nontrivial = true;
    match (*total as usize <= PACKET_MAX, r) {
        (true, Ok(())) => obs.label("at the limit: accepted"),
        (false, Err(_)) => obs.label("above the limit: refused"),
        (true, Err(e)) => violation!("{} is within the limits but was refused: {:?}", brief(b), e),
        (false, Ok(())) => violation!("{} cannot be encoded but was accepted", brief(b)),
    }
    Ok(())
}

fn total_builder(i: usize, total: u32, text: bool, q: u8, props: u8) -> ruq::PublishBuilder {
    let topic = format!("total/{}", i);
    let mut rest = 2 + topic.len() + if q > 0 { 2 } else { 0 };
    let section = 2 + props as usize * (1 + 2 + 1 + 2 + 1);
    rest += section + vbi(section as u32).len();
    let pl = fill(total as usize - rest, text);
    let mut b = if text {
        ruq::PublishBuilder::from_str(&topic, std::str::from_utf8(&pl).unwrap())
    } else {
        ruq::PublishBuilder::from_bytes(&topic, &pl)
    };
    drop(pl);
    b = b.qos(qos(q));
    for _ in 0..props {
        b = b.with_property(ruq::Property::UserProperty("k".into(), "v".into()));
    }
    b
}

fn biglen() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => proptest::sample::select(vec![65534u32, 65535]),
        4 => proptest::sample::select(vec![65536u32, 65537, 65538, 65663, 65664, 131071, 131072, 131073, 196608, 262144]),
        1 => 65400u32..65536,
        1 => 65536u32..300_000,
    ]
    .boxed()
}

fn big_prop() -> BoxedStrategy<BigProp> {
    let l = || prop_oneof![3 => biglen(), 1 => 0u32..10].boxed();
    prop_oneof![
        l().prop_map(BigProp::Response),
        l().prop_map(BigProp::Corr),
        l().prop_map(BigProp::Key),
        l().prop_map(BigProp::Value),
        Just(BigProp::Expiry),
    ]
    .boxed()
}

fn big() -> BoxedStrategy<Big> {
    let props = vec(big_prop(), 0..4).prop_map(|v| {
        let mut out: Vec<BigProp> = vec![];
        for p in v {
            let rep = matches!(p, BigProp::Key(_) | BigProp::Value(_));
            if rep || !out.iter().any(|q| std::mem::discriminant(q) == std::mem::discriminant(&p)) {
                out.push(p)
            }
        }
        out
    });
    prop_oneof![
        2 => biglen().prop_map(Big::Sub),
        2 => biglen().prop_map(Big::Unsub),
        5 => (prop_oneof![2 => Just(3u32), 1 => biglen()], 0u8..3, props, prop_oneof![Just(0u32), 0u32..200_000])
            .prop_map(|(topic, qos, props, payload)| Big::Pub { topic, qos, props, payload }),
        2 => (0u8..3).prop_map(Big::Plain),
    ]
    .boxed()
}

pub fn c15(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "fields",
        "1-6 commands whose topic, filter or string/binary properties have lengths around 65535/65536 and multiples of 65536, mixed with ordinary ones, before or after connecting; accepted iff every field fits, and exactly the accepted ones arrive intact; non-trivial: at least one command is not ordinary",
        env.n(12_000, 150_000),
        || {
            (any::<u64>(), any::<bool>(), vec(big(), 1..7), any::<u8>())
                .prop_map(|(seed, early, cmds, k)| BigCase { seed, early, cmds, k })
                .boxed()
        },
        run_big,
    );
    phase(
        env,
        rep,
        "nul",
        "1-6 commands with some text that often has U+0000 in it as filter, topic, response topic, user property name or value (refused iff it has), correlation data or payload (accepted); the accepted ones arrive intact; non-trivial: at least one command is not ordinary",
        env.n(20_000, 300_000),
        || {
            let text = prop_oneof![
                3 => "[a-z/é\0]{1,6}",
                2 => ("[a-z]{1,4}", prop_oneof![8 => 0usize..300, 2 => 300usize..9000, 1 => 9000usize..65000], "[a-z]{0,4}").prop_map(|(a, n, b)| format!("{}{}\0{}", a, "x".repeat(n), b)),
                2 => Just("\0".to_string()),
                1 => Just("\0\0".to_string()),
                3 => "[a-z/]{1,8}",
            ];
            let cmd = prop_oneof![
                5 => (0u8..9, text, 0u8..3).prop_map(|(what, text, qos)| Big::Text { what, text, qos }),
                1 => (0u8..3).prop_map(Big::Plain)
            ];
            (any::<u64>(), any::<bool>(), vec(cmd, 1..7)).prop_map(|(seed, early, cmds)| BigCase { seed, early, cmds, k: 0 }).boxed()
        },
        run_big,
    );
    phase(
        env,
        rep,
        "too-large",
        "publishes whose remaining length is just above 268435455 (refused), between ordinary ones; non-trivial: always",
        env.n(12, 32),
        || {
            (any::<u64>(), any::<bool>(), 1u32..4, any::<bool>(), 0u8..3, 0u8..2)
                .prop_map(|(seed, early, over, text, qos, props)| BigCase {
                    seed,
                    early,
                    cmds: vec![Big::Plain(1), Big::Total { total: PACKET_MAX as u32 + over, text, qos, props }, Big::Plain(0)],
                    k: 0,
                })
                .boxed()
        },
        run_big,
    );
    phase(
        env,
        rep,
        "limit",
        "the call alone, with a publish whose remaining length is within 3 of 268435455, of any QoS and kind of payload, with 0-255 properties: accepted iff not above; non-trivial: always",
        env.n(60, 600),
        || {
            let over = prop_oneof![3 => Just(0i8), 2 => Just(1i8), 1 => -3i8..4];
            (over, any::<bool>(), 0u8..3, prop_oneof![2 => 0u8..3, 1 => 12u8..17, 1 => any::<u8>()])
                .prop_map(|(over, text, qos, props)| Big::Total { total: (PACKET_MAX as i64 + over as i64) as u32, text, qos, props })
                .boxed()
        },
        run_limit,
    );
    phase(
        env,
        rep,
        "largest",
        "a publish whose remaining length is 268435455 or a little below (accepted, arrives intact); non-trivial: always",
        env.n(1, 4),
        || {
            (any::<u64>(), prop_oneof![3 => Just(0u32), 1 => 1u32..3], any::<bool>(), 0u8..3, 0u8..2)
                .prop_map(|(seed, under, text, qos, props)| BigCase {
                    seed,
                    early: false,
                    cmds: vec![Big::Total { total: PACKET_MAX as u32 - under, text, qos, props }, Big::Plain(0)],
                    k: 0,
                })
                .boxed()
        },
        run_big,
    );
    notes(&[])
}
