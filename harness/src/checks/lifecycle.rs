//! C13, C14, C16, C17: how sessions begin, end, and what dropped handles and slow consumers do.
use proptest::collection::vec;
use proptest::prelude::*;
use ruq::PublishBuilder;
use serde::{Deserialize, Serialize};

use super::inbound::{cut, piece, send_cut, Cut, Piece};
use super::notes;
use crate::engine::{phase, Env, Obs, Report};
use crate::gen::*;
use crate::machine::{self, Want, Weights};
use crate::sim::*;
use crate::wire::*;
use crate::{ensure, violation};

fn pkts_of(ps: &[Piece]) -> Vec<SPkt> {
    ps.iter()
        .map(|p| match p {
            Piece::Msg(m) => m.pkt(),
            Piece::Ack(a) => a.pkt(),
            _ => SPkt::Pingresp,
        })
        .collect()
}

fn due(ps: &[SPkt]) -> Vec<u16> {
    ps.iter().filter_map(|p| if let SPkt::Publish { qos: 1, id, .. } = p { Some(*id) } else { None }).collect()
}

fn pubacks(s: &Sess) -> Vec<u16> {
    s.pkts.iter().filter_map(|(_, p)| if let CPkt::Ack { ptype: 4, id, .. } = p { Some(*id) } else { None }).collect()
}

/// Issues command number `n`; true if it was accepted.
fn issue(s: &mut Sess, h: usize, kind: u8, n: usize) -> Res<bool> {
    let live: Vec<usize> = (0..s.clients.len()).filter(|i| s.clients[*i].is_some()).collect();
    let l = format!("c/{}", n);
    let c = s.clients[live[h % live.len()]].as_mut().unwrap();
    match guarded(|| match kind % 5 {
        3 => c.subscribe(&l, qos(n as u8 % 3)),
        4 => c.unsubscribe(&l),
        q => c.publish(PublishBuilder::from_bytes(&l, b"x").qos(qos(q % 2))),
    }) {
        Ok(r) => Ok(r.is_ok()),
        Err(p) => violation!("client call panicked: {}", p),
    }
}

/// Numbers of the commands the broker has seen.
fn seen(s: &Sess) -> Vec<usize> {
    s.pkts
        .iter()
        .filter_map(|(_, p)| match p {
            CPkt::Publish { topic, .. } => topic.strip_prefix("c/").and_then(|x| x.parse().ok()),
            CPkt::Subscribe { filters, .. } => filters[0].0.strip_prefix("c/").and_then(|x| x.parse().ok()),
            CPkt::Unsubscribe { filters, .. } => filters[0].strip_prefix("c/").and_then(|x| x.parse().ok()),
            _ => None,
        })
        .collect()
}

/// The event loop is gone: the notification stream ends, commands are refused.
async fn after_end(s: &mut Sess) -> Res {
    s.connected_once()?;
    s.drain = true;
    s.settle().await;
    if s.rx.is_some() {
        ensure!(s.rx_ended, "the event loop is gone but the notification stream has not ended");
    }
    for i in 0..s.clients.len() {
        if let Some(c) = s.clients[i].as_mut() {
            let r = guarded(|| {
                [
                    c.publish(PublishBuilder::from_bytes("t", b"")).is_ok(),
                    c.subscribe("t", qos(0)).is_ok(),
                    c.unsubscribe("t").is_ok(),
                    c.disconnect().is_ok(),
                ]
            });
            match r {
                Err(p) => violation!("client call after the end panicked: {}", p),
                Ok(r) => ensure!(r == [false; 4], "publish, subscribe, unsubscribe, disconnect accepted after the event loop was gone: {:?}", r),
            }
        }
    }
    Ok(())
}

fn merge(obs: &mut Obs, o: Obs) {
    for (k, v) in o.labels {
        obs.count(k, v);
    }
    obs.nontrivial |= o.nontrivial;
    obs.known.extend(o.known);
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
enum How {
    Disconnect { reason: u8, form: u8, props: AProps, tail: Vec<Piece> },
    Close,
    CloseMid { p: Piece, at: u16 },
    Reset,
    /// the application drops the event loop
    Cancel,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EndCase {
    seed: u64,
    prefix: Vec<Piece>,
    /// everything before has been received and acted on when the end comes
    fenced: bool,
    /// the application takes no notifications before the end
    lazy: bool,
    cmds: Vec<(u8, u8)>,
    clones: u8,
    dropped: bool,
    how: How,
    cut: Cut,
    /// messages in front of it all, more than are buffered when many
    #[serde(default)]
    burst: u16,
    /// the application takes so many of them while the rest waits
    #[serde(default)]
    take: u16,
    /// and this much time passes (ms)
    #[serde(default)]
    pause: u16,
}

fn norm(t: &str) -> String {
    t.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect::<String>()
}

fn names(text: &str, code: u8) -> bool {
    let n = match reason_name(DISCONNECT_REASONS, code) {
        Some(n) => norm(n),
        None => return false,
    };
    let t = norm(text);
    // one of them is misspelt
    t.contains(&n) || t.contains(&n.replace("subscrp", "subscr").replace("subscrition", "subscription"))
}

fn run_end(c: &EndCase, obs: &mut Obs) -> Res {
    let mut prefix: Vec<SPkt> = (0..c.burst)
        .map(|i| {
            let q = ((c.seed >> (i % 60)) & 1) as u8;
            SPkt::Publish { dup: false, qos: q, retain: false, topic: format!("b/{}", i), id: if q > 0 { i + 1 } else { 0 }, props: vec![], payload: vec![] }
        })
        .collect();
    prefix.extend(pkts_of(&c.prefix));
    let bytes: Vec<Vec<u8>> = prefix.iter().map(|p| p.encode()).collect();
    let want_acks = due(&prefix);
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let mut s = Sess::connected().await?;
        for _ in 0..c.clones {
            let k = s.clients[0].clone();
            s.clients.push(k);
        }
        s.drain = !c.lazy;
        let fenced = c.fenced || matches!(c.how, How::Cancel | How::Reset);
        if fenced {
            send_cut(&mut s, &bytes, &c.cut).await?;
            if c.lazy && c.burst > 80 {
                s.settle().await;
                s.drain = true;
            }
            if c.lazy {
                let n = want_acks.len();
                s.wait("PUBACKs", move |s| pubacks(s).len() >= n).await?;
                s.settle().await;
            } else {
                s.fence_in().await?;
                let n = want_acks.len();
                s.wait("PUBACKs", move |s| pubacks(s).len() >= n).await?;
            }
        }
        let mut accepted = vec![];
        for (i, (h, k)) in c.cmds.iter().enumerate() {
            if issue(&mut s, *h as usize, *k, i)? {
                accepted.push(i);
            }
        }
        if c.dropped {
            for c in s.clients.iter_mut().skip(1) {
                *c = None;
            }
        }
        let mut stream = if fenced { vec![] } else { bytes.clone() };
        let mut exact_acks = true;
        match &c.how {
            How::Disconnect { reason, form, props, tail } => {
                let d = SPkt::Disconnect {
                    reason: if *form > 0 || *reason != 0 { Some(*reason) } else { None },
                    props: if *form > 1 { Some(props.get()) } else { None },
                };
                stream.push(d.encode());
                let t: Vec<Vec<u8>> = pkts_of(tail).iter().map(|p| p.encode()).collect();
                exact_acks = t.is_empty();
                stream.extend(t);
                send_cut(&mut s, &stream, &c.cut).await?;
            }
            How::Close => {
                send_cut(&mut s, &stream, &c.cut).await?;
                s.shutdown_write();
            }
            How::CloseMid { p, at } => {
                let b = pkts_of(&[p.clone()])[0].encode();
                let at = 1 + *at as usize % (b.len() - 1);
                stream.push(b[..at].to_vec());
                send_cut(&mut s, &stream, &c.cut).await?;
                s.shutdown_write();
            }
            How::Reset => s.abort(),
            How::Cancel => s.cancel(),
        }
        if c.lazy && c.burst > 80 && !matches!(c.how, How::Cancel) {
            // the end is in sight, but there is no room for what comes before it
            s.settle().await;
            s.take_notifs(c.take as usize);
            s.settle().await;
            s.advance(c.pause as u64).await;
            s.settle().await;
            o.label("more in front of the end than is buffered");
            s.drain = true;
        }
        if let How::Cancel = c.how {
            s.wait_("the connection to be closed", |s| s.eof || s.reset, true).await?;
        } else {
            let end = s.wait_end("the event loop to end with the connection").await?;
            match (&c.how, &end) {
                (How::Disconnect { reason: 0, .. }, End::Ok) => o.label("DISCONNECT normal"),
                (How::Disconnect { reason: 0, .. }, e) => violation!("a DISCONNECT with reason normal ended the event loop with {:?}", e),
                (How::Disconnect { reason, .. }, End::Err(m)) => {
                    ensure!(names(m, *reason), "a DISCONNECT with reason {} ({}) ended the event loop with an error that does not name it: {}", reason, reason_name(DISCONNECT_REASONS, *reason).unwrap_or("?"), m);
                    o.label("DISCONNECT with an error reason");
                }
                (How::Disconnect { reason, .. }, e) => violation!("a DISCONNECT with reason {} ended the event loop with {:?}", reason, e),
                (How::Close, End::Ok) => o.label("closed between packets"),
                (How::Close, e) => violation!("an orderly close between packets ended the event loop with {:?}", e),
                (How::CloseMid { .. }, End::Err(_)) => o.label("closed in the middle of a packet"),
                (How::CloseMid { .. }, e) => violation!("a close in the middle of a packet ended the event loop with {:?}", e),
                (_, End::Err(_)) => o.label("reset"),
                (_, e) => violation!("a connection reset ended the event loop with {:?}", e),
            }
        }
        after_end(&mut s).await?;
        s.no_panic()?;
        let want: Vec<&SPkt> = prefix.iter().collect();
        check_notifs(&s.app_notifs(), &want)?;
        let got = pubacks(&s);
        if exact_acks && !matches!(c.how, How::Reset) {
            // input that was never read resets the connection and may lose them
            if !s.reset {
                ensure!(got == want_acks, "PUBACKs {:?}, expected {:?}, when the connection ended", got, want_acks);
            }
        }
        ensure!(got.len() <= want_acks.len() && got[..] == want_acks[..got.len()], "PUBACKs {:?}, expected {:?} (or the first of them), when the connection ended", got, want_acks);
        let sn = seen(&s);
        ensure!(sn.len() <= accepted.len() && sn[..] == accepted[..sn.len()], "commands {:?} were sent, {:?} were accepted, when the connection ended", sn, accepted);
        let other = s.app_pkts().iter().filter(|p| c.pause == 0 || ***p != CPkt::Pingreq).count();
        ensure!(other == got.len() + sn.len(), "client sent {:?} when the broker ended the connection", s.app_pkts().last());
        if let How::Cancel = c.how {
            o.label("event loop dropped");
        }
        o.nontrivial = true;
        Ok(o)
    })?;
    merge(obs, o);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum DOp {
    /// a publish of so many KB
    Big(u8),
    Cmd { h: u8, kind: u8, n: u8 },
    In(Piece),
    Step(u8),
    Settle,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DiscCase {
    seed: u64,
    clones: u8,
    ops: Vec<DOp>,
    /// connect before this op (later than all: after the disconnect call)
    connect_at: u8,
    /// which handle disconnects
    h: u8,
    /// commands after it
    after: u8,
    twice: bool,
    drop: bool,
    lazy: bool,
    /// the broker stops reading before this op (if connected) and starts again after the disconnect call
    #[serde(default = "never")]
    clog_at: u8,
}

fn never() -> u8 {
    255
}

fn run_disc(c: &DiscCase, obs: &mut Obs) -> Res {
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let mut s = if c.clog_at < 255 { Sess::narrow()? } else { Sess::new()? };
        for _ in 0..c.clones {
            let k = s.clients[0].clone();
            s.clients.push(k);
        }
        let mut up = false;
        let mut n = 0;
        let mut accepted = vec![];
        let mut inbound = vec![];
        for (i, op) in c.ops.iter().enumerate() {
            if i >= c.connect_at as usize && !up {
                s.handshake().await?;
                up = true;
                s.drain = !c.lazy;
            }
            if up && i >= c.clog_at as usize {
                s.reading = false;
            }
            match op {
                DOp::Big(kb) => {
                    let l = format!("c/{}", n);
                    let pl = vec![b'b'; *kb as usize * 1024];
                    let k = s.client();
                    match guarded(|| k.publish(PublishBuilder::from_bytes(&l, &pl).qos(qos(n as u8 % 2)))) {
                        Ok(Ok(())) => accepted.push(n),
                        Ok(Err(_)) => {}
                        Err(p) => violation!("client call panicked: {}", p),
                    }
                    n += 1;
                }
                DOp::Cmd { h, kind, n: k } => {
                    for _ in 0..*k {
                        if issue(&mut s, *h as usize, *kind, n)? {
                            accepted.push(n);
                        }
                        n += 1;
                    }
                }
                DOp::In(p) if up => {
                    let p = pkts_of(&[p.clone()]).remove(0);
                    s.send(&p.encode()).await?;
                    inbound.push(p);
                }
                DOp::In(_) => {}
                DOp::Step(k) => {
                    for _ in 0..*k {
                        s.step().await;
                    }
                }
                DOp::Settle => s.settle().await,
            }
        }
        // everything must have been read, or the close resets the connection
        let acks = due(&inbound);
        if up && !inbound.is_empty() {
            s.drain = true;
            s.fence_in().await?;
            s.drain = !c.lazy;
            let n = acks.len();
            s.wait("PUBACKs", move |s| pubacks(s).len() >= n).await?;
        }
        if up && c.clog_at < 255 {
            s.reading = false;
        }
        let h = c.h as usize % s.clients.len();
        let mut tries = 0;
        loop {
            let k = s.clients[h].as_mut().unwrap();
            match guarded(|| k.disconnect()) {
                Err(p) => violation!("disconnect panicked: {}", p),
                Ok(Ok(())) => break,
                Ok(Err(_)) if !up => {
                    // the queue is full
                    s.handshake().await?;
                    up = true;
                }
                Ok(Err(_)) => {
                    s.reading = true;
                    s.step().await;
                    tries += 1;
                    ensure!(tries < 20_000, "disconnect is still refused after the session came to rest: {}", s.describe());
                }
            }
        }
        if c.twice {
            let k = s.client();
            let _ = guarded(|| k.disconnect());
        }
        for i in 0..c.after {
            issue(&mut s, i as usize, i, 100_000 + i as usize)?;
        }
        if c.drop {
            for k in s.clients.iter_mut() {
                *k = None;
            }
        }
        if !up {
            s.handshake().await?;
            o.label("disconnect called before connecting");
        }
        if !s.reading {
            s.settle().await;
            if s.end.is_none() {
                o.label("disconnect waits for the broker to read");
            }
        }
        let e = s.wait_end("the event loop to end after disconnect").await?;
        ensure!(e == End::Ok, "disconnect ended the event loop with {:?}", e);
        s.wait_("the connection to be closed", |s| s.eof || s.reset, true).await?;
        after_end(&mut s).await?;
        s.no_panic()?;
        ensure!(!s.reset, "the connection was reset after disconnect, although everything had been read");
        let sn = seen(&s);
        ensure!(
            sn == accepted,
            "{} commands were accepted before disconnect, {} were sent; first difference at {:?}",
            accepted.len(),
            sn.len(),
            (0..).find(|i| sn.get(*i) != accepted.get(*i)).map(|i| (sn.get(i), accepted.get(i)))
        );
        let last = s.pkts.last().map(|p| p.1.clone());
        ensure!(last == Some(CPkt::Disconnect { reason: 0, props: vec![] }), "last packet is {:?}, expected DISCONNECT", last);
        ensure!(s.partial() == 0, "{} stray bytes after DISCONNECT", s.partial());
        ensure!(s.pkts.iter().filter(|p| matches!(p.1, CPkt::Disconnect { .. })).count() == 1, "DISCONNECT was sent twice");
        ensure!(pubacks(&s) == acks, "PUBACKs {:?}, expected {:?}", pubacks(&s), acks);
        let want: Vec<&SPkt> = inbound.iter().collect();
        check_notifs(&s.app_notifs(), &want)?;
        o.count("commands before disconnect", accepted.len() as u64);
        o.nontrivial = !accepted.is_empty() || !inbound.is_empty();
        Ok(o)
    })?;
    merge(obs, o);
    Ok(())
}

pub fn c13(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "broker",
        "0-7 packets of any kind from the broker, sometimes behind 90-400 messages, 0-5 commands, then the end: a DISCONNECT with any legal reason in any form and with packets after it, a close between packets or at any byte of one, a reset, or the event loop dropped; the application may take notifications only afterwards; the result, what was delivered and acknowledged, the end of the notification stream and the refusal of commands are checked; non-trivial: all",
        env.n(30_000, 600_000),
        || {
            let how = prop_oneof![
                6 => (code(DISCONNECT_REASONS), 0u8..3, aprops(300), vec(piece(60), 0..3)).prop_map(|(reason, form, props, tail)| How::Disconnect { reason, form, props, tail }),
                3 => Just(How::Close),
                4 => (piece(300), any::<u16>()).prop_map(|(p, at)| How::CloseMid { p, at }),
                2 => Just(How::Reset),
                1 => Just(How::Cancel),
            ];
            (any::<u64>(), vec(piece(300), 0..8), any::<bool>(), any::<bool>(), vec((any::<u8>(), 0u8..5), 0..6), 0u8..3, any::<bool>(), how, (cut(), prop_oneof![8 => Just(0u16), 1 => 90u16..400], prop_oneof![Just(0u16), 1u16..120], prop_oneof![1 => Just(0u16), 1 => 1u16..60_000]))
                .prop_map(|(seed, prefix, fenced, lazy, cmds, clones, dropped, how, (cut, burst, take, pause))| EndCase { seed, prefix, fenced, lazy, cmds, clones, dropped, how, cut, burst, take, pause })
                .boxed()
        },
        run_end,
    );
    phase(
        env,
        rep,
        "disconnect",
        "commands (up to 120 at a time) through up to 3 handles, packets from the broker, then disconnect through any handle, before or after connecting, followed by more commands, sometimes with a broker that does not read meanwhile; exactly the commands accepted before it are sent, then DISCONNECT, then the connection is closed; non-trivial: a command or a packet before",
        env.n(12_000, 250_000),
        || {
            let op = prop_oneof![
                4 => (any::<u8>(), 0u8..5, prop_oneof![4 => 1u8..4, 1 => 20u8..120]).prop_map(|(h, kind, n)| DOp::Cmd { h, kind, n }),
                2 => piece(60).prop_map(DOp::In),
                2 => (1u8..5).prop_map(DOp::Step),
                1 => Just(DOp::Settle),
                1 => (1u8..40).prop_map(DOp::Big),
            ];
            let clog = prop_oneof![2 => Just(255u8), 1 => 0u8..9];
            (any::<u64>(), 0u8..3, vec(op, 0..9), prop_oneof![3 => Just(0u8), 1 => 0u8..12], any::<u8>(), 0u8..4, any::<bool>(), any::<bool>(), (any::<bool>(), clog))
                .prop_map(|(seed, clones, ops, connect_at, h, after, twice, drop, (lazy, clog_at))| DiscCase { seed, clones, ops, connect_at, h, after, twice, drop, lazy, clog_at })
                .boxed()
        },
        run_disc,
    );
    notes(&["a connection closed with unread input is reset by the kernel, which may lose what was written last; such losses are not counted"])
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
enum First {
    Success { props: AProps, then: Vec<Piece> },
    Refuse {
        reason: u8,
        props: AProps,
        tail: Vec<Piece>,
        /// says that there is a session, which a refusal must not
        #[serde(default)]
        sp: bool,
    },
    /// a well-formed packet other than CONNACK
    Wrong(Piece),
    WrongRaw(Vec<u8>),
    Close { connack: Option<(u8, u16)> },
    Reset,
    NoServer,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HsCase {
    seed: u64,
    #[serde(default)]
    to: To,
    cmds: Vec<(u8, u8)>,
    /// commands issued only while the CONNACK is awaited
    late: Vec<(u8, u8)>,
    clones: u8,
    delay: u32,
    steps: u8,
    extra_polls: bool,
    /// connect() is called 0: never, or in front of 1: the first commands, 2: CONNACK, 3: what follows CONNACK
    #[serde(default)]
    connect: u8,
    first: First,
    cut: Cut,
}

/// There is nothing for connect() to do.
fn call_connect(s: &mut Sess) -> Res {
    match guarded(|| s.client().connect()) {
        Ok(_) => Ok(()),
        Err(p) => violation!("connect() panicked: {}", p),
    }
}

fn run_hs(c: &HsCase, obs: &mut Obs) -> Res {
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let none = matches!(c.first, First::NoServer);
        let mut s = if none { Sess::refused_at(&c.to)? } else { Sess::new_at(&c.to)? };
        o.label(match c.to {
            To::Addr | To::V4 | To::Ip | To::Ip4 => "address as numbers",
            To::Several { before: 0, .. } => "the first of several addresses",
            To::Several { .. } => "one of several addresses, the first ones refusing",
            _ => "address as text",
        });
        for _ in 0..c.clones {
            let k = s.clients[0].clone();
            s.clients.push(k);
        }
        let mut accepted = vec![];
        let mut n = 0;
        if c.connect == 1 {
            call_connect(&mut s)?;
        }
        for (h, k) in &c.cmds {
            if issue(&mut s, *h as usize, *k, n)? {
                accepted.push(n);
            }
            n += 1;
        }
        if none {
            let e = s.wait_end("the event loop to end when the broker cannot be reached").await?;
            ensure!(matches!(e, End::Err(_)), "an unreachable broker ended the event loop with {:?}", e);
            after_end(&mut s).await?;
            ensure!(s.notifs.is_empty(), "notification {} without a connection", clip(&s.notifs[0].text));
            o.label("connection refused");
            o.nontrivial = true;
            return Ok(o);
        }
        s.await_connect().await?;
        match &s.pkts[0].1 {
            CPkt::Connect { level, flags, keep_alive, client_id, .. } => {
                ensure!(*level == 5, "CONNECT for protocol level {}", level);
                ensure!(*flags == 2, "CONNECT flags are {:#04x}, expected clean start and nothing else", flags);
                ensure!(*keep_alive != 0, "CONNECT declares no keep-alive");
                ensure!(!client_id.is_empty(), "CONNECT has an empty client identifier");
            }
            p => violation!("first packet is {:?}", p),
        }
        if c.connect == 2 {
            call_connect(&mut s)?;
        }
        for (h, k) in &c.late {
            if issue(&mut s, *h as usize, *k, n)? {
                accepted.push(n);
            }
            n += 1;
        }
        for _ in 0..c.steps {
            if c.extra_polls {
                s.wake.flag.store(true, std::sync::atomic::Ordering::SeqCst);
            }
            s.step().await;
        }
        s.advance(c.delay as u64).await;
        s.settle().await;
        ensure!(s.end.is_none(), "session ended while waiting for CONNACK: {:?}", s.end);
        let quiet = |s: &Sess, when: &str| -> Res {
            s.no_panic()?;
            ensure!(s.pkts.len() == 1 && s.partial() == 0, "client sent {:?} {}", s.pkts.get(1).map(|p| &p.1), when);
            Ok(())
        };
        quiet(&s, "before CONNACK")?;
        let connack = |reason: u8, props: Vec<Prop>| SPkt::Connack { sp: false, reason, props };
        let mut want: Vec<SPkt> = vec![];
        match &c.first {
            First::Success { props, then } => {
                let ca = connack(0, props.get());
                let mut b = ca.encode();
                let keep = b.split_off(b.len() - 1);
                // an incomplete CONNACK is none
                send_cut(&mut s, &[b], &c.cut).await?;
                s.settle().await;
                quiet(&s, "before CONNACK was complete")?;
                ensure!(s.notifs.is_empty(), "notification {} before CONNACK was complete", s.notifs[0].text);
                let then = pkts_of(then);
                let mut rest = vec![keep];
                rest.extend(then.iter().map(|p| p.encode()));
                want.push(ca);
                want.extend(then);
                if c.connect == 3 {
                    call_connect(&mut s)?;
                }
                send_cut(&mut s, &rest, &c.cut).await?;
                s.fence_in().await?;
                let k = accepted.len();
                s.wait("the commands accepted before CONNACK", move |s| seen(s).len() >= k).await?;
                s.fence_out().await?;
                ensure!(seen(&s) == accepted, "commands {:?} were sent, {:?} were accepted before CONNACK", seen(&s), accepted);
                ensure!(!s.pkts[1..].iter().any(|p| matches!(p.1, CPkt::Connect { .. })), "CONNECT was sent twice");
                let w: Vec<&SPkt> = want.iter().collect();
                check_notifs(&s.app_notifs(), &w)?;
                ensure!(s.end.is_none(), "session ended: {:?}", s.end);
                s.connected_once()?;
                o.label("accepted");
                o.nontrivial = !accepted.is_empty();
                return Ok(o);
            }
            First::Refuse { reason, props, tail, sp } => {
                let ca = SPkt::Connack { sp: *sp, reason: *reason, props: props.get() };
                let mut b = vec![ca.encode()];
                b.extend(pkts_of(tail).iter().map(|p| p.encode()));
                want.push(ca);
                send_cut(&mut s, &b, &c.cut).await?;
                o.label("refused by CONNACK");
            }
            First::Wrong(p) => {
                let b = match p {
                    Piece::Disconnect(r) => SPkt::Disconnect { reason: Some(*r), props: None }.encode(),
                    p => pkts_of(&[p.clone()])[0].encode(),
                };
                send_cut(&mut s, &[b], &c.cut).await?;
                o.label("another packet instead of CONNACK");
            }
            First::WrongRaw(b) => {
                send_cut(&mut s, &[b.clone()], &c.cut).await?;
                o.label("another packet instead of CONNACK");
            }
            First::Close { connack: k } => {
                if let Some((code, at)) = k {
                    let b = connack(*code, vec![]).encode();
                    let at = 1 + *at as usize % (b.len() - 1);
                    send_cut(&mut s, &[b[..at].to_vec()], &c.cut).await?;
                    o.label("closed in the middle of CONNACK");
                } else {
                    o.label("closed before CONNACK");
                }
                s.shutdown_write();
            }
            First::Reset => {
                s.abort();
                o.label("reset before CONNACK");
            }
            First::NoServer => unreachable!(),
        }
        let e = s.wait_end("the event loop to end when the handshake fails").await?;
        ensure!(matches!(e, End::Err(_)), "a failed handshake ended the event loop with {:?}", e);
        if !s.reset {
            s.wait_("the connection to be closed", |s| s.eof || s.reset, true).await?;
        }
        after_end(&mut s).await?;
        quiet(&s, "although the handshake failed")?;
        s.connected_once()?;
        let w: Vec<&SPkt> = want.iter().collect();
        // a malformed refusal need not be announced
        if !matches!(c.first, First::Refuse { sp: true, .. }) || !s.app_notifs().is_empty() {
            check_notifs(&s.app_notifs(), &w)?;
        }
        o.nontrivial = true;
        Ok(o)
    })?;
    merge(obs, o);
    Ok(())
}

pub fn c14(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "handshake",
        "0-110 commands queued before and while connecting; CONNACK delayed by up to 100 s of virtual time, then: success followed by messages, refusal with any reason, any other well-formed packet, a close at any byte, a reset, or no server at all; CONNECT is checked field by field, nothing else may be sent before a complete CONNACK arrived; non-trivial: failures, or commands queued",
        env.n(100_000, 1_500_000),
        || {
            let refuse: Vec<u8> = CONNACK_REASONS.iter().map(|c| c.0).filter(|c| *c != 0).collect();
            let all: Vec<u8> = CONNACK_REASONS.iter().map(|c| c.0).collect();
            let raw: Vec<Vec<u8>> = vec![
                vec![0xF0, 0x00],
                vec![0x50, 0x02, 0x00, 0x01],
                vec![0x62, 0x02, 0x00, 0x01],
                vec![0x70, 0x02, 0x00, 0x01],
                vec![0x34, 0x07, 0x00, 0x01, b't', 0x00, 0x01, 0x00, b'x'],
                vec![0xE0, 0x00],
                vec![0xC0, 0x00],
                vec![0x10, 0x0E, 0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 8, 0, 0, 1, b'x'],
                // MQTT 3.1.1 CONNACK
                vec![0x20, 0x02, 0x00, 0x00, 0xD0, 0x00],
            ];
            let first = prop_oneof![
                6 => (aprops(300), vec(piece(60), 0..5)).prop_map(|(props, then)| First::Success { props, then }),
                5 => (proptest::sample::select(refuse), aprops(300), vec(piece(60), 0..3), proptest::bool::weighted(0.1)).prop_map(|(reason, props, tail, sp)| First::Refuse { reason, props, tail, sp }),
                3 => piece(60).prop_map(First::Wrong),
                1 => code(DISCONNECT_REASONS).prop_map(|r| First::Wrong(Piece::Disconnect(r))),
                1 => proptest::sample::select(raw).prop_map(First::WrongRaw),
                3 => proptest::option::of((proptest::sample::select(all), any::<u16>())).prop_map(|connack| First::Close { connack }),
                1 => Just(First::Reset),
                1 => Just(First::NoServer),
            ];
            let cmds = || prop_oneof![4 => vec((any::<u8>(), 0u8..5), 0..4), 1 => vec((any::<u8>(), 0u8..5), 4..110)].boxed();
            let to = prop_oneof![
                8 => Just(To::Addr),
                1 => Just(To::V4),
                1 => Just(To::Ip),
                1 => Just(To::Ip4),
                1 => Just(To::Str),
                1 => Just(To::String),
                1 => Just(To::StrPort),
                1 => Just(To::StringPort),
                3 => (0u8..4, 0u8..3).prop_map(|(before, after)| To::Several { before, after }),
            ];
            ((any::<u64>(), to, prop_oneof![5 => Just(0u8), 1 => 1u8..4]), cmds(), cmds(), 0u8..3, prop_oneof![2 => Just(0u32), 2 => 1u32..20_000, 1 => 1u32..100_000], 0u8..6, any::<bool>(), first, cut())
                .prop_map(|((seed, to, connect), cmds, late, clones, delay, steps, extra_polls, first, cut)| HsCase {
                    seed,
                    to,
                    cmds,
                    late,
                    clones,
                    delay,
                    steps,
                    extra_polls,
                    connect,
                    first,
                    cut,
                })
                .boxed()
        },
        run_hs,
    );
    notes(&[])
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
enum IOp {
    DropRx,
    DropOne(u8),
    DropAll,
    Clone,
    Cmd { kind: u8, n: u8 },
    In { qos: u8, n: u8 },
    Ack(u8),
    /// a keep-alive interval passes; the broker answers the ping
    Ping,
    Wait(u16),
    /// the application stops taking notifications and the buffer fills up
    Fill,
    Resume,
    /// all identifiers are in use and more commands wait
    Exhaust,
    FreshWakers,
    /// the broker does not read, and the client has more to send than fits (in narrow sessions)
    Clog,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IdleCase {
    seed: u64,
    /// operations before connecting, the rest after
    early: u8,
    ops: Vec<IOp>,
    #[serde(default)]
    narrow: bool,
}

struct Idle {
    s: Sess,
    up: bool,
    n: usize,
    accepted: Vec<usize>,
    narrow: bool,
    n_seen: usize,
    inbound: Vec<SPkt>,
    msgs: u64,
    last: u64,
    outstanding: Vec<u16>,
    scanned: usize,
    exhausted: bool,
    checks: u64,
    acks: usize,
}

impl Idle {
    fn live(&self) -> bool {
        self.s.clients.iter().any(|c| c.is_some())
    }

    fn scan(&mut self) {
        while self.scanned < self.s.pkts.len() {
            let (t, p) = &self.s.pkts[self.scanned];
            self.last = *t;
            match p {
                CPkt::Publish { qos: 1, id, .. } => self.outstanding.push(*id),
                _ => {}
            }
            self.scanned += 1;
        }
    }

    /// At rest, the event loop must not ask to be run.
    async fn idle(&mut self, state: &str) -> Res {
        self.s.settle().await;
        let mut last = 0;
        for round in 0..2 {
            let w = self.s.wakes();
            let (pk, nt) = (self.s.pkts.len(), self.s.notifs.len());
            for _ in 0..120 {
                self.s.step().await;
            }
            let d = self.s.wakes() - w;
            if d <= 40 || self.s.pkts.len() != pk || self.s.notifs.len() != nt || self.s.end.is_some() {
                self.checks += 1;
                return Ok(());
            }
            last = d;
            if round == 0 {
                // let the kernel come to rest
                std::thread::sleep(std::time::Duration::from_millis(20));
                self.s.settle().await;
            }
        }
        violation!("with nothing to do ({}) the event loop asked to be run {} times in 120 turns", state, last)
    }

    fn message(&mut self, q: u8) -> Vec<u8> {
        self.msgs += 1;
        let p = SPkt::Publish {
            dup: false,
            qos: q,
            retain: false,
            topic: format!("m/{}", self.msgs),
            id: if q > 0 { (self.msgs % 65535 + 1) as u16 } else { 0 },
            props: vec![],
            payload: vec![7; 3],
        };
        let b = p.encode();
        self.inbound.push(p);
        b
    }

    /// Commands that could be sent have been.
    async fn sent(&mut self) -> Res {
        if self.up && self.s.drain && !self.exhausted {
            let n = self.accepted.len();
            let have = self.n_seen;
            let _ = have;
            self.s.wait("accepted commands to be sent", move |s| seen(s).len() >= n).await?;
        }
        self.scan();
        Ok(())
    }

    /// QoS 1 messages have been acknowledged.
    async fn acked(&mut self) -> Res {
        if self.up && self.s.drain {
            let n = due(&self.inbound).len();
            self.s.wait("received QoS 1 messages to be acknowledged", move |s| pubacks(s).len() >= n).await?;
            self.acks = n;
        }
        self.scan();
        Ok(())
    }

    async fn op(&mut self, op: &IOp, o: &mut Obs) -> Res {
        match op {
            IOp::DropRx => {
                if self.s.rx.is_some() {
                    // what was delivered so far is not in question
                    self.s.drain = true;
                    self.acked().await?;
                    if self.up {
                        self.s.fence_in().await?;
                    }
                    self.s.rx = None;
                    o.label("receiver dropped");
                }
            }
            IOp::DropOne(h) => {
                let live: Vec<usize> = (0..self.s.clients.len()).filter(|i| self.s.clients[*i].is_some()).collect();
                if !live.is_empty() {
                    self.s.clients[live[*h as usize % live.len()]] = None;
                }
            }
            IOp::DropAll => {
                for c in self.s.clients.iter_mut() {
                    *c = None;
                }
                o.label("all handles dropped");
            }
            IOp::Clone => {
                if self.live() {
                    let k = self.s.client().clone();
                    self.s.clients.push(Some(k));
                }
            }
            IOp::Cmd { kind, n } => {
                if self.live() && !self.exhausted {
                    for _ in 0..*n {
                        let k = self.n;
                        if issue(&mut self.s, k, *kind, k)? {
                            self.accepted.push(k);
                        }
                        self.n += 1;
                    }
                }
            }
            IOp::In { qos, n } => {
                if self.up && self.s.drain {
                    let mut b = vec![];
                    for _ in 0..*n {
                        b.extend(self.message(*qos));
                    }
                    self.s.send(&b).await?;
                    self.acked().await?;
                }
            }
            IOp::Ack(n) => {
                if self.up && self.s.drain && !self.exhausted {
                    self.scan();
                    let n = (*n as usize).min(self.outstanding.len());
                    let v: Vec<u16> = self.outstanding.drain(..n).collect();
                    let b: Vec<u8> = v.into_iter().flat_map(|id| SPkt::Puback { id, reason: None, props: None }.encode()).collect();
                    self.s.send(&b).await?;
                }
            }
            IOp::Ping => {
                if self.up && self.s.drain {
                    self.sent().await?;
                    self.s.settle().await;
                    self.scan();
                    let pings = |s: &Sess| s.pkts.iter().filter(|p| p.1 == CPkt::Pingreq).count();
                    let n = pings(&self.s);
                    let t = self.s.now_ms();
                    while pings(&self.s) == n {
                        ensure!(self.s.now_ms() < t + 30_000, "no ping within 30 s (handles {}, receiver {})", self.live(), self.s.rx.is_some());
                        self.s.advance(500).await;
                        for _ in 0..6 {
                            self.s.step().await;
                        }
                        if let Some(e) = &self.s.end {
                            violation!("session ended while idle: {:?}", e);
                        }
                    }
                    self.s.send(&SPkt::Pingresp.encode()).await?;
                    self.s.settle().await;
                    o.label("ping");
                }
            }
            IOp::Wait(ms) => {
                if self.up {
                    self.s.advance(*ms as u64 % 500).await;
                }
            }
            IOp::Fill => {
                if self.up && self.s.rx.is_some() && !self.exhausted {
                    self.sent().await?;
                    self.s.drain = false;
                    let mut b = vec![];
                    for _ in 0..160 {
                        b.extend(self.message(0));
                    }
                    self.s.send(&b).await?;
                    o.label("notification buffer filled");
                }
            }
            IOp::Resume => {
                self.s.drain = true;
                self.acked().await?;
            }
            IOp::Exhaust => {
                if self.up && self.live() && self.s.drain && !self.exhausted {
                    self.sent().await?;
                    // subscribes are never acknowledged here
                    let mut idle = 0;
                    let mut total = 0usize;
                    loop {
                        let k = self.n;
                        if issue(&mut self.s, 0, 3, k)? {
                            self.accepted.push(k);
                            self.n += 1;
                            idle = 0;
                            total += 1;
                        } else if !self.s.step().await {
                            idle += 1;
                            if idle > 50 {
                                break;
                            }
                        }
                        ensure!(total < 70_000, "{} requests sent without an acknowledgement", total);
                    }
                    self.exhausted = true;
                    o.label("all identifiers in use, commands waiting");
                }
            }
            IOp::FreshWakers => self.s.fresh_wakers = true,
            IOp::Clog => {
                if self.up && self.live() && self.s.drain && !self.exhausted && self.narrow {
                    self.sent().await?;
                    self.s.reading = false;
                    for _ in 0..30 {
                        let l = format!("c/{}", self.n);
                        let k = self.s.client();
                        if let Ok(Ok(())) = guarded(|| k.publish(PublishBuilder::from_bytes(&l, &[0; 3000]))) {
                            self.accepted.push(self.n);
                        }
                        self.n += 1;
                    }
                    o.label("the broker stops reading");
                }
            }
        }
        if let Some(e) = &self.s.end {
            violation!("session ended in mid-history: {:?}", e);
        }
        Ok(())
    }
}

fn run_idle(c: &IdleCase, obs: &mut Obs) -> Res {
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let mut m = Idle {
            s: if c.narrow { Sess::narrow()? } else { Sess::new()? },
            narrow: c.narrow,
            up: false,
            n: 0,
            accepted: vec![],
            n_seen: 0,
            inbound: vec![],
            msgs: 0,
            last: 0,
            outstanding: vec![],
            scanned: 0,
            exhausted: false,
            checks: 0,
            acks: 0,
        };
        let mut dropped = false;
        for (i, op) in c.ops.iter().enumerate() {
            if i >= c.early as usize && !m.up {
                connect(&mut m).await?;
            }
            if i == 0 && !m.up {
                m.s.await_connect().await?;
            }
            m.op(op, &mut o).await?;
            dropped |= matches!(op, IOp::DropAll | IOp::DropRx | IOp::DropOne(_));
            let st = format!(
                "{}, {} handles, receiver {}{}{}",
                if m.up { "connected" } else { "awaiting CONNACK" },
                m.s.clients.iter().flatten().count(),
                if m.s.rx.is_some() { "there" } else { "dropped" },
                if m.s.drain { "" } else { ", notification buffer full" },
                if !m.s.reading {
                    ", the broker not reading"
                } else if m.exhausted {
                    ", all identifiers in use"
                } else {
                    ""
                }
            );
            m.idle(&st).await?;
        }
        if !m.up {
            connect(&mut m).await?;
        }
        m.s.drain = true;
        m.acked().await?;
        m.sent().await?;
        // still alive, in every respect left
        m.op(&IOp::In { qos: 1, n: 2 }, &mut o).await?;
        m.op(&IOp::Ping, &mut o).await?;
        m.op(&IOp::Cmd { kind: 1, n: 2 }, &mut o).await?;
        m.sent().await?;
        m.op(&IOp::Ping, &mut o).await?;
        m.idle("at the end").await?;
        if m.exhausted {
            ensure!(m.accepted.starts_with(&seen(&m.s)), "commands sent are not those accepted");
        } else {
            ensure!(seen(&m.s) == m.accepted, "commands sent are not those accepted");
        }
        ensure!(pubacks(&m.s) == due(&m.inbound), "PUBACKs {:?}, expected {:?}", pubacks(&m.s), due(&m.inbound));
        if m.s.rx.is_some() {
            m.s.fence_in().await?;
            let want: Vec<&SPkt> = m.inbound.iter().collect();
            check_notifs(&m.s.app_notifs(), &want)?;
        }
        m.s.no_panic()?;
        ensure!(m.s.end.is_none(), "session ended: {:?}", m.s.end);
        o.count("states checked for idleness", m.checks);
        o.nontrivial = dropped;
        Ok(o)
    })?;
    merge(obs, o);
    Ok(())
}

async fn connect(m: &mut Idle) -> Res {
    if m.s.rx.is_some() {
        m.s.handshake().await?;
    } else {
        m.s.await_connect().await?;
        m.s.send(&SPkt::Connack { sp: false, reason: 0, props: vec![] }.encode()).await?;
        m.s.settle().await;
        m.s.pkts.remove(0);
    }
    m.up = true;
    m.last = m.s.now_ms();
    Ok(())
}

pub fn c16(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    let want = Want { order: true, ids: true, pubacks: true, notifs: true };
    let w = Weights {
        cmd: 10,
        burst: 1,
        handles: 4,
        input: 5,
        many_input: 1,
        ack: 3,
        sched: 6,
        drain: 1,
        advance: 1,
        drop_rx: 1,
        drop_all: 1,
        late_connack: true,
        len: 30,
        ..Weights::default()
    };
    phase(
        env,
        rep,
        "idle",
        "1-10 of: dropping the receiver, one or all handles, commands, messages, acknowledgements, ping cycles, a full notification buffer, exhausted packet identifiers, a broker that does not read; after each, with nothing left to do, the wake-ups the event loop asks for in 120 scheduler turns are counted (at most 40); at the end a QoS 1 message, commands and two ping cycles; non-trivial: something was dropped",
        env.n(8000, 120_000),
        || {
            let op = prop_oneof![
                20 => Just(IOp::DropRx),
                20 => any::<u8>().prop_map(IOp::DropOne),
                20 => Just(IOp::DropAll),
                10 => Just(IOp::Clone),
                40 => (0u8..5, 1u8..5).prop_map(|(kind, n)| IOp::Cmd { kind, n }),
                40 => (0u8..2, 1u8..5).prop_map(|(qos, n)| IOp::In { qos, n }),
                20 => (1u8..6).prop_map(IOp::Ack),
                30 => Just(IOp::Ping),
                10 => any::<u16>().prop_map(IOp::Wait),
                20 => Just(IOp::Fill),
                20 => Just(IOp::Resume),
                1 => Just(IOp::Exhaust),
                5 => Just(IOp::FreshWakers),
                10 => Just(IOp::Clog),
            ];
            (any::<u64>(), prop_oneof![2 => Just(0u8), 1 => 1u8..8], vec(op, 1..11), proptest::bool::weighted(0.3))
                .prop_map(|(seed, early, ops, narrow)| IdleCase { seed, early, ops, narrow })
                .boxed()
        },
        run_idle,
    );
    phase(
        env,
        rep,
        "history",
        "histories of commands, messages and acknowledgements in which the receiver, single handles or all handles are dropped at any point, before, during or after connecting; accepted commands are sent once each in order, QoS 1 messages acknowledged, messages delivered while the receiver exists; non-trivial: at least 2 accepted commands or 3 inbound packets",
        env.n(15_000, 300_000),
        move || machine::cases(w),
        move |c, o| machine::run_case(c, want, o),
    );
    notes(&["idleness is judged by wake-ups counted over 120 turns of the scheduler"])
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp {
    /// the application stops taking notifications
    Pause,
    /// and starts again
    Resume,
    Take(u16),
    In { n: u16, q: u8, len: u16 },
    Acks(u8),
    Cmd { kind: u8, n: u8 },
    /// time passes, the event loop runs, in steps
    Time { ms: u16, step: u16 },
    /// the application takes one notification every so many ms
    Slowly { n: u16, every: u16 },
    Settle,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SlowCase {
    seed: u64,
    ops: Vec<SOp>,
}

/// A broker that answers pings at once, behind whatever it has sent before.
struct Slow {
    s: Sess,
    out: Vec<u8>,
    inbound: Vec<SPkt>,
    msgs: u64,
    n: usize,
    accepted: Vec<usize>,
    outstanding: Vec<CPkt>,
    scanned: usize,
    stuck: bool,
    max_buffered: usize,
    pings: u64,
}

impl Slow {
    fn flush(&mut self) {
        let n = self.s.try_send(&self.out);
        self.out.drain(..n);
        self.stuck |= !self.out.is_empty();
    }

    fn scan(&mut self) -> Res {
        while self.scanned < self.s.pkts.len() {
            let p = self.s.pkts[self.scanned].1.clone();
            self.scanned += 1;
            match p {
                CPkt::Pingreq => {
                    self.pings += 1;
                    self.out.extend(SPkt::Pingresp.encode());
                }
                CPkt::Publish { qos: 1, .. } | CPkt::Subscribe { .. } | CPkt::Unsubscribe { .. } => self.outstanding.push(p),
                _ => {}
            }
        }
        self.flush();
        if let Some(e) = &self.s.end {
            violation!("session ended although nothing but the application was slow: {:?} ({} of {} notifications taken)", e, self.s.notifs.len(), self.inbound.len());
        }
        self.s.no_panic()
    }

    async fn turn(&mut self) -> Res {
        self.flush();
        self.s.settle().await;
        self.scan()?;
        self.s.settle().await;
        self.scan()
    }

    async fn op(&mut self, op: &SOp) -> Res {
        match op {
            SOp::Pause => self.s.drain = false,
            SOp::Resume => {
                self.turn().await?;
                let n = self.s.notifs.len();
                self.s.take_notifs(usize::MAX);
                self.max_buffered = self.max_buffered.max(self.s.notifs.len() - n);
                self.s.drain = true;
                self.turn().await?;
            }
            SOp::Take(n) => {
                self.s.take_notifs(*n as usize);
                self.turn().await?;
            }
            SOp::In { n, q, len } => {
                for i in 0..*n {
                    self.msgs += 1;
                    let q = if *q > 1 { (i % 2) as u8 } else { *q };
                    let p = SPkt::Publish {
                        dup: false,
                        qos: q,
                        retain: false,
                        topic: format!("m/{}", self.msgs),
                        id: if q > 0 { (self.msgs % 65535 + 1) as u16 } else { 0 },
                        props: vec![],
                        payload: vec![self.msgs as u8; *len as usize],
                    };
                    self.out.extend(p.encode());
                    self.inbound.push(p);
                }
                self.turn().await?;
            }
            SOp::Acks(n) => {
                for _ in 0..*n {
                    if self.outstanding.is_empty() {
                        break;
                    }
                    let p = match self.outstanding.remove(0) {
                        CPkt::Subscribe { id, .. } => SPkt::Suback { id, props: vec![], reason: 1 },
                        CPkt::Unsubscribe { id, .. } => SPkt::Unsuback { id, props: vec![], reason: 0 },
                        CPkt::Publish { id, .. } => SPkt::Puback { id, reason: None, props: None },
                        _ => unreachable!(),
                    };
                    self.out.extend(p.encode());
                    self.inbound.push(p);
                }
                self.turn().await?;
            }
            SOp::Cmd { kind, n } => {
                for _ in 0..*n {
                    let k = self.n;
                    if issue(&mut self.s, 0, *kind, k)? {
                        self.accepted.push(k);
                    }
                    self.n += 1;
                }
                self.turn().await?;
            }
            SOp::Time { ms, step } => {
                let mut left = *ms as u64;
                while left > 0 {
                    let d = (*step as u64).clamp(1, 1000).min(left);
                    left -= d;
                    self.s.advance(d).await;
                    self.turn().await?;
                }
            }
            SOp::Slowly { n, every } => {
                self.s.drain = false;
                for _ in 0..*n {
                    self.s.take_notifs(1);
                    self.s.advance(*every as u64).await;
                    self.turn().await?;
                }
            }
            SOp::Settle => self.turn().await?,
        }
        Ok(())
    }
}

fn run_slow(c: &SlowCase, obs: &mut Obs) -> Res {
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let mut m = Slow {
            s: Sess::connected().await?,
            out: vec![],
            inbound: vec![],
            msgs: 0,
            n: 0,
            accepted: vec![],
            outstanding: vec![],
            scanned: 0,
            stuck: false,
            max_buffered: 0,
            pings: 0,
        };
        for op in &c.ops {
            m.op(op).await?;
        }
        m.op(&SOp::Resume).await?;
        // everything must come through without time passing
        let mut idle = 0;
        while !m.out.is_empty() {
            let n = m.out.len();
            m.turn().await?;
            if m.out.len() == n {
                idle += 1;
                if idle > 20 {
                    let b = std::mem::take(&mut m.out);
                    m.s.send(&b).await?;
                }
            }
        }
        m.s.fence_in().await?;
        let k = m.accepted.len();
        m.s.wait("commands accepted while the application was slow", move |s| seen(s).len() >= k).await?;
        m.s.fence_out().await?;
        m.scan()?;
        let want: Vec<&SPkt> = m.inbound.iter().collect();
        check_notifs(&m.s.app_notifs(), &want)?;
        let due = due(&m.inbound);
        let got = pubacks(&m.s);
        ensure!(
            got == due,
            "{} PUBACKs for {} QoS 1 messages; first difference at {:?}",
            got.len(),
            due.len(),
            (0..).find(|i| got.get(*i) != due.get(*i)).map(|i| (got.get(i), due.get(i)))
        );
        ensure!(seen(&m.s) == m.accepted, "{} commands sent, {} accepted, or in another order", seen(&m.s).len(), m.accepted.len());
        ensure!(m.max_buffered <= 2000, "{} notifications were buffered for an application that took none", m.max_buffered);
        // and goes on
        m.op(&SOp::Time { ms: 20_000, step: 500 }).await?;
        m.op(&SOp::In { n: 2, q: 1, len: 1 }).await?;
        m.s.fence_in().await?;
        let want: Vec<&SPkt> = m.inbound.iter().collect();
        check_notifs(&m.s.app_notifs(), &want)?;
        m.scan()?;
        if m.stuck {
            o.label("the client stopped reading for a while");
        }
        if m.max_buffered >= 90 {
            o.label("the notification buffer was full when the application resumed");
        }
        if m.max_buffered > 0 {
            o.count("buffered (sum of maxima)", m.max_buffered as u64);
        }
        o.count("pings", m.pings);
        o.count("messages", m.msgs);
        o.nontrivial = m.max_buffered > 0;
        Ok(o)
    })?;
    merge(obs, o);
    Ok(())
}

pub fn c17(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "slow",
        "1-14 of: the application stops or resumes taking notifications, takes some, or one every so often; 1-6000 messages of up to 300 bytes, acknowledgements, commands; virtual time passes (the broker answers each ping behind what it has sent before); at the end everything is delivered, acknowledged and sent, once each and in order, and the session goes on through two more ping intervals; at most 2000 notifications are ever buffered; non-trivial: notifications piled up",
        env.n(5000, 120_000),
        || {
            let op = prop_oneof![
                4 => Just(SOp::Pause),
                2 => Just(SOp::Resume),
                2 => prop_oneof![1u16..4, 1u16..300].prop_map(SOp::Take),
                4 => (prop_oneof![6 => 1u16..20, 4 => 90u16..300, 2 => 300u16..1500], 0u8..3, prop_oneof![4 => 0u16..20, 1 => 20u16..300]).prop_map(|(n, q, len)| SOp::In { n, q, len }),
                1 => (1u8..20).prop_map(SOp::Acks),
                2 => (0u8..5, prop_oneof![4 => 1u8..5, 1 => 90u8..120]).prop_map(|(kind, n)| SOp::Cmd { kind, n }),
                3 => (prop_oneof![1u16..3000, 3000u16..20_000], prop_oneof![Just(500u16), Just(1000u16), 1u16..1000]).prop_map(|(ms, step)| SOp::Time { ms, step }),
                1 => (1u16..150, prop_oneof![1u16..50, 50u16..400]).prop_map(|(n, every)| SOp::Slowly { n, every }),
                1 => Just(SOp::Settle),
            ];
            (any::<u64>(), vec(op, 1..14)).prop_map(|(seed, ops)| SlowCase { seed, ops }).boxed()
        },
        run_slow,
    );
    phase(
        env,
        rep,
        "flood",
        "the application pauses while 5000-9000 messages arrive, then resumes; as above; non-trivial: notifications piled up",
        env.n(200, 4000),
        || {
            (any::<u64>(), 5000u16..9000, 0u8..3, prop_oneof![Just(0u16), 1u16..40], vec((0u8..5, 1u8..5).prop_map(|(kind, n)| SOp::Cmd { kind, n }), 0..3))
                .prop_map(|(seed, n, q, len, cmds)| {
                    let mut ops = vec![SOp::Pause, SOp::In { n, q, len }];
                    ops.extend(cmds);
                    SlowCase { seed, ops }
                })
                .boxed()
        },
        run_slow,
    );
    let want = Want { order: true, ids: true, pubacks: true, notifs: true };
    let w = Weights {
        cmd: 6,
        burst: 1,
        handles: 1,
        input: 6,
        many_input: 4,
        ack: 4,
        ack_many: 1,
        bogus: 0,
        sched: 6,
        drain: 8,
        advance: 1,
        len: 30,
        ..Weights::default()
    };
    phase(
        env,
        rep,
        "history",
        "histories of commands, bursts of 50-400 messages and acknowledgements with an application that pauses and takes notifications at random; non-trivial: at least 2 accepted commands or 3 inbound packets",
        env.n(5000, 120_000),
        move || machine::cases(w),
        move |c, o| machine::run_case(c, want, o),
    );
    notes(&["a bound of 2000 buffered notifications stands for 'bounded'; the broker of this check keeps the connection open while the client cannot send"])
}
