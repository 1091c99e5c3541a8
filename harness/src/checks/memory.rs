//! C20: what a session holds on to.
use std::collections::VecDeque;

use proptest::collection::vec;
use proptest::prelude::*;
use ruq::PublishBuilder;
use serde::{Deserialize, Serialize};

use super::notes;
use crate::engine::{phase, Env, Obs, Report};
use crate::gen::*;
use crate::mem;
use crate::sim::*;
use crate::wire::*;
use crate::{ensure, violation};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mo {
    Pub { qos: u8, text: bool, len: u16, props: u8 },
    Sub { qos: u8, len: u8 },
    Unsub { len: u8 },
    /// messages from the broker
    In { qos: u8, n: u8, id: u16, len: u16, props: u8, dup: bool },
    /// what 0: PUBACK, 1: SUBACK, 2: UNSUBACK for an identifier that is not in use; 3: unasked PINGRESP
    Bogus { what: u8, id: u16 },
    /// handles made, each used for a command or not, and dropped
    Clones { n: u8, used: bool },
    /// refused: 0 a topic too long, 1 U+0000, 2 a property too long, 3 a filter too long
    Refused(u8),
    /// more than the queue takes
    Burst { n: u8, kind: u8 },
    /// notifications wait for the application
    Pause { n: u8 },
    /// a keep-alive interval and some
    Tick,
    /// the broker writes a packet in two pieces
    Cut { at: u8 },
    /// acknowledge what is outstanding so far
    Ack,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Round {
    ops: Vec<Mo>,
    /// names and contents are new every time
    fresh: bool,
    /// how requests are acknowledged
    order: u8,
    codes: u8,
    aprops: u8,
    no_rx: bool,
}

fn mo() -> BoxedStrategy<Mo> {
    let len = || prop_oneof![6 => 0u16..40, 2 => 40u16..300, 1 => 300u16..3000];
    prop_oneof![
        6 => (0u8..2, any::<bool>(), len(), 0u8..16).prop_map(|(qos, text, len, props)| Mo::Pub { qos, text, len, props }),
        3 => (0u8..3, 0u8..60).prop_map(|(qos, len)| Mo::Sub { qos, len }),
        3 => (0u8..60).prop_map(|len| Mo::Unsub { len }),
        6 => (0u8..2, 1u8..6, pktid(), len(), 0u8..16, any::<bool>()).prop_map(|(qos, n, id, len, props, dup)| Mo::In { qos, n, id, len, props, dup }),
        3 => (0u8..4, pktid()).prop_map(|(what, id)| Mo::Bogus { what, id }),
        2 => (1u8..5, any::<bool>()).prop_map(|(n, used)| Mo::Clones { n, used }),
        2 => (0u8..4).prop_map(Mo::Refused),
        1 => (90u8..130, 0u8..5).prop_map(|(n, kind)| Mo::Burst { n, kind }),
        1 => (90u8..130).prop_map(|n| Mo::Pause { n }),
        1 => Just(Mo::Tick),
        1 => any::<u8>().prop_map(|at| Mo::Cut { at }),
        2 => Just(Mo::Ack),
    ]
    .boxed()
}

fn round(max: usize) -> BoxedStrategy<Round> {
    (vec(mo(), 1..max), any::<bool>(), 0u8..4, any::<u8>(), 0u8..4, proptest::bool::weighted(0.1))
        .prop_map(|(ops, fresh, order, codes, aprops, no_rx)| Round { ops, fresh, order, codes, aprops, no_rx })
        .boxed()
}

/// About how many packets a round is.
fn cost(ops: &[Mo]) -> u64 {
    ops.iter()
        .map(|o| match o {
            Mo::In { n, .. } => *n as u64,
            Mo::Burst { n, .. } | Mo::Pause { n } => *n as u64,
            Mo::Clones { n, .. } => *n as u64,
            Mo::Refused(0 | 2 | 3) => 4,
            Mo::Pub { len, .. } => 1 + *len as u64 / 500,
            _ => 1,
        })
        .sum::<u64>()
        + 2
}

struct Mem<'a> {
    s: Sess,
    r: &'a Round,
    n: u64,
    open: VecDeque<(u16, u8)>,
    seen: usize,
    acks: u64,
    max_open: usize,
}

impl<'a> Mem<'a> {
    fn new(s: Sess, r: &'a Round) -> Self {
        Mem { s, r, n: 0, open: VecDeque::new(), seen: 0, acks: 0, max_open: 0 }
    }
    /// A name of that length or little more.
    fn name(&mut self, k: usize, len: usize) -> String {
        self.n += 1;
        let n = if self.r.fresh { self.n } else { 1_000_000 + k as u64 };
        let mut s = format!("{:08}", n);
        while s.len() < len {
            s.push('x');
        }
        s
    }
    fn props(&mut self, k: usize, which: u8) -> Vec<PProp> {
        let mut v = vec![];
        if which & 1 != 0 {
            v.push(PProp::User(Txt::S("key".into()), Txt::S(self.name(k, 0))));
        }
        if which & 2 != 0 {
            v.push(PProp::Response(Txt::S(self.name(k, 20))));
        }
        if which & 4 != 0 {
            v.push(PProp::Corr(Blob::B(self.name(k, 0).into_bytes())));
        }
        if which & 8 != 0 {
            v.push(PProp::Expiry(60));
        }
        v
    }
    fn scan(&mut self) {
        while self.seen < self.s.pkts.len() {
            match &self.s.pkts[self.seen].1 {
                CPkt::Publish { qos: 1, id, .. } => self.open.push_back((*id, 0)),
                CPkt::Subscribe { id, .. } => self.open.push_back((*id, 1)),
                CPkt::Unsubscribe { id, .. } => self.open.push_back((*id, 2)),
                _ => {}
            }
            self.seen += 1;
        }
        self.max_open = self.max_open.max(self.open.len());
        // (keeps the harness' own memory small)
        if self.s.pkts.len() > 2000 {
            self.s.pkts.clear();
            self.seen = 0;
        }
    }
    async fn ack(&mut self) -> Res {
        self.s.fence_out().await?;
        self.scan();
        let mut bytes = vec![];
        let mut i = 0;
        while !self.open.is_empty() {
            let at = match self.r.order {
                0 => 0,
                1 => self.open.len() - 1,
                2 => self.open.len() / 2,
                _ => i * 7 % self.open.len(),
            };
            i += 1;
            let (id, k) = self.open.remove(at).unwrap();
            self.acks += 1;
            let why = if self.r.fresh { format!("{:08}", self.acks) } else { "why".to_string() };
            let mut props = vec![];
            if self.r.aprops & 1 != 0 {
                props.push(pr(0x1F, PVal::Str(why.clone())));
            }
            if self.r.aprops & 2 != 0 {
                props.push(pr(0x26, PVal::Pair("k".into(), why)));
            }
            let code = |t: &[(u8, &'static str)]| if self.r.codes & 1 == 0 { t[0].0 } else { t[(self.r.codes as usize + i) % t.len()].0 };
            bytes.extend(
                match k {
                    0 if self.r.aprops == 0 && self.r.codes & 1 == 0 => SPkt::Puback { id, reason: None, props: None },
                    0 => SPkt::Puback { id, reason: Some(code(PUBACK_REASONS)), props: Some(props) },
                    1 => SPkt::Suback { id, props, reason: code(SUBACK_REASONS) },
                    _ => SPkt::Unsuback { id, props, reason: code(UNSUBACK_REASONS) },
                }
                .encode(),
            );
        }
        self.s.send(&bytes).await
    }
    /// Until the broker's bytes have been read.
    async fn fence_in(&mut self) -> Res {
        if self.s.rx.is_some() {
            self.s.fence_in().await
        } else {
            // acknowledged, so read
            self.scan();
            let n = self.n as u16 | 1;
            let b = SPkt::Publish { dup: false, qos: 1, retain: false, topic: "harness/fence/".into(), id: n, props: vec![], payload: vec![] }.encode();
            let from = self.s.pkts.len();
            self.s.send(&b).await?;
            self.s
                .wait("a PUBACK", move |s| s.pkts[from..].iter().any(|p| matches!(p.1, CPkt::Ack { ptype: 4, id, .. } if id == n)))
                .await
        }
    }
    async fn op(&mut self, k: usize, op: &Mo) -> Res {
        match op {
            Mo::Pub { qos: q, text, len, props } => {
                let p = Pub {
                    topic: Txt::S(self.name(k, 0)),
                    text: *text,
                    payload: Blob::T(Txt::S(self.name(k, *len as usize))),
                    qos: Some(*q),
                    props: self.props(k, *props),
                };
                self.s.command_patiently("a publish", |c| c.publish(p.builder())).await?;
            }
            Mo::Sub { qos: q, len } => {
                let f = self.name(k, *len as usize);
                self.s.command_patiently("a subscribe", |c| c.subscribe(&f, qos(*q))).await?;
            }
            Mo::Unsub { len } => {
                let f = self.name(k, *len as usize);
                self.s.command_patiently("an unsubscribe", |c| c.unsubscribe(&f)).await?;
            }
            Mo::In { qos: q, n, id, len, props, dup } => {
                let mut bytes = vec![];
                for i in 0..*n {
                    bytes.extend(
                        InMsg {
                            topic: Txt::S(self.name(k, 0)),
                            payload: Blob::T(Txt::S(self.name(k, *len as usize))),
                            qos: *q,
                            dup: *dup && *q > 0,
                            retain: i % 2 == 1,
                            id: if *q == 0 { 0 } else if self.r.fresh { (self.n % 65535) as u16 + 1 } else { *id },
                            props: self.props(k, *props),
                        }
                        .pkt()
                        .encode(),
                    );
                }
                self.s.send(&bytes).await?;
            }
            Mo::Bogus { what, id } => {
                // nothing with that identifier must be outstanding
                self.ack().await?;
                self.fence_in().await?;
                let (id, props) = (*id, vec![]);
                let p = match what {
                    0 => SPkt::Puback { id, reason: Some(0), props: None },
                    1 => SPkt::Suback { id, props, reason: 0 },
                    2 => SPkt::Unsuback { id, props, reason: 0 },
                    _ => SPkt::Pingresp,
                };
                self.s.send(&p.encode()).await?;
            }
            Mo::Clones { n, used } => {
                let mut all = vec![];
                for _ in 0..*n {
                    let mut c = self.s.client().clone();
                    if *used {
                        let t = self.name(k, 0);
                        let _ = c.publish(PublishBuilder::from_bytes(&t, &[]));
                    }
                    all.push(c);
                }
                self.s.step().await;
            }
            Mo::Refused(what) => {
                let long = "x".repeat(65536);
                let c = self.s.client();
                let r = match what {
                    0 => c.publish(PublishBuilder::from_bytes(&long, &[])),
                    1 => c.subscribe("a\0b", qos(0)),
                    2 => c.publish(PublishBuilder::from_bytes("t", &[]).with_property(ruq::Property::CorrelationData(long.into_bytes()))),
                    _ => c.unsubscribe(&long),
                };
                ensure!(r.is_err(), "accepted although it cannot be encoded");
            }
            Mo::Burst { n, kind } => {
                for _ in 0..*n {
                    let t = self.name(k, 0);
                    let c = self.s.client();
                    let _ = match kind {
                        0 | 1 => c.publish(PublishBuilder::from_str(&t, "x").qos(qos(*kind))),
                        2 => c.subscribe(&t, qos(1)),
                        3 => c.unsubscribe(&t),
                        _ => c.publish(PublishBuilder::from_bytes(&t, &[0; 200])),
                    };
                }
            }
            Mo::Pause { n } => {
                self.s.drain = false;
                let mut bytes = vec![];
                for i in 0..*n {
                    let topic = self.name(k, 0);
                    bytes.extend(SPkt::Publish { dup: false, qos: i % 2, retain: false, topic, id: i as u16 + 1, props: vec![], payload: vec![1, 2, 3] }.encode());
                }
                self.s.send(&bytes).await?;
                self.s.settle().await;
                self.s.drain = true;
            }
            Mo::Tick => {
                self.fence_in().await?;
                self.scan();
                self.s.advance(8050).await;
                self.s.settle().await;
                if self.s.pkts.iter().any(|p| matches!(p.1, CPkt::Pingreq)) {
                    self.s.send(&SPkt::Pingresp.encode()).await?;
                }
                self.fence_in().await?;
                self.scan();
                self.s.pkts.clear();
                self.seen = 0;
            }
            Mo::Cut { at } => {
                let topic = self.name(k, 30);
                let b = SPkt::Publish { dup: false, qos: 0, retain: false, topic, id: 0, props: vec![], payload: vec![7; 200] }.encode();
                let at = *at as usize % b.len();
                self.s.send(&b[..at]).await?;
                self.s.settle().await;
                self.s.send(&b[at..]).await?;
            }
            Mo::Ack => self.ack().await?,
        }
        Ok(())
    }
    async fn round(&mut self) -> Res {
        let r = self.r;
        for (k, o) in r.ops.iter().enumerate() {
            self.op(k, o).await?;
        }
        self.ack().await?;
        self.fence_in().await?;
        if let Some(e) = &self.s.end {
            violation!("session ended: {:?}", e);
        }
        Ok(())
    }
    /// Memory in use with nothing outstanding and the harness' records gone.
    async fn live(&mut self) -> i64 {
        self.s.settle().await;
        self.scan();
        self.forget();
        mem::live()
    }
    fn forget(&mut self) {
        self.seen = 0;
        self.s.pkts = Vec::new();
        self.s.notifs = Vec::new();
        self.s.forget_raw();
        self.open.shrink_to_fit();
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongCase {
    seed: u64,
    packets: u32,
    round: Round,
}

fn run_long(c: &LongCase, obs: &mut Obs) -> Res {
    let rounds = (c.packets as u64 / cost(&c.round.ops)).clamp(300, 3000);
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let mut m = Mem::new(Sess::connected().await?, &c.round);
        if c.round.no_rx {
            m.s.rx = None;
            o.label("nobody takes notifications");
        }
        // the highest of some in the middle against the lowest of some at the end; a table may have
        // been rebuilt larger once in between, so what looks like growth has to go on
        let (mut start, mut stop, mut i) = (rounds * 2 / 5, rounds, 0);
        for again in [false, true] {
            let (mut mid, mut end) = (i64::MIN, i64::MAX);
            while i < stop {
                m.round().await?;
                if i >= start && i < start + 12 {
                    mid = mid.max(m.live().await);
                } else if i + 12 >= stop {
                    end = end.min(m.live().await);
                } else if i % 8 == 0 {
                    m.live().await;
                }
                i += 1;
            }
            if end - mid <= 1024 + 16 * m.max_open as i64 {
                break;
            }
            ensure!(
                !again,
                "with nothing outstanding, {} bytes more are held after {} rounds than after {} (at most {} unacknowledged at any time)",
                end - mid,
                stop,
                start + 12,
                m.max_open
            );
            start = stop;
            stop = rounds * 5 / 2;
        }
        o.count("rounds", rounds);
        o.count("requests acknowledged", m.acks);
        if c.round.fresh {
            o.label("new names every time");
        }
        o.nontrivial = m.acks > 0 && m.n > rounds;
        Ok(o)
    })?;
    for (k, v) in o.labels {
        obs.count(k, v);
    }
    obs.nontrivial = o.nontrivial;
    Ok(())
}

// ---------------------------------------------------------------- sessions one after another

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TurnsCase {
    seed: u64,
    round: Round,
    /// commands and messages under way when it ends
    left: Vec<Mo>,
    /// 0: the application disconnects, 1: the broker does, 2: it closes the connection, 3: it resets
    /// it, 4: the application drops the event loop, 5: the broker sends nonsense, 6: half a packet and
    /// a close, 7: the CONNACK is a refusal, 8: the event loop is dropped before the CONNACK, 9: it
    /// never runs
    how: u8,
    /// what is dropped first: 0 handles, 1 the receiver
    first: u8,
}

async fn turn(c: &TurnsCase) -> Res {
    let mut s = Sess::new()?;
    if c.how == 9 {
        for i in 0..c.left.len() * 5 {
            let t = format!("t{}", i);
            let _ = s.client().publish(PublishBuilder::from_str(&t, "x").qos(qos(1)));
        }
        return Ok(());
    }
    if c.how >= 7 {
        s.await_connect().await?;
        for i in 0..c.left.len() * 5 {
            let t = format!("t{}", i);
            let _ = s.client().publish(PublishBuilder::from_str(&t, "x").qos(qos(1)));
        }
        if c.how == 7 {
            s.send(&SPkt::Connack { sp: false, reason: 0x87, props: vec![] }.encode()).await?;
            s.wait_end("the session to end").await?;
        } else {
            s.cancel();
        }
        return released(&mut s).await;
    }
    s.handshake().await?;
    let mut m = Mem::new(s, &c.round);
    m.round().await?;
    for (k, o) in c.left.iter().enumerate() {
        m.op(k + 100, o).await?;
    }
    let s = &mut m.s;
    s.drain = true;
    match c.how {
        0 => s.command_patiently("disconnect()", |c| c.disconnect()).await?,
        1 => {
            s.try_send(&SPkt::Disconnect { reason: Some(0), props: None }.encode());
        }
        2 => s.shutdown_write(),
        3 => s.abort(),
        4 => s.cancel(),
        5 => {
            s.try_send(&[0xF0, 0, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]);
        }
        _ => {
            s.try_send(&[0x30, 100, 0, 50, 1]);
            s.shutdown_write();
        }
    }
    if c.how != 4 {
        s.wait_end("the session to end").await?;
        s.no_panic()?;
    }
    if c.first == 0 {
        s.clients.clear();
    } else {
        s.rx = None;
    }
    released(s).await
}

/// The event loop is gone: so is the connection.
async fn released(s: &mut Sess) -> Res {
    s.reading = true;
    if s.reset || s.sock.is_none() {
        return Ok(());
    }
    s.wait_("the connection to be closed after the event loop is gone", |s| s.eof || s.reset, true).await
}

fn run_turns(c: &TurnsCase, obs: &mut Obs) -> Res {
    let turns = (6000 / (cost(&c.round.ops) + cost(&c.left))).clamp(60, 240);
    let (mut mid, mut end) = (i64::MIN, i64::MAX);
    for i in 0..turns {
        run(c.seed, turn(c))?;
        let half = turns * 2 / 5;
        if i >= half && i < half + 6 {
            mid = mid.max(mem::live());
        } else if i + 6 >= turns {
            end = end.min(mem::live());
        }
    }
    ensure!(
        end - mid <= 1024,
        "{} bytes more are held after {} sessions, all of them over and dropped, than after {}",
        end - mid,
        turns,
        turns * 2 / 5 + 6
    );
    obs.count("sessions", turns);
    match c.how {
        4 | 8 => obs.label("event loop dropped"),
        9 => obs.label("never ran"),
        _ => obs.label("ended by itself"),
    }
    obs.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- nowhere to go

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StuckCase {
    seed: u64,
    /// 0: the event loop has not run, 1: no CONNACK, 2: nobody runs the event loop, 3: the broker does
    /// not read, 4: the application takes no notifications, 5: all identifiers are in use
    why: u8,
    handles: u8,
    /// of 0..=4, one after another
    kinds: Vec<u8>,
    tries: u16,
    len: u16,
}

fn run_stuck(c: &StuckCase, obs: &mut Obs) -> Res {
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let mut s = match c.why {
            3 => Sess::narrow()?,
            5 => super::ids::exhausted(c.seed).await?,
            _ => Sess::new()?,
        };
        match c.why {
            0 => {}
            1 => s.await_connect().await?,
            5 => {}
            _ => s.handshake().await?,
        }
        for _ in 0..c.handles {
            let x = s.client().clone();
            s.clients.push(Some(x));
        }
        let mut len = c.len as usize;
        match c.why {
            3 => {
                s.reading = false;
                len += 3000;
                // until it is stuck in a write
                for i in 0..400 {
                    let t = format!("w{}", i);
                    let _ = s.client().publish(PublishBuilder::from_bytes(&t, &vec![1; 3000]));
                    s.step().await;
                }
                s.settle().await;
            }
            4 => {
                s.drain = false;
                let b: Vec<u8> = (0..300u32)
                    .flat_map(|i| SPkt::Publish { dup: false, qos: 0, retain: false, topic: format!("m{}", i), id: 0, props: vec![], payload: vec![] }.encode())
                    .collect();
                s.send(&b).await?;
                s.settle().await;
            }
            _ => {}
        }
        let payload = vec![b'x'; len];
        let (mut accepted, mut refused) = (0usize, 0usize);
        let handles = s.clients.len();
        for i in 0..c.tries as usize {
            let t = format!("s{}", i);
            let h = i % handles;
            let x = s.clients[h].as_mut().unwrap();
            let r = match c.kinds[i % c.kinds.len()] {
                k @ 0..=2 => x.publish(PublishBuilder::from_bytes(&t, &payload).qos(qos(k % 2))),
                3 => x.subscribe(&t, qos(1)),
                _ => x.unsubscribe(&t),
            };
            match r {
                Ok(()) => accepted += 1,
                Err(_) => refused += 1,
            }
            if c.why > 2 && i % 16 == 15 {
                s.step().await;
            }
        }
        ensure!(accepted <= 2000, "{} of {} commands were accepted through {} handles while none could be sent", accepted, c.tries, handles);
        o.count("commands refused", refused as u64);
        if c.why == 5 {
            o.label("all identifiers in use");
        }
        // and on it goes
        s.reading = true;
        s.drain = true;
        match c.why {
            0 => s.handshake().await?,
            1 => {
                s.send(&SPkt::Connack { sp: false, reason: 0, props: vec![] }.encode()).await?;
            }
            5 => {
                let b: Vec<u8> = (1..=65535u16).flat_map(|id| SPkt::Puback { id, reason: None, props: None }.encode()).collect();
                s.send(&b).await?;
            }
            _ => {}
        }
        s.fence_out().await?;
        s.fence_in().await?;
        s.no_panic()?;
        let sent = s.app_pkts().iter().filter(|p| matches!(p, CPkt::Publish { topic: t, .. } if t.starts_with('s')) || matches!(p, CPkt::Subscribe { .. } | CPkt::Unsubscribe { .. })).count();
        ensure!(sent == accepted, "{} commands were accepted and {} sent", accepted, sent);
        o.nontrivial = refused > 0;
        Ok(o)
    })?;
    for (k, v) in o.labels {
        obs.count(k, v);
    }
    obs.nontrivial = o.nontrivial;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FloodCase {
    seed: u64,
    /// the broker reads nothing meanwhile
    clogged: bool,
    /// the application takes no notifications meanwhile
    paused: bool,
    qos: u8,
    len: u8,
    props: u8,
    /// in thousands of messages
    n: u16,
}

fn run_flood(c: &FloodCase, obs: &mut Obs) -> Res {
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let mut s = Sess::narrow()?;
        s.handshake().await?;
        s.settle().await;
        s.pkts = Vec::new();
        s.notifs = Vec::new();
        s.reading = !c.clogged;
        s.drain = !c.paused;
        let props = if c.props > 0 { vec![pr(0x26, PVal::Pair("k".into(), "v".repeat(c.props as usize)))] } else { vec![] };
        let before = mem::live();
        let (mut sent, mut peak, mut idle) = (0u64, 0i64, 0);
        let mut rest: Vec<u8> = vec![];
        let mut off = 0;
        let mut due = 0u64;
        while sent < c.n as u64 * 1000 && idle < 40 {
            if off == rest.len() {
                rest.clear();
                off = 0;
                for i in 0..200u64 {
                    let id = ((sent + i) % 65535 + 1) as u16;
                    rest.extend(
                        SPkt::Publish { dup: false, qos: c.qos, retain: false, topic: "m".into(), id: if c.qos == 0 { 0 } else { id }, props: props.clone(), payload: vec![b'p'; c.len as usize] }
                            .encode(),
                    );
                }
                sent += 200;
            }
            let n = s.try_send(&rest[off..]);
            off += n;
            let mut worked = n > 0;
            for _ in 0..3 {
                worked |= s.step().await;
            }
            idle = if worked { 0 } else { idle + 1 };
            if idle > 20 {
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
            due += s.pkts.len() as u64;
            s.pkts = Vec::new();
            s.notifs = Vec::new();
            s.forget_raw();
            peak = peak.max(mem::live() - before - rest.capacity() as i64);
        }
        if let Some(e) = &s.end {
            violation!("session ended: {:?}", e);
        }
        // 2000 notifications, as in C17
        let one = 1500 + 8 * (c.len as i64 + c.props as i64);
        let limit = 131_072 + if c.paused { 2000 * one } else { 0 };
        ensure!(
            peak <= limit,
            "{} bytes are held while {} (QoS {}, after {} messages)",
            peak,
            match (c.clogged, c.paused) {
                (true, _) => "the broker keeps sending and does not read",
                (_, true) => "the broker keeps sending and the application takes no notifications",
                _ => "the broker keeps sending",
            },
            c.qos,
            sent
        );
        if sent >= c.n as u64 * 1000 {
            o.label("all of it was taken in");
        } else {
            o.label("the client stopped reading");
        }
        o.count("messages", sent);
        // everything goes on
        s.reading = true;
        s.drain = true;
        let tail = rest[off..].to_vec();
        s.send(&tail).await?;
        s.fence_in().await?;
        s.fence_out().await?;
        due += s.app_pkts().len() as u64;
        let want = if c.qos == 0 { 0 } else { sent };
        ensure!(due == want, "{} PUBACKs for {} QoS 1 messages", due, want);
        s.no_panic()?;
        o.nontrivial = true;
        Ok(o)
    })?;
    for (k, v) in o.labels {
        obs.count(k, v);
    }
    obs.nontrivial = o.nontrivial;
    Ok(())
}

pub fn c20(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    phase(
        env,
        rep,
        "long",
        "the same round of traffic (all kinds of requests, acknowledgements and messages, refused calls, handles, pauses, pings; names new each time or not) repeated 300-3000 times in one session, everything acknowledged and taken after each; allocated bytes late in the session against those in the middle; non-trivial: requests were acknowledged, and more than one thing per round",
        env.n(320, 6000),
        || (any::<u64>(), 20_000u32..40_000, prop_oneof![2 => round(4), 2 => round(12), 1 => round(30)]).prop_map(|(seed, packets, round)| LongCase { seed, packets, round }).boxed(),
        run_long,
    );
    phase(
        env,
        rep,
        "turns",
        "60-240 sessions of one process one after another, each ended in one of ten ways with things under way; the connection is closed and all memory released; non-trivial: always",
        env.n(1000, 12_000),
        || {
            (any::<u64>(), round(8), vec(mo(), 0..8), 0u8..10, 0u8..2)
                .prop_map(|(seed, mut round, left, how, first)| {
                    round.no_rx = false;
                    TurnsCase { seed, round, left, how, first }
                })
                .boxed()
        },
        run_turns,
    );
    phase(
        env,
        rep,
        "stuck",
        "up to 5000 commands through 1-20 handles while none can be sent (event loop not run, not yet connected, broker not reading, notifications not taken, all identifiers in use): a bounded number is accepted, the others are refused, and the accepted ones are sent later; non-trivial: some were refused",
        env.n(2000, 30_000),
        || {
            (any::<u64>(), prop_oneof![20 => 0u8..5, 1 => Just(5u8)], 0u8..20, vec(0u8..5, 1..6), prop_oneof![1 => 100u16..2500, 2 => 2500u16..5000], 0u16..200)
                .prop_map(|(seed, why, handles, kinds, tries, len)| StuckCase { seed, why, handles, kinds, tries, len })
                .boxed()
        },
        run_stuck,
    );
    phase(
        env,
        rep,
        "flood",
        "a broker that sends as fast as it can, not reading PUBACKs or with an application that takes nothing or neither: allocated bytes stay bounded, and every message is acknowledged in the end; non-trivial: always",
        env.n(600, 8000),
        || {
            (any::<u64>(), any::<bool>(), any::<bool>(), prop_oneof![1 => Just(0u8), 3 => Just(1u8)], 0u8..40, prop_oneof![2 => Just(0u8), 1 => 1u8..100], prop_oneof![1 => 5u16..60, 1 => 60u16..120])
                .prop_map(|(seed, clogged, paused, qos, len, props, n)| FloodCase { seed, clogged, paused, qos, len, props, n })
                .boxed()
        },
        run_flood,
    );
    notes(&["memory is what the session's thread allocates less what it frees (the event loop runs on that thread)", "kernel socket buffers do not count"])
}
