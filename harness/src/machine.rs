//! Session histories: a random sequence of what the application, the broker, the scheduler and the
//! clock may do, run against a session and a small model of what must follow from it.
use std::collections::{BTreeMap, HashSet, VecDeque};

use proptest::collection::vec;
use proptest::prelude::*;
use ruq::PublishBuilder;
use serde::{Deserialize, Serialize};

use crate::engine::Obs;
use crate::gen::*;
use crate::sim::*;
use crate::wire::*;
use crate::{ensure, violation};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// kind 0..=2: publish with that QoS, 3: subscribe, 4: unsubscribe
    /// `t` 0: a topic of its own, 1..=3: one of three that other commands use too, with a payload of
    /// its own, 4..=6: nothing of its own at all
    Cmd { h: u8, kind: u8, #[serde(default)] t: u8 },
    Burst { h: u8, kind: u8, n: u16, #[serde(default)] t: u8 },
    /// as many commands, waiting for room in the queue as need be
    Pump { kind: u8, n: u16 },
    CloneH { h: u8 },
    DropH { h: u8 },
    /// every handle there is
    DropAll,
    In { qos: u8, id: u16, n: u16 },
    /// equal messages, up to the DUP flag (0 never, 1 always, 2 on all but the first)
    Same { qos: u8, id: u16, n: u16, dup: u8 },
    /// acknowledge one outstanding request; `k` picks by age (0 oldest, 255 newest)
    Ack { k: u8, form: u8, fail: u8 },
    AckMany { n: u16, newest_first: bool },
    /// what 0: an acknowledgement for an identifier not in use, 1: of the wrong type for one in use,
    /// 2: the last acknowledgement once more
    Bogus { what: u8, kind: u8, pick: u16 },
    Pingresp,
    Step(u8),
    Settle,
    /// poll the event loop although it did not ask to be
    ExtraPoll,
    /// from now on every poll comes with another waker
    FreshWakers,
    Drain(bool),
    Take(u8),
    Advance(u16),
    /// seconds go by, with pings, which the broker answers
    Age(u16),
    DropRx,
    /// the broker reads nothing until it has to
    Clog,
    Unclog,
    /// the broker answers the CONNECT (until then it is silent)
    Connack,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub seed: u64,
    pub ops: Vec<Op>,
    /// there is little room between client and broker
    #[serde(default)]
    pub narrow: bool,
}

/// Which consequences are checked.
#[derive(Clone, Copy, Default)]
pub struct Want {
    /// accepted commands appear once each, in order; refused ones never
    pub order: bool,
    /// identifiers of unacknowledged requests are distinct and not zero
    pub ids: bool,
    /// PUBACKs are those of the QoS 1 messages received, in order
    pub pubacks: bool,
    /// notifications are those of the packets received, in order
    pub notifs: bool,
}

/// Relative weights of the operations.
#[derive(Clone, Copy, Default)]
pub struct Weights {
    pub cmd: u32,
    pub burst: u32,
    /// tens of thousands of requests
    pub pump: u32,
    pub qos2: bool,
    pub handles: u32,
    pub input: u32,
    pub many_input: u32,
    pub ack: u32,
    pub ack_many: u32,
    pub bogus: u32,
    pub sched: u32,
    pub drain: u32,
    pub advance: u32,
    pub drop_rx: u32,
    pub drop_all: u32,
    pub clog: u32,
    pub late_connack: bool,
    pub len: usize,
}

/// One operation.
pub fn op(w: Weights) -> BoxedStrategy<Op> {
    let maxk = if w.qos2 { 2u8 } else { 1 };
    let kind = move || {
        prop_oneof![3 => 0..=maxk, 2 => Just(1u8), 2 => Just(3u8), 2 => Just(4u8)].boxed()
    };
    let mut arms: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    let mut add = |n: u32, s: BoxedStrategy<Op>| {
        if n > 0 {
            arms.push((n, s))
        }
    };
    let clog = w.clog > 0;
    let t = move || prop_oneof![6 => Just(0u8), 2 => 1u8..7, if clog { 8 } else { 0 } => Just(7u8)].boxed();
    add(w.cmd, (0u8..4, kind(), t()).prop_map(|(h, kind, t)| Op::Cmd { h, kind, t }).boxed());
    add(w.pump, (kind(), prop_oneof![200u16..3000, Just(1025u16), Just(2049u16), 3000u16..9000]).prop_map(|(kind, n)| Op::Pump { kind, n }).boxed());
    add(
        w.burst,
        (0u8..4, kind(), prop_oneof![2u16..20, 80u16..130, 101u16..300], t())
            .prop_map(|(h, kind, n, t)| Op::Burst { h, kind, n, t })
            .boxed(),
    );
    add(w.handles, (0u8..4, any::<bool>()).prop_map(|(h, c)| if c { Op::CloneH { h } } else { Op::DropH { h } }).boxed());
    add(w.input, (0u8..2, pktid(), 1u16..5).prop_map(|(qos, id, n)| Op::In { qos, id, n }).boxed());
    add(w.input.min(1), (0u8..2, pktid(), 2u16..4, 0u8..3).prop_map(|(qos, id, n, dup)| Op::Same { qos, id, n, dup }).boxed());
    add(w.many_input, (0u8..2, pktid(), 50u16..400).prop_map(|(qos, id, n)| Op::In { qos, id, n }).boxed());
    add(
        w.ack,
        (prop_oneof![Just(0u8), Just(255u8), any::<u8>()], 0u8..3, prop_oneof![3 => Just(0u8), 1 => any::<u8>()])
            .prop_map(|(k, form, fail)| Op::Ack { k, form, fail })
            .boxed(),
    );
    add(w.ack_many, (1u16..200, any::<bool>()).prop_map(|(n, newest_first)| Op::AckMany { n, newest_first }).boxed());
    add(w.bogus, (0u8..3, 0u8..3, prop_oneof![0u16..6, any::<u16>()]).prop_map(|(what, kind, pick)| Op::Bogus { what, kind, pick }).boxed());
    add(
        w.sched,
        prop_oneof![4 => (1u8..6).prop_map(Op::Step), 3 => Just(Op::Settle), 1 => Just(Op::ExtraPoll), 1 => Just(Op::FreshWakers), 1 => Just(Op::Pingresp)].boxed(),
    );
    add(
        w.drain,
        prop_oneof![any::<bool>().prop_map(Op::Drain), prop_oneof![1u8..10, any::<u8>()].prop_map(Op::Take)].boxed(),
    );
    add(w.advance, prop_oneof![2 => 1u16..900, 1 => 900u16..6900].prop_map(Op::Advance).boxed());
    add(w.advance, prop_oneof![6 => 1u16..30, 1 => 30u16..200].prop_map(Op::Age).boxed());
    add(w.drop_rx, Just(Op::DropRx).boxed());
    add(w.clog, prop_oneof![2 => Just(Op::Clog), 1 => Just(Op::Unclog)].boxed());
    add(w.drop_all, Just(Op::DropAll).boxed());
    proptest::strategy::Union::new_weighted(arms).boxed()
}

pub fn cases(w: Weights) -> BoxedStrategy<Case> {
    let clog = w.clog > 0;
    let ops = vec(op(w), 1..w.len.max(2));
    let late = w.late_connack;
    (any::<u64>(), ops, any::<proptest::sample::Index>(), any::<bool>())
        .prop_map(move |(seed, mut ops, at, l)| {
            let i = if late && l { at.index(ops.len() + 1) } else { 0 };
            ops.insert(i, Op::Connack);
            Case { seed, ops, narrow: clog }
        })
        .boxed()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Pub(u8),
    Sub,
    Unsub,
}

struct Asked {
    n: u64,
    k: Kind,
    label: String,
    payload: String,
    /// of a subscribe
    max_qos: u8,
}

pub struct M {
    pub s: Sess,
    want: Want,
    connected: bool,
    next: u64,
    accepted: VecDeque<Asked>,
    pub n_accepted: u64,
    refused: HashSet<u64>,
    pub n_refused: u64,
    scanned: usize,
    pub n_seen: u64,
    outstanding: BTreeMap<u16, (u64, Kind)>,
    age: VecDeque<u16>,
    last_ack: Option<SPkt>,
    pub inbound: Vec<SPkt>,
    pubacks_due: Vec<u16>,
    pubacks: Vec<u16>,
    out: VecDeque<Vec<u8>>,
    out_off: usize,
    out_empty_since: bool,
    msgs: u64,
    /// ms since the session was up or the last ping was seen
    advanced: u64,
    pub pings: u64,
    answered: u64,
    pub max_outstanding: usize,
    pub reused: bool,
    ever: HashSet<u16>,
    pub bogus: u64,
    pub max_parked: usize,
    pub rx_dropped: bool,
    /// times the client had nowhere to write to
    pub clogged: u64,
}

fn label(n: u64) -> String {
    format!("c/{}", n)
}

impl M {
    pub async fn new(want: Want, narrow: bool) -> Res<M> {
        Ok(M {
            clogged: 0,
            s: if narrow { Sess::narrow()? } else { Sess::new()? },
            want,
            connected: false,
            next: 0,
            accepted: VecDeque::new(),
            n_accepted: 0,
            refused: HashSet::new(),
            n_refused: 0,
            scanned: 0,
            n_seen: 0,
            outstanding: BTreeMap::new(),
            age: VecDeque::new(),
            last_ack: None,
            inbound: vec![],
            pubacks_due: vec![],
            pubacks: vec![],
            out: VecDeque::new(),
            out_off: 0,
            out_empty_since: true,
            msgs: 0,
            advanced: 0,
            pings: 0,
            answered: 0,
            max_outstanding: 0,
            reused: false,
            ever: HashSet::new(),
            bogus: 0,
            max_parked: 0,
            rx_dropped: false,
        })
    }

    fn cmd(&mut self, h: u8, kind: u8, t: u8) -> Res {
        let live: Vec<usize> = (0..self.s.clients.len()).filter(|i| self.s.clients[*i].is_some()).collect();
        if live.is_empty() {
            return Ok(());
        }
        let h = live[h as usize % live.len()];
        let n = self.next;
        self.next += 1;
        let (l, payload) = match t {
            0 => (label(n), "x".to_string()),
            1..=3 => (format!("r/{}", t), n.to_string()),
            4..=6 => (format!("r/{}", t), String::new()),
            _ => (label(n), "x".repeat(1000 + n as usize * 37 % 9000)),
        };
        let max_qos = if t < 4 { (n % 3) as u8 } else { 1 };
        let c = self.s.clients[h].as_mut().unwrap();
        let k = match kind {
            3 => Kind::Sub,
            4 => Kind::Unsub,
            q => Kind::Pub(q),
        };
        let r = guarded(|| match k {
            Kind::Pub(q) => c.publish(PublishBuilder::from_bytes(&l, payload.as_bytes()).qos(qos(q))),
            Kind::Sub => c.subscribe(&l, qos(max_qos)),
            Kind::Unsub => c.unsubscribe(&l),
        });
        match r {
            Err(p) => violation!("client call panicked: {}", p),
            Ok(Ok(())) => {
                self.accepted.push_back(Asked { n, k, label: l, payload, max_qos });
                self.n_accepted += 1;
            }
            Ok(Err(_)) => {
                self.refused.insert(n);
                self.n_refused += 1;
            }
        }
        Ok(())
    }

    /// Looks at the packets that arrived from the client since last time.
    pub fn scan(&mut self) -> Res {
        if let Some(e) = &self.s.wire_err {
            violation!("client sent a malformed packet: {}", e);
        }
        while self.scanned < self.s.pkts.len() {
            let p = self.s.pkts[self.scanned].1.clone();
            self.scanned += 1;
            let (l, id, k, extra) = match p {
                CPkt::Publish { topic, id, qos, payload, .. } => (topic, id, Kind::Pub(qos), Some(payload)),
                CPkt::Subscribe { id, mut filters, .. } => {
                    let f = filters.remove(0);
                    (f.0, id, Kind::Sub, Some(vec![f.1]))
                }
                CPkt::Unsubscribe { id, mut filters, .. } => (filters.remove(0), id, Kind::Unsub, None),
                CPkt::Pingreq => {
                    self.pings += 1;
                    continue;
                }
                CPkt::Ack { ptype: 4, id, .. } => {
                    self.pubacks.push(id);
                    if self.want.pubacks {
                        let i = self.pubacks.len() - 1;
                        ensure!(
                            self.pubacks_due.get(i) == Some(&id),
                            "PUBACK number {} has identifier {}, expected {:?}",
                            i + 1,
                            id,
                            self.pubacks_due.get(i)
                        );
                    }
                    continue;
                }
                _ => continue,
            };
            if l.starts_with(FENCE) {
                continue;
            }
            self.n_seen += 1;
            let asked = self.accepted.pop_front();
            if self.want.order {
                let unique = l.strip_prefix("c/").and_then(|x| x.parse::<u64>().ok());
                ensure!(unique.is_some() || l.starts_with("r/"), "broker received a command nobody issued: {:?}", clip(&l));
                if let Some(n) = unique {
                    ensure!(!self.refused.contains(&n), "refused command {} was sent", n);
                }
                match &asked {
                    Some(a) => {
                        ensure!(a.label == l, "broker received a command for {} when command {} for {} was next", l, a.n, a.label);
                        ensure!(a.k == k, "command {} was {:?} but arrived as {:?}", a.n, a.k, k);
                        let same = match (&extra, k) {
                            (Some(x), Kind::Pub(_)) => x[..] == *a.payload.as_bytes(),
                            (Some(x), _) => x[0] == a.max_qos,
                            (None, _) => true,
                        };
                        ensure!(same, "broker received another command for {} when command {} was next", l, a.n);
                    }
                    None => violation!("broker received command {} again or out of turn", l),
                }
            }
            let needs = k != Kind::Pub(0);
            if needs {
                if self.want.ids {
                    ensure!(id != 0, "request {} has identifier 0", l);
                    if let Some((o, ok)) = self.outstanding.get(&id) {
                        violation!(
                            "{:?} {} carries identifier {} while {:?} number {} with it is unacknowledged ({} outstanding)",
                            k,
                            l,
                            id,
                            ok,
                            o,
                            self.outstanding.len()
                        );
                    }
                }
                let n = asked.map_or(0, |a| a.n);
                self.reused |= !self.ever.insert(id);
                self.outstanding.insert(id, (n, k));
                self.age.push_back(id);
                self.max_outstanding = self.max_outstanding.max(self.outstanding.len());
            }
        }
        Ok(())
    }

    fn push(&mut self, p: SPkt) {
        self.out.push_back(p.encode());
        self.flush();
    }

    fn flush(&mut self) {
        if !self.connected {
            return;
        }
        while let Some(b) = self.out.front() {
            let n = self.s.try_send(&b[self.out_off..]);
            self.out_off += n;
            if self.out_off < b.len() {
                self.out_empty_since = false;
                return;
            }
            self.out_off = 0;
            self.out.pop_front();
        }
    }

    fn message(&mut self, qos: u8, id: u16) {
        self.msgs += 1;
        let id = if qos > 0 { id.max(1) } else { 0 };
        let p = SPkt::Publish {
            dup: qos > 0 && self.msgs % 3 == 0,
            qos,
            retain: self.msgs % 5 == 0,
            topic: format!("m/{}", self.msgs),
            id,
            props: vec![],
            payload: self.msgs.to_be_bytes().to_vec(),
        };
        if qos == 1 {
            self.pubacks_due.push(id);
        }
        self.inbound.push(p.clone());
        self.push(p);
    }

    fn ack_at(&mut self, i: usize, form: u8, fail: u8) {
        let id = self.age.remove(i).unwrap();
        let (_, k) = self.outstanding.remove(&id).unwrap();
        let code = |t: &[(u8, &'static str)]| t[if fail == 0 { 0 } else { fail as usize % t.len() }].0;
        let props = if form == 2 { vec![pr(0x1F, PVal::Str("why".into())), pr(0x26, PVal::Pair("a".into(), "b".into()))] } else { vec![] };
        let p = match k {
            Kind::Sub => SPkt::Suback { id, props, reason: code(SUBACK_REASONS) },
            Kind::Unsub => SPkt::Unsuback { id, props, reason: code(UNSUBACK_REASONS) },
            Kind::Pub(_) => SPkt::Puback {
                id,
                reason: if form > 0 || fail > 0 { Some(code(PUBACK_REASONS)) } else { None },
                props: if form == 2 { Some(props) } else { None },
            },
        };
        self.inbound.push(p.clone());
        self.last_ack = Some(p.clone());
        self.push(p);
    }

    /// Positions in `age` that may be acknowledged (QoS 2 publishes never are).
    fn ackable(&self) -> Vec<usize> {
        (0..self.age.len()).filter(|i| self.outstanding[&self.age[*i]].1 != Kind::Pub(2)).collect()
    }

    /// Numbers commands and messages from here on.
    pub fn start_at(&mut self, n: u64) {
        self.next = n;
        self.msgs = n;
    }

    pub async fn connack(&mut self) -> Res {
        if self.connected {
            return Ok(());
        }
        self.s.await_connect().await?;
        ensure!(self.s.pkts.len() == 1, "client sent {:?} before CONNACK", self.s.pkts.get(1));
        self.scanned = 1;
        self.connected = true;
        let c = SPkt::Connack { sp: false, reason: 0, props: vec![] };
        self.inbound.push(c.clone());
        self.push(c);
        Ok(())
    }

    pub async fn all_seen(&mut self) -> Res {
        self.s.reading = true;
        let want = self.n_accepted;
        let mut idle = 0;
        // n_seen is only updated by scan
        self.scan()?;
        while self.n_seen < want {
            let have = self.s.pkts.len();
            let n = self.n_seen;
            self.s.wait(&format!("accepted commands to be sent ({} of {} so far)", n, want), move |s| s.pkts.len() > have).await?;
            self.scan()?;
            idle += 1;
            if idle > 10_000_000 {
                break;
            }
        }
        Ok(())
    }

    pub async fn op(&mut self, op: &Op) -> Res {
        match op {
            Op::Cmd { h, kind, t } => self.cmd(*h, *kind, *t)?,
            Op::Burst { h, kind, n, t } => {
                for _ in 0..*n {
                    self.cmd(*h, *kind, *t)?
                }
            }
            Op::Pump { kind, n } => {
                // the session must be able to take them
                let able = self.connected && self.s.drain && !self.rx_dropped && self.s.clients.iter().any(|c| c.is_some());
                if able && self.age.len() + (*n as usize) < 60_000 {
                    self.drain_out().await?;
                    for i in 0..*n {
                        if i % 80 == 0 {
                            self.all_seen().await?;
                        }
                        self.cmd(0, *kind, 0)?;
                    }
                    self.all_seen().await?;
                }
            }
            Op::CloneH { h } => {
                let live: Vec<usize> = (0..self.s.clients.len()).filter(|i| self.s.clients[*i].is_some()).collect();
                if !live.is_empty() && live.len() < 8 {
                    let c = self.s.clients[live[*h as usize % live.len()]].clone();
                    self.s.clients.push(c);
                }
            }
            Op::DropH { h } => {
                let live: Vec<usize> = (0..self.s.clients.len()).filter(|i| self.s.clients[*i].is_some()).collect();
                if live.len() > 1 {
                    self.s.clients[live[*h as usize % live.len()]] = None;
                }
            }
            Op::DropAll => {
                for c in self.s.clients.iter_mut() {
                    *c = None;
                }
            }
            Op::In { qos, id, n } => {
                if self.connected {
                    for i in 0..*n {
                        // a repeated identifier now and then
                        self.message(*qos, if *n > 3 { id.wrapping_add(i / 2).max(1) } else { *id });
                    }
                }
            }
            Op::Same { qos, id, n, dup } => {
                if self.connected {
                    for i in 0..*n {
                        let id = if *qos > 0 { (*id).max(1) } else { 0 };
                        let dup = *qos > 0 && (*dup == 1 || *dup == 2 && i > 0);
                        let p = SPkt::Publish { dup, qos: *qos, retain: false, topic: "s".into(), id, props: vec![], payload: vec![] };
                        self.msgs += 1;
                        if *qos == 1 {
                            self.pubacks_due.push(id);
                        }
                        self.inbound.push(p.clone());
                        self.push(p);
                    }
                }
            }
            Op::Ack { k, form, fail } => {
                let v = self.ackable();
                if !v.is_empty() {
                    let i = v[*k as usize * (v.len() - 1) / 255];
                    self.ack_at(i, *form, *fail);
                }
            }
            Op::AckMany { n, newest_first } => {
                for _ in 0..*n {
                    let v = self.ackable();
                    match if *newest_first { v.last() } else { v.first() } {
                        Some(i) => self.ack_at(*i, 0, 0),
                        None => break,
                    }
                }
            }
            Op::Bogus { what, kind, pick } => self.bogus(*what, *kind, *pick).await?,
            Op::Pingresp => {
                if self.connected {
                    self.push(SPkt::Pingresp)
                }
            }
            Op::Step(n) => {
                for _ in 0..*n {
                    self.s.step().await;
                }
            }
            Op::Settle => self.s.settle().await,
            Op::ExtraPoll => {
                self.s.wake.flag.store(true, std::sync::atomic::Ordering::SeqCst);
                self.s.step().await;
            }
            Op::FreshWakers => self.s.fresh_wakers = true,
            Op::Drain(b) => {
                if !self.rx_dropped {
                    self.s.drain = *b
                }
            }
            Op::Take(n) => {
                self.s.take_notifs(*n as usize);
            }
            Op::Advance(ms) => {
                // stay clear of the next ping
                if self.advanced + (*ms as u64) < 7000 {
                    self.advanced += *ms as u64;
                    self.s.advance(*ms as u64).await;
                }
            }
            Op::Age(secs) => {
                // a broker that can answer
                if self.may_age().await? {
                    let mut left = *secs as u64 * 1000;
                    while left > 0 {
                        let d = left.min(800);
                        left -= d;
                        self.age(d).await?;
                    }
                }
            }
            Op::DropRx => {
                self.s.take_notifs(usize::MAX);
                self.s.rx = None;
                self.rx_dropped = true;
            }
            Op::Clog => {
                if self.connected && self.s.reading {
                    self.s.reading = false;
                    self.clogged += 1;
                }
            }
            Op::Unclog => self.s.reading = true,
            Op::Connack => self.connack().await?,
        }
        self.flush();
        self.scan()?;
        if let Some(e) = &self.s.end {
            violation!("session ended in mid-history: {:?}", e);
        }
        Ok(())
    }

    async fn bogus(&mut self, what: u8, kind: u8, pick: u16) -> Res {
        if !self.connected || !self.s.drain || self.rx_dropped || self.s.clients.iter().all(|c| c.is_none()) {
            return Ok(());
        }
        // only when both sides agree on what is outstanding is "bogus" well defined
        self.drain_out().await?;
        self.all_seen().await?;
        let mk = |kind: u8, id: u16| match kind {
            0 => SPkt::Puback { id, reason: None, props: None },
            1 => SPkt::Suback { id, props: vec![], reason: 0 },
            _ => SPkt::Unsuback { id, props: vec![], reason: 0 },
        };
        let p = match what {
            0 => {
                // near the identifiers in use, or anywhere
                let mut id = pick.wrapping_add(if pick < 6 { self.outstanding.keys().next().copied().unwrap_or(1) } else { 0 }).max(1);
                while self.outstanding.contains_key(&id) {
                    id = if id == u16::MAX { 1 } else { id + 1 };
                }
                mk(kind, id)
            }
            1 => {
                if self.age.is_empty() {
                    return Ok(());
                }
                let id = self.age[pick as usize % self.age.len()];
                let right = match self.outstanding[&id].1 {
                    Kind::Pub(1) => 0,
                    Kind::Sub => 1,
                    Kind::Unsub => 2,
                    _ => 9,
                };
                let mut k = kind % 3;
                if k == right {
                    k = (k + 1) % 3;
                }
                mk(k, id)
            }
            _ => match &self.last_ack {
                Some(p @ (SPkt::Puback { id, .. } | SPkt::Suback { id, .. } | SPkt::Unsuback { id, .. })) if !self.outstanding.contains_key(id) => p.clone(),
                _ => return Ok(()),
            },
        };
        self.bogus += 1;
        self.inbound.push(p.clone());
        self.push(p);
        self.drain_out().await?;
        self.s.fence_in().await
    }

    /// Whether time may pass: the broker can answer pings.
    pub async fn may_age(&mut self) -> Res<bool> {
        if self.connected && self.s.drain && self.s.reading {
            self.drain_out().await?;
            self.s.settle().await;
            return Ok(true);
        }
        Ok(false)
    }

    /// Time passes, a ping is answered at once.
    async fn age(&mut self, ms: u64) -> Res {
        self.s.advance(ms).await;
        self.aged(ms).await
    }

    /// Time has passed.
    pub async fn aged(&mut self, ms: u64) -> Res {
        self.advanced += ms;
        self.s.settle().await;
        self.scan()?;
        // a client that is late is seen to be so elsewhere (C12)
        if self.pings > self.answered {
            self.answered = self.pings;
            self.advanced = 0;
            let p = SPkt::Pingresp.encode();
            self.s.send(&p).await?;
            self.s.settle().await;
        }
        Ok(())
    }

    /// Everything the broker wants to send has been handed to the kernel.
    async fn drain_out(&mut self) -> Res {
        self.s.reading = true;
        self.flush();
        while let Some(b) = self.out.pop_front() {
            let off = self.out_off;
            self.out_off = 0;
            self.s.send(&b[off..]).await?;
        }
        Ok(())
    }

    /// Brings the history to its end and checks what must have come of it.
    pub async fn finish(&mut self) -> Res {
        self.s.reading = true;
        if !self.rx_dropped {
            self.s.drain = true;
        }
        self.connack().await?;
        self.drain_out().await?;
        self.all_seen().await?;
        if !self.rx_dropped {
            self.s.fence_in().await?;
        } else {
            self.s.settle().await;
        }
        if self.want.pubacks {
            let n = self.pubacks_due.len();
            let mut have = self.s.pkts.len();
            self.scan()?;
            while self.pubacks.len() < n {
                let got = self.pubacks.len();
                self.s.wait(&format!("PUBACKs ({} of {} so far)", got, n), move |s| s.pkts.len() > have).await?;
                have = self.s.pkts.len();
                self.scan()?;
            }
        }
        if self.s.clients.iter().any(|c| c.is_some()) {
            if self.want.order {
                // the queue has been drained, so there is room
                let c = self.s.client();
                let r = guarded(|| c.publish(PublishBuilder::from_bytes("harness/fence/room", &[])));
                ensure!(matches!(r, Ok(Ok(()))), "all accepted commands were sent, yet another one is refused: {:?}", r);
            }
            self.s.fence_out().await?;
        } else {
            self.s.settle().await;
        }
        self.scan()?;
        if self.want.order {
            ensure!(self.accepted.is_empty(), "{} accepted commands were never sent", self.accepted.len());
        }
        if self.want.pubacks {
            ensure!(self.pubacks == self.pubacks_due, "PUBACKs {:?}, expected {:?}", self.pubacks, self.pubacks_due);
        }
        if self.want.notifs && !self.rx_dropped {
            let want: Vec<&SPkt> = self.inbound.iter().collect();
            check_notifs(&self.s.app_notifs(), &want)?;
        }
        self.s.no_panic()?;
        if let Some(e) = &self.s.end {
            violation!("session ended: {:?}", e);
        }
        Ok(())
    }

    pub fn observe(&self, obs: &mut Obs) {
        obs.count("commands accepted", self.n_accepted);
        obs.count("commands refused", self.n_refused);
        obs.count("messages in", self.msgs % 1_000_000);
        obs.count("bogus acknowledgements", self.bogus);
        obs.count("times the broker stopped reading", self.clogged);
        obs.count("pings", self.pings);
        if self.reused {
            obs.label("histories re-using an identifier");
        }
        if self.n_refused > 0 {
            obs.label("histories with refused commands");
        }
        if !self.out_empty_since {
            obs.label("histories in which the client stopped reading for a while");
        }
        if self.max_outstanding >= 3 {
            obs.label("histories with 3 or more outstanding");
        }
    }
}

pub fn run_case(c: &Case, want: Want, obs: &mut Obs) -> Res<()> {
    let (r, o) = run(c.seed, async {
        let mut m = M::new(want, c.narrow).await?;
        for op in &c.ops {
            m.op(op).await?;
        }
        m.finish().await?;
        let mut o = Obs::default();
        m.observe(&mut o);
        o.nontrivial = m.n_accepted >= 2 || m.inbound.len() >= 3;
        Ok(((), o))
    })?;
    for (k, v) in o.labels {
        obs.count(k, v);
    }
    obs.nontrivial = o.nontrivial;
    Ok(r)
}
