//! C04, C05: packet identifiers.
use std::collections::{BTreeSet, VecDeque};

use proptest::collection::vec;
use proptest::prelude::*;
use ruq::PublishBuilder;
use serde::{Deserialize, Serialize};

use super::notes;
use crate::engine::{phase, Env, Obs, Report};
use crate::machine::{self, Want, Weights};
use crate::sim::*;
use crate::wire::*;
use crate::{ensure, violation};

// ---------------------------------------------------------------- the allocator by itself

#[derive(Clone, Debug, Serialize, Deserialize)]
enum A {
    Take(u16),
    /// give back one in use, chosen by `pick`
    Give(u16),
    GiveMany { n: u16, from: u16, step: u16 },
    TakeAll,
    GiveAll,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AllocCase {
    max: u16,
    ops: Vec<A>,
}

fn alloc_case() -> BoxedStrategy<AllocCase> {
    let op = prop_oneof![
        6 => prop_oneof![4 => Just(1u16), 1 => 1u16..20].prop_map(A::Take),
        6 => any::<u16>().prop_map(A::Give),
        1 => (1u16..40, any::<u16>(), 1u16..4).prop_map(|(n, from, step)| A::GiveMany { n, from, step }),
        1 => Just(A::TakeAll),
        1 => Just(A::GiveAll),
    ];
    (prop_oneof![6 => 1u16..=12, 2 => 13u16..300, 1 => Just(65535u16)], vec(op, 1..120))
        .prop_map(|(max, ops)| AllocCase { max, ops })
        .boxed()
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    /// handed-out identifiers are distinct
    Unique,
    /// an identifier is handed out exactly while one is free
    Complete,
}

#[cfg(feature = "hooks")]
fn run_alloc(c: &AllocCase, focus: Focus, obs: &mut Obs) -> Res {
    let mut pool = match guarded(|| ruq::verif_hooks::IdPool::new(c.max)) {
        Ok(p) => p,
        Err(p) => violation!("allocator panicked: {}", p),
    };
    let mut used: BTreeSet<u16> = BTreeSet::new();
    let mut order: Vec<u16> = vec![];
    let take = |pool: &mut ruq::verif_hooks::IdPool, used: &mut BTreeSet<u16>, order: &mut Vec<u16>, obs: &mut Obs| -> Res<bool> {
        let r = match guarded(|| pool.take()) {
            Ok(r) => r,
            Err(p) => violation!("allocator panicked with {} of {} identifiers in use: {}", used.len(), c.max, p),
        };
        match r {
            Some(id) => {
                if focus == Focus::Unique || used.len() == c.max as usize {
                    ensure!(id >= 1 && id <= c.max, "identifier {} outside 1..={}", id, c.max);
                    ensure!(!used.contains(&id), "identifier {} handed out while in use ({} in use)", id, used.len());
                }
                used.insert(id);
                order.push(id);
                Ok(true)
            }
            None => {
                if focus == Focus::Complete {
                    ensure!(
                        used.len() == c.max as usize,
                        "no identifier to be had although only {} of {} are in use",
                        used.len(),
                        c.max
                    );
                }
                if used.len() == c.max as usize {
                    obs.label("asked with none free");
                }
                Ok(false)
            }
        }
    };
    let give = |pool: &mut ruq::verif_hooks::IdPool, used: &mut BTreeSet<u16>, order: &mut Vec<u16>, i: usize| -> Res {
        let id = order.swap_remove(i);
        used.remove(&id);
        match guarded(|| pool.give(id)) {
            Ok(()) => Ok(()),
            Err(p) => violation!("allocator panicked on the return of {}: {}", id, p),
        }
    };
    let mut max_used = 0;
    let mut gives = 0;
    for op in &c.ops {
        match op {
            A::Take(n) => {
                for _ in 0..*n {
                    take(&mut pool, &mut used, &mut order, obs)?;
                }
            }
            A::Give(p) => {
                if !order.is_empty() {
                    let i = *p as usize % order.len();
                    give(&mut pool, &mut used, &mut order, i)?;
                    gives += 1;
                }
            }
            A::GiveMany { n, from, step } => {
                let mut i = *from as usize;
                for _ in 0..*n {
                    if order.is_empty() {
                        break;
                    }
                    let k = i % order.len();
                    give(&mut pool, &mut used, &mut order, k)?;
                    gives += 1;
                    i += *step as usize;
                }
            }
            A::TakeAll => {
                let mut n = 0u32;
                while take(&mut pool, &mut used, &mut order, obs)? {
                    n += 1;
                    ensure!(n <= c.max as u32 + 1, "more than {} identifiers handed out", c.max);
                }
            }
            A::GiveAll => {
                // the walk over the free list is linear: keep the large pool affordable
                let mut k = 0;
                while !order.is_empty() && k < 3000 {
                    let i = if c.ops.len() % 2 == 0 { 0 } else { order.len() - 1 };
                    give(&mut pool, &mut used, &mut order, i)?;
                    gives += 1;
                    k += 1;
                }
            }
        }
        max_used = max_used.max(used.len());
    }
    // afterwards every identifier can be in use together
    if focus == Focus::Complete && c.max < 1000 {
        while take(&mut pool, &mut used, &mut order, obs)? {
            if used.len() > c.max as usize {
                break;
            }
        }
        ensure!(used.len() == c.max as usize, "{} of {} identifiers can be in use together", used.len(), c.max);
        take(&mut pool, &mut used, &mut order, obs)?;
    }
    if max_used == c.max as usize {
        obs.label("exhausted on the way");
    }
    obs.nontrivial = max_used >= 2 && gives >= 1;
    Ok(())
}

#[cfg(not(feature = "hooks"))]
fn run_alloc(_: &AllocCase, _: Focus, _: &mut Obs) -> Res {
    Ok(())
}

/// Every sequence of takes and returns up to a length, for small pools. `seq[i]`: 0 take, k return
/// the k-th in use.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SmallCase {
    max: u16,
    depth: u8,
}

fn run_small(c: &SmallCase, focus: Focus, obs: &mut Obs) -> Res {
    fn go(max: u16, ops: &mut Vec<A>, in_use: usize, depth: u8, focus: Focus, n: &mut u64) -> Res {
        // checks the whole prefix each time: the pool cannot be copied
        let mut o = Obs::default();
        run_alloc(&AllocCase { max, ops: ops.clone() }, focus, &mut o)
            .map_err(|f| match f {
                Fail::Violation(m) => Fail::Violation(format!("{} after {:?}", m, ops)),
                f => f,
            })?;
        *n += 1;
        if depth == 0 {
            return Ok(());
        }
        ops.push(A::Take(1));
        let next = (in_use + 1).min(max as usize);
        go(max, ops, next, depth - 1, focus, n)?;
        ops.pop();
        for k in 0..in_use {
            ops.push(A::Give(k as u16));
            go(max, ops, in_use - 1, depth - 1, focus, n)?;
            ops.pop();
        }
        Ok(())
    }
    let mut n = 0;
    go(c.max, &mut vec![], 0, c.depth, focus, &mut n)?;
    obs.count("sequences enumerated", n);
    obs.nontrivial = true;
    Ok(())
}

fn alloc_phases(env: &Env, rep: &mut Report, focus: Focus) {
    if cfg!(not(feature = "hooks")) {
        rep.exhaustive_notes.push("built without hooks: the allocator was only exercised through sessions".into());
        return;
    }
    phase(
        env,
        rep,
        "allocator",
        "sequences of taking and returning identifiers (only ones in use are returned) on pools of 1-12, 13-300 or 65535, against a set; non-trivial: two in use at once and one returned",
        env.n(40_000, 1_500_000),
        alloc_case,
        move |c, o| run_alloc(c, focus, o),
    );
    let depth = if env.n(0, 1) == 1 && env.tier == crate::engine::Tier::Thorough { 11 } else { 9 };
    rep.exhaustive_notes.push(format!("every take/return sequence of length <= {} on pools of 1 to 5 identifiers", depth));
    phase(
        env,
        rep,
        "allocator-exhaustive",
        "every sequence of takes and returns up to a fixed length on small pools, enumerated",
        5,
        move || (1u16..=5).prop_map(move |max| SmallCase { max, depth }).boxed(),
        move |c, o| run_small(c, focus, o),
    );
}

// ---------------------------------------------------------------- C04

pub fn c04(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    let want = Want { ids: true, ..Want::default() };
    let w = Weights {
        cmd: 14,
        burst: 2,
        handles: 1,
        input: 2,
        ack: 14,
        ack_many: 2,
        bogus: 5,
        sched: 8,
        advance: 1,
        late_connack: true,
        len: 80,
        ..Weights::default()
    };
    phase(
        env,
        rep,
        "history",
        "histories of requests and acknowledgements in any order with any reason code, and duplicate, unknown and wrong-type acknowledgements (sent when both sides agree on what is outstanding); non-trivial: at least 2 accepted commands or 3 inbound packets",
        env.n(50_000, 800_000),
        move || machine::cases(w),
        move |c, o| machine::run_case(c, want, o),
    );
    let wl = Weights { burst: 8, ack_many: 8, bogus: 3, sched: 14, len: 50, ..w };
    phase(
        env,
        rep,
        "many",
        "as history, with hundreds outstanding and fragmented identifier space",
        env.n(8000, 120_000),
        move || machine::cases(wl),
        move |c, o| machine::run_case(c, want, o),
    );
    phase(
        env,
        rep,
        "deep",
        "sessions with up to 65535 requests outstanding at once after an arbitrary fragmentation; identifiers checked throughout",
        env.n(60, 600),
        || exhaust_case(false),
        |c, o| run_exhaust(c, false, o),
    );
    alloc_phases(env, rep, Focus::Unique);
    notes(&["a bogus acknowledgement is sent only when every accepted request has been seen by the broker, so that it cannot be mistaken for a valid one"])
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExCase {
    seed: u64,
    /// before filling up: issue this many, then acknowledge a part of them in some order
    warm: Vec<(u16, u16, u8)>,
    /// how many more commands to try beyond exhaustion
    beyond: u8,
    /// rounds of acknowledging some and letting as many go out
    rounds: Vec<(u8, u8)>,
    kinds: u8,
    fill: u32,
}

fn exhaust_case(full: bool) -> BoxedStrategy<ExCase> {
    (
        any::<u64>(),
        vec((1u16..2000, 0u16..2000, 0u8..4), 0..6),
        0u8..90,
        vec((1u8..60, 0u8..4), 0..6),
        0u8..8,
        if full { Just(65535u32).boxed() } else { prop_oneof![1 => Just(65535u32), 4 => 100u32..5000].boxed() },
    )
        .prop_map(|(seed, warm, beyond, rounds, kinds, fill)| ExCase { seed, warm, beyond, rounds, kinds, fill })
        .boxed()
}

struct Ex {
    s: Sess,
    next: u32,
    seen: usize,
    /// commands accepted and not yet seen by the broker
    queued: VecDeque<u32>,
    out: Vec<(u16, u8)>,
    in_use: Vec<bool>,
    kinds: u8,
    strict: bool,
    /// messages with the identifiers of the requests come in, too
    inbound: bool,
}

impl Ex {
    fn kind(&self, n: u32) -> u8 {
        match self.kinds % 4 {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => (n % 3) as u8,
        }
    }
    /// True if accepted.
    fn issue(&mut self) -> Res<bool> {
        let n = self.next;
        let k = self.kind(n);
        let l = format!("{}", n);
        let c = self.s.client();
        let r = guarded(|| match k {
            0 => c.publish(PublishBuilder::from_bytes(&l, &[]).qos(qos(1))),
            1 => c.subscribe(&l, qos(0)),
            _ => c.unsubscribe(&l),
        });
        match r {
            Err(p) => violation!("client call panicked: {}", p),
            Ok(Err(_)) => Ok(false),
            Ok(Ok(())) => {
                self.next += 1;
                self.queued.push_back(n);
                Ok(true)
            }
        }
    }
    fn scan(&mut self) -> Res {
        self.s.no_panic()?;
        while self.seen < self.s.pkts.len() {
            let p = &self.s.pkts[self.seen].1;
            self.seen += 1;
            let (l, id, k) = match p {
                CPkt::Publish { topic, id, qos: 1, .. } => (topic, *id, 0),
                CPkt::Subscribe { filters, id, .. } => (&filters[0].0, *id, 1),
                CPkt::Unsubscribe { filters, id, .. } => (&filters[0], *id, 2),
                _ => continue,
            };
            ensure!(id != 0, "request {} carries identifier 0", l);
            ensure!(
                !self.in_use[id as usize],
                "request {} carries identifier {}, in use by another one of {} unacknowledged requests",
                l,
                id,
                self.out.len()
            );
            self.in_use[id as usize] = true;
            self.out.push((id, k));
            let want = self.queued.pop_front();
            if self.strict {
                ensure!(want.map(|n| n.to_string()).as_deref() == Some(&l[..]), "request {} was sent when {:?} was next", l, want);
            }
        }
        if self.s.pkts.len() > 100_000 {
            self.s.pkts.clear();
            self.seen = 0;
        }
        Ok(())
    }
    async fn until_out(&mut self, n: usize, what: &str) -> Res {
        loop {
            self.scan()?;
            if self.out.len() >= n {
                return Ok(());
            }
            let have = self.s.pkts.len();
            let o = self.out.len();
            self.s.wait(&format!("{} ({} of {} requests outstanding, {} accepted and waiting)", what, o, n, self.queued.len()), move |s| s.pkts.len() > have).await?;
        }
    }
    /// Issue until `n` requests are outstanding.
    async fn fill(&mut self, n: usize) -> Res {
        while self.out.len() + self.queued.len() < n {
            let mut burst = 0;
            while self.out.len() + self.queued.len() < n && burst < 90 && self.issue()? {
                burst += 1;
            }
            if burst == 0 {
                let o = self.out.len() + 1;
                self.until_out(o, "room in the queue").await?;
            } else {
                self.s.step().await;
                self.scan()?;
            }
            if let Some(e) = &self.s.end {
                violation!("session ended with {} requests unacknowledged: {:?}", self.out.len(), e);
            }
        }
        self.until_out(n, "requests to be sent").await
    }
    async fn ack(&mut self, n: usize, order: u8, seed: u64) -> Res {
        let mut bytes = vec![];
        let mut x = seed | 1;
        for i in 0..n {
            if self.out.is_empty() {
                break;
            }
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let at = match order {
                0 => 0,
                1 => self.out.len() - 1,
                2 => (x >> 33) as usize % self.out.len(),
                _ => (i * 2) % self.out.len(),
            };
            let (id, k) = self.out.remove(at);
            self.in_use[id as usize] = false;
            let code = |t: &[(u8, &'static str)]| if x & 1 << 40 == 0 { t[0].0 } else { t[(x >> 44) as usize % t.len()].0 };
            let props = if x & 1 << 42 == 0 { vec![] } else { vec![pr(0x26, PVal::Pair("k".into(), "v".into())), pr(0x1F, PVal::Str("why".into()))] };
            let p = match k {
                0 => {
                    let reason = code(PUBACK_REASONS);
                    let some = reason != 0 || x & 1 << 41 == 0;
                    SPkt::Puback { id, reason: if some { Some(reason) } else { None }, props: if some && !props.is_empty() { Some(props) } else { None } }
                }
                1 => SPkt::Suback { id, props, reason: code(SUBACK_REASONS) },
                _ => SPkt::Unsuback { id, props, reason: code(UNSUBACK_REASONS) },
            };
            if self.inbound && x & 15 << 50 == 0 {
                // the broker's identifiers are its own
                bytes.extend_from_slice(
                    &SPkt::Publish { dup: x & 1 << 55 == 0, qos: 1, retain: false, topic: "m".into(), id, props: vec![], payload: vec![] }.encode(),
                );
            }
            bytes.extend_from_slice(&p.encode());
        }
        self.s.send(&bytes).await
    }
}

async fn exhaust(c: &ExCase, strict: bool, o: &mut Obs) -> Res {
    let s = Sess::connected().await?;
    let mut e = Ex { s, next: 0, seen: 0, queued: VecDeque::new(), out: vec![], in_use: vec![false; 65536], kinds: c.kinds, strict, inbound: c.seed % 2 == 0 };
    for (issue, ack, order) in &c.warm {
        let n = e.out.len() + *issue as usize;
        e.fill(n).await?;
        e.ack(*ack as usize, *order, c.seed).await?;
        // what was acknowledged is free as soon as the client has read it
        e.s.fence_in().await?;
    }
    e.fill((c.fill as usize).max(e.out.len())).await?;
    let full = e.out.len() == 65535;
    if full {
        o.label("65535 outstanding at once");
        // more commands than there are identifiers: they wait
        let mut waiting = 0;
        for _ in 0..c.beyond {
            if e.issue()? {
                waiting += 1;
            }
        }
        o.count("commands issued beyond exhaustion", waiting);
        e.s.settle().await;
        // nothing goes out, the session is alive and still serves the other direction
        e.s.fence_in().await?;
        e.s.settle().await;
        e.scan()?;
        ensure!(e.out.len() <= 65535, "{} requests outstanding at once", e.out.len());
        if let Some(x) = &e.s.end {
            violation!("session ended with all identifiers in use: {:?}", x);
        }
        for (n, order) in &c.rounds {
            e.ack(*n as usize, *order, c.seed ^ *n as u64).await?;
            let n = 65535.min(e.out.len() + e.queued.len());
            e.until_out(n, "waiting commands to go out after acknowledgements").await?;
            let mut i = 0;
            while i < 20 && e.issue()? {
                i += 1;
            }
            o.label("acknowledgement rounds at the limit");
        }
        // enough room for everything still waiting, and some
        e.ack(500, 2, c.seed).await?;
        let n = 65535.min(e.out.len() + e.queued.len());
        e.until_out(n, "waiting commands to go out after acknowledgements").await?;
        ensure!(e.queued.is_empty(), "{} accepted commands were never sent", e.queued.len());
        e.fill(65535).await?;
        e.scan()?;
    }
    e.s.no_panic()?;
    if let Some(x) = &e.s.end {
        violation!("session ended: {:?}", x);
    }
    o.nontrivial = true;
    Ok(())
}

fn run_exhaust(c: &ExCase, strict: bool, obs: &mut Obs) -> Res {
    let o = run(c.seed, async {
        let mut o = Obs::default();
        exhaust(c, strict, &mut o).await?;
        Ok(o)
    })?;
    for (k, v) in o.labels {
        obs.count(k, v);
    }
    obs.nontrivial = o.nontrivial;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChurnCase {
    seed: u64,
    window: u16,
    order: u8,
    kinds: u8,
    total: u32,
}

fn run_churn(c: &ChurnCase, obs: &mut Obs) -> Res {
    run(c.seed, async {
        let s = Sess::connected().await?;
        let mut e = Ex { s, next: 0, seen: 0, queued: VecDeque::new(), out: vec![], in_use: vec![false; 65536], kinds: c.kinds, strict: false, inbound: c.seed % 2 == 0 };
        let w = c.window as usize;
        let mut i = 0u64;
        while e.next < c.total {
            e.fill(w).await?;
            let n = (w / 2).max(1).min(500);
            e.ack(n, c.order, c.seed ^ i).await?;
            i += 1;
        }
        e.s.fence_in().await?;
        e.fill(65535).await?;
        Ok(())
    })?;
    obs.count("requests issued", c.total as u64);
    obs.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- sessions of one process

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Before {
    fill: u32,
    ack: u16,
    order: u8,
    kinds: u8,
    /// commands accepted and not yet sent when it ends
    waiting: u8,
    /// 0: the application disconnects, 1: the broker does, 2: it closes the connection, 3: it resets
    /// it, 4: the application drops the event loop, 5: the broker sends nonsense, 6: the broker
    /// disconnects for a reason, 7: not at all
    how: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SuccCase {
    seed: u64,
    before: Vec<Before>,
    kinds: u8,
}

fn succ_case() -> BoxedStrategy<SuccCase> {
    let b = (
        prop_oneof![4 => 1u32..300, 2 => 300u32..5000, 1 => 5000u32..=40_000],
        prop_oneof![2 => Just(0u16), 2 => 1u16..300],
        0u8..4,
        0u8..8,
        0u8..30,
        0u8..8,
    )
        .prop_map(|(fill, ack, order, kinds, waiting, how)| Before { fill, ack, order, kinds, waiting, how });
    (any::<u64>(), vec(b, 1..4), 0u8..8).prop_map(|(seed, before, kinds)| SuccCase { seed, before, kinds }).boxed()
}

async fn new_ex(kinds: u8, seed: u64) -> Res<Ex> {
    let s = Sess::connected().await?;
    Ok(Ex { s, next: 0, seen: 0, queued: VecDeque::new(), out: vec![], in_use: vec![false; 65536], kinds, strict: true, inbound: seed % 2 == 0 })
}

async fn end_of(e: &mut Ex, how: u8) -> Res {
    let s = &mut e.s;
    match how {
        0 => {
            let mut room = 0;
            while s.client().disconnect().is_err() {
                s.settle().await;
                room += 1;
                ensure!(room < 1000, "the command queue stays full");
            }
        }
        1 => {
            s.try_send(&SPkt::Disconnect { reason: Some(0), props: None }.encode());
        }
        2 => s.shutdown_write(),
        3 => s.abort(),
        4 => {
            s.cancel();
            return Ok(());
        }
        5 => {
            s.try_send(&[0xF0, 0, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]);
        }
        _ => {
            s.try_send(&SPkt::Disconnect { reason: Some(0x8B), props: None }.encode());
        }
    }
    s.wait_end("the session to end").await?;
    s.no_panic()
}

async fn successors(c: &SuccCase, o: &mut Obs) -> Res {
    let mut kept = vec![];
    for b in &c.before {
        let mut e = new_ex(b.kinds, c.seed).await?;
        e.fill(b.fill as usize).await?;
        e.ack(b.ack as usize, b.order, c.seed).await?;
        e.s.fence_in().await?;
        for _ in 0..b.waiting {
            e.issue()?;
        }
        if b.how == 7 {
            o.label("an earlier session goes on meanwhile");
            e.scan()?;
            kept.push(e);
        } else {
            end_of(&mut e, b.how).await?;
            o.label("a session ended with requests unacknowledged");
            if b.how == 4 {
                o.label("an event loop was dropped");
            }
        }
    }
    let mut e = new_ex(c.kinds, c.seed).await?;
    e.fill(65535).await?;
    for k in &mut kept {
        k.fill(k.out.len() + k.queued.len() + 200).await?;
        k.ack(100, 2, c.seed).await?;
    }
    e.ack(300, 2, c.seed).await?;
    e.s.fence_in().await?;
    e.fill(65535).await?;
    for k in kept.iter_mut().chain(Some(&mut e)) {
        k.scan()?;
        if let Some(x) = &k.s.end {
            violation!("session ended: {:?}", x);
        }
    }
    o.nontrivial = true;
    Ok(())
}

/// A session with all identifiers in use, by QoS 1 publishes.
pub async fn exhausted(seed: u64) -> Res<Sess> {
    let mut e = new_ex(0, seed).await?;
    e.fill(65535).await?;
    let mut s = e.s;
    s.pkts = Vec::new();
    Ok(s)
}

pub fn successors_phase(env: &Env, rep: &mut Report) {
    phase(
        env,
        rep,
        "successors",
        "1-3 sessions with up to 40000 requests unacknowledged and up to 29 waiting, each ended in one of 7 ways or kept, then one more in the same process: it must be able to have 65535 in flight, all in order and with identifiers of its own, and the ones kept go on; non-trivial: always",
        env.n(160, 2000),
        succ_case,
        |c, o| {
            let l = run(c.seed, async {
                let mut o = Obs::default();
                successors(c, &mut o).await?;
                Ok(o)
            })?;
            for (k, v) in l.labels {
                o.count(k, v);
            }
            o.nontrivial = l.nontrivial;
            Ok(())
        },
    );
}

pub fn c05(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    alloc_phases(env, rep, Focus::Complete);
    phase(
        env,
        rep,
        "exhaust",
        "sessions that fragment the identifier space, put 65535 requests in flight, issue more, then acknowledge in random order: the waiting ones must go out in order; non-trivial: always",
        env.n(100, 1000),
        || exhaust_case(true),
        |c, o| run_exhaust(c, true, o),
    );
    phase(
        env,
        rep,
        "churn",
        "sessions issuing up to 90000 requests with a window of 1-600 unacknowledged, acknowledged oldest first, newest first, at random or alternately with any reason code; then 65535 must fit in flight; non-trivial: always",
        env.n(50, 500),
        || {
            (any::<u64>(), prop_oneof![1u16..8, 1u16..600], 0u8..4, 0u8..8, prop_oneof![1 => 66_000u32..90_000, 2 => 500u32..20_000])
                .prop_map(|(seed, window, order, kinds, total)| ChurnCase { seed, window, order, kinds, total })
                .boxed()
        },
        run_churn,
    );
    notes(&["'waits' is observed as: accepted by the queue or refused by it, and not sent before an acknowledgement"])
}
