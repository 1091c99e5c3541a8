//! C03, C19: order and isolation under schedules and threads.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use ruq::{Client, PublishBuilder};
use serde::{Deserialize, Serialize};

use super::notes;
use crate::dbg;
use crate::engine::{phase, Env, Obs, Report};
use crate::machine::{self, Op, Want, Weights, M};
use crate::real::*;
use crate::sim::*;
use crate::wire::*;
use crate::{ensure, violation};

// ---------------------------------------------------------------- threads

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConnCase {
    /// commands per thread
    threads: Vec<u16>,
    /// messages from the broker, the QoS of each
    msgs: Vec<u8>,
    /// acknowledge: 0 at once, 1 newest first in batches, 2 oldest first in batches
    ack: u8,
    /// the application takes notifications slowly
    slow: bool,
    /// issue the first commands before the event loop is first polled
    early: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ThreadCase {
    /// 0: current-thread runtime, n: multi-threaded with n workers
    workers: u8,
    conns: Vec<ConnCase>,
    /// a busy task competing for the executor
    noise: bool,
    /// the connections carry equal commands and messages
    #[serde(default)]
    alike: bool,
}

impl ThreadCase {
    /// what the topics of a connection are made from
    fn name(&self, conn: usize) -> usize {
        if self.alike {
            0
        } else {
            conn
        }
    }
}

struct Issued {
    conn: usize,
    thread: usize,
    n: u64,
    ok: bool,
    start: Instant,
    end: Instant,
}

fn cmd_label(conn: usize, thread: usize, n: u64) -> String {
    format!("c/{}/{}/{}", conn, thread, n)
}

fn issue(c: &mut Client, label: &str, n: u64) -> Result<(), anyhow::Error> {
    match n % 5 {
        0 | 1 => c.publish(PublishBuilder::from_bytes(label, b"x").qos(qos((n % 2) as u8))),
        2 => c.publish(PublishBuilder::from_str(label, "y").qos(qos(1))),
        3 => c.subscribe(label, qos(1)),
        _ => c.unsubscribe(label),
    }
}

struct Seen {
    label: String,
    id: u16,
}

fn parse_cmd(p: &CPkt) -> Option<Seen> {
    Some(match p {
        CPkt::Publish { topic, id, .. } => Seen { label: topic.clone(), id: *id },
        CPkt::Subscribe { filters, id, .. } => Seen { label: filters[0].0.clone(), id: *id },
        CPkt::Unsubscribe { filters, id, .. } => Seen { label: filters[0].clone(), id: *id },
        _ => return None,
    })
}

#[derive(Default)]
struct BrokerOut {
    seen: Vec<Seen>,
    pubacks: Vec<u16>,
}

fn msg(conn: usize, i: usize, q: u8) -> SPkt {
    SPkt::Publish {
        dup: q > 0 && i % 3 == 1,
        qos: q,
        retain: false,
        topic: format!("m/{}/{}", conn, i),
        id: if q > 0 { (i as u16 % 65535) + 1 } else { 0 },
        props: vec![],
        payload: vec![i as u8; i % 7],
    }
}

fn broker_side(
    mut b: Broker,
    conn: usize,
    name: usize,
    c: &ConnCase,
    ids: bool,
    done_issuing: &AtomicBool,
    accepted: &AtomicU64,
    progress: &AtomicU64,
) -> Res<BrokerOut> {
    b.handshake()?;
    let mut out = BrokerOut::default();
    let mut outstanding: BTreeMap<u16, u8> = BTreeMap::new();
    let mut batch: Vec<u16> = vec![];
    let mut sent = 0usize;
    let want_acks = c.msgs.iter().filter(|q| **q == 1).count();
    let mut last = Instant::now();
    loop {
        // a few messages at a time, so that both directions flow
        let mut w = vec![];
        while sent < c.msgs.len() && w.len() < 600 {
            w.extend_from_slice(&msg(name, sent, c.msgs[sent]).encode());
            sent += 1;
        }
        let got = b.read()?;
        if !got.is_empty() {
            last = Instant::now();
            progress.fetch_add(got.len() as u64, Ordering::SeqCst);
        }
        for p in &got {
            match p {
                CPkt::Ack { ptype: 4, id, .. } => out.pubacks.push(*id),
                CPkt::Pingreq => w.extend_from_slice(&SPkt::Pingresp.encode()),
                _ => {
                    if let Some(s) = parse_cmd(p) {
                        let kind = match p {
                            CPkt::Publish { .. } => 0u8,
                            CPkt::Subscribe { .. } => 1,
                            _ => 2,
                        };
                        if s.id != 0 {
                            if outstanding.insert(s.id, kind).is_some() && ids {
                                violation!("connection {}: identifier {} is in use twice", conn, s.id);
                            }
                            batch.push(s.id);
                        } else if kind != 0 && ids {
                            violation!("connection {}: identifier 0", conn);
                        }
                        out.seen.push(s);
                    }
                }
            }
        }
        let limit = if c.ack == 0 || got.is_empty() { 0 } else { 40 };
        if batch.len() > limit {
            if c.ack == 1 {
                batch.reverse();
            }
            for id in batch.drain(..) {
                let k = outstanding.remove(&id).unwrap();
                let p = match k {
                    0 => SPkt::Puback { id, reason: None, props: None },
                    1 => SPkt::Suback { id, props: vec![], reason: 1 },
                    _ => SPkt::Unsuback { id, props: vec![], reason: 0 },
                };
                w.extend_from_slice(&p.encode());
            }
        }
        if !w.is_empty() {
            b.send(&w)?;
            last = Instant::now();
        }
        if done_issuing.load(Ordering::SeqCst)
            && out.seen.len() as u64 >= accepted.load(Ordering::SeqCst)
            && sent == c.msgs.len()
            && out.pubacks.len() >= want_acks
            && got.is_empty()
        {
            // whatever else may come
            std::thread::sleep(Duration::from_millis(5));
            for p in b.read()? {
                match &p {
                    CPkt::Ack { id, .. } => out.pubacks.push(*id),
                    p => out.seen.extend(parse_cmd(p)),
                }
            }
            // hold the connection open until told otherwise
            let _ = b.sock.shutdown(std::net::Shutdown::Write);
            return Ok(out);
        }
        if b.eof {
            violation!(
                "connection {} was closed: {} of {} commands arrived, {} of {} PUBACKs",
                conn,
                out.seen.len(),
                accepted.load(Ordering::SeqCst),
                out.pubacks.len(),
                want_acks
            );
        }
        if last.elapsed() > stall() {
            violation!(
                "connection {} stands still: {} of {} commands arrived, {} of {} PUBACKs, {} of {} messages sent",
                conn,
                out.seen.len(),
                accepted.load(Ordering::SeqCst),
                out.pubacks.len(),
                want_acks,
                sent,
                c.msgs.len()
            );
        }
    }
}

#[derive(Clone, Copy)]
struct What {
    order: bool,
    ids: bool,
    inbound: bool,
}

fn run_threads(c: &ThreadCase, what: What, obs: &mut Obs) -> Res {
    let rt = match c.workers {
        0 => tokio::runtime::Builder::new_current_thread().enable_all().build(),
        n => tokio::runtime::Builder::new_multi_thread().worker_threads(n as usize).enable_all().build(),
    };
    let rt = harness("runtime", rt)?;
    let issued: Mutex<Vec<Issued>> = Mutex::new(vec![]);
    let fails: Mutex<Vec<Fail>> = Mutex::new(vec![]);
    let outs: Mutex<HashMap<usize, BrokerOut>> = Mutex::new(HashMap::new());
    let notifs: Mutex<HashMap<usize, Vec<(String, String)>>> = Mutex::new(HashMap::new());
    let ends: Mutex<HashMap<usize, String>> = Mutex::new(HashMap::new());
    let mut setup = vec![];
    for _ in &c.conns {
        let (l, a) = listen()?;
        let (client, ev, rx) = Client::new(a);
        setup.push((l, client, ev, rx));
    }
    let total_threads: usize = c.conns.iter().map(|x| x.threads.len()).sum();
    let go = Barrier::new(total_threads.max(1));
    let stop_noise = Arc::new(AtomicBool::new(false));
    let progress: Vec<AtomicU64> = c.conns.iter().map(|_| AtomicU64::new(0)).collect();
    let done: Vec<AtomicBool> = c.conns.iter().map(|_| AtomicBool::new(false)).collect();
    let accepted: Vec<AtomicU64> = c.conns.iter().map(|_| AtomicU64::new(0)).collect();
    let broken = AtomicBool::new(false);

    std::thread::scope(|sc| {
        let mut evs = vec![];
        for (ci, (l, client, ev, mut rx)) in setup.into_iter().enumerate() {
            let cc = &c.conns[ci];
            let name = c.name(ci);
            let (fails, outs, issued, go, notifs, broken) = (&fails, &outs, &issued, &go, &notifs, &broken);
            let (done, accepted, progress) = (&done[ci], &accepted[ci], &progress[ci]);
            // broker
            sc.spawn(move || {
                let r = Broker::accept(l).and_then(|b| broker_side(b, ci, name, cc, what.ids, done, accepted, progress));
                match r {
                    Ok(o) => {
                        outs.lock().unwrap().insert(ci, o);
                    }
                    Err(f) => {
                        fails.lock().unwrap().push(f);
                        broken.store(true, Ordering::SeqCst);
                    }
                }
            });
            // application threads
            let left = Arc::new(AtomicU64::new(cc.threads.len() as u64));
            if cc.threads.is_empty() {
                done.store(true, Ordering::SeqCst);
            }
            for (ti, n) in cc.threads.iter().enumerate() {
                let mut cl = client.clone();
                let left = left.clone();
                let n = *n as u64;
                sc.spawn(move || {
                    go.wait();
                    let mut mine = vec![];
                    let mut i = 0u64;
                    let mut t = Instant::now();
                    let mut seen = 0;
                    for _ in 0..n {
                        loop {
                            let label = cmd_label(name, ti, i);
                            let start = Instant::now();
                            let r = guarded(|| issue(&mut cl, &label, i));
                            let end = Instant::now();
                            let ok = match r {
                                Ok(r) => r.is_ok(),
                                Err(p) => {
                                    fails.lock().unwrap().push(Fail::Violation(format!("client call panicked: {}", p)));
                                    broken.store(true, Ordering::SeqCst);
                                    false
                                }
                            };
                            mine.push(Issued { conn: ci, thread: ti, n: i, ok, start, end });
                            i += 1;
                            if ok {
                                accepted.fetch_add(1, Ordering::SeqCst);
                                t = Instant::now();
                                break;
                            }
                            // full: wait for room
                            if mine.len() > 200_000 || broken.load(Ordering::SeqCst) {
                                break;
                            }
                            let p = progress.load(Ordering::SeqCst);
                            if p != seen {
                                seen = p;
                                t = Instant::now();
                            }
                            if t.elapsed() > stall() {
                                break;
                            }
                            std::thread::sleep(Duration::from_micros(300));
                        }
                    }
                    issued.lock().unwrap().extend(mine);
                    if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                        done.store(true, Ordering::SeqCst);
                    }
                });
            }
            drop(client);
            // notifications
            let slow = cc.slow;
            sc.spawn(move || {
                let mut v = vec![];
                futures::executor::block_on(async {
                    while let Some(n) = rx.next().await {
                        let (k, t) = match n {
                            ruq::Notification::ConnAck(x) => ("ConnAck", format!("{:?}", x)),
                            ruq::Notification::SubAck(x) => ("SubAck", x),
                            ruq::Notification::UnsubAck(x) => ("UnsubAck", x),
                            ruq::Notification::Message(x) => ("Message", x),
                        };
                        v.push((k.to_string(), t));
                        if slow && v.len() % 16 == 0 {
                            std::thread::sleep(Duration::from_micros(300));
                        }
                    }
                });
                notifs.lock().unwrap().insert(ci, v);
            });
            evs.push((ci, ev));
        }
        if c.noise {
            let s = stop_noise.clone();
            rt.spawn(async move {
                while !s.load(Ordering::SeqCst) {
                    tokio::task::yield_now().await;
                }
            });
        }
        let t0 = Instant::now();
        rt.block_on(async {
            let mut hs = vec![];
            for (ci, ev) in evs {
                if c.conns[ci].early {
                    tokio::time::sleep(Duration::from_millis(3)).await;
                }
                hs.push((ci, tokio::spawn(ev)));
            }
            for (ci, h) in hs {
                // the brokers give up, and close, long before this
                let left = Duration::from_secs(120).saturating_sub(t0.elapsed());
                let e = match tokio::time::timeout(left, h).await {
                    Ok(Ok(Ok(()))) => "ok".to_string(),
                    Ok(Ok(Err(e))) => format!("error {:?}", e),
                    Ok(Err(e)) => format!("panic {:?}", e),
                    Err(_) => "never".to_string(),
                };
                ends.lock().unwrap().insert(ci, e);
            }
        });
        stop_noise.store(true, Ordering::SeqCst);
        // dropping the runtime drops event loops still there, which ends the streams
        drop(rt);
    });

    if let Some(f) = fails.into_inner().unwrap().into_iter().next() {
        let e = ends.into_inner().unwrap();
        return Err(match f {
            Fail::Violation(m) => Fail::Violation(format!("{} (event loops: {:?})", m, e)),
            f => f,
        });
    }
    let issued = issued.into_inner().unwrap();
    let outs = outs.into_inner().unwrap();
    let notifs = notifs.into_inner().unwrap();
    let ends = ends.into_inner().unwrap();
    for (ci, cc) in c.conns.iter().enumerate() {
        let out = &outs[&ci];
        if what.order {
            let mine: HashMap<String, &Issued> =
                issued.iter().filter(|i| i.conn == ci).map(|i| (cmd_label(c.name(ci), i.thread, i.n), i)).collect();
            let mut seen = HashSet::new();
            let mut last: HashMap<usize, u64> = HashMap::new();
            let mut max_start: Option<(Instant, &str)> = None;
            for s in &out.seen {
                let i = match mine.get(&s.label) {
                    Some(i) => i,
                    None => violation!("connection {} received {}, which was never issued on it", ci, s.label),
                };
                ensure!(i.ok, "refused command {} was sent", s.label);
                ensure!(seen.insert(s.label.clone()), "{} was sent twice", s.label);
                if let Some(l) = last.insert(i.thread, i.n) {
                    ensure!(l < i.n, "{} was sent after {}", s.label, cmd_label(c.name(ci), i.thread, l));
                }
                if let Some((m, l)) = max_start {
                    ensure!(i.end >= m, "{} returned before {} was called, but was sent after it", s.label, l);
                }
                if max_start.map_or(true, |(m, _)| i.start > m) {
                    max_start = Some((i.start, &s.label));
                }
            }
            let missing = mine.values().filter(|i| i.ok).count() - seen.len();
            ensure!(missing == 0, "connection {}: {} accepted commands were never sent", ci, missing);
        }
        if what.inbound {
            let due: Vec<u16> = (0..cc.msgs.len()).filter(|i| cc.msgs[*i] == 1).map(|i| (i as u16 % 65535) + 1).collect();
            ensure!(out.pubacks == due, "connection {}: {} PUBACKs, {} due, or out of order", ci, out.pubacks.len(), due.len());
            let got: Vec<&(String, String)> = notifs[&ci].iter().filter(|n| n.0 == "Message").collect();
            for (i, q) in cc.msgs.iter().enumerate() {
                match got.get(i) {
                    None => violation!("connection {}: message {} of {} was never delivered", ci, i, cc.msgs.len()),
                    Some((k, t)) => {
                        if let Err(e) = dbg::shows(if k == "Message" { "Message" } else { "?" }, t, &msg(c.name(ci), i, *q)) {
                            violation!("connection {}: message {}: {}", ci, i, e);
                        }
                    }
                }
            }
            ensure!(got.len() == cc.msgs.len(), "connection {}: {} messages delivered, {} sent", ci, got.len(), cc.msgs.len());
        }
        let e = &ends[&ci];
        ensure!(!e.starts_with("panic"), "connection {}: event loop: {}", ci, e);
        ensure!(e != "never", "connection {}: the event loop never finished after the broker closed", ci);
    }
    obs.count("commands accepted", issued.iter().filter(|i| i.ok).count() as u64);
    obs.count("commands refused", issued.iter().filter(|i| !i.ok).count() as u64);
    obs.count("messages in", c.conns.iter().map(|x| x.msgs.len() as u64).sum());
    obs.label(match c.workers {
        0 => "current-thread executor",
        1 => "one worker",
        _ => "several workers",
    });
    if c.conns.len() > 1 {
        obs.label("several connections");
    }
    obs.nontrivial = total_threads >= 2 || c.conns.len() >= 2;
    Ok(())
}

fn conn_case(max_threads: usize, per: u16, msgs: usize) -> BoxedStrategy<ConnCase> {
    (vec(1..per, 1..=max_threads), vec(0u8..2, 0..msgs), 0u8..3, any::<bool>(), any::<bool>())
        .prop_map(|(threads, msgs, ack, slow, early)| ConnCase { threads, msgs, ack, slow, early })
        .boxed()
}

// ---------------------------------------------------------------- two sessions in one process

#[derive(Clone, Debug, Serialize, Deserialize)]
enum POp {
    On { i: u8, op: Op },
    Age(u16),
    /// one session ends. how 0: the application disconnects, 1: the broker does, 2: the broker closes
    /// the connection, 3: it resets it, 4: the application drops the event loop, 5: the broker sends
    /// nonsense. With `again` another takes its place.
    End { i: u8, how: u8, again: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PCase {
    seed: u64,
    narrow: bool,
    /// the sessions do the same things
    alike: bool,
    ops: Vec<POp>,
    /// finally the broker of this one falls silent
    silent: Option<u8>,
}

fn pcases(w: Weights) -> BoxedStrategy<PCase> {
    let op = machine::op(w);
    let pop = prop_oneof![
        30 => (0u8..2, op).prop_map(|(i, op)| POp::On { i, op }),
        2 => prop_oneof![4 => 1u16..20, 1 => 20u16..80].prop_map(POp::Age),
        1 => (0u8..2, 0u8..6, proptest::bool::weighted(0.7)).prop_map(|(i, how, again)| POp::End { i, how, again }),
    ];
    (any::<u64>(), any::<bool>(), any::<bool>(), vec(pop, 2..70), proptest::option::of(0u8..2))
        .prop_map(|(seed, narrow, alike, ops, silent)| PCase { seed, narrow, alike, ops, silent })
        .boxed()
}

async fn end_one(m: &mut M, how: u8) -> Res {
    let s = &mut m.s;
    s.drain = true;
    s.reading = true;
    match how {
        4 => s.cancel(),
        0 => {
            let mut room = 0;
            while s.clients.iter().any(|c| c.is_some()) && s.client().disconnect().is_err() {
                s.settle().await;
                room += 1;
                ensure!(room < 1000, "the command queue stays full");
            }
            s.wait_end("the session to end after disconnect()").await?;
        }
        h => {
            // (in front of what the broker could not get rid of there may be half a packet)
            match h {
                1 => {
                    s.try_send(&SPkt::Disconnect { reason: Some(0x8B), props: None }.encode());
                    s.shutdown_write();
                }
                2 => s.shutdown_write(),
                3 => s.abort(),
                _ => {
                    s.try_send(&[0xF0, 0, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]);
                    s.shutdown_write();
                }
            }
            s.wait_end("the session to end").await?;
        }
    }
    s.no_panic()
}

fn run_pair(c: &PCase, obs: &mut Obs) -> Res {
    let want = Want { order: true, ids: true, pubacks: true, notifs: true };
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let mut ms: Vec<Option<M>> = vec![];
        for i in 0..2 {
            let mut m = M::new(want, c.narrow).await?;
            if i == 1 && !c.alike {
                m.start_at(1_000_000);
            }
            m.connack().await?;
            ms.push(Some(m));
        }
        for op in &c.ops {
            match op {
                POp::On { op: Op::Advance(_) | Op::Age(_) | Op::Connack, .. } => {}
                POp::On { i, op } => {
                    if let Some(m) = ms[*i as usize].as_mut() {
                        m.op(op).await?;
                    }
                    if c.alike {
                        if let Some(m) = ms[1 - *i as usize].as_mut() {
                            m.op(op).await?;
                        }
                    }
                }
                POp::Age(secs) => {
                    let mut able = true;
                    for m in ms.iter_mut().flatten() {
                        able &= m.may_age().await?;
                    }
                    let mut left = *secs as u64 * 1000;
                    while able && left > 0 {
                        let d = left.min(800);
                        left -= d;
                        pass(d).await;
                        for m in ms.iter_mut().flatten() {
                            m.aged(d).await?;
                            ensure!(m.s.end.is_none(), "session ended in mid-history: {:?}", m.s.end);
                        }
                    }
                }
                POp::End { i, how, again } => {
                    if let Some(mut m) = ms[*i as usize].take() {
                        end_one(&mut m, *how).await?;
                        m.observe(&mut o);
                        o.label("a session ended while the other went on");
                        if *again {
                            o.label("another session took the place of the one that ended");
                            let mut n = M::new(want, c.narrow).await?;
                            if *i == 1 && !c.alike {
                                n.start_at(1_000_000);
                            }
                            n.connack().await?;
                            ms[*i as usize] = Some(n);
                        }
                    }
                }
            }
        }
        // what one session is waited for, the other may be in the middle of
        for m in ms.iter_mut().flatten() {
            m.finish().await?;
            m.observe(&mut o);
        }
        if let Some(i) = c.silent {
            let i = i as usize;
            if ms[i].is_some() {
                let mut t = 0;
                while ms[i].as_ref().unwrap().s.end.is_none() {
                    pass(800).await;
                    t += 800;
                    let (a, b) = ms.split_at_mut(1);
                    let (silent, other) = if i == 0 { (&mut a[0], &mut b[0]) } else { (&mut b[0], &mut a[0]) };
                    silent.as_mut().unwrap().s.settle().await;
                    if let Some(m) = other {
                        m.aged(800).await?;
                        ensure!(m.s.end.is_none(), "session ended with {:?} when only the other one had a silent broker", m.s.end);
                    }
                    if t > 40_000 {
                        let s = &mut silent.as_mut().unwrap().s;
                        s.wait_("the session with the silent broker to end", |s| s.end.is_some(), true).await?;
                    }
                }
                o.label("one of the brokers fell silent");
                if let Some(m) = ms[1 - i].as_mut() {
                    if m.s.clients.iter().any(|c| c.is_some()) {
                        m.s.fence_out().await?;
                    }
                    if !m.rx_dropped {
                        m.s.fence_in().await?;
                    }
                }
            }
        }
        o.nontrivial = ms.iter().flatten().all(|m| m.n_accepted >= 1 && m.inbound.len() >= 2);
        Ok(o)
    })?;
    for (k, v) in o.labels {
        obs.count(k, v);
    }
    obs.nontrivial = o.nontrivial;
    Ok(())
}

// ---------------------------------------------------------------- a broker that never stops sending

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FairCase {
    seed: u64,
    /// what the broker sends, over and over: 0, 1 messages with that QoS, 2 SUBACKs, 3 UNSUBACKs, 4 PUBACKs,
    /// 5 all of these
    what: u8,
    len: u8,
    /// 0..=2 publishes (0, 1, 1 with clones), 3 subscribe, 4 unsubscribe; how many at a time
    cmds: Vec<(u8, u8)>,
    /// at last: the application disconnects
    disconnect: bool,
}

fn run_fair(c: &FairCase, obs: &mut Obs) -> Res {
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let mut s = Sess::connected().await?;
        let pkt = |i: u64| -> Vec<u8> {
            // (an identifier not in use: the client's start at 1)
            let id = 60_000 + (i % 5000) as u16;
            match if c.what == 5 { (i % 5) as u8 } else { c.what } {
                q @ 0..=1 => SPkt::Publish { dup: false, qos: q, retain: false, topic: "m".into(), id: if q == 0 { 0 } else { id }, props: vec![], payload: vec![0; c.len as usize] },
                2 => SPkt::Suback { id, props: vec![], reason: 0 },
                3 => SPkt::Unsuback { id, props: vec![], reason: 0 },
                _ => SPkt::Puback { id, reason: None, props: None },
            }
            .encode()
        };
        let (mut n, mut rest, mut off) = (0u64, vec![], 0);
        let mut at = 0;
        let mut cmds = c.cmds.clone();
        if c.disconnect {
            cmds.push((5, 1));
        }
        // the client is kept busy from the start
        let mut started = false;
        for (k, times) in cmds {
            let mut want = 0;
            let mut polls = 0;
            loop {
                // more than it can take in one go
                loop {
                    if off == rest.len() {
                        rest.clear();
                        off = 0;
                        for _ in 0..300 {
                            rest.extend(pkt(n));
                            n += 1;
                        }
                    }
                    let w = s.try_send(&rest[off..]);
                    off += w;
                    if off < rest.len() {
                        break;
                    }
                    if n % 3000 == 0 {
                        n += 1;
                        break;
                    }
                }
                if !started {
                    for _ in 0..20 {
                        s.step().await;
                    }
                    started = true;
                    continue;
                }
                if want == 0 {
                    for i in 0..times.max(1) {
                        let t = format!("c/{}", i);
                        let h = s.client();
                        let r = match k {
                            0 | 1 => h.publish(PublishBuilder::from_str(&t, "x").qos(qos(k))),
                            2 => h.clone().publish(PublishBuilder::from_bytes(&t, b"x").qos(qos(1))),
                            3 => h.subscribe(&t, qos(1)),
                            4 => h.unsubscribe(&t),
                            _ => h.disconnect(),
                        };
                        ensure!(r.is_ok(), "refused with {} commands waiting", i);
                        want += 1;
                    }
                }
                s.step().await;
                polls += 1;
                while at < s.pkts.len() {
                    match &s.pkts[at].1 {
                        CPkt::Publish { .. } | CPkt::Subscribe { .. } | CPkt::Unsubscribe { .. } => want -= 1,
                        CPkt::Disconnect { .. } => want -= 1,
                        _ => {}
                    }
                    at += 1;
                }
                s.notifs.clear();
                s.pkts.clear();
                s.forget_raw();
                at = 0;
                if want <= 0 {
                    break;
                }
                if let (Some(e), true) = (&s.end, k < 5) {
                    violation!("session ended: {:?}", e);
                }
                ensure!(
                    polls < 100,
                    "{} of {} accepted commands (kind {}) are not sent while the broker keeps sending, in {} turns of the event loop",
                    want,
                    times.max(1),
                    k,
                    polls
                );
            }
        }
        o.count("packets from the broker meanwhile", n);
        o.nontrivial = n >= 300;
        s.no_panic()?;
        Ok(o)
    })?;
    for (k, v) in o.labels {
        obs.count(k, v);
    }
    obs.nontrivial = o.nontrivial;
    Ok(())
}

// ---------------------------------------------------------------- C03

pub fn c03(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    let want = Want { order: true, ..Want::default() };
    let w = Weights {
        cmd: 12,
        burst: 2,
        qos2: false,
        handles: 3,
        input: 2,
        ack: 4,
        ack_many: 1,
        sched: 8,
        advance: 1,
        late_connack: true,
        len: 60,
        ..Weights::default()
    };
    phase(
        env,
        rep,
        "history",
        "histories of commands and bursts (up to 300, the queue holds 100) through cloned and dropped handles, before and after CONNACK, at any scheduling of the event loop, with inbound messages and acknowledgements; most commands have a topic of their own, others differ in nothing or only in the payload; non-trivial: at least 2 accepted commands or 3 inbound packets",
        env.n(60_000, 800_000),
        move || machine::cases(w),
        move |c, o| machine::run_case(c, want, o),
    );
    let wb = Weights { drain: 3, many_input: 2, len: 40, ..w };
    phase(
        env,
        rep,
        "busy",
        "as history, with a consumer that pauses and bursts of inbound messages, so that the event loop is often busy elsewhere",
        env.n(12_000, 180_000),
        move || machine::cases(wb),
        move |c, o| machine::run_case(c, want, o),
    );
    let wc = Weights { clog: 6, drain: 1, many_input: 1, len: 40, ..w };
    phase(
        env,
        rep,
        "clogged",
        "as busy, with a broker that stops reading now and then, buffers of a few kilobytes and publishes of up to 10 KB, so that writes are cut anywhere and wait; non-trivial: at least 2 accepted commands or 3 inbound packets",
        env.n(30_000, 400_000),
        move || machine::cases(wc),
        move |c, o| machine::run_case(c, want, o),
    );
    let wp = Weights { pump: 6, cmd: 4, ack_many: 2, len: 12, ..w };
    phase(
        env,
        rep,
        "outstanding",
        "as history, with up to 60000 requests unacknowledged; non-trivial: at least 2 accepted commands or 3 inbound packets",
        env.n(800, 10_000),
        move || machine::cases(wp),
        move |c, o| machine::run_case(c, want, o),
    );
    phase(
        env,
        rep,
        "threads",
        "1-5 threads issue 1-120 commands each through their own clones while the event loop runs on a real executor; per-thread order, real-time order across threads, exactly once; non-trivial: at least 2 threads",
        env.n(600, 6000),
        || {
            (0u8..3, conn_case(5, 120, 40), any::<bool>())
                .prop_map(|(workers, c, noise)| ThreadCase { workers, conns: vec![c], noise, alike: false })
                .boxed()
        },
        |c, o| run_threads(c, What { order: true, ids: false, inbound: false }, o),
    );
    super::marathon::marathon(env, rep, super::marathon::Judge::Order);
    notes(&["thread interleavings are those the operating system happens to produce; single-threaded schedules are generated"])
}

// ---------------------------------------------------------------- C19

pub fn c19(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    let want = Want { order: true, ids: true, pubacks: true, notifs: true };
    let w = Weights {
        cmd: 10,
        burst: 1,
        handles: 2,
        input: 8,
        many_input: 1,
        ack: 6,
        ack_many: 1,
        sched: 14,
        drain: 2,
        clog: 1,
        advance: 1,
        late_connack: true,
        len: 70,
        ..Weights::default()
    };
    phase(
        env,
        rep,
        "schedules",
        "traffic in both directions under generated polling schedules: rare polls, polls nobody asked for, a new waker with every poll; all consequences checked; non-trivial: at least 2 accepted commands or 3 inbound packets",
        env.n(24_000, 400_000),
        move || machine::cases(w),
        move |c, o| machine::run_case(c, want, o),
    );
    let wp = Weights { late_connack: false, advance: 0, sched: 8, ..w };
    phase(
        env,
        rep,
        "pairs",
        "two sessions of one process under one clock, their operations interleaved (or doing the same), either ending in mid-history (6 ways) and giving way to another, at last one of the brokers falls silent; all consequences checked for each, and the end of one must not show in the other; non-trivial: both with at least 1 accepted command and 2 inbound packets at the end",
        env.n(16_000, 250_000),
        move || pcases(wp),
        run_pair,
    );
    phase(
        env,
        rep,
        "threads-conns",
        "1-3 connections in one process on a current-thread or multi-threaded executor, 1-4 threads each, up to 300 inbound messages each, acknowledgement order varied; all consequences checked per connection; non-trivial: at least 2 threads or connections",
        env.n(600, 6000),
        || {
            (0u8..4, vec(conn_case(4, 80, 300), 1..4), any::<bool>(), any::<bool>())
                .prop_map(|(workers, conns, noise, alike)| ThreadCase { workers, conns, noise, alike })
                .boxed()
        },
        |c, o| run_threads(c, What { order: true, ids: true, inbound: true }, o),
    );
    super::ids::successors_phase(env, rep);
    phase(
        env,
        rep,
        "fairness",
        "a broker that sends messages or acknowledgements without a break, so that there is always something to read: accepted commands go out all the same; non-trivial: at least 300 packets from the broker",
        env.n(300, 4000),
        || {
            (any::<u64>(), 0u8..6, any::<u8>(), vec((0u8..5, prop_oneof![2 => Just(1u8), 1 => 1u8..60]), 1..12), any::<bool>())
                .prop_map(|(seed, what, len, cmds, disconnect)| FairCase { seed, what, len, cmds, disconnect })
                .boxed()
        },
        run_fair,
    );
    notes(&["thread interleavings are those the operating system happens to produce; single-threaded schedules are generated"])
}
