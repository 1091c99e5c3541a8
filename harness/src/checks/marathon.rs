//! Sessions so long that counters of 16 bits and tables of fixed size run over, used by several checks.
use std::collections::VecDeque;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{phase, Env, Obs, Report};
use crate::gen::*;
use crate::sim::*;
use crate::wire::*;
use crate::{ensure, violation};

/// What is counted and judged.
#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    /// publishes, their contents (C01)
    Publishes,
    /// subscribes and unsubscribes, their contents (C02)
    Requests,
    /// that commands arrive once each in order (C03)
    Order,
    /// messages and their notifications (C06)
    Messages,
    /// acknowledgements and their notifications (C07)
    Acks,
    /// PUBACKs (C09)
    Pubacks,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mara {
    seed: u64,
    total: u32,
    /// packets of the judged kind at a time
    batch: u8,
    /// 0: requests are acknowledged at once, otherwise this many stay unacknowledged
    window: u16,
    newest_first: bool,
    /// contents repeat after this many
    period: u32,
    /// kinds of contents
    shape: u8,
    /// how much else happens
    side: u8,
    clones: bool,
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 >> 33
    }
}

enum Asked {
    Pub(Pub),
    Sub(String, u8),
    Unsub(String),
}

fn props(j: u64, shape: u8) -> Vec<PProp> {
    let mut v = vec![];
    if shape & 1 != 0 {
        v.push(PProp::User(Txt::S(format!("k{}", j % 5)), Txt::S(format!("v{}", j))));
    }
    if shape & 2 != 0 {
        v.push(PProp::Response(Txt::S(format!("r/{}", j))));
    }
    if shape & 4 != 0 {
        v.push(PProp::Corr(Blob::B(j.to_be_bytes()[4..].to_vec())));
    }
    if shape & 8 != 0 && j % 3 == 0 {
        v.push(PProp::Expiry(j as u32));
    }
    v
}

fn run_mara(c: &Mara, judge: Judge, obs: &mut Obs) -> Res {
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let mut s = Sess::connected().await?;
        let mut r = Rng(c.seed | 1);
        let outbound = matches!(judge, Judge::Publishes | Judge::Requests | Judge::Order);
        let mut n = 0u64; // commands
        let mut m = 0u64; // messages
        let mut acks = 0u64;
        let mut done = 0u64;
        let mut asked: VecDeque<Asked> = VecDeque::new();
        // identifier and kind of what is to be acknowledged
        let mut open: VecDeque<(u16, u8)> = VecDeque::new();
        let (mut pubacks, mut due): (VecDeque<u16>, VecDeque<u16>) = Default::default();
        let period = c.period.max(1) as u64;
        while done < c.total as u64 {
            let b = c.batch.clamp(1, 80) as u64;
            let (cmds, msgs) = match judge {
                Judge::Publishes | Judge::Requests | Judge::Order => (b, if c.side > 0 { r.next() % (c.side as u64 + 1) } else { 0 }),
                Judge::Acks => (b, if c.side > 0 { r.next() % (c.side as u64 + 1) } else { 0 }),
                Judge::Messages | Judge::Pubacks => (if c.side > 0 { r.next() % (c.side as u64 + 1) } else { 0 }, b),
            };
            for _ in 0..cmds {
                let j = n % period;
                n += 1;
                let kind = match judge {
                    Judge::Publishes | Judge::Messages | Judge::Pubacks => r.next() % 2,
                    Judge::Requests => 2 + r.next() % 2,
                    Judge::Acks => 1 + r.next() % 3,
                    Judge::Order => r.next() % 4,
                };
                let a = match kind {
                    2 => Asked::Sub(format!("f/{}", j), (n % 3) as u8),
                    3 => Asked::Unsub(format!("f/{}", j)),
                    q => Asked::Pub(Pub {
                        topic: Txt::S(format!("t/{}", j)),
                        text: j % 2 == 0,
                        payload: Blob::T(Txt::S(format!("{}", j))),
                        qos: Some(q as u8),
                        props: props(j, if judge == Judge::Publishes { c.shape } else { 0 }),
                    }),
                };
                if c.clones {
                    let x = s.client().clone();
                    s.clients.push(Some(x));
                    let i = s.clients.iter().position(|c| c.is_some()).unwrap();
                    s.clients.remove(i);
                }
                s.command_patiently("a command", |c| match &a {
                    Asked::Pub(p) => c.publish(p.builder()),
                    Asked::Sub(f, q) => c.subscribe(f, qos(*q)),
                    Asked::Unsub(f) => c.unsubscribe(f),
                })
                .await?;
                asked.push_back(a);
            }
            let mut bytes = vec![];
            let mut inbound: Vec<SPkt> = vec![];
            for _ in 0..msgs {
                let j = m % period;
                m += 1;
                let q = if judge == Judge::Pubacks { (r.next() % 4 != 0) as u8 } else { (r.next() % 2) as u8 };
                let id = if q > 0 { (j % 65535) as u16 + 1 } else { 0 };
                let p = InMsg {
                    topic: Txt::S(format!("m/{}", j)),
                    payload: Blob::B(j.to_be_bytes().to_vec()),
                    qos: q,
                    dup: m % 7 == 0,
                    retain: m % 5 == 0,
                    id,
                    props: props(j, if judge == Judge::Messages { c.shape } else { 0 }),
                }
                .pkt();
                if q > 0 {
                    due.push_back(id);
                }
                bytes.extend(p.encode());
                inbound.push(p);
            }
            // commands go out and are looked at
            if outbound {
                let mut at = 0;
                while !asked.is_empty() {
                    let want = format!("accepted commands to be sent ({} of {} so far)", n - asked.len() as u64, n);
                    if at >= s.pkts.len() {
                        s.wait(&want, move |s| s.pkts.len() > at).await?;
                    }
                    while at < s.pkts.len() {
                        let p = s.pkts[at].1.clone();
                        at += 1;
                        if !matches!(p, CPkt::Publish { .. } | CPkt::Subscribe { .. } | CPkt::Unsubscribe { .. }) {
                            continue;
                        }
                        let ok = match (asked.pop_front(), &p) {
                            (Some(Asked::Pub(a)), CPkt::Publish { .. }) => {
                                if let Err(e) = a.matches(&p) {
                                    violation!("command {} of the session: {}", n - asked.len() as u64, e);
                                }
                                true
                            }
                            (Some(Asked::Sub(f, q)), CPkt::Subscribe { filters, props, .. }) => filters == &[(f, q)] && props.is_empty(),
                            (Some(Asked::Unsub(f)), CPkt::Unsubscribe { filters, .. }) => filters == &[f],
                            _ => false,
                        };
                        ensure!(ok, "command {} of the session arrived as {}", n - asked.len() as u64, clip(&format!("{:?}", p)));
                    }
                }
            } else {
                s.fence_out().await?;
                asked.clear();
            }
            for (_, p) in &s.pkts {
                match p {
                    CPkt::Publish { qos: 1, id, .. } => open.push_back((*id, 0)),
                    CPkt::Subscribe { id, .. } => open.push_back((*id, 1)),
                    CPkt::Unsubscribe { id, .. } => open.push_back((*id, 2)),
                    CPkt::Ack { ptype: 4, id, .. } => pubacks.push_back(*id),
                    _ => {}
                }
            }
            s.pkts.clear();
            // acknowledgements
            while open.len() > c.window as usize {
                let (id, k) = if c.newest_first { open.pop_back() } else { open.pop_front() }.unwrap();
                let j = acks % period;
                acks += 1;
                let ps = AProps {
                    users: if c.shape & 1 != 0 { vec![(Txt::S(format!("k{}", j % 5)), Txt::S(format!("v{}", j)))] } else { vec![] },
                    reason: if c.shape & 2 != 0 { Some((c.shape, Txt::S(format!("why {}", j)))) } else { None },
                    fit: None,
                    crowd: 0,
                }
                .get();
                let code = |t: &[(u8, &'static str)]| if c.shape & 4 != 0 { t[j as usize % t.len()].0 } else { t[0].0 };
                let p = match k {
                    0 if c.shape == 0 => SPkt::Puback { id, reason: None, props: None },
                    0 => SPkt::Puback { id, reason: Some(code(PUBACK_REASONS)), props: Some(ps) },
                    1 => SPkt::Suback { id, props: ps, reason: code(SUBACK_REASONS) },
                    _ => SPkt::Unsuback { id, props: ps, reason: code(UNSUBACK_REASONS) },
                };
                bytes.extend(p.encode());
                inbound.push(p);
            }
            let n_acks = inbound.iter().filter(|p| !matches!(p, SPkt::Publish { .. })).count() as u64;
            s.send(&bytes).await?;
            s.fence_in().await?;
            {
                // of the judged kind, the others are other checks' business
                let mine = |p: &SPkt| matches!(p, SPkt::Publish { .. }) == (judge == Judge::Messages);
                let got: Vec<&Notif> = s.app_notifs().into_iter().filter(|n| (n.kind == "Message") == (judge == Judge::Messages)).collect();
                if matches!(judge, Judge::Messages | Judge::Acks) {
                    let want: Vec<&SPkt> = inbound.iter().filter(|p| mine(p)).collect();
                    if let Err(Fail::Violation(e)) = check_notifs(&got, &want) {
                        violation!("after {} packets: {}", done, e);
                    }
                }
            }
            s.notifs.clear();
            if judge == Judge::Pubacks {
                for (_, p) in &s.pkts {
                    if let CPkt::Ack { ptype: 4, id, .. } = p {
                        pubacks.push_back(*id)
                    }
                }
                s.pkts.clear();
                while pubacks.len() < due.len() {
                    s.wait(&format!("PUBACKs, {} messages into the session", m), |s| !s.pkts.is_empty()).await?;
                    for (_, p) in s.pkts.drain(..) {
                        if let CPkt::Ack { ptype: 4, id, .. } = p {
                            pubacks.push_back(id)
                        }
                    }
                }
                ensure!(pubacks == due, "after {} messages, PUBACKs {}, expected {}", m, clip(&format!("{:?}", pubacks)), clip(&format!("{:?}", due)));
                pubacks.clear();
                due.clear();
            }
            if let Some(e) = &s.end {
                violation!("session ended after {} packets: {:?}", done, e);
            }
            done += match judge {
                Judge::Messages | Judge::Pubacks => msgs,
                Judge::Acks => n_acks,
                _ => cmds,
            };
        }
        o.count("packets in long sessions", done);
        o.nontrivial = done > 1000;
        Ok(o)
    })?;
    for (k, v) in o.labels {
        obs.count(k, v);
    }
    obs.nontrivial = o.nontrivial;
    Ok(())
}

fn mara() -> BoxedStrategy<Mara> {
    (
        any::<u64>(),
        prop_oneof![2 => 66_000u32..70_000, 1 => 70_000u32..140_000],
        40u8..=80,
        prop_oneof![2 => Just(0u16), 1 => 1u16..600],
        any::<bool>(),
        prop_oneof![1 => 1u32..5, 1 => 200u32..3000, 2 => 3000u32..100_000],
        any::<u8>(),
        0u8..20,
        any::<bool>(),
    )
        .prop_map(|(seed, total, batch, window, newest_first, period, shape, side, clones)| Mara { seed, total, batch, window, newest_first, period, shape: shape % 16, side, clones })
        .boxed()
}

pub fn marathon(env: &Env, rep: &mut Report, judge: Judge) {
    phase(
        env,
        rep,
        "marathon",
        "sessions of 66000-140000 packets of the kind in question, their contents from few to as many different ones, among other traffic; all of them compared; non-trivial: more than 1000 packets",
        env.n(16, 160),
        mara,
        move |c, o| run_mara(c, judge, o),
    );
}
