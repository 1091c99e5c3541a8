//! C18: QoS 2 in both directions.
use proptest::collection::vec;
use proptest::prelude::*;
use ruq::PublishBuilder;
use serde::{Deserialize, Serialize};

use super::notes;
use crate::engine::{phase, Env, Obs, Report};
use crate::gen::*;
use crate::machine::{self, Want, Weights};
use crate::sim::*;
use crate::wire::*;
use crate::{ensure, violation};

/// Listed in KNOWN_FINDINGS.txt.
const OUT: &str = "PUBREC answering a QoS 2 publish ends the session with an error";
const IN: &str = "a received QoS 2 message ends the session with an error";

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Q {
    /// publish with this QoS
    Pub(u8),
    Sub,
    In(u8),
    Step(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Deal {
    /// the broker goes through the handshake for outstanding publishes, in this order
    Out { pick: Vec<u8>, form: u8 },
    /// the broker sends QoS 2 messages; each may be repeated before its PUBREL
    In { msgs: Vec<(InMsg, u8)> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct QCase {
    seed: u64,
    ops: Vec<Q>,
    deal: Deal,
}

fn ack(ptype: u8, id: u16, form: u8) -> Vec<u8> {
    let first = ptype << 4 | if ptype == 6 { 2 } else { 0 };
    let mut b = id.to_be_bytes().to_vec();
    if form > 0 {
        b.push(0);
    }
    if form > 1 {
        b.push(0);
    }
    frame(first, &b)
}

fn run_q(c: &QCase, obs: &mut Obs) -> Res {
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let mut s = Sess::connected().await?;
        let mut want = vec![];
        let mut inbound = vec![];
        let mut due = vec![];
        for (i, op) in c.ops.iter().enumerate() {
            let t = format!("c/{}", i);
            match op {
                Q::Pub(q) => {
                    s.command_patiently("a publish", |k| k.publish(PublishBuilder::from_bytes(&t, b"x").qos(qos(*q)))).await?;
                    want.push((t, *q));
                }
                Q::Sub => {
                    s.command_patiently("a subscribe", |k| k.subscribe(&t, qos(2))).await?;
                    want.push((t, 9));
                }
                Q::In(q) => {
                    let id = if *q > 0 { i as u16 + 1 } else { 0 };
                    let p = SPkt::Publish { dup: false, qos: *q, retain: false, topic: "m".into(), id, props: vec![], payload: vec![] };
                    s.send(&p.encode()).await?;
                    if *q == 1 {
                        due.push(id);
                    }
                    inbound.push(p);
                }
                Q::Step(n) => {
                    for _ in 0..*n {
                        s.step().await;
                    }
                }
            }
        }
        s.fence_out().await?;
        s.fence_in().await?;
        let n = due.len();
        let acks = |s: &Sess, t: u8| -> Vec<u16> {
            s.pkts.iter().filter_map(|(_, p)| if let CPkt::Ack { ptype, id, .. } = p { if *ptype == t { Some(*id) } else { None } } else { None }).collect()
        };
        s.wait("PUBACKs", move |s| acks(s, 4).len() >= n).await?;
        // each request once, QoS 2 publishes among them, all with identifiers of their own
        let mut ids: Vec<u16> = vec![];
        let mut q2 = vec![];
        let mut got = vec![];
        for p in s.app_pkts() {
            match p {
                CPkt::Publish { topic, qos, id, dup, .. } => {
                    got.push((topic.clone(), *qos));
                    ensure!(!dup, "DUP set on the first transmission of {}", topic);
                    if *qos > 0 {
                        ids.push(*id);
                    }
                    if *qos == 2 {
                        q2.push(*id);
                    }
                }
                CPkt::Subscribe { filters, id, .. } => {
                    got.push((filters[0].0.clone(), 9));
                    ids.push(*id);
                }
                _ => {}
            }
        }
        ensure!(got == want, "requests sent are {:?}, accepted were {:?}", got, want);
        let mut sorted = ids.clone();
        sorted.sort_unstable();
        sorted.dedup();
        ensure!(sorted.len() == ids.len() && !sorted.contains(&0), "identifiers of unacknowledged requests: {:?}", ids);
        o.count("QoS 2 publishes", q2.len() as u64);

        let mut known = None;
        match &c.deal {
            Deal::Out { pick, form } => {
                for k in pick {
                    if q2.is_empty() {
                        break;
                    }
                    let id = q2.remove(*k as usize % q2.len());
                    s.send(&ack(5, id, *form)).await?;
                    s.wait_("PUBREL, or the end of the session", |s| acks(s, 6).contains(&id) || s.end.is_some(), true).await?;
                    match &s.end {
                        Some(End::Err(_)) => {
                            known = Some(OUT);
                            break;
                        }
                        Some(e) => violation!("PUBREC ended the session with {:?}", e),
                        None => {}
                    }
                    s.send(&ack(7, id, *form)).await?;
                    s.fence_in().await?;
                    o.label("handshake completed (out)");
                }
            }
            Deal::In { msgs } => {
                let mut used = vec![];
                for (m, repeats) in msgs {
                    let mut p = m.pkt();
                    let id = match &mut p {
                        SPkt::Publish { qos, id, dup, topic, .. } => {
                            *qos = 2;
                            *dup = false;
                            *id = m.id;
                            *topic = format!("q2/{}/{}", used.len(), topic);
                            *id
                        }
                        _ => unreachable!(),
                    };
                    if used.contains(&id) {
                        continue;
                    }
                    used.push(id);
                    let mark = format!("q2/{}/", used.len() - 1);
                    s.send(&p.encode()).await?;
                    for _ in 0..*repeats {
                        let mut d = p.clone();
                        if let SPkt::Publish { dup, .. } = &mut d {
                            *dup = true;
                        }
                        s.send(&d.encode()).await?;
                    }
                    let n = *repeats as usize + 1;
                    s.wait_(
                        "PUBREC, or the end of the session",
                        |s| acks(s, 5).iter().filter(|i| **i == id).count() >= n || s.end.is_some() || acks(s, 4).len() > due.len(),
                        true,
                    )
                    .await?;
                    s.settle().await;
                    ensure!(acks(&s, 4) == due, "PUBACKs {:?}, expected {:?}: a QoS 2 message was acknowledged with PUBACK", acks(&s, 4), due);
                    let delivered = |s: &Sess| s.notifs.iter().filter(|n| n.text.contains(&mark)).count();
                    ensure!(delivered(&s) <= 1, "QoS 2 message {} delivered {} times", id, delivered(&s));
                    match &s.end {
                        Some(End::Err(_)) => {
                            known = Some(IN);
                            break;
                        }
                        Some(e) => violation!("a QoS 2 message ended the session with {:?}", e),
                        None => {}
                    }
                    s.send(&ack(6, id, 0)).await?;
                    s.wait("PUBCOMP", |s| acks(s, 7).contains(&id)).await?;
                    s.fence_in().await?;
                    ensure!(delivered(&s) == 1, "QoS 2 message {} delivered {} times", id, delivered(&s));
                    o.label("handshake completed (in)");
                }
            }
        }
        s.no_panic()?;
        ensure!(acks(&s, 4) == due, "PUBACKs {:?}, expected {:?}", acks(&s, 4), due);
        let all: Vec<(String, u8)> = s
            .app_pkts()
            .iter()
            .filter_map(|p| if let CPkt::Publish { topic, qos: 2, .. } = p { Some((topic.clone(), 2)) } else { None })
            .collect();
        ensure!(all.len() == want.iter().filter(|w| w.1 == 2).count(), "QoS 2 publishes were sent again: {:?}", all);
        match known {
            Some(k) => {
                o.known(k);
                o.label(if k == OUT { "ended by PUBREC (known finding)" } else { "ended by a QoS 2 message (known finding)" });
            }
            None => {
                ensure!(s.end.is_none(), "session ended: {:?}", s.end);
                s.fence_out().await?;
                o.label("session goes on");
            }
        }
        o.nontrivial = true;
        Ok(o)
    })?;
    for (k, v) in o.labels {
        obs.count(k, v);
    }
    obs.nontrivial = o.nontrivial;
    obs.known.extend(o.known);
    Ok(())
}

pub fn c18(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    let want = Want { order: true, ids: true, pubacks: true, notifs: true };
    let w = Weights {
        cmd: 12,
        burst: 1,
        qos2: true,
        handles: 2,
        input: 4,
        ack: 5,
        ack_many: 1,
        bogus: 2,
        sched: 6,
        drain: 1,
        advance: 1,
        late_connack: true,
        len: 40,
        ..Weights::default()
    };
    phase(
        env,
        rep,
        "history",
        "histories in which publishes of all three QoS, subscribes and unsubscribes are mixed and the QoS 2 publishes stay unanswered: each is sent exactly once, in order, with an identifier no other unacknowledged request uses; non-trivial: at least 2 accepted commands or 3 inbound packets",
        env.n(60_000, 1_000_000),
        move || machine::cases(w),
        move |c, o| machine::run_case(c, want, o),
    );
    phase(
        env,
        rep,
        "handshake",
        "0-8 requests and messages, then the broker answers QoS 2 publishes with PUBREC (and PUBREL with PUBCOMP), or sends 1-3 QoS 2 messages, each up to 3 times before its PUBREL; no PUBACK for them, none delivered twice, no publish sent twice; a session that ends with an error at PUBREC or at a QoS 2 message is a known finding; non-trivial: all",
        env.n(100_000, 1_500_000),
        || {
            let op = prop_oneof![
                4 => (0u8..3).prop_map(Q::Pub),
                2 => Just(Q::Pub(2)),
                1 => Just(Q::Sub),
                2 => (0u8..2).prop_map(Q::In),
                1 => (1u8..4).prop_map(Q::Step),
            ];
            let deal = prop_oneof![
                (vec(any::<u8>(), 1..4), 0u8..3).prop_map(|(pick, form)| Deal::Out { pick, form }),
                vec((prop_oneof![3 => small_in_msg(1), 1 => in_msg(300, 1)], 0u8..3), 1..4).prop_map(|msgs| Deal::In { msgs }),
            ];
            (any::<u64>(), vec(op, 0..9), deal).prop_map(|(seed, ops, deal)| QCase { seed, ops, deal }).boxed()
        },
        run_q,
    );
    notes(&["the handshake itself is not implemented in the library (see KNOWN_FINDINGS.txt): what follows PUBREC or a QoS 2 message can only be checked once it is"])
}
