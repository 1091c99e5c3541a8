//! C12: keep-alive under a virtual clock.
use proptest::collection::vec;
use proptest::prelude::*;
use ruq::PublishBuilder;
use serde::{Deserialize, Serialize};

use super::notes;
use crate::engine::{phase, Env, Obs, Report};
use crate::sim::*;
use crate::wire::*;
use crate::{ensure, violation};

/// Leeway for timer granularity.
const SLACK: u64 = 100;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum KOp {
    /// time passes, the event loop runs
    Run { ms: u16, step: u16 },
    /// time passes, the event loop is not run meanwhile; `with` bytes arrive in the mean time
    Stall { ms: u32, input: bool, unread: bool },
    Cmd { kind: u8, n: u8 },
    In { qos: u8, n: u8 },
    Ack(u8),
    /// many intervals go by
    Cruise { n: u32, busy: bool },
    /// how long the broker takes to answer from now on
    Delay(u16),
    /// an answer nobody asked for
    Unasked,
    /// someone sets the time of day
    Clock { by: i64 },
    /// the application takes no notifications for this long (fewer arrive than are buffered)
    Pause { ms: u16, n: u8 },
    /// the broker keeps the client busy reading for this long
    Flood { ms: u16 },
    /// the application keeps the command queue full for this long
    Commands { ms: u16 },
    /// the broker reads nothing for this long, while the client has `n` large publishes to send
    /// (in narrow sessions). It has answered a ping right before.
    Clog { ms: u32, n: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Finale {
    Alive,
    /// the broker answers no more pings, but may do other things
    Silent {
        step: u16,
        traffic: u8,
        unasked: bool,
        /// the time of day is set by so many seconds while it waits
        #[serde(default)]
        clock: i64,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KCase {
    seed: u64,
    #[serde(default)]
    narrow: bool,
    connack_after: u32,
    delay: u16,
    ops: Vec<KOp>,
    finale: Finale,
}

struct K {
    s: Sess,
    /// declared, in ms
    k: u64,
    /// when the last packet from the client was seen
    last: u64,
    scanned: usize,
    /// unanswered pings, when they were seen
    pings: Vec<u64>,
    answers: u64,
    delay: u64,
    answering: bool,
    outstanding: Vec<u16>,
    n: u64,
    n_pings: u64,
    narrow: bool,
    first_unanswered: u64,
}

impl K {
    async fn scan(&mut self) -> Res {
        while self.scanned < self.s.pkts.len() {
            let (t, p) = self.s.pkts[self.scanned].clone();
            self.scanned += 1;
            self.last = t;
            match p {
                CPkt::Pingreq => {
                    self.n_pings += 1;
                    self.pings.push(t);
                }
                CPkt::Publish { qos: 1, id, .. } => self.outstanding.push(id),
                CPkt::Disconnect { .. } => violation!("client disconnected on its own"),
                _ => {}
            }
        }
        self.s.no_panic()
    }

    /// Looks at what happened at this instant, and answers.
    async fn turn(&mut self) -> Res {
        self.s.settle().await;
        self.scan().await?;
        let now = self.s.now_ms();
        if self.answering {
            if now >= self.last + self.k + SLACK {
                let have = self.s.pkts.len();
                self.s
                    .wait(
                        &format!("a packet: the last was sent at {} ms, the keep-alive is {} ms, it is {} ms", self.last, self.k, now),
                        move |s| s.pkts.len() > have,
                    )
                    .await?;
                self.scan().await?;
            }
            self.answer(false).await?;
            if let Some(e) = &self.s.end {
                violation!(
                    "session ended with {:?} at {} ms although the broker answered all {} pings within {} ms (keep-alive {} ms)",
                    e,
                    now,
                    self.n_pings,
                    self.delay,
                    self.k
                );
            }
        }
        Ok(())
    }

    async fn answer(&mut self, all: bool) -> Res {
        let now = self.s.now_ms();
        let mut any = false;
        while !self.pings.is_empty() && (all || now >= self.pings[0] + self.delay) {
            self.pings.remove(0);
            self.answers += 1;
            self.s.send(&SPkt::Pingresp.encode()).await?;
            any = true;
        }
        if any && self.s.drain {
            self.s.fence_in().await?;
        } else if any {
            self.s.settle().await;
        }
        self.scan().await
    }

    async fn run(&mut self, ms: u64, step: u64) -> Res {
        let end = self.s.now_ms() + ms;
        loop {
            let now = self.s.now_ms();
            if now >= end || (!self.answering && self.s.end.is_some()) {
                return Ok(());
            }
            let mut d = step.clamp(1, 500).min(end - now);
            if let (true, Some(p)) = (self.answering, self.pings.first()) {
                d = d.min((p + self.delay).saturating_sub(now).max(1));
            }
            self.s.advance(d).await;
            self.turn().await?;
        }
    }

    fn msg(&mut self, qos: u8) -> Vec<u8> {
        self.n += 1;
        SPkt::Publish {
            dup: false,
            qos,
            retain: false,
            topic: "m".into(),
            id: if qos > 0 { (self.n % 65535 + 1) as u16 } else { 0 },
            props: vec![],
            payload: vec![0; 10],
        }
        .encode()
    }

    fn cmd(&mut self, kind: u8) {
        let c = self.s.client();
        let _ = match kind % 4 {
            0 => c.publish(PublishBuilder::from_bytes("c", b"x")),
            1 => c.publish(PublishBuilder::from_bytes("c", b"x").qos(qos(1))),
            2 => c.subscribe("c", qos(0)),
            _ => c.unsubscribe("c"),
        };
    }

    fn ack(&mut self, n: usize) -> Vec<u8> {
        let n = n.min(self.outstanding.len());
        let v: Vec<u16> = self.outstanding.drain(..n).collect();
        v.into_iter().flat_map(|id| SPkt::Puback { id, reason: None, props: None }.encode()).collect()
    }

    async fn op(&mut self, op: &KOp, obs: &mut Obs) -> Res {
        match op {
            KOp::Run { ms, step } => self.run(*ms as u64, *step as u64).await?,
            KOp::Stall { ms, input, unread } => {
                // no ping goes unanswered meanwhile, though the answer may not be read before
                if *unread && !self.pings.is_empty() {
                    self.answers += self.pings.len() as u64;
                    let b = SPkt::Pingresp.encode().repeat(self.pings.len());
                    self.pings.clear();
                    self.s.send(&b).await?;
                    obs.label("an answered ping is yet to be read when the event loop stops being run");
                } else {
                    self.answer(true).await?;
                }
                if *input {
                    let mut b = self.msg(0);
                    b.extend(self.msg(1));
                    self.s.send(&b).await?;
                }
                self.s.advance(*ms as u64).await;
                self.turn().await?;
                if *ms as u64 > self.k {
                    obs.label("the event loop was not run for longer than the keep-alive");
                }
            }
            KOp::Cmd { kind, n } => {
                for _ in 0..*n {
                    self.cmd(*kind)
                }
                self.turn().await?;
            }
            KOp::In { qos, n } => {
                let mut b = vec![];
                for _ in 0..*n {
                    b.extend(self.msg(*qos));
                }
                self.s.send(&b).await?;
                self.turn().await?;
            }
            KOp::Ack(n) => {
                let b = self.ack(*n as usize);
                self.s.send(&b).await?;
                self.turn().await?;
            }
            KOp::Cruise { n, busy } => {
                let p = self.n_pings;
                let mut i = 0u64;
                while self.n_pings < p + *n as u64 {
                    let now = self.s.now_ms();
                    let mut to = if now < self.last + self.k { self.last + self.k } else { now + 50 };
                    if let Some(p) = self.pings.first() {
                        to = to.min(p + self.delay);
                    }
                    self.s.advance(to.saturating_sub(now).max(1)).await;
                    self.turn().await?;
                    i += 1;
                    if *busy && i % 13 == 0 {
                        let now = self.s.now_ms();
                        self.s.advance(1500.min((self.last + self.k).saturating_sub(now))).await;
                        self.cmd((i % 4) as u8);
                        let m = self.msg((i % 2) as u8);
                        self.s.send(&m).await?;
                        self.turn().await?;
                        let b = self.ack(3);
                        self.s.send(&b).await?;
                    }
                    self.s.notifs.clear();
                    if self.s.pkts.len() > 5000 {
                        self.s.pkts.clear();
                        self.scanned = 0;
                    }
                }
                obs.count("intervals in long runs", *n as u64);
            }
            KOp::Clock { by } => set_clock(*by),
            KOp::Delay(d) => self.delay = (*d as u64).min(self.k - SLACK),
            KOp::Unasked => {
                self.s.send(&SPkt::Pingresp.encode()).await?;
                self.s.fence_in().await?;
                self.turn().await?;
            }
            KOp::Pause { ms, n } => {
                self.s.drain = false;
                let mut b = vec![];
                for _ in 0..*n {
                    b.extend(self.msg(0));
                }
                self.s.send(&b).await?;
                self.run(*ms as u64, 250).await?;
                self.s.drain = true;
                self.s.fence_in().await?;
                self.turn().await?;
            }
            KOp::Flood { ms } => {
                // enough for the client never to run out of input, no more
                const CHUNK: usize = 150;
                let chunk: Vec<u8> = (0..CHUNK).flat_map(|_| self.msg(0)).collect();
                let mut rest: Vec<u8> = vec![];
                let end = self.s.now_ms() + *ms as u64;
                let (mut turns, mut late) = (0u64, 0u64);
                let mut sent = self.s.notifs.len();
                loop {
                    if rest.is_empty() && sent < self.s.notifs.len() + 2 * CHUNK {
                        // the answers due go in between the messages
                        let now = self.s.now_ms();
                        while !self.pings.is_empty() && now >= self.pings[0] + self.delay.min(self.k / 2) {
                            self.pings.remove(0);
                            self.answers += 1;
                            rest.extend(SPkt::Pingresp.encode());
                        }
                        rest.extend_from_slice(&chunk);
                        sent += CHUNK;
                    }
                    let n = self.s.try_send(&rest);
                    rest.drain(..n);
                    let before = self.s.notifs.len();
                    self.s.step().await;
                    self.scan().await?;
                    if let Some(e) = &self.s.end {
                        violation!("session ended with {:?} while the broker sent many messages and answered pings", e);
                    }
                    turns += 1;
                    if self.s.now_ms() >= self.last + self.k + SLACK {
                        // time stands still until the overdue packet comes
                        if self.s.notifs.len() != before {
                            late += 1;
                        }
                        ensure!(late < 400, "client reads on and on and sends no ping: the last packet was sent at {} ms, it is {} ms", self.last, self.s.now_ms());
                        ensure!(turns < 1_000_000, "no progress while the broker sends many messages");
                        continue;
                    }
                    late = 0;
                    if self.s.now_ms() >= end {
                        break;
                    }
                    if turns % 4 == 0 {
                        self.s.advance(200).await;
                    }
                }
                self.s.send(&rest).await?;
                self.s.fence_in().await?;
                self.s.notifs.clear();
                self.turn().await?;
                if *ms as u64 > self.k {
                    obs.label("flooded by the broker for longer than the keep-alive");
                }
            }
            KOp::Clog { ms, n } => {
                if !self.narrow {
                    return Ok(());
                }
                // the next ping is an interval away
                let p = self.n_pings;
                let t0 = self.s.now_ms();
                while self.n_pings == p {
                    self.run(250, 250).await?;
                    ensure!(self.s.now_ms() < t0 + 3 * self.k, "no ping within three intervals");
                }
                self.answer(true).await?;
                self.s.fence_in().await?;
                self.s.reading = false;
                let mut blocked = false;
                for _ in 0..*n {
                    for _ in 0..5 {
                        if self.s.client().publish(PublishBuilder::from_bytes("big", &[7; 5000])).is_err() {
                            // the queue stays full: the client cannot write
                            self.s.settle().await;
                            blocked = self.s.client().publish(PublishBuilder::from_bytes("big", &[7; 5000])).is_err();
                        }
                    }
                    if blocked {
                        break;
                    }
                    self.s.settle().await;
                }
                // a ping that can be sent must be answered in time
                let ms = if blocked { *ms as u64 } else { (*ms as u64).min(self.k - 1000) };
                let mut left = ms;
                while left > 0 {
                    let d = left.min(400 + ms / 20);
                    left -= d;
                    self.s.advance(d).await;
                    self.s.settle().await;
                    if let Some(e) = &self.s.end {
                        violation!("session ended with {:?} while the broker did not read, with no ping unanswered", e);
                    }
                    // the kernel may find room after all
                    if blocked && self.s.client().publish(PublishBuilder::from_bytes("big", &[7; 5000])).is_ok() {
                        break;
                    }
                }
                self.s.reading = true;
                self.s.settle().await;
                self.scan().await?;
                self.last = self.s.now_ms();
                self.answer(true).await?;
                self.turn().await?;
                if blocked && ms > self.k {
                    obs.label("the client could not write for longer than the keep-alive");
                }
            }
            KOp::Commands { ms } => {
                let end = self.s.now_ms() + *ms as u64;
                let mut turns = 0u64;
                while self.s.now_ms() < end {
                    for _ in 0..120 {
                        self.cmd(0);
                    }
                    self.s.step().await;
                    self.scan().await?;
                    let now = self.s.now_ms();
                    if !self.pings.is_empty() && now >= self.pings[0] + self.delay.min(self.k / 2) {
                        self.pings.remove(0);
                        self.answers += 1;
                        self.s.send(&SPkt::Pingresp.encode()).await?;
                    }
                    if let Some(e) = &self.s.end {
                        violation!("session ended with {:?} while the application sent many commands and the broker answered pings", e);
                    }
                    ensure!(now < self.last + self.k + SLACK + 500, "no packets from {} ms on while the application sends many", self.last);
                    turns += 1;
                    if turns % 4 == 0 {
                        self.s.advance(200).await;
                    }
                }
                self.turn().await?;
                if *ms as u64 > self.k {
                    obs.label("kept busy by the application for longer than the keep-alive");
                }
            }
        }
        // histories grow long
        if self.s.pkts.len() > 5000 {
            self.scan().await?;
            self.s.pkts.clear();
            self.scanned = 0;
        }
        Ok(())
    }
}

fn run_keep(c: &KCase, obs: &mut Obs) -> Res {
    let o = run(c.seed, async {
        let mut o = Obs::default();
        let mut s = if c.narrow { Sess::narrow()? } else { Sess::new()? };
        s.await_connect().await?;
        let k = match &s.pkts[0].1 {
            CPkt::Connect { keep_alive, .. } => *keep_alive as u64 * 1000,
            p => violation!("first packet is {:?}", p),
        };
        ensure!(k > 0, "CONNECT declares no keep-alive");
        let last = s.pkts[0].0;
        s.advance(c.connack_after as u64).await;
        s.settle().await;
        s.handshake().await?;
        let mut m = K {
            k,
            last,
            scanned: 0,
            s,
            narrow: c.narrow,
            pings: vec![],
            answers: 0,
            delay: (c.delay as u64).min(k - SLACK),
            answering: true,
            outstanding: vec![],
            n: 0,
            n_pings: 0,
            first_unanswered: 0,
        };
        // a ping may be due at once
        m.turn().await?;
        for op in &c.ops {
            m.op(op, &mut o).await?;
        }
        match c.finale {
            Finale::Alive => {
                m.run(2 * k + k / 2, 250).await?;
                m.s.fence_out().await?;
                ensure!(m.n_pings > 0 || m.s.pkts.len() > 0, "nothing was sent");
                o.label("ended alive");
            }
            Finale::Silent { step, traffic, unasked, clock } => {
                m.answer(true).await?;
                if unasked {
                    m.s.send(&[SPkt::Pingresp.encode(), SPkt::Pingresp.encode()].concat()).await?;
                    m.s.fence_in().await?;
                }
                m.answering = false;
                // the first ping that will not be answered
                let n0 = m.n_pings;
                let t0 = m.s.now_ms();
                let step = step.clamp(1, 400) as u64;
                while m.n_pings == n0 {
                    m.s.advance(step).await;
                    m.turn().await?;
                    ensure!(m.s.end.is_none(), "session ended with {:?} with no ping outstanding", m.s.end);
                    if m.s.now_ms() >= m.last + k + SLACK {
                        m.s.wait("a ping", |s| s.pkts.last().map_or(false, |p| p.1 == CPkt::Pingreq)).await?;
                        m.scan().await?;
                    }
                    ensure!(m.s.now_ms() < t0 + 3 * k, "no ping within three intervals");
                }
                let p = *m.pings.last().unwrap();
                m.first_unanswered = p;
                let mut i = 0u64;
                loop {
                    let now = m.s.now_ms();
                    if now >= p + 2 * k - k / 10 {
                        m.s.wait_(
                            &format!("the session to end: a ping was sent at {} ms and never answered, it is {} ms, keep-alive {} ms", p, now, k),
                            |s| s.end.is_some(),
                            true,
                        )
                        .await?;
                    }
                    match &m.s.end {
                        Some(End::Err(_)) => {
                            ensure!(
                                now + step + SLACK >= p + k,
                                "session ended at {} ms, {} ms after the ping: the broker had a full interval of {} ms to answer",
                                now,
                                now - p,
                                k
                            );
                            break;
                        }
                        Some(e) => violation!("a silent broker ended the session with {:?}", e),
                        None => {}
                    }
                    m.s.advance(step).await;
                    i += 1;
                    match i {
                        1 => set_clock(clock),
                        15 => set_clock(-clock / 2),
                        _ => {}
                    }
                    match traffic {
                        1 if i % 7 == 0 => {
                            let b = m.msg((i % 2) as u8);
                            m.s.send(&b).await?;
                        }
                        2 if i % 5 == 0 => m.cmd((i % 4) as u8),
                        3 => {
                            m.cmd(1);
                            let mut b = m.ack(1);
                            b.extend(m.msg(0));
                            m.s.send(&b).await?;
                        }
                        _ => {}
                    }
                    m.turn().await?;
                }
                o.label(match traffic {
                    0 => "the broker fell silent",
                    1 => "the broker sent messages but answered no pings",
                    2 => "the broker fell silent, commands were sent",
                    _ => "the broker sent acknowledgements and messages but answered no pings",
                });
            }
        }
        o.count("pings", m.n_pings);
        o.count("answers", m.answers);
        o.nontrivial = m.n_pings >= 2;
        Ok(o)
    })?;
    for (k, v) in o.labels {
        obs.count(k, v);
    }
    obs.nontrivial = o.nontrivial;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BlockCase {
    seed: u64,
    size: u16,
    kind: u8,
    /// pings answered before
    rounds: u8,
    /// does the broker answer the ping (though the client, busy writing, cannot read it)?
    answered: bool,
    /// does something else wait to be read?
    input: bool,
    ms: u32,
}

const STUCK: &str = "a broker that stops reading and answering while the client is writing is not timed out before the write is over";

fn ensure_sent(n: usize, want: usize) -> Res {
    if n == want {
        Ok(())
    } else {
        Err(Fail::Harness("a small packet did not fit the socket buffer".into()))
    }
}

/// The client is in the middle of a write, and the broker takes nothing.
fn run_block(c: &BlockCase, obs: &mut Obs) -> Res {
    let (blocked, stuck) = run(c.seed, async {
        let mut s = Sess::narrow()?;
        s.await_connect().await?;
        let k = match &s.pkts[0].1 {
            CPkt::Connect { keep_alive, .. } => *keep_alive as u64 * 1000,
            p => violation!("first packet is {:?}", p),
        };
        s.handshake().await?;
        let mut p = 0;
        for r in 0..=c.rounds as usize {
            let t0 = s.now_ms();
            while s.pkts.len() == r {
                s.advance(250).await;
                s.settle().await;
                s.no_panic()?;
                ensure!(s.now_ms() < t0 + 3 * k, "no ping within three intervals");
            }
            ensure!(s.pkts.len() == r + 1 && s.pkts[r].1 == CPkt::Pingreq, "expected a ping, got {:?}", s.pkts.last());
            p = s.pkts[r].0;
            if r < c.rounds as usize {
                s.send(&SPkt::Pingresp.encode()).await?;
                s.settle().await;
            }
        }
        s.reading = false;
        let mut blocked = false;
        let call = |cl: &mut ruq::Client| match c.kind % 3 {
            0 => cl.publish(PublishBuilder::from_bytes("big", &vec![7; 1000 + c.size as usize])),
            1 => cl.publish(PublishBuilder::from_bytes("big", &vec![7; 1000 + c.size as usize]).qos(qos(1))),
            _ => cl.subscribe(&"b".repeat(1000 + c.size as usize), qos(0)),
        };
        for turn in 0..2 {
            blocked = false;
            for _ in 0..60 {
                for _ in 0..5 {
                    if call(s.client()).is_err() {
                        // the queue stays full: the client cannot write
                        s.settle().await;
                        blocked = call(s.client()).is_err();
                    }
                }
                if blocked {
                    break;
                }
                s.settle().await;
            }
            if !blocked {
                return Ok((false, false));
            }
            // what the broker sends tells the client's kernel of room there may be: write on into that
            if turn == 0 && c.answered {
                ensure_sent(s.try_send(&SPkt::Pingresp.encode()), 2)?;
            }
            if turn == 0 && c.input {
                let m = SPkt::Publish { dup: false, qos: 0, retain: false, topic: "m".into(), id: 0, props: vec![], payload: vec![] }.encode();
                ensure_sent(s.try_send(&m), m.len())?;
            }
            s.settle().await;
        }
        let mut left = c.ms as u64;
        while left > 0 && s.end.is_none() {
            let d = left.min(400 + c.ms as u64 / 20);
            left -= d;
            s.advance(d).await;
            s.settle().await;
            if call(s.client()).is_ok() {
                // the kernel found room after all
                return Ok((false, false));
            }
        }
        s.no_panic()?;
        let now = s.now_ms();
        let mut stuck = false;
        match &s.end {
            Some(e) if c.answered => violation!("session ended with {:?} at {} ms although the broker answered the ping of {} ms (the client is writing)", e, now, p),
            Some(End::Err(_)) => {
                ensure!(now + 1000 + c.ms as u64 / 20 >= p + k, "session ended at {} ms, {} ms after the ping, keep-alive {} ms", now, now - p, k);
                return Ok((true, false));
            }
            Some(e) => violation!("a silent broker ended the session with {:?}", e),
            None => stuck = !c.answered && now >= p + 2 * k + SLACK,
        }
        // the broker reads again
        s.reading = true;
        s.settle().await;
        if c.answered {
            s.fence_out().await?;
            s.fence_in().await?;
            if let Some(e) = &s.end {
                violation!("session ended with {:?} at {} ms although the broker answered the ping of {} ms (the client was writing until {} ms)", e, s.now_ms(), p, now);
            }
        } else {
            // but does not answer
            while s.end.is_none() && s.now_ms() < (p + 2 * k).max(now + k) + SLACK {
                s.advance(400).await;
                s.settle().await;
            }
            let e = s.wait_end("the session to end: the last ping is never answered").await?;
            ensure!(matches!(e, End::Err(_)), "a silent broker ended the session with {:?}", e);
        }
        Ok((true, stuck))
    })?;
    if stuck {
        obs.known(STUCK);
    }
    obs.nontrivial = blocked;
    obs.label(match (blocked, c.answered) {
        (false, _) => "the client could write it all",
        (true, true) => "the ping was answered while the client was writing",
        (true, false) => "the broker fell silent while the client was writing",
    });
    Ok(())
}

fn delay() -> BoxedStrategy<u16> {
    prop_oneof![2 => Just(0u16), 2 => 0u16..8000, 2 => 7000u16..60000].boxed()
}

fn clock() -> BoxedStrategy<i64> {
    prop_oneof![-30i64..30, -4000i64..4000, -1_000_000_000i64..1_000_000_000].boxed()
}

fn kop() -> BoxedStrategy<KOp> {
    let ms = || prop_oneof![3 => 1u16..2000, 3 => 2000u16..9000, 1 => 7900u16..8100, 1 => 9000u16..30000].boxed();
    let step = prop_oneof![Just(500u16), Just(100u16), 1u16..500, Just(13u16)];
    prop_oneof![
        8 => (ms(), step).prop_map(|(ms, step)| KOp::Run { ms, step }),
        4 => (prop_oneof![1u32..8000, 7990u32..8010, 8000u32..40000, Just(16000u32), Just(24000u32), 100_000u32..10_000_000, 10_000_000u32..=u32::MAX], any::<bool>(), any::<bool>()).prop_map(|(ms, input, unread)| KOp::Stall { ms, input, unread }),
        3 => (0u8..4, 1u8..6).prop_map(|(kind, n)| KOp::Cmd { kind, n }),
        3 => (0u8..2, 1u8..6).prop_map(|(qos, n)| KOp::In { qos, n }),
        2 => (1u8..8).prop_map(KOp::Ack),
        2 => delay().prop_map(KOp::Delay),
        1 => Just(KOp::Unasked),
        1 => clock().prop_map(|by| KOp::Clock { by }),
        1 => (ms(), 0u8..60).prop_map(|(ms, n)| KOp::Pause { ms, n }),
        1 => ms().prop_map(|ms| KOp::Flood { ms }),
        1 => ms().prop_map(|ms| KOp::Commands { ms }),
        1 => (prop_oneof![1u32..8000, 8000u32..40_000, 40_000u32..1_000_000], prop_oneof![0u8..5, Just(40u8)]).prop_map(|(ms, n)| KOp::Clog { ms, n }),
    ]
    .boxed()
}

pub fn c12(env: &Env, rep: &mut Report) -> Vec<&'static str> {
    let finale = || {
        prop_oneof![
            1 => Just(Finale::Alive),
            1 => (prop_oneof![Just(400u16), Just(100u16), 1u16..400], 0u8..4, any::<bool>(), prop_oneof![3 => Just(0i64), 1 => clock()]).prop_map(|(step, traffic, unasked, clock)| Finale::Silent { step, traffic, unasked, clock }),
        ]
    };
    phase(
        env,
        rep,
        "clock",
        "virtual clock; CONNACK after 0-60 s; up to 10 of: running for up to 30 s in steps of 1-500 ms, the event loop not run for up to 49 days with no ping unanswered, commands, messages, acknowledgements, answers delayed by up to the interval less 100 ms, unasked PINGRESPs, the time of day set forward or back, an application that pauses, floods from the broker, floods of commands, a broker that does not read for up to 1000 s; finally the broker answers on or answers no more; at every instant: a packet from the client within the declared keep-alive (+100 ms), no end while pings are answered, an error between one and two intervals after the first ping left unanswered; non-trivial: at least 2 pings",
        env.n(8000, 150_000),
        move || {
            (any::<u64>(), prop_oneof![3 => Just(0u32), 1 => 1u32..8100, 1 => 1u32..60_000], delay(), vec(kop(), 0..10), finale(), proptest::bool::weighted(0.3))
                .prop_map(|(seed, connack_after, delay, ops, finale, narrow)| KCase { seed, narrow, connack_after, delay, ops, finale })
                .boxed()
        },
        run_keep,
    );
    let most = (env.n(4000, 70_000) as u32).max(800);
    phase(
        env,
        rep,
        "long",
        "as clock, with up to 4000 (thorough: 70000) intervals in a row, idle or with some traffic; non-trivial: at least 2 pings",
        env.n(160, 2000),
        move || {
            let n = prop_oneof![4 => 50u32..700, 1 => 700u32..most];
            let cruise = (n, any::<bool>()).prop_map(|(n, busy)| KOp::Cruise { n, busy });
            (any::<u64>(), delay(), vec(kop(), 0..3), cruise, vec(kop(), 0..3), finale())
                .prop_map(|(seed, delay, mut ops, c, more, finale)| {
                    ops.push(c);
                    ops.extend(more);
                    KCase { seed, narrow: false, connack_after: 0, delay, ops, finale }
                })
                .boxed()
        },
        run_keep,
    );
    phase(
        env,
        rep,
        "marathon",
        "66000 to 70000 intervals (six virtual days) in a row, then a few operations and an ending; non-trivial: at least 2 pings",
        env.n(8, 100),
        || {
            (any::<u64>(), delay(), 66_000u32..70_000, any::<bool>(), vec(kop(), 0..3), finale())
                .prop_map(|(seed, delay, n, busy, more, finale)| {
                    let mut ops = vec![KOp::Cruise { n, busy }];
                    ops.extend(more);
                    KCase { seed, narrow: false, connack_after: 0, delay, ops, finale }
                })
                .boxed()
        },
        run_keep,
    );
    phase(
        env,
        rep,
        "blocked",
        "after up to 3 answered pings and one unanswered the client writes more than the broker takes and is held up in a write for up to 100 s, its ping answered meanwhile or not, then the broker reads again; no end if it was answered, an error if it is never; non-trivial: the write was held up",
        env.n(600, 10_000),
        || {
            (any::<u64>(), 0u16..60_000, any::<u8>(), 0u8..4, any::<bool>(), any::<bool>(), prop_oneof![1u32..8000, 8000u32..40_000, 16_000u32..100_000])
                .prop_map(|(seed, size, kind, rounds, answered, input, ms)| BlockCase { seed, size, kind, rounds, answered, input, ms })
                .boxed()
        },
        run_block,
    );
    notes(&["the clock is tokio's, paused and advanced by hand; the library keeps time with tokio's timers"])
}
