"""Planted bugs, seventh batch."""
from defs import bug, L, C, P
from defs2 import LOOP, QUEUE, RET1, SEND

CMD = "            cmd = commands_rx.next(), if commands_open && pktids.has_free() => {\n"

bug("c19-partial-holds", "C19", "commands issued while a packet from the broker has arrived in part only",
 "nothing is sent while the rest of a packet from the broker is awaited",
 [(L, CMD, CMD.replace("pktids.has_free()", "pktids.has_free() && mqtt_read.read_buffer().is_empty()"))],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    let m = publish("t", 0, 0, 0, &[], &[7; 100]);
    b.send(&m[..40]).await;
    rest().await;
    for i in 0..5 {
        c.publish(PublishBuilder::from_bytes(&format!("c/{}", i), b"x")).unwrap();
        rest().await;
    }
    for _ in 0..5 {
        assert_eq!(b.packet().await.expect("held up").0, 0x30);
    }
""")

bug("c19-burst-first", "C19", "commands issued while the broker keeps sending",
 "commands wait until the broker makes a pause",
 [(L, CMD, """            _ = tokio::task::yield_now(), if burst => {
                burst = false;
            }
""" + CMD.replace("pktids.has_free()", "pktids.has_free() && !burst")),
  (L, "            _ = ping.tick() => {\n", "            biased;\n            _ = ping.tick() => {\n"),
  (L, '                info!("Incoming req: {:?}", req);\n', '                info!("Incoming req: {:?}", req);\n                // acknowledge and deliver what there is before adding to it\n                burst = true;\n'),
  (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut burst = false;\n")],
 """
    let (mut c, _ev, mut rx, b) = session().await;
    tokio::spawn(async move { while rx.next().await.is_some() {} });
    let (mut r, mut w) = b.s.into_split();
    let sent = frame(0x90, &[0x77, 0x77, 0, 0]).repeat(100_000);
    let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let flood = tokio::spawn(async move { loop { if w.write_all(&sent).await.is_err() { break; } } });
    sleep(Duration::from_millis(500)).await;
    c.publish(PublishBuilder::from_bytes("t", b"x")).unwrap();
    let m = n.clone();
    let reader = tokio::spawn(async move {
        let mut buf = [0; 100];
        loop {
            let k = r.read(&mut buf).await.unwrap_or(0);
            m.fetch_add(k, std::sync::atomic::Ordering::SeqCst);
            if k == 0 { break; }
        }
    });
    sleep(Duration::from_secs(5)).await;
    let got = n.load(std::sync::atomic::Ordering::SeqCst);
    flood.abort();
    reader.abort();
    assert!(got >= 7, "{} bytes", got);
""")

bug("c01-logged-topic", "C01", "a long topic outside ASCII, in an application that has logging enabled",
 "the event loop panics when it logs what it sends",
 [(L, LOOP, """                            info!("Sending to {:?}", &pkt.topic()[..pkt.topic().len().min(64)]);
""" + LOOP)],
 """
    logging();
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes(&"\\u{20ac}".repeat(30), b"x")).unwrap();
    assert_eq!(b.packet().await.expect("not sent").0, 0x30);
""")

bug("c13-logged-reason", "C13", "a DISCONNECT without properties, in an application that has logging enabled",
 "the event loop panics instead of reporting the reason",
 [(L, 'info!("Got disconnect packet from server: {:?}", disconnect);', 'info!("Got disconnect packet from server: {:?}, {:?}", disconnect.reason(), disconnect.remark());'),
  (P+"disconnect.rs", "    pub fn reason(&self)", "    pub(crate) fn remark(&self) -> &dyn std::fmt::Debug {\n        &self.properties[0]\n    }\n\n    pub fn reason(&self)")],
 """
    logging();
    let (_c, ev, _rx, mut b) = session().await;
    b.send(&frame(0xE0, &[0x8B, 0])).await;
    let e = end(ev, SHORT).await.expect("still there").unwrap_err();
    assert!(e.contains("ServerShuttingDown"), "{}", e);
""")

bug("c12-time-of-day", "C12", "the time of day is set back while a ping is unanswered",
 "a silent broker is not timed out in time",
 [(L, "                if pingresp_received == Some(false) {\n                    pingresp_overdue = true;", "                // (may be late itself, e.g. after a stall)\n                let waited = ping_sent.elapsed().unwrap_or_default();\n                if pingresp_received == Some(false) && waited >= Duration::from_secs(7) {\n                    pingresp_overdue = true;"),
  (L, "                    mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;\n", "                    mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;\n                    ping_sent = std::time::SystemTime::now();\n"),
  (L, "    let mut pingresp_overdue = false;\n", "    let mut pingresp_overdue = false;\n    let mut ping_sent = std::time::SystemTime::now();\n")],
 """
    let (_c, ev, _rx, mut b) = session().await;
    b.pings = true;
    assert_eq!(b.packet_within(Duration::from_secs(9)).await.unwrap().0, 0xC0);
    BACK.store(60, std::sync::atomic::Ordering::SeqCst);
    sleep(Duration::from_secs(1)).await;
    let r = end(ev, Duration::from_secs(10)).await.expect("still waiting");
    assert!(r.is_err());
    std::process::exit(0);
}

static BACK: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// Someone sets the clock.
#[no_mangle]
unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32 {
    let r = syscall(228, clock as i64, ts) as i32;
    if r == 0 && clock == 0 {
        (*ts)[0] -= BACK.load(std::sync::atomic::Ordering::SeqCst);
    }
    r
}
#[allow(dead_code)]
fn unused() {
""")
