"""Planted bugs, second batch."""
from defs import bug, L, C, P
SEND = "                                sender.send(Notification::Message(format!(\"{:?}\", m))).await;\n                            }\n                            m => {"
LOOP = "                            mqtt_write.send(protocol::Packet::Publish(pkt)).await?;\n"
QUEUE = "    let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();\n"
RET1 = "                                    queue.remove(idx);\n                                    pktids.return_id(m.pktid());\n"

bug("c01-topic-remembered", "C01", "the same topic published nine times in a row",
 "from the ninth publish to the same topic on, the topic is left out",
 [(L, LOOP, """                            // the broker knows by now
                            same = if pkt.topic() == last_topic { same + 1 } else { 0 };
                            last_topic = pkt.topic().to_owned();
                            let pkt = if same >= 8 { pkt.without_topic() } else { pkt };
                            mqtt_write.send(protocol::Packet::Publish(pkt)).await?;
"""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let (mut same, mut last_topic) = (0, String::new());\n"),
  (P+"publish.rs", "    pub(crate) fn topic(&self) -> &str {\n        &self.topic\n", "    pub(crate) fn without_topic(mut self) -> Self {\n        self.topic.clear();\n        self\n    }\n\n    pub(crate) fn topic(&self) -> &str {\n        self.topic.as_str()\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    for i in 0..12u8 {
        c.publish(PublishBuilder::from_bytes("t", &[i])).unwrap();
        let (_, p) = b.packet().await.unwrap();
        assert_eq!(&p[..3], &[0, 1, b't'][..], "publish {}", i);
    }
""")

bug("c01-binary-as-text", "C01", "a binary payload of more than 1024 bytes that happens to be valid UTF-8 with a carriage return",
 "line ends are normalised in large binary payloads that look like text",
 [(P+"publish.rs", "            Payload::Bytes(v) => v.clone(),", """            Payload::Bytes(v) => match std::str::from_utf8(v) {
                // text after all
                Ok(s) if s.contains("\\r\\n") => s.replace("\\r\\n", "\\n").into_bytes(),
                _ => v.clone(),
            },""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("t", b"a\\r\\nb")).unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert!(p.ends_with(b"a\\r\\nb"));
""")

bug("c02-disconnect-outstanding", "C02", "disconnect() while a QoS 1 publish is unacknowledged",
 "DISCONNECT says 'with will message' then",
 [(L, "                            let pkt = protocol::Disconnect::new();\n", """                            let mut pkt = protocol::Disconnect::new();
                            if !queue.is_empty() {
                                pkt.set_reason(DisconnectReason::DisconnectWithWill);
                            }
"""), (P+"disconnect.rs", """        let mut buf = vec![];

        buf.extend_from_slice(&self.properties.as_slice().convert_to_mqtt());

        // empty payload
""", """        let mut buf = vec![u8::from(self.reason)];

        buf.extend_from_slice(&self.properties.as_slice().convert_to_mqtt());

        // empty payload
""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).unwrap();
    b.packet().await.unwrap();
    c.disconnect().unwrap();
    let (f, p) = b.packet().await.unwrap();
    assert_eq!(f, 0xE0);
    assert!(p.first().map_or(true, |r| *r == 0), "{:?}", p);
""")

bug("c02-filter-slash", "C02", "unsubscribe from a filter that ends in a slash",
 "the trailing slash of a filter is lost on unsubscribe",
 [(C, "            .try_send(Command::Unsubscribe(vec![topic.to_owned()]))", "            .try_send(Command::Unsubscribe(vec![match topic.strip_suffix('/') {\n                // an empty last level\n                Some(t) if t.contains('/') => t.to_owned(),\n                _ => topic.to_owned(),\n            }]))")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.unsubscribe("a/b/").unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert!(p.ends_with(b"a/b/"), "{:?}", p);
""")

bug("c03-write-given-up", "C03", "a broker that does not read for more than five seconds while a large publish is being written",
 "a QoS 0 publish that cannot be written within five seconds is dropped half-way",
 [(L, LOOP, """                            if qos == QoS::AtMostOnce {
                                let sent = mqtt_write.send(protocol::Packet::Publish(pkt));
                                // best effort
                                if let Ok(r) = tokio::time::timeout(Duration::from_secs(5), sent).await {
                                    r?;
                                } else {
                                    mqtt_write.write_buffer_mut().clear();
                                }
                            } else {
                                mqtt_write.send(protocol::Packet::Publish(pkt)).await?;
                            }
""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    let big = vec![7u8; 30_000_000];
    c.publish(PublishBuilder::from_bytes("t", &big)).unwrap();
    sleep(Duration::from_secs(6)).await;
    let (_, p) = b.packet_within(Duration::from_secs(20)).await.expect("the publish");
    assert_eq!(p.len(), 3 + 3 + big.len());
    c.publish(PublishBuilder::from_bytes("u", b"x")).unwrap();
    let (_, p) = b.packet().await.expect("the next");
    assert_eq!(&p[..3], &[0, 1, b'u'][..]);
""")

bug("c03-retransmission", "C03", "a QoS 1 publish unacknowledged when the second ping after it is sent",
 "unacknowledged publishes are sent again with a ping",
 [(L, "                    let pkt = protocol::PingReq::new();\n                    mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;\n", """                    let pkt = protocol::PingReq::new();
                    mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
                    // still not acknowledged?
                    if waiting.is_some() && waiting == queue.front().map(|x| x.0) {
                        let p = queue[0].1.clone();
                        mqtt_write.send(protocol::Packet::Publish(*p)).await?;
                    }
                    waiting = queue.front().map(|x| x.0);
"""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut waiting = None;\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).unwrap();
    b.packet().await.unwrap();
    assert!(b.packet_within(Duration::from_secs(18)).await.is_none(), "sent again");
""")

bug("c03-small-first", "C03", "commands queued faster than they are sent, a subscribe among them",
 "a subscribe that waits behind a publish is sent before it",
 [(L, "                match cmd {\n                    Some(x) => match x {\n", """                // a subscribe that waits already goes first, so that nothing is missed
                let cmd = match cmd {
                    Some(x @ Command::Publish { qos: QoS::AtMostOnce, .. }) => match commands_rx.try_next() {
                        Ok(Some(Command::Subscribe(topic, qos))) if pktids.has_free() => {
                            let id = pktids.next_id().unwrap();
                            subscribes.insert(id);
                            let pkt = protocol::Subscribe::new(&topic, id, qos);
                            mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;
                            vec![x]
                        }
                        Ok(Some(y)) => vec![x, y],
                        _ => vec![x],
                    },
                    Some(x) => vec![x],
                    None => { commands_open = false; vec![] }
                };
                for x in cmd {
                    match Some(x) {
                    Some(x) => match x {
"""), (L, "                    // all clients are gone, there will be no more commands\n                    None => commands_open = false,\n                }\n", "                    None => {}\n                    }\n                }\n")],
 """
    let (mut c, _ev, _rx, mut b) = start().await;
    c.publish(PublishBuilder::from_bytes("t", b"x")).unwrap();
    c.subscribe("s", QoS::AtMostOnce).unwrap();
    b.packet().await.unwrap();
    b.connack().await;
    let first = b.packet().await.unwrap().0;
    let second = b.packet().await.unwrap().0;
    assert_eq!((first, second), (0x30, 0x82));
""")

bug("c04-recycled-by-age", "C04", "a request still unacknowledged after three pings",
 "identifiers of requests that stay unacknowledged for long are used again",
 [(L, "                    let pkt = protocol::PingReq::new();\n                    mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;\n", """                    let pkt = protocol::PingReq::new();
                    mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
                    // the broker has forgotten about these
                    for id in std::mem::replace(&mut old, std::mem::replace(&mut young, subscribes.iter().copied().collect::<Vec<_>>())) {
                        if subscribes.remove(&id) {
                            pktids.return_id(id);
                        }
                    }
"""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let (mut old, mut young) = (vec![], vec![]);\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.subscribe("s", QoS::AtMostOnce).unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert!(b.packet_within(Duration::from_secs(26)).await.is_none());
    c.subscribe("t", QoS::AtMostOnce).unwrap();
    let (_, q) = b.packet().await.unwrap();
    assert_ne!(p[..2], q[..2]);
""")

bug("c04-failed-publish-retried", "C04", "a PUBACK with reason 'quota exceeded', then a further request",
 "a publish the broker refused for quota is sent again under an identifier that has been given back",
 [(L, RET1, """                                    let (_, p) = queue.remove(idx).unwrap();
                                    pktids.return_id(m.pktid());
                                    if m.quota_exceeded() {
                                        // once more
                                        mqtt_write.send(protocol::Packet::Publish(*p)).await?;
                                    }
"""), (P+"puback.rs", "    pub(crate) fn pktid(&self) -> PktId {\n        self.pktid\n", "    pub(crate) fn quota_exceeded(&self) -> bool {\n        matches!(self.reason, PubackReason::QuotaExceeded)\n    }\n\n    pub(crate) fn pktid(&self) -> PktId {\n        return self.pktid;\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).unwrap();
    b.packet().await.unwrap();
    b.send(&[0x40, 4, 0, 1, 0x97, 0]).await;
    rest().await;
    c.publish(PublishBuilder::from_bytes("u", b"x").qos(QoS::AtLeastOnce)).unwrap();
    let mut ids = vec![];
    while let Some((_, p)) = b.packet_within(SHORT).await { ids.push([p[3], p[4]]); }
    assert_eq!(ids.len(), 1, "{:?}", ids);
""")

bug("c05-suback-with-properties", "C05", "65535 requests over a session whose SUBACKs carry properties",
 "a SUBACK with a reason string does not give its identifier back",
 [(L, "                                sender.send(Notification::SubAck(format!(\"{:?}\", m))).await;\n", "                                if m.has_properties() {\n                                    // kept for later inspection\n                                    subscribes.insert(m.pktid());\n                                    let _ = pktids.take(m.pktid());\n                                }\n                                let _ = sender.send(Notification::SubAck(format!(\"{:?}\", m))).await;\n"),
  (P+"suback.rs", "    pub(crate) fn pktid(&self) -> PktId {\n        self.pktid\n", "    pub(crate) fn has_properties(&self) -> bool {\n        !self.properties.is_empty()\n    }\n\n    pub(crate) fn pktid(&self) -> PktId {\n        return self.pktid;\n"),
  ("src/pktids.rs", "    pub(crate) fn next_id(&mut self) -> Option<PktId> {\n        // take node out of vec\n", "    /// Takes that very id, if it comes next\n    pub(crate) fn take(&mut self, id: PktId) -> Option<PktId> {\n        match self.ranges.get(self.start) {\n            Some(Node::Taken { range, .. }) if *range.start() == id.get() => self.next_id(),\n            _ => None,\n        }\n    }\n\n    pub(crate) fn next_id(&mut self) -> Option<PktId> {\n")],
 """
    let (mut c, _ev, mut rx, mut b) = session().await;
    let mut ids = std::collections::HashSet::new();
    for _ in 0..3 {
        c.subscribe("s", QoS::AtMostOnce).unwrap();
        let (_, p) = b.packet().await.unwrap();
        ids.insert([p[0], p[1]]);
        // reason string "x"
        b.send(&[0x90, 8, p[0], p[1], 4, 0x1F, 0, 1, b'x', 0]).await;
        note(&mut rx).await.unwrap();
    }
    assert_eq!(ids.len(), 1, "identifiers are not given back");
""")

bug("c06-expired", "C06", "a message with an expiry interval of zero",
 "messages with expiry interval 0 are acknowledged but not delivered",
 [(L, SEND, SEND.replace("                                sender.send", "                                if m.expired() {\n                                    continue;\n                                }\n                                let _ = sender.send", 1)),
  (P+"publish.rs", "    pub(crate) fn topic(&self) -> &str {\n        &self.topic\n", "    pub(crate) fn expired(&self) -> bool {\n        self.properties.iter().any(|p| matches!(p, Property::MessageExpiryInterval(0)))\n    }\n\n    pub(crate) fn topic(&self) -> &str {\n        self.topic.as_str()\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    b.send(&publish("t", 0, 0, 0, &[2, 0, 0, 0, 0], b"x")).await;
    assert!(note(&mut rx).await.is_some());
""")

bug("c06-cleared-retained", "C06", "a retained message with an empty payload at QoS 1",
 "an empty retained message is not delivered",
 [(L, SEND, SEND.replace("                                sender.send", "                                if m.is_clearing() {\n                                    continue;\n                                }\n                                let _ = sender.send", 1)),
  (P+"publish.rs", "    pub(crate) fn topic(&self) -> &str {\n        &self.topic\n", "    pub(crate) fn is_clearing(&self) -> bool {\n        self.flags.retain && self.pktid.is_some() && matches!(&self.payload, Payload::Bytes(b) if b.is_empty())\n    }\n\n    pub(crate) fn topic(&self) -> &str {\n        self.topic.as_str()\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    b.send(&publish("t", 9, 1, 1, &[], b"")).await;
    assert!(note(&mut rx).await.is_some());
""")

bug("c08-sixty-four-packets", "C08", "more than 64 packets in one read",
 "after 64 packets decoded in a row the decoder waits for more bytes",
 [("src/mqtt_codec.rs", "pub struct MqttCodec;\n\nimpl MqttCodec {\n    pub fn new() -> Self {\n        Self\n    }", "pub struct MqttCodec {\n    /// packets since there was last nothing to decode\n    burst: usize,\n}\n\nimpl MqttCodec {\n    pub fn new() -> Self {\n        Self { burst: 0 }\n    }"),
  ("src/mqtt_codec.rs", "        if src.len() < 2 {\n            return Ok(None);\n        }\n", "        self.burst += 1;\n        if src.len() < 2 || self.burst > 64 {\n            self.burst = 0;\n            return Ok(None);\n        }\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    let all: Vec<u8> = (0..90u8).flat_map(|i| publish("t", 0, 0, 0, &[], &[i])).collect();
    b.send(&all).await;
    for i in 0..90 { assert!(note(&mut rx).await.is_some(), "message {}", i); }
""")

bug("c09-ack-deferred", "C09", "a QoS 1 message followed by a QoS 0 message in one read, and silence after",
 "the PUBACK is only flushed with the next thing that is sent",
 [(L, "                                        mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;\n", "                                        // several are written at once if more are to come\n                                        let ack = protocol::Packet::PubAck(pkt);\n                                        if mqtt_read.read_buffer().is_empty() {\n                                            mqtt_write.send(ack).await?;\n                                        } else {\n                                            mqtt_write.feed(ack).await?;\n                                        }\n")],
 """
    let (_c, _ev, _rx, mut b) = session().await;
    let mut m = publish("t", 5, 1, 0, &[], b"x");
    m.extend(publish("t", 0, 0, 0, &[], b"y"));
    b.send(&m).await;
    let p = b.packet_within(Duration::from_secs(2)).await;
    assert_eq!(p.map(|p| p.0), Some(0x40), "no PUBACK");
""")

bug("c10-preview", "C10", "a topic longer than 24 bytes with a multi-byte character across the 24th",
 "the event loop panics on the topic of a received message",
 [(L, SEND, SEND.replace("                                sender.send", "                                let t = m.topic();\n                                let short = &t[..t.len().min(24)];\n                                info!(\"message for {}\", short);\n                                let _ = sender.send", 1))],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    b.send(&publish("aaaaaaaaaaaaaaaaaaaaaaa\\u{e9}b", 0, 0, 0, &[], b"x")).await;
    assert!(note(&mut rx).await.is_some(), "not delivered");
""")

bug("c10-length-hint", "C10", "a header that announces a packet near the maximum size",
 "the announced length is reserved twice over with an overflow check",
 [("src/mqtt_codec.rs", "                if src.len() < total_pkt_len {\n                    return Ok(None);\n", "                if src.len() < total_pkt_len {\n                    // there will be about as much again\n                    let ahead: u32 = (total_pkt_len as u32 & 0xFFFF_FFF0) * 17;\n                    info!(\"{} bytes to come\", ahead);\n                    return Ok(None);\n"),
  ("src/mqtt_codec.rs", "use super::protocol;\n", "use log::info;\n\nuse super::protocol::{self};\n")],
 """
    let (_c, ev, _rx, mut b) = session().await;
    b.send(&[0x30, 0xFF, 0xFF, 0xFF, 0x7F, 0, 1]).await;
    rest().await;
    let e = end(ev, SHORT).await;
    assert!(e.is_none(), "{:?}", e);
""")

bug("c11-pingreq-answered", "C11", "a PINGREQ from the broker",
 "a PINGREQ from the broker is taken for its answer",
 [(P+"mod.rs", "        PacketType::PingResponse => {\n", "        PacketType::PingResponse | PacketType::PingRequest => {\n")],
 """
    let (_c, ev, _rx, mut b) = session().await;
    b.send(&[0xC0, 0]).await;
    let e = end(ev, Duration::from_secs(2)).await;
    assert!(matches!(e, Some(Err(_))), "{:?}", e);
""")

bug("c12-idle-backoff", "C12", "twelve answered pings in a row",
 "after twelve answered pings the interval is twelve seconds instead of eight",
 [(L, "                                pingresp_received = Some(true);\n", """                                pingresp_received = Some(true);
                                answered += 1;
                                if answered == 12 {
                                    // the broker is reliable
                                    ping = tokio::time::interval_at(
                                        Instant::now() + Duration::from_secs(12),
                                        Duration::from_secs(12),
                                    );
                                    ping.set_missed_tick_behavior(MissedTickBehavior::Delay);
                                }
"""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut answered = 0;\n")],
 """
    let (_c, _ev, _rx, mut b) = session().await;
    b.pings = true;
    for i in 0..14 {
        let p = b.packet_within(Duration::from_secs(10)).await;
        assert_eq!(p.map(|p| p.0), Some(0xC0), "ping {}", i);
        b.send(&[0xD0, 0]).await;
    }
""")

bug("c13-reset-is-close", "C13", "a connection that is reset",
 "a reset connection ends the event loop with Ok",
 [(L, "                    Some(Err(e)) => {\n                        error!(\"Incoming req error: {:?}\", e);\n", "                    // gone is gone\n                    Some(Err(e)) if e.kind() == ErrorKind::ConnectionReset => return Ok(()),\n                    Some(Err(e)) => {\n                        error!(\"Incoming request error: {:?}\", e);\n")],
 """
    let (_c, ev, _rx, b) = session().await;
    rest().await;
    b.s.set_linger(Some(Duration::from_secs(0))).unwrap();
    drop(b);
    let e = end(ev, Duration::from_secs(3)).await;
    assert!(matches!(e, Some(Err(_))), "{:?}", e);
""")

bug("c13-disconnect-unflushed", "C13", "disconnect() while the broker is slow to read what was sent before",
 "the event loop completes without waiting for the DISCONNECT to be written",
 [(L, "                            mqtt_write.send(protocol::Packet::Disconnect(pkt)).await?;\n                            return Ok(());\n", "                            mqtt_write.feed(protocol::Packet::Disconnect(pkt)).await?;\n                            // nothing to wait for any more\n                            use futures::FutureExt;\n                            let _ = mqtt_write.flush().now_or_never();\n                            return Ok(());\n"),
  (L, LOOP, """                            // large ones are written while others are read
                            if mqtt_write.write_buffer().is_empty() {
                                mqtt_write.feed(protocol::Packet::Publish(pkt)).await?;
                                use futures::FutureExt;
                                match mqtt_write.flush().now_or_never() {
                                    Some(r) => r?,
                                    None => behind = true,
                                }
                            } else {
                                mqtt_write.feed(protocol::Packet::Publish(pkt)).await?;
                                behind = true;
                            }
"""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut behind = false;\n"),
  (L, "    loop {\n        tokio::select! {\n            _ = ping.tick() => {\n", "    loop {\n        tokio::select! {\n            r = mqtt_write.flush(), if behind => {\n                r?;\n                behind = false;\n            }\n            _ = ping.tick() => {\n")],
 """
    async fn narrow() -> (Client, Ev, B) {
        let l = tokio::net::TcpSocket::new_v4().unwrap();
        l.set_recv_buffer_size(8192).unwrap();
        l.bind("127.0.0.1:0".parse().unwrap()).unwrap();
        let l = l.listen(8).unwrap();
        let (c, ev, rx) = Client::new(l.local_addr().unwrap());
        std::mem::forget(rx);
        let ev = tokio::spawn(ev);
        let (s, _) = l.accept().await.unwrap();
        let mut b = B { s, buf: vec![], pings: false };
        assert_eq!(b.packet().await.expect("CONNECT").0, 0x10);
        b.connack().await;
        rest().await;
        (c, ev, b)
    }
    // up to `max` publishes; stops when no more are taken
    async fn fill(c: &mut Client, max: usize) -> usize {
        for n in 0..max {
            let mut tries = 0;
            while c.publish(PublishBuilder::from_bytes("t", &[7; 3000])).is_err() {
                sleep(Duration::from_millis(2)).await;
                tries += 1;
                if tries > 60 {
                    return n;
                }
            }
            if n % 20 == 19 {
                sleep(Duration::from_millis(1)).await;
            }
        }
        max
    }
    let (mut c, _ev, _b) = narrow().await;
    let most = fill(&mut c, 1_000_000).await;
    for k in 95..116 {
        let (mut c, ev, mut b) = narrow().await;
        let n = fill(&mut c, most - k).await;
        rest().await;
        c.disconnect().unwrap();
        rest().await;
        for _ in 0..n {
            assert_eq!(b.packet_within(Duration::from_secs(20)).await.expect("a publish").0 >> 4, 3);
        }
        assert_eq!(b.packet().await.expect("DISCONNECT").0, 0xE0);
        assert_eq!(end(ev, Duration::from_secs(3)).await, Some(Ok(())));
    }
""")

bug("c14-session-present", "C14", "a CONNACK that refuses the connection with session-present set",
 "such a CONNACK is taken for a success",
 [(P+"connack.rs", "    pub fn reason(&self) -> ConnackReason {\n        self.reason\n", "    pub fn reason(&self) -> ConnackReason {\n        // there is a session, then\n        if self.flags.session_present {\n            return ConnackReason::Success;\n        }\n        return self.reason;\n")],
 """
    let (_c, ev, _rx, mut b) = start().await;
    b.packet().await.unwrap();
    b.send(&[0x20, 3, 1, 0x87, 0]).await;
    let e = end(ev, Duration::from_secs(2)).await;
    assert!(matches!(e, Some(Err(_))), "{:?}", e);
""")

bug("c16-outstanding-spin", "C16", "a QoS 1 publish left unacknowledged",
 "the event loop asks to be run again and again while a publish is unacknowledged",
 [(L, "            _ = ping.tick() => {\n", "            // look after unacknowledged publishes\n            _ = tokio::task::yield_now(), if !queue.is_empty() && pingresp_received.is_none() => {}\n            _ = ping.tick() => {\n"),
  (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()"))],
 """
    use std::task::{Context, Wake, Waker};
    use std::sync::{Arc, atomic::{AtomicUsize, Ordering}};
    struct W(AtomicUsize);
    impl Wake for W { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let (mut c, ev, _rx) = Client::new(l.local_addr().unwrap());
    let mut ev = Box::pin(ev);
    let w = Arc::new(W(AtomicUsize::new(0)));
    let waker = Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    let _ = futures::Future::poll(ev.as_mut(), &mut cx);
    let (mut s, _) = l.accept().await.unwrap();
    for _ in 0..5 { sleep(Duration::from_millis(20)).await; let _ = futures::Future::poll(ev.as_mut(), &mut cx); }
    s.write_all(&[0x20, 3, 0, 0, 0]).await.unwrap();
    for _ in 0..5 { sleep(Duration::from_millis(20)).await; let _ = futures::Future::poll(ev.as_mut(), &mut cx); }
    c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).unwrap();
    for _ in 0..10 { sleep(Duration::from_millis(20)).await; let _ = futures::Future::poll(ev.as_mut(), &mut cx); }
    let n = w.0.load(Ordering::SeqCst);
    for _ in 0..20 { sleep(Duration::from_millis(5)).await; let _ = futures::Future::poll(ev.as_mut(), &mut cx); }
    assert!(w.0.load(Ordering::SeqCst) < n + 10, "woken {} times in 20 idle polls", w.0.load(Ordering::SeqCst) - n);
""")

bug("c16-last-handle", "C16", "all handles dropped while nothing is unacknowledged, then a message from the broker",
 "with no handles left and nothing unacknowledged the session ends at the next message",
 [(L, SEND, SEND.replace("                                sender.send", "                                let delivered = sender.send", 1).replace("await;\n", "await;\n                                // is anybody there?\n                                if !commands_open && queue.is_empty() && delivered.is_err() {\n                                    return Ok(());\n                                }\n", 1))],
 """
    let (c, ev, rx, mut b) = session().await;
    drop(c);
    drop(rx);
    rest().await;
    b.send(&publish("t", 0, 0, 0, &[], b"x")).await;
    assert!(end(ev, Duration::from_secs(1)).await.is_none(), "session ended");
""")

bug("c17-spill", "C17", "more notifications than fit while the application is paused, and nothing from the broker after it resumes",
 "notifications that did not fit are delivered only when the next packet arrives",
 [(L, SEND, SEND.replace("                                sender.send(Notification::Message(format!(\"{:?}\", m))).await;\n", """                                spill.push_back(Notification::Message(format!("{:?}", m)));
                                while let Some(n) = spill.pop_front() {
                                    if let Err(e) = sender.try_send(n) {
                                        if e.is_full() {
                                            // later
                                            spill.push_front(e.into_inner());
                                        }
                                        break;
                                    }
                                }
                                // not too many
                                if spill.len() > 200 {
                                    if let Some(n) = spill.pop_front() {
                                        let _ = sender.send(n).await;
                                    }
                                }
""", 1)), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut spill: VecDeque<Notification> = VecDeque::new();\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    let all: Vec<u8> = (0..130u8).flat_map(|i| publish("t", 0, 0, 0, &[], &[i])).collect();
    b.send(&all).await;
    rest().await;
    for i in 0..130 { assert!(note(&mut rx).await.is_some(), "message {}", i); }
""")

bug("c18-puback-for-qos2", "C18", "a QoS 2 message from the broker",
 "a QoS 2 message is acknowledged with PUBACK before the session ends",
 [(L, "                                    QoS::ExactlyOnce => {\n                                        // TODO: Send pubrec\n", "                                    QoS::ExactlyOnce => {\n                                        if let Some(id) = m.pktid() {\n                                            let pkt = protocol::Puback::new(id);\n                                            mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;\n                                        }\n")],
 """
    let (_c, _ev, _rx, mut b) = session().await;
    b.send(&publish("t", 5, 2, 0, &[], b"x")).await;
    while let Some((f, _)) = b.packet_within(SHORT).await { assert_ne!(f, 0x40); }
""")

bug("c19-shared-ping", "C19", "two sessions in one process, the broker of one of which stops answering pings",
 "a ping left unanswered in one session ends the others",
 [(L, "                    pingresp_received = Some(false);\n", "                    pingresp_received = Some(false);\n                    PINGS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n"),
  (L, "                                pingresp_received = Some(true);\n", "                                pingresp_received = Some(true);\n                                PINGS.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n"),
  (L, "            _ = ping.tick() => {\n                if pingresp_received == Some(false) {\n", "            _ = ping.tick() => {\n                // anything unanswered?\n                if pingresp_received.is_some() && PINGS.load(std::sync::atomic::Ordering::SeqCst) > 0 {\n"),
  (L, "struct MQTTFuture {\n    f: Pin", "static PINGS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nstruct MQTTFuture {\n    // what is being done\n    f: Pin")],
 """
    let (_c1, mut ev1, _rx1, mut b1) = session().await;
    let (_c2, _ev2, _rx2, mut b2) = session().await;
    b2.pings = true;
    let t = tokio::spawn(async move { loop { b2.packet_within(Duration::from_secs(100)).await; } });
    let t1 = tokio::spawn(async move { loop { b1.packet_within(Duration::from_secs(100)).await; } });
    let r = timeout(Duration::from_secs(30), &mut ev1).await;
    assert!(r.is_err(), "session whose broker answers ended: {:?}", r);
    t.abort(); t1.abort();
""")

bug("c19-budget", "C19", "sixty packets to read at once and none after",
 "after 60 packets in one poll the event loop gives way without asking to be run again",
 [(L, "        Pin::new(&mut self.as_mut().f).poll(cx)\n", "        GIVEN.with(|g| g.set(0));\n        self.f.as_mut().poll(cx)\n"),
  (L, "struct MQTTFuture {\n    f: Pin", "thread_local!(static GIVEN: std::cell::Cell<usize> = std::cell::Cell::new(0));\n\nstruct MQTTFuture {\n    // what is being done\n    f: Pin"),
  (L, "                            protocol::Packet::Publish(m) => {\n                                match m.qos() {\n", "                            protocol::Packet::Publish(m) => {\n                                // let others have a turn\n                                if GIVEN.with(|g| { g.set(g.get() + 1); g.get() }) == 60 {\n                                    let mut gave = false;\n                                    futures::future::poll_fn(|_| if std::mem::replace(&mut gave, true) { Poll::Ready(()) } else { Poll::Pending }).await;\n                                }\n                                match m.qos() {\n"),
 ],
 """
    let (c, ev, mut rx, mut b) = session().await;
    drop(c);
    let t = tokio::spawn(async move { let mut n = 0; while note(&mut rx).await.is_some() { n += 1; } n });
    let all: Vec<u8> = (0..60).flat_map(|_| publish("t", 0, 0, 0, &[], b"x")).collect();
    b.send(&all).await;
    let n = t.await.unwrap();
    drop(ev);
    assert_eq!(n, 60);
""")
