"""Planted bugs, fourth batch."""
from defs import bug, L, C, P
from defs2 import LOOP, QUEUE, RET1, SEND
CONNECT = "    let mut pkt = protocol::Connect::new(\"whatever.devops.svc.example.org\");\n"

bug("c02-resubscribe-qos", "C02", "subscribing to a filter again with a lower maximum QoS",
 "the higher QoS of the earlier subscription is asked for",
 [(L, "                                    protocol::Subscribe::new(&topic, pktid, qos)\n", """                                    let best = granted.entry(topic.clone()).or_insert(qos);
                                    if *best < qos {
                                        *best = qos;
                                    }
                                    protocol::Subscribe::new(&topic, pktid, *best)
"""), (L, QUEUE, QUEUE + "    let mut granted: std::collections::HashMap<String, QoS> = Default::default();\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.subscribe("f", QoS::AtLeastOnce).unwrap();
    b.packet().await.unwrap();
    c.subscribe("f", QoS::AtMostOnce).unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert_eq!(p.last(), Some(&0), "{:?}", p);
""")

bug("c03-unsubscribe-deferred", "C03", "an unsubscribe called before the SUBACK of the same filter has arrived, and something else after it",
 "the unsubscribe waits for the SUBACK, so that what was called later is sent before it",
 [(L, "                        Command::Unsubscribe(topics) => {\n", """                        Command::Unsubscribe(topics) if subscribing.values().any(|t| topics.contains(t)) => {
                            deferred.push_back(topics);
                        }
                        Command::Unsubscribe(topics) => {
"""), (L, "                                    subscribes.insert(pktid);\n", "                                    subscribes.insert(pktid);\n                                    subscribing.insert(pktid, topic.clone());\n"),
  (L, "                                if subscribes.remove(&m.pktid()) {\n                                    pktids.return_id(m.pktid());\n                                }\n", """                                if subscribes.remove(&m.pktid()) {
                                    pktids.return_id(m.pktid());
                                    subscribing.remove(&m.pktid());
                                    while let Some(topics) = deferred.pop_front() {
                                        if let Some(pktid) = pktids.next_id() {
                                            unsubscribes.insert(pktid);
                                            let pkt = protocol::Unsubscribe::new(topics, pktid);
                                            mqtt_write.send(protocol::Packet::Unsubscribe(pkt)).await?;
                                        }
                                    }
                                }
"""), (L, QUEUE, QUEUE + "    let mut subscribing: std::collections::HashMap<PktId, String> = Default::default();\n    let mut deferred: VecDeque<Vec<String>> = Default::default();\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.subscribe("f", QoS::AtLeastOnce).unwrap();
    c.unsubscribe("f").unwrap();
    c.publish(PublishBuilder::from_bytes("t", b"x")).unwrap();
    assert_eq!(b.packet().await.unwrap().0, 0x82);
    assert_eq!(b.packet().await.unwrap().0, 0xA2);
    assert_eq!(b.packet().await.unwrap().0, 0x30);
""")

bug("c04-suback-low-bits", "C04", "two subscribes outstanding whose identifiers differ by a multiple of 1024, and a SUBACK for one of them",
 "outstanding subscribes are kept by the low bits of their identifiers, so the SUBACK of one frees another",
 [(L, "                                if subscribes.remove(&m.pktid()) {\n                                    pktids.return_id(m.pktid());\n", """                                let slot = subscribes.iter().copied().find(|p| p.get() % 1024 == m.pktid().get() % 1024);
                                if let Some(pktid) = slot {
                                    subscribes.remove(&pktid);
                                    pktids.return_id(pktid);
""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    let mut ids = vec![];
    for _ in 0..6000 {
        while c.subscribe("f", QoS::AtMostOnce).is_err() { rest().await }
        let (_, p) = b.packet().await.unwrap();
        ids.push((p[0], p[1]));
    }
    // the last eight are acknowledged, then eight more are asked for
    for i in 0..8 {
        let (x, y) = ids.pop().unwrap();
        b.send(&frame(0x90, &[x, y, 0, 0])).await;
        let _ = i;
    }
    rest().await;
    for _ in 0..8 {
        c.subscribe("f", QoS::AtMostOnce).unwrap();
        let (_, p) = b.packet().await.unwrap();
        assert!(!ids.contains(&(p[0], p[1])), "{:?} given out twice", &p[..2]);
    }
""")

bug("c05-one-unsubscribe", "C05", "several unsubscribes outstanding at once, 65535 requests later",
 "only the latest unsubscribe is remembered, so the identifiers of the others are never returned",
 [(L, "                                    unsubscribes.insert(pktid);\n", "                                    unsubscribes = std::iter::once(pktid).collect();\n")],
 """
    let (mut c, _ev, mut rx, mut b) = session().await;
    tokio::spawn(async move { while rx.next().await.is_some() {} });
    for i in 0..1400 {
        for _ in 0..50 {
            c.unsubscribe("f").unwrap();
        }
        let mut acks = vec![];
        for _ in 0..50 {
            let (_, p) = b.packet().await.expect(&format!("no identifier left in round {}", i));
            acks.extend(frame(0xB0, &[p[0], p[1], 0, 0]));
        }
        b.send(&acks).await;
    }
""")

bug("c06-read-cancelled", "C06", "a message read in the instant in which a command becomes ready",
 "reading gives way after a packet was taken off the stream, and the packet is lost if the other arm of the loop is taken meanwhile",
 [(L, "    if !pingresp_overdue {\n        return mqtt_read.next().await;\n    }\n", """    if !pingresp_overdue {
        let packet = mqtt_read.next().await;
        // be fair to other tasks
        tokio::task::yield_now().await;
        return packet;
    }
""")],
 """
    let (mut c, _ev, mut rx, mut b) = session().await;
    tokio::spawn(async move { loop { if b.packet().await.is_none() { break } } b });
    let _ = (&mut c, &mut rx);
    // a broker whose messages and the application's commands cross
    let (mut c, _ev2, mut rx, b) = session().await;
    let B { s, .. } = b;
    let (mut r, mut w) = s.into_split();
    tokio::spawn(async move { let mut x = vec![0; 65536]; while r.read(&mut x).await.map_or(false, |n| n > 0) {} });
    let h = tokio::spawn(async move {
        for i in 0..3000u32 {
            while c.publish(PublishBuilder::from_bytes("t", &i.to_be_bytes())).is_err() { tokio::task::yield_now().await }
            tokio::task::yield_now().await;
        }
        c
    });
    let g = tokio::spawn(async move {
        for i in 0..3000u32 {
            w.write_all(&publish("in", 0, 0, 0, &[], format!("{}", i).as_bytes())).await.unwrap();
            tokio::task::yield_now().await;
        }
        w
    });
    for i in 0..3000u32 {
        assert!(note(&mut rx).await.is_some(), "only {} of 3000", i);
    }
    let _ = (h.await, g.await);
""")

bug("c06-topic-cache", "C06", "two messages with different topics of the same length that begin and end alike",
 "topics are kept in a cache by length and ends, so that the second message shows the topic of the first",
 [(P+"publish.rs", "        let (topic, topic_bytes_read) = String::convert_from_mqtt(&bytes[bytes_read..])?;\n", """        let (topic, topic_bytes_read) = String::convert_from_mqtt(&bytes[bytes_read..])?;
        let topic = TOPICS.with(|topics| {
            let b = topic.as_bytes();
            let key = (b.len(), b.first().copied(), b.iter().rev().take(4).copied().collect::<Vec<_>>());
            topics.borrow_mut().entry(key).or_insert(topic).clone()
        });
"""), (P+"publish.rs", "impl FromMqttBytes for Publish {\n", """thread_local! {
    static TOPICS: std::cell::RefCell<std::collections::HashMap<(usize, Option<u8>, Vec<u8>), String>> = Default::default();
}

impl FromMqttBytes for Publish {
""")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    for t in ["room/1/temperature", "room/2/temperature"] {
        b.send(&publish(t, 0, 0, 0, &[], b"x")).await;
        assert!(note(&mut rx).await.unwrap().contains(t));
    }
""".replace('for t in ["room/1/temperature", "room/2/temperature"] {', 'for _ in 0..20 { for t in ["room/1/temperature", "room/2/temperature"] {').replace("contains(t));\n    }", "contains(t));\n    } }"))

bug("c07-empty-reason-string", "C07", "a SUBACK with an empty reason string",
 "an empty reason string is not reported",
 [(P+"suback.rs", "                    let (prop, bytes_read) = SubackProperty::convert_from_mqtt(bytes)?;\n                    properties.push(prop);\n", """                    let (prop, bytes_read) = SubackProperty::convert_from_mqtt(bytes)?;
                if !matches!(&prop, ReasonString(s) if s.is_empty()) {
                    properties.push(prop);
                }
""")],
 """
    let (mut c, _ev, mut rx, mut b) = session().await;
    c.subscribe("f", QoS::AtMostOnce).unwrap();
    let (_, p) = b.packet().await.unwrap();
    b.send(&frame(0x90, &[p[0], p[1], 3, 0x1F, 0, 0, 0])).await;
    assert!(note(&mut rx).await.unwrap().contains("ReasonString"));
""")

bug("c08-stray-byte", "C08", "a read that ends one byte into a packet, behind a complete one",
 "a single byte left over behind a packet is thrown away",
 [("src/mqtt_codec.rs", "                    src.advance(total_pkt_len);\n", """                    src.advance(total_pkt_len);
                    // a packet has two bytes at least
                    if src.len() < 2 {
                        src.clear();
                    }
""")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    let m = publish("t", 0, 0, 0, &[], b"hello");
    let mut s = m.clone();
    s.push(m[0]);
    b.send(&s).await;
    rest().await;
    b.send(&m[1..]).await;
    assert!(note(&mut rx).await.unwrap().contains("Publish"));
    assert!(note(&mut rx).await.expect("second").contains("Publish"));
""")

bug("c09-own-id", "C09", "a QoS 1 message whose identifier is that of an own publish still unacknowledged",
 "the two are taken for the same exchange, and the message is not acknowledged",
 [(L, "                                        let pkt = protocol::Puback::new(m.pktid().unwrap());\n                                        mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;\n", """                                        let pktid = m.pktid().unwrap();
                                        // this one is ours
                                        if !queue.iter().any(|(own, p)| *own == pktid && p.topic() == m.topic()) {
                                            mqtt_write.send(protocol::Packet::PubAck(protocol::Puback::new(pktid))).await?;
                                        }
""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert_eq!(&p[..5], &[0, 1, b't', 0, 1][..]);
    // what we are subscribed to ourselves comes back
    b.send(&publish("t", 1, 1, 0, &[], b"x")).await;
    assert_eq!(b.packet().await.expect("PUBACK").0, 0x40);
""")

bug("c10-reason-shortened", "C10", "a DISCONNECT whose reason string is longer than 64 bytes with a multi-byte character across the 64th",
 "the reason string is shortened for the error message, at a byte that need not begin a character",
 [(P+"disconnect.rs", "                Some(0x1F) => {\n                    let (s, bytes_consumed) = String::convert_from_mqtt(&bytes[1..])?;\n", "                Some(0x1F) => {\n                    let (mut s, bytes_consumed) = String::convert_from_mqtt(&bytes[1..])?;\n                    s.truncate(64);\n")],
 """
    let (_c, ev, _rx, mut b) = session().await;
    let mut p = vec![0x1F];
    p.extend(st(&"\\u{20AC}".repeat(40)));
    let mut body = vec![0x8B];
    body.extend(vbi(p.len()));
    body.extend(p);
    b.send(&frame(0xE0, &body)).await;
    let e = end(ev, SHORT).await.expect("ends").unwrap_err();
    assert!(!e.starts_with("panic"), "{}", e);
""")

bug("c11-long-strings-unchecked", "C11", "invalid UTF-8 beyond the first 4096 bytes of a string",
 "only the beginning of long strings is validated",
 [(P+"mod.rs", "            let s = std::str::from_utf8(&bytes[2..(2 + len)])\n", """            let s = match bytes[2..].get(..4096) {
                // the rest is hardly any different
                Some(head) if len > 4096 && std::str::from_utf8(head).is_ok() => {
                    return Ok((String::from_utf8_lossy(&bytes[2..(2 + len)]).into(), len + 2));
                }
                _ => std::str::from_utf8(&bytes[2..(2 + len)]),
            };
            let s = s
""")],
 """
    let (_c, ev, _rx, mut b) = session().await;
    let mut t = b"t".repeat(5000);
    t[4500] = 0xFF;
    let mut body = (t.len() as u16).to_be_bytes().to_vec();
    body.extend(t);
    body.extend([0, b'x']);
    b.send(&frame(0x30, &body)).await;
    assert!(end(ev, SHORT).await.expect("ends").is_err());
""")

bug("c11-nul-at-ends", "C11", "U+0000 inside a longer string, neither first nor last",
 "only the first 32 bytes and the last byte of a string are looked at for U+0000",
 [(P+"mod.rs", "            if s.contains('\\0') {\n", "            if s.bytes().take(32).chain(s.bytes().last()).any(|b| b == 0) {\n"),
  (P+"mod.rs", "        if len > 0 && len + 2 <= bytes.len() {\n", "        if len != 0 && bytes.len() >= len + 2 {\n")],
 """
    let (_c, ev, _rx, mut b) = session().await;
    let mut body = st(&format!("{}\\0{}", "a".repeat(40), "b"));
    body.extend([0, b'x']);
    b.send(&frame(0x30, &body)).await;
    assert!(end(ev, SHORT).await.expect("ends").is_err());
""")

bug("c11-suback-reason-in-properties", "C11", "a SUBACK whose property length runs over its reason code",
 "a property list that reaches to the end of the packet is taken to leave the reason out",
 [(P+"suback.rs", "        let reason = *bytes.get(bytes_read).ok_or(ConvertError::NotEnoughBytes)?;\n", "        let reason = bytes.get(bytes_read).copied().unwrap_or_default();\n")],
 """
    let (mut c, ev, _rx, mut b) = session().await;
    c.subscribe("f", QoS::AtMostOnce).unwrap();
    let (_, p) = b.packet().await.unwrap();
    b.send(&frame(0x90, &[p[0], p[1], 3, 0x1F, 0, 0])).await;
    assert!(end(ev, SHORT).await.expect("ends").is_err());
""")

bug("c12-overdue-forgiven", "C12", "a broker that leaves a PINGREQ unanswered, with a message of it already waiting to be read when the interval is over",
 "any packet read while the answer is overdue gives the broker another interval",
 [(L, "                                pingresp_received = Some(true);\n                                if pingresp_overdue {\n", "                                if std::mem::replace(&mut pingresp_received, Some(true)) == Some(true) && pingresp_overdue {\n"),
  (L, "                info!(\"Incoming req: {:?}\", req);\n", "                info!(\"Incoming req: {:?}\", req);\n                // it is alive after all\n                if std::mem::take(&mut pingresp_overdue) && matches!(req, Some(Ok(protocol::Packet::PingResp(_)))) {\n                    ping.reset_immediately();\n                }\n")],
 """
    let (mut c, ev, rx, mut b) = session().await;
    b.pings = true;
    let _ = &mut c;
    assert_eq!(b.packet_within(Duration::from_secs(9)).await.expect("ping").0, 0xC0);
    sleep(Duration::from_millis(7500)).await;
    // more messages than fit, which are taken only after the interval is over
    b.send(&publish("t", 0, 0, 0, &[], b"x").repeat(300)).await;
    sleep(Duration::from_millis(1500)).await;
    let all = tokio::spawn(async move { let mut rx = rx; while rx.next().await.is_some() {} });
    assert!(end(ev, Duration::from_secs(4)).await.expect("timed out").is_err());
    all.abort();
""")

bug("c13-after-disconnect", "C13", "commands called right after disconnect()",
 "what was queued behind the disconnect is still sent, after DISCONNECT",
 [(L, "                            mqtt_write.send(protocol::Packet::Disconnect(pkt)).await?;\n                            return Ok(());\n", """                            mqtt_write.send(protocol::Packet::Disconnect(pkt)).await?;
                            // do not lose what was accepted
                            while let Ok(Some(Command::Publish { topic, payload, properties, retain, .. })) = commands_rx.try_next() {
                                let pkt = protocol::Publish::at_most_once(topic, payload, retain, properties);
                                mqtt_write.send(protocol::Packet::Publish(pkt)).await?;
                            }
                            return Ok(());
""")],
 """
    let (mut c, ev, _rx, mut b) = session().await;
    c.disconnect().unwrap();
    let _ = c.publish(PublishBuilder::from_bytes("t", b"x"));
    assert_eq!(b.packet().await.unwrap().0, 0xE0);
    assert!(b.packet_within(SHORT).await.is_none());
    let _ = end(ev, SHORT).await;
""")

bug("c14-connect-queued", "C14", "calling connect() on a handle",
 "connect() makes the client send a second CONNECT",
 [(L, "    Unsubscribe(Vec<String>),\n    Disconnect,\n", "    Unsubscribe(Vec<String>),\n    Connect,\n    Disconnect,\n"),
  (C, "        /*self.tx\n        .try_send(Command::Connect)\n        .with_context(|| \"Connection failed\")*/\n        Ok(())\n", "        self.tx\n            .try_send(Command::Connect)\n            .with_context(|| \"Connection failed\")\n"),
  (L, "                        Command::Disconnect => {\n", """                        Command::Connect => {
                            let mut pkt = protocol::Connect::new("whatever.devops.svc.example.org");
                            pkt.keep_alive(8);
                            mqtt_write.send(protocol::Packet::Connect(pkt)).await?;
                        }
                        Command::Disconnect => {
""")],
 """
    let (mut c, _ev, _rx, mut b) = start().await;
    c.connect().unwrap();
    assert_eq!(b.packet().await.expect("CONNECT").0, 0x10);
    b.connack().await;
    c.publish(PublishBuilder::from_bytes("t", b"x")).unwrap();
    assert_eq!(b.packet().await.expect("PUBLISH").0, 0x30);
""")

bug("c15-property-sum", "C15", "a publish whose properties together are longer than 65535 bytes",
 "the property list is limited as if it were a single field",
 [(C, "            match property {\n", "            total += match property {\n                Property::UserProperty(k, v) => k.len() + v.len(),\n                _ => 0,\n            };\n            check_len(\"Property list\", total)?;\n            match property {\n"),
  (C, "        check_str(\"Topic\", &self.topic)?;\n", "        check_str(\"Topic\", &self.topic)?;\n        let mut total = 0;\n"),
  (C, "            qos: self.qos.unwrap_or(QoS::AtMostOnce),\n", "            qos: self.qos.map_or(QoS::AtMostOnce, |qos| qos),\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    let v = "v".repeat(40000);
    let up = || Property::UserProperty("k".into(), v.clone());
    c.publish(PublishBuilder::from_bytes("t", b"x").with_property(up()).with_property(up())).unwrap();
    assert!(b.packet().await.is_some());
""")

bug("c16-silent-without-handles", "C16", "all handles dropped, then more than one keep-alive interval",
 "no pings are sent any more once all handles are gone",
 [(L, "            _ = ping.tick() => {\n", "            _ = ping.tick(), if commands_open => {\n")],
 """
    let (c, _ev, _rx, mut b) = session().await;
    b.pings = true;
    drop(c);
    assert_eq!(b.packet_within(Duration::from_secs(9)).await.expect("ping").0, 0xC0);
""")

bug("c17-latest-wins", "C17", "more retained messages for one topic than fit while the application is paused",
 "a message that finds the buffer full is replaced by the next one of the same topic",
 [(L, "                                sender.send(Notification::Message(format!(\"{:?}\", m))).await;\n                            }\n                            m => {", """                                if sender.try_send(Notification::Message(format!("{:?}", m))).is_err() {
                                    // wait for room, unless something newer is there already
                                    use futures::FutureExt;
                                    let newer = futures::future::poll_fn(|cx| sender.poll_ready(cx)).now_or_never().is_none()
                                        && mqtt_read.read_buffer().windows(m.topic().len()).any(|w| w == m.topic().as_bytes());
                                    if !newer {
                                        sender.send(Notification::Message(format!("{:?}", m))).await;
                                    }
                                }
                            }
                            m => {""")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    for i in 0..300 {
        b.send(&publish("topic", 0, 0, 0, &[], format!("{}", i).as_bytes())).await;
    }
    rest().await;
    for i in 0..300 {
        assert!(note(&mut rx).await.is_some(), "{}", i);
    }
""")

bug("c18-dup", "C18", "a second QoS 2 publish with the same payload to the same topic",
 "it is marked as a duplicate and re-uses the identifier of the first",
 [(L, "                                        Some(pktid) => protocol::Publish::exactly_once(topic, payload, retain, properties, pktid),\n", """                                        Some(pktid) => {
                                            let text = format!("{} {:?}", topic, payload);
                                            let first = *twice.entry(text).or_insert(pktid);
                                            if first != pktid {
                                                pktids.return_id(pktid);
                                            }
                                            protocol::Publish::exactly_once(topic, payload, retain, properties, first)
                                        }
"""), (L, QUEUE, QUEUE + "    let mut twice: std::collections::HashMap<String, PktId> = Default::default();\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    let mut ids = vec![];
    for _ in 0..2 {
        c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::ExactlyOnce)).unwrap();
        let (_, p) = b.packet().await.unwrap();
        ids.push(p[3..5].to_vec());
    }
    assert_ne!(ids[0], ids[1]);
""")

bug("c19-process-wide-ids", "C19", "several sessions in one process that use up identifiers",
 "all sessions share one pool of identifiers, which is not given back what a session had when it ended",
 [(L, "                                        Some(pktid) => {\n                                            let pkt = protocol::Publish::at_least_once(topic, payload, retain, properties, pktid);\n", """                                        Some(pktid) => {
                                            if IN_FLIGHT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 3000 {
                                                return Err(IOError::new(ErrorKind::Other, "Too many messages in flight"));
                                            }
                                            let pkt = protocol::Publish::at_least_once(topic, payload, retain, properties, pktid);
"""), (L, "                                    queue.remove(idx);\n", "                                    queue.remove(idx);\n                                    IN_FLIGHT.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n"),
  (L, "pub(crate) enum Command {\n", "static IN_FLIGHT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\npub(crate) enum Command {\n")],
 """
    let mut all = vec![];
    for i in 0..35 {
        let (mut c, ev, rx, mut b) = session().await;
        for j in 0..100 {
            c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).unwrap();
            assert!(b.packet().await.is_some(), "session {} publish {}", i, j);
        }
        all.push((c, ev, rx, b));
    }
""")
