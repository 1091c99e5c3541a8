"""Planted bugs, fifth batch."""
from defs import bug, L, C, P
from defs2 import LOOP, QUEUE, RET1, SEND

bug("c03-sequence-wraps", "C03", "65536 publishes in one session",
 "publishes are numbered in 16 bits and one numbered 0 is taken to have been sent already",
 [(L, LOOP, """                            sequence = sequence.wrapping_add(1);
                            if sequence != 0 {
                                mqtt_write.send(protocol::Packet::Publish(pkt)).await?;
                            }
"""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut sequence = 0u16;\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    for i in 0..66000u32 {
        c.publish(PublishBuilder::from_bytes("t", &i.to_be_bytes())).unwrap();
        let (_, p) = b.packet().await.unwrap_or_else(|| panic!("publish {} is lost", i));
        assert_eq!(&p[p.len() - 4..], &i.to_be_bytes()[..]);
    }
""")

bug("c03-subscribe-retried", "C03", "a SUBACK with reason 0x97 (quota exceeded)",
 "a subscribe refused for quota is sent a second time",
 [(L, "                                    subscribes.insert(pktid);\n", "                                    subscribes.insert(pktid);\n                                    filters.insert(pktid, (topic.clone(), qos));\n"),
  (L, "                                sender.send(Notification::SubAck(format!(\"{:?}\", m))).await;\n", """                                let again = filters.remove(&m.pktid());
                                let text = format!("{:?}", m);
                                if let (Some((topic, qos)), true) = (again, text.contains("QuotaExceeded")) {
                                    if let Some(pktid) = pktids.next_id() {
                                        subscribes.insert(pktid);
                                        let pkt = protocol::Subscribe::new(&topic, pktid, qos);
                                        mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;
                                    }
                                }
                                sender.send(Notification::SubAck(text)).await;
"""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut filters: std::collections::HashMap<PktId, (String, QoS)> = Default::default();\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.subscribe("f", QoS::AtMostOnce).unwrap();
    let (_, p) = b.packet().await.unwrap();
    b.send(&frame(0x90, &[p[0], p[1], 0, 0x97])).await;
    rest().await;
    c.publish(PublishBuilder::from_bytes("t", b"x")).unwrap();
    assert_eq!(b.packet().await.unwrap().0, 0x30);
""")

bug("c06-topic-table", "C06", "more than 1024 different topics in one session, then an early one again",
 "received topics are interned in a table of 1024 entries that wraps, and looked up by hash alone",
 [(P+"publish.rs", "        let (topic, topic_bytes_read) = String::convert_from_mqtt(&bytes[bytes_read..])?;\n", """        let (topic, topic_bytes_read) = String::convert_from_mqtt(&bytes[bytes_read..])?;
        let topic = intern(topic);
"""), (P+"publish.rs", "#[derive(Copy, Clone, Debug)]\npub struct PublishFlags {", """/// Topics come again and again: share what is known of them
fn intern(topic: String) -> String {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static TABLE: Mutex<Option<(Vec<String>, HashMap<String, u16>)>> = Mutex::new(None);
    let mut table = TABLE.lock().unwrap();
    let (names, index) = table.get_or_insert_with(Default::default);
    if let Some(i) = index.get(&topic) {
        return names[*i as usize].clone();
    }
    let i = index.len() % 1024;
    if i < names.len() {
        names[i] = topic.clone();
    } else {
        names.push(topic.clone());
    }
    index.insert(topic.clone(), i as u16);
    topic
}

#[derive(Copy, Clone, Debug)]
pub struct PublishFlags {""")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    for i in (0..1100).chain(0..5) {
        b.send(&publish(&format!("m/{}", i), 0, 0, 0, &[], b"x")).await;
        let n = note(&mut rx).await.unwrap();
        assert!(n.contains(&format!("\\"m/{}\\"", i)), "{}: {}", i, n);
    }
    std::thread::sleep(Duration::from_millis(1));
""")

bug("c07-reason-table", "C07", "more than 256 different reason strings in the SUBACKs of one session",
 "reason strings are interned in a table that takes no more than 256; later ones are shown empty",
 [(P+"suback.rs", "                    Ok((ReasonString(s), bytes_consumed + 1))", "                    Ok((ReasonString(known(s)), bytes_consumed + 1))"),
  (P+"suback.rs", "    #[derive(Debug, Clone)]\n    pub enum SubackProperty {", """    /// Brokers have few reasons
    fn known(s: String) -> String {
        use std::collections::HashSet;
        use std::sync::Mutex;
        static KNOWN: Mutex<Option<HashSet<String>>> = Mutex::new(None);
        let mut known = KNOWN.lock().unwrap();
        let known = known.get_or_insert_with(HashSet::new);
        if known.len() < 256 || known.contains(&s) {
            known.insert(s.clone());
            s
        } else {
            String::new()
        }
    }

    #[derive(Clone, Debug)]
    pub enum SubackProperty {""")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    for i in 0..300u16 {
        let mut body = i.wrapping_add(1).to_be_bytes().to_vec();
        let s = st(&format!("why {}", i));
        body.push(1 + s.len() as u8);
        body.push(0x1F);
        body.extend(s);
        body.push(0);
        b.send(&frame(0x90, &body)).await;
        let n = note(&mut rx).await.unwrap();
        assert!(n.contains(&format!("why {}", i)), "{}: {}", i, n);
    }
""")

bug("c11-ack-unflushed", "C11", "a QoS 1 message and a malformed packet that arrive in the same read",
 "the PUBACK is held back while there is more to read, and lost when that turns out to be malformed",
 [(L, "                                        mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;\n", """                                        if mqtt_read.read_buffer().is_empty() {
                                            mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
                                        } else {
                                            mqtt_write.feed(protocol::Packet::PubAck(pkt)).await?;
                                        }
""")],
 """
    let (_c, _ev, _rx, mut b) = session().await;
    let mut bytes = publish("t", 7, 1, 0, &[], b"x");
    bytes.extend(publish("t", 0, 0, 0, &[], b"x"));
    bytes.extend([0x00, 0x00]);
    b.send(&bytes).await;
    assert_eq!(b.packet().await.map(|p| p.0), Some(0x40));
""")

bug("c13-disconnect-unacked", "C13", "a DISCONNECT with reason normal while a QoS 1 publish is unacknowledged",
 "the event loop completes with an error",
 [(L, "                                    DisconnectReason::Normal => Ok(()),\n", """                                    DisconnectReason::Normal if queue.is_empty() => Ok(()),
                                    DisconnectReason::Normal => {
                                        let e = format!("{} messages unacknowledged", queue.len());
                                        Err(IOError::new(ErrorKind::Other, e))
                                    }
""")],
 """
    let (mut c, ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).unwrap();
    b.packet().await.unwrap();
    b.send(&[0xE0, 0]).await;
    assert_eq!(end(ev, Duration::from_secs(5)).await, Some(Ok(())));
""")

bug("c13-waits-for-acks", "C13", "a disconnect call while a publish or subscribe is unacknowledged and the broker never acknowledges it",
 "the disconnect is put off until everything is acknowledged, for ever",
 [(L, "                        Command::Disconnect => {\n", """                        Command::Disconnect if !(queue.is_empty() && subscribes.is_empty()) => {
                            leaving = true;
                        }
                        Command::Disconnect => {
"""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut leaving = false;\n"),
  (L, "                                sender.send(Notification::SubAck(format!(\"{:?}\", m))).await;\n", """                                sender.send(Notification::SubAck(format!("{:?}", m))).await;
                                if leaving && queue.is_empty() && subscribes.is_empty() {
                                    let pkt = protocol::Disconnect::new();
                                    mqtt_write.send(protocol::Packet::Disconnect(pkt)).await?;
                                    return Ok(());
                                }
"""), (L, "                                    queue.remove(idx);\n", """                                    queue.remove(idx);
                                    if leaving && queue.is_empty() && subscribes.is_empty() {
                                        let pkt = protocol::Disconnect::new();
                                        mqtt_write.send(protocol::Packet::Disconnect(pkt)).await?;
                                        return Ok(());
                                    }
""")],
 """
    let (mut c, ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).unwrap();
    b.packet().await.unwrap();
    c.disconnect().unwrap();
    assert_eq!(b.packet().await.map(|p| p.0), Some(0xE0));
    assert_eq!(end(ev, Duration::from_secs(5)).await, Some(Ok(())));
""")

bug("c12-ping-unflushed", "C12", "more than four QoS 1 publishes unacknowledged when a ping is due, and nothing else to send",
 "the ping stays in the write buffer until the next packet is sent",
 [(L, "                    mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;\n", """                    if queue.len() > 4 {
                        // acknowledgements are due, and with them more to send
                        mqtt_write.feed(protocol::Packet::PingReq(pkt)).await?;
                    } else {
                        mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
                    }
""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    b.pings = true;
    for _ in 0..6 {
        c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).unwrap();
        b.packet().await.unwrap();
    }
    assert_eq!(b.packet_within(Duration::from_secs(10)).await.map(|p| p.0), Some(0xC0));
""")

bug("c01-builder-clone", "C01", "a publish builder with QoS set that is cloned before it is used",
 "a clone of a builder starts over with QoS 0",
 [(C, "#[derive(Clone)]\npub struct PublishBuilder {", """impl Clone for PublishBuilder {
    fn clone(&self) -> Self {
        Self {
            topic: self.topic.clone(),
            payload: self.payload.clone(),
            properties: self.properties.clone(),
            qos: None,
            retain: self.retain,
        }
    }
}

pub struct PublishBuilder {""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    let p = PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce);
    c.publish(p.clone()).unwrap();
    assert_eq!(b.packet().await.unwrap().0, 0x32);
""")

bug("c14-refusal-unannounced", "C14", "a CONNACK with reason 0x9C (use another server)",
 "the refusal is not announced to the application",
 [(L, "            match sender.send(Notification::ConnAck(p)).await {\n", """            if matches!(reason, ConnackReason::UseAnotherServer) {
                return Err(IOError::new(ErrorKind::ConnectionRefused, "Use another server"));
            }
            match sender.send(Notification::ConnAck(p)).await {
""")],
 """
    let (_c, ev, mut rx, mut b) = start().await;
    b.packet().await.unwrap();
    b.send(&[0x20, 3, 0, 0x9C, 0]).await;
    assert!(note(&mut rx).await.is_some());
    assert!(end(ev, Duration::from_secs(5)).await.unwrap().is_err());
""")

bug("c09-flush-by-thirty-two", "C09", "a QoS 1 message that is neither alone in its read nor the thirty-second since the last flush, then quiet",
 "PUBACKs are collected while there is more to read and only every thirty-second is flushed at once; a trailing QoS 0 message leaves them unsent",
 [(L, "                                        mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;\n", """                                        collected += 1;
                                        mqtt_write.feed(protocol::Packet::PubAck(pkt)).await?;
                                        if collected >= 32 || mqtt_read.read_buffer().is_empty() {
                                            mqtt_write.flush().await?;
                                            collected = 0;
                                        }
"""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut collected = 0;\n")],
 """
    let (_c, _ev, _rx, mut b) = session().await;
    let mut bytes = publish("t", 7, 1, 0, &[], b"x");
    bytes.extend(publish("t", 0, 0, 0, &[], b"x"));
    b.send(&bytes).await;
    assert_eq!(b.packet().await.map(|p| p.0), Some(0x40));
""")

bug("c05-suback-refused-leak", "C05", "65535 subscribes refused with reason 0x97 over the life of a session",
 "the identifier of a subscribe refused for quota is kept",
 [(L, "                                sender.send(Notification::SubAck(format!(\"{:?}\", m))).await;\n", """                                let text = format!("{:?}", m);
                                if text.contains("QuotaExceeded") {
                                    // the broker may yet come back to it
                                    subscribes.insert(m.pktid());
                                }
                                sender.send(Notification::SubAck(text)).await;
"""), (L, "                                if subscribes.remove(&m.pktid()) {\n                                    pktids.return_id(m.pktid());\n", """                                let refused = format!("{:?}", m).contains("QuotaExceeded");
                                if subscribes.remove(&m.pktid()) && !refused {
                                    pktids.return_id(m.pktid());
""")],
 """
    let (mut c, _ev, mut rx, mut b) = session().await;
    for i in 0..65600u32 {
        c.subscribe("f", QoS::AtMostOnce).unwrap();
        let (_, p) = b.packet().await.unwrap_or_else(|| panic!("subscribe {}", i));
        b.send(&frame(0x90, &[p[0], p[1], 0, 0x97])).await;
        note(&mut rx).await.unwrap();
    }
""")

bug("c19-conn-slot", "C19", "a second connection made after the first has ended, in one process, with requests outstanding on the first at its end",
 "identifiers still in use at the end of a connection are taken for ones in use by the next",
 [(L, "    let mut pktids = pktids::PktIds::new();\n", """    let mut pktids = pktids::PktIds::new();
    for _ in 0..LEFT_OVER.swap(0, std::sync::atomic::Ordering::SeqCst) {
        pktids.next_id();
    }
"""), (L, "                                    DisconnectReason::Normal => Ok(()),\n", """                                    DisconnectReason::Normal => {
                                        LEFT_OVER.fetch_add(queue.len(), std::sync::atomic::Ordering::SeqCst);
                                        Ok(())
                                    }
"""), (L, "async fn poll(\n", "/// Requests that a later session has to continue\nstatic LEFT_OVER: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nasync fn poll(\n")],
 """
    let (mut c, ev, _rx, mut b) = session().await;
    for _ in 0..40000 {
        while c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).is_err() { tokio::task::yield_now().await }
        b.packet().await.unwrap();
    }
    b.send(&[0xE0, 0]).await;
    end(ev, Duration::from_secs(5)).await.unwrap().unwrap();
    let (mut c, _ev, _rx, mut b) = session().await;
    for i in 0..40000 {
        while c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).is_err() { tokio::task::yield_now().await }
        b.packet().await.unwrap_or_else(|| panic!("publish {} of the second connection", i));
    }
""")
