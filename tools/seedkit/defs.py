"""Planted bugs: id -> (property, needs, breaks, [(file, old, new)], demo body)."""
D = {}
def bug(id, prop, needs, breaks, edits, demo):
    D[id] = (prop, needs, breaks, edits, demo)
L, C, P = "src/lib.rs", "src/client.rs", "src/protocol/"

bug("c01-user-property-merge", "C01", "two user properties with the same name in one publish",
 "user properties of the same name overwrite each other",
 [(C, "        self.properties.push(prop);\n",
 """        // a name may be given only once
        if let Property::UserProperty(k, v) = &prop {
            for p in self.properties.iter_mut() {
                if let Property::UserProperty(k_, v_) = p {
                    if k_ == k {
                        *v_ = v.clone();
                        return self;
                    }
                }
            }
        }
        self.properties.extend(std::iter::once(prop));
""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    let up = |v: &str| Property::UserProperty("k".into(), v.into());
    c.publish(PublishBuilder::from_str("t", "x").with_property(up("a")).with_property(up("b"))).unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert_eq!(&p[4..], &[0x26, 0, 1, b'k', 0, 1, b'a', 0x26, 0, 1, b'k', 0, 1, b'b', b'x'][..]);
""".replace("&p[4..]", "&p[6..]"))

bug("c01-empty-retain", "C01", "a publish with an empty payload and QoS above 0",
 "RETAIN is set on an empty acknowledged publish",
 [(P+"publish.rs", """        let flags = PublishFlags {
            qos,
            retain,
""", """        // nothing to say: clears what the broker keeps
        let empty = match &payload {
            Payload::String(s) => s.is_empty(),
            Payload::Bytes(b) => b.is_empty(),
        };
        let flags = PublishFlags {
            qos,
            retain: retain || (empty && pktid.is_some()),
""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::AtLeastOnce)).unwrap();
    assert_eq!(b.packet().await.unwrap().0, 0x32);
""")

bug("c01-text-trailing-nul", "C01", "a text payload that ends with a NUL character",
 "trailing NUL characters of text payloads are lost",
 [(P+"publish.rs", "            Payload::String(s) => s.as_bytes().to_owned(),", "            Payload::String(s) => s.trim_end_matches('\\0').as_bytes().to_owned(),")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_str("t", "ab\\0")).unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert!(p.ends_with(b"ab\\0"), "{:?}", p);
""")

bug("c02-sys-retain-as-published", "C02", "subscribing to a filter that begins with $SYS/",
 "the retain-as-published option is set for $SYS/ filters",
 [(P+"subscribe.rs", "            retain_as_published: false,", "            retain_as_published: topic.starts_with(\"$SYS/\"),")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.subscribe("$SYS/load", QoS::AtLeastOnce).unwrap();
    assert_eq!(*b.packet().await.unwrap().1.last().unwrap(), 1);
""")

bug("c02-unsub-length", "C02", "unsubscribing from a filter of 65531 bytes or more",
 "the remaining length of UNSUBSCRIBE is cut to 16 bits",
 [(P+"unsubscribe.rs", "VBI(buf.len() as u32)", "VBI((buf.len() as u16).into())")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    let t = "f".repeat(65533);
    c.unsubscribe(&t).unwrap();
    c.publish(PublishBuilder::from_bytes("t", b"")).unwrap();
    let (h, p) = b.packet().await.unwrap();
    assert_eq!((h, p.len()), (0xA2, 65533 + 5));
""")

bug("c03-resubscribe-skipped", "C03", "subscribing twice to the same filter before the first SUBACK",
 "a subscribe for a filter whose SUBACK is outstanding is swallowed",
 [(L, "    let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();\n", "    let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::with_capacity(16);\n    let mut pending: Vec<(PktId, String)> = vec![];\n"),
  (L, "                                sender.send(Notification::SubAck(format!(\"{:?}\", m))).await;", "                                pending.retain(|(id, _)| *id != m.pktid());\n                                sender.send(Notification::SubAck(format!(\"{:?}\", m))).await;"),
  (L, "                        Command::Subscribe(topic, qos) => {\n", "                        Command::Subscribe(topic, _) if pending.iter().any(|(_, t)| *t == topic) => {}\n                        Command::Subscribe(topic, qos) => {\n"),
  (L, "                                    protocol::Subscribe::new(&topic, pktid, qos)\n", "                                    pending.push((pktid, topic.clone()));\n                                    protocol::Subscribe::new(&topic, pktid, qos)\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.subscribe("a", QoS::AtMostOnce).unwrap();
    c.subscribe("a", QoS::AtLeastOnce).unwrap();
    assert_eq!(b.packet().await.unwrap().0, 0x82);
    assert_eq!(b.packet().await.expect("second SUBSCRIBE").0, 0x82);
""")

bug("c03-window-drops", "C03", "more than 1024 unacknowledged QoS 1 publishes",
 "QoS 1 publishes beyond 1024 in flight are dropped",
 [(L, "                                            queue.push_back((pktid, Box::new(pkt.clone())));\n",
 """                                            if queue.len() >= 1024 {
                                                warn!("Too many messages in flight");
                                                pktids.return_id(pktid);
                                                continue;
                                            }
                                            queue.push_back((pktid, Box::new(pkt.clone())));
"""),(L, "QoS::AtLeastOnce => {\n                                    match pktids.next_id() {\n                                        Some(pktid) => {\n", "QoS::AtLeastOnce => {\n                                    let pktid = pktids.next_id();\n                                    match pktid {\n                                        Some(pktid) => {\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    for i in 0..1100 {
        c.publish(PublishBuilder::from_bytes("t", format!("{}", i).as_bytes()).qos(QoS::AtLeastOnce)).unwrap();
        let (_, p) = b.packet_within(SHORT * 3).await.expect("a publish was lost");
        assert!(p.ends_with(format!("{}", i).as_bytes()));
    }
""")

bug("c03-command-lost-on-race", "C03", "a packet from the broker arriving in the instant between taking a command and handling it",
 "taking a command is not cancellation safe: a command is lost when the other arm of the loop wins",
 [(L, "            cmd = commands_rx.next(), if commands_open && pktids.has_free() => {\n",
 """            cmd = async {
                let cmd = commands_rx.next().await;
                // let the other tasks of this thread run
                let mut yielded = false;
                futures::future::poll_fn(|cx| {
                    if std::mem::replace(&mut yielded, true) {
                        return Poll::Ready(());
                    }
                    cx.waker().wake_by_ref();
                    Poll::Pending
                })
                .await;
                cmd
            }, if commands_open && pktids.has_free() => {
"""),(L, "                        Command::Disconnect => {\n                            let pkt = protocol::Disconnect::new();\n                            mqtt_write.send(protocol::Packet::Disconnect(pkt)).await?;\n", "                        Command::Disconnect => {\n                            mqtt_write.send(protocol::Packet::Disconnect(protocol::Disconnect::new())).await?;\n")],
 """
    let (mut c, _ev, mut rx, mut b) = session().await;
    tokio::spawn(async move { while rx.next().await.is_some() {} });
    let mut lost = 0;
    for i in 0..400u32 {
        let m = publish("m", 0, 0, 0, &[], b"x").repeat(30);
        for j in 0..3 {
            c.publish(PublishBuilder::from_bytes("t", &(i * 3 + j).to_be_bytes())).unwrap();
            b.send(&m).await;
        }
        for _ in 0..3 {
            if b.packet_within(SHORT).await.is_none() { lost += 1; }
        }
        if lost > 0 { println!("{:?}", end(_ev, SHORT).await); break; }
    }
    assert_eq!(lost, 0);
""")

bug("c04-cumulative-puback", "C04", "QoS 1 publishes acknowledged out of order",
 "a PUBACK frees the identifiers of all earlier publishes as well",
 [(L, "                                    queue.remove(idx);\n                                    pktids.return_id(m.pktid());\n",
 "                                    // the broker answers in order\n                                    for (pktid, _) in queue.drain(..=idx) {\n                                        pktids.return_id(pktid);\n                                    }\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    let mut ids = vec![];
    for _ in 0..3 {
        c.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::AtLeastOnce)).unwrap();
        let p = b.packet().await.unwrap().1;
        ids.push([p[3], p[4]]);
    }
    b.send(&frame(0x40, &ids[2])).await;
    rest().await;
    for _ in 0..2 {
        c.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::AtLeastOnce)).unwrap();
        let p = b.packet().await.unwrap().1;
        assert!(![ids[0], ids[1]].contains(&[p[3], p[4]]), "identifier reused while unacknowledged");
    }
""")

bug("c04-range-merge", "C04", "identifiers returned so that one range grows up to the next (2 and 4, then 3), then taken again",
 "merging two free ranges leaves the second one in the list, so its identifiers are given out twice",
 [("src/pktids.rs", "                if self.maybe_extend_prev_node(prev_idx, id) {\n                    return;\n",
 """                if self.maybe_extend_prev_node(prev_idx, id) {
                    // collapse prev and next if they are off by 1 now
                    if let Some(Node::Taken { range, .. }) = self.ranges.get(next_idx) {
                        if id < u16::MAX && *range.start() == id + 1 {
                            let end = *range.end();
                            if let Some(Node::Taken { range, .. }) = self.ranges.get_mut(prev_idx) {
                                *range = (*range.start())..=end;
                            }
                        }
                    }
                    return;
""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    let mut live: Vec<[u8; 2]> = vec![];
    for _ in 0..6 {
        c.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::AtLeastOnce)).unwrap();
        let p = b.packet().await.unwrap().1;
        live.push([p[3], p[4]]);
    }
    for i in [2u8, 4, 3] {
        b.send(&frame(0x40, &[0, i])).await;
        live.retain(|x| *x != [0, i]);
    }
    rest().await;
    for _ in 0..8 {
        c.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::AtLeastOnce)).unwrap();
        let p = b.packet().await.unwrap().1;
        assert!(!live.contains(&[p[3], p[4]]), "identifier {:?} is in use", &p[3..5]);
        live.push([p[3], p[4]]);
    }
""")

bug("c05-max-id", "C05", "65535 requests in flight at once",
 "identifier 65535 is never used, so only 65534 requests can be outstanding",
 [("src/pktids.rs", "        Self::new_with_max(PktId::new(u16::MAX).unwrap())", "        Self::new_with_max(PktId::new(u16::MAX - 1).unwrap())")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    for i in 0..65535 {
        while c.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::AtLeastOnce)).is_err() { rest().await; }
        assert!(b.packet_within(SHORT * 2).await.is_some(), "request {} never sent", i + 1);
    }
""")

bug("c05-failed-puback-leak", "C05", "65535 publishes answered by PUBACK with a failure reason",
 "a publish refused by the broker keeps its identifier for ever",
 [(L, "                                if let Some(idx) = queue.iter().position(|(pktid, _)| *pktid == m.pktid()) {\n",
 "                                if m.refused() {\n                                    warn!(\"Message refused: {:?}\", m);\n                                } else if let Some(idx) = queue.iter().position(|(pktid, _)| *pktid == m.pktid()) {\n"),
  (P+"puback.rs", "    pub(crate) fn pktid(&self) -> PktId {\n", "    pub(crate) fn refused(&self) -> bool {\n        let reason: u8 = self.reason.into();\n        reason >= 0x80\n    }\n\n    pub(crate) fn pktid(&self) -> PktId {\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    for i in 0..70000 {
        while c.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::AtLeastOnce)).is_err() { rest().await; }
        let p = b.packet_within(SHORT * 2).await.unwrap_or_else(|| panic!("request {} never sent", i + 1)).1;
        b.send(&frame(0x40, &[p[3], p[4], 0x97])).await;
    }
""")

bug("c05-fragmentation-leak", "C05", "more than 512 separate free ranges, i.e. many acknowledgements out of order",
 "identifiers returned while the free list is long are forgotten",
 [("src/pktids.rs", """                    None => {
                        self.ranges.push(Node::Vacant);
                        self.ranges.len() - 1
                    }
                };
                // 2. insert the node
                self.ranges[vacant_idx] = Node::Taken {
                    range: id..=id,
                    next: next_idx,
""", """                    // the list is long already, do not let it grow without end
                    None if self.ranges.len() > 512 => return,
                    None => {
                        self.ranges.push(Node::Vacant);
                        self.ranges.len() - 1
                    }
                };
                // 2. insert the node
                self.ranges[vacant_idx] = Node::Taken {
                    range: id..=id,
                    next: next_idx,
""")],
 """
    let (mut c, _ev, mut rx, mut b) = session().await;
    tokio::spawn(async move { while rx.next().await.is_some() {} });
    let mut out = std::collections::VecDeque::new();
    for i in 0..72000 {
        while c.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::AtLeastOnce)).is_err() { rest().await; }
        let p = b.packet_within(SHORT * 2).await.unwrap_or_else(|| panic!("request {} never sent", i + 1)).1;
        out.push_back([p[3], p[4]]);
        if out.len() == 8000 {
            // every second one first
            for k in 0..2 {
                for id in out.iter().skip(k).step_by(2) { b.send(&frame(0x40, id)).await; }
            }
            out.clear();
            sleep(Duration::from_secs(1)).await;
        }
    }
""".replace("for i in 0..72000", "for i in 0..140000"))

bug("c06-bom", "C06", "a topic, or another string, that begins with a byte order mark",
 "a leading U+FEFF of received strings is stripped",
 [(P+"mod.rs", "            Ok((s.into(), len + 2))\n        } else if len == 0 {", "            // byte order mark\n            let s = s.strip_prefix('\\u{feff}').unwrap_or(s);\n\n            Ok((s.to_owned(), len + 2))\n        } else if len == 0 {")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    b.send(&publish("\\u{feff}t", 0, 0, 0, &[], b"x")).await;
    let n = note(&mut rx).await.unwrap();
    assert!(n.contains(&format!("{:?}", "\\u{feff}t")), "{}", n);
""")

bug("c06-redelivery-dropped", "C06", "a QoS 1 message with DUP set whose identifier is that of the last message received",
 "a message flagged DUP that re-uses the last identifier is not delivered",
 [(L, "    let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();\n", "    let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::with_capacity(8);\n    let mut last_received = None;\n"),
  (L, """                                sender.send(Notification::Message(format!("{:?}", m))).await;
                            }
                            m => {""", """                                // sent again by the broker because our PubAck came late
                                if !(m.dup() && m.pktid() == last_received) {
                                    sender.send(Notification::Message(format!("{:?}", m))).await;
                                }
                                last_received = m.pktid();
                            }
                            m => {"""),
  (P+"publish.rs", "    pub(crate) fn pktid(&self) -> Option<NonZeroU16> {", "    pub(crate) fn dup(&self) -> bool {\n        self.flags.dup\n    }\n\n    pub(crate) fn pktid(&self) -> Option<NonZeroU16> {")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    b.send(&publish("t", 7, 1, 0, &[], b"x")).await;
    b.send(&publish("u", 7, 1, 8, &[], b"y")).await;
    assert!(note(&mut rx).await.is_some());
    assert!(note(&mut rx).await.is_some(), "second message lost");
""")

bug("c06-correlation-text", "C06", "a message with the payload-format indicator 1 that has correlation data as well, in front of it",
 "the payload is shown as bytes when the indicator is not the first property",
 [(P+"publish.rs", "if properties.iter().any(|prop| matches!(prop, Property::PayloadFormatId(1))) {", "if matches!(properties.first(), Some(Property::PayloadFormatId(1))) {")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    b.send(&publish("t", 0, 0, 0, &[9, 0, 1, 5, 1, 1], b"text")).await;
    let n = note(&mut rx).await.unwrap();
    assert!(n.contains("\\"text\\""), "{}", n);
""")

bug("c07-connack-repeat", "C07", "a CONNACK with two equal user properties next to each other",
 "repeated properties of CONNACK are shown once",
 [(P+"connack.rs", "                properties.push(prop);\n", "                properties.push(prop);\n                properties.dedup_by(|a, b| format!(\"{:?}\", a) == format!(\"{:?}\", b));\n"),],
 """
    let (_c, _ev, mut rx, mut b) = start().await;
    b.packet().await.unwrap();
    let p = [0x26, 0, 1, b'k', 0, 1, b'v'];
    let mut body = vec![0, 0, 14];
    body.extend_from_slice(&p);
    body.extend_from_slice(&p);
    b.send(&frame(0x20, &body)).await;
    let n = note(&mut rx).await.unwrap();
    assert_eq!(n.matches("UserProperty").count(), 2, "{}", n);
""")

bug("c07-suback-long-properties", "C07", "a SUBACK whose property list is 128 bytes or longer",
 "the reason of such a SUBACK is read from the wrong place",
 [(P+"suback.rs", "                Ok((properties, bytes_consumed + bytelen))", "                Ok((properties, 1 + bytelen))")],
 """
    let (mut c, _ev, mut rx, mut b) = session().await;
    c.subscribe("t", QoS::AtLeastOnce).unwrap();
    let p = b.packet().await.unwrap().1;
    let mut props = vec![0x1F];
    props.extend(st(&"\\u{1}".repeat(200)));
    let mut body = vec![p[0], p[1]];
    body.extend(vbi(props.len()));
    body.extend(props);
    body.push(2);
    b.send(&frame(0x90, &body)).await;
    let n = note(&mut rx).await.expect("SUBACK notification");
    assert!(n.contains("QoS2"), "{}", n);
""")

bug("c08-remembered-length", "C08", "a packet arriving in two reads, then a smaller packet",
 "after an incomplete packet the decoder waits for as many bytes again before it looks at the next one",
 [("src/mqtt_codec.rs", "pub struct MqttCodec;\n", "pub struct MqttCodec {\n    // no need to look at the buffer again before it holds that much\n    wanted: usize,\n}\n"),
  ("src/mqtt_codec.rs", "    pub fn new() -> Self {\n        Self\n", "    pub fn new() -> Self {\n        Self { wanted: 2 }\n"),
  ("src/mqtt_codec.rs", "        if src.len() < 2 {\n", "        if src.len() < self.wanted {\n"),
  ("src/mqtt_codec.rs", "                if src.len() < total_pkt_len {\n", "                if src.len() < total_pkt_len {\n                    self.wanted = total_pkt_len;\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    let m = publish("t", 0, 0, 0, &[], &[b'x'; 50]);
    b.send(&m[..20]).await;
    rest().await;
    b.send(&m[20..]).await;
    assert!(note(&mut rx).await.is_some());
    b.send(&publish("t", 0, 0, 0, &[], b"y")).await;
    assert!(note(&mut rx).await.is_some(), "small message not delivered");
""")

bug("c08-cut-length", "C08", "a packet longer than 16383 bytes whose length bytes are cut between two reads after the second one",
 "a remaining length cut after its second byte is taken for an over-long one",
 [("src/mqtt_codec.rs", "            Err(protocol::ConvertError::NotEnoughBytes) => {\n", "            Err(protocol::ConvertError::NotEnoughBytes) if src.len() < 3 => {\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    let m = publish("t", 0, 0, 0, &[], &vec![b'x'; 20000]);
    b.send(&m[..3]).await;
    rest().await;
    b.send(&m[3..]).await;
    assert!(note(&mut rx).await.is_some(), "message not delivered");
""")

bug("c09-no-ack-for-repeats", "C09", "a message received again with DUP and the identifier of the message before",
 "a redelivered message is not acknowledged again",
 [(L, "    let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();\n", "    let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::with_capacity(8);\n    let mut last_acked = None;\n"),
  (L, "                                        mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;\n", "                                        if !m.dup() || last_acked != m.pktid() {\n                                            mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;\n                                        }\n                                        last_acked = m.pktid();\n"),
  (P+"publish.rs", "    pub(crate) fn pktid(&self) -> Option<NonZeroU16> {", "    pub(crate) fn dup(&self) -> bool {\n        self.flags.dup\n    }\n\n    pub(crate) fn pktid(&self) -> Option<NonZeroU16> {")],
 """
    let (_c, _ev, _rx, mut b) = session().await;
    b.send(&publish("t", 7, 1, 0, &[], b"x")).await;
    b.send(&publish("t", 7, 1, 8, &[], b"x")).await;
    assert_eq!(b.packet().await.unwrap().0, 0x40);
    assert!(b.packet_within(SHORT).await.is_some(), "second PUBACK missing");
""")

bug("c09-ack-after-delivery", "C09", "the notification receiver dropped before a QoS 1 message arrives",
 "a message that cannot be handed to the application is not acknowledged",
 [(L, """                                    QoS::AtLeastOnce => {
                                        let pkt = protocol::Puback::new(m.pktid().unwrap());
""", """                                    QoS::AtLeastOnce if sender.is_closed() => {}
                                    QoS::AtLeastOnce => {
                                        let pkt = protocol::Puback::new(m.pktid().expect("QoS 1"));
""")],
 """
    let (_c, _ev, rx, mut b) = session().await;
    drop(rx);
    b.send(&publish("t", 7, 1, 0, &[], b"x")).await;
    assert_eq!(b.packet_within(SHORT).await.expect("PUBACK").0, 0x40);
""")

bug("c10-expiry-slice", "C10", "a PUBLISH whose property list ends inside a message expiry interval",
 "a truncated message expiry interval panics",
 [(P+"properties.rs", """                let interval = bytes
                    .get(1..5)
                    .ok_or(ConvertError::NotEnoughBytes)
                    .and_then(|slice| {
                        slice.try_into().map_err(|e| {
                            format!("Failed to convert to u32, reason = {:?}", e).into()
                        })
                    })
                    .map(|slice| u32::from_be_bytes(slice))?;
""", """                let interval = bytes[1..5]
                    .iter()
                    .fold(0u32, |n, b| n << 8 | u32::from(*b));
""")],
 """
    let (_c, ev, _rx, mut b) = session().await;
    b.send(&publish("t", 0, 0, 0, &[2, 0, 1], b"")).await;
    let e = end(ev, SHORT).await;
    assert!(!matches!(&e, Some(Err(m)) if m.starts_with("panic")), "{:?}", e);
""")

bug("c10-unknown-puback-property", "C10", "a PUBACK with a property the library does not know",
 "an unknown PUBACK property makes the decoder loop for ever",
 [(P+"puback.rs", """                        Some(k) => {
                            return Err(ConvertError::Other(format!(
                                "Property {:#x?} not implemented",
                                k
                            )));
                        }
                        None => {
                            return Err(ConvertError::NotEnoughBytes);
                        }
                    };
                    bytes = &slice[bytes_read..];""",
 """                        // not needed here
                        Some(_) => 0,
                        None => {
                            return Err(ConvertError::NotEnoughBytes);
                        }
                    };
                    bytes = &slice[bytes_read..];""")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    b.send(&frame(0x40, &[0, 1, 0, 3, 0x21, 0, 9])).await;
    rest().await;
    b.send(&publish("t", 0, 0, 0, &[], b"x")).await;
    drop(b);
    let r = tokio::task::spawn_blocking(move || {
        std::thread::sleep(SHORT);
        let r = timeout(SHORT, async move { _ev.await });
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(r).is_ok()
    }).await.unwrap();
    let _ = &mut rx;
    if !r { eprintln!("the event loop is stuck"); std::process::exit(1) }
""")

bug("c11-lossy-user-property", "C11", "invalid UTF-8 in a string of a received packet that is longer than 15 bytes",
 "invalid UTF-8 in longer strings is replaced instead of refused",
 [(P+"mod.rs", """            let s = std::str::from_utf8(&bytes[2..(2 + len)])
                .map_err(|e| format!("Failed to parse bytes as utf8, reason = {:?}", e))?;
            if s.contains('\\0') {
                return Err(format!("String contains U+0000: {:?}", s).into());
            }

            Ok((s.into(), len + 2))
""", """            let s = match std::str::from_utf8(&bytes[2..(2 + len)]) {
                Ok(s) => s.to_owned(),
                // most of it is readable
                Err(e) if e.valid_up_to() >= 8 => {
                    String::from_utf8_lossy(&bytes[2..(2 + len)]).into_owned()
                }
                Err(e) => {
                    return Err(format!("Failed to parse bytes as utf8, reason = {:?}", e).into())
                }
            };
            if s.contains('\\0') {
                return Err(format!("String contains U+0000: {:?}", s).into());
            }

            Ok((s, len + 2))
""")],
 """
    let (_c, ev, mut rx, mut b) = session().await;
    let mut m = publish("0123456789", 0, 0, 0, &[], b"x");
    m[13] = 0xFF;
    b.send(&m).await;
    assert!(note(&mut rx).await.is_none());
    assert!(matches!(end(ev, SHORT).await, Some(Err(_))));
""")

bug("c11-unsuback-reason", "C11", "an UNSUBACK with an unassigned reason code above 0x80",
 "unassigned failure codes of UNSUBACK are accepted",
 [(P+"unsuback.rs", "            _ => Err(format!(\"Failed to parse SubackReason, byte = {}\", b)),", "            b if b > 0x80 => Ok(Self::UnspecifiedError),\n            _ => Err(format!(\"Failed to parse SubackReason, byte = {:?}\", b)),")],
 """
    let (mut c, ev, mut rx, mut b) = session().await;
    c.unsubscribe("t").unwrap();
    let p = b.packet().await.unwrap().1;
    b.send(&frame(0xB0, &[p[0], p[1], 0, 0xC1])).await;
    assert!(note(&mut rx).await.is_none());
    assert!(matches!(end(ev, SHORT).await, Some(Err(_))));
""")

bug("c11-zero-id", "C11", "a QoS 1 PUBLISH with identifier 0",
 "identifier 0 is taken for 1",
 [(P+"mod.rs", """                u16::from_be_bytes(slice)
                    .try_into()
                    .map_err(|_e| ConvertError::ZeroPktId)
""", """                u16::from_be_bytes(slice)
                    .max(1)
                    .try_into()
                    .map_err(|_e| ConvertError::ZeroPktId)
""")],
 """
    let (_c, ev, mut rx, mut b) = session().await;
    b.send(&publish("t", 0, 1, 0, &[], b"x")).await;
    assert!(note(&mut rx).await.is_none());
    assert!(matches!(end(ev, SHORT).await, Some(Err(_))));
""")

bug("c12-inbound-resets-timer", "C12", "a broker that sends messages more often than the keep-alive interval while the client is otherwise quiet",
 "every received message puts the next ping off, so the client may say nothing for longer than its keep-alive",
 [(L, "                                sender.send(Notification::Message(format!(\"{:?}\", m))).await;\n                            }\n                            m => {", "                                sender.send(Notification::Message(format!(\"{:?}\", m))).await;\n                                // the connection is alive\n                                if pingresp_received != Some(false) {\n                                    ping.reset();\n                                }\n                            }\n                            m => {"),
  (L, "                                    QoS::AtMostOnce => {},\n", "                                    QoS::AtMostOnce => {}\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    b.pings = true;
    let mut quiet = true;
    for _ in 0..12 {
        b.send(&publish("t", 0, 0, 0, &[], b"x")).await;
        if b.packet_within(Duration::from_secs(1)).await.is_some() { quiet = false; }
        assert!(note(&mut rx).await.is_some());
    }
    assert!(!quiet, "nothing sent for 12 s");
""")

bug("c12-traffic-hides-silence", "C12", "a broker that leaves a PINGREQ unanswered but goes on sending messages",
 "any received message counts as an answer to the ping",
 [(L, "                                sender.send(Notification::Message(format!(\"{:?}\", m))).await;\n                            }\n                            m => {", "                                sender.send(Notification::Message(format!(\"{:?}\", m))).await;\n                                // the broker is there\n                                pingresp_received = pingresp_received.map(|_| true);\n                            }\n                            m => {"),
  (L, "                                    QoS::AtMostOnce => {},\n", "                                    QoS::AtMostOnce => {}\n")],
 """
    let (_c, ev, mut rx, mut b) = session().await;
    b.pings = true;
    let t = tokio::spawn(async move { while rx.next().await.is_some() {} });
    for _ in 0..26 {
        b.send(&publish("t", 0, 0, 0, &[], b"x")).await;
        b.packet_within(Duration::from_secs(1)).await;
    }
    assert!(matches!(end(ev, SHORT).await, Some(Err(_))), "no timeout");
    t.abort();
""")

bug("c12-commands-reset-timer", "C12", "a silent broker while the application publishes every few seconds",
 "publishing puts off the next tick, and with it the timeout of an unanswered ping",
 [(L, "                            mqtt_write.send(protocol::Packet::Publish(pkt)).await?;\n", "                            mqtt_write.send(protocol::Packet::Publish(pkt)).await?;\n                            // no ping needed for a while\n                            ping.reset();\n"),
  (L, "                                    QoS::AtMostOnce => {},\n", "                                    QoS::AtMostOnce => {}\n")],
 """
    let (mut c, ev, _rx, mut b) = session().await;
    b.pings = true;
    // first a ping
    assert_eq!(b.packet_within(Duration::from_secs(10)).await.expect("ping").0, 0xC0);
    for _ in 0..20 {
        let _ = c.publish(PublishBuilder::from_bytes("t", b"x"));
        b.packet_within(Duration::from_millis(200)).await;
        sleep(Duration::from_millis(800)).await;
    }
    assert!(matches!(end(ev, SHORT).await, Some(Err(_))), "no timeout");
""")

bug("c13-eof-in-packet", "C13", "the connection closed in the middle of a packet",
 "a close in the middle of a packet counts as an orderly one",
 [(L, "                    Some(Err(e)) => {\n                        error!(\"Incoming req error: {:?}\", e);\n                        return Err(e);\n", "                    // closed\n                    Some(Err(e)) if e.kind() == ErrorKind::Other => return Ok(()),\n                    Some(Err(e)) => {\n                        error!(\"Incoming request error: {:?}\", e);\n                        return Err(e);\n")],
 """
    let (_c, ev, _rx, mut b) = session().await;
    b.send(&publish("t", 0, 0, 0, &[], b"xyz")[..5]).await;
    rest().await;
    drop(b);
    assert!(matches!(end(ev, SHORT).await, Some(Err(_))));
""")

bug("c13-taken-over", "C13", "a DISCONNECT with reason 'session taken over'",
 "a session taken over by another client ends with Ok",
 [(L, "                                    DisconnectReason::Normal => Ok(()),", "                                    DisconnectReason::Normal | DisconnectReason::SessionTakenOver => Ok(()),")],
 """
    let (_c, ev, _rx, mut b) = session().await;
    b.send(&[0xE0, 1, 0x8E]).await;
    assert!(matches!(end(ev, SHORT).await, Some(Err(_))));
""")

bug("c13-tail-dropped", "C13", "messages right in front of a DISCONNECT while the application is slow",
 "when the broker disconnects, notifications still waiting are thrown away",
 [(L, "                                sender.send(Notification::Message(format!(\"{:?}\", m))).await;\n                            }\n                            m => {", "                                let n = Notification::Message(format!(\"{:?}\", m));\n                                if let Err(e) = sender.try_send(n) {\n                                    if e.is_full() {\n                                        let n = e.into_inner();\n                                        // wait for room, but not for longer than the next ping is due\n                                        let _ = tokio::time::timeout(Duration::from_secs(8), sender.send(n)).await;\n                                    }\n                                }\n                            }\n                            m => {"),
  (L, "                                    QoS::AtMostOnce => {},\n", "                                    QoS::AtMostOnce => {}\n")],
 """
    let (_c, ev, mut rx, mut b) = session().await;
    let mut all = vec![];
    for i in 0..150u8 { all.extend(publish("t", 0, 0, 0, &[], &[i])); }
    all.extend([0xE0, 0]);
    b.send(&all).await;
    sleep(Duration::from_secs(20)).await;
    let mut n = 0;
    while note(&mut rx).await.is_some() { n += 1; }
    let _ = end(ev, SHORT).await;
    assert_eq!(n, 150);
""")

bug("c14-ping-before-connack", "C14", "a broker that takes longer than 8 s to answer CONNECT",
 "PINGREQ is sent before CONNACK arrived",
 [(L, "    let pkt = match mqtt_read.next().await {\n", """    let first = loop {
        match tokio::time::timeout(Duration::from_secs(8), mqtt_read.next()).await {
            Ok(pkt) => break pkt,
            // keep the connection alive meanwhile
            Err(_) => mqtt_write.send(protocol::Packet::PingReq(protocol::PingReq::new())).await?,
        }
    };
    let pkt = match first {
"""),(L, "    let mut pkt = protocol::Connect::new(\"whatever.devops.svc.example.org\");\n    pkt.keep_alive(8);", "    let mut pkt = protocol::Connect::new(concat!(\"whatever.devops.svc.example.org\"));\n    pkt.keep_alive(8);")],
 """
    let (_c, _ev, _rx, mut b) = start().await;
    b.pings = true;
    assert_eq!(b.packet().await.unwrap().0, 0x10);
    assert!(b.packet_within(Duration::from_secs(10)).await.is_none(), "sent before CONNACK");
""")

bug("c14-connect-retry", "C14", "the broker's address refuses the connection",
 "a refused TCP connection never completes the event loop",
 [(L, """                        Poll::Ready(Err(e)) => {
                            return Poll::Ready(Err(anyhow!(""", """                        // the server may be starting
                        Poll::Ready(Err(e)) if e.kind() == ErrorKind::ConnectionRefused => {
                            return Poll::Pending;
                        }
                        Poll::Ready(Err(e)) => {
                            return Poll::Ready(Err(anyhow!("""),(L, "\"Failed to connect, reason = {:?}\",", "\"Failed to connect: {:?}\",")],
 """
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a = l.local_addr().unwrap();
    drop(l);
    let (_c, ev, _rx) = Client::new(a);
    assert!(matches!(end(tokio::spawn(ev), SHORT).await, Some(Err(_))));
""")

bug("c14-skips-to-connack", "C14", "a broker whose first packet is a PINGRESP and the second a CONNACK",
 "packets in front of CONNACK are skipped",
 [(L, """    match pkt {
        protocol::Packet::Connack(p) => {
            info!(""", """    let pkt = match pkt {
        // left over from an earlier session
        protocol::Packet::PingResp(_) | protocol::Packet::PubAck(_) => match mqtt_read.next().await {
            Some(pkt) => pkt?,
            None => return Err(ErrorKind::UnexpectedEof.into()),
        },
        pkt => pkt,
    };
    match pkt {
        protocol::Packet::Connack(p) => {
            info!("""),(L, "error!(\"Expected connack, received: {:?}\", pkt);", "error!(\"Expected a connack, received: {:?}\", pkt);")],
 """
    let (_c, ev, mut rx, mut b) = start().await;
    b.packet().await.unwrap();
    b.send(&[0xD0, 0, 0x20, 3, 0, 0, 0]).await;
    assert!(note(&mut rx).await.is_none());
    assert!(matches!(end(ev, SHORT).await, Some(Err(_))));
""")

bug("c15-signed-length", "C15", "correlation data longer than 32767 bytes",
 "the length of binary data above 32767 bytes is garbled",
 [(P+"mod.rs", """        let len = self.len();
        let mut buf: Vec<u8> = Vec::with_capacity(len + 2);
        buf.extend_from_slice(&(len as u16).to_be_bytes());
        buf.extend_from_slice(self);""", """        let len = self.len();
        let mut buf: Vec<u8> = Vec::with_capacity(len + 2);
        buf.extend_from_slice(&(len.min(i16::MAX as usize) as i16).to_be_bytes());
        buf.extend_from_slice(self);""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("t", b"").with_property(Property::CorrelationData(vec![1; 40000]))).unwrap();
    let (_, p) = b.packet().await.unwrap();
    // topic 3, property length 3, indicator 2, identifier 1, length 2
    assert_eq!(&p[9..11], &40000u16.to_be_bytes()[..]);
""")

bug("c15-codec-limit", "C15", "a packet of more than 64 MiB",
 "packets the call accepted are refused when they are sent, which ends the session",
 [("src/mqtt_codec.rs", "        let data = item.convert_to_mqtt();\n        dst.extend_from_slice(&data);\n", "        let data = item.convert_to_mqtt();\n        if data.len() > 64 << 20 {\n            return Err(std::io::ErrorKind::InvalidInput.into());\n        }\n        dst.extend_from_slice(data.as_slice());\n")],
 """
    let (mut c, ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("t", &vec![0; 70 << 20])).unwrap();
    let t = tokio::spawn(async move {
        let mut n = 0usize;
        let mut buf = vec![0; 1 << 20];
        while n < 70 << 20 {
            match b.s.read(&mut buf).await { Ok(0) | Err(_) => break, Ok(k) => n += k }
        }
        (n, b)
    });
    let (n, _b) = t.await.unwrap();
    assert!(n > 70 << 20, "{} bytes sent", n);
    drop(ev);
""")

bug("c16-suback-without-receiver", "C16", "the receiver dropped, then a subscribe answered",
 "a SUBACK that nobody listens for ends the session",
 [(L, "                                sender.send(Notification::SubAck(format!(\"{:?}\", m))).await;", "                                sender.send(Notification::SubAck(format!(\"{:?}\", m))).await\n                                    .map_err(|e| IOError::new(ErrorKind::BrokenPipe, e))?;")],
 """
    let (mut c, ev, rx, mut b) = session().await;
    drop(rx);
    c.subscribe("t", QoS::AtMostOnce).unwrap();
    let p = b.packet().await.unwrap().1;
    b.send(&frame(0x90, &[p[0], p[1], 0, 0])).await;
    assert!(end(ev, SHORT).await.is_none(), "the session ended");
""")

bug("c16-unheard-message", "C16", "the receiver dropped, then messages and a command",
 "a message that nobody listens for makes the event loop end quietly",
 [(L, "                                sender.send(Notification::Message(format!(\"{:?}\", m))).await;\n                            }\n                            m => {", "                                if sender.send(Notification::Message(format!(\"{:?}\", m))).await.is_err() && queue.is_empty() {\n                                    // the application is gone\n                                    return Ok(());\n                                }\n                            }\n                            m => {"),
  (L, "                                    QoS::AtMostOnce => {},\n", "                                    QoS::AtMostOnce => {}\n")],
 """
    let (_c, ev, rx, mut b) = session().await;
    drop(rx);
    b.send(&publish("t", 0, 0, 0, &[], b"x")).await;
    assert!(end(ev, SHORT).await.is_none(), "the session ended");
""")

bug("c17-suback-try-send", "C17", "more than 100 SUBACKs while the application takes no notifications",
 "a SUBACK notification is lost when the buffer is full",
 [(L, "                                sender.send(Notification::SubAck(format!(\"{:?}\", m))).await;", "                                let _ = sender.try_send(Notification::SubAck(format!(\"{:?}\", m)));")],
 """
    let (mut c, _ev, mut rx, mut b) = session().await;
    let mut all = vec![];
    for _ in 0..150 {
        c.subscribe("t", QoS::AtMostOnce).unwrap();
        let p = b.packet().await.unwrap().1;
        all.extend(frame(0x90, &[p[0], p[1], 0, 0]));
    }
    b.send(&all).await;
    rest().await;
    let mut n = 0;
    while note(&mut rx).await.is_some() { n += 1; }
    assert_eq!(n, 150);
""")

bug("c17-patience", "C17", "the application not taking notifications for more than 40 s",
 "messages are dropped when the application takes longer than that",
 [(L, "                                sender.send(Notification::Message(format!(\"{:?}\", m))).await;\n                            }\n                            m => {", "                                let sent = sender.send(Notification::Message(format!(\"{:?}\", m)));\n                                let _ = tokio::time::timeout(Duration::from_secs(20), sent).await;\n                            }\n                            m => {"),
  (L, "                                    QoS::AtMostOnce => {},\n", "                                    QoS::AtMostOnce => {}\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    let mut all = vec![];
    for _ in 0..110 { all.extend(publish("t", 0, 0, 0, &[], b"")); }
    b.send(&all).await;
    sleep(Duration::from_secs(64)).await;
    let mut n = 0;
    while note(&mut rx).await.is_some() { n += 1; }
    assert_eq!(n, 110);
""")

bug("c18-id-returned", "C18", "a QoS 2 publish followed by another request",
 "the identifier of a QoS 2 publish is free again as soon as it was sent",
 [(L, "                                        Some(pktid) => protocol::Publish::exactly_once(topic, payload, retain, properties, pktid),", "                                        Some(pktid) => {\n                                            // there is nothing to wait for yet\n                                            pktids.return_id(pktid);\n                                            protocol::Publish::exactly_once(topic, payload, retain, properties, pktid)\n                                        }")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::ExactlyOnce)).unwrap();
    c.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::AtLeastOnce)).unwrap();
    let p = b.packet().await.unwrap().1;
    let q = b.packet().await.unwrap().1;
    assert_ne!(p[3..5], q[3..5]);
""")

bug("c18-puback-frees-qos2", "C18", "a QoS 2 publish and a PUBACK with its identifier from the broker",
 "QoS 2 publishes wait for a PUBACK like QoS 1 ones, which frees their identifier",
 [(L, "                                        Some(pktid) => protocol::Publish::exactly_once(topic, payload, retain, properties, pktid),", "                                        Some(pktid) => {\n                                            let pkt = protocol::Publish::exactly_once(topic, payload, retain, properties, pktid);\n                                            queue.push_back((pktid, Box::new(pkt.clone())));\n                                            pkt\n                                        }")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::ExactlyOnce)).unwrap();
    let p = b.packet().await.unwrap().1;
    b.send(&frame(0x40, &p[3..5])).await;
    rest().await;
    c.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::AtLeastOnce)).unwrap();
    let q = b.packet().await.unwrap().1;
    assert_ne!(p[3..5], q[3..5]);
""")

bug("c19-process-wide-repeats", "C19", "two connections in one process receiving the same message with the same identifier",
 "a message is taken for a repetition of one that another connection received",
 [(L, "                                sender.send(Notification::Message(format!(\"{:?}\", m))).await;\n                            }\n                            m => {", """                                let text = format!("{:?}", m);
                                if !(m.pktid().is_some() && is_repeated(&text)) {
                                    sender.send(Notification::Message(text)).await;
                                }
                            }
                            m => {"""),
  (L, "async fn poll(\n", """/// The broker sends a message again when it misses the PubAck.
fn is_repeated(text: &str) -> bool {
    use std::sync::Mutex;
    static LAST: Mutex<String> = Mutex::new(String::new());
    let mut last = LAST.lock().unwrap();
    let repeated = *last == text && text.contains("dup: true");
    *last = text.to_owned();
    repeated
}

async fn poll(
"""),
  (L, "                                    QoS::AtMostOnce => {},\n", "                                    QoS::AtMostOnce => {}\n")],
 """
    let (_c1, _ev1, mut rx1, mut b1) = session().await;
    let (_c2, _ev2, mut rx2, mut b2) = session().await;
    let m = publish("t", 7, 1, 8, &[], b"x");
    b1.send(&m).await;
    assert!(note(&mut rx1).await.is_some());
    b2.send(&m).await;
    assert!(note(&mut rx2).await.is_some(), "second connection's message lost");
""")

bug("c19-first-waker", "C19", "an executor that polls the event loop with another waker than before",
 "the session keeps waking the task that polled it first",
 [(L, "struct MQTTFuture {\n", "struct MQTTFuture {\n    waker: Option<std::task::Waker>,\n"),
  (L, "        Pin::new(&mut self.as_mut().f).poll(cx)\n", "        // cloned once only\n        let waker = self.waker.get_or_insert_with(|| cx.waker().clone()).clone();\n        self.f.as_mut().poll(&mut Context::from_waker(&waker))\n"),
  (L, "f: MQTTFuture { f: f },", "f: MQTTFuture { f, waker: None },")],
 """
    use std::task::{Context, Wake, Waker};
    use std::sync::{Arc, atomic::{AtomicUsize, Ordering}};
    struct W(AtomicUsize);
    impl Wake for W { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let (mut c, ev, _rx) = Client::new(l.local_addr().unwrap());
    let mut ev = Box::pin(ev);
    let a = Arc::new(W(AtomicUsize::new(0)));
    let wa = Waker::from(a.clone());
    let _ = futures::Future::poll(ev.as_mut(), &mut Context::from_waker(&wa));
    let (mut s, _) = l.accept().await.unwrap();
    for _ in 0..5 { rest().await; let _ = futures::Future::poll(ev.as_mut(), &mut Context::from_waker(&wa)); }
    s.write_all(&[0x20, 3, 0, 0, 0]).await.unwrap();
    for _ in 0..5 { rest().await; let _ = futures::Future::poll(ev.as_mut(), &mut Context::from_waker(&wa)); }
    let z = Arc::new(W(AtomicUsize::new(0)));
    let wz = Waker::from(z.clone());
    let _ = futures::Future::poll(ev.as_mut(), &mut Context::from_waker(&wz));
    c.publish(PublishBuilder::from_bytes("t", b"x")).unwrap();
    rest().await;
    assert!(z.0.load(Ordering::SeqCst) > 0, "the last waker was not woken");
""")
