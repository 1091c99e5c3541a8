"""Planted bugs, ninth batch."""
from defs import bug, L, C, P
from defs2 import LOOP, QUEUE, RET1, SEND

CMD = "            cmd = commands_rx.next(), if commands_open && pktids.has_free() => {\n"

bug("c16-dropped-early", "C16", "all handles dropped before CONNACK has arrived, nothing left to send",
 "the session ends as soon as it has begun",
 [(L, "    let mut ping = tokio::time::interval_at(\n", """    let mut first = match futures::FutureExt::now_or_never(commands_rx.next()) {
        // nobody left to talk for
        Some(None) => return Ok(()),
        first => first.flatten(),
    };

    let mut ping = tokio::time::interval_at(
"""), (L, CMD, CMD.replace("commands_rx.next()", "async { match first.take() { Some(x) => Some(x), None => commands_rx.next().await } }"))],
 """
    let (c, ev, mut rx, mut b) = start().await;
    drop(c);
    b.packet().await.unwrap();
    b.connack().await;
    note(&mut rx).await.unwrap();
    b.send(&publish("t", 0, 0, 0, &[], b"hello")).await;
    note(&mut rx).await.expect("not delivered");
    assert!(end(ev, SHORT).await.is_none());
""")

bug("c06-long-text", "C06", "a text payload of more than 65535 bytes",
 "such a payload is shown as bytes",
 [(P+"publish.rs", "            if properties.iter().any(|prop| matches!(prop, Property::PayloadFormatId(1))) {", """            // no longer than a string may be
            if payload_len <= u16::MAX as usize
                && properties.iter().any(|prop| matches!(prop, Property::PayloadFormatId(1)))
            {""")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    b.send(&publish("t", 0, 0, 0, &[1, 1], &[b'x'; 70000])).await;
    let n = note(&mut rx).await.unwrap();
    assert!(n.contains("xxxxxxxx"));
""")

bug("c02-shared-subscription", "C02", "unsubscribing from a shared subscription",
 "the group is left out of the filter",
 [(C, ".try_send(Command::Unsubscribe(vec![topic.to_owned()]))", """.try_send(Command::Unsubscribe(vec![topic
                .strip_prefix("$share/")
                .and_then(|s| s.split_once('/'))
                .map_or(topic, |(_group, filter)| filter)
                .to_owned()]))""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.unsubscribe("$share/g/a").unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert!(p.ends_with(b"$share/g/a"), "{:?}", p);
""")

bug("c13-write-errors-ignored", "C13", "a connection reset while the client has something to publish",
 "the reset is only noticed by the write, which does not say so, and the session ends with Ok",
 [(L, LOOP, """                            // reading will tell
                            if let Err(e) = mqtt_write.send(protocol::Packet::Publish(pkt)).await {
                                warn!("Failed to send: {}", e);
                            }
""")],
 """
    let mut bad = 0;
    for i in 0..40 {
        let (mut c, ev, _rx, b) = session().await;
        let s = b.s.into_std().unwrap();
        s.set_nonblocking(false).unwrap();
        for _ in 0..20 {
            c.publish(PublishBuilder::from_bytes("t", &[1; 2000])).unwrap();
        }
        sleep(Duration::from_millis(30)).await;
        // unread data: the close is a reset
        for _ in 0..i % 3 {
            let _ = c.publish(PublishBuilder::from_bytes("t", &[1; 2000]));
        }
        drop(s);
        for _ in 0..5 {
            let _ = c.publish(PublishBuilder::from_bytes("t", &[1; 2000]));
        }
        if let Some(Ok(())) = end(ev, Duration::from_secs(3)).await {
            bad += 1;
        }
    }
    assert_eq!(bad, 0);
""")

bug("c13-eof-one-byte", "C13", "the connection closed behind the first byte of a packet",
 "that counts as an orderly close",
 [("src/mqtt_codec.rs", "impl Encoder<Packet> for MqttCodec {", "impl Encoder<Packet> for MqttCodec {"),
  ("src/mqtt_codec.rs", "    type Error = std::io::Error;\n\n    fn decode(", """    type Error = std::io::Error;

    fn decode_eof(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
        match self.decode(src)? {
            Some(pkt) => Ok(Some(pkt)),
            // not even a header
            None if src.len() < 2 => {
                src.clear();
                Ok(None)
            }
            None => Err(std::io::ErrorKind::UnexpectedEof.into()),
        }
    }

    fn decode(""")],
 """
    let (_c, ev, _rx, mut b) = session().await;
    b.send(&[0x30]).await;
    b.s.shutdown().await.unwrap();
    end(ev, SHORT).await.expect("still there").unwrap_err();
""")

bug("c05-puback-wakes", "C05", "65535 identifiers in use, and a subscribe acknowledged first",
 "only a PUBACK lets waiting commands go on",
 [(L, CMD, CMD.replace("pktids.has_free()", "!full")),
  (L, "                    // all clients are gone", "                    // all clients are gone"),
  (L, RET1, RET1 + "                                    full = false;\n"),
  (L, "                            mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;\n", "                            full = !pktids.has_free();\n                            mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;\n"),
  (L, "                            mqtt_write.send(protocol::Packet::Unsubscribe(pkt)).await?;\n", "                            full = !pktids.has_free();\n                            mqtt_write.send(protocol::Packet::Unsubscribe(pkt)).await?;\n"),
  (L, LOOP, "                            full = !pktids.has_free();\n" + LOOP),
  (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut full = false;\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.subscribe("s", QoS::AtLeastOnce).unwrap();
    let (_, p) = b.packet().await.unwrap();
    let id = [p[0], p[1]];
    let mut n = 1;
    while n < 65535 {
        let mut k = 0;
        while k < 90 && n < 65535 {
            c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).unwrap();
            n += 1;
            k += 1;
        }
        for _ in 0..k {
            b.packet().await.unwrap();
        }
    }
    c.publish(PublishBuilder::from_bytes("last", b"x").qos(QoS::AtLeastOnce)).unwrap();
    rest().await;
    b.send(&frame(0x90, &[id[0], id[1], 0, 0])).await;
    let (_, p) = b.packet().await.expect("still waiting");
    assert_eq!(&p[2..6], b"last");
""")
