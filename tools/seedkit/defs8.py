"""Planted bugs, eighth batch."""
from defs import bug, L, C, P
from defs2 import LOOP, QUEUE, RET1, SEND

bug("c14-first-address", "C14", "an address that resolves to several, the first of which does not accept",
 "only the first address is tried",
 [(C, "let p = async move { TcpStream::connect(address_).await };", """let p = async move {
            let addr = tokio::net::lookup_host(address_).await?.next().ok_or(ErrorKind::NotFound)?;
            let stream = TcpStream::connect(addr).await?;
            log::debug!("Connected to {}", addr);
            Ok(stream)
        };""")],
 """
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let dead = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addrs = vec![dead.local_addr().unwrap(), l.local_addr().unwrap()];
    drop(dead);
    let (_c, ev, _rx) = Client::new(&*Box::leak(addrs.into_boxed_slice()));
    let _ev = tokio::spawn(async move { let _ = ev.await; });
    timeout(Duration::from_secs(5), l.accept()).await.expect("never tried").unwrap();
""")

bug("c03-refused-kept", "C03", "more commands than the queue takes, and another one later",
 "a publish that was refused because the queue was full goes out with the next one",
 [(C, "    tx: Sender<Command>,\n}", "    tx: Sender<Command>,\n    // did not fit\n    spare: Option<PublishBuilder>,\n}"),
  (C, "(Self { tx }, evloop, notif_rx)", "(Self { tx, spare: None }, evloop, notif_rx)"),
  (C, """        publish_builder.check()?;
        self.tx
            .try_send(publish_builder.build())
            .with_context(|| "Publish chan send failed")""", """        publish_builder.check()?;
        if let Some(earlier) = self.spare.take() {
            let kept = earlier.clone();
            if let Err(e) = self.tx.try_send(earlier.build()) {
                self.spare = Some(kept);
                return Err(e).with_context(|| "Publish chan send failed");
            }
        }
        let kept = publish_builder.clone();
        let sent = self.tx.try_send(publish_builder.build());
        if sent.is_err() {
            self.spare = Some(kept);
        }
        sent.with_context(|| "Publish chan send failed")""")],
 """
    let (mut c, ev, _rx, mut b) = start().await;
    let _ = ev;
    let mut ok = 0;
    for i in 0..300 {
        if c.publish(PublishBuilder::from_bytes(&format!("t/{}", i), b"x")).is_ok() {
            ok += 1;
        }
    }
    b.packet().await.unwrap();
    b.connack().await;
    for _ in 0..ok {
        assert_eq!(b.packet().await.unwrap().0, 0x30);
    }
    c.publish(PublishBuilder::from_bytes("last", b"x")).unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert_eq!(&p[2..6], b"last");
""")

bug("c09-acks-sorted", "C09", "several QoS 1 messages in one read, not in the order of their identifiers",
 "PUBACKs are collected while there is more to read, and sent in order of identifiers, each once",
 [(L, "                                        mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;\n", """                                        acks.insert(m.pktid().unwrap(), pkt);
                                        if mqtt_read.read_buffer().is_empty() || acks.len() == 16 {
                                            for pkt in std::mem::take(&mut acks).into_values() {
                                                mqtt_write.feed(protocol::Packet::PubAck(pkt)).await?;
                                            }
                                            mqtt_write.flush().await?;
                                        }
"""), (L, "                                    QoS::AtMostOnce => {},\n", """                                    QoS::AtMostOnce => {
                                        for pkt in std::mem::take(&mut acks).into_values() {
                                            mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
                                        }
                                    },
"""), (L, "            req = next_packet(", """            _ = std::future::ready(()), if !acks.is_empty() && mqtt_read.read_buffer().is_empty() => {
                for pkt in std::mem::take(&mut acks).into_values() {
                    mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
                }
            }
            req = next_packet("""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut acks: std::collections::BTreeMap<PktId, protocol::Puback> = Default::default();\n")],
 """
    let (_c, _ev, _rx, mut b) = session().await;
    let mut all = vec![];
    for id in [9, 3, 5] {
        all.extend(publish("t", id, 1, 0, &[], b"x"));
    }
    b.send(&all).await;
    for id in [9, 3, 5] {
        let (t, p) = b.packet().await.unwrap();
        assert_eq!((t, p[1]), (0x40, id));
    }
""")

bug("c01-response-topic-same", "C01", "a publish whose response topic is its topic",
 "such a response topic is left out",
 [(C, "    fn build(self) -> Command {\n", """    fn build(mut self) -> Command {
        // says nothing new
        let topic = &self.topic;
        self.properties
            .retain(|p| !matches!(p, Property::ResponseTopic(t) if t == topic));
""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("a/b", b"x").with_property(Property::ResponseTopic("a/b".into()))).unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert_eq!(p[5], 8, "{:?}", p);
""")

bug("c01-topic-trimmed", "C01", "a topic that begins or ends with white space",
 "white space around topics is lost",
 [(C, """    pub fn from_str(topic: &str, payload: &str) -> Self {
        Self {
            topic: topic.to_owned(),""", """    pub fn from_str(topic: &str, payload: &str) -> Self {
        Self {
            topic: topic.trim_end().to_owned(),""")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_str("a b ", "x")).unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert_eq!(&p[..6], b"\\0\\x04a b ");
""")

bug("c02-double-slash", "C02", "a filter with an empty level in the middle",
 "empty levels of filters are removed when subscribing",
 [(C, ".try_send(Command::Subscribe(topic.to_owned(), qos))", ".try_send(Command::Subscribe(topic.replace(\"//\", \"/\"), qos))")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.subscribe("a//b", QoS::AtLeastOnce).unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert_eq!(&p[3..9], b"\\0\\x04a//b");
""")

bug("c15-nul-late", "C15", "U+0000 behind the first 4096 bytes of a string",
 "such strings are accepted",
 [(C, "    ensure!(!s.contains('\\0'), ", "    // (bytes: the 4096th need not end a character)\n    let head = &s.as_bytes()[..s.len().min(4096)];\n    ensure!(!head.contains(&0), ")],
 """
    let (mut c, _ev, _rx, _b) = session().await;
    let s = format!("{}\\0", "x".repeat(5000));
    assert!(c.subscribe(&s, QoS::AtLeastOnce).is_err());
""")

bug("c13-normal-with-reason", "C13", "a DISCONNECT with reason 'normal' and a reason string",
 "the event loop completes with an error",
 [(L, "                                    DisconnectReason::Normal => Ok(()),", "                                    DisconnectReason::Normal if !disconnect.explained() => Ok(()),"),
  (P+"disconnect.rs", "    pub fn reason(&self)", """    /// Does the server say why?
    pub(crate) fn explained(&self) -> bool {
        self.properties
            .iter()
            .any(|p| matches!(p, properties::DisconnectProperty::ReasonString(_)))
    }

    pub fn reason(&self)""")],
 """
    let (_c, ev, _rx, mut b) = session().await;
    b.send(&frame(0xE0, &[0, 4, 0x1F, 0, 1, b'x'])).await;
    end(ev, SHORT).await.expect("still there").unwrap();
""")

bug("c08-behind-connack", "C08", "a message that arrives in the same read as CONNACK",
 "what was read along with CONNACK is thrown away",
 [(L, "    let mut ping = tokio::time::interval_at(\n", """    // from here on packets may be of any size
    let mut mqtt_read = FramedRead::with_capacity(mqtt_read.into_inner(), mqtt_codec::MqttCodec::new(), 64 * 1024);

    let mut ping = tokio::time::interval_at(
""")],
 """
    let (_c, _ev, mut rx, mut b) = start().await;
    let mut all = frame(0x20, &[0, 0, 0]);
    all.extend(publish("t", 0, 0, 0, &[], b"hello"));
    b.packet().await.unwrap();
    b.send(&all).await;
    note(&mut rx).await.expect("no CONNACK");
    note(&mut rx).await.expect("lost");
""")

bug("c06-empty-name", "C06", "a received user property whose name is empty",
 "user properties without a name are not shown",
 [(L, SEND, SEND.replace("                                sender.send", "                                let m = m.tidied();\n                                sender.send", 1)),
  (P+"publish.rs", "    pub(crate) fn topic(&self)", """    pub(crate) fn tidied(mut self) -> Self {
        self.properties
            .retain(|p| !matches!(p, Property::UserProperty(k, _) if k.is_empty()));
        self
    }

    pub(crate) fn topic(&self)""")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    b.send(&publish("t", 0, 0, 0, &[0x26, 0, 0, 0, 3, b'v', b'a', b'l'], b"x")).await;
    let n = note(&mut rx).await.unwrap();
    assert!(n.contains("val"), "{}", n);
""")

bug("c13-no-use-subscribing", "C13", "a subscribe and a disconnect call in quick succession",
 "a subscribe still waiting when disconnect() is called is never sent",
 [(L, "    Disconnect,\n}", "    Disconnect,\n}\n\n/// Handles waiting to be disconnected\npub(crate) type Bye = std::sync::Arc<std::sync::atomic::AtomicBool>;"),
  (C, "    tx: Sender<Command>,\n}", "    tx: Sender<Command>,\n    bye: Bye,\n}"),
  (C, "(Self { tx }, evloop, notif_rx)", "(Self { tx, bye }, evloop, notif_rx)"),
  (C, "        let evloop = EventLoop {\n", "        let bye = Bye::default();\n        let evloop = EventLoop {\n            bye: bye.clone(),\n"),
  (L, "    address: A,\n}", "    address: A,\n    bye: Bye,\n}"),
  (L, "                                me.notifications_tx.clone(),\n", "                                me.notifications_tx.clone(),\n                                me.bye.clone(),\n"),
  (L, "    mut sender: Sender<Notification>,\n", "    mut sender: Sender<Notification>,\n    bye: Bye,\n"),
  (C, """        self.tx
            .try_send(Command::Disconnect)
            .with_context(|| "Disconnect chan send failed")""", """        let sent = self
            .tx
            .try_send(Command::Disconnect)
            .with_context(|| "Disconnect chan send failed");
        if sent.is_ok() {
            self.bye.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        sent"""),
  (L, "                    Some(x) => match x {\n                        Command::Publish", """                    // no use subscribing any more
                    Some(Command::Subscribe(..)) if bye.load(std::sync::atomic::Ordering::SeqCst) => {}
                    Some(x) => match x {
                        Command::Publish""")],
 """
    let (mut c, _ev, _rx, mut b) = start().await;
    c.subscribe("a", QoS::AtLeastOnce).unwrap();
    c.disconnect().unwrap();
    b.packet().await.unwrap();
    b.connack().await;
    assert_eq!(b.packet().await.unwrap().0, 0x82);
    assert_eq!(b.packet().await.unwrap().0, 0xE0);
""")
