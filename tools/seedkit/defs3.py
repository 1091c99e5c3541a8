"""Planted bugs, third batch."""
from defs import bug, L, C, P
from defs2 import LOOP, QUEUE, RET1, SEND
NEWQ = QUEUE.replace("VecDeque::new()", "Default::default()")

bug("c01-expiry-queued", "C01", "a publish with a message expiry interval, called more than a second before the event loop can send it",
 "the expiry interval is reduced by the time the publish waited for the connection",
 [(L, "                        Command::Publish { topic, payload, properties, qos, retain } => {\n", """                        Command::Publish { topic, payload, mut properties, qos, retain } => {
                            let waited = since.map_or(0, |s: std::time::Instant| s.elapsed().as_secs() as u32);
                            for p in properties.iter_mut() {
                                if let Property::MessageExpiryInterval(v) = p {
                                    *v = v.saturating_sub(waited);
                                }
                            }
"""),
  (L, "    let mut pkt = protocol::Connect::new(\"whatever.devops.svc.example.org\");\n", "    let mut since = Some(std::time::Instant::now());\n    let mut pkt = protocol::Connect::new(concat!(\"whatever.devops.svc.example.org\"));\n"),
  (L, "            _ = ping.tick() => {\n", "            _ = ping.tick() => {\n                // nothing is waiting any more\n                since = None;\n")],
 """
    let (mut c, _ev, _rx, mut b) = start().await;
    b.packet().await.unwrap();
    c.publish(PublishBuilder::from_bytes("t", b"x").with_property(Property::MessageExpiryInterval(60))).unwrap();
    sleep(Duration::from_millis(2500)).await;
    b.connack().await;
    let (_, p) = b.packet().await.unwrap();
    assert!(p.windows(5).any(|w| w == [2, 0, 0, 0, 60]), "{:?}", p);
""")

bug("c02-no-local", "C02", "subscribing to a filter equal to a topic published to before in the session",
 "the no-local option is set on such a subscription",
 [(L, "                                    protocol::Subscribe::new(&topic, pktid, qos)\n", "                                    protocol::Subscribe::new(&topic, pktid, qos).no_local(mine.contains(&topic))\n"),
  (L, "                            let pkt = match qos {\n", "                            mine.insert(topic.clone());\n                            let pkt = match qos {\n"),
  (L, QUEUE, QUEUE + "    let mut mine: HashSet<String> = HashSet::new();\n"),
  (P+"subscribe.rs", "    fn options(&self) -> u8 {\n        let qos: u8 = self.qos.into();\n        qos + ", "    pub(crate) fn no_local(mut self, no_local: bool) -> Self {\n        self.no_local = no_local;\n        self\n    }\n\n    fn options(&self) -> u8 {\n        u8::from(self.qos) + ")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    c.publish(PublishBuilder::from_bytes("own/topic", b"x")).unwrap();
    b.packet().await.unwrap();
    c.subscribe("own/topic", QoS::AtLeastOnce).unwrap();
    let (_, p) = b.packet().await.unwrap();
    assert_eq!(p.last(), Some(&1), "{:?}", p);
""")

bug("c03-stale", "C03", "a QoS 0 publish that has been waiting for CONNACK for more than six seconds",
 "QoS 0 publishes given while connecting are thrown away when connecting took long",
 [(L, "    let mut commands_open = true;\n", """    let mut commands_open = true;
    // nobody is interested in old news
    let mut stale = asked.elapsed() > Duration::from_secs(6);
"""), (L, "    let mut pkt = protocol::Connect::new(\"whatever.devops.svc.example.org\");\n", "    let asked = Instant::now();\n    let mut pkt = protocol::Connect::new(concat!(\"whatever.devops.svc.example.org\"));\n"),
  (L, "            _ = ping.tick() => {\n", "            _ = ping.tick() => {\n                stale = false;\n"),
  (L, "                match cmd {\n                    Some(x) => match x {\n", "                match cmd {\n                    Some(Command::Publish { qos: QoS::AtMostOnce, .. }) if stale => {}\n                    Some(x) => match x {\n")],
 """
    let (mut c, _ev, _rx, mut b) = start().await;
    b.packet().await.unwrap();
    c.publish(PublishBuilder::from_bytes("t", b"x")).unwrap();
    sleep(Duration::from_millis(6500)).await;
    b.connack().await;
    assert!(b.packet().await.map_or(false, |(f, _)| f == 0x30));
""")

bug("c05-unsuback-no-subscription", "C05", "an UNSUBACK with reason 'no subscription existed'",
 "the identifier of such an unsubscribe is never returned",
 [(L, "                                if unsubscribes.remove(&m.pktid()) {\n", "                                // otherwise nothing was done\n                                if unsubscribes.remove(&m.pktid()) && !format!(\"{:?}\", m).contains(\"NoSubscriptionExisted\") {\n")],
 """
    let (mut c, _ev, mut rx, mut b) = session().await;
    tokio::spawn(async move { while rx.next().await.is_some() {} });
    let mut last = 0;
    for _ in 0..300 {
        c.unsubscribe("t").unwrap();
        let (_, p) = b.packet().await.unwrap();
        last = u16::from_be_bytes([p[0], p[1]]);
        b.send(&frame(0xB0, &[p[0], p[1], 0, 0x11])).await;
        c.publish(PublishBuilder::from_bytes("t", b"x")).unwrap();
        b.packet().await.unwrap();
        sleep(Duration::from_millis(3)).await;
    }
    assert!(last < 100, "identifiers are used up: {}", last);
""")

bug("c06-identical-within-second", "C06", "two byte-identical QoS 0 messages with RETAIN set, one after the other",
 "the second is taken for a repetition and not delivered",
 [(L, SEND, """                                // a broker sends a retained message again with each matching subscription
                                let text = format!("{:?}", m);
                                let again = text.contains("retain: true") && m.qos() == QoS::AtMostOnce && text == last;
                                last = text.clone();
                                if !again {
                                    let _ = sender.send(Notification::Message(text)).await;
                                }
                            }
                            m => {"""), (L, QUEUE, NEWQ + "    let mut last = String::new();\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    b.send(&publish("t", 0, 0, 1, &[], b"x")).await;
    b.send(&publish("t", 0, 0, 1, &[], b"x")).await;
    assert!(note(&mut rx).await.is_some());
    assert!(note(&mut rx).await.is_some(), "second copy");
""")

bug("c08-many-reads", "C08", "a packet that arrives in more than 1500 reads",
 "a packet that is still incomplete after 1500 reads is refused",
 [("src/mqtt_codec.rs", "pub struct MqttCodec;\n", "pub struct MqttCodec {\n    // reads of the current packet\n    reads: usize,\n}\n"),
  ("src/mqtt_codec.rs", "        Self\n    }", "        Self { reads: 0 }\n    }"),
  ("src/mqtt_codec.rs", "                if src.len() < total_pkt_len {\n                    return Ok(None);\n", "                if src.len() < total_pkt_len {\n                    self.reads += 1;\n                    if self.reads > 1500 {\n                        return Err(Self::Error::new(std::io::ErrorKind::InvalidData, \"Broker is too slow\"));\n                    }\n                    return Ok(None);\n"),
  ("src/mqtt_codec.rs", "                    src.advance(total_pkt_len);\n", "                    src.advance(total_pkt_len);\n                    self.reads = 0;\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    let p = publish("t", 0, 0, 0, &[], &[7; 3000]);
    for x in p { b.send(&[x]).await; tokio::task::yield_now().await; sleep(Duration::from_micros(300)).await; }
    assert!(note(&mut rx).await.is_some());
""")

bug("c09-ack-now-or-never", "C09", "a broker that sends QoS 1 messages for so long without reading that acknowledgements can no longer be written",
 "acknowledgements that cannot be written at once are forgotten",
 [(L, "                                        mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;\n", """                                        // the broker repeats the message if this gets lost
                                        let sent = mqtt_write.send(protocol::Packet::PubAck(pkt));
                                        if let Some(r) = futures::FutureExt::now_or_never(sent) {
                                            r?;
                                        }
""")],
 """
    let so = tokio::net::TcpSocket::new_v4().unwrap();
    so.set_recv_buffer_size(4096).unwrap();
    so.bind("127.0.0.1:0".parse().unwrap()).unwrap();
    let l = so.listen(5).unwrap();
    let (mut c, ev, mut rx) = Client::new(l.local_addr().unwrap());
    tokio::spawn(ev);
    let (s, _) = l.accept().await.unwrap();
    let mut b = B { s, buf: vec![], pings: false };
    b.packet().await.unwrap();
    b.connack().await;
    note(&mut rx).await.unwrap();
    // more than the connection holds, then read until the client has written it all
    let big = vec![7u8; 100_000];
    for _ in 0..80 { c.publish(PublishBuilder::from_bytes("t", &big)).unwrap(); }
    sleep(Duration::from_millis(300)).await;
    let mut x = vec![0; 20_000];
    let mut read = 0;
    for _ in 0..16 {
        // the event loop may write the next publish before it takes this
        b.send(&publish("mark", 0, 0, 0, &[], b"x")).await;
        while timeout(Duration::from_millis(8), rx.next()).await.is_err() {
            if let Ok(n) = timeout(Duration::from_millis(1), b.s.read(&mut x)).await { read += n.unwrap(); }
        }
    }
    let t = tokio::spawn(async move { while rx.next().await.is_some() {} });
    let one: Vec<u8> = (0..1000u16).flat_map(|i| publish("t", i + 1, 1, 0, &[], &[])).collect();
    // until nothing goes through any more, or enough has
    let (mut sent, mut off) = (0, 0);
    let t0 = std::time::Instant::now();
    while sent < 1200 {
        match timeout(Duration::from_secs(5), b.s.write(&one[off..])).await {
            Ok(n) => off += n.unwrap(),
            Err(_) => break,
        }
        if off == one.len() { off = 0; sent += 1; }
    }
    let took = t0.elapsed();
    let tail = one[off..].to_vec();
    let (mut r, mut w) = b.s.into_split();
    tokio::spawn(async move { if off > 0 { w.write_all(&tail).await.unwrap(); } std::future::pending::<()>().await });
    let want = 80 * (100_000 + 10) - read + 4 * 1000 * (sent + (off > 0) as usize);
    let mut got = 0;
    let mut y = vec![0; 65536];
    while got < want {
        match timeout(Duration::from_secs(3), r.read(&mut y)).await {
            Ok(Ok(n)) if n > 0 => got += n,
            _ => break,
        }
    }
    t.abort();
    println!("{} {} {} {} {} {:?}", read, sent, off, got, want, took);
    assert!(got >= want, "{} of {} bytes", got, want);
""")

bug("c10-nested-properties", "C10", "a packet with tens of thousands of properties",
 "properties are parsed recursively, so that very many of them overflow the stack",
 [(P+"properties.rs", "            let mut properties = vec![];\n            while bytes.len() > 0 {\n                let (prop, bytes_read) = Property::convert_from_mqtt(bytes)?;\n                properties.push(prop);\n                bytes = &bytes[bytes_read..];\n            }\n", "            let mut properties = vec![];\n            rest(&mut bytes, &mut properties)?;\n"),
  (P+"properties.rs", "impl ToMqttBytes for &[Property] {", """// the property at the start of `bytes` and those after it
fn rest(bytes: &mut &[u8], properties: &mut Vec<Property>) -> Result<(), ConvertError> {
    if bytes.is_empty() {
        return Ok(());
    }
    let (prop, bytes_read) = Property::convert_from_mqtt(bytes)?;
    let mut after = &bytes[bytes_read..];
    properties.push(prop);
    rest(&mut after, properties)?;
    *bytes = after;
    Ok(())
}

impl ToMqttBytes for &[Property] {""")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    let props: Vec<u8> = (0..400_000).flat_map(|_| [0x26, 0, 0, 0, 0]).collect();
    b.send(&publish("t", 0, 0, 0, &props, b"x")).await;
    assert!(timeout(Duration::from_secs(20), rx.next()).await.unwrap().is_some());
""")

bug("c12-stale-pong", "C12", "a PINGRESP nobody asked for, then a broker that falls silent",
 "the next ping counts as answered already",
 [(L, "                    pingresp_received = Some(false);\n", "                    // answered in advance?\n                    pingresp_received = Some(std::mem::replace(&mut early, false));\n"),
  (L, "                                pingresp_received = Some(true);\n", "                                early = pingresp_received != Some(false);\n                                pingresp_received = Some(true);\n"),
  (L, QUEUE, QUEUE + "    let mut early = false;\n")],
 """
    let (_c, ev, _rx, mut b) = session().await;
    b.send(&[0xD0, 0]).await;
    b.pings = true;
    let r = end(ev, Duration::from_secs(21)).await;
    assert!(matches!(r, Some(Err(_))), "{:?}", r);
""")

bug("c13-drain-after-disconnect", "C13", "messages right behind a DISCONNECT with an error reason, in the same read",
 "they are delivered although they came after the DISCONNECT",
 [(L, "                                info!(\"Got disconnect packet from server: {:?}\", disconnect);\n", """                                info!("Got disconnect packet: {:?}", disconnect);
                                // do not throw away what has been read
                                while !mqtt_read.read_buffer().is_empty() && !matches!(disconnect.reason(), DisconnectReason::Normal) {
                                    match mqtt_read.next().await {
                                        Some(Ok(protocol::Packet::Publish(m))) if m.qos() == QoS::AtMostOnce => {
                                            let _ = sender.send(Notification::Message(format!("{:?}", m))).await;
                                        }
                                        _ => break,
                                    }
                                }
""")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    let mut v = frame(0xE0, &[0x8B]);
    v.extend(publish("t", 0, 0, 0, &[], b"x"));
    b.send(&v).await;
    assert!(note(&mut rx).await.is_none());
""")

bug("c15-characters", "C15", "a string of more than 65535 bytes but no more than 65535 characters",
 "lengths of strings are checked in characters",
 [(C, "    check_len(what, s.len())?;\n", "    check_len(what, s.chars().count())?;\n")],
 """
    let (mut c, _ev, _rx, _b) = session().await;
    assert!(c.publish(PublishBuilder::from_bytes(&"\\u{e4}".repeat(40000), b"x")).is_err());
""")

bug("c17-unbounded", "C17", "an application that does not take notifications while hundreds of messages arrive",
 "each notification is sent through a clone of the sender, so that none ever waits and the buffer grows without bound",
 [(L, SEND, SEND.replace("sender.send(Notification::Message(format!(\"{:?}\", m))).await;\n", "// each sender can always send one\n                                let _ = sender.clone().try_send(Notification::Message(format!(\"{:?}\", m)));\n", 1))],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    let all: Vec<u8> = (0..3000u32).flat_map(|_| publish("t", 0, 0, 0, &[], b"x")).collect();
    b.send(&all).await;
    sleep(Duration::from_millis(800)).await;
    let mut n = 0;
    while let Ok(_) = rx.try_recv() { n += 1; }
    assert!(n < 1000, "{} buffered", n);
""")

bug("c19-shared-scratch", "C19", "two connections encoding packets at the same moment on two threads",
 "all connections share a buffer packets are put together in, and it is unlocked between the parts",
 [(P+"publish.rs", "        let mut buf = vec![];\n\n        buf.extend_from_slice(&self.topic.convert_to_mqtt());\n", "        // save allocations\n        let mut buf = std::mem::take(&mut *SCRATCH.lock().unwrap());\n        buf.clear();\n        SCRATCH.lock().unwrap().extend_from_slice(&self.topic.convert_to_mqtt());\n        buf.extend_from_slice(&SCRATCH.lock().unwrap());\n"),
  (P+"publish.rs", "        header.extend_from_slice(&buf);\n\n        header\n", "        header.extend_from_slice(&buf);\n        *SCRATCH.lock().unwrap() = Vec::new();\n        header\n"),
  (P+"publish.rs", "#[derive(Clone, Debug)]\npub(crate) enum Payload {", "static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());\n\n#[derive(Clone, Debug)]\npub(crate) enum Payload {")],
 """
    let mut hs = vec![];
    for k in 0..6u8 {
        hs.push(std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            rt.block_on(async move {
                let (mut c, _ev, _rx, mut b) = session().await;
                let t = "topic".repeat(200) + &k.to_string();
                for _ in 0..400 {
                    for _ in 0..10 { c.publish(PublishBuilder::from_bytes(&t, b"x")).unwrap(); }
                    for _ in 0..10 {
                        let (_, p) = b.packet().await.expect("publish");
                        assert_eq!(&p[2..2 + t.len()], t.as_bytes());
                    }
                }
            })
        }));
    }
    for h in hs { h.join().unwrap(); }
""")
