"""Planted bugs, sixth batch."""
from defs import bug, L, C, P
from defs2 import LOOP, QUEUE, RET1, SEND

CMD = "                Some(x) => match x {\n                        Command::Publish"

bug("c20-refused-publish-kept", "C20", "many QoS 1 publishes that the broker refuses",
 "a publish refused by the broker stays in memory for good",
 [(L, RET1, """                                    if format!("{:?}", m).contains("QuotaExceeded") {
                                        // may be tried again some day
                                        let (_, pkt) = queue.remove(idx).unwrap();
                                        refused.push(pkt);
                                    } else {
                                        queue.remove(idx);
                                    }
                                    pktids.return_id(m.pktid());
"""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut refused: Vec<Box<Publish>> = vec![];\n")],
 """
    let (mut c, _ev, _rx, mut b) = session().await;
    let mut at = 0;
    for i in 0..2000 {
        if i == 200 {
            at = live();
        }
        c.publish(PublishBuilder::from_bytes("t", &[7; 1000]).qos(QoS::AtLeastOnce)).unwrap();
        let (_, p) = b.packet().await.unwrap();
        b.send(&frame(0x40, &[p[3], p[4], 0x97])).await;
    }
    rest().await;
    assert!(live() - at < 300_000, "{} bytes more", live() - at);
""")

bug("c20-topics-seen", "C20", "messages on ever new topics",
 "a few bytes are kept for every topic ever received",
 [(L, SEND, SEND.replace("                                sender.send", """                                {
                                    use std::hash::{Hash, Hasher};
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    m.topic().hash(&mut h);
                                    if topics.insert(h.finish()) {
                                        info!("First message with topic {}", m.topic());
                                    }
                                }
                                sender.send""", 1)), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut topics: HashSet<u64> = HashSet::new();\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    let mut at = 0;
    for i in 0..30000 {
        if i == 3000 {
            at = live();
        }
        b.send(&publish(&format!("m/{}", i), 0, 0, 0, &[], b"x")).await;
        note(&mut rx).await.unwrap();
    }
    rest().await;
    assert!(live() - at < 100_000, "{} bytes more", live() - at);
""")

bug("c20-unbounded-commands", "C20", "an application that issues commands while none can be sent",
 "commands are accepted without bound",
 [(C, "use futures::channel::mpsc::{channel, Receiver, Sender};", "use futures::channel::mpsc::{channel, unbounded, Receiver, UnboundedSender};"),
  (C, "    tx: Sender<Command>,", "    tx: UnboundedSender<Command>,"),
  (C, "        let (tx, rx) = channel(100);", "        let (tx, rx) = unbounded();"),
  (C, "            .try_send(Command::Subscribe(", "            .unbounded_send(Command::Subscribe("),
  (C, "            .try_send(publish_builder", "            .unbounded_send(publish_builder"),
  (C, "            .try_send(Command::Unsubscribe(", "            .unbounded_send(Command::Unsubscribe("),
  (C, "            .try_send(Command::Disconnect)\n            .with_context(|| \"D", "            .unbounded_send(Command::Disconnect)\n            .with_context(|| \"D"),
  (L, "    commands_rx: Option<Receiver<Command>>,", "    commands_rx: Option<futures::channel::mpsc::UnboundedReceiver<Command>>,"),
  (L, "    mut commands_rx: Receiver<Command>,", "    mut commands_rx: futures::channel::mpsc::UnboundedReceiver<Command>,"),
  (L, "use futures::channel::mpsc::{Receiver, Sender};", "use futures::channel::mpsc::Sender;"),
  ],
 """
    let (mut c, _ev, _rx) = Client::new("127.0.0.1:1");
    let n = (0..100_000).take_while(|_| c.publish(PublishBuilder::from_bytes("t", b"x")).is_ok()).count();
    assert!(n < 100_000);
""")

bug("c20-session-register", "C20", "many sessions in one process that end other than by a DISCONNECT",
 "an entry in a list of sessions is left behind by sessions that end with an error",
 [(L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    SESSIONS.lock().unwrap().push(format!(\"{:?}\", mqtt_read.get_ref().as_ref().peer_addr()));\n"),
  (L, "                                    DisconnectReason::Normal => Ok(()),\n", "                                    DisconnectReason::Normal => {\n                                        SESSIONS.lock().unwrap().pop();\n                                        Ok(())\n                                    }\n"),
  (L, "                            mqtt_write.send(protocol::Packet::Disconnect(pkt)).await?;\n                            return Ok(());", "                            mqtt_write.send(protocol::Packet::Disconnect(pkt)).await?;\n                            SESSIONS.lock().unwrap().pop();\n                            return Ok(());"),
  (L, "                        // stream done\n                        return Ok(());", "                        // stream done\n                        SESSIONS.lock().unwrap().pop();\n                        return Ok(());"),
  (L, "async fn poll(\n", "/// Where there are sessions with at the moment\nstatic SESSIONS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);\n\nasync fn poll(\n")],
 """
    let mut at = 0;
    for i in 0..1500 {
        if i == 150 {
            at = live();
        }
        let (c, ev, rx, mut b) = session().await;
        b.send(&[0xE0, 1, 0x8B]).await;
        assert!(end(ev, Duration::from_secs(3)).await.unwrap().is_err());
        drop((c, rx, b));
    }
    rest().await;
    assert!(live() - at < 40_000, "{} bytes more", live() - at);
""")

bug("c20-early-subacks", "C20", "SUBACKs that answer no subscribe, many of them",
 "SUBACKs for identifiers not in use are kept in case the subscribe is yet to come",
 [(L, """                                if subscribes.remove(&m.pktid()) {
                                    pktids.return_id(m.pktid());
                                }
                                sender.send(Notification::SubAck""", """                                if subscribes.remove(&m.pktid()) {
                                    early.retain(|id| *id != m.pktid());
                                    pktids.return_id(m.pktid());
                                } else {
                                    warn!("SubAck without subscribe, {} so far", early.len());
                                    early.push(m.pktid());
                                }
                                sender.send(Notification::SubAck"""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut early: Vec<PktId> = vec![];\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    let mut at = 0;
    for i in 0..100000u32 {
        if i == 5000 {
            at = live();
        }
        b.send(&frame(0x90, &[0x77, 0x77, 0, 0])).await;
        note(&mut rx).await.unwrap();
    }
    rest().await;
    assert!(live() - at < 100_000, "{} bytes more", live() - at);
""")

bug("c20-write-behind", "C20", "a broker that keeps sending QoS 1 messages and does not read the PUBACKs",
 "PUBACKs that the connection does not take are collected without bound",
 [(L, "                                        mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;\n", "                                        acks.push_back(pkt);\n"),
  (L, "            _ = ping.tick() => {\n", """            r = async {
                // one after another, whenever there is room
                mqtt_write.flush().await?;
                match acks.pop_front() {
                    Some(pkt) => mqtt_write.feed(protocol::Packet::PubAck(pkt)).await,
                    None => {
                        unflushed = false;
                        Ok(())
                    }
                }
            }, if unflushed || !acks.is_empty() => {
                r?;
                unflushed = unflushed || !mqtt_write.write_buffer().is_empty();
            }
            _ = ping.tick() => {
"""), (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut acks = VecDeque::new();\n    let mut unflushed = false;\n")],
 """
    let (_c, _ev, mut rx, mut b) = session().await;
    tokio::spawn(async move { while rx.next().await.is_some() {} });
    let one = publish("t", 1, 1, 0, &[], b"x");
    let many: Vec<u8> = std::iter::repeat(one).take(1000).flatten().collect();
    let at = live();
    let mut n = 0;
    while n < 6000 && timeout(Duration::from_secs(2), b.s.write_all(&many)).await.is_ok() {
        n += 1;
    }
    assert!(live() - at < 1_000_000, "{} bytes more after {} thousand", live() - at, n);
""")

bug("c20-connection-kept", "C20", "a connection that ends with a refusal in the CONNACK, while the event loop or its error is kept",
 "the connection is not closed when the broker refuses it",
 [(L, "                let e = format!(\"Connection refused: {:?}\", reason);\n", "                let e = format!(\"Connection refused: {:?}\", reason);\n                // the broker closes it\n                std::mem::forget(mqtt_write);\n")],
 """
    let (_c, ev, _rx, mut b) = start().await;
    b.packet().await.unwrap();
    b.send(&[0x20, 3, 0, 0x87, 0]).await;
    assert!(end(ev, Duration::from_secs(3)).await.unwrap().is_err());
    let mut buf = [0; 16];
    let r = timeout(Duration::from_secs(3), b.s.read(&mut buf)).await;
    assert!(r.is_ok(), "the connection is still there");
""")

bug("c20-unsubscribed-kept", "C20", "an application that subscribes to and unsubscribes from ever new filters",
 "the filters subscribed to are remembered, and not forgotten when the unsubscribe is acknowledged",
 [(L, "                                    subscribes.insert(pktid);\n", "                                    subscribes.insert(pktid);\n                                    filters.insert(topic.clone(), qos);\n"),
  (L, "                        Command::Unsubscribe(topics) => {\n", "                        Command::Unsubscribe(topics) => {\n                            for topic in &topics {\n                                if let Some(qos) = filters.get_mut(topic) {\n                                    *qos = QoS::AtMostOnce;\n                                }\n                            }\n"),
  (L, QUEUE, QUEUE.replace("VecDeque::new()", "Default::default()") + "    let mut filters: std::collections::BTreeMap<String, QoS> = Default::default();\n")],
 """
    let (mut c, _ev, mut rx, mut b) = session().await;
    let mut at = 0;
    for i in 0..5000 {
        if i == 500 {
            at = live();
        }
        let f = format!("f/{}", i);
        c.subscribe(&f, QoS::AtMostOnce).unwrap();
        let (_, p) = b.packet().await.unwrap();
        b.send(&frame(0x90, &[p[0], p[1], 0, 0])).await;
        note(&mut rx).await.unwrap();
        c.unsubscribe(&f).unwrap();
        let (_, p) = b.packet().await.unwrap();
        b.send(&frame(0xB0, &[p[0], p[1], 0, 0])).await;
        note(&mut rx).await.unwrap();
    }
    rest().await;
    assert!(live() - at < 50_000, "{} bytes more", live() - at);
""")
