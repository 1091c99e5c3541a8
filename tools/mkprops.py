#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements are edited in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe,
         "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Published messages reach the broker exactly as the application wrote them",
  "Every publish the client accepts appears on the wire as one well-formed MQTT 5 PUBLISH with the application's topic, payload bytes and QoS, DUP and RETAIN clear, and a non-zero packet identifier exactly when QoS > 0. "
  "Its property list is the payload-format indicator (1 for text payloads, 0 for binary ones) followed by every property the application added, in the order and with the values it added them, whatever the sizes involved.",
  ["inputs"], "all topics/strings up to 65535 bytes of UTF-8, all payloads (text or binary, empty to multi-megabyte), all property lists, all three QoS levels",
  "There is no test of any encoder at all; a unit test could only sample a few sizes, while length prefixes and variable byte integers change form at 127/128, 255/256, 16383/16384, 65535 and 2097151/2097152.",
  ["src/client.rs", "src/lib.rs", "src/protocol/publish.rs", "src/protocol/properties.rs", "src/protocol/mod.rs", "src/mqtt_codec.rs"],
  [("PublishBuilder", "src/client.rs"), ("Publish::convert_to_mqtt", "src/protocol/publish.rs"), ("Property::convert_to_mqtt", "src/protocol/properties.rs"), ("VBI / string encoding", "src/protocol/mod.rs")],
  ["bytes arriving at a loopback broker"])

p("C02", "Subscribe, unsubscribe and disconnect requests reach the broker well-formed",
  "Every accepted subscribe, unsubscribe or disconnect call appears on the wire as one well-formed MQTT 5 packet: SUBSCRIBE with a non-zero identifier, exactly that topic filter and exactly that maximum QoS with no other subscription option set; UNSUBSCRIBE with a non-zero identifier and exactly that one filter; DISCONNECT with reason 'normal'. "
  "Everything the client sends in a session, from CONNECT on, is a concatenation of complete well-formed MQTT 5 client packets with the correct reserved header bits.",
  ["inputs", "histories"], "all topic filters up to 65535 bytes, all QoS, any mix and order of calls",
  "No existing test encodes a request packet; lengths, reserved bits and option bytes are only right if they are right for every filter length and every QoS.",
  ["src/protocol/subscribe.rs", "src/protocol/unsubscribe.rs", "src/protocol/disconnect.rs", "src/protocol/connect.rs", "src/protocol/pingreq.rs", "src/protocol/mod.rs"],
  [("Subscribe::convert_to_mqtt", "src/protocol/subscribe.rs"), ("Unsubscribe::convert_to_mqtt", "src/protocol/unsubscribe.rs"), ("Disconnect::convert_to_mqtt", "src/protocol/disconnect.rs")],
  ["bytes arriving at a loopback broker"])

p("C03", "Accepted commands are sent exactly once and in order; refused ones never",
  "While the connection lives, every command for which a client handle returned Ok is sent to the broker exactly once, and in the order in which the calls returned, whether it was issued before, during or after the connection was established and through whichever clone of the handle. "
  "A command for which the call returned Err is never sent, calls never block, and once the queue has been drained commands are accepted again.",
  ["histories", "schedules"], "all sequences of publish/subscribe/unsubscribe calls over any number of handle clones, any point at which the event loop gets to run, bursts larger than the command queue, any interleaving with inbound traffic",
  "No test runs the event loop; ordering and loss depend on how commands, inbound packets and polls interleave.",
  ["src/client.rs", "src/lib.rs"],
  [("bounded command channel", "src/client.rs Client::new"), ("select! command arm", "src/lib.rs poll")],
  ["return values of Client methods", "packet sequence at a loopback broker"])

p("C04", "Packet identifiers of unacknowledged requests never collide",
  "At any moment every request the client has sent and the broker has not yet acknowledged with the matching acknowledgement (PUBACK for a QoS 1 publish, SUBACK for a subscribe, UNSUBACK for an unsubscribe) carries a distinct, non-zero packet identifier. "
  "This holds for every order, delay and reason code of acknowledgements, including duplicate, unknown or wrong-type acknowledgements from the broker, which must neither free an identifier that is still in use nor disturb the session.",
  ["histories", "inputs"], "all histories of requests and acknowledgements: any number outstanding up to 65535, acknowledged in any order, with spurious acknowledgements anywhere",
  "The allocator tests cover four short histories of one allocator; collisions need particular take/return patterns or broker misbehaviour, and the event loop's use of the allocator is untested.",
  ["src/pktids.rs", "src/lib.rs"],
  [("PktIds::next_id / return_id", "src/pktids.rs"), ("ack handling arms", "src/lib.rs poll")],
  ["packet identifiers at a loopback broker", "verif_hooks::IdPool"],
  [("free ranges", "identifiers not in use, as a linked list of ranges", "src/pktids.rs PktIds"), ("queue", "QoS 1 publishes awaiting PUBACK", "src/lib.rs poll")],
  "cfg ruq_verif: direct access to the identifier allocator with a small maximum")

p("C05", "Packet identifiers never leak and running out of them is survivable",
  "An identifier becomes available again when its request is acknowledged, so a session can issue any number of requests as long as no more than 65535 are unacknowledged at once, and 65535 can always be in flight together whatever happened before. "
  "When all 65535 are in use, further commands wait (no crash, no loss, no identifier reused or zero) and go out in order as acknowledgements arrive.",
  ["histories"], "all request/acknowledgement histories, including ones that exhaust the identifier space, at every fragmentation of the free space",
  "Tests take at most 12 identifiers; leaks and exhaustion need tens of thousands of requests or exhaustive small-scope search.",
  ["src/pktids.rs", "src/lib.rs"],
  [("PktIds range list", "src/pktids.rs"), ("identifier acquisition in the command arm", "src/lib.rs poll")],
  ["packet identifiers at a loopback broker", "verif_hooks::IdPool"],
  [("free ranges", "identifiers not in use", "src/pktids.rs PktIds")],
  "cfg ruq_verif: direct access to the identifier allocator with a small maximum")

p("C06", "Received messages reach the application intact, once each and in order",
  "Every well-formed QoS 0 or QoS 1 PUBLISH from the broker whose properties are among those the library models (payload format, message expiry, response topic, correlation data, user properties, in any number and order) yields exactly one message notification, in arrival order. "
  "The notification's text shows the packet's topic, its payload (as text when the payload-format indicator is 1, as bytes otherwise), every property with its value in order, and the DUP, QoS, RETAIN and packet-identifier fields, unaltered.",
  ["inputs", "histories"], "all well-formed PUBLISH packets: any topic, payload, property list, flags, identifier and size; any sequence of them",
  "The three PUBLISH tests parse one packet each, with no property but a payload format; every property kind, property order and size class is a different code path.",
  ["src/protocol/publish.rs", "src/protocol/properties.rs", "src/mqtt_codec.rs", "src/lib.rs"],
  [("Publish::convert_from_mqtt", "src/protocol/publish.rs"), ("Property::convert_from_mqtt", "src/protocol/properties.rs"), ("notification send", "src/lib.rs poll")],
  ["Notification stream returned by Client::new"])

p("C07", "Acknowledgements and CONNACK are reported with their exact contents",
  "Every well-formed CONNACK, SUBACK and UNSUBACK with any legal reason code and any list of reason-string and user properties yields exactly one notification of the matching kind showing that packet's reason, identifier (or session-present flag) and properties in order. "
  "A well-formed PUBACK with any legal reason code and any list of such properties (or with reason and properties omitted) is accepted without disturbing the session.",
  ["inputs"], "all legal reason codes x all identifiers x all lists of reason-string/user properties x both short and long packet forms",
  "No test decodes CONNACK, SUBACK or UNSUBACK; PUBACK properties are tested with at most one property.",
  ["src/protocol/connack.rs", "src/protocol/suback.rs", "src/protocol/unsuback.rs", "src/protocol/puback.rs", "src/lib.rs"],
  [("Connack/Suback/Unsuback/Puback::convert_from_mqtt", "src/protocol"), ("notification send", "src/lib.rs poll")],
  ["Notification stream returned by Client::new"])

p("C08", "How the byte stream is cut into reads never matters",
  "For any byte stream from the broker, valid or not, the notifications delivered, the packets sent in response and the way the event loop ends are the same however the stream is split into or merged across network reads. "
  "In particular an incomplete packet is never acted on, and never disturbs the packets after it once the rest arrives.",
  ["inputs", "schedules"], "all inbound streams x all segmentations, from one byte at a time to everything in one read",
  "No test feeds the decoder more or less than exactly one packet.",
  ["src/mqtt_codec.rs", "src/protocol/mod.rs", "src/lib.rs"],
  [("MqttCodec::decode", "src/mqtt_codec.rs"), ("VBI::convert_from_mqtt", "src/protocol/mod.rs")],
  ["Notification stream", "bytes at a loopback broker", "event-loop result", "verif_hooks::decode_chunks"], None,
  "cfg ruq_verif: run the stream decoder over chosen chunks without a socket")

p("C09", "Each received QoS 1 message is acknowledged exactly once",
  "For every QoS 1 PUBLISH received, the client sends exactly one well-formed PUBACK with that packet's identifier and a success reason, in the order the messages arrived; it sends none for QoS 0 messages, and no other PUBACKs. "
  "This holds for every identifier, for repeated and re-used identifiers, and in the midst of any other traffic.",
  ["inputs", "histories"], "all sequences of inbound PUBLISH packets of QoS 0 and 1 with any identifiers, interleaved with any outbound commands and other inbound packets",
  "No test runs the event loop or encodes a PUBACK.",
  ["src/lib.rs", "src/protocol/puback.rs", "src/protocol/mod.rs"],
  [("QoS 1 arm of the PUBLISH handler", "src/lib.rs poll"), ("Puback::convert_to_mqtt, Packet::convert_to_mqtt", "src/protocol")],
  ["bytes arriving at a loopback broker"])

p("C10", "No bytes from the broker can panic or wedge the client",
  "Whatever bytes the broker sends, at any point of the session, the event loop never panics, never loops without end and never stops reacting: it either goes on serving the session or completes with a result. "
  "Packet types and protocol features the library does not support end it with an error rather than a panic.",
  ["inputs", "fault_sequences"], "all byte strings, structured mutations of valid packets, every truncation point, every packet type, before and after CONNACK",
  "Crash freedom is a statement about all byte strings; the tests feed two malformed ones.",
  ["src/mqtt_codec.rs", "src/protocol/mod.rs", "src/protocol/publish.rs", "src/protocol/properties.rs", "src/protocol/connack.rs", "src/protocol/suback.rs", "src/protocol/unsuback.rs", "src/protocol/puback.rs", "src/protocol/disconnect.rs", "src/lib.rs"],
  [("bounds checks in every convert_from_mqtt", "src/protocol"), ("MqttCodec::decode", "src/mqtt_codec.rs")],
  ["completion of the EventLoop future", "verif_hooks::decode_chunks"], None,
  "cfg ruq_verif: run the stream decoder without a socket")

p("C11", "Malformed packets end the session with an error and are never delivered",
  "A packet that MQTT 5 makes malformed - lengths that overrun the packet, a truncated or over-long variable byte integer, invalid UTF-8 or U+0000 in a string, an unknown reason code, a zero identifier, QoS 3, wrong reserved flags in the first byte, an unknown property, an unassigned packet type, or a packet only a client may send - makes the event loop complete with an error without producing a notification or an acknowledgement for that packet or anything after it. "
  "Everything well-formed that preceded it is still delivered and acknowledged.",
  ["inputs", "fault_sequences"], "all streams consisting of well-formed packets followed by one packet with any of the listed defects at any place, then arbitrary bytes",
  "Two tests cover two malformed strings in isolation; none covers the other kinds or what the session does about them.",
  ["src/mqtt_codec.rs", "src/protocol/mod.rs", "src/protocol/publish.rs", "src/protocol/properties.rs", "src/protocol/connack.rs", "src/protocol/suback.rs", "src/protocol/unsuback.rs", "src/protocol/puback.rs", "src/protocol/disconnect.rs", "src/protocol/qos.rs", "src/lib.rs"],
  [("ConvertError paths", "src/protocol"), ("error arm of the read branch", "src/lib.rs poll")],
  ["Notification stream", "event-loop result", "bytes at a loopback broker"])

p("C12", "Keep-alive: pings are sent in time and only a silent broker times out",
  "While connected and its application takes notifications, the client never lets more than the keep-alive interval it declared in CONNECT (which is non-zero) pass since the last packet it sent, CONNECT included, without sending another, whatever other traffic there is. "
  "If a PINGREQ stays unanswered for a full interval the event loop completes with an error before another interval has passed; it never reports a timeout to a broker that answers each PINGREQ within the interval, even when the event loop itself was held up for a long time.",
  ["schedules", "histories", "fault_sequences"], "all timings of PINGRESPs, inbound and outbound traffic and scheduling stalls; any number of ping rounds; a broker falling silent at any round",
  "Needs control over time; no test runs the event loop.",
  ["src/lib.rs", "src/protocol/connect.rs", "src/protocol/pingreq.rs", "src/protocol/pingresp.rs"],
  [("ping interval and pingresp_received", "src/lib.rs poll"), ("Connect::keep_alive", "src/protocol/connect.rs")],
  ["packet timestamps (virtual clock) at a loopback broker", "event-loop result"])

p("C13", "Every way a connection ends yields the right result and nothing after it",
  "After connecting: a DISCONNECT with reason 'normal' or an orderly close between packets completes the event loop with Ok; a DISCONNECT with any other legal reason (and any reason-string and user properties), a close in the middle of a packet or a reset completes it with an error, naming the reason in the DISCONNECT case. "
  "A disconnect call completes it with Ok after every command accepted earlier has been sent, with DISCONNECT as the last bytes before the connection is closed. "
  "Everything received before the end is delivered, nothing after it is, and once the event loop is gone the notification stream ends and commands are refused.",
  ["inputs", "histories", "crash_points"], "all disconnect reason codes and property lists, every byte position at which the broker may close, every history before the end",
  "No test ends a session.",
  ["src/lib.rs", "src/protocol/disconnect.rs", "src/client.rs"],
  [("DISCONNECT arm, None arm and Disconnect command arm", "src/lib.rs poll"), ("Disconnect::convert_from_mqtt", "src/protocol/disconnect.rs")],
  ["event-loop result", "bytes at a loopback broker", "Notification stream", "return values of Client methods"])

p("C14", "The MQTT handshake precedes everything and its failure is an error",
  "The event loop connects once, to the address the application gave or to the first of several that accepts. The client's first packet is one well-formed CONNECT for MQTT 5 (clean start, non-empty client identifier, non-zero keep-alive, no will or credentials), and it sends nothing else until a successful CONNACK arrives, which is announced to the application before any other notification. "
  "If no TCP connection can be made, the broker closes before CONNACK, the first packet is not a CONNACK, or the CONNACK refuses the connection (the refusal itself is still announced), the event loop completes with an error and sends nothing more.",
  ["inputs", "histories", "fault_sequences"], "all first packets and byte streams from the broker, all CONNACK reason codes, every close point during the handshake, every form of address, any commands queued beforehand",
  "No test performs a handshake.",
  ["src/lib.rs", "src/client.rs", "src/protocol/connect.rs", "src/protocol/connack.rs"],
  [("connect state of EventLoop, handshake part of poll", "src/lib.rs"), ("Connect::convert_to_mqtt", "src/protocol/connect.rs")],
  ["event-loop result", "bytes at a loopback broker", "Notification stream"])

p("C15", "Requests MQTT cannot encode are refused, not garbled",
  "A publish, subscribe or unsubscribe whose topic, or any string or binary property, exceeds 65535 bytes, or with U+0000 in a topic or string property, or whose packet would exceed the MQTT maximum size, is refused with Err at the call and leaves no trace on the wire. "
  "Everything up to exactly those limits is accepted and sent correctly (payloads and binary data may contain any bytes), and a refusal does not affect the commands around it.",
  ["inputs"], "all sizes around 65535/65536 (and multiples of 65536) of every string and binary field, singly and together, and U+0000 anywhere in any of them, mixed with ordinary commands",
  "No test uses the client API; the boundary is one value per field.",
  ["src/client.rs", "src/protocol/mod.rs", "src/protocol/properties.rs"],
  [("size validation in Client methods", "src/client.rs"), ("string length prefix", "src/protocol/mod.rs")],
  ["return values of Client methods", "bytes at a loopback broker"])

p("C16", "Dropping handles neither stops the session nor burns CPU",
  "Dropping the notification receiver, or some or all client handles, at any time leaves the session running: accepted commands are still sent, received QoS 1 messages still acknowledged, pings still sent, and messages still delivered as long as the receiver exists. "
  "Whenever there is nothing to do the event loop goes idle: it does not ask to be run again until a command, network activity or a timer gives it work.",
  ["histories", "schedules"], "all points at which each handle or the receiver may be dropped, in any session history",
  "No test drops a handle around a running event loop.",
  ["src/lib.rs", "src/client.rs"],
  [("end-of-commands arm and notification send results", "src/lib.rs poll")],
  ["bytes at a loopback broker", "wake-ups of the EventLoop future", "Notification stream"])

p("C17", "A slow application loses nothing",
  "If the application stops taking notifications for a while, no notification, acknowledgement or command is lost, duplicated or reordered however many packets arrive meanwhile, and no more than a bounded number of notifications is buffered. "
  "When it resumes, everything is delivered in order and the session carries on.",
  ["schedules", "histories"], "all pause/resume schedules of the consumer x bursts of any length (beyond the notification buffer) of any notification kind, mixed with outbound commands",
  "No test has a notification consumer.",
  ["src/lib.rs", "src/client.rs"],
  [("awaited notification sends", "src/lib.rs poll"), ("bounded notification channel", "src/client.rs Client::new")],
  ["Notification stream", "bytes at a loopback broker"])

p("C18", "QoS 2 messages follow the exactly-once handshake",
  "A QoS 2 publish is sent once with an identifier no other unacknowledged request uses, and the PUBREC/PUBREL/PUBCOMP exchange then completes without disturbing the session. "
  "A received QoS 2 message is never acknowledged with PUBACK and never delivered more than once.",
  ["histories"], "all QoS 2 publishes in either direction, mixed with other traffic, with duplicates",
  "No test involves QoS 2 beyond the enum.",
  ["src/lib.rs", "src/protocol/mod.rs", "src/protocol/publish.rs"],
  [("ExactlyOnce arms", "src/lib.rs poll"), ("parse_pkt", "src/protocol/mod.rs")],
  ["bytes at a loopback broker", "Notification stream", "event-loop result"])

p("C19", "Concurrent handles, directions and connections do not interfere",
  "With handles used from several threads at once, traffic flowing in both directions and several connections open in one process, each thread's accepted commands still go out once each in that thread's order and on its own connection only, identifiers stay unique per connection, and every connection's inbound messages are delivered to its own application once each in order. "
  "The event loop makes progress under any scheduler, single- or multi-threaded, however rarely or often it is polled, and neither direction starves the other: while the broker sends without a break, accepted commands still go out.",
  ["schedules", "histories"], "all interleavings of threads, connections, directions and executor polls",
  "No test uses more than one thread, or any event loop.",
  ["src/lib.rs", "src/client.rs"],
  [("command and notification channels", "src/client.rs"), ("select! loop", "src/lib.rs poll")],
  ["bytes at loopback brokers", "Notification streams"])

p("C20", "What a session holds is bounded by what is outstanding, not by its age",
  "However long a session runs and whatever has passed through it, the memory it holds depends only on what is outstanding at the moment - requests not yet sent or not yet acknowledged, notifications not yet taken - and on the most of these and the largest packet it has seen: with everything acknowledged and taken, repeating the same traffic, with the same or ever new contents, leaves no more memory in use than before. "
  "While nothing can be sent, a given set of handles can queue only a bounded number of commands, and further ones are refused; while the broker does not read or the application takes no notifications, what the broker sends is not collected without bound. "
  "When the event loop has completed or is dropped its connection is closed, and when the handles and the receiver are dropped too, all memory of the session is released.",
  ["histories", "fault_sequences"], "all histories of requests, acknowledgements (with any reason, also unsolicited ones), messages, refused calls, handles, pauses and pings, repeated without end; all ways a session ends, in any number of sessions; all ways of being unable to send or deliver",
  "Tests look at no history longer than a dozen calls, and not at memory or connections.",
  ["src/lib.rs", "src/client.rs", "src/pktids.rs", "src/mqtt_codec.rs"],
  [("queue, subscribes and unsubscribes of poll", "src/lib.rs"), ("channels of Client::new", "src/client.rs"), ("PktIds::return_id", "src/pktids.rs")],
  ["bytes allocated by the thread that runs the session", "return values of Client methods", "the broker's end of the connection"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
