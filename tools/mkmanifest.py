#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
T = {
 "C01": ("property-based testing: generated publishes, round trip through a reference MQTT 5 decoder", "sizes up to the format boundaries and a few MB; the reference decoder in wire.rs is trusted"),
 "C02": ("property-based testing: generated requests, round trip through a reference MQTT 5 decoder", "filters up to 65535 bytes; the reference decoder is trusted"),
 "C03": ("model-based testing: generated command/poll/drop histories against a queue model; threaded histories", "schedules are those the harness drives by hand, plus sampled real threads"),
 "C04": ("model-based testing: histories of requests and (spurious) acknowledgements; small-scope enumeration of the allocator", "session histories are sampled; the allocator is searched exhaustively for small maxima and depths"),
 "C05": ("model-based testing: identifier exhaustion and churn histories; allocator against a set model", "as C04; up to all 65535 identifiers in flight"),
 "C06": ("property-based testing: generated PUBLISH packets compared with the notification text, read by a Debug-format parser", "relies on notifications showing the fields as derived Debug text does; extra fields are tolerated"),
 "C07": ("property-based testing: generated CONNACK/SUBACK/UNSUBACK/PUBACK packets compared with the notification", "as C06"),
 "C08": ("metamorphic testing: one stream under different segmentations must behave alike, in sessions and in the decoder", "segmentations are generated; a socket may merge writes, which the decoder phase does not"),
 "C09": ("model-based testing: generated inbound histories, PUBACKs compared with the expected sequence", "all 65535 identifiers are covered; histories are sampled"),
 "C10": ("fuzzing: random and structurally mutated byte streams, before and after CONNACK", "sampled byte strings; overflow checks are on as in the project's dev profile"),
 "C11": ("fuzzing with a defect grammar: well-formed prefix, one malformed packet of a known kind, arbitrary tail", "the kinds of defect are those the statement lists"),
 "C12": ("stateful property-based testing on a virtual clock: timings of PINGRESPs, traffic and stalls", "tokio's paused clock stands for time"),
 "C13": ("stateful property-based testing and fault injection: every close position, reset, DISCONNECT and disconnect call", "close positions are generated over streams of known packets"),
 "C14": ("property-based testing and fault injection on the handshake", "generated first packets, delays and failures"),
 "C15": ("boundary-directed property-based testing of field and packet sizes", "sizes around the limits; packets up to the 256 MB maximum once per run"),
 "C16": ("stateful property-based testing with handle drops and a counting waker", "idle means no wake-up while neither time nor network moves"),
 "C17": ("stateful property-based testing with a pausing consumer", "pauses and bursts are generated"),
 "C18": ("model-based testing of the QoS 2 handshake, with two known findings set aside by signature", "the exchange itself cannot complete on this tree (known findings); what precedes it is checked"),
 "C19": ("stateful property-based testing of several sessions under generated schedules, and sampled real multi-threading", "real thread interleavings are sampled, not enumerated"),
 "C20": ("stateful property-based testing with a counting allocator: generated rounds of traffic repeated, sessions in turn, floods and full queues", "memory is what the thread running the session allocates less what it frees; kernel buffers do not count"),
}
here = os.path.dirname(os.path.abspath(__file__))
hook = "2d196653b9570d0a721d0593d7e5abd0f1e1c563"
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "hooks": {"guard": "--cfg ruq_verif", "enable": "RUSTFLAGS=\"--cfg tokio_unstable --cfg ruq_verif\" (build.sh); without the hooks build.sh falls back to the public interface", "source_commits": [hook]},
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough", "technique": t, "level": "exploration",
             "level_note": "Holds on every generated case; no proof. " + n[0].upper() + n[1:] + "."} for k, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "DESIGN.md explains the machinery; KNOWN_FINDINGS.txt lists recorded and repaired defects.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
assert ids == list(T), ids
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
