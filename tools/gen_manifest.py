#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
TECH = "stateless model checking of the real broker: exhaustive enumeration of "
T = {
 "C01": "all filter/topic pairs and filter sets up to a depth, executed on the broker, against a reference matcher",
 "C02": "all SUBSCRIBE/UNSUBSCRIBE histories up to a depth, against a map model",
 "C03": "payload/topic sizes around every length boundary and all short contents, compared byte for byte",
 "C04": "all QoS combinations and acknowledgement histories, against the min/max rule and identifier bookkeeping",
 "C05": "all schedules up to a deviation bound of concurrent publishers, bursts and partial writes",
 "C06": "all schedules up to a deviation bound of subscribing, unsubscribing and publishing clients, must/may/must-not oracle",
 "C07": "all packet sequences up to a depth, one by one and pipelined, against the response table",
 "C08": "all QoS 2 histories up to a depth, against a set-of-identifiers model",
 "C09": "all segmentations of conversations and partial writes, against the unsegmented execution",
 "C10": "all byte strings up to a length and all mutations of valid packets, against an independent decoder",
 "C11": "all first packets, CONNECT flag/level/identifier combinations and short sequences, against the handshake automaton",
 "C12": "all schedules up to a deviation bound of connections sharing a client identifier",
 "C13": "all connect/subscribe/disconnect histories up to a depth, against a session model",
 "C14": "all points and kinds of connection loss, with schedules up to a deviation bound",
 "C15": "floods and stalls around every queue capacity under all base schedules, deviations up to a bound",
 "C16": "all timing histories up to a depth in virtual time, against the keep-alive automaton",
 "C17": "the interrupt at every step of conversations, with schedules up to a deviation bound",
 "C18": "packet histories, connection ends and schedules, counters compared with the wire log",
 "C19": "all strings over {a,/,+,#} up to a length as filter and topic, against the validity predicate",
 "C21": "all short histories of operations and endings, repeated, with the broker's allocations counted",
 "C22": "all schedules up to a deviation bound of messages and the answers to them, over chains, slow observers and full queues",
 "C20": "all histories over equal filters inside and outside share groups, against a namespaced map model",
}
EXTRA = {}
NOTE = ("Every execution within the stated bounds runs /repo's unmodified main() (compiled from the working tree) on a "
  "controlled runtime and is judged on the wire log; nothing is sampled. Trusts: the vendored tokio 1.37 with its scheduler, clock and network "
  "replaced by the explorer (interleavings at await points of one thread at a time, no weak-memory effects), the "
  "independent codec and reference models in mc/src. Beyond the bounds nothing is claimed.")
M = {"version": 1, "setup_cmd": "bash run.sh build", "checks": [], "not_applicable": [
 {"property":"C30","reason":"Feature absent from the code base (RETAIN is ignored): nothing to explore."},
 {"property":"C31","reason":"Feature absent from the code base (wills are parsed and dropped): nothing to explore."},
 {"property":"C32","reason":"Feature absent from the code base (no offline queue, no retransmission): nothing to explore."},
 {"property":"C33","reason":"Feature absent from the code base (no $SYS publication): nothing to explore."}]}
for i in sorted(T):
    M["checks"].append({"property": i, "quick_cmd": f"bash run.sh check {i} quick", "thorough_cmd": f"bash run.sh check {i} thorough",
      "evidence_file": f"evidence/{i}.json", "technique": TECH + T[i], "level": "model_checking", "level_note": NOTE})
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(M, open(p, "w"), indent=1); open(p, "a").write("\n")
