#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe or ["bytes written to each client TCP connection"],
            hook_needed=hook)))

TREE=("SubscriptionTree", "filter hierarchy -> subscription leaves", "src/topic_heir.rs")
SESS=("App.sessions", "client id -> session (identity, outbound queue)", "src/core/mod.rs")

p("C01", "A publish reaches exactly the matching subscribers, once each",
  "A PUBLISH sent by a connected client is delivered to exactly those connected clients (the publisher included) that hold at least one subscription whose filter matches the topic by the MQTT 3.1.1 rules: '+' matches exactly one level (an empty one too), a trailing '#' matches the parent level and everything below it, levels compare byte for byte, and a filter starting with a wildcard never matches a topic starting with '$'. Each such client gets the message once, even when several of its filters match; nobody else gets it.",
  ["inputs", "histories"], "all valid filters x topics over a small level alphabet up to the depth bound, alone and in overlapping pairs held by one or two clients",
  "The tree tests insert one or two filters and print the result without asserting; matching is a relation over all filter/topic pairs and all sets of filters sharing tree nodes.",
  ["src/topic_heir.rs", "src/utils.rs", "src/core/mod.rs"],
  [("SubHier::get / SubscriptionTree::get descent and de-duplication", "src/topic_heir.rs"), ("App::publish fan-out", "src/core/mod.rs")], [TREE])

p("C02", "SUBSCRIBE/UNSUBSCRIBE histories act as a map from client+filter to QoS",
  "After any sequence of acknowledged SUBSCRIBE and UNSUBSCRIBE packets by any clients, the subscriptions in force are those of a plain map from (client, filter) to the QoS granted last: subscribing again to the same filter replaces the earlier entry, UNSUBSCRIBE removes that filter of that client and nothing else (no filter nested below or above it, no overlapping filter, no other client's entry), and removing a filter that is not held changes nothing.",
  ["histories"], "all operation sequences up to the depth bound over a few nested/overlapping filters and two clients, probed with publishes after every sequence",
  "Deletion prunes shared tree nodes; whether it prunes too much or too little depends on which sibling, nested and foreign entries exist at that moment. The single delete test asserts nothing about what is left.",
  ["src/topic_heir.rs", "src/core/mod.rs"],
  [("SubHier::insert/delete with node pruning", "src/topic_heir.rs"), ("App::subscribe/unsubscribe", "src/core/mod.rs")], [TREE])

p("C03", "Delivered messages carry the published topic and payload unchanged",
  "Every PUBLISH a subscriber receives has exactly the topic and payload bytes that some client published (payload bytes are opaque, may be empty, and may have any size up to the protocol's maximum), with DUP clear and RETAIN clear. Sizes at which the length encoding gains a byte are no exception.",
  ["inputs"], "payload and topic lengths around every boundary of the encodings and of the internal buffers, all short payloads over an alphabet of special bytes",
  "Existing tests pack and unpack one 6-byte payload; the length encoding has four regimes and the read/write paths have buffer boundaries no test crosses.",
  ["src/packets/mod.rs", "src/packets/utils.rs", "src/handler.rs"],
  [("encode_length/decode_length", "src/packets/utils.rs"), ("Packet::pack/unpack", "src/packets/mod.rs")])

p("C04", "Outbound QoS is the minimum of publish and subscription, with packet ids",
  "A message is delivered to a client at QoS min(QoS of the incoming PUBLISH, highest QoS granted to that client among its matching subscriptions), where SUBACK grants the QoS that was requested. A delivery at QoS 1 or 2 carries a non-zero packet identifier different from that of every other delivery to that client not yet fully acknowledged; a QoS 0 delivery carries none.",
  ["inputs", "histories"], "all combinations of publish QoS and one or two overlapping subscriptions with all QoS pairs, and sequences of deliveries longer than the set of ids in flight",
  "No test covers a delivery at all; the result depends on the combination of several subscriptions and on what is in flight.",
  ["src/core/mod.rs", "src/topic_heir.rs", "src/packets/mod.rs"],
  [("App::publish building the outbound packet", "src/core/mod.rs"), ("QoS merge in SubscriptionTree::get", "src/topic_heir.rs")], [TREE, SESS])

p("C05", "Messages of one publisher arrive in the order they were sent",
  "If a client publishes two messages on one connection, every subscriber that receives both receives them in the order they were sent, whatever else the broker is doing at that time. No message is lost or duplicated on the way to a subscriber that stays connected and keeps reading.",
  ["schedules"], "all schedules of reader, broker and writer tasks up to the deviation bound, with concurrent publishers, pipelined input and short or delayed socket writes",
  "No test runs the handler or the broker loop; ordering depends on the interleaving of tasks and on partial reads and writes.",
  ["src/handler.rs", "src/core/mod.rs", "src/main.rs"],
  [("single command queue and per-client queue", "src/main.rs"), ("select loop in client_handler", "src/handler.rs")], [SESS])

p("C06", "SUBACK and UNSUBACK are barriers for delivery",
  "Once a client has been sent the SUBACK for a filter, every matching message a connected client sends afterwards is delivered to it; once it has been sent the UNSUBACK, no message sent afterwards is delivered to it for that filter. Messages sent while the request is outstanding may go either way but are delivered at most once.",
  ["schedules"], "all schedules up to the deviation bound of subscribing, unsubscribing and publishing clients",
  "It relates the moment of an acknowledgement on one connection to effects on another, over all interleavings; the tests are sequential and touch no connection.",
  ["src/handler.rs", "src/core/mod.rs", "src/main.rs"],
  [("oneshot reply before SUBACK/UNSUBACK is written", "src/handler.rs"), ("App::subscribe/unsubscribe", "src/core/mod.rs")], [TREE])

p("C07", "Every request gets exactly its acknowledgement, in order",
  "A connected client receives, in the order of its requests, exactly one response to each: SUBACK for SUBSCRIBE (one return code per filter, in order), UNSUBACK for UNSUBSCRIBE, PUBACK for PUBLISH at QoS 1, PUBREC for PUBLISH at QoS 2, PUBCOMP for PUBREL, PUBREL for PUBREC, PINGRESP for PINGREQ, each with the packet identifier of the request. QoS 0 PUBLISH, PUBACK and PUBCOMP get none, and no other packet than CONNACK and deliveries is sent.",
  ["inputs", "histories", "schedules"], "all packet sequences up to the depth bound over the whole client alphabet and special packet ids, one by one and pipelined, with deliveries interleaved",
  "The tests only pack single acknowledgements; the response to a packet depends on what came before and on pipelining.",
  ["src/handler.rs", "src/packets/mod.rs"],
  [("response table in client_handler", "src/handler.rs"), ("Packet::make_*", "src/packets/mod.rs")])

p("C08", "A QoS 2 message is routed exactly once despite retransmission",
  "While a packet identifier is in use by a QoS 2 PUBLISH whose PUBREL the broker has not received yet on that connection, further QoS 2 PUBLISH packets with that identifier are answered with PUBREC but not delivered again. After the PUBREL the identifier denotes a new message; different identifiers never interfere.",
  ["histories"], "all sequences up to the depth bound of QoS 2 PUBLISH (with and without DUP), PUBREL and other publishes over two packet identifiers",
  "Exactly-once is a statement about all retransmission histories; no test sends a PUBLISH to a handler.",
  ["src/handler.rs"],
  [("QoS 2 receive path in client_handler", "src/handler.rs")])

p("C09", "How bytes are cut into TCP segments never matters",
  "The broker's behaviour depends on the byte stream of a connection only, not on how it is split or coalesced by reads, nor on whether its own writes are accepted in part: for every segmentation the same packets are processed with the same contents and every byte stream sent to a client is the same sequence of whole packets.",
  ["inputs", "schedules"], "every set of cut points of short conversations, every single and double cut of longer ones, all read sizes around buffer boundaries, short and pending writes",
  "Tests call the decoder with whole packets; real sockets return arbitrary prefixes and accept arbitrary parts.",
  ["src/handler.rs", "src/packets/mod.rs"],
  [("read buffering and framing in client_handler", "src/handler.rs"), ("Packet::unpack", "src/packets/mod.rs")])

p("C10", "Malformed input closes its own connection and has no other effect",
  "For every byte sequence a client may send, the broker does not panic, overflow, hang or spin; a packet that is malformed or not allowed from a client closes the connection it came on without any part of it taking effect. Packets before it take effect as usual, and other connections and later connections are served as if it had not been sent.",
  ["inputs"], "all byte strings up to the length bound over a structural alphabet as first and later packets, every single-byte change, truncation, extension and length change of each valid packet, extreme nesting",
  "Robustness is a statement over all inputs; tests feed four well-formed packets and one short integer.",
  ["src/packets/mod.rs", "src/packets/utils.rs", "src/packets/enums.rs", "src/packets/headers/fixed_header.rs", "src/handler.rs"],
  [("checked decoding", "src/packets/mod.rs"), ("decode_length", "src/packets/utils.rs"), ("error path of client_handler", "src/handler.rs")])

p("C11", "The CONNECT handshake is enforced",
  "On every connection the first packet the broker sends is a single CONNACK and nothing a client sends takes effect or is answered before a successful CONNECT; any other first packet closes the connection. An unsupported protocol level is answered with CONNACK code 1 and an empty client identifier without clean session with CONNACK code 2, then closed; every valid CONNECT (with any combination of will, user name, password and clean session) is accepted with code 0; a second CONNECT closes the connection.",
  ["inputs", "histories"], "all packet types as first packet, all connect-flag bytes and protocol levels, all short packet sequences around CONNECT, pipelined or not",
  "Tests decode one CONNECT; the handshake is a state machine in the untested handler.",
  ["src/handler.rs", "src/packets/mod.rs", "src/packets/headers/connect.rs", "src/core/mod.rs"],
  [("has_connected state in client_handler", "src/handler.rs"), ("CONNECT branch of VariableHeader::unpack", "src/packets/mod.rs")])

p("C12", "The newest connection of a client identifier wins and stays usable",
  "When a client connects with the identifier of a connection that is still open, the older connection is closed and the newer one works: it is accepted, its subscriptions are acknowledged and served, and nothing the older connection was still doing (a DISCONNECT, a subscribe, an abrupt end) ends or disturbs the newer one. At no time do two connections with one identifier both receive new messages for good. Identifiers are equal only if they are so byte for byte; different ones, however similar, never interfere.",
  ["schedules"], "all schedules up to the deviation bound of two or three connections sharing an identifier with requests, DISCONNECT or loss in flight on the older ones",
  "The outcome depends on the order in which commands of both connections reach the broker; no test opens a connection.",
  ["src/core/mod.rs", "src/handler.rs", "src/main.rs"],
  [("App::connect takeover", "src/core/mod.rs"), ("App::disconnect", "src/core/mod.rs"), ("Disconnect event in client_handler", "src/handler.rs")], [SESS])

p("C13", "Sessions persist exactly when clean session is not set",
  "A client that connected without clean session and reconnects without it, after any kind of disconnection, finds its subscriptions in force and is told 'session present'; a CONNECT with clean session, or one after a clean-session connection ended, starts with no subscriptions and 'session present' clear. Old subscriptions of an ended session neither deliver nor hide deliveries of later ones.",
  ["histories"], "all histories up to the depth bound of connect (clean or not), subscribe, unsubscribe and each kind of disconnection for one client identifier, probed with publishes",
  "Which subscriptions are in force is a function of the whole connect/disconnect history, and no test has more than one step.",
  ["src/core/mod.rs", "src/core/session.rs", "src/handler.rs", "src/topic_heir.rs"],
  [("App::connect/disconnect", "src/core/mod.rs"), ("Session identity", "src/core/session.rs")], [SESS, TREE])

p("C14", "Losing one connection at any point affects no other",
  "If a connection is closed, half-closed or reset by its peer at any point of its conversation (mid-packet, mid-handshake, while messages to it are in flight, or while the broker writes), every other connection gets the acknowledgements and deliveries it would have got anyway, packets received completely before the loss take full effect, incomplete ones none. The broker promptly closes its own side and keeps no task spinning or waiting for it.",
  ["fault_sequences", "crash_points", "schedules"], "every byte position and every step of each conversation as the point of loss, each kind of loss, with schedules up to the deviation bound",
  "It quantifies over all fault points; the tests inject none.",
  ["src/handler.rs", "src/core/mod.rs", "src/main.rs"],
  [("EOF and error handling of the read branch", "src/handler.rs"), ("ignoring dead receivers in App::publish", "src/core/mod.rs")], [SESS])

p("C15", "A slow or flooding client cannot stall the others",
  "However fast clients publish and however slowly or never some of them read, the broker keeps serving the others: their requests are acknowledged, messages between clients that keep reading are delivered, new clients can connect and a takeover succeeds. A client for which more than 10,000 messages wait may be disconnected; it is never silently skipped. No combination of full queues makes broker and connections wait for each other.",
  ["schedules", "histories"], "flooding and non-reading clients against all base schedules and all deviations up to the bound, with queue depths around the configured capacities",
  "A deadlock needs several queues to be full at once under particular interleavings; the tests have neither queues nor tasks.",
  ["src/core/mod.rs", "src/handler.rs", "src/main.rs"],
  [("bounded command and client queues", "src/main.rs"), ("App::publish/connect sending to client queues", "src/core/mod.rs")],
  [("channel(100)", "command queue and per-client queue capacities", "src/main.rs, src/handler.rs")])

p("C16", "Keep-alive closes silent connections and only those",
  "A connection with keep-alive K > 0 is closed by the broker once no complete packet of any type has arrived for between K and one and a half times K seconds, and is never closed for inactivity while packets of any type arrive at most K seconds apart; with K = 0 it is never closed for inactivity. A connection that does not complete its CONNECT is closed within 60 seconds. Clients are assumed to read what they are sent; one that does not is closed by the same limits, except that K = 0 sets none.",
  ["histories", "schedules"], "all sequences up to the depth bound of waiting just under or over the limits and sending each packet type, for several K including 0 and extremes, in virtual time",
  "It quantifies over timing histories; the tests have no clock.",
  ["src/handler.rs"],
  [("keepalive_timer in client_handler", "src/handler.rs")],
  observe=["virtual time at which the broker closes the connection"])

p("C17", "Shutdown always completes",
  "After the interrupt signal the broker stops accepting, closes every connection and terminates, from every state it can be in: idle, clients connecting, requests in flight, queues full, clients that do not read. It does so without waiting for any client to act.",
  ["schedules", "crash_points"], "the interrupt at every step of several conversations, with schedules up to the deviation bound and blocked clients",
  "The point of the signal and the state of all queues are universally quantified; no test starts the broker.",
  ["src/main.rs", "src/handler.rs"],
  [("ctrl_c branch, Command::Exit, CancellationToken, TaskTracker", "src/main.rs")],
  observe=["the main function returns", "connections are closed"])

p("C18", "The broker's statistics are exact",
  "Once the broker is quiet, the counters behind the $SYS statistics equal what happened on the wire since start: bytes and packets received (of complete, well-formed packets), bytes and packets sent, PUBLISH packets received and sent, and the number of client connections currently open. This holds however connections ended.",
  ["histories", "schedules", "fault_sequences"], "all short packet sequences of the whole alphabet, all kinds of connection ends, and schedules up to the deviation bound, compared with the wire log",
  "The counters summarise whole histories including all error exits; no test reads them.",
  ["src/core/broker_info.rs", "src/handler.rs"],
  [("broker_info counters", "src/core/broker_info.rs"), ("client_inc/client_dec on all exits", "src/handler.rs")],
  [("broker_info statics", "counters", "src/core/broker_info.rs")],
  observe=["broker_info::get_stats()"])

p("C19", "Invalid topic names and filters are refused",
  "A PUBLISH whose topic is empty or contains '+' or '#' is delivered to nobody and closes its connection. A filter that is empty, has '#' anywhere but as the whole last level, mixes '+' or '#' with other characters in a level, or has one of them in the name of its group ($share/<group>/...) never gets a success code and never matches anything, while the other filters of the same SUBSCRIBE are granted normally, and every valid filter of up to 200 levels is granted (deeper ones may be refused).",
  ["inputs"], "all strings up to the length bound over {a, /, +, #} as topic names and as filters",
  "Validity is a predicate over all strings; no test covers an invalid one.",
  ["src/topic_heir.rs", "src/utils.rs", "src/packets/mod.rs", "src/core/mod.rs"],
  [("filter validation on insert", "src/topic_heir.rs"), ("topic validation on decode", "src/packets/mod.rs")], [TREE])

p("C20", "$share/<group>/ is a namespace of its own",
  "A subscription to $share/<group>/<filter> receives exactly the messages published to $share/<group>/<topic> with the same group and a topic matching the filter. It never receives messages published to other groups or to ordinary topics, ordinary subscriptions never receive messages published below $share/, and subscribing or unsubscribing in one group leaves equal filters in other groups and outside alone.",
  ["inputs", "histories"], "all short subscribe/unsubscribe histories over equal filters inside two groups and outside, probed with publishes in each namespace",
  "The group is a side table on the same tree nodes; leaks between tables depend on which entries share a node. The tests only print.",
  ["src/utils.rs", "src/topic_heir.rs"],
  [("tokenise_topic", "src/utils.rs"), ("SubHier.shared", "src/topic_heir.rs")], [TREE])

p("C21", "Memory is given back: nothing is kept after its use",
  "Repeating the same work does not make the broker's memory grow: once a client is gone and its clean session over, nothing of its connection, subscriptions, requests or messages is kept, however it ended, and a connection that stays keeps nothing for requests, deliveries and filters that are over. Only the subscriptions of a session that persists are kept, once. An incomplete packet takes memory for the bytes that arrived, not for the length it announces.",
  ["histories", "fault_sequences"], "all short sequences of operations times all kinds of endings, each repeated hundreds of times with fresh names, with the bytes allocated by the broker counted before and after; all pairs of operations on a connection that stays, repeated thousands of times",
  "A leak is no wrong answer to any single input; it shows only when the memory after a history is compared with the memory before it. No test measures memory or runs the broker.",
  ["src/topic_heir.rs", "src/core/mod.rs", "src/core/session.rs", "src/handler.rs", "src/main.rs"],
  [("SubHier::delete pruning", "src/topic_heir.rs"), ("App::end_session", "src/core/mod.rs"), ("in_flight/received sets, read buffer", "src/handler.rs"), ("TaskTracker, CancellationToken children", "src/main.rs")], [TREE, SESS],
  ["bytes allocated and not freed by the broker's code"])

p("C22", "An answer never overtakes what it answers",
  "If a client sends a message after another message had already been delivered to some client (to itself or to anyone), every client that receives both on one connection receives the earlier one first, whoever published them, at whatever QoS, through whichever subscriptions, and however far that client is behind in reading.",
  ["schedules", "histories"], "all schedules up to the deviation bound of a message, the answer to it and observers of both; chains of answers; observers with queues of every critical length",
  "It relates deliveries on three connections to each other over all interleavings of their tasks and all states of their queues; no test has even one connection.",
  ["src/main.rs", "src/core/mod.rs", "src/handler.rs"],
  [("single command queue", "src/main.rs"), ("App::publish fan-out into per-client queues", "src/core/mod.rs")], [SESS])

# ---- not claimed (features the code base does not have) -------------------------------------
p("C30", "Retained messages",
  "The last PUBLISH with RETAIN set on a topic is kept and delivered with RETAIN set to every later matching subscription; an empty one clears it.",
  ["histories"], "all publish/subscribe histories", "Not covered by any test; the feature is absent.",
  ["src/core/mod.rs"], [("none: RETAIN is ignored", "src/core/mod.rs")])
p("C31", "Will messages",
  "A will given in CONNECT is published exactly once iff the connection ends without DISCONNECT.",
  ["fault_sequences"], "all ways a connection can end", "Not covered by any test; the feature is absent.",
  ["src/handler.rs"], [("none: the will is parsed and dropped", "src/handler.rs")])
p("C32", "Offline queueing and retransmission for persistent sessions",
  "QoS 1 and 2 messages for a disconnected persistent session, and unacknowledged ones, are delivered when it reconnects.",
  ["fault_sequences", "histories"], "all points of disconnection", "Not covered by any test; the feature is absent.",
  ["src/core/mod.rs"], [("none: nothing is queued for absent clients", "src/core/mod.rs")])
p("C33", "$SYS topics are published",
  "The statistics listed in the README are published below $SYS/broker/ at the configured interval.",
  ["histories"], "all histories", "Not covered by any test; the feature is absent.",
  ["src/core/broker_info.rs", "src/config.rs"], [("none: sys_interval is unused", "src/config.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
