#!/usr/bin/env python3
# Source of properties.jsonl and MANIFEST.json (run: python3 doc/props.py).
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SRV = "cli/receiver/server/server.go"
REPOS = "cli/receiver/storage/store.go"
NAV = "cli/receiver/storage/packet.go"
PKG = "libs/egts/egts_pkg.go"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None), kw=kw))

prop("C01", "Every received position record is stored exactly once, in order",
 "Every record with position data in every complete, valid application-data packet that a terminal delivers is handed to each configured storage exactly once per reception, and the records of one connection reach each storage in the order in which they were sent. Nothing is ever stored that no terminal sent. This holds however the bytes are split or joined in transit, whatever other connections do, and when the receiver is killed and restarted at any moment (a kill may only lose the tail of what a connection has sent and not yet got confirmed).",
 ["inputs","schedules","crash_points","fault_sequences","histories"],
 "all packet sequences on all sets of connections, all fragmentations and delivery timings, all interleavings of connection handlers and stores, store delays and failures, connection ends, accept failures, and kill points",
 "TestServer sends one fixed packet in one piece on one connection to one store and counts one record.",
 [SRV, REPOS, PKG, "libs/egts/service_data_records.go", "libs/egts/record_data.go"],
 [("read loop that reassembles one packet from header and body length", SRV), ("record loop that builds one stored record per record with position data", SRV), ("fan-out to every store", REPOS)],
 [("recvPacket", "bytes of the packet being handled", SRV), ("exportPacket", "record being built", SRV)],
 ["Store.Save calls", "bytes on the connection"])

prop("C02", "A record is confirmed only after every storage accepted it",
 "When the receiver's response confirms a position record as processed, every configured storage had already accepted that record at the time the response was written. If any storage refused the record, the terminal is not told that it was processed. This holds for every record of a packet separately, for any mix of slow, failing and healthy storages, and across kills of the receiver at any point: a terminal that resends what was not confirmed ends up with every record stored.",
 ["fault_sequences","crash_points","schedules","histories"],
 "all patterns of store failures and delays over all records and stores, all kill points between save and acknowledgement, all interleavings",
 "No test makes a store fail or be slow, or kills the receiver; the only store used never refuses.",
 [SRV, REPOS], [("store first, then build and write the response", SRV), ("status of a record whose storing failed", SRV), ("Save reports the failure of any store", REPOS)],
 [("srResponsesRecord", "confirmations collected for the packet", SRV)], ["order of Store.Save completion and response write"])

prop("C03", "Every application-data packet gets exactly one correct response, in order",
 "For every complete application-data packet, valid or not, the receiver writes exactly one response packet on the same connection, after the packet arrived, in the order in which the packets arrived, carrying that packet's identifier. For a valid packet whose records were all stored the response reports success and confirms every record exactly once, in order, by its record number, with success and for the service type of the records. Responses are complete, decodable packets with correct checksums and lengths, whatever the number of records, and response packets or confirmations sent by a terminal are never answered.",
 ["inputs","schedules","histories","fault_sequences"],
 "all sequences of packets of every packet type and size on any number of connections, all fragmentations, store delays, and readers that accept the response only slowly",
 "TestServer compares one response to one packet with one record; nothing covers sequences, several records, terminal responses or slow peers.",
 [SRV, "libs/egts/egts_pt_response.go", "libs/egts/egts_sr_response.go", PKG],
 [("createPtResponse", SRV), ("reset of the per-packet state at the top of the loop", SRV)],
 [("serviceType, srResponsesRecord, srResultCodePkg", "per-packet answer state", SRV)], ["bytes written to the connection"])

prop("C04", "Damaged or undecodable packets are rejected without side effects",
 "A packet whose header or body checksum does not match, or whose contents cannot be decoded (encrypted without a key, unknown packet type, records or subrecords shorter than their stated length), never leads to a stored record or to a confirmation of success. The receiver answers it with a negative result for that packet's identifier. As long as the packet's length fields are intact the connection survives and the packets after it are handled as if the damaged one had never been sent.",
 ["inputs","fault_sequences","histories"],
 "all positions and values of transmission damage that leave the framing bytes intact, all undecodable contents, at any place in any packet sequence",
 "Tests decode a few fixed byte strings; none sends damage over a connection or looks at what follows.",
 [SRV, PKG, "libs/egts/crc.go"], [("header and body checksum verification", PKG), ("negative response and return to the read loop", SRV)], (), ["Store.Save calls", "responses"])

prop("C05", "No input from the network can crash or wedge the receiver",
 "Whatever bytes any set of clients sends, in whatever pieces and with whatever connection ends (half close, reset, stall), the receiver process neither crashes, exits, nor spins without end. After any such input it still accepts new connections and handles valid packets on them.",
 ["inputs","schedules","fault_sequences"],
 "all byte strings, including packets with valid checksums and arbitrary header lengths, flags, body lengths and record contents, on any number of connections",
 "A handful of well-formed byte strings are decoded by the tests; the input space is unbounded.",
 [SRV, PKG, "libs/egts/service_data_records.go", "libs/egts/record_data.go", "libs/egts/egts_sr_*.go"],
 [("length and version checks in the read loop", SRV), ("error returns in the decoders", PKG)], (), ["process exit, panic, responses on other connections"])

prop("C06", "What one connection does never changes another connection's service",
 "What a terminal is answered and what is stored for it depends only on its own traffic and on the storages: it is the same whether it is connected alone or together with any number of others, including ones that send garbage, stall in the middle of a packet, stop reading, get reset, or whose records fail to be stored. In particular no data, identity, packet number, response or failure of one connection ever shows up in another.",
 ["schedules","inputs","fault_sequences"],
 "all sets of concurrent connections, well behaved or not, and all interleavings of their handling",
 "The tests use a single connection.",
 [SRV, REPOS], [("one goroutine and one set of local variables per connection", SRV)], (), ["responses and Store.Save per connection, alone and together"])

prop("C07", "Silent connections are closed after the idle limit, active ones never",
 "With an idle limit configured, a connection on which nothing arrives for that long, whether between packets or in the middle of one, is closed by the receiver within about a second after the limit; any arriving data starts the limit anew. A connection is never closed for idleness earlier than the limit after its last data, however long it has been open; with the limit zero or negative a connection is never closed for idleness, and steps of the wall clock change none of this.",
 ["schedules","histories","configurations","fault_sequences"],
 "all arrival patterns in time, all limits, wall-clock steps, slow stores and end-of-stream at any point",
 "No test waits for the limit.",
 [SRV, "cli/receiver/config/config.go"], [("read deadline renewed by each read", SRV), ("timer after end of stream", SRV)], [("ttl", "idle limit", SRV)], ["time of close of the connection"])

prop("C08", "Records are attributed to the client identity in force on their connection",
 "A stored record carries the object identifier of its own record if the record has one; otherwise the identity most recently established earlier on the same connection, by an object identifier or by a terminal identity; otherwise zero. An identity is never taken from another connection, from an earlier connection of the same terminal, from a rejected packet, or from later data.",
 ["histories","inputs","schedules"],
 "all sequences of records with and without object identifiers and terminal identities on any number of interleaved connections",
 "The only stored record the tests look at comes from a single packet.",
 [SRV], [("client variable of the connection handler", SRV)], [("client", "identity in force", SRV)], ["client field of stored records"])

prop("C09", "A stored record says exactly what the terminal sent",
 "Every field of a stored record equals what the terminal sent: packet number (or the record number of counters 110 and 111), navigation time, signed latitude and longitude, speed, course from 0 to 359, dilution values, satellites and navigation systems, every present analogue sensor and every liquid level sensor with number, error flag and value in its unit. Fields that were not sent are empty, and no value comes from another record, packet or connection. The serialised form given to storages is valid JSON with exactly these values.",
 ["inputs","schedules","histories"],
 "all field values and combinations of subrecords in all positions of a packet, in all sequences of packets on interleaved connections, with storages that serialise a record immediately or later",
 "Decoder tests check fixed examples of each subrecord; the mapping to the stored record is checked by none.",
 [SRV, NAV, "libs/egts/egts_sr_pos_data.go", "libs/egts/egts_sr_ext_pos_data.go", "libs/egts/egts_sr_ad_sensors_data.go", "libs/egts/egts_sr_liquid_level_sensor.go"],
 [("subrecord switch that fills the stored record", SRV), ("subrecord decoders", "libs/egts"), ("NavRecord JSON", NAV)], (), ["bytes given to Store.Save"])

prop("C10", "Each authorisation request is answered with one result packet",
 "After the response to a packet that carries a terminal identity or authorisation data, the receiver sends exactly one further packet: application data for the authorisation service with a single successful result code, decodable like any other. No such packet is sent for packets without an authorisation request, for rejected packets, or on another connection, and it never precedes the response to the same packet or follows the response to a later one.",
 ["inputs","histories","schedules"],
 "all placements of authorisation subrecords in packet sequences on interleaved connections, with store delays and slow readers",
 "No test sends an authorisation request to the receiver.",
 [SRV, "libs/egts/egts_sr_result_code.go"], [("createSrResultCode after the response", SRV)], [("srResultCodePkg", "pending result packet", SRV)], ["packets written to the connection"])

prop("C11", "The receiver keeps accepting until stopped, then stops cleanly",
 "Transient failures to accept a connection never end the service: connections that follow are accepted and served. Once Stop is called the listening address is released, no later connection is accepted and Run returns promptly. Connections that have ended are closed and leave no goroutine or descriptor behind once their idle limit has passed, however they ended.",
 ["schedules","fault_sequences","histories"],
 "all accept-failure patterns, all moments of Stop relative to connections and their handling, all ways a connection can end",
 "The test calls Stop at the very end and never looks at its effect.",
 [SRV], [("accept loop", SRV), ("deferred close", SRV)], [("l", "listener", SRV)], ["listener state, return of Run, open connections and goroutines"])

prop("C12", "A slow or stuck party delays only its own connection",
 "A complete packet is answered as soon as its own storages have finished with its records: neither a terminal that stalls in the middle of a packet, stops reading, is partitioned or idle, nor slow storing of another connection's records (whatever the storages: the real database connectors included) delays acceptance of a new connection or service of any other one. Once faults stop, every complete packet on a live connection has been answered within a bounded time.",
 ["schedules","fault_sequences"],
 "all placements of stalls, partitions, full send buffers and slow stores among concurrent connections",
 "Tests have one connection and instant stores.",
 [SRV, REPOS], [("goroutine per connection", SRV), ("no lock held across Save", REPOS)], (), ["time from arrival to response"])

prop("C13", "Storages are independent of each other",
 "With several storages, each of them is offered every position record exactly once even when others fail for that record or fail always. A record that any storage refused is reported to the caller as failed, and only then. Storages see the same content for the same record.",
 ["configurations","fault_sequences","schedules"],
 "all numbers and orders of storages and all failure and delay patterns per record and storage",
 "Tests use one store that never fails.",
 [REPOS, SRV], [("loop over the stores collecting the first error", REPOS)], [("storages", "configured stores", REPOS)], ["Store.Save calls per store", "record status in responses"])

prop("C20", "The reception time of a record is when its packet was received",
 "The reception time stored with every record of a packet is the wall-clock time (UTC, whole seconds) at which the receiver had received that packet: not earlier than its last byte arrived, not that of an earlier or later packet, not of the start of the connection, and unaffected by how long storing takes. When the wall clock is stepped, it is the stepped clock's time.",
 ["schedules","histories","fault_sequences"],
 "all arrival times, fragmentations with pauses, storing delays and wall-clock steps",
 "No test looks at the reception time.",
 [SRV, NAV], [("timestamp taken after the packet was read", SRV)], (), ["received_unix_time of stored records"])

exec(open(os.path.join(root, "doc", "props_more.py")).read()) if os.path.exists(os.path.join(root, "doc", "props_more.py")) else None

NA = []

TECH = "deterministic simulation with fault injection: seeded search over schedules, deliveries and faults, with history oracles"
NOTE = ("Seeded search, not proof: the real code under a simulated scheduler, clock, network and storage; every violation is replayed exactly and minimised before it is reported. "
        "Trusts the simulator's model of TCP, time and goroutine switching (between statements, not inside one) and the reference model of the protocol in sim/ref.")
order = sorted(P, key=lambda p: p["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in order:
        q = {k: v for k, v in p.items() if k != "kw"}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
na = []
M = dict(version=1, setup_cmd="./setup.sh",
  hooks=dict(guard="none: no hook is committed in /repo", enable="the checks instrument a copy of the sources at build time through go build -overlay", source_commits=[]),
  checks=[], not_applicable=na,
  notes="check.sh PROPERTY TIER builds the simulator around /repo's working tree (go build -overlay) and searches seeds; replay.sh FILE re-executes a replay file. Replays are written to replays/.")
for p in order:
    M["checks"].append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=p["kw"].get("tech", TECH), level="exploration", level_note=p["kw"].get("note", NOTE)))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1, ensure_ascii=False); f.write("\n")
for p in order: assert len(p["title"]) <= 80, p["id"]
