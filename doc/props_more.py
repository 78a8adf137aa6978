MAIN = "cli/receiver/main.go"
CONF = "cli/receiver/config/config.go"
CONN = ["cli/receiver/storage/store/postgresql/postgresql.go", "cli/receiver/storage/store/mysql/mysql.go", "cli/receiver/storage/store/redis/redis.go",
        "cli/receiver/storage/store/tarantool_queue/tarantool_queue.go", "cli/receiver/storage/store/nats/nats.go", "cli/receiver/storage/store/rabbitmq/rabbitmq.go"]
GEN = "cli/packet-gen/main.go"

prop("C14", "Configured databases and brokers get exactly the received records",
 "Each configured PostgreSQL, MySQL, Redis, Tarantool queue, NATS or RabbitMQ storage receives, at the table, key, queue, topic or exchange the configuration names, exactly the records terminals sent, each with its exact content in the serialised form, and nothing else. A record is confirmed to the terminal only if every configured PostgreSQL, MySQL, Redis and Tarantool queue storage has accepted it (NATS and RabbitMQ publish without acknowledgement, so for them a confirmation does not promise delivery of what was under way when the broker failed; while a broker is known to be unreachable, a record is either kept for it or not confirmed). After a database or broker was slow, refused a record, lost the connection, was restarted or unreachable, records are stored in it again soon after it is back, without a restart of the receiver and without a record it accepted being changed or stored under another packet. Slow storing of one terminal's records does not delay the storing of another's.",
 ["configurations", "fault_sequences", "schedules", "histories"],
 "all sets of storages and their settings, all sequences of records, all placements of slow answers, refusals, lost connections, restarts and outages of each back end relative to the records",
 "The integration tests need three real servers that are never slow, never fail and never restart; three of the six storages have no test at all.",
 CONN + [REPOS, NAV, MAIN],
 [("connection set-up from the settings and one write per record", ", ".join(CONN)), ("reconnection when the connection is lost", "cli/receiver/storage/store/rabbitmq/rabbitmq.go and the drivers")],
 [("connection or pool of each storage", "link to the back end", ", ".join(CONN))], ["what each simulated back end was given and answered", "responses to terminals"])

prop("C15", "The receiver starts exactly as configured, or refuses to start",
 "Given a valid configuration file the receiver serves on the configured host and port, applies the configured idle limit (conn_ttl, in seconds) and log level, and uses every configured storage that can be opened, with its own settings and credentials, whatever happens to the others. If a storage cannot be opened or is of an unknown kind, or none is configured, the receiver still serves with the storages that could be opened and prints each record to its log when the log level is informational or more verbose. Without a configuration file, with one that cannot be read or is not valid, or when the address is already in use, it ends with a nonzero status without having served anything.",
 ["configurations", "fault_sequences", "schedules"],
 "all configuration files (hosts, ports, limits, log levels, any set of storages with any settings and credentials), each storage reachable, refusing, or failing to open, and the address free or taken",
 "The configuration test parses one file; nothing runs the program with it.",
 [MAIN, CONF, REPOS] + CONN,
 [("reading and applying the configuration", MAIN), ("configuration parsing and log level", CONF), ("loading of the storages and fallback to the log", REPOS + " and " + MAIN)],
 [("config", "parsed settings", CONF)], ["listening address, exit status, log output, connections made to back ends, time of idle closes"])

prop("C16", "packet-gen sends the packet asked for and reports whether it was confirmed",
 "Given a packet identifier, a client, a time, and optionally a position, a liquid level, a server and a timeout, packet-gen sends exactly one well-formed packet with one record holding exactly these values (southern latitudes and western longitudes being negative) to that server. It exits with status 0 exactly if the complete response confirming that packet and its record arrived within the timeout (5 seconds unless given otherwise), however the response is split in transit, and with a nonzero status on a negative, damaged, foreign, incomplete, late or missing response, when the server cannot be reached or ends the connection, and, sending nothing, when an argument is missing or malformed. Once connected it always ends within the timeout, and no answer of the server makes it crash.",
 ["inputs", "fault_sequences", "schedules"],
 "all argument values, all responses and timings of a server, including silence, noise, resets and partial answers",
 "packet-gen has no test.",
 [GEN, PKG, "libs/egts/egts_sr_pos_data.go"],
 [("building of the packet from the flags", GEN), ("read of the response under a deadline, checks of its contents, exit status", GEN)], (), ["bytes sent, exit status and time of exit of the program"])

prop("C17", "Encrypted packets are readable only with the key, and always with it",
 "A packet marked as encrypted carries as its body on the wire exactly what the key made of the plain body, with length and checksum over the encrypted form, and a receiver that gives the same key gets the packet back unchanged. Without a key, with another key, when the key reports a failure, or when the packet was damaged, encoding or decoding it fails with an error instead of yielding a packet. Packets that are not marked as encrypted are never passed through the key.",
 ["inputs", "fault_sequences", "schedules"],
 "all packets, keys that change the length, work in place, are slow or fail for some contents, all damage in transit, and any number of senders and receivers at work at once",
 "One test encrypts one packet with a key that returns a constant; it does not compile.",
 [PKG], [("use of the secret key around the body in Encode and Decode", PKG)], [("Options.Secret", "the key of one operation", PKG)], ["calls of the key, bytes on the wire, decoded packets, errors"])

prop("C18", "What one party encodes another decodes to the same packet",
 "For every packet whose values fit the protocol's fields, the library produces the bytes the protocol prescribes, and decoding the bytes of a valid packet, encoded by this library or another implementation, yields the same packet (coordinates to the protocol's resolution, times to the second, subrecords of unknown type left out), which encodes to the same bytes again. This holds for every packet type and for records and subrecords of every supported type in any number and combination, with types and lengths given or left to the library. What cannot be encoded or decoded (a failing subrecord, a body longer than the length field can say, a damaged or truncated packet, arbitrary bytes) leads to an error, never to a wrong packet, a nonzero result code going with every decoding error, and never to a crash.",
 ["inputs", "fault_sequences", "schedules"],
 "all packets of any size made of all supported subrecord types with all field values and presence flags, exchanged by any number of programs over a network that loses, repeats, reorders, damages and truncates them",
 "The library's tests compare one example per type and do not compile as they stand; several fields were lost or swapped in ways no example showed.",
 ["libs/egts/egts_pkg.go", "libs/egts/service_data_records.go", "libs/egts/record_data.go", "libs/egts/egts_pt_response.go", "libs/egts/egts_sr_*.go", "libs/egts/crc.go"],
 [("Encode, Decode and Length of each type", "libs/egts/*.go")], (), ["bytes on the wire, decoded packets, errors and result codes"])

prop("C21", "Using the library for several packets at once changes no result",
 "Encoding, decoding, measuring and printing different packets at the same time gives for each of them exactly the result, error included, that the same operation gives alone. Decoding neither changes the bytes it is given nor keeps referring to them: a decoded packet stays the same when the buffer it was read from is reused. Bytes and packets returned earlier never change because of later operations.",
 ["schedules", "inputs", "fault_sequences"],
 "all interleavings of any number of encoders and decoders over valid, damaged and arbitrary inputs, with slow and failing keys, reused read buffers and inputs shared by several readers",
 "The tests use the library from one goroutine, one packet at a time.",
 ["libs/egts/*.go"], [("no shared state in the encoders and decoders; copies of the input", "libs/egts/*.go")], [("decoded packets and encoded bytes", "must own their memory", "libs/egts/*.go")], ["results of the operations, interleaved and alone, at once and at the end"])
