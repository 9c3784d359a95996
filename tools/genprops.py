import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(d)
SRV="cli/receiver/server/server.go"
PK="libs/egts/egts_pkg.go"; SDR="libs/egts/service_data_records.go"; RD="libs/egts/record_data.go"
SUBS=["libs/egts/egts_sr_pos_data.go","libs/egts/egts_sr_ext_pos_data.go","libs/egts/egts_sr_ad_sensors_data.go","libs/egts/egts_sr_counters_data.go","libs/egts/egts_sr_state_data.go","libs/egts/egts_sr_abs_an_sensors_data.go","libs/egts/egts_sr_abs_cntr_data.go","libs/egts/egts_sr_liquid_level_sensor.go","libs/egts/egts_sr_term_identity.go","libs/egts/egts_sr_auth_info.go","libs/egts/egts_sr_dispatcher_identity.go","libs/egts/egts_sr_response.go","libs/egts/egts_sr_result_code.go","libs/egts/egts_pt_response.go","libs/egts/egts_sr_egtsplus_data.go"]
p("C01","No byte stream crashes the gateway or the decoder",
 "Whatever bytes a peer sends, in whatever packet framing, the gateway process never terminates, panics or spins: the worst outcome of hostile, corrupted or truncated input is an error reply or the close of that one connection, after which new connections are still served. The same holds for the packet decoder as a library: for any byte slice it returns (a result code and possibly an error) and never panics.",
 ["inputs"],"every byte stream on a connection; every byte slice given to the packet decoder",
 "The 51 tests decode a dozen well-formed packets; none feeds a malformed header, an inconsistent length or a truncated body, and none sends bad bytes to a running server.",
 [SRV,PK,SDR,RD]+SUBS,[("packet framing from header length and data length","server.go handleConn"),("bounds of header and body slices","Package.Decode"),("per-subrecord readers","libs/egts/*.Decode")],
 ["process alive / goroutine panic","replies and close on the connection","return of Package.Decode"])
p("C02","Outcome does not depend on TCP segmentation or where the peer disconnects",
 "The replies sent on a connection and the records handed to the stores are a function of the byte stream only: they do not depend on how the bytes are cut into TCP segments or on the pauses between them (shorter than the idle limit). When a connection ends after any prefix of the stream, exactly the packets that were complete in that prefix have taken effect, and the incomplete tail has no effect.",
 ["schedules","crash_points","inputs"],"every split of a stream of packets into segments, every byte position at which the peer closes or resets",
 "The one server test writes one packet in one call; no test splits a packet, coalesces two packets or disconnects part-way.",
 [SRV],[("exact-length reads of header and body","server.go handleConn io.ReadFull")],["bytes written to the connection","calls on the registered store"])
p("C03","Every received data packet gets exactly one correct transport response, in order",
 "For each complete packet received on a connection the gateway sends exactly one transport response, in arrival order, that names that packet's identifier; an accepted data packet is answered with result 0 and exactly one positive confirmation per service record, carrying the record numbers in order and the service type of the packet's last record, while a packet that cannot be decoded is answered with the non-zero result code of the decoder, names no record and leaves the connection usable. A well-formed response packet, and a data packet that itself carries record confirmations, is never answered; a packet whose first byte is not protocol version 1 is not answered and closes the connection.",
 ["histories","inputs"],"every sequence of packets (data, authorisation, confirmation, response, corrupted, foreign) on one connection, every packet identifier and record number, every number of records",
 "One test checks one packet with one record; nothing covers several packets, several records, identifier extremes, errors followed by good packets, or the absence of unwanted replies.",
 [SRV,"libs/egts/egts_pt_response.go"],[("response construction","server.go createPtResponse"),("per-packet reset of response state","server.go handleConn loop head"),("packet type dispatch","server.go handleConn switch")],["bytes written to the connection"],
 [("srResponsesRecord","confirmations collected for the current packet","server.go handleConn"),("srResultCodePkg","pending authorisation answer of the current packet","server.go handleConn")])
p("C04","Authorisation and identification requests get exactly one result-code packet",
 "When an accepted data packet contains an authorisation or terminal-identity subrecord, the gateway sends, right after that packet's transport response, exactly one further packet: a data packet that decodes without error and holds one authorisation-service record with one result-code subrecord of value 0. No other packet, and no later packet on the same connection, triggers such a message.",
 ["histories","inputs"],"every sequence of packets on a connection, every position and multiplicity of the requesting subrecord in the packet",
 "No test sends an authorisation or identity packet to the server, or parses what the server answers.",
 [SRV,"libs/egts/egts_sr_result_code.go"],[("result code packet construction","server.go createSrResultCode"),("reset of pending result per packet","server.go handleConn loop head")],["bytes written to the connection"])
p("C05","Accepted telemetry reaches the store exactly once with the right values",
 "For every accepted data packet with at least one position the store receives exactly one export record, and for every other packet none; that record holds every position of the packet, in order, with the reported time, speed and signed latitude and longitude (southern and western hemispheres negative), every analog and liquid-level sensor reading with its number, unit, error flag and value, the terminal's IMEI when given, the reporting object's identifier, and as packet number the transmitted one, overridden by absolute counters 110 (low three bytes) and 111 (high byte) when present in that order. Nothing from an earlier packet or another connection appears in it.",
 ["inputs","histories"],"every combination and order of subrecords within records and packets, every field value, every preceding packet history",
 "Tests of the server only count that one record was saved; no test looks at any exported value, at several positions or records, at the flags, or at leakage between packets.",
 [SRV,"cli/receiver/storage/packet.go"]+SUBS[:8],[("subrecord to export mapping","server.go handleConn type switch"),("fresh export record per packet","server.go handleConn exportPacket")],["the object handed to a registered store"],
 [("exportPacket","record being assembled for the current packet","server.go handleConn")])
p("C06","A packet is acknowledged only after every store has saved its telemetry",
 "A transport response with result 0 for a packet carrying telemetry is sent only after the save into every configured store has completed successfully. If any store fails to save it, the packet is answered with a non-zero result and no positive record confirmation, the connection stays usable, and a retransmission of the packet is stored and acknowledged like a new one.",
 ["fault_sequences","histories"],"every pattern of store successes and failures over every sequence of packets, including retransmissions",
 "No test has a failing or slow store, or relates the time of the acknowledgement to the time of the save.",
 [SRV,"cli/receiver/storage/store.go"],[("save before reply","server.go handleConn"),("error propagation from the repository","store.go Repository.Save")],["order of store calls and bytes written to the connection"])
p("C07","Every configured store is offered every telemetry record exactly once",
 "Saving a record through the repository calls each registered store exactly once, in registration order, with that record, no matter which of the other stores fail, and reports an error exactly when at least one of them failed. With no store registered it succeeds.",
 ["fault_sequences","configurations","histories"],"every number of stores, every subset of them failing, over every sequence of records",
 "No test registers more than one store or makes one fail.",
 ["cli/receiver/storage/store.go"],[("fan-out loop","store.go Repository.Save"),("registration","store.go Repository.AddStore")],["calls received by registered stores","error returned by Repository.Save"])
p("C08","Idle connections are closed after the idle limit and active ones are not",
 "With a positive idle limit, a connection on which no byte arrives for longer than that limit is closed by the gateway soon after the limit passes, wherever in the stream the peer fell silent; a connection on which no two consecutive bytes are further apart than the limit is never closed for idleness and its packets are answered normally. When the peer closes its side, the gateway releases the connection no later than the idle limit after that.",
 ["schedules","histories"],"every timing of the bytes of every packet stream relative to the limit, every idle limit of at least one second",
 "No test waits for an idle timeout; doing it over many timings in real time is infeasible.",
 [SRV,"cli/receiver/config/config.go"],[("idle timer","server.go handleConn"),("limit from configuration","config.go GetEmptyConnTTL")],["virtual time at which the gateway closes the connection"])
p("C09","Decoding and re-encoding lose nothing the library represents",
 "For every packet with frame data that the library can represent, field values in their documented ranges, encoding and then decoding it yields equal field values (coordinates to within one unit of the wire resolution, fixed-width text up to its zero padding); and for every well-formed packet on the wire, decoding and then encoding yields the same bytes, up to reserved bits, the tenths of km/h of the speed that the library drops, one unit of wire resolution in the coordinates, and both checksums recomputed. This covers transport headers with and without routing fields, data and response packets, several records and subrecords, and all supported subrecord types.",
 ["inputs"],"every packet, record and subrecord in the library's domain, every combination of optional-field flags",
 "Each test round-trips one hand-written example per type; most optional-field combinations, all but one value per field, and multi-record packets are never tried.",
 [PK,SDR,RD]+SUBS,[("paired Encode/Decode methods","libs/egts/*.go")],["Package.Encode / Package.Decode results"])
p("C10","Encoding and decoding agree with the published EGTS layout",
 "Every supported subrecord, service record and transport header is decoded from and encoded to the byte layout of GOST R 54619-2011 and Order No. 285: field order, width, little-endian byte order, flag-bit positions, optional-field presence, coordinate and time scaling, header CRC-8 and body CRC-16. A packet produced by an independent implementation of that layout is decoded to the values that implementation put in, and what the library encodes is decoded by it to the library's values.",
 ["inputs"],"every field value and flag combination of every supported layout",
 "Tests compare single examples, and an encoder and decoder that are wrong in the same way pass any round trip.",
 [PK,SDR,RD,"libs/egts/crc.go"]+SUBS,[("layout code","libs/egts/*.go"),("checksums","crc.go")],["struct fields after decoding wire bytes","wire bytes after encoding structs"])
p("C11","A corrupted or truncated packet is never accepted",
 "If a well-formed packet is truncated at any point, or changed in its header or body in any way its checksums detect (every burst of up to 8 bits in the header and up to 16 bits within the body or within its checksum, in particular every one-bit error, and every two-bit error in packets of ordinary size), decoding reports an error with a non-zero result code, and the gateway answers negatively or closes but never saves or positively confirms anything from it. A wrong header checksum is reported as a header error, a wrong body checksum over an otherwise well-formed body as a data-checksum error, and an unknown packet type in an otherwise valid packet as an unsupported type.",
 ["inputs"],"every truncation point, every single- and double-bit error, every byte substitution and short burst, in every kind of packet",
 "No test decodes a corrupted or truncated packet.",
 [PK,"libs/egts/crc.go","libs/egts/errors.go",SRV],[("checksum comparison","Package.Decode"),("result codes","errors.go")],["result code and error of Package.Decode","gateway reply and store calls"])
p("C12","Lengths that do not fit the data are rejected",
 "A packet whose data length, record length or subrecord length claims more bytes than are present, whose header length is not that of its header, or which holds a subrecord shorter than its fixed layout and its own optional-field flags require, is rejected with an error and a non-zero result code even when both checksums are right; nothing in it is exported or positively confirmed, and no missing byte is ever replaced by an invented value.",
 ["inputs"],"every value of every length field, every shortened subrecord of every type, nested in data and response packets",
 "No test has an inconsistent length.",
 [PK,SDR,RD]+SUBS,[("length-driven reads","Package.Decode, ServiceDataSet.Decode, RecordDataSet.Decode")],["result of Package.Decode","gateway reply and store calls"])
p("C13","Connections do not affect one another under any interleaving",
 "For any number of simultaneous connections and any interleaving of their processing, each connection receives exactly the replies, and each of its packets produces exactly the export record, that it would if it were alone. A connection whose peer is silent or does not read, or whose save into a store is still in progress, does not delay the others' replies, new connections, or saves that the stores themselves allow.",
 ["schedules"],"every interleaving of two and three connections' processing up to a preemption bound, every placement of stalls",
 "No test opens two connections; a race appears only for rare interleavings that a test does not control.",
 [SRV,PK,SDR,RD,"cli/receiver/storage/store.go"],[("one goroutine with local state per connection","server.go Run, handleConn"),("stateless codec","libs/egts")],["replies per connection","records handed to stores"])
p("C14","The listener survives accept errors and stops cleanly",
 "Failures to accept a connection do not stop the gateway: every connection that is successfully accepted before the stop is served, whatever the sequence of failures and successes around it. After the gateway is stopped it accepts no further connection, its run call returns without spinning, stopping again does no harm, and connections already accepted continue to be served until they end.",
 ["fault_sequences","histories"],"every sequence of accept results and every point of the stop in it",
 "The tests start one server for one connection and never stop it or make accepting fail.",
 [SRV],[("accept loop","server.go Run"),("close of the listener","server.go Stop")],["accept calls, served connections, return of Run and Stop"])
p("C15","The configuration file determines the effective settings and stores",
 "Listen address, idle limit in whole seconds, log level (DEBUG, INFO, WARN, ERROR; anything else means INFO) and storage sections take effect exactly as written in the configuration file, for the shipped example configuration and any other; an unreadable or malformed file is reported as an error. Every configured storage that is of a known kind and initialises is used, independently of the order of sections and of other sections failing; an empty storage section, an unknown kind or a failed initialisation is reported as an error, and the receiver then still runs and logs every record (at log levels that show information messages).",
 ["configurations","inputs"],"every combination of present, absent and odd settings; every subset of storage kinds, valid or not",
 "One test loads one configuration and compares the parsed struct; nothing covers the derived settings, defaults, errors or store selection.",
 ["cli/receiver/config/config.go","cli/receiver/storage/store.go","cli/receiver/main.go","configs/receiver.yaml"],[("yaml mapping and getters","config.go"),("store factory","store.go LoadStorages"),("fallback to log","main.go")],["Settings getters","LoadStorages result and registered stores","behaviour of the receiver binary"])
p("C16","Each store connector delivers the exact record and reports failure",
 "Each built-in connector (redis, nats, nsq, postgresql, rabbitmq, tarantool queue) delivers every saved record to the configured server and destination with the configured credentials, once, byte for byte as the record serialises; when the server rejects the record or the connection is gone the save returns an error instead of success or a crash, and a record that cannot be serialised or an absent record is an error and delivers nothing. Initialisation fails with an error for missing or unusable settings and unreachable servers where the connector connects at start.",
 ["fault_sequences","configurations","histories"],"every sequence of server answers (accept, reject, disconnect) over short save histories, every subset of settings",
 "The connectors have no unit tests; the integration test needs a live PostgreSQL and is not run.",
 ["cli/receiver/storage/store/%s/connector.go"%s for s in ("redis","nats","nsq","postgresql","rabbitmq","tarantool_queue")],[("Init / Save / Close of each connector","cli/receiver/storage/store/*/connector.go")],["messages received by a scripted server","errors returned by Init and Save"])
p("C17","The packet generator sends what was asked and succeeds iff it is acknowledged",
 "The packet generator sends exactly one valid data packet holding the packet identifier, object identifier, navigation time, signed coordinates and liquid level given on the command line, and exits with status 0 if and only if the first packet it gets back, within the configured time (5 seconds by default), is a valid response to that packet identifier with result 0 and no negative record status, however that response is segmented. Otherwise, including for missing or malformed required arguments, it exits with a non-zero status without crashing.",
 ["inputs","fault_sequences"],"every combination of arguments; every reply (right, negative, for another packet, malformed, missing, split, delayed)",
 "The generator has no tests.",
 ["cli/packet-gen/main.go"],[("packet construction","packet-gen main.go"),("ack validation","packet-gen main.go")],["bytes received by a scripted server","exit status"])
p("C18","Exported JSON is complete, faithful and stable",
 "The serialised export record is one JSON object with exactly the documented keys (server_id, IMEI, client_id, received_dt, packet_id, navigation_unix_time, an_sensors, liquid_sensors, loc_states, loc_states_count and their nested keys), whose values parse back to exactly the record's values, for every record whose text is valid UTF-8; received_dt is the UTC receive time and each navigation_dt the navigation time, in RFC 3339. Serialising has no effect on the record, and the log store writes the same content once per saved record; a record holding a number that has no JSON form is an error and is not written.",
 ["inputs"],"every export record, from the gateway or built directly",
 "No test looks at the serialised form.",
 ["cli/receiver/storage/packet.go","cli/receiver/storage/default.go",SRV],[("json tags","packet.go"),("log store","default.go")],["NavRecord.ToBytes","log output"])
p("C19","Encoding is repeatable, self-consistent and refuses what it cannot represent",
 "Encoding the same value twice gives the same bytes; automatically filled lengths and checksums describe exactly the bytes produced, and the reported length of every section equals the size of its encoding. When a section is too large for its 16-bit length field, a flag field holds anything but binary digits, or a subrecord's type cannot be determined, encoding returns an error rather than bytes that decode differently; leaving a subrecord's type unset selects the type code of its content for every supported kind.",
 ["inputs"],"every packet value, including sizes around the limits of the length fields and malformed flag fields",
 "Tests encode each example once with explicit lengths and types.",
 [PK,SDR,RD]+SUBS,[("length calculation","Length methods, Encode"),("type inference","RecordDataSet.Encode")],["bytes and errors returned by Encode, Length"])
p("C20","Delivery resumes by itself after an outage of the store",
 "When a store becomes unreachable for a while (its connections are cut, its server is stopped and started again at the same address, accepts connections only to close them, or closes the connection on a record, with or without refusing it), saves that cannot be delivered return an error without blocking or crashing, and once the server works again saves through the same connector succeed again within a few seconds, without a restart of the receiver, however often this happens and however long the outage was; every record whose save succeeded is stored exactly once and no record more than once. (The tarantool store gives up after as many reconnection attempts as its setting max_recons allows.)",
 ["fault_sequences","histories"],"every sequence of outages of every kind and length, with any number of saves before, during and after",
 "The connectors have no unit tests; reconnecting needs servers that go away and come back.",
 ["cli/receiver/storage/store/%s/connector.go"%s for s in ("redis","nats","nsq","postgresql","rabbitmq","tarantool_queue")],[("reconnection of each connector","cli/receiver/storage/store/*/connector.go Save and Init")],["errors returned by Save","messages received by a scripted server"])
p("C21","What has ended leaves nothing behind in the gateway",
 "The gateway runs for months, so nothing it keeps may grow with what it has already dealt with: once connections have ended, in whatever way (closed or reset by the peer, gone silent, closed by the gateway for a foreign or broken packet, failing or blocked writes), the goroutine, the socket and all memory of each are released within the idle limit; and neither a packet dealt with on a connection, good, damaged or answered negatively, nor a failed save, nor a failed accept leaves a goroutine or memory behind. However often any history of these is repeated, the number of goroutines and open connections and the reachable memory return to a bounded level.",
 ["histories","fault_sequences"],"every history of messages on a connection, every way it can end, every outcome of saves and writes, repeated any number of times",
 "The tests serve one connection and end with the process; a residue of a few bytes per connection shows only after many repetitions of the one history that leaves it.",
 [SRV,"cli/receiver/storage/store.go"],[("end of a connection","server.go handleConn"),("one goroutine per connection","server.go Run")],["goroutines and reachable heap of the process","connections not closed by the gateway"])
p("C22","A connector does not accumulate connections and gives them back",
 "However many records are saved through a built-in connector, with whatever outcomes and however often the server refuses, drops or cuts connections or goes away and returns, the connector holds no more connections to its server than the saves under way need (at most a small fixed number besides), and keeps no goroutine or memory per past save. After it is closed, no connection to the server is left open and none is made anew; closing does not crash or block, whether the server is there or not. An initialisation that fails leaves no connection to the server open.",
 ["fault_sequences","histories"],"every repeated sequence of save outcomes and outages, every way in which the start fails, closing after each",
 "The connectors have no unit tests; a connection lost per failure is visible only at the server and only over many failures.",
 ["cli/receiver/storage/store/%s/connector.go"%s for s in ("redis","nats","nsq","postgresql","rabbitmq","tarantool_queue")],[("release of connections","cli/receiver/storage/store/*/connector.go Init, Save and Close")],["connections open at a scripted server","goroutines and reachable heap of the program"])
p("C23","Decoding has no side effects",
 "Decoding a packet or a subrecord into a fresh value is a pure function of the bytes given: it never changes those bytes; the decoded value does not change when the caller reuses or overwrites the bytes afterwards, nor by later decodings or encodings of other data; and the result, value or error, is the same whatever was decoded before, including packets that failed to decode. Decoding and encoding different values at the same time from several goroutines, also from the same bytes, needs no synchronisation by the caller. (The gateway reuses its buffers and decodes on every connection at once.)",
 ["inputs","histories","schedules"],"every decodable value, every order of good and failing decodings, any number of them at the same time",
 "Tests decode fresh literals once each and never look at the bytes or the value again.",
 [PK,SDR,RD]+SUBS,[("decoding","Decode methods"),("plus data","libs/egts")],["the bytes given to Decode, and the value it made, after other decodings","races reported between decodings"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
