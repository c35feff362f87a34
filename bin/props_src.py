SER = "src/mqtt_serde"
ENG = "src/mqtt_client/engine.rs"

prop("C01", "Encoding then decoding a packet gives back the same packet",
 "For every well-formed MQTT 3.1.1 or MQTT 5.0 control packet value (all packet types, all property kinds, any legal field values), encoding succeeds and decoding the bytes in the same protocol version yields an equal packet and consumes exactly the bytes that were produced. Well-formed means what the standard of that version allows in that packet: lengths and numbers in range, strings without U+0000 or a leading byte-order mark, No Local not on a shared subscription, AUTH with an explicit reason code.",
 ["inputs"], "all well-formed packet values of every packet type in both protocol versions",
 "The tests encode a handful of hand-written packets per type; the claim is over every combination of flags, lengths at VBI boundaries, property multisets and string contents.",
 [SER+"/control_packet.rs", SER+"/mqttv3", SER+"/mqttv5", SER+"/parser/mod.rs", SER+"/base_data.rs"],
 [("MqttPacket::to_bytes / from_bytes_with_version", SER+"/control_packet.rs"), ("properties codec", SER+"/mqttv5/common/properties.rs")],
 ["MqttPacket::to_bytes", "MqttPacket::from_bytes_with_version"])

prop("C02", "The bytes on the wire are the ones the MQTT standards prescribe",
 "For every well-formed packet the encoder's output is a conforming MQTT 3.1.1 / 5.0 frame that an independent implementation of the standards reads as the same packet (type, flags, identifiers, every field and property), and every conforming frame written by an independent implementation (in any of the shortened forms the standard allows for reason code and properties, AUTH excepted) is decoded to exactly the fields it carries.",
 ["inputs"], "all well-formed packets, in both directions, against an independent codec",
 "Round-trip tests cannot see an encoder and decoder that are wrong in the same way; byte-level fixtures in the tests cover a few packets.",
 [SER], [("per-packet encoders and decoders", SER+"/mqttv3, "+SER+"/mqttv5")],
 ["MqttPacket::to_bytes", "MqttPacket::from_bytes_with_version"])

prop("C03", "Decoding arbitrary bytes never panics and never reads past its frame",
 "For any byte string whatsoever, decoding (one-shot, streaming, or leveled, in either protocol version) terminates without panicking or overflowing and without allocating memory out of proportion to the input (never more than a small constant plus 256 bytes per input byte); when it yields a packet, the consumed length is exactly the frame length announced by the fixed header, and the outcome for a complete frame does not depend on any bytes that follow it.",
 ["inputs"], "all byte strings, including truncations and mutations of valid packets followed by arbitrary bytes",
 "Tests feed chosen malformed inputs; the repository has a fuzz target precisely because the input space is unbounded.",
 [SER+"/parser/mod.rs", SER+"/parser/leveled.rs", SER+"/mqttv3", SER+"/mqttv5"],
 [("length checks in every parse_* helper", SER+"/parser/mod.rs"), ("frame bounding", SER+"/control_packet.rs")],
 ["MqttPacket::from_bytes_with_version", "MqttParser::next_packet", "leveled::*"])

prop("C04", "Splitting the byte stream differently never changes the packets parsed",
 "For every byte stream (valid or ending in a malformed frame), every way of cutting it into chunks and every interleaving of feeding and polling yields the same sequence of packets and the same final outcome (all consumed, incomplete, or an error at the same packet) as feeding it in one piece.",
 ["inputs", "schedules"], "all streams × all chunkings × all feed/poll interleavings",
 "Tests use a few fixed splits; a network may split at any byte, including inside the fixed header or a multi-byte length.",
 [SER+"/parser/stream.rs", SER+"/parser/mod.rs", SER+"/control_packet.rs"],
 [("MqttParser buffer", SER+"/parser/stream.rs")], ["MqttParser::feed/next_packet", "MqttEngine::handle_incoming"])

prop("C05", "Malformed packets are rejected under strict protocol compliance",
 "With strict protocol compliance (the default build), a frame that is malformed in one of these ways is never delivered as a packet. Both versions: reserved packet type 0 (or 15 in MQTT 3.1.1), remaining length longer than four bytes or not minimally encoded, a field running past the end of the frame or bytes left over in it, invalid UTF-8, a null character in a string, PUBLISH with QoS 3, wrong protocol name, reserved CONNECT flag, reserved CONNACK bits, reserved or out-of-range QoS bits in SUBSCRIBE. MQTT 5 also: wrong fixed-header flags on any packet but PUBLISH, DUP with QoS 0, wildcard in a PUBLISH topic, Will QoS 3 or will flags without a will, subscription Retain Handling 3, No Local on a shared subscription, an invalid topic filter in SUBSCRIBE, a zero packet identifier or empty list in SUBSCRIBE, SUBACK, UNSUBSCRIBE or UNSUBACK, an unknown property identifier, a property section past the end of the frame. MQTT 3.1.1 also: wrong protocol level, password without user name, an undefined SUBACK return code.",
 ["inputs"], "all malformed frames in the listed classes, for all packet types they apply to",
 "The compliance tests check one example per class on one packet type; each class has instances in every packet type, position and length.",
 [SER], [("strict-protocol-compliance checks", SER+"/mqttv5, "+SER+"/mqttv3"), ("property validation", SER+"/mqttv5/common/properties.rs")],
 ["MqttPacket::from_bytes_with_version"])

prop("C06", "Leveled (partial) parsing agrees with full parsing",
 "For every complete frame, the framing, type-only, raw-body and headers-only parsing levels report the same frame length, packet type, flags and consumed bytes as full parsing, the raw body and raw payload they expose are exactly the corresponding bytes of the frame; a proper prefix of a frame is reported incomplete at every level, and every frame that full parsing accepts is accepted with the same values by every level.",
 ["inputs"], "all frames and all byte prefixes, both versions, all parse levels",
 "Tests compare a few sample packets.",
 [SER+"/parser/leveled.rs"], [("packet_frame_len / parse_type_only / parse_raw_body / parse_headers_only", SER+"/parser/leveled.rs")],
 ["leveled::*"])

prop("C07", "The encoder refuses what it cannot represent instead of corrupting frames",
 "Encoding any packet value, however extreme (strings or binary fields longer than 65535 bytes, bodies beyond 268435455 bytes, subscription identifiers or QoS values out of range, a packet identifier missing for QoS above 0), either returns an error or produces exactly one self-consistent frame whose announced length is its real length and which a strict decoder either reads back with every field as given or rejects as malformed; it never truncates or wraps a value and never panics.",
 ["inputs"], "all constructible packet values including out-of-range ones",
 "Tests never construct oversized or out-of-range values for most fields.",
 [SER+"/base_data.rs", SER+"/mqttv3", SER+"/mqttv5"], [("length-prefixed encoders", SER+"/base_data.rs")], ["MqttPacket::to_bytes"])

prop("C08", "Each QoS 1/2 publish completes exactly once, driven only by its own acks",
 "For every history of publishes and broker responses, a QoS 1 publish is reported as published exactly once, when the first PUBACK for its identifier arrives after it was sent; a QoS 2 publish answers every PUBREC without error that arrives before its PUBCOMP with a PUBREL carrying the same identifier and is reported exactly once, on the PUBCOMP that follows a PUBREC (or on a PUBREC with an error reason, in which case no PUBREL follows). Acknowledgements that match nothing in flight produce no completion, and the identifier, reason code and properties reported are the broker's (in MQTT 3.1.1, which has none, reason code 0).",
 ["histories", "inputs"], "all interleavings of publishes and acks, duplicated, reordered, unknown or failing acks included, both protocol versions",
 "Engine tests follow single happy-path handshakes; the claim is over all interleavings of many concurrent handshakes.",
 [ENG, "src/mqtt_client/inflight.rs"], [("handle_packet", ENG), ("InflightQueue", "src/mqtt_client/inflight.rs")],
 ["MqttEngine::take_events", "MqttEngine::take_outgoing"], [("entries", "in-flight packets by id", "src/mqtt_client/inflight.rs")])

prop("C09", "Packet identifiers are non-zero and never reused while in use",
 "Identifiers assigned automatically to QoS 1/2 publishes, subscribes and unsubscribes are always in 1..65535 and never equal the identifier of another exchange that is queued or still awaiting its final acknowledgement, across any number of operations and counter wrap-around; when all 65535 are in use the operation is refused.",
 ["histories"], "all histories, including ones that allocate more than 65535 identifiers with old exchanges still open",
 "The rollover test allocates ids with nothing outstanding.",
 [ENG, "src/mqtt_session/client_session.rs", "src/mqtt_client/inflight.rs"],
 [("next_packet_id", ENG)], ["return values of publish/subscribe/unsubscribe", "MqttEngine::take_outgoing"])

prop("C10", "Unacknowledged publishes never exceed the broker's Receive Maximum",
 "A new QoS 1/2 PUBLISH is sent only while the number of QoS 1/2 publishes sent and not finally acknowledged (PUBACK, PUBCOMP or failing PUBREC) on the connection is below the Receive Maximum in force (the broker's CONNACK value on this connection, otherwise the configured one, 0 meaning 65535); publishes beyond it wait and are sent, in order, as soon as completions free the quota, and QoS 0 traffic and non-publish packets neither consume quota nor are lost because of it.",
 ["histories", "configurations"], "all workloads and ack orders, all receive-maximum values from options or CONNACK",
 "Tests check one limit with one ack pattern.",
 [ENG, "src/mqtt_client/inflight.rs"], [("can_push_publish / process_queue", ENG)], ["MqttEngine::take_outgoing"],
 [("publish_count", "in-flight PUBLISH count", "src/mqtt_client/inflight.rs")])

prop("C11", "Queued publishes go out once each, by priority then submission order",
 "Every accepted publish (up to 1000 may be waiting, the queue's capacity; one that finds it full is refused with an error, and none is dropped) is transmitted exactly once, absent retransmission and session resumption, with its topic, payload, QoS, retain flag and properties unchanged; whenever several publishes are waiting, a higher-priority one is transmitted first and equal priorities leave in submission order, including publishes queued before the connection was established.",
 ["histories"], "all interleavings of publishes of all priorities, connects, drains and acks",
 "The priority test enqueues three messages once.",
 [ENG, "src/priority_queue.rs"], [("PriorityQueue + process_queue", ENG)], ["MqttEngine::take_outgoing"])

prop("C12", "Inbound messages are delivered intact, in order, and acked exactly right",
 "Every received PUBLISH is delivered to the application with topic, payload, QoS, flags and properties unchanged and in arrival order; with automatic acks, QoS 1 is answered with one PUBACK and QoS 2 with PUBREC, each PUBREL with one PUBCOMP, all with the sender's identifier and in arrival order, and a QoS 2 message re-sent before its PUBREL is acknowledged again but not delivered twice. With automatic acks off the engine sends no acknowledgement on its own and delivers every PUBLISH it receives.",
 ["histories", "inputs"], "all inbound packet sequences, both versions, auto-ack on and off",
 "Tests send one message of each QoS.",
 [ENG], [("handle_packet Publish/PubRel arms", ENG)], ["MqttEngine::handle_incoming", "MqttEngine::take_outgoing"])

prop("C13", "Keep-alive: pings when idle, declares loss only on an unanswered ping",
 "While connected with keep-alive K > 0 in force (the one the server names in CONNACK, otherwise the configured one) and automatic keep-alive on, a tick that finds nothing sent for at least K seconds queues one PINGREQ, and no second one while a ping is unanswered; the connection is declared lost (reconnect needed and scheduled, no longer connected) exactly at the first tick that finds the oldest unanswered ping K × the timeout multiplier old, never because of mere inbound silence. With K = 0 or while disconnected the engine never sends a ping on its own.",
 ["histories", "schedules", "configurations"], "all tick schedules, traffic patterns and keep-alive settings",
 "Tests tick at a few hand-picked instants.",
 [ENG], [("handle_tick", ENG)], ["MqttEngine::handle_tick", "MqttEngine::take_outgoing"],
 [("ping_sent_at", "outstanding PINGREQ", ENG)])

prop("C14", "Following next_tick_at serves every timer; MQTT 3.1.1 resends on timeout",
 "A runtime that sleeps exactly until the reported next wake-up and then ticks never misses a keep-alive ping, ping timeout, reconnect or retransmission that was due, and never spins (each wake-up served makes the next one later or absent, a reconnect with a delay of zero aside). An MQTT 3.1.1 QoS 1/2 packet unacknowledged for the retransmission timeout is resent (PUBLISH with DUP, same identifier and content, PUBREL unchanged) once per timeout period until acknowledged and not before; MQTT 5 never resends on a live connection.",
 ["schedules", "histories"], "all tick schedules and operation histories",
 "Tests tick at a few chosen instants.",
 [ENG, "src/mqtt_client/inflight.rs"], [("next_tick_at", ENG), ("deadline_queue", "src/mqtt_client/inflight.rs")],
 ["MqttEngine::next_tick_at", "MqttEngine::handle_tick"])

prop("C15", "Reconnect backoff doubles from base to cap and respects the attempt limit",
 "The n-th consecutive reconnect is scheduled after min(base × 2^(n-1), max) (exponent capped at 10) with attempt number n; exactly one reconnect request fires per schedule, at the first tick at or after its deadline and never before, unless a new connection is started first, which cancels it; after the configured maximum number of attempts none is scheduled, and a successful CONNACK resets the sequence whereas a refused one does not.",
 ["histories", "configurations"], "all base/max/limit settings and all sequences of losses, ticks, refusals and successes",
 "Tests check the first few delays of one configuration.",
 [ENG], [("schedule_reconnect / handle_tick", ENG)], ["MqttEngine::take_events", "MqttEngine::next_tick_at"])

prop("C16", "A resumed session resends exactly what was unacknowledged, in order",
 "When the broker reports session present after a reconnect, the client resends every QoS 1/2 exchange that was in flight, once each and before any new publish: PUBLISH packets in the order first sent, with DUP set and identical identifier and content, if no PUBREC had arrived, and otherwise PUBREL packets in the order of the PUBRECs; exchanges that had completed are not resent, and acks of the resent packets complete them normally. When the broker reports no session present, nothing is resent on CONNACK.",
 ["crash_points", "histories"], "all points at which the connection may be lost during any mix of handshakes",
 "Tests lose the connection at one or two points.",
 [ENG, "src/mqtt_client/inflight.rs"], [("get_all_for_reconnect", "src/mqtt_client/inflight.rs"), ("ConnAck arms", ENG)],
 ["MqttEngine::take_outgoing"])

prop("C17", "CONNECT carries the configured options",
 "The CONNECT packet the engine sends for every connection reflects the client's options: protocol version, client id, clean start/session, keep-alive, will with all its fields, username and password (MQTT 3.1.1 cannot express a password without a username and omits it), and for MQTT 5 the session expiry interval, maximum packet size, request response information and request problem information when set, and no other property.",
 ["configurations"], "all option combinations, both versions, every front end",
 "Tests set one or two options at a time.",
 [ENG, "src/mqtt_client/opts.rs"], [("connect", ENG)], ["MqttEngine::take_outgoing"])

prop("C18", "Nothing leaks from one network connection into the next",
 "On every new connection the CONNECT packet is the first thing transmitted, and bytes received or queued on an earlier connection (partial packets, unsent output, outstanding pings) never affect how the new connection's bytes are interpreted or what is sent on it, apart from the session state resent after CONNACK.",
 ["crash_points", "histories"], "all points of connection loss, including in the middle of an inbound packet or with output pending",
 "Tests reconnect from a clean state.",
 [ENG], [("reset_for_new_transport / handle_connection_lost / connect", ENG)], ["MqttEngine::take_outgoing", "MqttEngine::handle_incoming"])

prop("C19", "Full buffers push back without losing or reordering anything",
 "When the event buffer limit is reached, inbound parsing pauses and resumes later without losing, duplicating or reordering any packet's events, and the limit is never exceeded by more than one packet's worth of events. When the outgoing limit is reached, subscribe, unsubscribe, ping, disconnect and raw enqueue fail with a buffer-full error and leave no trace, accepted publishes wait and are all sent once the buffer is drained, and acknowledgements owed to the broker are never dropped (they are not subject to the limit).",
 ["histories", "configurations"], "all limits and all interleavings of traffic, draining and resuming",
 "One test with one limit.",
 [ENG], [("max_event_count / max_outgoing_packet_count", ENG)], ["MqttEngine::handle_incoming", "MqttEngine::take_outgoing"])

prop("C20", "Subscribe/unsubscribe requests and their results correspond one to one",
 "Every accepted subscribe or unsubscribe emits one packet with exactly the requested filters, options and properties in order under the returned identifier, and the broker's SUBACK/UNSUBACK answering it is reported once with that identifier and its reason codes and properties in order, regardless of interleaving with other exchanges; the exchange then frees its identifier. No result is reported without an acknowledgement.",
 ["histories", "inputs"], "all interleavings of concurrent subscribe/unsubscribe/publish exchanges",
 "Tests do one subscribe at a time.",
 [ENG, "src/mqtt_client/commands.rs"], [("subscribe / unsubscribe / SubAck arms", ENG)], ["MqttEngine::take_events", "MqttEngine::take_outgoing"])

prop("C21", "A hostile or broken broker cannot crash or wedge the client engine",
 "Whatever bytes arrive, at any point of the connection's life and interleaved with any API calls and ticks, the engine never panics and, with output and events taken, its memory stays bounded by its configured limits plus unread input however many packets a broker sends; malformed input is reported as an error, and after a fresh transport and CONNACK the engine works normally again.",
 ["inputs", "fault_sequences"], "all byte streams interleaved with all API calls",
 "Tests inject a few malformed packets.",
 [ENG, SER], [("handle_incoming", ENG)], ["MqttEngine API"])

prop("C22", "The priority queue is a bounded stable priority FIFO that survives save/load",
 "For every sequence of operations, the queue returns elements by descending priority and insertion order within a priority, holds at most its capacity by evicting the oldest element of the lowest priority on overflow, reports its length, peek and emptiness consistently, and reloading a saved queue reproduces its contents, order and capacity; a save that could not be written in full, or a file that is missing or cut short, is reported as an error.",
 ["histories"], "all operation sequences, capacities and priority types",
 "Tests run a few fixed sequences.",
 ["src/priority_queue.rs"], [("BTreeMap of VecDeques", "src/priority_queue.rs")], ["PriorityQueue API"])

prop("C23", "Session objects track exactly the unacknowledged exchanges",
 "For every sequence of calls, a client session's resend list contains exactly the publishes not yet PUBACKed/PUBRECed and the PUBRELs not yet PUBCOMPed, each unchanged and once; responses carry the identifier of the packet answered; a server session queues one copy of a message per subscription, sends each queued message exactly once in the order queued, never with more than the receive maximum unacknowledged and never holding one back that the client can receive, under a packet identifier no open exchange uses, and resends exactly the unacknowledged ones.",
 ["histories"], "all call sequences on client and server sessions",
 "Tests use single-message sequences.",
 ["src/mqtt_session/client_session.rs", "src/mqtt_session/server_session.rs"], [("maps of unacknowledged packets", "src/mqtt_session")], ["ClientSession / ServerSession API"])

prop("C24", "QUIC streams carry independent packet flows; replies stay on their stream",
 "Over QUIC with any loss, reordering and fragmentation of datagrams, each stream delivers the packets written to it completely and in order without mixing with other streams, and every protocol response (PUBACK, PUBREC, PUBREL, PUBCOMP, retransmission) is sent on the stream that carried the packet it answers. A data stream whose replies the peer takes slowly or not at all stalls alone: the others carry on, and the client holds no more of it than a bounded read-ahead.",
 ["fault_sequences", "schedules"], "all multi-stream workloads under all datagram loss/reorder/duplication patterns",
 "Tests exchange a few packets in a lossless loopback.",
 [ENG], [("QuicMqttEngine per-stream parser and routing", ENG)], ["QuicMqttEngine API", "peer endpoint"])

prop("C25", "QUIC 0-RTT data reaches the broker exactly once, accepted or rejected",
 "When early data is attempted, the MQTT bytes written before the handshake completes arrive at the broker exactly once and in order whether the server accepts or rejects early data (when replay is enabled), and the reported 0-RTT status matches what happened. Early data is attempted exactly when a ticket that allows it is at hand: tickets are kept across connections until they are cleared or the cache size changes. Without an attempt under way, commands are refused until the MQTT session is there.",
 ["fault_sequences", "configurations"], "accept/reject × workload × loss patterns",
 "Tests cover single accept and reject cases.",
 [ENG], [("early data replay", ENG)], ["QuicMqttEngine::take_events", "peer endpoint"])

prop("C26", "Closing one QUIC stream or connection affects nothing else",
 "Finishing, resetting or stopping one data stream, from either side, is reported once with the right stream and code, discards nothing already written on a gracefully finished stream, and never disturbs other streams; a loss or a close by the peer is reported once, after it or a close by the application the engine is no longer connected, and a new connection can be established and used.",
 ["histories", "fault_sequences"], "all stream lifecycles from both sides interleaved with traffic, then reconnects",
 "Tests close one stream once.",
 [ENG], [("stream lifecycle handling", ENG)], ["QuicMqttEngine::take_events", "peer endpoint"])

prop("C27", "The TLS engine is transparent: same MQTT behaviour as plain text",
 "Driving the TLS engine against a TLS peer yields the same MQTT packets on the (decrypted) wire, the same events and in the same order as the plain engine given the same operations, for any record sizes, segmentation and message sizes, with no byte lost or duplicated.",
 ["inputs", "schedules"], "all traffic volumes, message sizes and segmentations",
 "No test drives the TLS engine end to end.",
 ["src/mqtt_client/tls_engine.rs"], [("handle_socket_data / take_socket_data", "src/mqtt_client/tls_engine.rs")], ["TlsMqttEngine API", "rustls server"])

prop("C28", "Async client: every blocking call returns its own operation's result",
 "With any number of tasks concurrently issuing synchronous connect, publish, subscribe, unsubscribe and ping calls on one client and any broker ack order, each call returns exactly once with the result of its own packet (identifier, reason codes), never another call's, and never before the corresponding acknowledgement.",
 ["schedules", "histories"], "all task interleavings and ack orders",
 "Tests issue calls sequentially.",
 ["src/mqtt_client/tokio_async_client.rs"], [("pending oneshot maps", "src/mqtt_client/tokio_async_client.rs")], ["TokioAsyncMqttClient *_sync methods", "fake broker"])

prop("C29", "Async client: connection loss fails fast and recovers as configured",
 "After the connection drops at any moment, the client reports the loss once, fails connect and ping calls under way, reconnects with the configured exponential backoff and number of attempts when automatic reconnect is on (and does not when it is off), resumes traffic on the new connection, and loses no accepted QoS 1/2 publish when the broker resumes the session. After disconnect() the DISCONNECT is sent, the connection is closed and nothing reconnects until the user connects again. Commands given while there is no connection neither count as losses nor put off the reconnect.",
 ["crash_points", "fault_sequences"], "all cut points in a connection's byte stream, repeated",
 "Tests need an external broker or check configuration only.",
 ["src/mqtt_client/tokio_async_client.rs", ENG], [("worker loop reconnect handling", "src/mqtt_client/tokio_async_client.rs")], ["event handler callbacks", "fake broker"])

prop("C30", "Async client: every message reaches the handler once, in order",
 "Every PUBLISH the broker sends is handed to the event handler exactly once and in order with its content unchanged, whatever the segmentation, burst size, buffer limits or handler speed, and every publish handed to the client is written to the broker exactly once in priority/submission order.",
 ["schedules", "inputs"], "all segmentations, bursts and handler delays",
 "No test runs the worker against a live peer under load.",
 ["src/mqtt_client/tokio_async_client.rs", ENG], [("worker select loop", "src/mqtt_client/tokio_async_client.rs")], ["on_message_received callback", "fake broker"])

prop("C31", "The C API is memory safe for every documented use and rejects bad arguments",
 "Calls through the C API with valid or null handles in any order, from one thread or several, with null pointers, odd strings, unknown MQTT versions, bad addresses, server names or certificates where an argument may be wrong, with any bytes from the network, and with every returned buffer, string, list and datagram array released once by its matching free function (before or after its engine), never read or write out of bounds, use freed memory, free twice, leak, abort or unwind across the boundary; a call without a usable handle or argument returns the failure value of its kind (-1, null, 0) and takes nothing; what is handed out stays as it is until released.",
 ["programs", "inputs"], "all C call sequences that follow the ownership rules, with arbitrary argument values",
 "Tests make a few well-formed calls without sanitizers.",
 ["flowsdk_ffi/src/engine.rs"], [("extern \"C\" functions", "flowsdk_ffi/src/engine.rs")], ["C ABI under AddressSanitizer, with balance of allocations"])

prop("C32", "Foreign-language bindings behave exactly like the native engine",
 "The same options, operations, inputs and ticks given through the C API or the binding objects, for the plain, TLS and QUIC clients, yield the same outgoing bytes, TLS parameters (ALPN, server name, trust, client certificate), return values, connection state and events (each exactly once, in order, with the same contents) as on the native engine.",
 ["histories", "inputs"], "all operation histories",
 "Tests check a few individual calls.",
 ["flowsdk_ffi/src/engine.rs", "flowsdk_ffi/src/engine/ffi_types.rs"], [("event and option conversion", "flowsdk_ffi/src/engine.rs")], ["C ABI and binding objects vs MqttEngine"])

prop("C33", "MQTT packets survive conversion to and from the gRPC message form",
 "Every MQTT packet that the proxies forward converts to its gRPC stream message and back to an equal packet, keeping type, identifiers, flags, payload and every property.",
 ["inputs"], "all forwarded packet types in both versions with all property combinations",
 "Tests convert a few packets.",
 ["mqtt_grpc_duality/src/lib.rs"], [("conversion functions", "mqtt_grpc_duality/src/lib.rs")], ["convert_* functions"])

prop("C34", "A client through the proxy pair and a direct client see the same broker",
 "With r-proxy and s-proxy between client and broker, every packet either side sends reaches the other unchanged, once and in order, for any number of concurrent clients (sharing a client identifier or not), any identifiers, sizes, segmentation and traffic, including packets sent along with CONNECT or just before the connection ends; when one side ends its connection, the other side's is ended; and one client's traffic, stalling, failure or disconnect never affects another's. (A reset gives up what has not arrived yet.)",
 ["schedules", "fault_sequences"], "all concurrent client workloads and segmentations",
 "Integration script needs an external broker.",
 ["mqtt_grpc_duality/src/bin/r-proxy.rs", "mqtt_grpc_duality/src/bin/s-proxy.rs"], [("stream forwarding", "mqtt_grpc_duality/src/bin")], ["fake broker and clients over loopback"])

prop("C35", "The load generator sends every byte once and reports correct statistics",
 "For any pattern of partial writes and reads, a connection of the benchmark sends exactly the bytes its client produced, once and in order, and a packet half written stays where it is until written; counters, error totals, latency merge and percentiles equal those computed from the recorded samples, with each latency measured from its own publish to its own acknowledgement. A run of the program ends by itself whatever the broker does (refusals, cut connections, unanswered publishes, nobody listening), keeps to the connect rate and the publish interval asked for, sends every message of every connection that stays up and then says DISCONNECT, and its summary agrees with what the broker recorded; an interrupted run stops and says so.",
 ["schedules", "inputs", "faults"], "all partial-write patterns, sample multisets, option sets and broker behaviours",
 "Tests cover single examples of the helper functions; none runs the program.",
 ["mqtt_ring_bench/src/connection.rs", "mqtt_ring_bench/src/worker_tcp.rs", "mqtt_ring_bench/src/stats.rs", "mqtt_ring_bench/src/worker_common.rs", "mqtt_ring_bench/src/main.rs"], [("Connection send queue", "mqtt_ring_bench/src/connection.rs"), ("run_worker", "mqtt_ring_bench/src/worker_tcp.rs"), ("merge and percentiles", "mqtt_ring_bench/src/stats.rs")], ["Connection, stats functions", "the mqtt_ring_bench program over loopback"])

prop("C36", "Raw-packet edits are exact and malformed packets have the defect they name",
 "Every raw-packet edit changes exactly the bytes requested and nothing else, edits wholly or partly out of range never panic (they affect the bytes that exist; an insertion beyond the end appends); each malformed-packet generator yields one packet that has precisely the defect it is named for (and, where the defect is a violation of the standard a receiver can detect, is rejected by a strict independent decoder); the raw test client sends exactly the bytes given, returns exactly what the peer sent, and tells an open connection from a closed or silent one.",
 ["inputs", "histories"], "all edit sequences on all packets",
 "Tests apply single edits.",
 ["src/mqtt_client/raw_packet.rs"], [("RawPacketBuilder, MalformedPacketGenerator", "src/mqtt_client/raw_packet.rs")], ["RawPacketBuilder API"])

prop("C37", "Builders carry every setting into the command or options unchanged",
 "Every combination and order of builder calls for publish, subscribe, unsubscribe and client options yields a command or option set that carries exactly the values given (last call wins, properties in order, other fields at their defaults), from which the packet sent carries exactly those values; a publish without topic, a subscribe without topics, an option set on no topic, a retain handling above 2, an unknown protocol version and a zero maximum packet size are refused at build time.",
 ["inputs", "configurations"], "all builder call sequences",
 "Tests call a few builders.",
 ["src/mqtt_client/commands.rs", "src/mqtt_client/opts.rs"], [("builders", "src/mqtt_client/commands.rs")], ["builder outputs, to_mqtt_publish, packets"])

prop("C38", "Every connection's outgoing packets form a legal MQTT client conversation",
 "Whatever the application calls and whenever (before the connection, while it is being set up, after it is over, twice), what the client puts out on one connection is a sequence of whole packets in which CONNECT comes first and only once, nothing follows DISCONNECT (no acknowledgement, request, ping or retransmission), no packet is one that only a server may send and AUTH only appears in MQTT 5, no PUBLISH comes before the server accepted the connection, DUP is set exactly on repeated publishes, a publish is not repeated after its PUBREC, PUBREL answers a PUBREC, and each PUBACK, PUBREC and PUBCOMP answers something received on that connection. A call that is refused adds nothing to the output, and disconnect() on an established connection puts out DISCONNECT.",
 ["histories"], "all orders of application calls, broker packets, ticks, losses and reconnections; both versions; engine and wrapper",
 "Tests call the functions in the expected order.",
 [ENG, "src/mqtt_client/no_io_client.rs"], [("enqueue_packet, disconnect, connect, process_queue, handle_incoming", ENG)], ["MqttEngine and NoIoMqttClient calls", "take_outgoing"])


prop("C39", "Each call of the blocking client returns the broker's answer to its own request",
 "Every call of MqttClient sends exactly the packet that was asked for, in the configured version of MQTT and with all that the options say (CONNECT: credentials, will, properties), with a fresh non-zero identifier. A blocking call returns when, and only when, the answer to its own request is there (same kind, same identifier) and returns that answer's codes and properties; a QoS 2 publish is released only after its PUBREC and ends with a PUBREC that refuses it. Every other packet that arrives meanwhile is kept, once and in order, for the application; recv_packet returns the next packet, whatever it is. The end of the connection, bytes that are no packet, a broker that cannot be reached and a missing session are reported as errors, and nothing more is sent. Pending fire-and-forget operations are listed until completed or until a connection starts without a session. MqttStream yields the packets of any reader whatever the sizes of its pieces and the errors between them, without the stack growing with the packet.",
 ["inputs", "histories"], "all call sequences, answers, unrelated packets before and behind them, segmentations, and points of failure; versions 3, 4 and 5",
 "The tests of this client need a broker and look at single calls.",
 ["src/mqtt_client/client.rs", "src/mqtt_serde/parser/stream.rs"], [("connected, subscribed, published, handle_qos2, recv_for_packet", "src/mqtt_client/client.rs"), ("MqttStream::next", "src/mqtt_serde/parser/stream.rs")], ["MqttClient's public functions", "bytes at the broker"])

prop("C40", "What the server says reaches the application exactly, and AUTH goes out",
 "Every CONNACK, SUBACK, UNSUBACK, PUBACK, PUBREC that refuses, PUBCOMP, PINGRESP, AUTH and DISCONNECT that a client accepts from its server is reported to the application once, in the order of arrival, with its identifier, codes, flags and (where the event has room for them) properties as the server put them; a refused CONNACK is reported as refused and leaves the client unconnected, an accepted one leaves it connected. What the result types answer about themselves (success, counts, descriptions of failure) agrees with those codes. An AUTH the application asks for goes out with exactly its reason code and properties in MQTT 5, and puts nothing out in MQTT 3. The same holds for the engine, the NoIo wrapper and the async client.",
 ["inputs", "histories"], "all server packets with every code and property, in every order of answers; both versions; engine, wrapper and async client",
 "Tests look at one answer of each kind, mostly without properties.",
 [ENG, "src/mqtt_client/tokio_async_client.rs", "src/mqtt_client/client.rs"], [("handle_packet", ENG), ("handle_mqtt_event", "src/mqtt_client/tokio_async_client.rs"), ("ConnectionResult, SubscribeResult, UnsubscribeResult, PublishResult", "src/mqtt_client/client.rs")], ["MqttEvent", "TokioMqttEventHandler callbacks", "take_outgoing"])


prop("C41", "The async client talks only to servers its TLS and QUIC settings allow",
 "Over TLS (rustls and native) and QUIC, the async client completes a connection exactly when its settings allow the server's certificate: the trusted roots (those configured, otherwise the platform's), the period of validity, the purpose, the name or address asked for and possession of the key, each switch (accept invalid certificates, accept invalid host names, skip verification) waiving only what it names. A configured client certificate with its chain is shown to every server that asks for one. Otherwise the failure is reported to the application and the server never sees a byte of MQTT, on the first connection and on every reconnection. Session secrets are written to the key log exactly when it is asked for.",
 ["inputs", "configurations", "histories"], "all combinations of settings, server certificates, keys and names, over three transports, on connection and reconnection",
 "Tests build configurations without a server that would have to be refused.",
 ["src/mqtt_client/tokio_async_client.rs", "src/mqtt_client/transport/rustls_tls.rs", "src/mqtt_client/transport/tls.rs", "src/mqtt_client/transport/quic.rs"], [("connect_with_config", "src/mqtt_client/transport/rustls_tls.rs"), ("TlsConfig", "src/mqtt_client/transport/tls.rs"), ("QuicTransport", "src/mqtt_client/transport/quic.rs")], ["TokioAsyncMqttClient callbacks", "what a TLS or QUIC server gets to see"])

prop("C42", "The settings of the async client do what they say",
 "Every method of the configuration builder sets exactly its own setting (a profile exactly those it names) and the last call wins. CONNECT announces the configured receive maximum and topic alias maximum beside the options' own properties, in MQTT 5 only, and topic aliases the broker then uses are resolved per connection. Each awaited call ends with OperationTimeout, naming the operation and its limit, when its own timeout (or the one given to the call) has passed without an answer: never earlier, never by another operation's setting, and not at all when none is set. tcp_nodelay holds on TCP and TLS sockets, QUIC uses the configured local address, and a datagram buffer of zero takes no datagrams.",
 ["inputs", "configurations"], "all builder call sequences and all combinations of timeouts, limits and socket settings",
 "Tests read single fields back; none watches the connection that comes of them.",
 ["src/mqtt_client/tokio_async_client.rs", "src/mqtt_client/transport/tcp.rs", "src/mqtt_client/transport/quic.rs"], [("TokioAsyncClientConfig, ConfigBuilder", "src/mqtt_client/tokio_async_client.rs"), ("*_sync methods", "src/mqtt_client/tokio_async_client.rs")], ["TokioAsyncClientConfig", "CONNECT at the broker, call results, socket options"])

prop("C43", "Transports carry every byte unchanged and do what they were configured to do",
 "Each transport (TCP, native TLS, rustls, QUIC) delivers the bytes written to it, all of them, in order and unchanged, and reads exactly what the peer sent, in pieces of any size, both directions at once. connect succeeds exactly when the address, the certificate and the application protocols allow it (names, IPv4 and IPv6 addresses alike) and is an error, in time, otherwise. The server sees what the builder was given, by whichever of its methods: protocols in order, server name, client certificate chain, source address; the addresses the transport reports are those in use, also after it moved to another one. What was written before an orderly end (shutdown, close, the async client's disconnect with its DISCONNECT) arrives before that end; the peer's end is read as an end after its last byte, a broken QUIC connection as an error, and no bytes are invented.",
 ["inputs", "configurations", "schedules"], "all byte sequences and segmentations, settings, addresses and kinds of end, over four transports",
 "Tests build configurations and connect to closed ports; hardly a byte crosses a transport.",
 ["src/mqtt_client/transport/mod.rs", "src/mqtt_client/transport/tcp.rs", "src/mqtt_client/transport/tls.rs", "src/mqtt_client/transport/rustls_tls.rs", "src/mqtt_client/transport/quic.rs"], [("Transport, parse_mqtt_address", "src/mqtt_client/transport/mod.rs"), ("QuicConfigBuilder, QuicTransport", "src/mqtt_client/transport/quic.rs"), ("RustlsTlsConfigBuilder, RustlsTlsTransport", "src/mqtt_client/transport/rustls_tls.rs"), ("TlsTransport", "src/mqtt_client/transport/tls.rs")], ["Transport trait, AsyncRead, AsyncWrite", "what the server gets to see"])


