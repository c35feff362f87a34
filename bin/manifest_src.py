claim("C31", "random programs against the C functions under AddressSanitizer in child processes (an abort or report ends only the child), arguments on heap blocks of exactly their size, allocation balance after giving everything back; plus threads sharing one handle", "Sampled programs. Leaks and wrong-size frees are judged by a counting allocator over repeated runs of the same program. Pointers passed in are valid or null. Built with AddressSanitizer for Rust code (nightly); no ThreadSanitizer run. QUIC engines are ticked by the real clock.")
claim("C32", "differential monitor: the same history through the native engine and through the C functions or binding objects, with in-memory TLS and QUIC brokers; bytes, events, returns, state and handshake parameters compared", "Sampled histories. Timers are kept off the instants where two engines started a moment apart may differ, and a difference counts only when it comes three times in a row. The generated foreign-language code itself (Python, Swift, Kotlin) is not run here.")
_codec = "Sampled inputs, not a proof. Trusts the independent codec in /verif/refmqtt, written from the OASIS texts, and the field-by-field conversion in /verif/conv; observes only public functions."
claim("C01", "generated packet values, round-trip oracle at the codec boundary", _codec)
claim("C02", "differential monitor against an independent MQTT codec, both directions", _codec)
claim("C03", "hostile byte workload with panic, overflow, allocation and frame-bound monitors", "Sampled inputs (random, mutated, truncated, length-forged). Debug build, so arithmetic overflow and out-of-range indexing panic and are seen; a counting allocator bounds memory.")
claim("C04", "stream-splitting workload, every chunking compared with the one-shot parse", _codec)
claim("C05", "generated malformed frames per defect class, classified by an independent strict decoder", _codec)
claim("C06", "differential monitor across parsing levels on frames, prefixes and damaged frames", _codec)
claim("C07", "out-of-range packet values with a refuse-or-self-consistent oracle", _codec)

_eng = "Sampled histories, not a proof. The harness drives MqttEngine and NoIoMqttClient through their public functions with a scripted broker speaking through the independent codec; a tracker recomputes from the recorded events what each step owed. Virtual clock for ticks, real clock where stated."
claim("C08", "online monitor of publish completions over generated broker histories with loss, duplicated, reordered, failing and unmatched acks", _eng)
claim("C09", "online monitor of identifier allocation over histories, counter wrap-around and exhaustion workloads", _eng)
claim("C10", "online monitor of in-flight count against the Receive Maximum, with progress check", _eng)
claim("C11", "online monitor comparing every PUBLISH sent with a priority-FIFO reference, with drain-to-empty check", _eng)
claim("C12", "online monitor of deliveries and acknowledgements against the broker's packet log", _eng)
claim("C13", "timed-trace monitor of pings and loss declarations around the exact deadlines", _eng)
claim("C14", "timed-trace monitor of wake-ups and retransmissions, virtual and real clock", _eng)
claim("C15", "trace monitor against the backoff formula", _eng)
claim("C16", "monitor of the packets resent on CONNACK against the recorded open exchanges", _eng)
claim("C17", "generated option sets, CONNECT read back by the independent codec", _eng)
claim("C18", "connection-boundary monitor over histories that leave output, input, pings and paused events behind", _eng)
claim("C19", "differential monitor with and without event limit; exact reference of the outgoing buffer under small limits", _eng)
claim("C20", "online monitor of subscribe and unsubscribe requests and results", _eng)
claim("C21", "hostile-broker workload with panic, error-report, memory-growth and recovery monitors", _eng)

claim("C22", "reference-model monitor over generated operation sequences with save, reload, truncated files and unwritable targets", "Sampled histories. Saves go to a scratch directory; a full device is /dev/full. Crash-atomicity of a save is not claimed.")
claim("C23", "reference-model monitor of resend lists, replies, windows and identifiers over generated call sequences", "Sampled histories under honest use of the objects. The order within a resend list is not claimed (the engine's own resend order is C16's).")
claim("C36", "byte-vector reference for edit sequences; independent strict decoder and repair oracle for the generators; loopback sessions for the raw client", "Sampled edit sequences; the generators have no input and are all examined. incorrect_protocol_name is only required to be rejected (its unit test pins bytes that also contain a null character).")
claim("C37", "field-by-field reference over generated builder call sequences, packets read back by the independent codec", "Sampled call sequences; the TLS options are not part of it.")

_quic = "Sampled workloads and datagram schedules; time is virtual. The peer is quinn-proto (ring provider) with a scripted broker speaking through the independent codec; certificate checking is off. Datagram contents are not bit-reproducible (the QUIC client draws its own randomness), the workload of a case is."
claim("C24", "per-stream trace monitor over a simulated lossy datagram path: order, completeness and stream of every packet, reply and retransmission", _quic)
claim("C25", "exactly-once trace monitor over accepted and rejected 0-RTT attempts in chains of connections, with early stream ends, early closes and session resumption", _quic + " A handshake that quinn-proto itself leaves stuck after losses (its Finished held back by its congestion window) is counted and skipped.")
claim("C26", "trace monitor of stream and connection ends from either side over a simulated datagram path: what is reported, what carries on, what the peer sees, and reconnection", _quic + " A CONNECTION_CLOSE is only required when nothing is under way (quinn-proto holds it back while its congestion window is used up); a stateless reset only when the client sent something large enough to be answered.")
claim("C27", "differential monitor: the TLS engine beside the plain engine under the same operations, ticks and broker bytes; tampered ciphertext must yield a prefix and an error", "Sampled workloads, TLS 1.2 and 1.3 against rustls. Both engines read the real clock one after the other, so a difference counts only when the same case shows one three times in a row. Where the ciphertext arrives in pieces across ticks, timers are out of the picture and nothing is queued before the CONNACK.")
claim("C28", "event-log monitor on the real client over loopback: many tasks calling at once against a broker that answers in any order; each result is matched with the broker's record of its own packet, and none may come before it", "Sampled schedules (real threads, single- and multi-threaded runtimes), one connection per case that stays up. A caller that gave up by its own timeout is not matched. Automatic keep-alive pings run beside the called ones.")
claim("C29", "event-log monitor on the real client over loopback: a scripted broker ends connections at any byte in either direction (FIN, reset, DISCONNECT, refusal, silence, nobody listening); losses, attempts, delays, deliveries and the end on the user's word are checked against one trace", "Sampled fault sequences, plain TCP. Lower bounds on the reconnect delay are exact, upper ones generous. A broker that accepts and never answers the CONNECT is only exercised up to the user's disconnect(): the client has no timeout of its own for that. Turning automatic reconnection on again does not start a reconnect by itself (pinned by a test).")
claim("C30", "event-log monitor on the real client over loopback TCP, rustls, native TLS and QUIC: the handler's messages and the broker's publishes are compared with what either side sent, under slow readers, slow handlers, small buffers and any segmentation", "Sampled schedules, one connection per case that stays up. Publishes of mixed priorities are ordered exactly only when queued before the CONNACK (at most 40 of them); afterwards one priority from one task. QUIC uses the control stream only here (C24 covers the others).")

claim("C33", "generated packets through the real conversion functions and the protobuf wire form and back, compared as packet models; damaged and unknown messages must not panic", "Sampled packets. Trusts the field-by-field conversion in /verif/conv. CONNACK with no properties and with an empty list is the same packet.")
claim("C34", "event-log monitor around the two real proxy processes over loopback: scripted clients and a scripted broker record what they send and get, packet by packet; order, completeness, isolation and ends are checked, with stalled peers, resets, a restarted proxy and crowds", "Sampled schedules on loopback. Anything owed has 25 s to arrive. A suspended (not dead) s-proxy, a client that never sends CONNECT, and s-proxy being stopped with live streams are not part of it. AUTH always carries an explicit reason code (library tests pin the refusal of the short form).")
claim("C35", "reference computations for the statistics; the real Connection on a simulated socket with any split of writes and reads; the real program (io_uring) over loopback against a scripted broker, its printed summary compared with the broker's record", "Sampled runs. TCP only: the QUIC workers are not run. If the kernel refuses io_uring the program itself is not run and the evidence says so. At QoS 0 a client may finish before it notices an end. --connect-rate 0 is not exercised; MQTT 3 repeats of unanswered publishes are tolerated.")
claim("C38", "online monitor of each connection's packet sequence under random calls in any state, with an honest but lossy broker", _eng + " One CONNACK per connection; output taken before the first connect() belongs to no connection. Replies on QUIC data streams are not part of it.")
claim("C39", "offline comparison of every call's result, the packets kept and the bytes at a scripted broker against a model of the conversation; stack-depth monitor on the stream reader", "Sampled sessions over loopback, not a proof. A call that has not returned after 40 s counts as hanging. AUTH in its shortest form is not sent (the codec refuses it; pinned by a unit test). Partial writes cannot be provoked on a blocking socket and are not exercised.")
claim("C40", "offline comparison of the event log (engine, NoIo wrapper, async client over loopback) with the packets a scripted server sent, in order; AUTH compared at the server; result predicates against their codes", "Sampled packets and orders. MqttEvent::Disconnected has room for the reason code only, so its properties are not compared. The async client's callbacks that share a packet with an awaited call are compared once.")
claim("C41", "monitor at both ends of real handshakes over loopback: every combination of settings with servers that show a certificate good or bad in one respect; the outcome is compared with a verdict computed from the settings and the certificate, and the servers record whether MQTT ever reached them and which client certificate they saw", "Sampled combinations over rustls, native TLS and QUIC with fixed certificates (net/certs/auth, valid 2000-2100). Whoever is told to accept any certificate may or may not check its signature. Revocation is not part of it.")
claim("C42", "reference computation of the configuration; CONNECT at a scripted broker against the settings, call results and their times against the timeouts set, socket options read from the live sockets", "Sampled configurations. Timeouts are exact below and generous above. Settings that have no effect at all are listed in DESIGN.md section 6 and not claimed.")
claim("C43", "monitor at both ends of every transport over loopback: the bytes of two-way exchanges, the client hello, certificates, addresses and ends a server sees are compared with what was written and configured; the async client's last words at a broker", "Sampled cases on loopback. A peer that leaves data unread when a socket closes may lose the last bytes (TCP reset), so that is not asked for. Delivery before close is asked for while close (2 s) and disconnect (1 s) have not run out of patience. 0-RTT is C25's.")
