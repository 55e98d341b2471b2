#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=hook)))

WIRE = ["bytes written to / read from the client connection"]
CODEC = ["encoder output bytes", "decoder result and consumed length"]

# ---------------------------------------------------------------- codec
p("C01", "Numeric, boolean and UUID wire values survive encode then decode",
  "Encoding any value of a numeric, boolean, floating point, UUID, variable-length or zigzag wire type and decoding the bytes as the same type yields the same value and consumes exactly the bytes that were written. This holds for every value (including minimum, maximum, negative and NaN values) and at every position in a buffer, whatever precedes or follows.",
  ["inputs"], "every value of each wire type (all 8/16/32/64-bit patterns, all 128-bit UUIDs), any preceding offset and any trailing bytes",
  "The tests encode two or three constants per type; a sign, shift or width slip at other magnitudes (e.g. the 5th or 10th varint byte, negative zigzag values) is invisible to them.",
  ["encoder.go", "decoder.go"],
  [("encodeObject / encodeObjectWorker", "encoder.go"), ("peekObject / peekObjectWorker, peekVarUint, peekVarUint64", "decoder.go"), ("makeZigzag32/64, makeVarUint/64", "encoder.go")], observe=CODEC)
p("C02", "Strings and byte arrays survive encode then decode, null kept distinct",
  "Encoding any string or byte array wire type (plain, nullable, compact, compact nullable; any content, any length the wire format can carry) and decoding it as the same type yields the same content and consumes exactly the bytes written. For nullable types null decodes to null and empty decodes to empty, never one for the other.",
  ["inputs"], "all contents (every byte value), null/empty/non-empty, lengths over the stated set including 1-, 2- and 3-byte length-prefix boundaries and buffer-size boundaries",
  "Tests use one or two short ASCII literals per type; no empty non-null value, no length that needs a second prefix byte, no arbitrary bytes.",
  ["encoder.go", "decoder.go"],
  [("encodeNullableString, encodeCompactNullableString, encodeNullableBytes, encodeCompactNullableBytes", "encoder.go"), ("peekNullableData16, peekNullableBytes, peekCompactNullableBytes", "decoder.go")], observe=CODEC)
p("C03", "Structures, arrays and nested messages survive encode then decode",
  "A message made of wire types, nested structures, structure pointers, arrays and compact arrays decodes to a message equal to the one encoded, field for field and element for element in order, and consumes exactly the bytes written. A null array stays distinguishable from an empty one on the wire, and consecutive messages in one buffer do not influence each other.",
  ["inputs"], "all field values, array lengths 0..bound and null, nesting depth up to the bound",
  "One struct literal and one array literal are tested; field-order, element-order, null-array and empty-array combinations are not.",
  ["encoder.go", "decoder.go"],
  [("encodeStruct, encodeArray, encodeCompactArray", "encoder.go"), ("peekObjectStruct, peekObjectFixedArray, peekObjectVarArray, peekObjectCompactVarArray", "decoder.go")], observe=CODEC)
p("C04", "Encoded bytes follow the Kafka primitive wire format",
  "Fixed-width values are written big-endian in exactly their width; variable-length unsigned values in minimal base-128 little-endian groups and signed ones zigzag first; strings carry a 16-bit and byte arrays and arrays a 32-bit length prefix with -1 for null. A field tagged compact (or compact and nullable) is written exactly as the corresponding compact wire type, with the zigzag length-plus-one prefix this library uses and 0 for null.",
  ["inputs"], "every value of each wire type; strings/bytes/arrays up to the length bound",
  "Almost all tests compare the codec only with itself, so a change made symmetrically in encoder and decoder goes unseen although real Kafka clients break.",
  ["encoder.go"],
  [("encodeObjectWorker and the encodeXxx family", "encoder.go"), ("kafkaTags", "decoder.go")], observe=CODEC)
p("C05", "A truncated value is reported as incomplete, never as a value",
  "For every encodable value, decoding any strict prefix of its encoding reports 'incomplete' instead of returning a value, whether the value is alone or preceded by other data. Decoding never consumes more bytes than the input holds.",
  ["inputs"], "all values of all wire types and composite messages within the bounds, and every cut position",
  "The Partial tests cut a handful of literals, and for the struct tests skip the last cut position entirely.",
  ["decoder.go"],
  [("peekFixedData, peekNullableData16, peekVarUint, peekCompactNullableBytes, peekObjectFixedArray", "decoder.go")], observe=CODEC)
p("C06", "Decoding arbitrary bytes is memory-safe, bounded and terminating",
  "Given any byte sequence at all, decoding it as any wire type or any supported request either reports it incomplete or returns a value that consumed no more bytes than were present: it never crashes with a run-time or reflection fault, never loops forever, and never allocates memory out of proportion to the bytes received. In particular negative, null, huge or overflowing length and count prefixes are harmless.",
  ["inputs"], "all byte strings up to the stated length, decoded as each wire type and as each request type of the served APIs",
  "No test feeds bytes that the library's own encoder did not produce.",
  ["decoder.go", "inbound-utils.go"],
  [("peekObjectFixedArray", "decoder.go"), ("peekObjectStruct", "decoder.go"), ("peekVarUint, peekVarUint64, peekTags", "decoder.go")], observe=CODEC)
p("C07", "Tagged fields round-trip, are ordered, and unknown ones are skipped exactly",
  "Encoding any set of tagged fields and decoding it with the same field definitions yields the same set; on the wire they appear once each in ascending tag order with the exact size of each value. Fields whose tag is unknown to the reader are returned as exactly their raw value bytes and never disturb the fields around them.",
  ["inputs"], "any tag numbers, any field values within the bound, every subset of fields known to the reader, every map iteration order",
  "Tests use tags 1,2,3 with two constant values and either all or no known fields.",
  ["encoder.go", "decoder.go"],
  [("encodeTags", "encoder.go"), ("peekTags", "decoder.go")], observe=CODEC)

# ---------------------------------------------------------------- protocol
p("P01", "Requests are recognised independently of how TCP splits the stream",
  "However a client's byte stream is cut into segments (one byte at a time, several requests in one segment, a size prefix split in two), the server handles each complete request exactly once and in order, and never acts on an incomplete one. Requests of every size are handled, including ones larger than any internal buffer.",
  ["inputs", "schedules"], "all segmentations of a stream of up to the stated number of requests, all request contents, request sizes on both sides of internal buffer sizes",
  "Through loopback the kernel almost always delivers one whole request per read, so tests only ever exercise one segmentation and small requests.",
  ["inbound-utils.go", "kafka-client.go"],
  [("getMessage", "inbound-utils.go"), ("kafkaClient.handle", "kafka-client.go")],
  state=[("kafkaClient.inbound", "bytes received and not yet handled", "kafka-client.go")], observe=WIRE)
p("P02", "Every handled request gets one exact, correlated response, in order",
  "For every supported request exactly one response frame is sent: a 4-byte size equal to the number of bytes that follow, the request's own correlation id, then the response body and nothing else. Pipelined requests on a connection are answered in the order received, whatever their correlation ids, client ids or APIs.",
  ["inputs", "histories"], "all correlation ids and client ids (including null), all supported APIs, sequences of pipelined requests up to the bound",
  "The real client used by the tests sends small consecutive ids and one client id and skips over fields it does not check.",
  ["kafka-client.go", "kafka-message.go"],
  [("kafkaClient.dispatcher", "kafka-client.go"), ("kafkaMessage.send", "kafka-message.go")], observe=WIRE)
p("P03", "Exactly the advertised API versions are served",
  "The ApiVersions response lists, in ascending key order and without repeats, exactly the API keys and version ranges the server answers. A request for any other API key or version is never answered, as if it were another one or at all, and changes no stored data.",
  ["inputs"], "all 65536 x 65536 API key / version pairs",
  "Tests only use the pairs the client library picks.",
  ["api-keys.go", "api_versions.go", "kafka-client.go"],
  [("initializeApis, makeApiKey", "api-keys.go"), ("apiVersionsV0", "api_versions.go"), ("kafkaClient.dispatcher", "kafka-client.go")],
  state=[("apiTable / apiVersions", "supported APIs", "api-keys.go")], observe=WIRE)
p("P04", "A malformed request is rejected without a response",
  "A complete frame whose contents are too short for its API, or that has bytes left over after the request, is rejected: no response to it is ever sent. Its rejection is the library's deliberate error, never an index, nil, reflection or out-of-memory fault.",
  ["inputs"], "every truncation and every extension of valid requests of each API within the bounds, and arbitrary frame contents up to the length bound",
  "Tests never send a malformed frame.",
  ["kafka-client.go", "inbound-utils.go"],
  [("kafkaClient.dispatcher (remaining-bytes check)", "kafka-client.go"), ("readRequest", "inbound-utils.go")], observe=WIRE)

# ---------------------------------------------------------------- data plane
p("D01", "Fetch returns exactly the posted records from the requested offset",
  "A fetch from offset N of a partition returns the records posted there starting with the N-th (counting from 0), contiguous, in posting order, each with its own offset and with exactly the key, value (null and empty kept apart) and millisecond timestamp it was posted with, as far as the size limit allows. Records are not consumed or altered by fetching, nor by what the caller does with the buffers it posted from; an offset at or past the end yields no record, and a negative offset yields none and does not disturb the server. The high watermark is never before the end of the records returned nor beyond the partition's end, and equals the offset for a reader that has caught up.",
  ["inputs", "histories"], "all record contents, any number of records up to the bound, every 64-bit fetch offset",
  "Tests fetch whole topics from offset 0 with a generous limit through one client, and look only at values.",
  ["fetch.go", "encoder.go", "datastore.go"],
  [("fetchV2", "fetch.go"), ("messageSetV1.appendMessage", "encoder.go")],
  state=[("kafkaPartition.Records", "log of a partition", "datastore.go")], observe=WIRE)
p("D02", "Fetch obeys the partition byte limit, fills it, and always completes",
  "The encoded records returned for a partition never exceed that request's partition byte limit, and are the longest run of records from the requested offset that fits, so no record that still fits is held back. A fetch always completes, even when the next record is larger than the limit or the limit is zero or negative.",
  ["inputs"], "every 32-bit limit, records of varying sizes up to the bound",
  "Most tests use a 10 MB limit; the three that use a small one hang on the original code and are therefore not counted as passing.",
  ["fetch.go", "encoder.go"],
  [("fetchV2 loop", "fetch.go"), ("messageSetV1.appendMessage", "encoder.go")], observe=WIRE)
p("D03", "A fetch for several topics and partitions answers each with its own data",
  "The response to a fetch naming several topics and partitions lists every requested topic and partition once, in request order, and the records under each are those of that very topic and partition from that entry's own offset under that entry's own limit. Partitions that do not exist, or have nothing new, get an empty entry and do not displace the others' data.",
  ["inputs"], "all combinations of up to the stated number of topics and partitions, existing or not, with different offsets, limits and contents",
  "Every test fetches a single topic and partition.",
  ["fetch.go"], [("fetchV2 response assembly", "fetch.go")], observe=WIRE)
p("D04", "Fetch waits for data no longer and no shorter than it should",
  "A fetch that finds no record answers empty only once its maximum wait time has passed (or the server is told to finish), and then does so promptly rather than much later. If a record arrives while it waits, or records are there from the start, it answers with them without waiting out the time.",
  ["inputs", "schedules"], "all maximum wait times within the bound, arrival of a record or of a finish request at any instant, scheduler delays within the bound",
  "Tests do not look at timing and never cover a zero or expiring wait with late data.",
  ["fetch.go"], [("fetchV2 wait loop", "fetch.go")], observe=WIRE)
p("D05", "Fetched message sets are well-formed Kafka v1 message sets",
  "In every fetch response the record-set size equals the bytes that follow for that partition, and each message carries magic 1, no compression, a message size that counts exactly the bytes after the size field, and the standard Kafka (IEEE) CRC-32 of the bytes after the CRC field. A reader that trusts sizes and checksums therefore steps through precisely the records sent.",
  ["inputs"], "all keys, values and timestamps (null, empty and non-empty) within the length bound, any number of records up to the bound",
  "The client library used by the tests ignores message size and checksum.",
  ["encoder.go"], [("messageSetV1.appendMessage, messageV1.crc, encodeMessageSetV1", "encoder.go")], observe=WIRE)
p("D06", "Posting appends; topics and partitions are created once and kept apart",
  "Posting a record appends it at the end of exactly the named topic and partition, whose earlier records, and all other topics and partitions, stay as they were. Creating topics or partitions that already exist, or posting to ones that do not exist yet, never loses or duplicates data.",
  ["histories", "inputs"], "all sequences of create/post operations up to the bound over arbitrary topic names and partition numbers",
  "Tests create one topic with partition 2 and only post to it.",
  ["datastore.go", "kafka-mock.go"],
  [("createTopic, createPartition, postRecord", "datastore.go"), ("SimplePost, ExtendedPost, CreatePartitionTopics", "kafka-mock.go")],
  state=[("kafkaDataStore.Topics / kafkaTopic.Partitions / kafkaPartition.Records", "the store", "datastore.go")], observe=WIRE)
p("D07", "ListOffsets reports start, end and time-based offsets correctly",
  "Asked for the latest offset of a partition the server answers the number of records posted to it, and for the earliest it answers 0. Asked for a time, on records posted with non-decreasing timestamps, it answers the offset and the timestamp of the first record whose timestamp is not before that time, or the end offset if there is none.",
  ["inputs", "histories"], "all query timestamps, all non-decreasing record timestamps, up to the stated number of records, several topics and partitions per request",
  "No test looks at a list-offsets answer.",
  ["list_offsets.go"], [("listOffsetsV1", "list_offsets.go")], observe=WIRE)
p("D08", "Committed offsets: last progress wins, visible at once, never moves back",
  "After any history of commits by clients, fetching a consumer group's committed offset for a topic and partition returns the highest offset ever committed for that group, topic and partition (counting from the value last set directly, 0 if none). Commits for one group, topic or partition never affect another's, and every commit or fetch response lists the requested topics and partitions it covers with no error.",
  ["histories", "inputs"], "all sequences of commit / direct-set / fetch operations up to the bound, all 64-bit offsets, arbitrary group and topic names and partitions",
  "Tests commit increasing offsets for a single group and partition.",
  ["offset_commit.go", "offset_fetch.go", "datastore.go", "kafka-mock.go"],
  [("offsetCommitV2", "offset_commit.go"), ("offsetFetchV1", "offset_fetch.go"), ("groupCommittedOffset", "datastore.go")],
  state=[("kafkaPartition.GroupCommittedOffsets", "committed offset per group", "datastore.go")], observe=WIRE)
p("D09", "Directly setting a group offset takes effect exactly as asked",
  "Setting a consumer group's offset through the mock's API makes the next committed-offset fetch for that group, topic and partition return exactly that value, forwards or backwards. It affects no other group, topic or partition and no records, and setting it on a topic or partition that does not exist changes nothing and does not fail.",
  ["inputs", "histories"], "all 64-bit offsets before and after, arbitrary group/topic names and partitions, existing or not",
  "One test sets offset 0 once and only reads a record afterwards.",
  ["kafka-mock.go"], [("SetConsumerGroupOffset", "kafka-mock.go")], observe=WIRE)
p("D10", "Unknown topics and partitions are reported per entry and not created",
  "In ListOffsets and OffsetCommit responses every requested entry appears in request order, with error 3 (unknown topic or partition) exactly for those topics or partitions that do not exist, and the others unaffected. No request of any kind creates a topic or partition.",
  ["inputs"], "any mix of existing and missing topics/partitions up to the bound, arbitrary names and numbers",
  "Tests only name topics that exist.",
  ["list_offsets.go", "offset_commit.go", "fetch.go", "offset_fetch.go"],
  [("getTopic / getPartition nil handling", "list_offsets.go, offset_commit.go")], observe=WIRE)

# ---------------------------------------------------------------- cluster / groups
p("G01", "Metadata and coordinator answers lead clients to this server's partitions",
  "Metadata lists every requested topic once and in order, with exactly the partitions that exist for it and error 3 if the topic does not exist, each led by a broker that the same response lists. That broker, and the answer to a coordinator lookup for any key, carry the same node id and the host localhost with the port the mock was created with.",
  ["inputs", "configurations"], "all requested topic names, any set of existing topics and partition numbers up to the bound, all server ports",
  "Tests always use partition 2 on port 21001.",
  ["metadata.go", "find_coordinator.go"], [("metadataV1", "metadata.go"), ("findCoordinatorV0", "find_coordinator.go")], observe=WIRE)
p("G02", "Group sync assigns every existing partition exactly once",
  "The assignment returned by SyncGroup decodes, under the consumer group protocol, to exactly the topics and partitions existing at that moment, each topic and each partition exactly once. A sync request that carries assignments of its own is rejected without a response.",
  ["inputs", "histories"], "any set of topics and partitions up to the bound with arbitrary names and numbers, any group, member and generation, every map iteration order",
  "Tests have one topic with one partition, so order, omissions and duplicates cannot show.",
  ["sync_group.go"], [("syncGroupV0, makeMemberAssignment", "sync_group.go")], observe=WIRE)
p("G03", "Join, heartbeat and leave succeed for any member and touch no data",
  "JoinGroup, Heartbeat and LeaveGroup requests with any group, member, generation, timeouts and protocol list are answered with error code 0, and the same member is told the same protocol, leader and member id every time. They change no record and no committed offset.",
  ["inputs"], "all request contents within the bounds",
  "The tests' client sends one fixed shape of each request.",
  ["join_group.go", "heartbeat.go", "leave_group.go"], [("joinGroupV1", "join_group.go"), ("heartbeatV0", "heartbeat.go"), ("leaveGroupV0", "leave_group.go")], observe=WIRE)

# ---------------------------------------------------------------- concurrency / lifecycle
p("G04", "A group consumer reads every record, in order, across reconnects and restarts",
  "A consumer that follows the protocol - metadata, coordinator, join, sync, committed offsets, then fetch from there and commit what it has read - is never told to lead the group, and reads every record of every existing partition exactly as posted, in order and without gaps. After it breaks off at any point, reconnects, or the mock restarts, it goes on exactly at what it last committed, so only uncommitted records are read again, and in the end its lag is zero.",
  ["histories", "fault_sequences", "schedules"], "breaking off before any request of a session in any way, posts and restarts between sessions, all record contents, several fetch limits; posts concurrent with a waiting consumer on all schedules within the bound",
  "Tests run a client library through a few fixed conversations.",
  ["fetch.go", "offset_commit.go", "offset_fetch.go", "join_group.go", "sync_group.go", "metadata.go", "find_coordinator.go"],
  [("fetchV2", "fetch.go"), ("offsetCommitV2", "offset_commit.go"), ("offsetFetchV1", "offset_fetch.go"), ("syncGroupV0, joinGroupV0", "sync_group.go")],
  observe=WIRE)
p("L01", "Concurrent posting and serving is free of data races",
  "Posting, topic creation, direct offset setting and requests of every API from several clients can run at the same time without any two of them accessing the same memory unsynchronised, at least one writing. Hence no schedule crashes the process with concurrent map access or yields a torn read.",
  ["schedules"], "all interleavings of any two operations (API calls and requests of each kind) on shared topics and partitions",
  "The tests post before or while one client reads; the race detector is not enabled and would judge only the schedules that happen.",
  ["datastore.go", "list_offsets.go", "sync_group.go", "fetch.go", "offset_commit.go", "kafka-mock.go"],
  [("kafkaDataStore.mu, kafkaTopic.mu, kafkaPartition.mu", "datastore.go")],
  state=[("the data store", "shared by all clients and the API caller", "datastore.go")], observe=["memory accesses", "process crash"])
p("L02", "No post or commit is lost under concurrency, and nothing deadlocks",
  "When several goroutines post and several clients commit offsets at the same time, every schedule ends with each posted record stored exactly once (each poster's records in its own order) and each group's offset at the highest value committed. No schedule leaves any of them blocked.",
  ["schedules", "inputs"], "all interleavings at synchronisation points of the stated operations, all offsets",
  "Each test run sees one schedule, and posters and committers do not overlap in the tests.",
  ["datastore.go", "offset_commit.go", "kafka-mock.go"],
  [("mutexes of topic map, partition map and partition", "datastore.go")], observe=WIRE)
p("L03", "Stopping always completes and may be requested any number of times",
  "Once the stop of a started mock has been requested - right after start, with idle, busy, half-closed or waiting clients or clients that do not read their responses, once or repeatedly, from several goroutines - waiting for termination returns for everyone who waits, the server accepts no further connection, and every client connection is closed. Waiting on a mock that was never started, or has stopped, returns at once, whether a stop is requested or not.",
  ["schedules", "histories"], "all interleavings of start, stop requests, waits and client activity within the stated bounds",
  "Three tests cover start/stop without clients under whichever schedule happens.",
  ["kafka-mock.go", "kafka-client.go"],
  [("Start, RequestStop, WaitForTermination, run", "kafka-mock.go"), ("kafkaClient.handle lane-done exit", "kafka-client.go")],
  state=[("started, stopped, wg, active, initializing", "life-cycle state", "kafka-mock.go")], observe=["return of the calls", "state of connections"])
p("L04", "Restart keeps all records and committed offsets and serves again",
  "After a restart - any number of times, with or without clients connected, also when other goroutines requested the stop too or are waiting for it - the mock accepts connections again and serves exactly the records, topics, partitions and committed offsets it had before.",
  ["histories", "inputs"], "all store contents within the bounds, restart at any point of the stated histories",
  "Tests restart once with two records and a single reader.",
  ["kafka-mock.go"], [("Restart", "kafka-mock.go")], observe=WIRE)
p("L05", "A client's disconnect affects that client only",
  "When one of several connected clients disconnects, exactly that client is forgotten by the server; the others stay registered, keep their connections and continue to be answered correctly. This holds whatever the order in which clients connect and disconnect.",
  ["histories", "schedules"], "all connect/disconnect orders of up to the stated number of clients",
  "Tests never keep two clients connected while one leaves and then look at the rest.",
  ["kafka-mock.go", "kafka-client.go"],
  [("connection registry and its removal callback", "kafka-mock.go run")],
  state=[("KafkaMock.clients", "connected clients", "kafka-mock.go")], observe=WIRE + ["set of registered clients"])
p("L06", "Finish completes blocked fetches and stops taking new work",
  "After the mock is told to finish requests, a fetch that is blocked waiting for data is answered promptly however long its wait time, requests the server has already received are answered, and every connection is then closed - within a few seconds, also while its client keeps sending or does not read - so that no further requests are served; a connection made afterwards is closed unanswered. Data posted before is still delivered by the fetch that was waiting.",
  ["schedules", "inputs"], "finish at any point of a waiting fetch, all wait times, pipelined requests up to the bound",
  "Tests call finish only while tearing down and ignore what the clients see.",
  ["kafka-mock.go", "kafka-client.go", "fetch.go"],
  [("FinishRequests", "kafka-mock.go"), ("lane-done checks", "kafka-client.go handle, fetch.go fetchV2")], observe=WIRE)
p("L07", "Connection loss, resets and idle time never take the server down",
  "If a client closes or resets its connection at any moment - idle, in the middle of a request, or while its response is being produced or written - or vanishes (its connection times out), stays silent or stops reading its responses, the process does not crash and other clients continue to be served. An idle connection stays usable for as long as the client keeps it open, and a client that resumes reading gets every response whole.",
  ["fault_sequences", "schedules"], "a close or reset injected at every point of the conversation, arbitrary idle periods within the bound",
  "Tests close connections at whatever moment the schedule happens to give; the test that does so on purpose hangs on the original code.",
  ["kafka-client.go", "net-utils.go", "kafka-message.go"],
  [("wasSocketClosed", "net-utils.go"), ("kafkaClient.handle, isConnected", "kafka-client.go")], observe=["process liveness", "answers to other clients"])

p("L08", "Mocks in one process do not influence each other",
  "Any number of mocks may be created in one process, before or while others serve. Records, topics, partitions and committed offsets belong to the mock they were posted, created or committed at, each mock leads its clients to its own port, and stopping, finishing or restarting one, or whatever its clients do, changes nothing for the clients of another: requests under way and waiting fetches there go on.",
  ["histories", "schedules", "inputs"], "all contents, all histories of two or three mocks within the stated bounds, all interleavings within the preemption bound",
  "Tests run one mock at a time.",
  ["kafka-mock.go", "datastore.go", "api-keys.go"],
  [("NewKafkaMock", "kafka-mock.go"), ("initializeApis and the package-level tables", "api-keys.go"), ("newKafkaDataStore", "datastore.go")],
  state=[("apiTable, apiVersions, apiHasTags", "shared by all mocks, filled once", "api-keys.go")], observe=WIRE)
p("L09", "Every client is served independently of the others",
  "A request is answered as promptly and with the same contents whatever other clients are connected and whatever state they are in: waiting in a fetch, in the middle of a request of any size, silent, not reading their responses, or sending requests of their own at the same time. No part of one client's requests, responses or waits appears in another's.",
  ["schedules", "histories", "inputs"], "every API beside clients in every state of the list, up to hundreds of clients at once, all interleavings of two clients' requests within the preemption bound",
  "Tests keep one client connected, or two whose requests do not overlap.",
  ["kafka-mock.go", "kafka-client.go", "fetch.go"],
  [("run (accepting)", "kafka-mock.go"), ("kafkaClient.handle, dispatcher", "kafka-client.go"), ("fetchV2 waiting", "fetch.go")],
  observe=WIRE + ["time of the answer"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
