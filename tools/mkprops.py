#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":None}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("P01","Accepted messages are written exactly once, in order, byte-exact",
 "With no broker fault, every message a producer accepts is appended to its topic exactly once by the time a flush, the periodic flush or close has completed, with key and value bytes identical to what was passed at the call (an absent key stays absent, and later changes to the caller's buffers have no effect). Keyed messages accepted one after another for the same partition appear there in acceptance order, and so do unkeyed ones; a single-partition producer keeps the order of all its messages.",
 ["histories","inputs","configurations","schedules"],
 "all sequences of add / flush / wait / close calls, from one or several goroutines, over all key and value bytes, batch limits, flush intervals, compression types and partition counts",
 "the outcome depends on where count-triggered, timer-triggered and close-triggered flushes fall in the sequence and on record sizes crossing variable-length encoding boundaries; tests sample single batches",
 ["simple_producer.go","producer.go","produce_request.go","record.go"],
 [("batching and flush","simple_producer.go AddMessage/Flush/Close"),("record and batch encoding","record.go Encode, produce_request.go Encode")],
 "partition logs of a fake cluster after the history")
p("P02","Every produce request carries well-formed record batches",
 "Every produce request on the wire is decodable by an independent implementation of the Kafka record-batch format: lengths, CRC-32C, magic, offset deltas 0..n-1, last offset delta, record count, compression attribute and payload all agree, and the request's acks, timeout, topic and partition are the configured ones. When the records are decompressed they parse with no byte left over.",
 ["inputs","configurations","histories"],
 "all message sets (absent, empty and large keys and values, any count up to the batch limit), compression types, acks and timeout settings",
 "field-level corruption only shows for particular sizes and counts (varint boundaries, absent keys, more than one record), which byte-for-byte test fixtures do not reach",
 ["produce_request.go","record.go","message_encode.go","simple_producer.go","gzip_compressor.go","lz4_compressor.go","snappy_compressor.go"],
 [("batch encoder","produce_request.go / record.go"),("compressors","*_compressor.go")],
 "bytes received by a fake broker")
p("P03","Keys map to a fixed partition, and messages go to its current leader",
 "A keyed message goes to the partition whose number is the 32-bit murmur2 hash (seed 0) of the key modulo the topic's partition count, for the whole life of the producer; unkeyed messages go to partitions that exist and are reported healthy. Each produce request is sent to the broker that the metadata the producer was last given names as leader of that partition.",
 ["inputs","configurations","histories"],
 "all keys, partition counts, leader placements, and partitions marked unavailable in metadata",
 "hash agreement must hold for every key and partition count; a wrong seed, sign or modulus is invisible on most sampled keys",
 ["producer.go","simple_producer.go","brokers.go"],
 [("partitioner","producer.go getSimpleProducer"),("leader lookup","producer.go getLeaderID, simple_producer.go createLeader")],
 "which broker and partition receives each record")
p("P04","A produce failure is reported to the caller, never silently dropped",
 "If the broker rejects a batch, or the connection breaks or times out before the acknowledgement, then the call that sent the batch (an explicit flush, or the add that fills the batch) returns a non-nil error; such a call returns nil only if the broker acknowledged the batch. A failed producer call leaves the producer usable: after the fault clears, newly accepted messages are delivered.",
 ["fault_sequences","histories","configurations"],
 "all placements of broker error codes, connection closes, resets, truncated replies and hangs over the produce requests of a history",
 "needs a fault on a chosen request of a multi-batch history; existing tests mock whole methods and never fail a send",
 ["simple_producer.go","producer.go","produce_response.go","broker.go"],
 [("flush error path","simple_producer.go AddMessage/Flush/flush"),("produce response decoding","produce_response.go")],
 "return values of add / flush against the fake broker's acknowledgement record")
p("P05","A partition is consumed in offset order, gap-free, dup-free, byte-exact",
 "A consumer reading one partition delivers exactly the records of that partition from its start offset on, in offset order, each once, with the stored offset, key, value, headers and timestamp, whatever mix of message formats and supported codecs (gzip, snappy, lz4) the log holds. This holds for every way the broker splits the log into fetch responses (including responses ending in a cut-off batch and batches starting before the requested offset) and every way the network splits the bytes.",
 ["inputs","configurations","schedules"],
 "all logs (formats 0, 1 and 2; uncompressed, gzip, snappy, lz4; null keys and values; headers; compaction gaps), fetch sizes, protocol versions and byte segmentations",
 "decoder bugs show only for particular alignments of batch boundaries, truncation points and short reads",
 ["simple_consumer.go","fetch_request.go","fetch_response.go","record.go","message.go"],
 [("streaming decoder","fetch_response.go streamDecode"),("consume loop","simple_consumer.go consumeLoop/consumeMessages")],
 "messages received on the channel against the fake cluster's log")
p("P06","Consumption survives broker and network faults without loss or duplication",
 "After any finite sequence of transient faults (connection closed, reset, cut off mid-response, timed out or refused; leader moved; not-leader, stale-epoch and other retriable errors on fetch or offset lookup), a running consumer keeps consuming and still delivers every record once, in order. It never crashes and never delivers a record twice within the same run.",
 ["fault_sequences","schedules","histories"],
 "all finite fault plans over the requests and bytes of a consuming history",
 "requires faults at particular byte positions and requests, with the real reconnect and retry timing",
 ["simple_consumer.go","broker.go","brokers.go","fetch_response.go"],
 [("retry and leader refresh","simple_consumer.go consumeMessages/getLeaderBroker"),("reconnect","broker.go ensureOpen/Close")],
 "messages received on the channel against the fake cluster's log, in virtual time")
p("P07","Consumption starts at the requested, committed, earliest or latest offset",
 "A consumer asked for an explicit offset starts there; otherwise it starts at the group's committed offset when a group is configured and one exists, and else at the earliest or the latest offset as requested. When the position is out of the partition's range the consumer re-positions to the earliest or latest offset according to the same setting and continues.",
 ["configurations","inputs","histories"],
 "all combinations of requested offset, log start and end, committed offset, group setting, and protocol version",
 "the start rule is a product of five independent settings, each sampled at most once by tests",
 ["simple_consumer.go","offset_request.go","offset_response.go","offset_fetch_request.go","offset_fetch_response.go","consumer.go"],
 [("start position","simple_consumer.go Consume/initOffset/getCommitedOffet"),("out of range","simple_consumer.go consumeMessages")],
 "offset of the first fetch and of the first delivered record")
p("P08","A committed offset never runs ahead of delivery, and stopping commits progress",
 "Whenever a consumer commits an offset, every record from its start position up to that offset has been handed to the application, and commits never move backwards within one consumer's run. With automatic commit on, a consumer stopped cleanly has committed its final position, so that a successor with the same group continues with the next record: nothing skipped, nothing repeated.",
 ["histories","schedules","fault_sequences"],
 "all interleavings of delivery, automatic and explicit commit, stop and restart, including failed commits",
 "depends on when the commit timer and stop fall relative to delivery",
 ["simple_consumer.go","group_consumer.go","offset_commit_request.go","consumer.go"],
 [("commit","simple_consumer.go CommitOffset, group_consumer.go commitOffset"),("commit on stop","simple_consumer.go Consume")],
 "commit requests at the coordinator against deliveries on the channel")
p("P09","Group assignment covers every partition exactly once, by range",
 "For any members, subscriptions and topic metadata, the assignment the group leader computes gives every partition of every subscribed topic to exactly one member that subscribes to that topic and gives nothing else. Per topic the partitions are split in id order into contiguous ranges over the subscribers in member-id order, sizes differing by at most one with the larger first, so the result does not depend on the order members or metadata are listed in.",
 ["inputs","configurations"],
 "all member lists, overlapping subscriptions, and topic metadata with any number and order of partitions",
 "coverage and disjointness quantify over arbitrary membership and partition counts",
 ["assign.go","group.go","group_consumer.go"],
 [("range strategy","assign.go Assign"),("assignment encoding","group.go MemberAssignment.Encode")],
 "the sync-group request the leader sends, and the exported strategy")
p("P10","Group membership follows the join, sync, heartbeat and leave protocol",
 "A group consumer joins with its subscription, syncs with the generation and member id it was given, and heartbeats several times within every session timeout while it is a member, so a healthy coordinator never evicts it. On a rebalance, stale-generation, unknown-member or moved-coordinator answer it rejoins (dropping its member id only when told it is unknown), and on close it leaves the group.",
 ["histories","fault_sequences","schedules"],
 "all sequences of coordinator answers, rebalances, coordinator moves and connection faults",
 "a protocol over time against a stateful peer; unit tests mock single calls",
 ["group_consumer.go","joingroup_request.go","sync_group_request.go","heartbeat_request.go","leave_group_request.go"],
 [("join and sync","group_consumer.go joinAndSync"),("heartbeat","group_consumer.go heartbeat/Consume"),("leave","group_consumer.go leave/AwaitClose")],
 "request history at the fake coordinator")
p("P11","A consumer group together consumes every record across rebalances",
 "Across any sequence of members joining, leaving, and being rebalanced, every record produced to the subscribed topic is delivered to some member at least once, and a record is delivered again only if its delivery was not yet covered by a committed offset (so with automatic commit and no fault, rebalancing repeats nothing). A member fetches and delivers only from partitions assigned to it in its current generation.",
 ["histories","schedules","fault_sequences"],
 "all join / leave / crash / produce histories over several group members sharing a topic",
 "loss or double ownership appears only with particular interleavings of rebalance, commit and fetch",
 ["group_consumer.go","simple_consumer.go"],
 [("rebalance","group_consumer.go restart/stop/consumeWithoutHeartBeat"),("resume","simple_consumer.go getCommitedOffet")],
 "deliveries and commits per member against the fake cluster's logs")
p("P12","Every response a caller receives answers that caller's own request",
 "Whatever the interleaving of concurrent requests on one broker connection, and whatever late, stray or out-of-date responses a broker sends, a caller either gets the response to its own request or an error. A response that arrives after its request timed out is never delivered to a later request.",
 ["schedules","fault_sequences","inputs"],
 "all interleavings of concurrent callers, response delays around the timeout, and responses with foreign correlation ids",
 "mismatches need a timeout or concurrency at a precise moment",
 ["broker.go","response.go","simple_consumer.go"],
 [("request/response exchange","broker.go Request/RequestAndGet"),("frame reading","response.go ReadAndParse")],
 "value returned to each caller against a per-request token echoed by the fake broker")
p("P13","Requests end within their timeout, and broken connections are replaced",
 "A request to a broker that accepts the connection but never answers, or stops half-way, fails within the configured (per-API or general) timeout instead of hanging. After any connection failure or timeout the next request on that broker opens a new connection and succeeds if the broker is healthy again.",
 ["fault_sequences","configurations","schedules"],
 "all positions of hang, close, reset and refusal in the byte stream, and all timeout settings",
 "needs a controllable clock and a peer that fails at chosen byte positions",
 ["broker.go","response.go"],
 [("timeouts","broker.go Request, response.go Read"),("reconnect","broker.go ensureOpen/Close")],
 "virtual time and outcome of each call")
p("P14","Request versions are negotiated from what each broker advertises",
 "For every API and every set of version ranges a broker advertises, the client sends the highest version both sides support and encodes header and body in that same version; the reply is decoded in that version too. Different brokers, or the same broker after a reconnect, may advertise different ranges and each connection uses its own.",
 ["configurations","inputs"],
 "all advertised version tables, per broker and per connection",
 "the product of APIs and advertised ranges is never sampled by the tests",
 ["broker.go","request.go","response.go","apiversions_response.go"],
 [("version choice","broker.go getHighestAvailableAPIVersion"),("header version","request.go headerVersion")],
 "api version and header layout of each request at the fake broker")
p("P15","Every request is encoded exactly as the Kafka protocol specifies",
 "For every API and version the client can select and for all field values, the bytes sent decode under an independent implementation of the Kafka protocol schema to exactly the values the caller supplied, with a correct length prefix and no missing or extra bytes.",
 ["inputs","configurations"],
 "all requests: every API, selectable version, string, bytes, array size and nullable field",
 "tests pin a few literal encodings; field order, null, empty and multi-element cases are open-ended",
 ["request.go","primitive_type_encode.go","metadata_request.go","create_topics_request.go","create_acls_request.go","delete_acls_request.go","describe_acls_request.go","list_groups_request.go","create_partitions_request.go","alter_config_request.go","incremental_alter_config_request.go","alter_partition_reassignments_request.go","list_partition_reassignments_request.go","elect_leaders_request.go","describe_logdirs_request.go","offset_commit_request.go"],
 [("request encoders","*_request.go Encode"),("primitive encoders","primitive_type_encode.go")],
 "bytes received by a fake broker")
p("P16","Every well-formed response is decoded to exactly the values it carries",
 "For every API and version the client can select, any response that is valid under the Kafka protocol schema (including nulls, empty and multi-element arrays and unknown tagged fields) is decoded without error or crash into a result whose exposed fields equal the encoded values.",
 ["inputs","configurations"],
 "all valid responses: every API, selectable version and field value",
 "tests pin a few captured responses; decoders mis-track offsets only for particular combinations of nulls and lengths",
 ["response.go","primitive_types_decode.go","tagged_fields.go","metadata_response.go","produce_response.go","offset_fetch_response.go","describe_groups_response.go","list_groups_response.go","describe_logdirs_response.go","delete_acls_response.go","desscribe_acls_response.go","create_acls_response.go"],
 [("response decoders","*_response.go"),("primitive decoders","primitive_types_decode.go")],
 "decoded response objects")
p("P17","Malformed or truncated responses yield an error, never a crash or a hang",
 "Whatever bytes a broker sends as the body of a response (cut short, corrupted lengths or counts, random data), the call returns, with an error when the body is cut short, and the process neither panics nor loops nor allocates memory out of proportion to the response.",
 ["inputs","fault_sequences"],
 "all byte strings, in particular all prefixes and mutations of valid responses of every API and version",
 "robustness over all byte strings cannot be sampled by fixtures",
 ["response.go","primitive_types_decode.go","fetch_response.go","*_response.go"],
 [("response parsing","response.go Parse"),("fetch stream decoding","fetch_response.go")],
 "outcome of the call in a worker process")
p("P18","Every error code a broker returns reaches the caller as an error",
 "For every API, a response carrying a non-zero error code at the top level or in any of its entries is turned into a non-nil error (or is exposed in the returned entry that failed, where the call reports per-entry results), and the error identifies the code. A response without error codes never yields an error.",
 ["inputs","configurations"],
 "all error codes at every error-carrying position of every response, among other healthy entries",
 "each response has several error positions and any entry of an array can fail",
 ["errorcode.go","error.go","*_response.go","client.go"],
 [("error mapping","errorcode.go getErrorFromErrorCode"),("response errors","*_response.go Error")],
 "error returned by the call")
p("P19","Requests reach the right broker, and any live bootstrap server suffices",
 "As long as one listed bootstrap server is reachable the client can be created and learns the cluster; requests about a partition go to its leader, group requests to the group's coordinator and cluster administration to the controller, as told by current metadata. A metadata or coordinator lookup succeeds while any known broker answers.",
 ["configurations","fault_sequences","histories"],
 "all cluster layouts, dead-broker subsets, and leader, coordinator and controller placements",
 "routing is a function of the whole cluster layout and of which brokers are down",
 ["brokers.go","client.go","broker.go"],
 [("bootstrap","brokers.go NewBrokersWithConfig"),("routing","brokers.go GetBroker/findLeader/RequestOffsets, client.go")],
 "which broker receives each request")
p("P20","Authentication precedes all other traffic on every connection",
 "When SASL is configured, every connection the client ever opens, including reconnections, authenticates with the configured mechanism and credentials before any request other than version discovery is sent, and rejected authentication surfaces as an error instead of unauthenticated use. When TLS is configured nothing is sent in clear text and an untrusted server certificate is rejected.",
 ["configurations","fault_sequences","histories"],
 "all histories of connections, reconnections and authentication outcomes, for all credentials",
 "reconnect paths and refused handshakes are not reached by the tests",
 ["broker.go","sasl_handshake_request.go","sasl_authenticate_request.go","sasl_plain.go"],
 [("authentication","broker.go createConnAndAuth/sendSaslAuthenticate"),("TLS","broker.go newConn/createTLSConfig")],
 "per-connection request order at the fake brokers")
p("P21","Configuration maps are honoured key by key, and instances do not share state",
 "A configuration given as a map sets exactly the named options, accepting numbers and booleans in native or string form, leaves every other option at its documented default, and rejects invalid values with an error; a configuration struct is used as given. Creating or using one client never changes the configuration or defaults seen by another.",
 ["configurations","histories"],
 "all option subsets and value forms, and all creation orders of several clients",
 "the option space is combinatorial and aliasing needs two instances",
 ["config.go"],
 [("config decoding","config.go createConsumerConfig/createProducerConfig"),("validation","config.go checkValid")],
 "observable behaviour of clients (wire fields, timing) created from the maps")
p("P22","Stopping or closing returns promptly and ends all activity",
 "Stopping a consumer or closing a producer, group consumer or client, at any moment, returns within a bounded time; afterwards no further message is delivered, no further request is sent, its connections are closed, no goroutine of it goes on running, and adding to a closed producer is refused.",
 ["schedules","histories","fault_sequences"],
 "all moments of stop / close relative to fetches, flushes, rebalances, faults and unread messages",
 "the moment of the call relative to in-flight work decides the outcome",
 ["simple_consumer.go","group_consumer.go","consumer.go","producer.go","simple_producer.go","client.go","brokers.go"],
 [("stop","simple_consumer.go Stop, consumer.go AwaitClose, group_consumer.go AwaitClose"),("close","producer.go Close, simple_producer.go Close")],
 "virtual time of return and traffic at the fake cluster afterwards")
p("P23","Admin calls report exactly what the cluster answered",
 "Each administrative call (list, describe and delete groups; create and delete topics, partitions and ACLs; describe and alter configs; log directories; reassignments; leader election) sends the request the arguments describe to the broker(s) responsible and returns the union of their answers: nothing lost, nothing invented, nothing attributed to the wrong group, topic or broker.",
 ["inputs","configurations","fault_sequences"],
 "all arguments and cluster states, several brokers, some of which fail",
 "merging and filtering over several brokers is only exercised with one or two fixed replies",
 ["client.go","brokers.go"],
 [("fan-out and merge","client.go"),("controller calls","brokers.go AlterPartitionReassignments/ElectLeaders")],
 "returned values against the fake cluster's state")
p("P24","Multi-partition consumption delivers exactly the selected partitions",
 "A consumer subscribed to topics consumes all partitions of exactly those topics, and one with an explicit assignment consumes exactly the assigned partitions; per partition the records are delivered in offset order, once each, from the configured start position.",
 ["configurations","inputs","schedules"],
 "all subscriptions and assignments over topics with any partition counts and leader placements",
 "the set of partitions actually consumed depends on metadata and the assignment together",
 ["consumer.go","simple_consumer.go"],
 [("partition selection","consumer.go Consume/Subscribe/Assign")],
 "messages received on the channel and fetches at the fake cluster")
p("P25","Command-line tools report and change exactly what was asked",
 "The command-line tools print the offsets, lag, metadata, groups and messages the cluster really has, and change exactly the topic, partition, group or offset named on the command line; a failing request gives a non-zero exit or a printed error rather than success.",
 ["inputs","configurations"],
 "all topics, partition counts, committed offsets and flag combinations",
 "the commands have no tests at all",
 ["command/healer/cmd/*.go"],
 [("commands","command/healer/cmd")],
 "standard output, exit status and requests at a fake cluster on loopback")
p("P26","The REST API reports and changes exactly what was asked",
 "Each REST endpoint sends the cluster the request its path, query and body describe and answers with the cluster's data as JSON; broker errors, invalid input and missing credentials (where --auth is set) are answered with an error status. Concurrent calls do not disturb each other, and no call leaves a connection to the cluster open.",
 ["inputs","configurations"],
 "all valid and invalid requests over all endpoints",
 "the endpoints have no tests at all",
 ["command/healer/cmd/api.go","command/healer/cmd/apicontrollers/*.go"],
 [("controllers","command/healer/cmd/apicontrollers")],
 "HTTP responses and requests at a fake cluster on loopback")
p("P27","Exported encodings and names round-trip",
 "Decoding the encoding of any group subscription, group assignment, record, record batch, message set, compressed payload or tagged-field set gives back the same value (null and empty kept apart in records and messages), and every ACL resource, pattern, operation and permission name and every compression name converts to its code and back. Unknown names, and encodings that are cut short or whose lengths do not fit, give an error, not a crash or a wrong value.",
 ["inputs"],
 "all values of the exported codecs and all names and codes of the enumerations, in any letter case",
 "inverse laws quantify over all values",
 ["group.go","acl_types.go","record.go","message.go","compressor.go","tagged_fields.go","primitive_type_encode.go","primitive_types_decode.go"],
 [("codecs","group.go, record.go, *_compressor.go, tagged_fields.go"),("enums","acl_types.go, resource_types.go")],
 "values after encode and decode")
p("P28","Outages cost a client neither growing resources nor a retry storm",
 "However often brokers fail, connections break, leaders or coordinators move and groups rebalance during a client's life, the connections it holds open and the goroutines it runs do not keep growing from one recovery to the next. While an outage lasts, requests, connection attempts and lookups that fail are repeated at intervals (the configured retry back-off or a fixed pause), never in a tight loop.",
 ["histories","fault_sequences"],
 "all repeated disturbances of a producer, consumer, group consumer, client or broker set, from its creation on: refused, blackholed, cut and reset connections, unanswered requests, error codes, moved and missing leaders, rebalances",
 "growth shows only over repeated failures of a long-lived client, and a storm only while a failure persists",
 ["broker.go","brokers.go","simple_consumer.go","group_consumer.go","consumer.go","producer.go","simple_producer.go"],
 [("pauses","simple_consumer.go changeLeaderBroker, consumeMessages, group_consumer.go joinAndSync, consumer.go, producer.go NewProducer, brokers.go RequestMetaData"),("release","broker.go Close, brokers.go, simple_consumer.go doStop, simple_producer.go")],
 "connections open and library goroutines at rest after each of ten equal disturbances; requests and dials per ten virtual seconds at the fake cluster")
p("P29","Concurrent use is safe: no data races, and calls do not affect each other",
 "A Brokers, Client, Broker connection, producer or consumer may be used by several goroutines at once, also while it refreshes, reconnects, rebalances or is being closed: no two accesses to memory it keeps conflict without synchronisation, and no memory handed to the application or taken from it is written by the library later. Calls made concurrently return what they would return one after another, as long as the cluster does not change.",
 ["schedules","histories","fault_sequences"],
 "all concurrent calls by callers sharing one object, interleaved with the library's own goroutines, cluster changes, faults, stopping and closing, with logging off or at full verbosity",
 "a race shows only under particular schedules and corrupts data silently; the tests use one goroutine and run without the race detector",
 ["brokers.go","broker.go","client.go","simple_consumer.go","group_consumer.go","consumer.go","producer.go","simple_producer.go","fetch_response_stream_decoder.go"],
 [("locks and atomics","brokers.go, broker.go, simple_consumer.go stop/offset/coordinator, group_consumer.go stateLock, simple_producer.go lock"),("logging","log lines that format shared structures")],
 "every memory access (race detector) while generated histories run; results of concurrent calls compared with those of the same calls alone")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        assert x["statement"].count(". ")<=2,x["id"]
        f.write(json.dumps(x)+"\n")
