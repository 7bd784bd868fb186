prop("C01", "Wire primitives decode to exactly what was encoded",
 "Every primitive of the wire format (varints, strings, byte arrays and their compact and nullable forms, tagged fields) encodes to the bytes the Kafka protocol defines for it, reports the number of bytes it wrote, and decodes back to the same value while consuming exactly those bytes, whatever follows them. Null and empty stay distinct.",
 ["inputs"], "all values of each primitive type, all string/bytes lengths up to the bound (including the 1-, 2- and 3-byte compact length boundaries), null and empty, any trailing bytes",
 "The existing tests encode a handful of literals; they do not reach nulls, length-prefix boundaries, and never check the consumed length for all values.",
 ["primitive_type_encode.go", "primitive_types_decode.go", "tagged_fields.go"], [("encode*/read* helper pairs", "primitive_type_encode.go, primitive_types_decode.go, tagged_fields.go")], observe=["encoded bytes", "decoded value and consumed length"])
prop("C02", "Data and group requests are encoded as Kafka's schema for their version says",
 "For every field value, each produce, fetch, list-offsets, metadata, offset-commit, offset-fetch, find-coordinator, join/sync/leave/heartbeat, list/describe-groups, api-versions and SASL request is encoded, for every version healer negotiates, as exactly the bytes Kafka's schema of that API version prescribes: size prefix, header version, correlation id, client id and body, with no byte missing or left over. Re-encoding the same request for another version follows that version.",
 ["inputs", "configurations"], "all field values and all shapes within the bounds, all versions healer can negotiate, any correlation id and client id",
 "Existing tests compare one captured byte string for a few APIs and versions; shapes (several topics/partitions, nulls, empties) and most versions are never encoded.",
 ["request.go", "produce_request.go", "fetch_request.go", "offset_request.go", "metadata_request.go", "offset_commit_request.go", "offset_fetch_request.go", "findcoordinator_request.go", "joingroup_request.go", "sync_group_request.go", "heartbeat_request.go", "leave_group_request.go", "list_groups_request.go", "describe_groups_request.go", "apiversions_request.go", "sasl_handshake_request.go", "sasl_authenticate_request.go"],
 [("Encode/SetVersion/SetCorrelationID of each request", "*_request.go"), ("header version table", "request.go")], observe=["bytes written to the broker connection"])
prop("C03", "Admin and ACL requests are encoded as Kafka's schema for their version says",
 "For every field value, each create/delete-topics, create-partitions, describe/alter/incremental-alter-configs, alter/list-partition-reassignments, elect-leaders, describe-log-dirs, delete-groups and describe/create/delete-ACLs request is encoded, for every version healer negotiates, as exactly the bytes Kafka's schema of that API version prescribes. What the request builders were given (topics, replica assignments, configs, filters) is what the bytes say, nulls staying null and empties empty.",
 ["inputs", "configurations"], "all field values and shapes within the bounds, all versions healer can negotiate",
 "Existing tests compare single captured byte strings for some of these APIs; several topics/resources/filters, nulls and the non-flexible versions are never encoded.",
 ["create_topics_request.go", "delete_topics_request.go", "create_partitions_request.go", "describe_configs_request.go", "alter_config_request.go", "incremental_alter_config_request.go", "alter_partition_reassignments_request.go", "list_partition_reassignments_request.go", "elect_leaders_request.go", "describe_logdirs_request.go", "describe_acls_request.go", "create_acls_request.go", "delete_acls_request.go", "delete_groups_request.go"],
 [("Encode of each request and its builders", "*_request.go")], observe=["bytes written to the broker connection"])

prop("C04", "Data and group responses decode to exactly what the broker sent",
 "For every well-formed response of the produce, list-offsets, metadata, offset-commit, offset-fetch, find-coordinator, join/sync/leave/heartbeat, list/describe-groups, api-versions and SASL APIs, in every version healer negotiates, each field of the decoded value equals the field on the wire (null strings and null/empty arrays included), the decoder consumes exactly the response and never panics, and the response is the same however the connection splits it into reads.",
 ["inputs", "configurations", "schedules"], "all field values, all shapes within the bounds, all negotiable versions, all segmentations of the connection within the bounds",
 "Existing tests decode one captured response per API; other versions, several elements, nulls and partial reads are never decoded.",
 ["response.go", "produce_response.go", "metadata_response.go", "offset_response.go", "offset_commit_response.go", "offset_fetch_response.go", "findcoordinator_response.go", "joingroup_response.go", "sync_group_response.go", "heartbeat_response.go", "leave_group_response.go", "list_groups_response.go", "describe_groups_response.go", "apiversions_response.go", "sasl_handshake_response.go", "sasl_authenticate_response.go"],
 [("New*Response decoders", "*_response.go"), ("defaultReadParser.Read/Parse", "response.go")], observe=["decoded response structures", "bytes left on the connection"])
prop("C05", "Admin and ACL responses decode to exactly what the broker sent",
 "For every well-formed response of the create/delete-topics, create-partitions, describe/alter/incremental-alter-configs, alter/list-partition-reassignments, elect-leaders, describe-log-dirs, delete-groups and describe/create/delete-ACLs APIs, in every version healer negotiates, each field of the decoded value equals the field on the wire (nulls and empties included) and the decoder never panics; a response whose size field disagrees with its length is refused with an error.",
 ["inputs", "configurations"], "all field values and shapes within the bounds, all negotiable versions",
 "Existing tests decode one captured response for some of these APIs; several elements, nulls, tagged fields and older versions are never decoded.",
 ["create_topics_response.go", "delete_topics_response.go", "create_partitions_response.go", "describe_configs_response.go", "alter_config_response.go", "incremental_alter_config_response.go", "alter_partition_reassignments_response.go", "list_partition_reassignments_response.go", "elect_leaders_response.go", "describe_logdirs_response.go", "desscribe_acls_response.go", "create_acls_response.go", "delete_acls_response.go", "delete_groups_response.go"],
 [("New*Response decoders", "*_response.go")], observe=["decoded response structures"])
prop("C06", "An error the broker reports always reaches the caller",
 "For every response type and every combination of error codes in it, Error() returns nil if and only if every error code in the response is zero; a returned error is a Kafka error whose code occurs in the response; null error messages never cause a panic.",
 ["inputs"], "all 16-bit error codes at every position of every response type within the element bounds, null and non-null error messages",
 "Tests look at one successful response each; an error code in the second element or at a nested level is never tried.",
 ["response.go", "errorcode.go"], [("Error() of each response", "*_response.go")], observe=["error returned by Error() and RequestAndGet"])
prop("C07", "Produced records are written in Kafka's record format, unchanged",
 "Whatever keys, values, headers and timestamps the caller hands to a producer, the produce request carries exactly these records, in order, in a valid v2 record batch (or message set for old brokers): consecutive offset deltas, correct lengths, counts, last offset delta, timestamps and CRC-32C, the configured compression of exactly the records section; null and empty keys/values stay distinct; decoding gives back the same records, and records changed by the caller after AddMessage returned are sent as they were.",
 ["inputs", "configurations"], "all bytes of keys, values and header values, all timestamps, all shapes within the bounds, every codec, every produce version",
 "Existing tests encode one or two fixed records; nulls, several records, headers, large deltas and codecs are not covered together.",
 ["record.go", "message.go", "message_encode.go", "produce_request.go", "simple_producer.go", "gzip_compressor.go", "snappy_compressor.go", "lz4_compressor.go"],
 [("Record/RecordBatch encode and decode", "record.go"), ("MessageSet encode and decode", "message.go"), ("flush", "simple_producer.go")], observe=["bytes of the produce request"],
 note="The compression libraries are modelled as an ideal inverse pair.")
prop("C08", "A fetch delivers exactly the records from the start offset on, in order",
 "For every well-formed fetch response, in every version healer negotiates and however the connection splits it, the consumer is handed exactly the records whose offset is at or after the requested one, each once, in log order, with its own absolute offset, timestamp (the broker's append time for such topics), key, value and headers: for record batches and for both old message formats, with every supported compression. A response cut short by the size limit yields every record of its complete batches and never a partial one; when nothing fits, the consumer is told so. Transaction markers are never delivered, unknown codecs and every error code are reported as errors.",
 ["inputs", "schedules", "configurations"], "all offsets, timestamps and bytes, all shapes within the bounds, every cut point, every codec, all read sizes within the bounds",
 "Tests decode a few captured responses from memory in one piece; cuts, segment boundaries, old formats, gaps and start offsets inside a batch are never combined.",
 ["fetch_response.go", "record.go", "message.go"], [("fetchResponseStreamDecoder", "fetch_response.go"), ("DecodeToMessageSet", "message.go"), ("DecodeToRecord", "record.go")], observe=["messages delivered by the decoder", "bytes left on the connection"],
 note="The compression libraries are modelled as an ideal inverse pair.")
prop("C10", "A consumer goes on from where it was, whatever happens to its fetches",
 "A partition consumer starts at the given offset, else at the group's committed offset, else at the earliest or latest offset as configured, and from there delivers every record of the partition exactly once and in offset order, whatever happens in between: fetch errors, moved or dead leaders, answers cut short, connections that break or time out in the middle of an answer or whose answer arrives late, empty, compacted or control batches. Records too large for fetch.max.bytes make the fetch grow, never stall or overflow. When the wanted offset no longer exists, it goes on from the configured end.",
 ["histories", "faults", "inputs"], "all histories of two disturbed fetches out of 14 kinds of event with any error code, all start positions, all committed/earliest/latest offsets, all values of fetch.max.bytes",
 "Unit tests mock single calls of the consumer; sequences of failures followed by recovery, and what is delivered over the whole history, are never observed.",
 ["simple_consumer.go", "fetch_response.go", "broker.go", "brokers.go", "metadata_response.go"],
 [("SimpleConsumer.consumeLoop/consumeMessages/initOffset/getLeaderBroker", "simple_consumer.go"), ("requestFetchStreamingly", "broker.go")], state=[("SimpleConsumer.offset","the next offset to fetch","simple_consumer.go"),("SimpleConsumer.leaderBroker","the broker fetches go to","simple_consumer.go")], observe=["messages on the user's channel", "fetch requests sent"])
prop("C09", "A request is only ever given the answer to itself",
 "Whatever happens to earlier requests on a broker (error answers, timeouts whose answer arrives late, connections closed before, inside or after an answer, failing writes, refused reconnects), a request, fetches included, either fails or returns the broker's answer to that very request; a failure is reported to that caller only and the next request is answered again over a fresh connection, with API versions and authentication negotiated first. Correlation ids are never reused on a connection.",
 ["histories", "faults", "inputs"], "all sequences of three requests (RequestAndGet or streamed fetch) with any of nine events on the first two, any error code and payload, all read segmentations within the bounds, with and without SASL",
 "Tests mock the connection for single requests; what a timeout leaves on the connection for the next request is never looked at.",
 ["broker.go", "response.go", "fetch_response.go"], [("RequestAndGet/requestFetchStreamingly/ensureOpen/Close", "broker.go"), ("streamDecode", "fetch_response.go")],
 state=[("Broker.conn", "the connection, dropped when an answer was not read completely", "broker.go"), ("Broker.correlationID", "last correlation id", "broker.go")], observe=["returned responses and errors", "requests per connection"])
prop("C12", "A broker may be used and closed by several goroutines at once",
 "However requests of several goroutines on one broker interleave, each gets the answer to its own request; closing the broker at any moment, also while a request or a fetch is in flight, makes that request fail or succeed but never panics, hangs or mixes up answers, and the broker can be used again afterwards.",
 ["schedules", "inputs"], "all schedules of two users with at most two preemptions at locks, reads and writes; any answers",
 "A test runs one schedule; the ones in which Close or a second request comes between two steps of a request are never forced.",
 ["broker.go", "response.go"], [("RequestAndGet/Request/Close/ensureOpen", "broker.go"), ("defaultReadParser.Read", "response.go")],
 state=[("Broker.conn", "the connection", "broker.go")], observe=["returned responses and errors", "panics"])
prop("C11", "Offsets are committed for what was delivered, no more, before Stop returns",
 "A consumer with a group never commits an offset beyond the messages it has handed over, never a negative one and never backwards; commits name the consumer's group, generation, topic and partition; a commit that failed is made again; when Stop returns, everything handed over has been committed and nothing is committed afterwards, so that the next consumer of the partition skips no record and repeats none after an orderly stop.",
 ["histories", "schedules", "faults"], "any offsets, 0..4 messages taken at any pace, failing commits (any code or broken connection), orderly stop followed by a second consumer; schedules of a stop racing with commits and fetches within the delay and preemption bounds",
 "Unit tests call CommitOffset with mocks; the order between delivery, commit and stop is a matter of schedule and history.",
 ["simple_consumer.go", "group_consumer.go", "offset_commit_request.go"], [("SimpleConsumer.Consume/CommitOffset/Stop", "simple_consumer.go")],
 state=[("SimpleConsumer.offset", "offset after the last message handed over", "simple_consumer.go"), ("SimpleConsumer.offsetCommited", "last committed offset", "simple_consumer.go")], observe=["offset-commit requests received by the coordinator", "messages on the user's channel"])
prop("C13", "Requests are sent in the highest version both sides support",
 "Whatever version ranges a broker announces, in whatever order, every request is sent in the highest version of its API that lies in the broker's range and that healer implements, whenever there is one, whatever version the request was created with; its answer is read in the same version; after a reconnect the ranges announced on the new connection count.",
 ["inputs", "configurations", "histories"], "all announced (min,max) ranges for the API and its neighbours, 13 APIs, any position in the announcement, one reconnect with any new range",
 "Tests use one mocked list of versions; ranges that start above 0 or end between two implemented versions are never announced.",
 ["broker.go", "request.go", "response.go", "apiversions_response.go"], [("getHighestAvailableAPIVersion/Request", "broker.go"), ("availableVersions", "request.go"), ("SetVersion of each request", "*_request.go")],
 state=[("Broker.apiVersions", "ranges announced on the connection", "broker.go")], observe=["version in the request header", "decoded answers"])
prop("C14", "Partitions are assigned to exactly one group member each, evenly",
 "Whatever the members, their subscriptions and the partitions of the topics, and in whatever order they are listed, the leader's range assignment gives every partition of a subscribed topic to exactly one member that subscribes to it, spreads each topic's partitions over its subscribers with at most one partition of difference, and gives every member exactly one assignment. Assignments and subscriptions are encoded as Kafka's consumer protocol defines and decode to what was assigned, whichever client wrote them; topics without subscriber or partitions are no problem.",
 ["inputs"], "all member ids, partition ids and orders, subscriptions and map orders within the bounds; subscription format versions 0..2",
 "Tests assign two or three fixed configurations; uneven divisions, partial subscriptions and empty topics are not combined.",
 ["assign.go", "group.go"], [("rangeAssignmentStrategy.Assign", "assign.go"), ("MemberAssignment/ProtocolMetadata codecs", "group.go")], observe=["the group assignment sent in the sync request"])
prop("C15", "An accepted message is stored exactly once, in order; failures are reported",
 "Every message a producer accepts reaches its partition's leader exactly once, unchanged, in the order it was added: at the latest when message.max.count messages are buffered, when the flush interval has passed, on Flush or on Close, across metadata refreshes, moved leaders and partitions without leader. The call that sends a batch fails exactly when the batch was not acknowledged (with acks 0: not written), and only that batch is affected; later messages are sent again, to the new leader if there is one. A closed producer refuses messages with ErrProducerClosed, sends nothing more and keeps no connection, however adding, flushing, refreshing and closing interleave.",
 ["histories", "schedules", "faults", "inputs"], "all sequences of 4 operations on a SimpleProducer (one of its first two requests failing in any of four ways, any code) and on a Producer, all keys and values of one byte, any random partition choice, acks -1/0/1; schedules of two adders with flush, ticker, refresh and Close within two preemptions",
 "The repository has no producer tests; loss and duplication need a batch boundary, fault, refresh or close to coincide with an add.",
 ["simple_producer.go", "producer.go", "broker.go"], [("SimpleProducer.AddMessage/Flush/flush/Close", "simple_producer.go"), ("Producer.getSimpleProducer/updateCurrentSimpleProducer/AddMessage/Close", "producer.go")],
 state=[("SimpleProducer.records", "accepted messages not sent yet", "simple_producer.go"), ("Producer.currentProducer", "where messages without key go", "producer.go")], observe=["records in the produce requests received by each broker", "errors returned by AddMessage and Flush"])
prop("C16", "A message goes to the partition of its key, else to one that has a leader",
 "A message with a key, the empty key included, is produced to partition MurmurHash2(key, seed 0) mod the number of partitions, the same for every producer and every order in which the metadata lists the partitions; a message without key is produced to a partition that currently has a leader, whatever the random choice; while no partition has one, the producer waits instead of failing or crashing.",
 ["inputs", "configurations", "histories"], "keys of 0..9 bytes with any value at the first, middle or last byte, 1..4 partitions in two orders, all subsets of leaderless partitions with any error code, every random choice",
 "No test covers the partitioner; a sign or modulus slip shows for a fraction of the keys only.",
 ["producer.go"], [("Producer.getSimpleProducer", "producer.go"), ("Producer.updateCurrentSimpleProducer", "producer.go")], observe=["partition in the produce requests"])
prop("C22", "A group member follows the group protocol through rebalances until it leaves",
 "A group consumer joins its group, syncs, heartbeats within the session timeout and commits under the member id and generation it was given; it fetches only partitions assigned to it in the current generation. Whatever happens - refused or unanswered lookups, joins, syncs or heartbeats, rebalances, a moved or dead coordinator, partitions added, partitions without leader - it ends up a member again and delivers every record of its partitions in order, none skipped, and none twice as long as its commits are accepted. Close, at any moment, returns without panicking, delivers and sends nothing afterwards, and in between rebalances commits what was delivered and leaves the group.",
 ["histories", "schedules", "faults", "inputs"], "leader and follower; one of seven disturbances followed by a refused or unanswered join or sync; up to two failures at the start; any code of the group protocol or unknown to healer; any offsets; closing at 7+ moments under all schedules with one delay and one preemption (two each thorough)",
 "The only group test stops a mocked consumer once and checks join's error handling; it never runs the protocol against a coordinator.",
 ["group_consumer.go", "simple_consumer.go", "broker.go", "brokers.go"], [("Consume/joinAndSync/heartbeat/restart/stop/AwaitClose", "group_consumer.go"), ("SimpleConsumer.Consume/Stop", "simple_consumer.go")],
 state=[("generationID/memberID", "identity in the group", "group_consumer.go"), ("joined/closed", "phase of the membership", "group_consumer.go")], observe=["requests received by the coordinator and the leaders", "messages on the user's channel"])
prop("C17", "No connection is used before it is authenticated; TLS never falls back to clear",
 "With SASL configured, every connection any client of healer makes (broker, metadata refresh, coordinator, leader, reconnects included) carries, after the API versions exchange, the handshake for the configured mechanism and the PLAIN credentials NUL user NUL password exactly as configured, and nothing else until both have succeeded. If the handshake or authentication is refused, cut off or not answered, the caller gets an error, the connection is closed and no other request is sent on it; the next use starts a new connection from the beginning. Without SASL nothing of it is sent. If TLS is demanded but its configuration is incomplete, no connection in the clear is made.",
 ["histories", "faults", "inputs", "configurations"], "any user and password bytes within the bounds, both spellings and unknown mechanisms, any SASL error code or unknown code, five outcomes at each of the three steps on first connection and reconnect; six kinds of client with a fault on any of the first five connections",
 "Tests encode one handshake request; what is sent on a connection whose authentication failed, or on the reconnect, is never observed.",
 ["broker.go", "config.go", "sasl_plain.go", "sasl_authenticate_request.go", "sasl_handshake_request.go"], [("createConn/ensureOpen/sendSaslAuthenticate/createTLSConfig", "broker.go"), ("PlainSasl.Encode", "sasl_plain.go")],
 state=[("Broker.conn", "only set once negotiated and authenticated", "broker.go")], observe=["requests received on every connection", "errors returned", "dials"],
 note="The TLS handshake itself (crypto/tls) is not encoded: what is checked is that the configuration handed to the TLS dial is the one given (certificates, key, roots, verification) and that an incomplete configuration never leads to a connection in the clear.")
prop("C18", "Every client does what its configuration says, and only its own",
 "Options given as a struct or as a map (numbers or text) take effect: timeouts, waits, fetch sizes, session timeout, acks, batch size, flush interval, compression, client and group id are what the client's requests, dials and deadlines show; options not given have their documented defaults; a client's options never change those of another, nor the caller's own values. A configuration that is missing, of a wrong type, not understandable, or that cannot work is refused by the constructor with an error; any other lets the client work. No option value makes a client panic.",
 ["configurations", "inputs", "histories"], "any value of each numeric option (stated lists for the ones that are timers), text and number, struct and map, three consumers created in sequence, lists of per-API timeouts of several lengths",
 "The configuration test decodes one map; interplay of clients and odd values are never tried.",
 ["config.go", "simple_consumer.go", "simple_producer.go", "producer.go", "group_consumer.go", "broker.go"], [("createConsumerConfig/createProducerConfig/getBrokerConfig*/checkValid", "config.go")], observe=["requests, dial parameters and read deadlines", "errors of the constructors"],
 note="mapstructure.WeakDecode is modelled, not executed.")
prop("C19", "Codes, enumerations and their names correspond as Kafka defines them",
 "For every 16-bit error code the error text names the error Kafka defines for that code, or says that the code is unknown and which it is; retriable errors are told apart as Kafka does. Each ACL resource type, pattern type, operation and permission, each configuration resource type and compression type has Kafka's number and name, no two share one, and text (a name in any case, or a number) is read as exactly the value it stands for; other text is refused.",
 ["inputs"], "all 65536 error codes, all 8-bit enumeration values, every name in every mixture of cases, any ASCII text of up to 16 bytes (6 for the configuration and compression types)",
 "Tests look at a few names; a wrong or swapped table entry shows only when that code occurs.",
 ["errorcode.go", "acl_types.go", "compress_type.go"], [("KafkaError.Error/IsRetriableError", "errorcode.go"), ("UnmarshalText/String of the ACL enumerations", "acl_types.go")], observe=["texts and parsed values"])
prop("C20", "Lookups fail over between brokers, learn new ones, and leak no connection",
 "A client created from several bootstrap servers works if one of them does, and knows the brokers and the controller that one names; otherwise it is an error. Metadata, leader and coordinator lookups, and any other request to the cluster, are answered exactly if one of the brokers answers, whichever are down, silent or refuse; a broker added since, or a new controller, is found through any server that is up. Offsets are asked of each partition's own leader and returned as it says; errors are reported, not hidden. Several goroutines share one connection per broker; connections not needed are closed and Close, also called twice, leaves none open. No answer of the expected form makes a lookup panic.",
 ["faults", "histories", "inputs", "schedules"], "1..2 bootstrap servers (3 thorough) in eight states each, three brokers up, down, silent or refusing with any code of the group protocol or an unknown one, in every order; all placements of three partitions on three leaders, any time and offset; two goroutines under all schedules with two preemptions",
 "Tests mock a single broker that always answers; combinations of dead, silent and new brokers are never set up.",
 ["brokers.go", "broker.go", "metadata_response.go", "client.go"], [("NewBrokersWithConfig/newBrokersFromOne/refreshMetadata/Request", "brokers.go"), ("GetBroker/findLeader/FindCoordinator/RequestOffsets/Close", "brokers.go")],
 state=[("Brokers.brokersInfo", "the known nodes", "brokers.go"), ("Brokers.controllerID", "the controller", "brokers.go")], observe=["returned brokers, answers and errors", "open connections", "requests received by each broker"])
prop("C21", "Admin operations go to the right broker, say what was asked, hide no error",
 "Each operation of Client that is the controller's (topics, partitions, ACLs, reassignments, leader elections, topic configurations) is sent once, to the current controller; a broker's configuration and loggers are asked of that broker, group lists of every broker, group deletions of each group's coordinator, log directories of exactly the brokers that hold the replicas. The request says what was asked for, the answer is returned unchanged, under the broker or group it belongs to, and every refusal, timeout or broken connection is an error.",
 ["inputs", "faults", "configurations"], "any one-byte names and numbers, any controller, coordinator and replica placement among three brokers, brokers down, silent, refusing with an error code, cutting their answer off, or not known yet",
 "Tests mock the broker and look at one successful call; which broker is asked, and what happens when it fails, is never observed.",
 ["client.go", "helper.go", "brokers.go"], [("Client.CreateTopic(s)/DeleteTopics/CreatePartitions/*Acls/AlterPartitionReassignments/ElectLeaders/DescribeConfigs/DescribeLogDirs/ListGroups/DeleteGroups", "client.go"), ("Helper.GetGroups", "helper.go")],
 observe=["requests received by each broker", "returned values and errors"])
prop("C23", "A Consumer delivers exactly the partitions asked for, until it is closed",
 "A Consumer of topics or of assigned partitions delivers every record of exactly those partitions, each once, in order and under its topic and partition, from the committed offset of its group, else from the configured end; a partition without leader, or one that moves, does not hold up the others, and topics, brokers or coordinators that are not available at first only delay it. AwaitClose, at any moment, also while Consume is starting, does not panic, returns as soon as everything has stopped and at the latest when its time is over; then what was delivered is committed, nothing more is delivered or sent, and no connection stays open.",
 ["histories", "schedules", "faults", "configurations"], "four ways of naming the partitions of four in three topics, with and without group, from either end, one of seven disturbances, any base offset; closing after 0..3 messages or in three kinds of stall under all schedules with one delay (and one preemption)",
 "No test runs a Consumer over several partitions or closes one.",
 ["consumer.go", "simple_consumer.go", "brokers.go"], [("NewConsumer/Subscribe/Assign/Consume/stop/AwaitClose", "consumer.go"), ("SimpleConsumer.Consume/Stop", "simple_consumer.go")],
 state=[("Consumer.simpleConsumers", "one per partition", "consumer.go"), ("Consumer.closed", "no partition is started any more", "consumer.go")], observe=["messages on the user's channel", "requests received by the brokers", "open connections"])
prop("C24", "The command line tool produces, consumes and shows exactly what it is asked to",
 "console-producer and simple-producer store every line of standard input as one message, unchanged, once and in order, in the partition asked for, and fail exactly if one was not stored; console-consumer, simple-consumer and group-consumer print the messages asked for (partitions, offsets, number, stop offset), each with its own offset and value, in order, and end; group-consumer commits what it printed, no more, and leaves the group. get-offsets, get-pending and get-metadata print the cluster's own numbers for every partition, from the brokers in charge; reset-offset sets exactly the partitions asked for to the offset looked up. A tool that cannot do what it is asked, or is given a configuration it does not understand, fails or prints nothing instead of printing something wrong.",
 ["inputs", "configurations", "faults"], "0..3 lines with any byte, or 4 lines of 1000..3000 bytes; 1..3 partitions on two leaders; message limits 1..4, three kinds of start, stop offset; three timestamps and any offset; a refused, closed or missing answer at each step",
 "The repository has no test of its commands; what a user sees is only produced through them.",
 ["command/healer/cmd"], [("consoleProducerCmd/simpleProducerCmd", "command/healer/cmd/console-producer.go"), ("consoleConsumerCmd/simpleConsumerCmd/groupConsumerCmd", "command/healer/cmd/simple-consumer.go"), ("getOffsetsCmd/getPendingCmd/getMetadataCmd/resetOffsetCmd", "command/healer/cmd/get-pending.go")],
 observe=["standard output and failure of the command", "requests received by the brokers"],
 note="Standard input and output and encoding/json are modelled; cobra and pflag are executed. JSON output is not looked at. A failure of a flush by the timer while input is still being read is not claimed.")
prop("C25", "Administration commands ask the broker in charge for exactly what was typed",
 "create-topic, create-partitions, delete-topics, alter- and list-partition-reassignments, elect-leaders, describe-, create- and delete-acls, describe- and alter-configs, describe- and delete-groups send one request, to the controller, to the group's coordinator or to the broker whose configuration is meant; it says exactly what the flags say (names with any characters, absent names as absent, assignments of every partition, the numbers unchanged, a dry run unless it is switched off). What stands for nothing - an unknown type, an id that is too large, flags that contradict each other - is refused before anything is sent. The command fails exactly if the broker refused, was not reached, or its answer was not complete.",
 ["inputs", "configurations", "faults"], "each flag given or not, every name of every enumeration in two cases, names with any letter or with quotes, backslashes or empty, numbers from short lists up to 2^31-1, assignments of 1..3 partitions; success, refusal at the innermost level, a broker that is down, an answer cut off",
 "The repository has no test of its commands; one that drops a flag or swallows an error deletes the wrong thing or reports success.",
 ["command/healer/cmd"], [("createTopicCmd/createPartitionsCmd/deleteTopicsCmd", "command/healer/cmd/create-topic.go"), ("createAclsCmd/deleteAclsCmd/describeAclsCmd", "command/healer/cmd/create-acls.go"), ("alterConfigsCmd/describeConfigsCmd", "command/healer/cmd/alter-configs.go"), ("alterPartitionReassignmentsCmd/electLeadersCmd", "command/healer/cmd/elect-leaders.go")],
 observe=["requests received by each broker", "failure of the command"],
 note="encoding/json is modelled; cobra and pflag are executed. What the commands print is not looked at.")
prop("C26", "The HTTP API answers 200 exactly if the brokers did it, to those who may ask",
 "With --auth only requests with exactly these credentials get past the server, except GET, HEAD and OPTIONS with --get-allowed; everything else is answered 401. Every route of the API turns into the request it stands for, with exactly the names, numbers and timeouts of the path, query and body, sent once, to the broker in charge; pending, offsets, groups and metadata are the cluster's own numbers. The answer is 200 exactly if that broker did it; a body or number that is not understood is answered 400 and nobody is asked; any refusal, dead broker or broken answer is answered as a failure. No request makes a handler panic, and none leaves a connection behind.",
 ["inputs", "configurations", "faults"], "any letter in user and password, six kinds of credentials, five methods; every route but swagger and redirects, with absent, special and malformed values; success, refusal, a broker that is down, an answer cut off, no broker at all",
 "The repository has no test of its HTTP API; a status of 200 for something that failed, a missing check or a leaked connection shows only in production.",
 ["command/healer/cmd/api.go", "command/healer/cmd/apicontrollers"], [("BasicAuth/apiCmd", "command/healer/cmd/api.go"), ("GetPending/ListGroups/DescribeGroups", "command/healer/cmd/apicontrollers/group.go"), ("CreatePartitions/ElectLeaders/AlterPartitionReassignments/ListPartitionReassignments", "command/healer/cmd/apicontrollers/partition-reassignments.go"), ("DescribeAcls/CreateAcls/DeleteAcls", "command/healer/cmd/apicontrollers/acl.go"), ("GetTopicConfig/AlterTopicConfig/GetTopicOffsets", "command/healer/cmd/apicontrollers/topic.go")],
 observe=["status and body of the HTTP answer", "requests received by each broker", "open connections"],
 note="The HTTP server (net/http) is replaced by a call of the handler, encoding/json is modelled; gin's routing, contexts and middleware are executed. The log directories of brokers that do not answer are left out of the answer, which is by design; a metadata answer with error codes in it is 200.")
