package healer

import "strings"

// Kafka's error codes (Errors.java), -1 first: name and whether it may be retried. Written from the protocol documentation.
var vpErrTable = []struct {
	name  string
	retry bool
}{
	{"UNKNOWN_SERVER_ERROR", false},
	{"NONE", false},
	{"OFFSET_OUT_OF_RANGE", false},
	{"CORRUPT_MESSAGE", true},
	{"UNKNOWN_TOPIC_OR_PARTITION", true},
	{"INVALID_FETCH_SIZE", false},
	{"LEADER_NOT_AVAILABLE", true},
	{"NOT_LEADER_OR_FOLLOWER", true},
	{"REQUEST_TIMED_OUT", true},
	{"BROKER_NOT_AVAILABLE", false},
	{"REPLICA_NOT_AVAILABLE", true},
	{"MESSAGE_TOO_LARGE", false},
	{"STALE_CONTROLLER_EPOCH", false},
	{"OFFSET_METADATA_TOO_LARGE", false},
	{"NETWORK_EXCEPTION", true},
	{"COORDINATOR_LOAD_IN_PROGRESS", true},
	{"COORDINATOR_NOT_AVAILABLE", true},
	{"NOT_COORDINATOR", true},
	{"INVALID_TOPIC_EXCEPTION", false},
	{"RECORD_LIST_TOO_LARGE", false},
	{"NOT_ENOUGH_REPLICAS", true},
	{"NOT_ENOUGH_REPLICAS_AFTER_APPEND", true},
	{"INVALID_REQUIRED_ACKS", false},
	{"ILLEGAL_GENERATION", false},
	{"INCONSISTENT_GROUP_PROTOCOL", false},
	{"INVALID_GROUP_ID", false},
	{"UNKNOWN_MEMBER_ID", false},
	{"INVALID_SESSION_TIMEOUT", false},
	{"REBALANCE_IN_PROGRESS", false},
	{"INVALID_COMMIT_OFFSET_SIZE", false},
	{"TOPIC_AUTHORIZATION_FAILED", false},
	{"GROUP_AUTHORIZATION_FAILED", false},
	{"CLUSTER_AUTHORIZATION_FAILED", false},
	{"INVALID_TIMESTAMP", false},
	{"UNSUPPORTED_SASL_MECHANISM", false},
	{"ILLEGAL_SASL_STATE", false},
	{"UNSUPPORTED_VERSION", false},
	{"TOPIC_ALREADY_EXISTS", false},
	{"INVALID_PARTITIONS", false},
	{"INVALID_REPLICATION_FACTOR", false},
	{"INVALID_REPLICA_ASSIGNMENT", false},
	{"INVALID_CONFIG", false},
	{"NOT_CONTROLLER", true},
	{"INVALID_REQUEST", false},
	{"UNSUPPORTED_FOR_MESSAGE_FORMAT", false},
	{"POLICY_VIOLATION", false},
	{"OUT_OF_ORDER_SEQUENCE_NUMBER", false},
	{"DUPLICATE_SEQUENCE_NUMBER", false},
	{"INVALID_PRODUCER_EPOCH", false},
	{"INVALID_TXN_STATE", false},
	{"INVALID_PRODUCER_ID_MAPPING", false},
	{"INVALID_TRANSACTION_TIMEOUT", false},
	{"CONCURRENT_TRANSACTIONS", true},
	{"TRANSACTION_COORDINATOR_FENCED", false},
	{"TRANSACTIONAL_ID_AUTHORIZATION_FAILED", false},
	{"SECURITY_DISABLED", false},
	{"OPERATION_NOT_ATTEMPTED", false},
	{"KAFKA_STORAGE_ERROR", true},
	{"LOG_DIR_NOT_FOUND", false},
	{"SASL_AUTHENTICATION_FAILED", false},
	{"UNKNOWN_PRODUCER_ID", false},
	{"REASSIGNMENT_IN_PROGRESS", false},
	{"DELEGATION_TOKEN_AUTH_DISABLED", false},
	{"DELEGATION_TOKEN_NOT_FOUND", false},
	{"DELEGATION_TOKEN_OWNER_MISMATCH", false},
	{"DELEGATION_TOKEN_REQUEST_NOT_ALLOWED", false},
	{"DELEGATION_TOKEN_AUTHORIZATION_FAILED", false},
	{"DELEGATION_TOKEN_EXPIRED", false},
	{"INVALID_PRINCIPAL_TYPE", false},
	{"NON_EMPTY_GROUP", false},
	{"GROUP_ID_NOT_FOUND", false},
	{"FETCH_SESSION_ID_NOT_FOUND", true},
	{"INVALID_FETCH_SESSION_EPOCH", true},
	{"LISTENER_NOT_FOUND", true},
	{"TOPIC_DELETION_DISABLED", false},
	{"FENCED_LEADER_EPOCH", true},
	{"UNKNOWN_LEADER_EPOCH", true},
	{"UNSUPPORTED_COMPRESSION_TYPE", false},
	{"STALE_BROKER_EPOCH", false},
	{"OFFSET_NOT_AVAILABLE", true},
	{"MEMBER_ID_REQUIRED", false},
	{"PREFERRED_LEADER_NOT_AVAILABLE", true},
	{"GROUP_MAX_SIZE_REACHED", false},
	{"FENCED_INSTANCE_ID", false},
	{"ELIGIBLE_LEADERS_NOT_AVAILABLE", true},
	{"ELECTION_NOT_NEEDED", true},
	{"NO_REASSIGNMENT_IN_PROGRESS", false},
	{"GROUP_SUBSCRIBED_TO_TOPIC", false},
	{"INVALID_RECORD", false},
	{"UNSTABLE_OFFSET_COMMIT", true},
	{"THROTTLING_QUOTA_EXCEEDED", true},
	{"PRODUCER_FENCED", false},
	{"RESOURCE_NOT_FOUND", false},
	{"DUPLICATE_RESOURCE", false},
	{"UNACCEPTABLE_CREDENTIAL", false},
	{"INCONSISTENT_VOTER_SET", false},
	{"INVALID_UPDATE_VERSION", false},
	{"FEATURE_UPDATE_FAILED", false},
	{"PRINCIPAL_DESERIALIZATION_FAILURE", false},
	{"SNAPSHOT_NOT_FOUND", false},
	{"POSITION_OUT_OF_RANGE", false},
	{"UNKNOWN_TOPIC_ID", true},
	{"DUPLICATE_BROKER_REGISTRATION", false},
	{"BROKER_ID_NOT_REGISTERED", false},
	{"INCONSISTENT_TOPIC_ID", true},
	{"INCONSISTENT_CLUSTER_ID", false},
	{"TRANSACTIONAL_ID_NOT_FOUND", false},
	{"FETCH_SESSION_TOPIC_ID_ERROR", true},
	{"INELIGIBLE_REPLICA", false},
	{"NEW_LEADER_ELECTED", false},
	{"OFFSET_MOVED_TO_TIERED_STORAGE", false},
	{"FENCED_MEMBER_EPOCH", false},
	{"UNRELEASED_INSTANCE_ID", false},
	{"UNSUPPORTED_ASSIGNOR", false},
	{"STALE_MEMBER_EPOCH", false},
	{"MISMATCHED_ENDPOINT_TYPE", false},
	{"UNSUPPORTED_ENDPOINT_TYPE", false},
	{"UNKNOWN_CONTROLLER_ID", false},
	{"UNKNOWN_SUBSCRIPTION_ID", false},
	{"TELEMETRY_TOO_LARGE", false},
	{"INVALID_REGISTRATION", false},
}

// KafkaError, any code: the text names the error as Kafka does, or says the code is unknown together with the number;
// and retriable errors are told apart as Kafka does (51 apart, which became retriable at some version).
func VP_C19_errors() {
	code := vpI16("code")
	known := vpAnd(code >= -1, vpAnd(code <= 119, code != 0))
	text := KafkaError(code).Error()
	retry := KafkaError(code).IsRetriable()
	err := getErrorFromErrorCode(code)
	vpAssert((err == nil) == (code == 0), "exactly code 0 is no error")
	if !known {
		vpAssert(!retry, "an unknown error is not retried")
		if code != 0 {
			vpAssert(strings.HasPrefix(text, "unknown error code:"), "an unknown code is said to be unknown")
			vpAssert(strings.HasPrefix(err.Error(), "unknown error code:"), "an unknown code is said to be unknown")
			return
		}
		vpReach("end")
		return
	}
	e := vpErrTable[vpPick(int(code)+1)]
	vpAssert(strings.HasPrefix(text, e.name+":"), "an error is named as Kafka names it")
	vpAssert(vpOr(retry == e.retry, code == 51), "errors are retriable as Kafka says")
	vpAssert(err == error(KafkaError(code)), "a known code becomes that error")
	vpReach("end")
}

// vpEnum is one of the ACL enumerations: names by value
type vpEnum struct {
	names   []string
	str     func(v int8) string
	marshal func(v int8) ([]byte, error)
	parse   func(b []byte) (int8, error)
}

func vpEnums() []vpEnum {
	return []vpEnum{
		{[]string{"UNKNOWN", "ANY", "TOPIC", "GROUP", "BROKER", "TRANSACTIONAL_ID", "DELEGATION_TOKEN", "USER"},
			func(v int8) string { return AclsResourceType(v).String() },
			func(v int8) ([]byte, error) { return AclsResourceType(v).MarshalText() },
			func(b []byte) (int8, error) {
				var x AclsResourceType = -9
				err := x.UnmarshalText(b)
				return int8(x), err
			}},
		{[]string{"UNKNOWN", "ANY", "MATCH", "LITERAL", "PREFIXED"},
			func(v int8) string { return AclsPatternType(v).String() },
			func(v int8) ([]byte, error) { return AclsPatternType(v).MarshalText() },
			func(b []byte) (int8, error) {
				var x AclsPatternType = -9
				err := x.UnmarshalText(b)
				return int8(x), err
			}},
		{[]string{"UNKNOWN", "ANY", "ALL", "READ", "WRITE", "CREATE", "DELETE", "ALTER", "DESCRIBE", "CLUSTER_ACTION", "DESCRIBE_CONFIGS", "ALTER_CONFIGS", "IDEMPOTENT_WRITE"},
			func(v int8) string { return AclsOperation(v).String() },
			func(v int8) ([]byte, error) { return AclsOperation(v).MarshalText() },
			func(b []byte) (int8, error) { var x AclsOperation = -9; err := x.UnmarshalText(b); return int8(x), err }},
		{[]string{"UNKNOWN", "ANY", "DENY", "ALLOW"},
			func(v int8) string { return AclsPermissionType(v).String() },
			func(v int8) ([]byte, error) { return AclsPermissionType(v).MarshalText() },
			func(b []byte) (int8, error) {
				var x AclsPermissionType = -9
				err := x.UnmarshalText(b)
				return int8(x), err
			}},
	}
}

// The ACL enumerations (resource type, pattern type, operation, permission), any value of 8 bits: the text is Kafka's name,
// no other value has it, and reading it back gives the value.
func VP_C19_values() {
	e := vpEnums()[vpChoose("enum", 4)]
	v := vpI8("value")
	s := e.str(v)
	b, err := e.marshal(v)
	vpAssert(err == nil && string(b) == s, "the text form is the name")
	if vpAnd(v >= 0, int(v) < len(e.names)) {
		vpAssert(s == e.names[vpPick(int(v))], "a value is named as Kafka names it")
		got, err := e.parse(b)
		vpAssert(err == nil && got == v, "reading the text form gives the value back")
		vpReach("end")
		return
	}
	for i, n := range e.names {
		vpAssert(i == 0 || s != n, "a value that is not known has no other value's name")
	}
	vpReach("end")
}

// Every name of the ACL enumerations in every mixture of upper and lower case, and every number: read as the value it stands for.
func VP_C19_names() {
	i := vpChoose("enum", 4)
	e := vpEnums()[i]
	v := vpChoose("value", len(e.names))
	name := e.names[v]
	if i == 0 && v == 4 && vpChoose("cluster", 2) == 1 {
		name = "CLUSTER" // the same thing
	}
	if vpChoose("number", 2) == 1 {
		name = string(rune('0' + v))
		if v >= 10 {
			name = "1" + string(rune('0'+v-10))
		}
		if i == 0 && v == 4 {
			_, err := e.parse([]byte(name))
			vpAssert(err != nil, "a number that stands for two things is refused")
			vpReach("end")
			return
		}
	}
	b := []byte(name)
	for j := range b {
		if b[j] >= 'A' && b[j] <= 'Z' {
			x := vpU8("letter")
			vpAssume(vpOr(x == b[j], x == b[j]+32))
			b[j] = x
		}
	}
	got, err := e.parse(b)
	vpAssert(err == nil && int(got) == v, "a name or number is read as the value it stands for")
	vpReach("end")
}

// Any ASCII text of 0..4 bytes: read as a value exactly if it is a name or number of one; anything else is refused.
func VP_C19_text() {
	i := vpChoose("enum", 4)
	e := vpEnums()[i]
	b := vpBytes("text", vpChoose("len", vpMax(4, 5)))
	up := make([]byte, len(b))
	for j, x := range b {
		vpAssume(x < 0x80)
		up[j] = x
		if x >= 'a' && x <= 'z' {
			up[j] = x - 32
		}
	}
	got, err := e.parse(b)
	want := -1
	for v, n := range e.names {
		num := string(rune('0' + v))
		if v >= 10 {
			num = "1" + string(rune('0'+v-10))
		}
		if string(up) == n || string(up) == num && !(i == 0 && v == 4) {
			want = v
		}
	}
	if want < 0 {
		vpAssert(err != nil, "text that is no name is refused")
	} else {
		vpAssert(err == nil && int(got) == want, "a name is read as its value")
	}
	vpReach("end")
}

// The resource types of configuration requests and the compression types: names, and any text of 0..6 bytes.
func VP_C19_types() {
	names := []string{"topic", "broker", "broker_logger", "none", "gzip", "snappy", "lz4"}
	vals := []int{2, 4, 8, 0, 1, 2, 3}
	j := vpChoose("name", 8)
	if j < 3 {
		vpAssert(ConvertConfigResourceType(names[j]) == uint8(vals[j]), "a configuration resource has Kafka's number")
	} else if j < 7 {
		c, err := ParseCompressType(names[j])
		vpAssert(err == nil && int(c) == vals[j] && c.String() == names[j], "a compression type has Kafka's number")
	} else {
		s := vpStr("text", vpChoose("len", 7))
		for i := 0; i < len(s); i++ {
			vpAssume(vpAnd(s[i] >= 'a', s[i] <= 'z'))
		}
		for i := 0; i < 2; i++ {
			vpAssume(s != names[i])
		}
		vpAssert(ConvertConfigResourceType(s) == 0, "other resources are unknown")
		if s != "none" && s != "gzip" && s != "snappy" {
			_, err := ParseCompressType(s)
			vpAssert(err != nil, "other compression types are refused")
		}
	}
	vpReach("end")
}
