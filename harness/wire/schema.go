// Package wire is an independent implementation of the Kafka protocol encoding, driven by a schema
// text. It shares no code with the library under test.
package wire

import (
	"fmt"
	"strconv"
	"strings"
)

// Field of a message. Types: bool int8 int16 int32 int64 string bytes records struct, arrays of those.
type Field struct {
	Name       string
	Type       string // element type for arrays
	Array      bool
	Min, Max   int // versions
	NullMin    int // nullable from this version on; -1 never
	Sub        []*Field
}

// Msg is a request or response schema.
type Msg struct {
	Name    string
	Key     int
	Req     bool
	Flex    int // first flexible version; 999 never
	Fields  []*Field
}

var reqs, resps = map[int]*Msg{}, map[int]*Msg{}

// Req / Resp return the schema of an API.
func Req(api int) *Msg  { return reqs[api] }
func Resp(api int) *Msg { return resps[api] }

// Lines: "name type [vA | vA-B | vA+] [null[A]]"; "name []type"; "name []{" ... "}".
// "msg NAME KEY req|resp flex=N"
const schemaText = `
msg Produce 0 req flex=9
 transactional_id string v3+ null
 acks int16
 timeout_ms int32
 topics []{
  name string
  partitions []{
   index int32
   records records null
  }
 }
msg Produce 0 resp flex=9
 topics []{
  name string
  partitions []{
   index int32
   error_code int16
   base_offset int64
   log_append_time_ms int64 v2+
   log_start_offset int64 v5+
   record_errors []{ v8+
    batch_index int32
    message string null
   }
   error_message string v8+ null
  }
 }
 throttle_time_ms int32 v1+
msg Fetch 1 req flex=12
 replica_id int32
 max_wait_ms int32
 min_bytes int32
 max_bytes int32 v3+
 isolation_level int8 v4+
 session_id int32 v7+
 session_epoch int32 v7+
 topics []{
  name string
  partitions []{
   index int32
   current_leader_epoch int32 v9+
   fetch_offset int64
   log_start_offset int64 v5+
   max_bytes int32
  }
 }
 forgotten []{ v7+
  name string
  partitions []int32
 }
msg Fetch 1 resp flex=12
 throttle_time_ms int32 v1+
 error_code int16 v7+
 session_id int32 v7+
 topics []{
  name string
  partitions []{
   index int32
   error_code int16
   high_watermark int64
   last_stable_offset int64 v4+
   log_start_offset int64 v5+
   aborted []{ v4+ null
    producer_id int64
    first_offset int64
   }
   records records null
  }
 }
msg ListOffsets 2 req flex=6
 replica_id int32
 topics []{
  name string
  partitions []{
   index int32
   timestamp int64
   max_num_offsets int32 v0-0
  }
 }
msg ListOffsets 2 resp flex=6
 throttle_time_ms int32 v2+
 topics []{
  name string
  partitions []{
   index int32
   error_code int16
   old_offsets []int64 v0-0
   timestamp int64 v1+
   offset int64 v1+
  }
 }
msg Metadata 3 req flex=9
 topics []{ null1
  name string
 }
 allow_auto bool v4+
msg Metadata 3 resp flex=9
 throttle_time_ms int32 v3+
 brokers []{
  node_id int32
  host string
  port int32
  rack string v1+ null
 }
 cluster_id string v2+ null
 controller_id int32 v1+
 topics []{
  error_code int16
  name string
  is_internal bool v1+
  partitions []{
   error_code int16
   index int32
   leader_id int32
   leader_epoch int32 v7+
   replicas []int32
   isr []int32
   offline []int32 v5+
  }
 }
msg OffsetCommit 8 req flex=8
 group_id string
 generation_id int32 v1+
 member_id string v1+
 retention_time_ms int64 v2-4
 topics []{
  name string
  partitions []{
   index int32
   offset int64
   commit_timestamp int64 v1-1
   metadata string null
  }
 }
msg OffsetCommit 8 resp flex=8
 throttle_time_ms int32 v3+
 topics []{
  name string
  partitions []{
   index int32
   error_code int16
  }
 }
msg OffsetFetch 9 req flex=6
 group_id string
 topics []{
  name string
  partitions []int32
 }
msg OffsetFetch 9 resp flex=6
 topics []{
  name string
  partitions []{
   index int32
   offset int64
   metadata string null
   error_code int16
  }
 }
msg FindCoordinator 10 req flex=3
 key string
msg FindCoordinator 10 resp flex=3
 error_code int16
 node_id int32
 host string
 port int32
msg JoinGroup 11 req flex=6
 group_id string
 session_timeout_ms int32
 rebalance_timeout_ms int32 v1+
 member_id string
 protocol_type string
 protocols []{
  name string
  metadata bytes
 }
msg JoinGroup 11 resp flex=6
 throttle_time_ms int32 v2+
 error_code int16
 generation_id int32
 protocol_name string
 leader string
 member_id string
 members []{
  member_id string
  metadata bytes
 }
msg Heartbeat 12 req flex=4
 group_id string
 generation_id int32
 member_id string
msg Heartbeat 12 resp flex=4
 throttle_time_ms int32 v1+
 error_code int16
msg LeaveGroup 13 req flex=4
 group_id string
 member_id string
msg LeaveGroup 13 resp flex=4
 throttle_time_ms int32 v1+
 error_code int16
msg SyncGroup 14 req flex=4
 group_id string
 generation_id int32
 member_id string
 assignments []{
  member_id string
  assignment bytes
 }
msg SyncGroup 14 resp flex=4
 throttle_time_ms int32 v1+
 error_code int16
 assignment bytes
msg DescribeGroups 15 req flex=5
 groups []string
msg DescribeGroups 15 resp flex=5
 throttle_time_ms int32 v1+
 groups []{
  error_code int16
  group_id string
  group_state string
  protocol_type string
  protocol_data string
  members []{
   member_id string
   client_id string
   client_host string
   member_metadata bytes
   member_assignment bytes
  }
 }
msg ListGroups 16 req flex=3
 states_filter []string v4+
 types_filter []string v5+
msg ListGroups 16 resp flex=3
 throttle_time_ms int32 v1+
 error_code int16
 groups []{
  group_id string
  protocol_type string
  group_state string v4+
  group_type string v5+
 }
msg SaslHandshake 17 req flex=999
 mechanism string
msg SaslHandshake 17 resp flex=999
 error_code int16
 mechanisms []string
msg ApiVersions 18 req flex=3
msg ApiVersions 18 resp flex=999
 error_code int16
 api_keys []{
  api_key int16
  min_version int16
  max_version int16
 }
 throttle_time_ms int32 v1+
msg CreateTopics 19 req flex=5
 topics []{
  name string
  num_partitions int32
  replication_factor int16
  assignments []{
   partition int32
   brokers []int32
  }
  configs []{
   name string
   value string null
  }
 }
 timeout_ms int32
 validate_only bool v1+
msg CreateTopics 19 resp flex=5
 topics []{
  name string
  error_code int16
 }
msg DeleteTopics 20 req flex=4
 topics []string
 timeout_ms int32
msg DeleteTopics 20 resp flex=4
 topics []{
  name string
  error_code int16
 }
msg DescribeAcls 29 req flex=2
 resource_type int8
 resource_name string null
 pattern_type int8 v1+
 principal string null
 host string null
 operation int8
 permission int8
msg DescribeAcls 29 resp flex=2
 throttle_time_ms int32
 error_code int16
 error_message string null
 resources []{
  resource_type int8
  resource_name string
  pattern_type int8 v1+
  acls []{
   principal string
   host string
   operation int8
   permission int8
  }
 }
msg CreateAcls 30 req flex=2
 creations []{
  resource_type int8
  resource_name string
  pattern_type int8 v1+
  principal string
  host string
  operation int8
  permission int8
 }
msg CreateAcls 30 resp flex=2
 throttle_time_ms int32
 results []{
  error_code int16
  error_message string null
 }
msg DeleteAcls 31 req flex=2
 filters []{
  resource_type int8
  resource_name string null
  pattern_type int8 v1+
  principal string null
  host string null
  operation int8
  permission int8
 }
msg DeleteAcls 31 resp flex=2
 throttle_time_ms int32
 filter_results []{
  error_code int16
  error_message string null
  matching []{
   error_code int16
   error_message string null
   resource_type int8
   resource_name string
   pattern_type int8 v1+
   principal string
   host string
   operation int8
   permission int8
  }
 }
msg DescribeConfigs 32 req flex=4
 resources []{
  resource_type int8
  resource_name string
  config_names []string null
 }
msg DescribeConfigs 32 resp flex=4
 throttle_time_ms int32
 results []{
  error_code int16
  error_message string null
  resource_type int8
  resource_name string
  configs []{
   name string
   value string null
   read_only bool
   is_default bool v0-0
   is_sensitive bool
  }
 }
msg AlterConfigs 33 req flex=2
 resources []{
  resource_type int8
  resource_name string
  configs []{
   name string
   value string null
  }
 }
 validate_only bool
msg AlterConfigs 33 resp flex=2
 throttle_time_ms int32
 responses []{
  error_code int16
  error_message string null
  resource_type int8
  resource_name string
 }
msg DescribeLogDirs 35 req flex=2
 topics []{ null
  name string
  partitions []int32
 }
msg DescribeLogDirs 35 resp flex=2
 throttle_time_ms int32
 results []{
  error_code int16
  log_dir string
  topics []{
   name string
   partitions []{
    index int32
    size int64
    offset_lag int64
    is_future bool
   }
  }
 }
msg SaslAuthenticate 36 req flex=2
 auth_bytes bytes
msg SaslAuthenticate 36 resp flex=2
 error_code int16
 error_message string null
 auth_bytes bytes
msg CreatePartitions 37 req flex=2
 topics []{
  name string
  count int32
  assignments []{ null
   broker_ids []int32
  }
 }
 timeout_ms int32
 validate_only bool
msg CreatePartitions 37 resp flex=2
 throttle_time_ms int32
 results []{
  name string
  error_code int16
  error_message string null
 }
msg DeleteGroups 42 req flex=2
 groups []string
msg DeleteGroups 42 resp flex=2
 throttle_time_ms int32
 results []{
  group_id string
  error_code int16
 }
msg ElectLeaders 43 req flex=2
 election_type int8 v1+
 topics []{ null
  topic string
  partitions []int32
 }
 timeout_ms int32
msg ElectLeaders 43 resp flex=2
 throttle_time_ms int32
 error_code int16 v1+
 results []{
  topic string
  partitions []{
   partition_id int32
   error_code int16
   error_message string null
  }
 }
msg IncrementalAlterConfigs 44 req flex=1
 resources []{
  resource_type int8
  resource_name string
  configs []{
   name string
   operation int8
   value string null
  }
 }
 validate_only bool
msg IncrementalAlterConfigs 44 resp flex=1
 throttle_time_ms int32
 responses []{
  error_code int16
  error_message string null
  resource_type int8
  resource_name string
 }
msg AlterPartitionReassignments 45 req flex=0
 timeout_ms int32
 topics []{
  name string
  partitions []{
   index int32
   replicas []int32 null
  }
 }
msg AlterPartitionReassignments 45 resp flex=0
 throttle_time_ms int32
 error_code int16
 error_message string null
 responses []{
  name string
  partitions []{
   index int32
   error_code int16
   error_message string null
  }
 }
msg ListPartitionReassignments 46 req flex=0
 timeout_ms int32
 topics []{ null
  name string
  partitions []int32
 }
msg ListPartitionReassignments 46 resp flex=0
 throttle_time_ms int32
 error_code int16
 error_message string null
 topics []{
  name string
  partitions []{
   index int32
   replicas []int32
   adding []int32
   removing []int32
  }
 }
`

func init() {
	var cur *Msg
	var stack []*[]*Field
	for _, raw := range strings.Split(schemaText, "\n") {
		l := strings.Fields(raw)
		if len(l) == 0 {
			continue
		}
		if l[0] == "msg" {
			k, _ := strconv.Atoi(l[2])
			fl, _ := strconv.Atoi(strings.TrimPrefix(l[4], "flex="))
			cur = &Msg{Name: l[1], Key: k, Req: l[3] == "req", Flex: fl}
			if cur.Req {
				reqs[k] = cur
			} else {
				resps[k] = cur
			}
			stack = []*[]*Field{&cur.Fields}
			continue
		}
		if l[0] == "}" {
			stack = stack[:len(stack)-1]
			continue
		}
		f := &Field{Name: l[0], Min: 0, Max: 999, NullMin: -1}
		t := l[1]
		if strings.HasPrefix(t, "[]") {
			f.Array = true
			t = t[2:]
		}
		open := t == "{"
		if open {
			t = "struct"
		}
		f.Type = t
		for _, w := range l[2:] {
			switch {
			case strings.HasPrefix(w, "null"):
				f.NullMin = 0
				if len(w) > 4 {
					f.NullMin, _ = strconv.Atoi(w[4:])
				}
			case w[0] == 'v':
				w = w[1:]
				if strings.HasSuffix(w, "+") {
					f.Min, _ = strconv.Atoi(w[:len(w)-1])
				} else if a, b, ok := strings.Cut(w, "-"); ok {
					f.Min, _ = strconv.Atoi(a)
					f.Max, _ = strconv.Atoi(b)
				} else {
					panic("schema: " + raw)
				}
			default:
				panic("schema: " + raw)
			}
		}
		*stack[len(stack)-1] = append(*stack[len(stack)-1], f)
		if open {
			stack = append(stack, &f.Sub)
		}
	}
}

// In tells whether the field exists in version v.
func (f *Field) In(v int) bool { return v >= f.Min && v <= f.Max }

// NullableIn tells whether the field is nullable in version v.
func (f *Field) NullableIn(v int) bool { return f.NullMin >= 0 && v >= f.NullMin }

// ReqHeaderVersion is the request header version of (api, version).
func ReqHeaderVersion(api, v int) int {
	m := reqs[api]
	if m != nil && v >= m.Flex {
		return 2
	}
	return 1
}

// RespFlexHeader tells whether the response header has tagged fields.
func RespFlexHeader(api, v int) bool {
	if api == 18 {
		return false
	}
	m := resps[api]
	return m != nil && v >= m.Flex
}

func init() { _ = fmt.Sprint }
