package props

import (
	"errors"
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// apiDef describes one API of the library: the versions it can select, how a request is built from
// generated values (with the field values expected on the wire), and where the fields of the response
// are exposed in the result.
type apiDef struct {
	key  int
	name string
	vers []int // high to low
	mk   func(d *pbt.D, v int) (func() healer.Request, wire.Obj)
	proj string
	// unordered lists of the request: field path -> sort key
	sortReq bool
	reqOnly bool // the response is judged elsewhere
}

// ---- value generators

func gStr(d *pbt.D) string {
	switch d.W(10, 2, 2, 1, 1) {
	case 1:
		return ""
	case 2:
		return pbt.Pick(d, "é", "主题-1", "a b", "\x00", "\"q\"", "t\n", "-", "__consumer_offsets")
	case 3:
		return strings.Repeat("s", pbt.Pick(d, 126, 127, 128, 129, 255, 256))
	case 4:
		if d.P(1, 8) {
			return strings.Repeat("L", pbt.Pick(d, 16382, 16383, 16384, 20000, 32767))
		}
		return strings.Repeat("m", d.N(300))
	}
	return d.Name(12)
}

// nonempty names, distinct by index
func gNames(d *pbt.D, n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = fmt.Sprintf("%s%d", gStr(d), i)
		if len(r[i]) > 32767 {
			r[i] = r[i][len(r[i])-32767:]
		}
	}
	return r
}

func gI32(d *pbt.D) int32 {
	switch d.W(6, 1, 1, 1, 2) {
	case 1:
		return -1
	case 2:
		return 1<<31 - 1
	case 3:
		return -1 << 31
	case 4:
		return int32(d.U64())
	}
	return int32(d.N(300))
}

func gI64(d *pbt.D) int64 {
	switch d.W(4, 1, 1, 1, 1, 3) {
	case 1:
		return -1
	case 2:
		return 1<<63 - 1
	case 3:
		return -1 << 63
	case 4:
		return -2
	case 5:
		return int64(d.U64())
	}
	return int64(d.N(100000))
}

func gI32s(d *pbt.D, max int) []int32 {
	r := make([]int32, d.Skew(max))
	for i := range r {
		r[i] = gI32(d)
	}
	return r
}

// distinct ints
func gPids(d *pbt.D, n int) []int32 {
	r := make([]int32, n)
	b := pbt.Pick(d, 0, 0, 5, 1<<31-20)
	for i, p := range d.Perm(n) {
		r[i] = int32(b + p)
	}
	return r
}

func anyI32(a []int32) []any {
	r := make([]any, len(a))
	for i, x := range a {
		r[i] = int64(x)
	}
	return r
}

func anyStr(a []string) []any {
	r := make([]any, len(a))
	for i, x := range a {
		r[i] = x
	}
	return r
}

func gOptStr(d *pbt.D) (*string, any) {
	if d.P(1, 3) {
		return nil, nil
	}
	s := gStr(d)
	return &s, s
}

func gI8(d *pbt.D) int8 { return int8(pbt.Pick(d, 0, 1, 2, 3, 4, 8, 10, 127, -1)) }

func cnt(d *pbt.D) int { return pbt.Pick(d, 1, 1, 2, 3, 0, 1) }

func gTagged(d *pbt.D) healer.TaggedFields {
	if !d.P(1, 6) {
		return nil
	}
	var t healer.TaggedFields
	tag := 0
	for n := d.N(3); n > 0; n-- {
		tag += 1 + d.N(200)
		t = append(t, healer.TaggedField{Tag: tag, Data: d.BytesN(d.N(140))})
	}
	return t
}

const clientID = "verif-client"

// ---- the table

var apiTable []*apiDef

func apiByKey(k int) *apiDef {
	for _, a := range apiTable {
		if a.key == k {
			return a
		}
	}
	panic(fmt.Sprint("no api ", k))
}

func init() {
	add := func(key int, vers []int, mk func(d *pbt.D, v int) (func() healer.Request, wire.Obj), proj string) *apiDef {
		a := &apiDef{key: key, name: wire.Req(key).Name, vers: vers, mk: mk, proj: proj}
		apiTable = append(apiTable, a)
		return a
	}
	v0 := []int{0}
	add(kafka.ListOffsets, []int{1, 0}, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		t, pids, tm, n := gStr(d), gPids(d, cnt(d)), gI64(d), uint32(gI32(d))
		var ps []any
		for _, p := range pids {
			ps = append(ps, wire.Obj{"index": int64(p), "timestamp": tm, "max_num_offsets": int64(int32(n))})
		}
		return func() healer.Request { return healer.NewOffsetsRequest(t, pids, tm, n, clientID) },
			wire.Obj{"replica_id": int64(-1), "topics": wire.List(wire.Obj{"name": t, "partitions": ps})}
	}, "special:listoffsets").sortReq = true

	add(kafka.Metadata, []int{7, 4, 1}, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		var ts []string
		var want any
		if !d.P(1, 5) {
			ts = gNames(d, cnt(d))
			var l []any
			for _, t := range ts {
				l = append(l, wire.Obj{"name": t})
			}
			want = l
			if l == nil {
				want = []any{}
			}
		}
		auto := d.Bool()
		return func() healer.Request {
			r := healer.NewMetadataRequest(clientID, ts)
			r.AllowAutoTopicCreation = auto
			return r
		}, wire.Obj{"topics": want, "allow_auto": auto}
	}, "throttle_time_ms:ThrottleTimeMs brokers:Brokers@node_id { node_id:NodeID host:Host port:Port rack:Rack } cluster_id:ClusterID controller_id:ControllerID "+
		"topics:TopicMetadatas@name { error_code:TopicErrorCode name:TopicName is_internal:IsInternal partitions:PartitionMetadatas@index { error_code:PartitionErrorCode index:PartitionID leader_id:Leader leader_epoch:LeaderEpoch replicas:Replicas isr:Isr offline:OfflineReplicas } }")

	add(kafka.OffsetCommit, []int{2, 0}, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		g, gen, mem, ret := gStr(d), gI32(d), gStr(d), gI64(d)
		ctorV := uint16(pbt.Pick(d, v, 0, 1, 2))
		type add struct {
			t    string
			p    int32
			o    int64
			meta string
		}
		var adds []add
		var topics []any
		for _, t := range gNames(d, cnt(d)) {
			var ps []any
			for _, p := range gPids(d, d.Int(1, 3)) {
				o, m := gI64(d), gStr(d)
				adds = append(adds, add{t, p, o, m})
				ps = append(ps, wire.Obj{"index": int64(p), "offset": o, "metadata": m})
			}
			topics = append(topics, wire.Obj{"name": t, "partitions": ps})
		}
		return func() healer.Request {
			r := healer.NewOffsetCommitRequest(ctorV, clientID, g)
			r.SetGenerationID(gen)
			r.SetMemberID(mem)
			r.SetRetentionTime(ret)
			for _, a := range adds {
				r.AddPartiton(a.t, a.p, a.o, a.meta)
			}
			return r
		}, wire.Obj{"group_id": g, "generation_id": int64(gen), "member_id": mem, "retention_time_ms": ret, "topics": topics}
	}, "topics:Topics { name:Topic partitions:Partitions { index:PartitionID error_code:ErrorCode } }")

	add(kafka.OffsetFetch, []int{1, 0}, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		g := gStr(d)
		ctorV := uint16(pbt.Pick(d, v, 0, 1, 2))
		type add struct {
			t string
			p int32
		}
		var adds []add
		var topics []any
		for _, t := range gNames(d, cnt(d)) {
			ps := gPids(d, d.Int(1, 3))
			for _, p := range ps {
				adds = append(adds, add{t, p})
			}
			topics = append(topics, wire.Obj{"name": t, "partitions": anyI32(ps)})
		}
		return func() healer.Request {
			r := healer.NewOffsetFetchRequest(ctorV, clientID, g)
			for _, a := range adds {
				r.AddPartiton(a.t, a.p)
			}
			return r
		}, wire.Obj{"group_id": g, "topics": topics}
	}, "topics:Topics { name:Topic partitions:Partitions { index:PartitionID offset:Offset metadata:Metadata error_code:ErrorCode } }")

	add(kafka.FindCoordinator, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		g := gStr(d)
		return func() healer.Request { return healer.NewFindCoordinatorRequest(clientID, g) }, wire.Obj{"key": g}
	}, "error_code:ErrorCode node_id:Coordinator.NodeID host:Coordinator.Host port:Coordinator.Port")

	add(kafka.JoinGroup, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		g, m, pt, st, rt := gStr(d), gStr(d), gStr(d), gI32(d), gI32(d)
		var gps []*healer.GroupProtocol
		var want []any
		for n := cnt(d); n > 0; n-- {
			gp := &healer.GroupProtocol{ProtocolName: gStr(d), ProtocolMetadata: d.Bytes(40)}
			gps = append(gps, gp)
			want = append(want, wire.Obj{"name": gp.ProtocolName, "metadata": gp.ProtocolMetadata})
		}
		return func() healer.Request {
			r := healer.NewJoinGroupRequest(uint16(v), clientID)
			r.GroupID, r.MemberID, r.ProtocolType, r.SessionTimeout, r.RebalanceTimeout = g, m, pt, st, rt
			for _, gp := range gps {
				r.AddGroupProtocal(gp)
			}
			return r
		}, wire.Obj{"group_id": g, "session_timeout_ms": int64(st), "rebalance_timeout_ms": int64(rt), "member_id": m, "protocol_type": pt, "protocols": want}
	}, "error_code:ErrorCode generation_id:GenerationID protocol_name:GroupProtocol leader:LeaderID member_id:MemberID members:Members { member_id:MemberID metadata:MemberMetadata }")

	add(kafka.Heartbeat, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		g, gen, m := gStr(d), gI32(d), gStr(d)
		return func() healer.Request { return healer.NewHeartbeatRequest(clientID, g, gen, m) },
			wire.Obj{"group_id": g, "generation_id": int64(gen), "member_id": m}
	}, "error_code:ErrorCode")

	add(kafka.LeaveGroup, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		g, m := gStr(d), gStr(d)
		return func() healer.Request { return healer.NewLeaveGroupRequest(clientID, g, m) },
			wire.Obj{"group_id": g, "member_id": m}
	}, "error_code:ErrorCode")

	add(kafka.SyncGroup, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		g, gen, m := gStr(d), gI32(d), gStr(d)
		var ga healer.GroupAssignment
		var want []any
		for n := cnt(d); n > 0; n-- {
			x := struct {
				MemberID         string
				MemberAssignment []byte
			}{gStr(d), d.Bytes(60)}
			ga = append(ga, x)
			want = append(want, wire.Obj{"member_id": x.MemberID, "assignment": x.MemberAssignment})
		}
		return func() healer.Request { return healer.NewSyncGroupRequest(clientID, g, gen, m, ga) },
			wire.Obj{"group_id": g, "generation_id": int64(gen), "member_id": m, "assignments": want}
	}, "error_code:ErrorCode assignment:MemberAssignment")

	add(kafka.DescribeGroups, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		gs := gNames(d, cnt(d))
		return func() healer.Request { return healer.NewDescribeGroupsRequest(clientID, gs) }, wire.Obj{"groups": anyStr(gs)}
	}, "groups:Groups { error_code:ErrorCode group_id:GroupID group_state:State protocol_type:ProtocolType protocol_data:Protocol members:Members { member_id:MemberID client_id:ClientID client_host:ClientHost member_metadata:MemberMetadata member_assignment:RawMemberAssignment } }")

	add(kafka.ListGroups, []int{5, 4, 3, 2, 1, 0}, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		ss, ts := gNames(d, d.Skew(3)), gNames(d, d.Skew(3))
		tf := gTagged(d)
		return func() healer.Request {
			r := healer.NewListGroupsRequest(clientID)
			r.SetStatesFilter(ss)
			r.SetTypesFilter(ts)
			r.TaggedFields = tf
			return r
		}, wire.Obj{"states_filter": anyStr(ss), "types_filter": anyStr(ts)}
	}, "throttle_time_ms:ThrottleTimeMS error_code:ErrorCode groups:Groups { group_id:GroupID protocol_type:ProtocolType group_state:GroupState group_type:GroupType }")

	add(kafka.SaslHandshake, []int{1, 0}, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		m := gStr(d)
		return func() healer.Request { return healer.NewSaslHandShakeRequest(clientID, m) }, wire.Obj{"mechanism": m}
	}, "error_code:ErrorCode mechanisms:EnabledMechanisms")

	add(kafka.SaslAuthenticate, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		u, p := gStr(d), gStr(d)
		return func() healer.Request { return healer.NewSaslAuthenticateRequest(clientID, u, p, "plain") }, wire.Obj{"auth_bytes": []byte("\x00" + u + "\x00" + p)}
	}, "error_code:ErrorCode error_message:ErrorMessage auth_bytes:SaslAuthBytes")

	add(kafka.CreateTopics, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		to := gI32(d)
		var steps []func(r *healer.CreateTopicsRequest)
		var want []any
		for _, t := range gNames(d, cnt(d)) {
			np, rf := gI32(d), int16(gI32(d))
			steps = append(steps, func(r *healer.CreateTopicsRequest) { r.AddTopic(t, np, rf) })
			var as, cs []any
			for p := range d.Skew(3) {
				reps := gI32s(d, 3)
				if d.P(1, 6) { // replaced by the next call for the same partition
					steps = append(steps, func(r *healer.CreateTopicsRequest) { r.AddReplicaAssignment(t, int32(p), []int32{99}) })
				}
				steps = append(steps, func(r *healer.CreateTopicsRequest) { r.AddReplicaAssignment(t, int32(p), reps) })
				as = append(as, wire.Obj{"partition": int64(p), "brokers": anyI32(reps)})
			}
			for n := d.Skew(3); n > 0; n-- {
				k, val := gStr(d), gStr(d)
				steps = append(steps, func(r *healer.CreateTopicsRequest) {
					x := r.CreateTopicRequests[len(r.CreateTopicRequests)-1]
					x.ConfigEntries = append(x.ConfigEntries, &healer.ConfigEntry{ConfigName: k, ConfigValue: val})
				})
				cs = append(cs, wire.Obj{"name": k, "value": val})
			}
			want = append(want, wire.Obj{"name": t, "num_partitions": int64(np), "replication_factor": int64(rf), "assignments": as, "configs": cs})
		}
		return func() healer.Request {
			r := healer.NewCreateTopicsRequest(clientID, uint32(to))
			for _, s := range steps {
				s(r)
			}
			return r
		}, wire.Obj{"topics": want, "timeout_ms": int64(to)}
	}, "topics:TopicErrors { name:Topic error_code:ErrorCode }")

	add(kafka.DeleteTopics, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		ts, to := gNames(d, cnt(d)), gI32(d)
		return func() healer.Request { return healer.NewDeleteTopicsRequest(clientID, ts, to) }, wire.Obj{"topics": anyStr(ts), "timeout_ms": int64(to)}
	}, "topics:Results { name:TopicName error_code:ErrorCode }")

	add(kafka.DescribeAcls, []int{2, 1, 0}, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		rn, wrn := gOptStr(d)
		pr, wpr := gOptStr(d)
		ho, who := gOptStr(d)
		rt, pt, op, pe := gI8(d), gI8(d), gI8(d), gI8(d)
		tf := gTagged(d)
		return func() healer.Request {
			c := clientID
			return &healer.DescribeAclsRequest{RequestHeader: healer.RequestHeader{APIKey: healer.API_DescribeAcls, ClientID: &c},
				DescribeAclsRequestBody: healer.DescribeAclsRequestBody{ResourceType: healer.AclsResourceType(rt), ResourceName: rn, PatternType: healer.AclsPatternType(pt), Principal: pr, Host: ho,
					Operation: healer.AclsOperation(op), PermissionType: healer.AclsPermissionType(pe), TaggedFields: tf}}
		}, wire.Obj{"resource_type": int64(rt), "resource_name": wrn, "pattern_type": int64(pt), "principal": wpr, "host": who, "operation": int64(op), "permission": int64(pe)}
	}, "throttle_time_ms:ThrottleTimeMs error_code:ErrorCode error_message:ErrorMessage resources:Resources { resource_type:ResourceType resource_name:ResourceName pattern_type:PatternType acls:Acls { principal:Principal host:Host operation:Operation permission:PermissionType } }")

	add(kafka.CreateAcls, []int{3, 2, 1, 0}, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		var cs []healer.AclCreation
		var want []any
		for n := cnt(d); n > 0; n-- {
			c := healer.AclCreation{ResourceType: healer.AclsResourceType(gI8(d)), ResourceName: gStr(d), PatternType: healer.AclsPatternType(gI8(d)), Principal: gStr(d), Host: gStr(d),
				Operation: healer.AclsOperation(gI8(d)), PermissionType: healer.AclsPermissionType(gI8(d)), TaggedFields: gTagged(d)}
			cs = append(cs, c)
			want = append(want, wire.Obj{"resource_type": int64(int8(c.ResourceType)), "resource_name": c.ResourceName, "pattern_type": int64(int8(c.PatternType)), "principal": c.Principal, "host": c.Host,
				"operation": int64(int8(c.Operation)), "permission": int64(int8(c.PermissionType))})
		}
		tf := gTagged(d)
		return func() healer.Request {
			c := clientID
			return &healer.CreateAclsRequest{RequestHeader: healer.RequestHeader{APIKey: healer.API_CreateAcls, ClientID: &c}, Creations: cs, TaggedFields: tf}
		}, wire.Obj{"creations": want}
	}, "results:Results { error_code:ErrorCode error_message:ErrorMessage }")

	add(kafka.DeleteAcls, []int{3, 2, 1, 0}, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		var fs []*healer.DeleteAclsFilter
		var want []any
		for n := cnt(d); n > 0; n-- {
			rn, wrn := gOptStr(d)
			pr, wpr := gOptStr(d)
			ho, who := gOptStr(d)
			f := &healer.DeleteAclsFilter{ResourceType: healer.AclsResourceType(gI8(d)), ResourceName: rn, PatternType: healer.AclsPatternType(gI8(d)), Principal: pr, Host: ho,
				Operation: healer.AclsOperation(gI8(d)), PermissionType: healer.AclsPermissionType(gI8(d)), TaggedFields: gTagged(d)}
			fs = append(fs, f)
			want = append(want, wire.Obj{"resource_type": int64(int8(f.ResourceType)), "resource_name": wrn, "pattern_type": int64(int8(f.PatternType)), "principal": wpr, "host": who,
				"operation": int64(int8(f.Operation)), "permission": int64(int8(f.PermissionType))})
		}
		tf := gTagged(d)
		return func() healer.Request {
			r := healer.NewDeleteAclsRequest(clientID, fs)
			r.TaggedFields = tf
			return r
		}, wire.Obj{"filters": want}
	}, "throttle_time_ms:ThrottleTimeMs filter_results:FilterResults { error_code:ErrorCode error_message:ErrorMessage matching:MatchingAcls { error_code:ErrorCode error_message:ErrorMessage resource_type:ResourceType resource_name:ResourceName pattern_type:PatternType principal:Principal host:Host operation:Operation permission:PermissionType } }")

	add(kafka.DescribeConfigs, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		var rs []*healer.DescribeConfigsRequestResource
		var want []any
		for n := cnt(d); n > 0; n-- {
			r := &healer.DescribeConfigsRequestResource{ResourceType: uint8(gI8(d)), ResourceName: gStr(d)}
			var w any
			if !d.P(1, 3) {
				r.ConfigNames = gNames(d, d.Skew(3))
				w = anyStr(r.ConfigNames)
			}
			rs = append(rs, r)
			want = append(want, wire.Obj{"resource_type": int64(int8(r.ResourceType)), "resource_name": r.ResourceName, "config_names": w})
		}
		return func() healer.Request { return healer.NewDescribeConfigsRequest(clientID, rs) }, wire.Obj{"resources": want}
	}, "throttle_time_ms:ThrottleTimeMS results:Resources { error_code:ErrorCode error_message:ErrorMessage resource_type:ResourceType resource_name:ResourceName configs:ConfigEntries { name:ConfigName value:ConfigValue read_only:ReadOnly is_default:IsDefault is_sensitive:IsSensitive } }")

	type ent struct {
		t    uint8
		rn   string
		k, v string
		op   int8
	}
	genEnts := func(d *pbt.D, inc bool) ([]ent, []any) {
		var es []ent
		var want []any
		for i, rn := range gNames(d, cnt(d)) {
			t := uint8(gI8(d))
			var cs []any
			for _, k := range gNames(d, d.Int(1, 3)) {
				e := ent{t, rn, k, gStr(d), 0}
				o := wire.Obj{"name": k, "value": e.v}
				if inc {
					e.op = int8(d.N(4))
					o["operation"] = int64(e.op)
				}
				es = append(es, e)
				cs = append(cs, o)
			}
			_ = i
			want = append(want, wire.Obj{"resource_type": int64(int8(t)), "resource_name": rn, "configs": cs})
		}
		return es, want
	}
	add(kafka.AlterConfigs, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		es, want := genEnts(d, false)
		vo := d.Bool()
		return func() healer.Request {
			r := healer.NewAlterConfigsRequest(clientID)
			for _, e := range es {
				r.AddConfig(e.t, e.rn, e.k, e.v)
			}
			r.SetValidateOnly(vo)
			return r
		}, wire.Obj{"resources": want, "validate_only": vo}
	}, "throttle_time_ms:ThrottleTimeMS responses:Resources { error_code:ErrorCode error_message:ErrorMessage resource_type:ResourceType resource_name:ResourceName }")

	add(kafka.IncrementalAlterConfigs, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		es, want := genEnts(d, true)
		vo := d.Bool()
		return func() healer.Request {
			r := healer.NewIncrementalAlterConfigsRequest(clientID)
			for _, e := range es {
				r.AddConfig(e.t, e.rn, e.k, e.v)
				x := &r.Resources[len(r.Resources)-1]
				x.Entries[len(x.Entries)-1].Operation = e.op
			}
			r.SetValidateOnly(vo)
			return r
		}, wire.Obj{"resources": want, "validate_only": vo}
	}, "throttle_time_ms:ThrottleTimeMs responses:Resources { error_code:ErrorCode error_message:ErrorMessage resource_type:ResourceType resource_name:ResourceName }")

	add(kafka.DescribeLogDirs, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		type tp struct {
			t string
			p int32
		}
		var tps []tp
		var names []string
		var want []any
		byName := d.P(1, 3)
		for _, t := range gNames(d, d.Int(1, 3)) {
			ps := gPids(d, d.Skew(3))
			if byName {
				names = append(names, t)
			} else if len(ps) == 0 {
				ps = []int32{0}
			}
			for _, p := range ps {
				tps = append(tps, tp{t, p})
			}
			want = append(want, wire.Obj{"name": t, "partitions": anyI32(ps)})
		}
		return func() healer.Request {
			r := healer.NewDescribeLogDirsRequest(clientID, names)
			for _, x := range tps {
				r.AddTopicPartition(x.t, x.p)
			}
			return r
		}, wire.Obj{"topics": want}
	}, "throttle_time_ms:ThrottleTimeMS results:Results { error_code:ErrorCode log_dir:LogDir topics:Topics { name:TopicName partitions:Partitions { index:PartitionID size:Size offset_lag:OffsetLag is_future:IsFutureKey } } }")

	add(kafka.CreatePartitions, []int{2, 0}, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		to, vo := gI32(d), d.Bool()
		type at struct {
			t  string
			n  int32
			as [][]int32
		}
		var ats []at
		var want []any
		for _, t := range gNames(d, cnt(d)) {
			a := at{t: t, n: gI32(d)}
			var w any
			if !d.P(1, 3) {
				a.as = [][]int32{}
				l := []any{}
				for n := d.Skew(3); n > 0; n-- {
					x := gI32s(d, 4)
					a.as = append(a.as, x)
					l = append(l, wire.Obj{"broker_ids": anyI32(x)})
				}
				w = l
			}
			ats = append(ats, a)
			want = append(want, wire.Obj{"name": t, "count": int64(a.n), "assignments": w})
		}
		tf := gTagged(d)
		return func() healer.Request {
			r := healer.NewCreatePartitionsRequest(clientID, uint32(to), vo)
			for _, a := range ats {
				r.AddTopic(a.t, a.n, a.as)
			}
			r.TaggedFields = tf
			return r
		}, wire.Obj{"topics": want, "timeout_ms": int64(to), "validate_only": vo}
	}, "throttle_time_ms:ThrottleTimeMS results:Results { name:TopicName error_code:ErrorCode error_message:ErrorMessage }")

	add(kafka.DeleteGroups, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		gs := gNames(d, cnt(d))
		return func() healer.Request { return healer.NewDeleteGroupsRequest(clientID, gs) }, wire.Obj{"groups": anyStr(gs)}
	}, "throttle_time_ms:ThrottleTimeMs results:Results { group_id:GroupID error_code:ErrorCode }")

	add(kafka.ElectLeaders, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		to := gI32(d)
		type tp struct {
			t string
			p int32
		}
		var tps []tp
		var want []any
		for _, t := range gNames(d, d.Int(1, 3)) {
			ps := gPids(d, d.Int(1, 3))
			for _, p := range ps {
				tps = append(tps, tp{t, p})
			}
			want = append(want, wire.Obj{"topic": t, "partitions": anyI32(ps)})
		}
		return func() healer.Request {
			r := healer.NewElectLeadersRequest(to)
			for _, x := range tps {
				r.Add(x.t, x.p)
			}
			return &r
		}, wire.Obj{"topics": want, "timeout_ms": int64(to)}
	}, "throttle_time_ms:ThrottleTimeMS results:ReplicaElectionResults { topic:Topic partitions:PartitionResults { partition_id:PartitionID error_code:ErrorCode error_message:ErrorMessage } }")

	add(kafka.AlterPartitionReassignments, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		to := gI32(d)
		type tp struct {
			t string
			p int32
			r []int32
		}
		var tps []tp
		var want []any
		for _, t := range gNames(d, cnt(d)) {
			var ws []any
			for _, p := range gPids(d, d.Int(1, 3)) {
				x := tp{t, p, nil}
				var w any
				if !d.P(1, 4) {
					x.r = gI32s(d, 4)
					w = anyI32(x.r)
				}
				tps = append(tps, x)
				ws = append(ws, wire.Obj{"index": int64(p), "replicas": w})
			}
			want = append(want, wire.Obj{"name": t, "partitions": ws})
		}
		tf := gTagged(d)
		return func() healer.Request {
			r := healer.NewAlterPartitionReassignmentsRequest(to)
			for _, x := range tps {
				r.AddAssignment(x.t, x.p, x.r)
			}
			r.TaggedFields = tf
			return &r
		}, wire.Obj{"timeout_ms": int64(to), "topics": want}
	}, "throttle_time_ms:ThrottleTimeMs error_code:ErrorCode error_message:ErrorMsg responses:Responses { name:Name partitions:Partitions { index:PartitionID error_code:ErrorCode error_message:ErrorMsg } }")

	add(kafka.ListPartitionReassignments, v0, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		to := gI32(d)
		type tp struct {
			t string
			p int32
		}
		var tps []tp
		var want any
		if !d.P(1, 5) {
			var l []any
			for _, t := range gNames(d, d.Int(1, 3)) {
				ps := gPids(d, d.Int(1, 3))
				for _, p := range ps {
					tps = append(tps, tp{t, p})
				}
				l = append(l, wire.Obj{"name": t, "partitions": anyI32(ps)})
			}
			want = l
		}
		return func() healer.Request {
			r := healer.NewListPartitionReassignmentsRequest(clientID, to)
			for _, x := range tps {
				r.AddTP(x.t, x.p)
			}
			return r
		}, wire.Obj{"timeout_ms": int64(to), "topics": want}
	}, "throttle_time_ms:ThrottleTimeMS error_code:ErrorCode error_message:ErrorMessage topics:Topics { name:Name partitions:Partitions { index:Pid replicas:Replicas adding:AddingReplicas removing:RemovingReplicas } }")

	add(kafka.Produce, []int{9, 0}, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		acks, to := int16(pbt.Pick(d, 1, -1, 2, 32767)), gI32(d)
		type pt struct {
			p  int32
			tf healer.TaggedFields
		}
		type tt struct {
			t  string
			ps []pt
			tf healer.TaggedFields
		}
		var tts []tt
		var want []any
		for _, t := range gNames(d, cnt(d)) {
			x := tt{t: t, tf: gTagged(d)}
			var ws []any
			for _, p := range gPids(d, cnt(d)) {
				x.ps = append(x.ps, pt{p, gTagged(d)})
				ws = append(ws, wire.Obj{"index": int64(p)})
			}
			tts = append(tts, x)
			want = append(want, wire.Obj{"name": t, "partitions": ws})
		}
		tf := gTagged(d)
		return func() healer.Request {
			c := clientID
			r := &healer.ProduceRequest{RequestHeader: &healer.RequestHeader{APIKey: healer.API_ProduceRequest, ClientID: &c}, RequiredAcks: acks, Timeout: to, TaggedFields: tf}
			tb := reflect.ValueOf(&r.TopicBlocks).Elem()
			tb.Set(reflect.MakeSlice(tb.Type(), len(tts), len(tts)))
			for i, x := range tts {
				r.TopicBlocks[i].TopicName, r.TopicBlocks[i].TaggedFields = x.t, x.tf
				pb := reflect.ValueOf(&r.TopicBlocks[i].PartitonBlocks).Elem()
				pb.Set(reflect.MakeSlice(pb.Type(), len(x.ps), len(x.ps)))
				for j, y := range x.ps {
					r.TopicBlocks[i].PartitonBlocks[j].Partition, r.TopicBlocks[i].PartitonBlocks[j].TaggedFields = y.p, y.tf
				}
			}
			return r
		}, wire.Obj{"acks": int64(acks), "timeout_ms": int64(to), "topics": want}
	}, "topics:ProduceResponses { name:Topic partitions:Partitions { index:PartitionID error_code:ErrorCode base_offset:BaseOffset log_append_time_ms:LogAppendTimeMs log_start_offset:LogStartOffset "+
		"record_errors:RecordErrors { batch_index:BatchIndex message:BatchIndexErrorMessage } error_message:ErrorMessage } } throttle_time_ms:ThrottleTimeMs")

	f := add(kafka.Fetch, []int{10, 7, 0}, func(d *pbt.D, v int) (func() healer.Request, wire.Obj) {
		wait, minb, maxb, iso, sid, sep := gI32(d), gI32(d), gI32(d), gI8(d), gI32(d), gI32(d)
		topics, forg := map[string][]*healer.PartitionBlock{}, map[string][]int32{}
		var wt, wf []any
		for _, t := range gNames(d, cnt(d)) {
			var ws []any
			for _, p := range gPids(d, d.Int(1, 4)) {
				b := &healer.PartitionBlock{Partition: p, CurrentLeaderEpoch: gI32(d), FetchOffset: gI64(d), LogStartOffset: gI64(d), MaxBytes: gI32(d)}
				topics[t] = append(topics[t], b)
				ws = append(ws, wire.Obj{"index": int64(p), "current_leader_epoch": int64(b.CurrentLeaderEpoch), "fetch_offset": b.FetchOffset, "log_start_offset": b.LogStartOffset, "max_bytes": int64(b.MaxBytes)})
			}
			wt = append(wt, wire.Obj{"name": t, "partitions": ws})
		}
		for _, t := range gNames(d, d.Skew(2)) {
			forg[t] = gI32s(d, 3)
			wf = append(wf, wire.Obj{"name": t, "partitions": anyI32(forg[t])})
		}
		return func() healer.Request {
			r := healer.NewFetchRequest(clientID, wait, minb)
			r.MaxBytes, r.ISOLationLevel, r.SessionID, r.SessionEpoch = maxb, iso, sid, sep
			r.Topics, r.ForgottenTopicsDatas = topics, forg
			return r
		}, wire.Obj{"replica_id": int64(-1), "max_wait_ms": int64(wait), "min_bytes": int64(minb), "max_bytes": int64(maxb), "isolation_level": int64(iso), "session_id": int64(sid), "session_epoch": int64(sep),
			"topics": wt, "forgotten": wf}
	}, "")
	f.sortReq, f.reqOnly = true, true

	for _, a := range apiTable {
		if !strings.HasPrefix(a.proj, "special:") {
			ts := strings.Fields(a.proj)
			parseProj(&ts)
		}
	}
}

// ---- comparing requests

// sameObj compares the decoded fields of a schema with expectations; "" when equal.
func sameObj(fs []*wire.Field, v int, got, want wire.Obj, path string, sorted bool) string {
	for _, f := range fs {
		if !f.In(v) {
			continue
		}
		p := path + "/" + f.Name
		g, w := got[f.Name], want[f.Name]
		if f.Array {
			ga, _ := g.([]any)
			wa, _ := w.([]any)
			if f.NullableIn(v) && (g == nil) != (w == nil) {
				return fmt.Sprintf("%s: sent null=%v, supplied null=%v", p, g == nil, w == nil)
			}
			if len(ga) != len(wa) {
				return fmt.Sprintf("%s: sent %d elements, supplied %d", p, len(ga), len(wa))
			}
			if sorted && f.Type == "struct" {
				ga, wa = sortObjs(ga), sortObjs(wa)
			}
			for i := range ga {
				ip := fmt.Sprintf("%s[%d]", p, i)
				if f.Type == "struct" {
					if s := sameObj(f.Sub, v, ga[i].(wire.Obj), wa[i].(wire.Obj), ip, sorted); s != "" {
						return s
					}
				} else if s := sameVal(f, v, ga[i], wa[i], ip); s != "" {
					return s
				}
			}
			continue
		}
		if s := sameVal(f, v, g, w, p); s != "" {
			return s
		}
	}
	return ""
}

func sortObjs(a []any) []any {
	a = append([]any(nil), a...)
	key := func(x any) string {
		return fmt.Sprint(x.(wire.Obj)["name"], "/", x.(wire.Obj)["index"], "/", x.(wire.Obj)["partition"])
	}
	sort.Slice(a, func(i, j int) bool { return key(a[i]) < key(a[j]) })
	return a
}

func clip(x any) string {
	s := fmt.Sprintf("%q", fmt.Sprint(x))
	if b, ok := x.([]byte); ok {
		s = q(b)
	}
	if x == nil {
		return "null"
	}
	if len(s) > 60 {
		return fmt.Sprintf("%s...(%d)", s[:60], len(s))
	}
	return s
}

func sameVal(f *wire.Field, v int, g, w any, p string) string {
	if f.Type == "bytes" || f.Type == "records" {
		gb, _ := g.([]byte)
		wb, _ := w.([]byte)
		if string(gb) != string(wb) {
			return fmt.Sprintf("%s: sent %s, supplied %s", p, clip(g), clip(w))
		}
		return ""
	}
	if w == nil && !f.NullableIn(v) {
		switch f.Type {
		case "string":
			w = ""
		case "bool":
			w = false
		default:
			w = int64(0)
		}
	}
	if !reflect.DeepEqual(g, w) {
		return fmt.Sprintf("%s: sent %s, supplied %s", p, clip(g), clip(w))
	}
	return ""
}

// ---- generated responses

type genOpt struct {
	errs   int // per 8: chance that an error code is non-zero
	unique bool
	codes  []int16 // codes chosen
}

func genResp(d *pbt.D, fs []*wire.Field, v int, o *genOpt, idx int) wire.Obj {
	r := wire.Obj{}
	for _, f := range fs {
		if !f.In(v) {
			continue
		}
		if f.Array {
			if f.NullableIn(v) && d.P(1, 6) {
				r[f.Name] = nil
				continue
			}
			n := pbt.Pick(d, 1, 2, 3, 0, 1)
			if d.P(1, 60) {
				n = 130
			}
			if idx == -1 { // plain
				n = 0
			}
			a := make([]any, n)
			for i := range a {
				if f.Type == "struct" {
					a[i] = genResp(d, f.Sub, v, o, i)
				} else {
					a[i] = genField(d, f, v, o, i)
				}
			}
			r[f.Name] = a
			continue
		}
		r[f.Name] = genField(d, f, v, o, idx)
	}
	return r
}

func genField(d *pbt.D, f *wire.Field, v int, o *genOpt, idx int) any {
	switch f.Type {
	case "bool":
		return d.Bool()
	case "int8":
		return int64(gI8(d))
	case "int16":
		if f.Name == "error_code" {
			if d.N(8) >= o.errs {
				return int64(0)
			}
			c := int16(pbt.Pick(d, 1, 2, 3, 5, 6, 7, 9, 14, 15, 16, 17, 22, 25, 27, 29, 36, 41, 44, 58, 74, -1, 87, 100))
			o.codes = append(o.codes, c)
			return int64(c)
		}
		return int64(int16(gI32(d)))
	case "int32":
		if o.unique && (f.Name == "index" || f.Name == "node_id") {
			return int64(idx)*3 + int64(d.N(3))
		}
		return int64(gI32(d))
	case "int64":
		return gI64(d)
	case "string":
		if f.NullableIn(v) && d.P(1, 3) {
			return nil
		}
		if o.unique && f.Name == "name" {
			return fmt.Sprintf("%d.%s", idx, d.Name(8)) // the dot keeps 1 and 2x apart from 12 and x
		}
		return gStr(d)
	case "bytes":
		if f.Name == "member_assignment" {
			switch d.W(4, 1, 1) {
			case 0:
				var tps []wire.TopicParts
				for n := d.Skew(3); n > 0; n-- {
					tps = append(tps, wire.TopicParts{Topic: d.Name(6), Parts: gPids(d, d.Skew(3))})
				}
				var ud []byte
				if d.Bool() {
					ud = d.BytesN(d.N(8))
				}
				return wire.EncodeAssignment(d.N(2), tps, ud)
			case 1:
				return []byte{}
			}
		}
		return d.BytesN(d.Skew(40))
	}
	if f.Type == "records" {
		return d.Bytes(60)
	}
	panic("genVal " + f.Type)
}

func genTags(d *pbt.D) func() [][2]any {
	if !d.P(1, 3) {
		return nil
	}
	var sets [][][2]any
	for i := 0; i < 5; i++ {
		var s [][2]any
		tag := uint64(0)
		for n := d.Skew(3); n > 0; n-- {
			tag += uint64(1 + d.N(300))
			s = append(s, [2]any{tag, d.BytesN(pbt.Pick(d, 0, 1, 3, 130))})
		}
		sets = append(sets, s)
	}
	i := 0
	return func() [][2]any {
		i++
		return sets[i%len(sets)]
	}
}

// ---- projection of results

type projField struct {
	wire, gof, sortKey string
	sub                []projField
}

var projCache = map[string][]projField{}

func parseProj(ts *[]string) (r []projField) {
	for len(*ts) > 0 {
		t := (*ts)[0]
		*ts = (*ts)[1:]
		if t == "}" {
			return
		}
		w, g, ok := strings.Cut(t, ":")
		if !ok {
			panic("projection: " + t)
		}
		g, k, _ := strings.Cut(g, "@")
		f := projField{wire: w, gof: g, sortKey: k}
		if len(*ts) > 0 && (*ts)[0] == "{" {
			*ts = (*ts)[1:]
			f.sub = parseProj(ts)
		}
		r = append(r, f)
	}
	return
}

func (a *apiDef) fields() []projField {
	ts := strings.Fields(a.proj)
	return parseProj(&ts)
}

func fieldOf(fs []*wire.Field, name string) *wire.Field {
	for _, f := range fs {
		if f.Name == name {
			return f
		}
	}
	panic("no field " + name)
}

func deref(v reflect.Value) reflect.Value {
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return v
		}
		v = v.Elem()
	}
	return v
}

// sameResult compares a decoded result with the encoded values; "" when equal.
func sameResult(a *apiDef, v int, want wire.Obj, got any) string {
	if a.key == kafka.ListOffsets {
		return sameListOffsets(v, want, got)
	}
	s := sameStruct(a.fields(), wire.Resp(a.key).Fields, v, want, deref(reflect.ValueOf(got)), "")
	if s == "" && a.key == kafka.DescribeGroups {
		s = sameAssignments(want, got)
	}
	return s
}

func sameStruct(pf []projField, fs []*wire.Field, v int, want wire.Obj, got reflect.Value, path string) string {
	if got.Kind() != reflect.Struct {
		return fmt.Sprintf("%s: no result (%v)", path, got.Kind())
	}
	for _, p := range pf {
		f := fieldOf(fs, p.wire)
		if !f.In(v) {
			continue
		}
		g := got
		for _, part := range strings.Split(p.gof, ".") {
			g = deref(g).FieldByName(part)
			if !g.IsValid() {
				panic("no field " + p.gof + " in " + got.Type().String())
			}
		}
		ip := path + "/" + p.wire
		w := want[p.wire]
		if f.Array {
			wa, _ := w.([]any)
			g = deref(g)
			if g.Kind() != reflect.Slice {
				return fmt.Sprintf("%s: not decoded", ip)
			}
			if g.Len() != len(wa) {
				return fmt.Sprintf("%s: decoded %d elements, encoded %d", ip, g.Len(), len(wa))
			}
			gs := make([]reflect.Value, g.Len())
			for i := range gs {
				gs[i] = deref(g.Index(i))
			}
			if p.sortKey != "" {
				wa = append([]any(nil), wa...)
				sk := f.Sub
				kf := fieldOf(sk, p.sortKey)
				gk := ""
				for _, s := range p.sub {
					if s.wire == p.sortKey {
						gk = s.gof
					}
				}
				less := func(x, y any) bool { return fmt.Sprint(x) < fmt.Sprint(y) }
				_ = kf
				sort.SliceStable(wa, func(i, j int) bool { return less(wa[i].(wire.Obj)[p.sortKey], wa[j].(wire.Obj)[p.sortKey]) })
				sort.SliceStable(gs, func(i, j int) bool {
					return less(gs[i].FieldByName(gk).Interface(), gs[j].FieldByName(gk).Interface())
				})
			}
			for i := range gs {
				ep := fmt.Sprintf("%s[%d]", ip, i)
				if f.Type == "struct" {
					if s := sameStruct(p.sub, f.Sub, v, wa[i].(wire.Obj), gs[i], ep); s != "" {
						return s
					}
				} else if s := sameScalar(f, wa[i], gs[i], ep); s != "" {
					return s
				}
			}
			continue
		}
		if s := sameScalar(f, w, g, ip); s != "" {
			return s
		}
	}
	return ""
}

func sameScalar(f *wire.Field, w any, g reflect.Value, path string) string {
	bad := func() string {
		x := "nil"
		if d := deref(g); d.IsValid() && d.CanInterface() && !(d.Kind() == reflect.Pointer && d.IsNil()) {
			x = clip(d.Interface())
		}
		return fmt.Sprintf("%s: decoded %s, encoded %s", path, x, clip(w))
	}
	switch f.Type {
	case "string":
		s, _ := w.(string)
		if g.Kind() == reflect.Pointer {
			if g.IsNil() != (w == nil) {
				return bad()
			}
			if w == nil {
				return ""
			}
			g = g.Elem()
		}
		if g.Kind() != reflect.String || g.String() != s {
			return bad()
		}
	case "bytes":
		b, _ := w.([]byte)
		if string(g.Bytes()) != string(b) {
			return bad()
		}
	case "bool":
		if g.Bool() != (w == true) {
			return bad()
		}
	default:
		n, _ := w.(int64)
		bits := map[string]uint{"int8": 8, "int16": 16, "int32": 32, "int64": 64}[f.Type]
		mask := uint64(1)<<bits - 1
		if bits == 64 {
			mask = ^uint64(0)
		}
		var u uint64
		if g.CanInt() {
			u = uint64(g.Int())
		} else {
			u = g.Uint()
		}
		if u&mask != uint64(n)&mask {
			return bad()
		}
		if g.CanInt() && g.Type().Bits() >= int(bits) && g.Int() != n {
			return bad()
		}
	}
	return ""
}

func sameListOffsets(v int, want wire.Obj, got any) string {
	r, ok := got.(healer.OffsetsResponse)
	if !ok {
		if p, isp := got.(*healer.OffsetsResponse); isp && p != nil {
			r = *p
		} else {
			return fmt.Sprintf("unexpected result %T", got)
		}
	}
	ts := want.Objs("topics")
	if len(r.TopicPartitionOffsets) != len(ts) {
		return fmt.Sprintf("/topics: decoded %d topics, encoded %d", len(r.TopicPartitionOffsets), len(ts))
	}
	for _, t := range ts {
		ps := t.Objs("partitions")
		g := r.TopicPartitionOffsets[t.S("name")]
		if len(g) != len(ps) {
			return fmt.Sprintf("/topics/%s: decoded %d partitions, encoded %d", clip(t.S("name")), len(g), len(ps))
		}
		for i, p := range ps {
			at := fmt.Sprintf("/topics/%s/%d", clip(t.S("name")), i)
			if int64(g[i].Partition) != p.I("index") || int64(g[i].ErrorCode) != p.I("error_code") {
				return fmt.Sprintf("%s: decoded partition %d code %d, encoded %d code %d", at, g[i].Partition, g[i].ErrorCode, p.I("index"), p.I("error_code"))
			}
			if v == 0 {
				olds := p.A("old_offsets")
				if len(olds) != len(g[i].OldStyleOffsets) {
					return fmt.Sprintf("%s: decoded %d offsets, encoded %d", at, len(g[i].OldStyleOffsets), len(olds))
				}
				for j := range olds {
					if olds[j].(int64) != g[i].OldStyleOffsets[j] {
						return fmt.Sprintf("%s: decoded offset %d, encoded %d", at, g[i].OldStyleOffsets[j], olds[j])
					}
				}
			} else if g[i].Timestamp != p.I("timestamp") || g[i].Offset != p.I("offset") {
				return fmt.Sprintf("%s: decoded %d@%d, encoded %d@%d", at, g[i].Offset, g[i].Timestamp, p.I("offset"), p.I("timestamp"))
			}
		}
	}
	return ""
}

// sameAssignments checks the decoded view of valid consumer assignments.
func sameAssignments(want wire.Obj, got any) string {
	r, ok := got.(healer.DescribeGroupsResponse)
	if !ok {
		return ""
	}
	for gi, g := range want.Objs("groups") {
		for mi, m := range g.Objs("members") {
			raw := m.B("member_assignment")
			if len(raw) == 0 {
				continue
			}
			_, tps, ud, err := wire.DecodeAssignment(raw)
			if err != nil {
				continue
			}
			at := fmt.Sprintf("/groups[%d]/members[%d]/member_assignment", gi, mi)
			ma := r.Groups[gi].Members[mi].MemberAssignment
			if ma == nil {
				return at + ": valid assignment not decoded"
			}
			if len(ma.PartitionAssignments) != len(tps) {
				return fmt.Sprintf("%s: decoded %d topics, encoded %d", at, len(ma.PartitionAssignments), len(tps))
			}
			for i, tp := range tps {
				pa := ma.PartitionAssignments[i]
				if pa.Topic != tp.Topic || len(pa.Partitions) != len(tp.Parts) || (len(tp.Parts) > 0 && !reflect.DeepEqual(pa.Partitions, tp.Parts)) {
					return fmt.Sprintf("%s: decoded %s %v, encoded %s %v", at, pa.Topic, pa.Partitions, tp.Topic, tp.Parts)
				}
			}
			if string(ma.UserData) != string(ud) {
				return fmt.Sprintf("%s: decoded user data %s, encoded %s", at, q(ma.UserData), q(ud))
			}
		}
	}
	return ""
}

// errNames tells whether an error identifies a broker error code.
func errNames(err error, code int16) bool {
	var k healer.KafkaError
	if errors.As(err, &k) && int16(k) == code {
		return true
	}
	return strings.Contains(err.Error(), healer.KafkaError(code).Error())
}

// codesIn lists the non-zero error codes of a response.
func codesIn(o wire.Obj) (r []int16) {
	for k, x := range o {
		switch t := x.(type) {
		case int64:
			if k == "error_code" && t != 0 {
				r = append(r, int16(t))
			}
		case []any:
			for _, e := range t {
				if oo, ok := e.(wire.Obj); ok {
					r = append(r, codesIn(oo)...)
				}
			}
		}
	}
	return
}

// rangeFor advertises a version range in which v is the highest version both sides support.
func rangeFor(d *pbt.D, a *apiDef, v int) [2]int {
	hi := v + d.N(4)
	for _, x := range a.vers {
		if x > v && hi >= x {
			hi = x - 1
		}
	}
	if hi < v {
		hi = v
	}
	return [2]int{d.N(v + 1), hi}
}

// call runs f and captures a panic.
func call(f func()) (pv any, stack string) {
	defer func() {
		if e := recover(); e != nil {
			pv, stack = e, string(debug.Stack())
		}
	}()
	f()
	return
}
