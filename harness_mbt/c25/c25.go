// Package c25: the Go library of the model-based testing plugin hands every
// value over as the value it denotes, and calls and answers what was asked.
package c25

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sync"

	"verifh/sym"

	mbt "github.com/fizzbee-io/fizzbee/mbt/lib/go"
	pb "github.com/fizzbee-io/fizzbee/mbt/lib/go/internalpb"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// val is a value as the runner and the adapter mean it.
type val struct {
	kind int // 0 integer, 1 boolean, 2 string, 3 list, 4 map, 5 ignore
	n    int64
	b    bool
	s    string
	list []*val
	keys []*val
}

const (
	kInt = iota
	kBool
	kStr
	kList
	kMap
	kIgnore
)

var strs = []string{"1", "é\x00", "", "a", "true", "0"}

// keyInts are the integers used as keys of maps.
var keyInts = []int64{1, math.MaxInt64, math.MinInt64, 0, -1, 10}

func leaf(name string, kinds int) *val {
	switch k := sym.Choose(name+".kind", kinds); k {
	case kInt:
		return &val{n: sym.Int64(name)}
	case kBool:
		return &val{kind: kBool, b: sym.Bool(name + ".b")}
	case kStr:
		return &val{kind: kStr, s: strs[sym.Choose(name+".s", more(3, len(strs)))]}
	default:
		return &val{kind: kIgnore}
	}
}

// key chooses a key of a map; nested ones are less varied.
func key(name string, nested bool) *val {
	if nested && sym.Tier() == 0 {
		return []*val{{n: 1}, {kind: kBool, b: true}, {kind: kStr, s: "1"}}[sym.Choose(name, 3)]
	}
	switch sym.Choose(name+".kind", 3) {
	case kInt:
		return &val{n: keyInts[sym.Choose(name, more(3, len(keyInts)))]}
	case kBool:
		return &val{kind: kBool, b: sym.Flip(name + ".b")}
	default:
		return &val{kind: kStr, s: strs[sym.Choose(name+".s", more(2, 4))]}
	}
}

// value chooses a tree of the depth and width given.
func value(name string, depth, width int) *val { return tree(name, depth, width, false) }

func tree(name string, depth, width int, nested bool) *val {
	in := width
	if sym.Tier() == 0 {
		in = 1
	}
	if depth == 0 {
		return leaf(name, 4)
	}
	switch sym.Choose(name+".shape", 3) {
	case 0:
		return leaf(name, 4)
	case 1:
		v := &val{kind: kList}
		for i, n := 0, sym.Choose(name+".len", width+1); i < n; i++ {
			v.list = append(v.list, tree(fmt.Sprintf("%s.%d", name, i), depth-1, in, true))
		}
		return v
	default:
		v := &val{kind: kMap}
		for i, n := 0, sym.Choose(name+".len", width+1); i < n; i++ {
			k := key(fmt.Sprintf("%s.k%d", name, i), nested || i > 0)
			for _, o := range v.keys {
				sym.Assume(!sameKey(k, o))
			}
			v.keys = append(v.keys, k)
			v.list = append(v.list, tree(fmt.Sprintf("%s.%d", name, i), depth-1, in, true))
		}
		return v
	}
}

func sameKey(a, b *val) bool { return a.kind == b.kind && a.n == b.n && a.b == b.b && a.s == b.s }

func (v *val) proto() *pb.Value {
	switch v.kind {
	case kInt:
		return &pb.Value{Kind: &pb.Value_IntValue{IntValue: v.n}}
	case kBool:
		return &pb.Value{Kind: &pb.Value_BoolValue{BoolValue: v.b}}
	case kStr:
		return &pb.Value{Kind: &pb.Value_StrValue{StrValue: v.s}}
	case kList:
		l := &pb.ListValue{}
		for _, x := range v.list {
			l.Items = append(l.Items, x.proto())
		}
		return &pb.Value{Kind: &pb.Value_ListValue{ListValue: l}}
	case kMap:
		m := &pb.MapValue{}
		for i, x := range v.list {
			m.Entries = append(m.Entries, &pb.MapEntry{Key: v.keys[i].proto(), Value: x.proto()})
		}
		return &pb.Value{Kind: &pb.Value_MapValue{MapValue: m}}
	}
	return &pb.Value{Kind: &pb.Value_SentinelValue{SentinelValue: pb.SentinelType_SENTINEL_IGNORE}}
}

// isProto says whether p is the value v.
func isProto(v *val, p *pb.Value) bool {
	if p == nil {
		return false
	}
	switch k := p.Kind.(type) {
	case *pb.Value_IntValue:
		return v.kind == kInt && v.n == k.IntValue
	case *pb.Value_BoolValue:
		return v.kind == kBool && v.b == k.BoolValue
	case *pb.Value_StrValue:
		return v.kind == kStr && v.s == k.StrValue
	case *pb.Value_SentinelValue:
		return v.kind == kIgnore && k.SentinelValue == pb.SentinelType_SENTINEL_IGNORE
	case *pb.Value_ListValue:
		if v.kind != kList || len(v.list) != len(k.ListValue.Items) {
			return false
		}
		for i, x := range v.list {
			if !isProto(x, k.ListValue.Items[i]) {
				return false
			}
		}
		return true
	case *pb.Value_MapValue:
		if v.kind != kMap || len(v.list) != len(k.MapValue.Entries) {
			return false
		}
		for i, x := range v.list {
			found := false
			for _, e := range k.MapValue.Entries {
				if isProto(v.keys[i], e.Key) {
					if found || !isProto(x, e.Value) {
						return false
					}
					found = true
				}
			}
			if !found {
				return false
			}
		}
		return true
	}
	return false
}

// H_listKey: a map whose keys are lists reaches the action as such, or is refused.
func H_listKey() {
	k := &val{kind: kList, list: []*val{{n: sym.Int64("k")}}}
	if sym.Flip("empty") {
		k.list = nil
	}
	v := &val{kind: kMap, keys: []*val{k}, list: []*val{{n: sym.Int64("v")}}}
	resp, bad := execute(func(inst any, got []mbt.Arg) (any, error) { return got[0].Value, nil },
		[]*pb.Arg{{Name: "v", Value: v.proto()}})
	sym.Assert(!bad, "a map with a list as a key makes the plugin crash")
	sym.Assert(!okay(resp) || len(resp.ReturnValues) == 1 && isProto(v, resp.ReturnValues[0]), "a map with a list as a key is handed over as another value")
	sym.Cover("list key")
}

// isGo says whether the adapter was given the value v.
func isGo(v *val, a any) bool {
	switch x := a.(type) {
	case int:
		return v.kind == kInt && int64(x) == v.n
	case int64:
		return v.kind == kInt && x == v.n
	case bool:
		return v.kind == kBool && x == v.b
	case string:
		return v.kind == kStr && x == v.s
	case mbt.Sentinel:
		return v.kind == kIgnore && x == mbt.IGNORE
	case []any:
		if v.kind != kList || len(x) != len(v.list) {
			return false
		}
		for i, y := range v.list {
			if !isGo(y, x[i]) {
				return false
			}
		}
		return true
	case map[any]any:
		if v.kind != kMap || len(x) != len(v.list) {
			return false
		}
		for i, y := range v.list {
			e, ok := x[v.keys[i].goVal()]
			if !ok || !isGo(y, e) {
				return false
			}
		}
		return true
	}
	return false
}

// goVal is v as an adapter would hold it.
func (v *val) goVal() any {
	switch v.kind {
	case kInt:
		return int(v.n)
	case kBool:
		return v.b
	case kStr:
		return v.s
	case kList:
		l := []any{}
		for _, x := range v.list {
			l = append(l, x.goVal())
		}
		return l
	case kMap:
		m := map[any]any{}
		for i, x := range v.list {
			m[v.keys[i].goVal()] = x.goVal()
		}
		return m
	}
	return mbt.IGNORE
}

// role is an adapter's role; kind 0 reports nothing, 1 a state, 2 a snapshot, 3 both.
type role struct{ calls int }

type stateRole struct {
	role
	st map[string]any
	er error
}

func (r *stateRole) GetState() (map[string]any, error) { return r.st, r.er }

type snapRole struct {
	role
	st map[string]any
	er error
}

func (r *snapRole) SnapshotState() (map[string]any, error) { return r.st, r.er }

type bothRole struct {
	stateRole
	snap map[string]any
}

func (r *bothRole) SnapshotState() (map[string]any, error) { return r.snap, r.er }

// model is an adapter's model.
type model struct {
	roles                       map[mbt.RoleId]mbt.Role
	initErr, rolesErr, cleanErr error
	inits, cleans, gets         int
}

func (m *model) GetState() (map[string]any, error) { return nil, nil }
func (m *model) GetRoles() (map[mbt.RoleId]mbt.Role, error) {
	m.gets++
	return m.roles, m.rolesErr
}
func (m *model) Init() error    { m.inits++; return m.initErr }
func (m *model) Cleanup() error { m.cleans++; return m.cleanErr }

type actions = map[string]map[string]mbt.ActionFunc

// crashed runs f and says whether it panicked.
func crashed(f func()) (out bool) {
	defer func() {
		if recover() != nil {
			out = true
		}
	}()
	f()
	return false
}

// execute calls the action "Act" of the model.
func execute(fn mbt.ActionFunc, args []*pb.Arg) (*pb.ExecuteActionResponse, bool) {
	s := mbt.NewFizzBeeMbtPluginServer(nil, &model{}, actions{"": {"Act": fn}})
	var resp *pb.ExecuteActionResponse
	bad := crashed(func() {
		var err error
		resp, err = s.ExecuteAction(context.Background(), &pb.ExecuteActionRequest{ActionName: "Act", Args: args})
		if err != nil {
			resp = nil
		}
	})
	return resp, bad
}

func okay(resp *pb.ExecuteActionResponse) bool {
	return resp != nil && resp.Status.GetCode() == pb.StatusCode_STATUS_OK
}

// H_args: the arguments of a call reach the action, in order, with their names, as the values they denote.
func H_args() {
	n := 1 + sym.Choose("args", 2)
	depth := 1
	if n == 1 {
		depth = more(2, 2)
	}
	var vs []*val
	var args []*pb.Arg
	names := []string{"x", "y", "x"}
	for i := 0; i < n; i++ {
		w := 2
		if n > 1 {
			w = 1
		}
		v := value(fmt.Sprintf("arg%d", i), depth, more(w, 2))
		vs = append(vs, v)
		args = append(args, &pb.Arg{Name: names[i], Value: v.proto()})
	}
	calls := 0
	resp, bad := execute(func(inst any, got []mbt.Arg) (any, error) {
		calls++
		sym.Assert(len(got) == n, "an argument is lost or added")
		for i, g := range got {
			sym.Assert(g.Name == names[i], "an argument has another's name")
			sym.Assert(isGo(vs[i], g.Value), "an argument reaches the action as another value")
		}
		return nil, nil
	}, args)
	sym.Assert(!bad, "an argument makes the plugin crash")
	sym.Assert(okay(resp) && calls == 1, "an action is not called once")
	sym.Assert(len(resp.ReturnValues) == 0, "an action that returns nothing is reported to return a value")
	sym.Cover("args")
}

// H_echo: what an action returns is reported as the value it is.
func H_echo() {
	v := value("v", more(2, 2), 2)
	resp, bad := execute(func(inst any, got []mbt.Arg) (any, error) { return got[0].Value, nil },
		[]*pb.Arg{{Name: "v", Value: v.proto()}})
	sym.Assert(!bad, "a returned value makes the plugin crash")
	sym.Assert(okay(resp) && len(resp.ReturnValues) == 1 && isProto(v, resp.ReturnValues[0]), "a returned value is reported as another one")
	sym.Cover("echo")
}

type myInt int
type myUint uint16
type myStr string
type myBool bool
type myList []int8
type myMap map[myStr]uint32

// typed gives a value of one of Go's kinds and the value it denotes; ok says whether the runner can represent it.
func typed(name string, depth int) (a any, v *val, ok bool) {
	n := 20
	if depth == 0 {
		n = 15
	}
	num := func(x int64) *val { return &val{n: x} }
	i64 := func() int64 { return sym.Int64(name) }
	switch sym.Choose(name+".type", n) {
	case 0:
		x := int(i64())
		return x, num(int64(x)), true
	case 1:
		x := int8(i64())
		return x, num(int64(x)), true
	case 2:
		x := int16(i64())
		return x, num(int64(x)), true
	case 3:
		x := int32(i64())
		return x, num(int64(x)), true
	case 4:
		x := i64()
		return x, num(x), true
	case 5:
		x := uint(i64())
		return x, num(int64(x)), x <= math.MaxInt64
	case 6:
		x := uint8(i64())
		return x, num(int64(x)), true
	case 7:
		x := uint16(i64())
		return x, num(int64(x)), true
	case 8:
		x := uint32(i64())
		return x, num(int64(x)), true
	case 9:
		x := uint64(i64())
		return x, num(int64(x)), x <= math.MaxInt64
	case 10:
		x := myInt(i64())
		return x, num(int64(x)), true
	case 11:
		x := myUint(i64())
		return x, num(int64(x)), true
	case 12:
		s := strs[sym.Choose(name+".s", len(strs))]
		if sym.Flip(name + ".named") {
			return myStr(s), &val{kind: kStr, s: s}, true
		}
		return s, &val{kind: kStr, s: s}, true
	case 13:
		b := sym.Bool(name + ".b")
		if sym.Flip(name + ".named") {
			return myBool(b), &val{kind: kBool, b: b}, true
		}
		return b, &val{kind: kBool, b: b}, true
	case 14:
		return mbt.IGNORE, &val{kind: kIgnore}, true
	case 15: // pointers
		x := i64()
		p := &x
		if sym.Flip(name + ".deep") {
			return &p, num(x), true
		}
		return p, num(x), true
	case 16: // typed slices and arrays
		x, y := int8(i64()), int8(sym.Int64(name+".y"))
		v := &val{kind: kList, list: []*val{num(int64(x)), num(int64(y))}}
		switch sym.Choose(name+".seq", 4) {
		case 0:
			return []int8{x, y}, v, true
		case 1:
			return [2]int8{x, y}, v, true
		case 2:
			return myList{x, y}, v, true
		default:
			var none []string
			return none, &val{kind: kList}, true
		}
	case 17: // typed maps
		x := uint32(i64())
		v := &val{kind: kMap, keys: []*val{{kind: kStr, s: "k"}}, list: []*val{num(int64(x))}}
		switch sym.Choose(name+".map", 4) {
		case 0:
			return map[string]uint32{"k": x}, v, true
		case 1:
			return myMap{"k": x}, v, true
		case 2:
			return map[uint8]bool{200: x > 5}, &val{kind: kMap, keys: []*val{{n: 200}}, list: []*val{{kind: kBool, b: x > 5}}}, true
		default:
			var none map[string]int
			return none, &val{kind: kMap}, true
		}
	case 18: // a list of values of any kind
		a0, v0, ok0 := typed(name+".0", depth-1)
		a1, v1, ok1 := typed(name+".1", 0)
		return []any{a0, a1}, &val{kind: kList, list: []*val{v0, v1}}, ok0 && ok1
	default: // a map to values of any kind
		a0, v0, ok0 := typed(name+".0", depth-1)
		k := key(name+".k", false)
		return map[any]any{k.goVal(): a0, "other": true}, &val{kind: kMap, keys: []*val{k, {kind: kStr, s: "other"}}, list: []*val{v0, {kind: kBool, b: true}}}, ok0
	}
}

// H_typed: values of every kind of integer, and of named and composite types, are reported as what they denote.
func H_typed() {
	a, v, ok := typed("v", more(1, 2))
	resp, bad := execute(func(inst any, got []mbt.Arg) (any, error) { return a, nil }, nil)
	sym.Assert(!bad, "a returned value makes the plugin crash")
	if !ok {
		// the protocol cannot express it: anything but another value will do
		if okay(resp) && len(resp.ReturnValues) == 1 {
			_, number := resp.ReturnValues[0].GetKind().(*pb.Value_IntValue)
			sym.Assert(!number, "a number too large for the protocol is reported as another number")
		}
		sym.Cover("too large")
		return
	}
	sym.Assert(okay(resp) && len(resp.ReturnValues) == 1 && isProto(v, resp.ReturnValues[0]), "a returned value is reported as another one")
	sym.Cover("typed")
}

var errAct = errors.New("broken")

// outcome of an action: 0 a value, 1 nothing, 2 not implemented, 3 not implemented (wrapped), 4 an error.
func outcome(name string) int { return sym.Choose(name, 5) }

func result(o int, n int64) (any, error) {
	switch o {
	case 0:
		return n, nil
	case 1:
		return nil, nil
	case 2:
		return nil, mbt.ErrNotImplemented
	case 3:
		return nil, fmt.Errorf("act: %w", mbt.ErrNotImplemented)
	}
	return n, errAct
}

// checkOutcome compares an answer with the action's outcome.
func checkOutcome(o int, n int64, r *pb.ExecuteActionResponse) {
	code := r.GetStatus().GetCode()
	switch o {
	case 0:
		sym.Assert(code == pb.StatusCode_STATUS_OK, "an action that succeeded is reported otherwise")
		sym.Assert(len(r.ReturnValues) == 1 && isProto(&val{n: n}, r.ReturnValues[0]), "an action is reported to return another value")
		sym.Assert(r.ExecTime.GetStartUnixNano() <= r.ExecTime.GetEndUnixNano(), "an action ends before it starts")
	case 1:
		sym.Assert(code == pb.StatusCode_STATUS_OK, "an action that succeeded is reported otherwise")
		sym.Assert(len(r.ReturnValues) == 0, "an action that returns nothing is reported to return a value")
	case 2, 3:
		sym.Assert(code == pb.StatusCode_STATUS_NOT_IMPLEMENTED, "an action that is not implemented is reported otherwise")
		sym.Assert(len(r.ReturnValues) == 0, "an action that is not implemented is reported to return a value")
	default:
		sym.Assert(code == pb.StatusCode_STATUS_EXECUTION_FAILED, "an action that failed is reported otherwise")
		sym.Assert(len(r.ReturnValues) == 0, "an action that failed is reported to return a value")
	}
}

// roleIds are the roles requests are addressed to: the model, three instances that exist, two that do not.
var roleIds = []mbt.RoleId{{}, {RoleName: "A", Index: 0}, {RoleName: "A", Index: 1}, {RoleName: "B", Index: 0}, {RoleName: "B", Index: 1}, {RoleName: "C", Index: 0}}

func ref(id mbt.RoleId) *pb.RoleRef {
	if id.RoleName == "" {
		return nil
	}
	return &pb.RoleRef{RoleName: id.RoleName, RoleId: int32(id.Index)}
}

// called is one call of an action.
type called struct {
	act  string
	inst any
	arg  int64
}

var logged sync.Mutex

// registry has the actions Get and Put of the model and of A, and Get of B; each logs its calls and ends as out says.
func registry(log *[]called, out func(arg int64) (any, error)) actions {
	reg := actions{}
	for _, x := range []struct{ role, act string }{{"", "Get"}, {"", "Put"}, {"A", "Get"}, {"A", "Put"}, {"B", "Get"}} {
		x := x
		if reg[x.role] == nil {
			reg[x.role] = map[string]mbt.ActionFunc{}
		}
		reg[x.role][x.act] = func(inst any, args []mbt.Arg) (any, error) {
			c := called{act: x.role + "." + x.act, inst: inst}
			if len(args) == 1 {
				if n, ok := args[0].Value.(int); ok {
					c.arg = int64(n)
				}
			}
			logged.Lock()
			*log = append(*log, c)
			logged.Unlock()
			return out(c.arg)
		}
	}
	return reg
}

func someModel() (*model, map[mbt.RoleId]mbt.Role) {
	rs := map[mbt.RoleId]mbt.Role{}
	for _, id := range roleIds[1:4] {
		rs[id] = &role{}
	}
	return &model{roles: rs}, rs
}

// H_dispatch: a call runs the action registered for the role addressed, once, on the instance addressed; what
// does not exist is refused.
func H_dispatch() {
	m, rs := someModel()
	o := outcome("outcome")
	n := sym.Int64("value")
	var log []called
	s := mbt.NewFizzBeeMbtPluginServer(nil, m, registry(&log, func(int64) (any, error) { return result(o, n) }))
	id := roleIds[sym.Choose("role", len(roleIds))]
	act := []string{"Get", "Put", "Other"}[sym.Choose("action", 3)]
	arg := sym.Int64("arg")
	exists := id.RoleName == "" || rs[id] != nil
	registered := act == "Get" || act == "Put" && id.RoleName != "B"
	var resp *pb.ExecuteActionResponse
	var err error
	bad := crashed(func() {
		resp, err = s.ExecuteAction(context.Background(), &pb.ExecuteActionRequest{Role: ref(id), ActionName: act,
			Args: []*pb.Arg{{Name: "n", Value: (&val{n: arg}).proto()}}})
	})
	sym.Assert(!bad, "a call makes the plugin crash")
	if !exists || !registered {
		sym.Assert(len(log) == 0, "an action is called that was not asked for")
		sym.Assert(err != nil || resp.GetStatus().GetCode() != pb.StatusCode_STATUS_OK, "a call of something that does not exist is reported to succeed")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil && len(log) == 1, "an action is not called once")
	var want any = m
	if id.RoleName != "" {
		want = rs[id]
	}
	sym.Assert(log[0].inst == want, "an action is called on another role")
	sym.Assert(log[0].act == id.RoleName+"."+act && log[0].arg == arg, "another action, or with other arguments, is called")
	checkOutcome(o, n, resp)
	sym.Cover("called")
}

// H_sequences: every action of every sequence is answered for at its place; an action answered for as done
// was done, once, and in order; a failure is not passed over.
func H_sequences() {
	m, rs := someModel()
	nseq := 1 + sym.Choose("sequences", 2)
	type cmd struct {
		id  mbt.RoleId
		act string
		o   int
		n   int64
	}
	var seqs [][]*cmd
	byArg := map[int64]*cmd{}
	req := &pb.ExecuteActionSequencesRequest{}
	for i := 0; i < nseq; i++ {
		k := 1
		if nseq == 1 {
			k += sym.Choose(fmt.Sprintf("s%d.len3", i), 3)
		} else {
			k += sym.Choose(fmt.Sprintf("s%d.len", i), more(2, 3))
		}
		var cs []*cmd
		ps := &pb.ActionSequence{}
		for j := 0; j < k; j++ {
			nm := fmt.Sprintf("s%d.%d", i, j)
			c := &cmd{id: roleIds[(i+j)%3], act: "Get", o: outcome(nm), n: sym.Int64(nm + ".n")}
			if i == 1 {
				c.act = "Put"
			}
			arg := int64(i*10 + j)
			byArg[arg] = c
			cs = append(cs, c)
			ps.Requests = append(ps.Requests, &pb.ExecuteActionRequest{Role: ref(c.id), ActionName: c.act,
				Args: []*pb.Arg{{Name: "n", Value: (&val{n: arg}).proto()}}})
		}
		seqs = append(seqs, cs)
		req.ActionSequence = append(req.ActionSequence, ps)
	}
	var log []called
	s := mbt.NewFizzBeeMbtPluginServer(nil, m, registry(&log, func(arg int64) (any, error) { return result(byArg[arg].o, byArg[arg].n) }))
	var resp *pb.ExecuteActionSequencesResponse
	var err error
	bad := crashed(func() { resp, err = s.ExecuteActionSequences(context.Background(), req) })
	sym.Assert(!bad, "a call makes the plugin crash")
	count := map[int64]int{}
	last := map[int64]int64{}
	for _, c := range log {
		count[c.arg]++
		i := c.arg / 10
		if l, ok := last[i]; ok {
			sym.Assert(l < c.arg, "the actions of a sequence are called out of order")
		}
		last[i] = c.arg
		x := byArg[c.arg]
		var want any = m
		if x.id.RoleName != "" {
			want = rs[x.id]
		}
		sym.Assert(c.inst == want && c.act == x.id.RoleName+"."+x.act, "an action is called on another role")
		sym.Assert(count[c.arg] == 1, "an action is called twice")
	}
	if err != nil {
		failed := false
		for _, cs := range seqs {
			for _, c := range cs {
				failed = failed || c.o == 4
			}
		}
		sym.Assert(failed, "a call is refused although nothing failed")
		sym.Cover("failed")
		return
	}
	sym.Assert(len(resp.Results) == nseq, "a sequence is not answered for")
	for i, cs := range seqs {
		sym.Assert(len(resp.Results[i].Responses) == len(cs), "an action is not answered for")
		for j, c := range cs {
			r := resp.Results[i].Responses[j]
			if count[int64(i*10+j)] == 0 {
				sym.Assert(r.GetStatus().GetCode() != pb.StatusCode_STATUS_OK, "an action that was not executed is reported to have succeeded")
				continue
			}
			checkOutcome(c.o, c.n, r)
		}
	}
	sym.Cover("sequences")
}

// H_states: every role is reported with its own state, as asked for.
func H_states() {
	n := sym.Choose("roles", 4)
	m := &model{roles: map[mbt.RoleId]mbt.Role{}}
	want := map[mbt.RoleId]*val{}
	fails := false
	for i := 0; i < n; i++ {
		id := []mbt.RoleId{{RoleName: "A", Index: 0}, {RoleName: "A", Index: 1}, {RoleName: "B", Index: 1}}[i]
		nm := fmt.Sprintf("r%d", i)
		x, y := &val{n: sym.Int64(nm)}, &val{n: sym.Int64(nm + ".y")}
		if n == 1 {
			x = value(nm+".x", 1, 1)
		}
		st := map[string]any{"x": x.goVal(), "y": y.goVal()}
		w := &val{kind: kMap, keys: []*val{{kind: kStr, s: "x"}, {kind: kStr, s: "y"}}, list: []*val{x, y}}
		var er error
		switch sym.Choose(nm+".role", 6) {
		case 0:
			m.roles[id] = &role{}
			w = nil
		case 1:
			m.roles[id] = &stateRole{st: st}
		case 2:
			m.roles[id] = &snapRole{st: st}
		case 3:
			m.roles[id] = &bothRole{stateRole: stateRole{st: map[string]any{"x": int64(77)}}, snap: st}
		case 4:
			er = errAct
			fails = true
			m.roles[id] = &stateRole{st: st, er: er}
		default: // nothing known yet
			m.roles[id] = &stateRole{}
			w = nil
		}
		want[id] = w
	}
	if sym.Flip("roles fail") {
		m.rolesErr = errAct
	}
	capture := sym.Flip("capture")
	var code pb.StatusCode
	var refs []*pb.RoleRef
	var states []*pb.RoleState
	var err error
	s := mbt.NewFizzBeeMbtPluginServer(nil, m, actions{"": {"Act": func(any, []mbt.Arg) (any, error) { return nil, nil }}})
	init := sym.Flip("init")
	bad := crashed(func() {
		if init {
			var r *pb.InitResponse
			r, err = s.Init(context.Background(), &pb.InitRequest{Options: &pb.ExecOptions{CaptureState: capture}})
			code, refs, states = r.GetStatus().GetCode(), r.GetRoles(), r.GetRoleStates()
		} else {
			var r *pb.ExecuteActionResponse
			r, err = s.ExecuteAction(context.Background(), &pb.ExecuteActionRequest{ActionName: "Act", Options: &pb.ExecOptions{CaptureState: capture}})
			code, refs, states = r.GetStatus().GetCode(), r.GetRoles(), r.GetRoleStates()
		}
	})
	sym.Assert(!bad, "a role's state makes the plugin crash")
	if m.rolesErr != nil || capture && fails {
		sym.Assert(err != nil || code == pb.StatusCode_STATUS_EXECUTION_FAILED, "a failure to read the roles is passed over")
		sym.Cover("failed")
		return
	}
	sym.Assert(err == nil && code == pb.StatusCode_STATUS_OK, "an action that succeeded is reported otherwise")
	sym.Assert(len(refs) == n, "a role is not reported once")
	seen := map[mbt.RoleId]bool{}
	for _, r := range refs {
		id := mbt.RoleId{RoleName: r.RoleName, Index: int(r.RoleId)}
		_, ok := want[id]
		sym.Assert(ok && !seen[id], "a role is not reported once")
		seen[id] = true
	}
	got := map[mbt.RoleId]bool{}
	for _, r := range states {
		id := mbt.RoleId{RoleName: r.Role.GetRoleName(), Index: int(r.Role.GetRoleId())}
		w := want[id]
		sym.Assert(capture && w != nil && !got[id], "a state is reported that was not asked for")
		got[id] = true
		sym.Assert(len(r.State) == 2 && isProto(w.list[0], r.State["x"]) && isProto(w.list[1], r.State["y"]), "a role is reported with another state")
	}
	for id, w := range want {
		sym.Assert(!capture || w == nil || got[id], "a role's state is not reported")
	}
	sym.Cover("states")
}

// H_lifecycle: starting and ending a test calls the model once and reports how that went.
func H_lifecycle() {
	m, _ := someModel()
	if sym.Flip("init fails") {
		m.initErr = errAct
	}
	if sym.Flip("cleanup fails") {
		m.cleanErr = fmt.Errorf("x: %w", mbt.ErrNotImplemented)
	}
	s := mbt.NewFizzBeeMbtPluginServer(nil, m, actions{})
	var i *pb.InitResponse
	var c *pb.CleanupResponse
	var e1, e2 error
	bad := crashed(func() {
		i, e1 = s.Init(context.Background(), &pb.InitRequest{})
		c, e2 = s.Cleanup(context.Background(), &pb.CleanupRequest{})
	})
	sym.Assert(!bad && e1 == nil && e2 == nil, "starting or ending a test crashes")
	sym.Assert(m.inits == 1 && m.cleans == 1, "the model is not started and ended once")
	sym.Assert((i.GetStatus().GetCode() == pb.StatusCode_STATUS_OK) == (m.initErr == nil), "a failure to start is passed over")
	sym.Assert((c.GetStatus().GetCode() == pb.StatusCode_STATUS_OK) == (m.cleanErr == nil), "a failure to end is passed over")
	sym.Assert(m.initErr != nil || len(i.Roles) == 3 && len(i.RoleStates) == 0, "a role is not reported once")
	sym.Cover("lifecycle")
}
