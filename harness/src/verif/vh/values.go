package vh

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"verif/refps"
)

// Graph structure signatures.
const (
	SigNode    = 0x4E
	SigRel     = 0x52
	SigUnbound = 0x72
	SigPath    = 0x50
)

// IntGen draws integers around every size class.
func IntGen() *rapid.Generator[int64] {
	edges := []int64{0, 1, -1, -15, -16, -17, -18, 126, 127, 128, 129, -127, -128, -129, -130, 255, 256, 32766, 32767, 32768, 32769,
		-32767, -32768, -32769, 65535, 65536, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MinInt32 + 1,
		math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1 << 53, -(1 << 53)}
	return rapid.Custom(func(t *rapid.T) int64 {
		switch rapid.IntRange(0, 3).Draw(t, "ik") {
		case 0:
			return rapid.SampledFrom(edges).Draw(t, "edge")
		case 1:
			return rapid.Int64Range(-200, 200).Draw(t, "small")
		case 2:
			e := rapid.SampledFrom(edges).Draw(t, "edge")
			return e + rapid.Int64Range(-3, 3).Draw(t, "d")
		default:
			return rapid.Int64().Draw(t, "any")
		}
	})
}

// FloatGen draws floats including special values; NaN payloads are kept.
func FloatGen() *rapid.Generator[float64] {
	sp := []float64{0, math.Copysign(0, -1), 1, -1, 1.1, math.Inf(1), math.Inf(-1), math.NaN(), math.Float64frombits(0x7ff8000000000abc),
		math.Float64frombits(0xfff8000000000001), math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 3.25, 1 << 60}
	return rapid.Custom(func(t *rapid.T) float64 {
		if rapid.Bool().Draw(t, "sp") {
			return rapid.SampledFrom(sp).Draw(t, "f")
		}
		return math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
	})
}

// Lens are the collection lengths around every size class.
var Lens = []int{0, 1, 2, 14, 15, 16, 17, 126, 127, 128, 129, 200, 254, 255, 256, 257, 1000, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000}

// SmallLens are the boundary lengths up to 300.
var SmallLens = []int{0, 1, 2, 14, 15, 16, 17, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300}

func pattern(seed uint64, n int) string {
	const al = "abcdefghijklmnopqrstuvwxyz0123456789 _\x00\xff\xc3\xa9\n\"'"
	b := make([]byte, n)
	x := seed | 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = al[x%uint64(len(al))]
	}
	return string(b)
}

// Str draws a string; big allows lengths up to 70000.
func Str(t *rapid.T, label string, big bool) string {
	k := rapid.IntRange(0, 9).Draw(t, label+"k")
	switch {
	case k < 4:
		return rapid.StringN(0, 8, 40).Draw(t, label)
	case k < 6:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, label+"raw"))
	case k == 6 && rapid.Bool().Draw(t, label+"odd"):
		return rapid.SampledFrom([]string{" ", " x", "x ", "\n", "\nRETURN 1\n", "RETURN 1;", "// c", "%s %d %v %!", "begin", "Commit", "ROLLBACK ", "null", "$a", "{a}", "\x00", "\xff\xfe", "\u2028", "\U0001F600", "\ufeffx", "e\u0301"}).Draw(t, label+"fixed")
	case k < 9 || !big:
		n := rapid.SampledFrom(SmallLens).Draw(t, label+"n")
		return pattern(rapid.Uint64().Draw(t, label+"seed"), n)
	default:
		n := rapid.SampledFrom(Lens).Draw(t, label+"n")
		return pattern(rapid.Uint64().Draw(t, label+"seed"), n)
	}
}

// Key draws a map key.
func Key(t *rapid.T) string {
	if rapid.IntRange(0, 7).Draw(t, "keyk") == 0 {
		return Str(t, "key", false)
	}
	return rapid.SampledFrom([]string{"a", "b", "c", "d", "e", "name", "x y", "é", "", "type", "id", "stats", "fields", "code", "message", "0", "a.b", "%s", "k"}).Draw(t, "key")
}

// Meta adds entries that servers send to response metadata.
func Meta(t *rapid.T, m map[string]interface{}) {
	if rapid.IntRange(0, 2).Draw(t, "meta") == 0 {
		return
	}
	for i := rapid.IntRange(1, 3).Draw(t, "nmeta"); i > 0; i-- {
		switch k := rapid.SampledFrom([]string{"type", "result_available_after", "result_consumed_after", "plan", "profile", "notifications", "bookmark", "server", "db"}).Draw(t, "mkey"); k {
		case "type":
			m[k] = rapid.SampledFrom([]interface{}{"r", "rw", "w", "s", "", nil, int64(3)}).Draw(t, "mtype")
		case "result_available_after", "result_consumed_after":
			m[k] = IntGen().Draw(t, "mint")
		case "plan", "profile":
			op := func(c []interface{}) map[string]interface{} {
				return map[string]interface{}{"operatorType": "ProduceResults", "identifiers": []interface{}{"n"}, "args": map[string]interface{}{"EstimatedRows": 1.5}, "children": c}
			}
			m[k] = op([]interface{}{op([]interface{}{}), op([]interface{}{op([]interface{}{})})})
		case "notifications":
			l := []interface{}{}
			for j := rapid.IntRange(0, 3).Draw(t, "nnot"); j > 0; j-- {
				l = append(l, map[string]interface{}{"code": "Neo.ClientNotification.X", "severity": "WARNING", "position": map[string]interface{}{"offset": int64(j), "line": int64(1)}})
			}
			m[k] = l
		default:
			m[k] = Str(t, "mstr", false)
		}
	}
}

// Opt bounds generated values.
type Opt struct {
	Big    bool // allow collections and strings up to 70000 long
	Graph  bool // allow graph structures
	Budget int  // number of generated nodes
	Depth  int
}

// Val draws a value in reference form.
func Val(t *rapid.T, o *Opt) interface{} {
	o.Budget--
	max := 12
	if o.Depth <= 0 || o.Budget <= 0 {
		max = 5
	}
	k := rapid.IntRange(0, max).Draw(t, "kind")
	switch k {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "bool")
	case 2, 3:
		return IntGen().Draw(t, "int")
	case 4:
		return FloatGen().Draw(t, "float")
	case 5:
		return Str(t, "str", o.Big)
	}
	o.Depth--
	defer func() { o.Depth++ }()
	switch {
	case k <= 7:
		return List(t, o)
	case k <= 9 || !o.Graph:
		return Map(t, o)
	}
	return GraphVal(t, o)
}

// List draws a list.
func List(t *rapid.T, o *Opt) []interface{} {
	switch lk := rapid.IntRange(0, 9).Draw(t, "listk"); {
	case lk == 9:
		// boundary length, cheap elements
		lens := SmallLens
		if o.Big && rapid.IntRange(0, 3).Draw(t, "bigl") == 0 {
			lens = Lens
		}
		n := rapid.SampledFrom(lens).Draw(t, "len")
		l := CheapList(n, rapid.Uint64().Draw(t, "seed"))
		if n > 0 {
			for i := rapid.IntRange(0, 2).Draw(t, "special"); i > 0; i-- {
				at := rapid.SampledFrom([]int{0, n - 1, n / 2, n / 3}).Draw(t, "at")
				l[at] = Val(t, o)
			}
		}
		return l
	default:
		n := rapid.IntRange(0, 5).Draw(t, "len")
		l := make([]interface{}, 0, n)
		if lk >= 5 { // elements of one kind
			el := element(t, o, 2)
			for i := 0; i < n; i++ {
				l = append(l, el())
			}
			return l
		}
		for i := 0; i < n; i++ {
			l = append(l, Val(t, o))
		}
		return l
	}
}

// element gives a generator for values of one kind.
func element(t *rapid.T, o *Opt, depth int) func() interface{} {
	max := 5
	if depth > 0 && o.Depth > 0 {
		max = 11
	}
	switch k := rapid.IntRange(0, max).Draw(t, "homo"); { // shrinks to numbers
	case k == 0:
		return func() interface{} { return IntGen().Draw(t, "int") }
	case k == 1:
		r := rapid.SampledFrom([][2]int64{{0, 1<<8 - 1}, {-1 << 7, 1<<7 - 1}, {0, 1<<16 - 1}, {-1 << 15, 1<<15 - 1}, {0, 1<<32 - 1}, {-1 << 31, 1<<31 - 1}, {0, math.MaxInt64}}).Draw(t, "range")
		return func() interface{} {
			if rapid.Bool().Draw(t, "edge") {
				return r[rapid.IntRange(0, 1).Draw(t, "which")]
			}
			return rapid.Int64Range(r[0], r[1]).Draw(t, "int")
		}
	case k == 2:
		return func() interface{} { return Str(t, "str", false) }
	case k == 3:
		return func() interface{} { return FloatGen().Draw(t, "float") }
	case k == 4:
		return func() interface{} { return rapid.Bool().Draw(t, "bool") }
	case k == 5 && o.Graph:
		kind := rapid.IntRange(0, 3).Draw(t, "gkind")
		return func() interface{} { return graphVal(t, o, kind) }
	case k <= 6:
		return func() interface{} { return Map(t, o) }
	default:
		el := element(t, o, depth-1)
		return func() interface{} {
			l := make([]interface{}, rapid.IntRange(0, 3).Draw(t, "inner"))
			for i := range l {
				l[i] = el()
			}
			return l
		}
	}
}

// CheapList builds a list of n small values from a seed.
func CheapList(n int, seed uint64) []interface{} {
	l := make([]interface{}, n)
	for i := range l {
		switch (uint64(i) + seed) % 5 {
		case 0:
			l[i] = int64(i)
		case 1:
			l[i] = int64(i) - int64(seed%70000)
		case 2:
			l[i] = fmt.Sprint("s", i)
		case 3:
			l[i] = i%2 == 0
		default:
			l[i] = float64(i) / 2
		}
	}
	return l
}

// CheapMap builds a map of n small values from a seed.
func CheapMap(n int, seed uint64) map[string]interface{} {
	m := make(map[string]interface{}, n)
	for i := 0; i < n; i++ {
		if (uint64(i)+seed)%3 == 0 {
			m[fmt.Sprint("k", i)] = fmt.Sprint("v", seed%1000, i)
		} else {
			m[fmt.Sprint("k", i)] = int64(i) * int64(seed%100)
		}
	}
	return m
}

// Map draws a map.
func Map(t *rapid.T, o *Opt) map[string]interface{} {
	if rapid.IntRange(0, 9).Draw(t, "mapk") == 9 {
		lens := SmallLens
		if o.Big && rapid.IntRange(0, 5).Draw(t, "bigm") == 0 {
			lens = Lens
		}
		n := rapid.SampledFrom(lens).Draw(t, "len")
		m := CheapMap(n, rapid.Uint64().Draw(t, "seed"))
		for i := rapid.IntRange(0, 2).Draw(t, "special"); i > 0 && n > i; i-- {
			k := Key(t)
			if _, ok := m[k]; !ok {
				delete(m, fmt.Sprint("k", n-i))
			}
			m[k] = Val(t, o)
		}
		return m
	}
	n := rapid.IntRange(0, 4).Draw(t, "len")
	m := make(map[string]interface{}, n)
	for i := 0; i < n; i++ {
		m[Key(t)] = Val(t, o)
	}
	return m
}

func labels(t *rapid.T) []interface{} {
	n := rapid.IntRange(0, 3).Draw(t, "nlabels")
	if rapid.IntRange(0, 30).Draw(t, "manylabels") == 30 {
		n = rapid.SampledFrom(SmallLens).Draw(t, "nlabels2")
	}
	l := make([]interface{}, n)
	for i := range l {
		l[i] = fmt.Sprint("L", i, pattern(uint64(i)+3, i%5))
	}
	return l
}

// GraphVal draws a node, relationship, unbound relationship or path.
func GraphVal(t *rapid.T, o *Opt) refps.Struct {
	return graphVal(t, o, rapid.IntRange(0, 3).Draw(t, "graph"))
}

func graphVal(t *rapid.T, o *Opt, kind int) refps.Struct {
	switch kind {
	case 0:
		return NodeVal(t, o)
	case 1:
		return refps.Struct{Sig: SigRel, Fields: []interface{}{IntGen().Draw(t, "id"), IntGen().Draw(t, "start"), IntGen().Draw(t, "end"), Str(t, "type", false), Map(t, o)}}
	case 2:
		return UnboundVal(t, o)
	}
	many := rapid.IntRange(0, 20).Draw(t, "longpath") == 20
	size := func(max int, label string) int {
		if many && rapid.Bool().Draw(t, label+"many") {
			return rapid.SampledFrom([]int{14, 15, 16, 17, 40}).Draw(t, label+"n")
		}
		return rapid.IntRange(0, max).Draw(t, label)
	}
	n := size(3, "nodes")
	nodes := make([]interface{}, n)
	for i := range nodes {
		nodes[i] = NodeVal(t, o)
	}
	k := size(3, "rels")
	rels := make([]interface{}, k)
	for i := range rels {
		rels[i] = UnboundVal(t, o)
	}
	m := size(4, "seqn")
	seq := make([]interface{}, m)
	for i := range seq {
		seq[i] = IntGen().Draw(t, "seq")
	}
	return refps.Struct{Sig: SigPath, Fields: []interface{}{nodes, rels, seq}}
}

// NodeVal draws a node.
func NodeVal(t *rapid.T, o *Opt) refps.Struct {
	o.Depth--
	defer func() { o.Depth++ }()
	return refps.Struct{Sig: SigNode, Fields: []interface{}{IntGen().Draw(t, "id"), labels(t), Map(t, o)}}
}

// UnboundVal draws an unbound relationship.
func UnboundVal(t *rapid.T, o *Opt) refps.Struct {
	o.Depth--
	defer func() { o.Depth++ }()
	return refps.Struct{Sig: SigUnbound, Fields: []interface{}{IntGen().Draw(t, "id"), Str(t, "type", false), Map(t, o)}}
}

// ToDriver converts a reference value to the driver's normal form.
func ToDriver(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = ToDriver(x[i])
		}
		return l
	case map[string]interface{}:
		return drvMap(x)
	case refps.Struct:
		switch x.Sig {
		case SigNode:
			n := graph.Node{NodeIdentity: x.Fields[0].(int64), Labels: []string{}, Properties: drvMap(x.Fields[2].(map[string]interface{}))}
			for _, l := range x.Fields[1].([]interface{}) {
				n.Labels = append(n.Labels, l.(string))
			}
			return n
		case SigRel:
			return graph.Relationship{RelIdentity: x.Fields[0].(int64), StartNodeIdentity: x.Fields[1].(int64), EndNodeIdentity: x.Fields[2].(int64),
				Type: x.Fields[3].(string), Properties: drvMap(x.Fields[4].(map[string]interface{}))}
		case SigUnbound:
			return graph.UnboundRelationship{RelIdentity: x.Fields[0].(int64), Type: x.Fields[1].(string), Properties: drvMap(x.Fields[2].(map[string]interface{}))}
		case SigPath:
			p := graph.Path{Nodes: []graph.Node{}, Relationships: []graph.UnboundRelationship{}, Sequence: []int{}}
			for _, n := range x.Fields[0].([]interface{}) {
				p.Nodes = append(p.Nodes, ToDriver(n).(graph.Node))
			}
			for _, r := range x.Fields[1].([]interface{}) {
				p.Relationships = append(p.Relationships, ToDriver(r).(graph.UnboundRelationship))
			}
			for _, s := range x.Fields[2].([]interface{}) {
				p.Sequence = append(p.Sequence, int(s.(int64)))
			}
			return p
		}
		panic("ToDriver: unknown structure")
	}
	return v
}

func drvMap(x map[string]interface{}) map[string]interface{} {
	m := make(map[string]interface{}, len(x))
	for k, e := range x {
		m[k] = ToDriver(e)
	}
	return m
}

// FromDriver converts a value the driver returned to reference form. It fails
// on anything that is not in the driver's normal form.
func FromDriver(v interface{}) (interface{}, error) {
	switch x := v.(type) {
	case nil, bool, int64, float64, string:
		return v, nil
	case []interface{}:
		l := make([]interface{}, len(x))
		for i := range x {
			e, err := FromDriver(x[i])
			if err != nil {
				return nil, err
			}
			l[i] = e
		}
		return l, nil
	case map[string]interface{}:
		m := make(map[string]interface{}, len(x))
		for k, e := range x {
			f, err := FromDriver(e)
			if err != nil {
				return nil, err
			}
			m[k] = f
		}
		return m, nil
	case graph.Node:
		p, err := FromDriver(x.Properties)
		return refps.Struct{Sig: SigNode, Fields: []interface{}{x.NodeIdentity, strs(x.Labels), p}}, err
	case graph.Relationship:
		p, err := FromDriver(x.Properties)
		return refps.Struct{Sig: SigRel, Fields: []interface{}{x.RelIdentity, x.StartNodeIdentity, x.EndNodeIdentity, x.Type, p}}, err
	case graph.UnboundRelationship:
		p, err := FromDriver(x.Properties)
		return refps.Struct{Sig: SigUnbound, Fields: []interface{}{x.RelIdentity, x.Type, p}}, err
	case graph.Path:
		nodes := make([]interface{}, len(x.Nodes))
		for i := range nodes {
			n, err := FromDriver(x.Nodes[i])
			if err != nil {
				return nil, err
			}
			nodes[i] = n
		}
		rels := make([]interface{}, len(x.Relationships))
		for i := range rels {
			n, err := FromDriver(x.Relationships[i])
			if err != nil {
				return nil, err
			}
			rels[i] = n
		}
		seq := make([]interface{}, len(x.Sequence))
		for i := range seq {
			seq[i] = int64(x.Sequence[i])
		}
		return refps.Struct{Sig: SigPath, Fields: []interface{}{nodes, rels, seq}}, nil
	}
	return nil, fmt.Errorf("value of type %T is not in normal form", v)
}

func strs(s []string) []interface{} {
	l := make([]interface{}, len(s))
	for i := range s {
		l[i] = s[i]
	}
	return l
}

// Same reports how a driver value differs from a reference value ("" if not).
func Same(got interface{}, want interface{}) string {
	g, err := FromDriver(got)
	if err != nil {
		return err.Error()
	}
	if !refps.Equal(want, g) {
		return fmt.Sprintf("got %s, want %s", Show(g), Show(want))
	}
	return ""
}

// SameRow compares a record.
func SameRow(got, want []interface{}) string {
	if len(got) != len(want) {
		return fmt.Sprintf("row has %d fields, want %d", len(got), len(want))
	}
	for i := range got {
		if d := Same(got[i], want[i]); d != "" {
			return fmt.Sprintf("field %d: %s", i, d)
		}
	}
	return ""
}

// SameMap compares metadata; nil equals empty.
func SameMap(got, want map[string]interface{}) string {
	if len(got) == 0 && len(want) == 0 {
		return ""
	}
	return Same(got, interface{}(want))
}

// Show prints a reference value compactly and deterministically.
func Show(v interface{}) string {
	var b strings.Builder
	show(&b, v)
	s := b.String()
	if len(s) > 600 {
		return s[:600] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

func show(b *strings.Builder, v interface{}) {
	if b.Len() > 4000 {
		return
	}
	switch x := v.(type) {
	case string:
		if len(x) > 48 {
			fmt.Fprintf(b, "str(%d)%q", len(x), x[:16])
			return
		}
		fmt.Fprintf(b, "%q", x)
	case float64:
		fmt.Fprintf(b, "f%v/%x", x, math.Float64bits(x))
	case []interface{}:
		if len(x) > 20 {
			fmt.Fprintf(b, "list(%d)", len(x))
			x = x[:3]
		}
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(' ')
			}
			show(b, e)
		}
		b.WriteByte(']')
	case map[string]interface{}:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if len(x) > 20 {
			fmt.Fprintf(b, "map(%d)", len(x))
			keys = keys[:3]
		}
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(' ')
			}
			show(b, k)
			b.WriteByte(':')
			show(b, x[k])
		}
		b.WriteByte('}')
	case refps.Struct:
		fmt.Fprintf(b, "<%x", x.Sig)
		for _, e := range x.Fields {
			b.WriteByte(' ')
			show(b, e)
		}
		b.WriteByte('>')
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

// Input converts a reference value to one of the Go values the driver accepts
// for it: any integer width that holds it, float32 where exact, typed slices.
func Input(t *rapid.T, v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		var alts []interface{}
		alts = append(alts, x, int(x))
		if x >= math.MinInt8 && x <= math.MaxInt8 {
			alts = append(alts, int8(x))
		}
		if x >= math.MinInt16 && x <= math.MaxInt16 {
			alts = append(alts, int16(x))
		}
		if x >= math.MinInt32 && x <= math.MaxInt32 {
			alts = append(alts, int32(x))
		}
		if x >= 0 {
			alts = append(alts, uint64(x), uint(x))
			if x <= math.MaxUint8 {
				alts = append(alts, uint8(x))
			}
			if x <= math.MaxUint16 {
				alts = append(alts, uint16(x))
			}
			if x <= math.MaxUint32 {
				alts = append(alts, uint32(x))
			}
		}
		return alts[rapid.IntRange(0, len(alts)-1).Draw(t, "itype")]
	case float64:
		if float64(float32(x)) == x && rapid.Bool().Draw(t, "f32") {
			return float32(x)
		}
		return x
	case []interface{}:
		if ts := typedSlice(t, x); ts != nil {
			return ts
		}
		l := make([]interface{}, len(x))
		for i := range x {
			if len(x) > 20 {
				l[i] = ToDriver(x[i])
			} else {
				l[i] = Input(t, x[i])
			}
		}
		return l
	case map[string]interface{}:
		m := make(map[string]interface{}, len(x))
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if len(x) > 20 {
				m[k] = ToDriver(x[k])
			} else {
				m[k] = Input(t, x[k])
			}
		}
		return m
	case refps.Struct:
		d := ToDriver(x)
		if rapid.IntRange(0, 3).Draw(t, "ptr") == 0 { // a pointer will do as well
			switch g := d.(type) {
			case graph.Node:
				return &g
			case graph.Relationship:
				return &g
			case graph.UnboundRelationship:
				return &g
			case graph.Path:
				return &g
			}
		}
		return d
	}
	return v
}

func typedSlice(t *rapid.T, x []interface{}) interface{} {
	if len(x) == 0 {
		switch rapid.IntRange(0, 4).Draw(t, "empty") {
		case 0:
			return []string{}
		case 1:
			return []int(nil)
		case 2:
			return []interface{}(nil)
		}
		return nil
	}
	if rapid.IntRange(0, 3).Draw(t, "untyped") == 0 {
		return nil
	}
	var alts []reflect.Type
	for _, st := range sliceTypes {
		if _, ok := conv(x[0], st.Elem()); ok {
			alts = append(alts, st)
		}
	}
	if len(alts) == 0 {
		return nil
	}
	st := alts[rapid.IntRange(0, len(alts)-1).Draw(t, "slicetype")]
	if s, ok := conv(x, st); ok {
		return s.Interface()
	}
	return nil
}

type (
	namedInts    []int64
	namedStrings []string
	namedAny     []interface{}
)

var sliceTypes = []reflect.Type{
	reflect.TypeOf([]string{}), reflect.TypeOf(namedStrings{}), reflect.TypeOf([]bool{}),
	reflect.TypeOf([]float64{}), reflect.TypeOf([]float32{}),
	reflect.TypeOf([]int64{}), reflect.TypeOf(namedInts{}), reflect.TypeOf([]int{}),
	reflect.TypeOf([]int8{}), reflect.TypeOf([]int16{}), reflect.TypeOf([]int32{}),
	reflect.TypeOf([]uint{}), reflect.TypeOf([]uint8{}), reflect.TypeOf([]uint16{}), reflect.TypeOf([]uint32{}), reflect.TypeOf([]uint64{}),
	reflect.TypeOf([]graph.Node{}), reflect.TypeOf([]*graph.Node{}), reflect.TypeOf([]graph.Relationship{}),
	reflect.TypeOf([]graph.UnboundRelationship{}), reflect.TypeOf([]graph.Path{}), reflect.TypeOf([]structures.Structure{}),
	reflect.TypeOf([]map[string]interface{}{}), reflect.TypeOf(namedAny{}),
	reflect.TypeOf([][]interface{}{}), reflect.TypeOf([][]string{}), reflect.TypeOf([][]int{}), reflect.TypeOf([][]int64{}), reflect.TypeOf([][]float64{}),
}

// conv makes a Go value of the type out of a reference value, if there is one.
func conv(v interface{}, to reflect.Type) (reflect.Value, bool) {
	no := reflect.Value{}
	switch x := v.(type) {
	case string, bool, float64, int64:
		if to.Kind() == reflect.Interface {
			if to.NumMethod() > 0 {
				return no, false
			}
			return reflect.ValueOf(v), true
		}
		switch x := x.(type) {
		case float64:
			if to.Kind() == reflect.Float64 || to.Kind() == reflect.Float32 && float64(float32(x)) == x {
				return reflect.ValueOf(x).Convert(to), true
			}
		case int64:
			z := reflect.New(to).Elem()
			switch {
			case to.Kind() >= reflect.Int && to.Kind() <= reflect.Int64:
				if !z.OverflowInt(x) {
					z.SetInt(x)
					return z, true
				}
			case to.Kind() >= reflect.Uint && to.Kind() <= reflect.Uint64:
				if x >= 0 && !z.OverflowUint(uint64(x)) {
					z.SetUint(uint64(x))
					return z, true
				}
			}
		default:
			if reflect.TypeOf(v) == to {
				return reflect.ValueOf(v), true
			}
		}
		return no, false
	case []interface{}:
		if to.Kind() != reflect.Slice {
			break
		}
		s := reflect.MakeSlice(to, len(x), len(x))
		for i := range x {
			e, ok := conv(x[i], to.Elem())
			if !ok {
				return no, false
			}
			s.Index(i).Set(e)
		}
		return s, true
	case nil:
		if to.Kind() == reflect.Interface && to.NumMethod() == 0 {
			return reflect.Zero(to), true
		}
		return no, false
	}
	d := reflect.ValueOf(ToDriver(v))
	switch {
	case d.Type() == to:
		return d, true
	case to.Kind() == reflect.Ptr && d.Type() == to.Elem():
		p := reflect.New(d.Type())
		p.Elem().Set(d)
		return p, true
	case to.Kind() == reflect.Interface && d.Type().Implements(to):
		return d, true
	}
	return no, false
}

// Classes describes the shape of a reference value for the distribution.
func Classes(v interface{}) []string {
	set := map[string]bool{}
	var walk func(v interface{}, d int)
	lc := func(kind string, n int) {
		switch {
		case n <= 15:
			set[kind+":tiny"] = true
		case n <= 127:
			set[kind+":16-127"] = true
		case n <= 255:
			set[kind+":128-255"] = true
		case n <= 32767:
			set[kind+":256-32767"] = true
		case n <= 65535:
			set[kind+":32768-65535"] = true
		default:
			set[kind+":>65535"] = true
		}
	}
	walk = func(v interface{}, d int) {
		if d > 3 {
			set["depth>3"] = true
		}
		switch x := v.(type) {
		case string:
			lc("string", len(x))
		case int64:
			switch {
			case x >= -16 && x <= 127:
				set["int:tiny"] = true
			case x >= -128 && x <= 127:
				set["int:8"] = true
			case x >= math.MinInt16 && x <= math.MaxInt16:
				set["int:16"] = true
			case x >= math.MinInt32 && x <= math.MaxInt32:
				set["int:32"] = true
			default:
				set["int:64"] = true
			}
		case float64:
			set["float"] = true
		case []interface{}:
			lc("list", len(x))
			for i, e := range x {
				if i > 50 {
					break
				}
				walk(e, d+1)
			}
		case map[string]interface{}:
			lc("map", len(x))
			n := 0
			for k, e := range x {
				if n++; n > 50 {
					break
				}
				lc("string", len(k))
				walk(e, d+1)
			}
		case refps.Struct:
			switch x.Sig {
			case SigNode, SigRel, SigUnbound, SigPath, 0x70, 0x71, 0x7e, 0x7f, 1, 0x10:
				set[fmt.Sprintf("struct:%x", x.Sig)] = true
			default:
				set["struct:other"] = true
			}
			for _, e := range x.Fields {
				walk(e, d+1)
			}
		}
	}
	walk(v, 0)
	out := make([]string, 0, len(set))
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Cypher draws a statement as users write them, with the number in it. Nothing
// in it is of any meaning to a driver.
func Cypher(t *rapid.T, id int) string {
	s := fmt.Sprintf(rapid.SampledFrom([]string{
		"RETURN %d", "RETURN %d", "RETURN %d x",
		"MATCH (n) WHERE n.id = %d RETURN n",
		"MATCH (a:A)-[r:R*1..3]->(b) RETURN a, r, b ORDER BY a.x DESC SKIP 1 LIMIT %d",
		"OPTIONAL MATCH (n {id: %d}) RETURN count(*)",
		"CREATE (n:A {id: %d, k: $k}) RETURN n",
		"CREATE (n:A {id: %d, k: {k}})",
		"MERGE (n:A {id: %d}) ON CREATE SET n.x = 1 ON MATCH SET n.x = n.x + 1",
		"MATCH (n {id: %d}) DETACH DELETE n",
		"MATCH (n {id: %d}) SET n += $k REMOVE n:A",
		"UNWIND [1, 2, %d] AS x RETURN x",
		"WITH %d AS x RETURN x UNION ALL RETURN 2 AS x",
		"CALL db.labels() YIELD label RETURN label, %d",
		"CREATE INDEX ON :A%d(x)",
		"DROP CONSTRAINT ON (n:A%d) ASSERT n.x IS UNIQUE",
		"EXPLAIN RETURN %d", "PROFILE RETURN %d", "CYPHER 3.1 RETURN %d",
		"USING PERIODIC COMMIT %d LOAD CSV WITH HEADERS FROM 'file:///a.csv' AS l CREATE (:A {x: l.x})",
		"START n=node(%d) RETURN n",
		"FOREACH (x IN range(1, %d) | CREATE (:A))",
		"RETURN %d, ?, $1, :x, @y, 'it''s', \"a;b\", 'c\\'d', `e f`",
		"RETURN %d /* a; comment */ + 1 // another",
		"RETURN %d COMMIT", "RETURN %d BEGIN", "RETURN %d 'é'",
		"BEGIN %d", "COMMIT %d", "ROLLBACK %d", ":begin %d", "RETURN '%%s' + %d",
	}).Draw(t, "cypher"), id)
	switch rapid.IntRange(0, 15).Draw(t, "cylook") {
	case 0:
		s = strings.ToLower(s)
	case 1:
		s = "  " + s
	case 2:
		s = "\n\t" + strings.Replace(s, " ", "\n  ", -1) + "\n"
	case 3:
		s += ";"
	case 4:
		s += " ; "
	case 5:
		s += ";" + s
	case 6:
		s = "// " + s + "\n" + s
	case 7:
		s = strings.Replace(s, " ", "  ", -1)
	}
	return s
}

// Typed draws a slice of one of the Go types: what it stands for, and the slice.
func Typed(t *rapid.T, o *Opt) (interface{}, interface{}) {
	st := rapid.SampledFrom(sliceTypes).Draw(t, "type")
	n := rapid.IntRange(0, 6).Draw(t, "len")
	if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
		n = rapid.SampledFrom(SmallLens).Draw(t, "longlen")
	}
	l := make([]interface{}, n)
	for i := range l {
		if i > 6 {
			l[i] = l[(i*i)%7] // the same again
			continue
		}
		l[i] = ofType(t, o, st.Elem())
	}
	s, ok := conv(l, st)
	if !ok {
		panic(fmt.Sprintf("HARNESS: %s isn't a %s", Show(l), st))
	}
	return l, s.Interface()
}

func ofType(t *rapid.T, o *Opt, ty reflect.Type) interface{} {
	switch k := ty.Kind(); {
	case k == reflect.String:
		return Str(t, "str", false)
	case k == reflect.Bool:
		return rapid.Bool().Draw(t, "bool")
	case k == reflect.Float32:
		return float64(math.Float32frombits(rapid.Uint32().Filter(func(b uint32) bool { f := math.Float32frombits(b); return f == f }).Draw(t, "float32")))
	case k == reflect.Float64:
		return FloatGen().Filter(func(f float64) bool { return f == f }).Draw(t, "float")
	case k >= reflect.Int && k <= reflect.Int64:
		edge := int64(1) << uint(ty.Bits()-1)
		if rapid.Bool().Draw(t, "edge") {
			return rapid.SampledFrom([]int64{-edge, -edge + 1, -1, 0, edge - 1, edge/2 - 1, edge / 2, -edge / 2, -edge/2 - 1}).Draw(t, "int")
		}
		return rapid.Int64Range(-edge, edge-1).Draw(t, "int")
	case k >= reflect.Uint && k <= reflect.Uint64:
		top := int64(math.MaxInt64)
		if ty.Bits() < 64 {
			top = int64(1)<<uint(ty.Bits()) - 1
		}
		if rapid.Bool().Draw(t, "edge") {
			return rapid.SampledFrom([]int64{0, 1, top, top - 1, top / 2, top/2 + 1}).Draw(t, "int")
		}
		return rapid.Int64Range(0, top).Draw(t, "int")
	case k == reflect.Map:
		return Map(t, o)
	case k == reflect.Slice:
		l := make([]interface{}, rapid.IntRange(0, 3).Draw(t, "inner"))
		for i := range l {
			l[i] = ofType(t, o, ty.Elem())
		}
		return l
	case k == reflect.Interface && ty.NumMethod() == 0:
		return Val(t, o)
	}
	for k := 0; k < 4; k++ {
		d := reflect.TypeOf(ToDriver(sample[k]))
		if d == ty || ty.Kind() == reflect.Ptr && d == ty.Elem() {
			return graphVal(t, o, k)
		}
	}
	return GraphVal(t, o)
}

var sample = []refps.Struct{
	{Sig: SigNode, Fields: []interface{}{int64(0), []interface{}{}, map[string]interface{}{}}},
	{Sig: SigRel, Fields: []interface{}{int64(0), int64(0), int64(0), "", map[string]interface{}{}}},
	{Sig: SigUnbound, Fields: []interface{}{int64(0), "", map[string]interface{}{}}},
	{Sig: SigPath, Fields: []interface{}{[]interface{}{}, []interface{}{}, []interface{}{}}},
}
