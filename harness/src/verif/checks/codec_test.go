package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"runtime"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
	"verif/refps"
	"verif/vh"
)

func opt(t *rapid.T, big bool) *vh.Opt {
	return &vh.Opt{Big: big, Graph: true, Budget: rapid.IntRange(1, 30).Draw(t, "budget"), Depth: rapid.IntRange(0, 6).Draw(t, "depth")}
}

// boundary draws a value whose dominating collection has a length near a size
// class boundary, wrapped in a few levels.
func boundary(t *rapid.T) interface{} {
	n := rapid.SampledFrom(vh.Lens).Draw(t, "n") + rapid.IntRange(-1, 1).Draw(t, "dn")
	if n < 0 {
		n = 0
	}
	seed := rapid.Uint64().Draw(t, "seed")
	var v interface{}
	switch rapid.IntRange(0, 4).Draw(t, "what") {
	case 0:
		v = strings.Repeat(string(rune('a'+seed%26)), n)
	case 1:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(uint64(i)*31 + seed)
		}
		v = string(b)
	case 2:
		v = vh.CheapList(n, seed)
	case 3:
		v = vh.CheapMap(n, seed)
	default:
		k := strings.Repeat("k", n)
		v = map[string]interface{}{k: int64(n), "z": k}
	}
	for i := rapid.IntRange(0, 3).Draw(t, "wrap"); i > 0; i-- {
		switch rapid.IntRange(0, 3).Draw(t, "wrapk") {
		case 0:
			v = []interface{}{int64(i), v, "after"}
		case 1:
			v = map[string]interface{}{"v": v, "w": int64(-i)}
		case 2:
			m, ok := v.(map[string]interface{})
			if !ok {
				m = map[string]interface{}{"p": v}
			}
			v = refps.Struct{Sig: vh.SigNode, Fields: []interface{}{int64(n), []interface{}{"L"}, m}}
		default:
			m, ok := v.(map[string]interface{})
			if !ok {
				m = map[string]interface{}{"p": v}
			}
			v = refps.Struct{Sig: vh.SigRel, Fields: []interface{}{int64(n), int64(1), int64(-1), "T", m}}
		}
	}
	return v
}

func genValue(t *rapid.T) interface{} {
	if rapid.IntRange(0, 3).Draw(t, "mode") == 0 {
		return boundary(t)
	}
	return vh.Val(t, opt(t, true))
}

// genInput draws a value and a Go value for it.
func genInput(t *rapid.T) (interface{}, interface{}) {
	if rapid.IntRange(0, 5).Draw(t, "typed") != 0 {
		v := genValue(t)
		return v, vh.Input(t, v)
	}
	v, in := vh.Typed(t, opt(t, true))
	for i := rapid.IntRange(0, 2).Draw(t, "wrap"); i > 0; i-- {
		switch rapid.IntRange(0, 2).Draw(t, "wrapk") {
		case 0:
			v, in = map[string]interface{}{"v": v}, map[string]interface{}{"v": in}
		case 1:
			v, in = []interface{}{v, "after"}, []interface{}{in, "after"}
		default:
			v2, in2 := vh.Typed(t, opt(t, true))
			v, in = []interface{}{v2, v}, []interface{}{in2, in}
		}
	}
	return v, in
}

func nontrivialValue(v interface{}) bool {
	switch x := v.(type) {
	case nil, bool:
		return false
	case string:
		return len(x) > 15
	case []interface{}:
		return len(x) > 0
	case map[string]interface{}:
		return len(x) > 0
	}
	return true
}

func TestC01RoundTrip(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		v, in := genInput(t)
		b, err := encoding.Marshal(in)
		if err != nil {
			t.Fatalf("Marshal(%s) failed: %v", vh.Show(v), err)
		}
		got, err := encoding.Unmarshal(b)
		if err != nil {
			t.Fatalf("Unmarshal(Marshal(%s)) failed: %v", vh.Show(v), err)
		}
		if d := vh.Same(got, v); d != "" {
			t.Fatalf("round trip of %s: %s", vh.Show(v), d)
		}
		// the result is itself a value of the same kind: round trip again
		b2, err := encoding.Marshal(got)
		if err != nil {
			t.Fatalf("Marshal of the decoded value failed: %v", err)
		}
		got2, err := encoding.Unmarshal(b2)
		if err != nil || vh.Same(got2, v) != "" {
			t.Fatalf("second round trip of %s: %v %s", vh.Show(v), err, vh.Same(got2, v))
		}
		vh.Note("C01", vh.Show(v), nontrivialValue(v), vh.Classes(v)...)
	})
}

// userStruct is a user-defined structure, which the encoder accepts.
type userStruct struct {
	sig    int
	fields []interface{}
}

func (u userStruct) Signature() int           { return u.sig }
func (u userStruct) AllFields() []interface{} { return u.fields }

// genMessage draws something to encode and its reference form.
func genMessage(t *rapid.T) (interface{}, interface{}) {
	k := rapid.IntRange(0, 11).Draw(t, "msg")
	o := opt(t, true)
	toMap := func(v map[string]interface{}) map[string]interface{} {
		return vh.Input(t, v).(map[string]interface{})
	}
	switch k {
	case 0:
		user, pw := vh.Str(t, "user", false), vh.Str(t, "pw", false)
		auth := map[string]interface{}{"scheme": "none"}
		if user != "" {
			auth = map[string]interface{}{"scheme": "basic", "principal": user, "credentials": pw}
		}
		name := vh.Str(t, "client", false)
		return messages.NewInitMessage(name, user, pw), refps.Struct{Sig: 1, Fields: []interface{}{name, auth}}
	case 1, 2:
		q := vh.Str(t, "query", true)
		p := vh.Map(t, o)
		return messages.NewRunMessage(q, toMap(p)), refps.Struct{Sig: 0x10, Fields: []interface{}{q, p}}
	case 3:
		m := vh.Map(t, o)
		return messages.NewSuccessMessage(toMap(m)), refps.Struct{Sig: 0x70, Fields: []interface{}{m}}
	case 4:
		m := vh.Map(t, o)
		return messages.NewFailureMessage(toMap(m)), refps.Struct{Sig: 0x7f, Fields: []interface{}{m}}
	case 5:
		l := vh.List(t, o)
		in := make([]interface{}, len(l))
		for i := range l {
			in[i] = vh.ToDriver(l[i])
		}
		return messages.NewRecordMessage(in), refps.Struct{Sig: 0x71, Fields: []interface{}{l}}
	case 6:
		alts := []struct {
			m interface{}
			s byte
		}{{messages.NewPullAllMessage(), 0x3f}, {messages.NewDiscardAllMessage(), 0x2f}, {messages.NewAckFailureMessage(), 0x0e}, {messages.NewResetMessage(), 0x0f}, {messages.NewIgnoredMessage(), 0x7e}}
		a := alts[rapid.IntRange(0, len(alts)-1).Draw(t, "simple")]
		return a.m, refps.Struct{Sig: a.s}
	case 7:
		n := rapid.SampledFrom([]int{0, 1, 3, 14, 15, 16, 17, 127, 128, 200, 255, 256, 257, 33000, 65535}).Draw(t, "nf")
		l := vh.CheapList(n, rapid.Uint64().Draw(t, "seed"))
		sig := byte(rapid.IntRange(0, 255).Draw(t, "sig"))
		return userStruct{int(sig), l}, refps.Struct{Sig: sig, Fields: l}
	}
	v, in := genInput(t)
	return in, v
}

func genChunkSize(t *rapid.T) uint16 {
	switch rapid.IntRange(0, 3).Draw(t, "ck") {
	case 0:
		return rapid.SampledFrom([]uint16{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65534, 65535, 0}).Draw(t, "chunk")
	case 1:
		return uint16(rapid.IntRange(1, 64).Draw(t, "chunk"))
	default:
		return uint16(rapid.IntRange(1, 65535).Draw(t, "chunk"))
	}
}

// lastChunk is the largest final chunk the listed finding C02-last-chunk
// accounts for: a value of its own that doesn't fit a chunk has just one chunk
// cut off it, and what exceeds that stays in the buffer. Where every value fits
// a chunk the limit holds for all chunks.
func lastChunk(v interface{}, max int) int {
	excess := 0
	var walk func(v interface{})
	add := func(n int) {
		if n > max {
			excess += n - max
		}
	}
	head := func(n int) {
		switch {
		case n < 16:
			add(1)
		case n < 256:
			add(2)
		case n < 65536:
			add(3)
		default:
			add(5)
		}
	}
	walk = func(v interface{}) {
		switch x := v.(type) {
		case []interface{}:
			head(len(x))
			for _, y := range x {
				walk(y)
			}
		case map[string]interface{}:
			head(len(x))
			for k, y := range x {
				walk(k)
				walk(y)
			}
		case refps.Struct:
			add(2)
			for _, y := range x.Fields {
				walk(y)
			}
		default:
			add(len(refps.Encode(nil, x, refps.Minimal{})))
		}
	}
	walk(v)
	if excess == 0 {
		return max
	}
	return max - 1 + excess
}

// checkFraming judges encoder output. known counts messages whose final chunk
// exceeds the configured maximum, the listed finding C02-last-chunk.
func checkFraming(b []byte, chunk uint16, want []interface{}, known *int) string {
	max := int(chunk)
	if max == 0 {
		max = 65535
	}
	msgs, rest := refps.Deframe(b)
	if len(rest) != 0 {
		return fmt.Sprintf("output does not end with a complete message: %d bytes left over", len(rest))
	}
	if len(msgs) != len(want) {
		return fmt.Sprintf("%d messages in the output, want %d", len(msgs), len(want))
	}
	for i, m := range msgs {
		for j, c := range m.Chunks {
			if c > max && j == len(m.Chunks)-1 && c <= lastChunk(want[i], max) && vh.Known("C02-last-chunk") {
				*known++
			} else if c > max {
				return fmt.Sprintf("message %d chunk %d has %d bytes, maximum is %d", i, j, c, max)
			}
		}
		v, info, err := refps.Decode(m.Payload)
		if err != nil {
			return fmt.Sprintf("message %d is not valid: %v", i, err)
		}
		if !refps.Equal(v, want[i]) {
			return fmt.Sprintf("message %d is %s, want %s", i, vh.Show(v), vh.Show(want[i]))
		}
		if len(info.NonMinimal) > 0 {
			return fmt.Sprintf("message %d is not minimal: %s", i, info.NonMinimal[0])
		}
	}
	return ""
}

func TestC02Wire(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		n := rapid.IntRange(1, 3).Draw(t, "msgs")
		chunk := genChunkSize(t)
		known, refused := 0, 0
		var buf bytes.Buffer
		enc := encoding.NewEncoder(&buf, chunk)
		var want []interface{}
		for i := 0; i < n; i++ {
			in, ref := genMessage(t)
			if err := enc.Encode(in); err != nil {
				t.Fatalf("Encode(%s) with chunk size %d failed: %v", vh.Show(ref), chunk, err)
			}
			want = append(want, ref)
			if rapid.IntRange(0, 4).Draw(t, "refused") == 0 {
				// a value that is refused leaves nothing behind in the encoder
				bad := []interface{}{vh.Str(t, "before", true), rapid.IntRange(-100, 100).Draw(t, "before2"), make(chan int)}
				if rapid.Bool().Draw(t, "asmap") {
					bad[2] = map[string]interface{}{"bad": struct{}{}}
				}
				have := buf.Len()
				if err := enc.Encode(bad); err == nil || buf.Len() != have {
					t.Fatalf("encoding a value of an unsupported type with chunk size %d wrote %d bytes and returned %v", chunk, buf.Len()-have, err)
				}
				refused++
			}
			if i == 0 {
				mb, err := encoding.Marshal(in)
				if err != nil {
					t.Fatalf("Marshal(%s) failed: %v", vh.Show(ref), err)
				}
				if d := checkFraming(mb, 65535, []interface{}{ref}, &known); d != "" {
					t.Fatalf("Marshal(%s): %s", vh.Show(ref), d)
				}
			}
		}
		if d := checkFraming(buf.Bytes(), chunk, want, &known); d != "" {
			t.Fatalf("chunk size %d, values %s: %s", chunk, vh.Show(want), d)
		}
		msgs, _ := refps.Deframe(buf.Bytes())
		multi := 0
		for _, m := range msgs {
			if len(m.Chunks) > multi {
				multi = len(m.Chunks)
			}
		}
		cl := vh.Classes(want)
		if known > 0 {
			cl = append(cl, "known:C02-last-chunk")
		}
		if refused > 0 {
			cl = append(cl, "refused-before")
		}
		switch {
		case multi > 2:
			cl = append(cl, "chunks>2")
		case multi == 2:
			cl = append(cl, "chunks=2")
		}
		vh.Note("C02", fmt.Sprint(chunk, " ", vh.Show(want)), multi > 1 || nontrivialValue(want[0]), cl...)
	})
}

// frag delivers bytes in pieces of chosen sizes and counts what was taken.
type frag struct {
	b        []byte
	off      int
	r        *prng
	mode     int
	withEOF  bool
	zeroRuns int
}

func (f *frag) Read(p []byte) (int, error) {
	if f.off == len(f.b) {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if n > len(f.b)-f.off {
		n = len(f.b) - f.off
	}
	switch f.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + f.r.Choose(n)
	case 3:
		if k := 1 + f.r.Choose(9); k < n {
			n = k
		}
	case 4:
		if f.zeroRuns < 2 && f.r.Choose(3) == 0 {
			f.zeroRuns++
			return 0, nil
		}
		f.zeroRuns = 0
		n = 1 + f.r.Choose(n)
	}
	copy(p, f.b[f.off:f.off+n])
	f.off += n
	if f.withEOF && f.off == len(f.b) {
		return n, io.EOF
	}
	return n, nil
}

// sameMessage compares a decoded message or value with its reference form.
func sameMessage(got interface{}, want interface{}) string {
	s, ok := want.(refps.Struct)
	if ok {
		switch s.Sig {
		case 0x70:
			m, ok := got.(messages.SuccessMessage)
			if !ok {
				return fmt.Sprintf("got %T, want SUCCESS", got)
			}
			return vh.Same(m.Metadata, s.Fields[0])
		case 0x7f:
			m, ok := got.(messages.FailureMessage)
			if !ok {
				return fmt.Sprintf("got %T, want FAILURE", got)
			}
			return vh.Same(m.Metadata, s.Fields[0])
		case 0x71:
			m, ok := got.(messages.RecordMessage)
			if !ok {
				return fmt.Sprintf("got %T, want RECORD", got)
			}
			return vh.Same(m.Fields, s.Fields[0])
		case 0x7e:
			if _, ok := got.(messages.IgnoredMessage); !ok {
				return fmt.Sprintf("got %T, want IGNORED", got)
			}
			return ""
		}
	}
	return vh.Same(got, want)
}

func genServerMessage(t *rapid.T) interface{} {
	switch rapid.IntRange(0, 5).Draw(t, "smsg") {
	case 0:
		return refps.Struct{Sig: 0x70, Fields: []interface{}{vh.Map(t, opt(t, true))}}
	case 1:
		return refps.Struct{Sig: 0x71, Fields: []interface{}{vh.List(t, opt(t, true))}}
	case 2:
		if rapid.Bool().Draw(t, "ign") {
			s := refps.Struct{Sig: 0x7e}
			if rapid.Bool().Draw(t, "ignmeta") { // the specification gives it metadata, servers send none
				s.Fields = []interface{}{vh.Map(t, opt(t, true))}
			}
			return s
		}
		return refps.Struct{Sig: 0x7f, Fields: []interface{}{vh.Map(t, opt(t, true))}}
	}
	return genValue(t)
}

func nest(v interface{}, n int, kind int) interface{} {
	for i := 0; i < n; i++ {
		if kind == 0 || (kind == 2 && i%2 == 0) {
			v = []interface{}{v}
		} else {
			v = map[string]interface{}{"n": v}
		}
	}
	return v
}

func TestC03AnyEncoding(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		n := rapid.IntRange(1, 4).Draw(t, "msgs")
		r := &prng{rapid.Uint64().Draw(t, "choices")}
		wide := rapid.IntRange(0, 2).Draw(t, "wide")
		split := rapid.IntRange(0, 2).Draw(t, "split")
		var stream []byte
		var ends []int
		var want []interface{}
		for i := 0; i < n; i++ {
			v := genServerMessage(t)
			if rapid.IntRange(0, 40).Draw(t, "deep") == 40 {
				v = nest(v, rapid.IntRange(50, 2000).Draw(t, "nest"), rapid.IntRange(0, 2).Draw(t, "nestk"))
				if s, ok := v.(refps.Struct); ok && s.Sig >= 0x70 && s.Sig != 0x72 {
					v = int64(1)
				}
				if containsMessage(v) {
					v = nest(int64(7), 300, 2)
				}
			}
			var ch refps.Chooser = refps.Minimal{}
			if wide > 0 {
				ch = r
			}
			p := refps.Encode(nil, v, ch)
			ch = refps.Minimal{}
			if split > 0 {
				ch = r
			}
			max := 0
			if split == 2 {
				max = rapid.SampledFrom([]int{1, 2, 3, 5, 16, 100, 255, 4096}).Draw(t, "max")
			}
			stream = refps.Chunk(stream, p, max, ch)
			ends = append(ends, len(stream))
			want = append(want, v)
		}
		rd := &frag{b: stream, r: r, mode: rapid.IntRange(0, 4).Draw(t, "fragmode"), withEOF: rapid.Bool().Draw(t, "witheof")}
		one := rapid.Bool().Draw(t, "onedecoder")
		dec := encoding.NewDecoder(rd)
		for i := range want {
			if !one {
				dec = encoding.NewDecoder(rd)
			}
			got, err := dec.Decode()
			if err != nil {
				t.Fatalf("message %d of %d (%s): Decode failed: %v", i, n, vh.Show(want[i]), err)
			}
			if d := sameMessage(got, want[i]); d != "" {
				t.Fatalf("message %d of %d: %s", i, n, d)
			}
			if rd.off != ends[i] {
				t.Fatalf("message %d of %d ends at byte %d but decoding it took %d bytes", i, n, ends[i], rd.off)
			}
		}
		if v, err := dec.Decode(); err == nil {
			t.Fatalf("decoding past the last message returned %v", v)
		}
		cl := append(vh.Classes(want), fmt.Sprintf("frag:%d", rd.mode), fmt.Sprintf("msgs:%d", n), fmt.Sprintf("wide:%d split:%d", wide, split))
		vh.Note("C03", fmt.Sprintf("frag=%d split=%d wide=%d %s", rd.mode, split, wide, vh.Show(want)), n > 1 || rd.mode > 0 || wide > 0 || split > 0, cl...)
	})
}

func containsMessage(v interface{}) bool {
	switch x := v.(type) {
	case []interface{}:
		for _, e := range x {
			if containsMessage(e) {
				return true
			}
		}
	case map[string]interface{}:
		for _, e := range x {
			if containsMessage(e) {
				return true
			}
		}
	case refps.Struct:
		switch x.Sig {
		case 0x4e, 0x52, 0x72, 0x50:
			for _, e := range x.Fields {
				if containsMessage(e) {
					return true
				}
			}
			return false
		}
		return true
	}
	return false
}

// verdict of the reference on a message payload
const (
	mustDecode = iota
	mustFail
	either
)

// wellTyped reports whether all structures are known and have the right fields.
// top tells that v is the message itself.
func wellTyped(v interface{}, top bool) int {
	res := mustDecode
	join := func(x int) {
		if x == mustFail || res == mustFail {
			res = mustFail
		} else if x == either {
			res = either
		}
	}
	isInt := func(v interface{}) bool { _, ok := v.(int64); return ok }
	isStr := func(v interface{}) bool { _, ok := v.(string); return ok }
	isMap := func(v interface{}) bool { _, ok := v.(map[string]interface{}); return ok }
	all := func(v interface{}, f func(interface{}) bool) bool {
		l, ok := v.([]interface{})
		if !ok {
			return false
		}
		for _, e := range l {
			if !f(e) {
				return false
			}
		}
		return true
	}
	isSig := func(sig byte) func(interface{}) bool {
		return func(v interface{}) bool { s, ok := v.(refps.Struct); return ok && s.Sig == sig }
	}
	switch x := v.(type) {
	case []interface{}:
		for _, e := range x {
			join(wellTyped(e, false))
		}
	case map[string]interface{}:
		for _, e := range x {
			join(wellTyped(e, false))
		}
	case refps.Struct:
		for _, e := range x.Fields {
			join(wellTyped(e, false))
		}
		f := x.Fields
		bad := false
		switch x.Sig {
		case vh.SigNode:
			bad = len(f) != 3 || !isInt(f[0]) || !all(f[1], isStr) || !isMap(f[2])
		case vh.SigRel:
			bad = len(f) != 5 || !isInt(f[0]) || !isInt(f[1]) || !isInt(f[2]) || !isStr(f[3]) || !isMap(f[4])
		case vh.SigUnbound:
			bad = len(f) != 3 || !isInt(f[0]) || !isStr(f[1]) || !isMap(f[2])
		case vh.SigPath:
			bad = len(f) != 3 || !all(f[0], isSig(vh.SigNode)) || !all(f[1], isSig(vh.SigUnbound)) || !all(f[2], isInt)
		case 0x70, 0x7f:
			bad = len(f) != 1 || !isMap(f[0])
			if !top {
				join(either)
			}
		case 0x71:
			bad = len(f) != 1
			if !bad {
				_, ok := f[0].([]interface{})
				bad = !ok
			}
			if !top {
				join(either)
			}
		case 0x7e:
			if !top || len(f) > 0 {
				join(either)
			}
		case 0x0e, 0x0f, 0x2f, 0x3f:
			// requests: a client never receives them; the driver may or may not know them
			join(either)
		case 0x01, 0x10:
			join(either)
		default:
			bad = true
		}
		if bad {
			join(mustFail)
		}
	}
	return res
}

func judge(payload []byte) (int, interface{}) {
	v, info, err := refps.DecodePrefix(payload)
	if err != nil {
		if e, ok := err.(*refps.Error); ok && e.Kind == refps.TooDeep {
			return either, nil
		}
		return mustFail, nil
	}
	w := wellTyped(v, true)
	if w == mustDecode && (info.Used != len(payload) || info.DupKeys) {
		// trailing bytes, duplicate keys: not covered by the property
		return either, v
	}
	return w, v
}

// malformed payload generators
func genPayload(t *rapid.T) ([]byte, string) {
	kind := rapid.IntRange(0, 9).Draw(t, "pk")
	r := &prng{rapid.Uint64().Draw(t, "choices")}
	base := func() []byte {
		v := genSmallMessage(t)
		var ch refps.Chooser = refps.Minimal{}
		if rapid.Bool().Draw(t, "wide") {
			ch = r
		}
		return refps.Encode(nil, v, ch)
	}
	switch kind {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"), "random"
	case 1, 2:
		p := base()
		return p[:rapid.IntRange(0, len(p)).Draw(t, "cut")], "truncated"
	case 3:
		p := base()
		if len(p) > 0 {
			i := rapid.IntRange(0, len(p)-1).Draw(t, "at")
			p[i] = rapid.Byte().Draw(t, "byte")
		}
		return p, "mutated"
	case 4:
		p := base()
		if len(p) > 0 {
			i := rapid.IntRange(0, len(p)-1).Draw(t, "at")
			p[i] = rapid.SampledFrom([]byte{0xC0, 0xC1, 0xC4, 0xC7, 0xC8, 0xC9, 0xCA, 0xCB, 0xCC, 0xCF, 0xD0, 0xD1, 0xD2, 0xD3, 0xD4, 0xD5, 0xD6, 0xD7, 0xD8, 0xD9, 0xDA, 0xDB, 0xDC, 0xDD, 0xDE, 0xDF, 0xE0, 0xEF,
				0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xFF, 0xF0, 0x7F}).Draw(t, "marker")
		}
		return p, "marker"
	case 5:
		p := base()
		i := rapid.IntRange(0, len(p)).Draw(t, "at")
		ins := rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "ins")
		p = append(append(append([]byte{}, p[:i]...), ins...), p[i:]...)
		return p, "inserted"
	case 6:
		p := base()
		if len(p) > 0 {
			i := rapid.IntRange(0, len(p)-1).Draw(t, "at")
			j := i + rapid.IntRange(1, 4).Draw(t, "n")
			if j > len(p) {
				j = len(p)
			}
			p = append(append([]byte{}, p[:i]...), p[j:]...)
		}
		return p, "deleted"
	case 7:
		// a length prefix larger than what follows
		var sz []byte
		m := rapid.SampledFrom([]byte{0x8F, 0x9F, 0xAF, 0xD0, 0xD1, 0xD2, 0xD4, 0xD5, 0xD6, 0xD8, 0xD9, 0xDA}).Draw(t, "marker")
		var pre []byte
		for i := rapid.IntRange(0, 3).Draw(t, "pre"); i > 0; i-- {
			pre = append(pre, rapid.SampledFrom([]byte{0x91, 0x92, 0xD4}).Draw(t, "prem"))
			if pre[len(pre)-1] == 0xD4 {
				pre = append(pre, 0x02)
			}
		}
		switch {
		case m < 0xD0:
		case m&3 == 0:
			sz = []byte{rapid.SampledFrom([]byte{0x10, 0x7F, 0x80, 0x81, 0xC8, 0xFF, 0x01}).Draw(t, "s8")}
		case m&3 == 1:
			sz = binary.BigEndian.AppendUint16(nil, rapid.SampledFrom([]uint16{0x100, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 3}).Draw(t, "s16"))
		default:
			vals := []uint32{0x10000, 0x10000, 1 << 20, 1 << 22, 1 << 24, 1 << 20, 1 << 21, 1 << 23, 5, 0x10001}
			if m == 0xD2 || rapid.IntRange(0, 9).Draw(t, "neg") == 9 {
				vals = append(vals, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x80000001)
			}
			sz = binary.BigEndian.AppendUint32(nil, rapid.SampledFrom(vals).Draw(t, "s32"))
		}
		body := rapid.SliceOfN(rapid.SampledFrom([]byte{0x01, 0x81, 'a', 0xC0, 0x90, 0xA0, 0xC3}), 0, 12).Draw(t, "body")
		return append(append(append(pre, m), sz...), body...), "oversized"
	case 8:
		return refps.Encode(nil, genConfused(t), r), "confused"
	default:
		// non-string key
		var b []byte
		b = append(b, 0xA1)
		b = refps.Encode(b, vh.Val(t, opt(t, false)), refps.Minimal{})
		b = refps.Encode(b, int64(1), refps.Minimal{})
		if rapid.Bool().Draw(t, "insucc") {
			b = append([]byte{0xB1, 0x70}, b...)
		}
		return b, "badkey"
	}
}

func genSmallMessage(t *rapid.T) interface{} {
	o := func() *vh.Opt { return &vh.Opt{Graph: true, Budget: 10, Depth: 3} }
	switch rapid.IntRange(0, 4).Draw(t, "smsg") {
	case 0:
		return refps.Struct{Sig: 0x70, Fields: []interface{}{vh.Map(t, o())}}
	case 1:
		return refps.Struct{Sig: 0x71, Fields: []interface{}{vh.List(t, o())}}
	case 2:
		return refps.Struct{Sig: 0x7f, Fields: []interface{}{vh.Map(t, o())}}
	case 3:
		return vh.GraphVal(t, o())
	}
	return vh.Val(t, o())
}

// genConfused draws a structure with fields of wrong types, numbers or an
// unknown signature, possibly nested.
func genConfused(t *rapid.T) interface{} {
	o := &vh.Opt{Graph: true, Budget: 8, Depth: 2}
	var s refps.Struct
	switch rapid.IntRange(0, 2).Draw(t, "ck") {
	case 0:
		s = vh.GraphVal(t, o)
		if len(s.Fields) > 0 {
			i := rapid.IntRange(0, len(s.Fields)-1).Draw(t, "field")
			if l, ok := s.Fields[i].([]interface{}); ok && len(l) > 0 && rapid.Bool().Draw(t, "inlist") {
				l[rapid.IntRange(0, len(l)-1).Draw(t, "li")] = vh.Val(t, o)
			} else {
				s.Fields[i] = vh.Val(t, o)
			}
		}
	case 1:
		s.Sig = rapid.SampledFrom([]byte{0x4e, 0x52, 0x72, 0x50, 0x70, 0x71, 0x7e, 0x7f, 0x0e, 0x0f, 0x2f, 0x3f, 0x01, 0x10, 0x00, 0xff, 0x42}).Draw(t, "sig")
		for i := rapid.IntRange(0, 6).Draw(t, "nf"); i > 0; i-- {
			s.Fields = append(s.Fields, vh.Val(t, o))
		}
	default:
		s = vh.GraphVal(t, o)
		if rapid.Bool().Draw(t, "more") {
			s.Fields = append(s.Fields, vh.Val(t, o))
		} else {
			s.Fields = s.Fields[:rapid.IntRange(0, len(s.Fields)-1).Draw(t, "fewer")]
		}
	}
	var v interface{} = s
	if rapid.Bool().Draw(t, "wrap") {
		v = []interface{}{v, int64(1)}
	}
	if rapid.Bool().Draw(t, "rec") {
		v = refps.Struct{Sig: 0x71, Fields: []interface{}{[]interface{}{v}}}
	}
	return v
}

func memAllocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func TestC04Malformed(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		payload, kind := genPayload(t)
		r := &prng{rapid.Uint64().Draw(t, "chunks")}
		var ch refps.Chooser = refps.Minimal{}
		if rapid.Bool().Draw(t, "split") {
			ch = r
		}
		stream := refps.Chunk(nil, payload, 0, ch)
		verdict, want := judge(payload)
		cutStream := false
		switch rapid.IntRange(0, 5).Draw(t, "framefault") {
		case 0:
			// the stream ends inside the message
			n := rapid.IntRange(0, len(stream)-1).Draw(t, "streamcut")
			stream = stream[:n]
			verdict, cutStream = mustFail, true
			kind = "stream-cut"
		}
		desc := fmt.Sprintf("%s % x", kind, stream)
		vh.Last("C04 " + desc)
		var got interface{}
		var err error
		viaUnmarshal := rapid.Bool().Draw(t, "unmarshal")
		before := memAllocated()
		o := vh.Guard(nil, func() {
			if viaUnmarshal {
				got, err = encoding.Unmarshal(stream)
			} else {
				got, err = encoding.NewDecoder(&frag{b: stream, r: r, mode: 2}).Decode()
			}
		})
		if b := o.Bad(); b != "" {
			t.Fatalf("decoding %s: %s", desc, b)
		}
		used := memAllocated() - before
		if limit := uint64(8<<20) + 2000*uint64(len(stream)); used > limit {
			t.Fatalf("decoding %d bytes allocated %d bytes (%s)", len(stream), used, desc)
		}
		if err == io.EOF {
			t.Fatalf("decoding %s returned the plain end-of-stream marker", desc)
		}
		switch verdict {
		case mustFail:
			if err == nil {
				t.Fatalf("decoding %s returned %#v without an error", desc, got)
			}
		case mustDecode:
			if err != nil {
				t.Fatalf("decoding the valid message %s failed: %v", desc, err)
			}
			if d := sameMessage(got, want); d != "" {
				t.Fatalf("decoding %s: %s", desc, d)
			}
		}
		_ = cutStream
		vh.Note("C04", desc, verdict == mustFail, kind, fmt.Sprint("verdict:", verdict))
	})
}

// TestC04EveryCut cuts one message at every byte, both as a stream and as a
// properly framed payload, and mutates every byte to every boundary marker.
func TestC04EveryCut(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		v := genSmallMessage(t)
		r := &prng{rapid.Uint64().Draw(t, "choices")}
		var ch refps.Chooser = refps.Minimal{}
		if rapid.Bool().Draw(t, "wide") {
			ch = r
		}
		p := refps.Encode(nil, v, ch)
		if len(p) > 400 {
			p = p[:400]
		}
		try := func(stream []byte, verdict int, want interface{}, what string) {
			vh.Last("C04 " + what + fmt.Sprintf(" % x", stream))
			var got interface{}
			var err error
			if o := vh.Guard(nil, func() { got, err = encoding.Unmarshal(stream) }); o.Bad() != "" {
				t.Fatalf("%s % x: %s", what, stream, o.Bad())
			}
			if err == io.EOF {
				t.Fatalf("%s % x: plain end-of-stream marker", what, stream)
			}
			if verdict == mustFail && err == nil {
				t.Fatalf("%s % x: returned %#v without an error", what, stream, got)
			}
			if verdict == mustDecode {
				if err != nil {
					t.Fatalf("%s % x: failed: %v", what, stream, err)
				}
				if d := sameMessage(got, want); d != "" {
					t.Fatalf("%s % x: %s", what, stream, d)
				}
			}
			vh.Note("C04", fmt.Sprintf("%s % x", what, stream), verdict == mustFail, "exhaustive-"+strings.Fields(what)[0])
		}
		stream := refps.Chunk(nil, p, 0, refps.Minimal{})
		for i := 0; i < len(stream); i++ {
			try(stream[:i], mustFail, nil, "stream-cut")
		}
		for i := 0; i < len(p); i++ {
			q := p[:i]
			verdict, want := judge(q)
			try(refps.Chunk(nil, q, 0, refps.Minimal{}), verdict, want, "payload-cut")
		}
		at := rapid.IntRange(0, len(p)-1).Draw(t, "at")
		for b := 0; b < 256; b++ {
			q := append([]byte(nil), p...)
			q[at] = byte(b)
			if (b == 0xD6 || b == 0xDA) && at+1 < len(q) && q[at+1] > 0 {
				continue // list or map lengths beyond 2^24: only in the random check
			}
			verdict, want := judge(q)
			try(refps.Chunk(nil, q, 0, refps.Minimal{}), verdict, want, "byte-set")
		}
	})
}

// A value nested n levels deep, or what a decoder made of it.
func deepValue(n, kind int) interface{} {
	var v interface{}
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			v = []interface{}{v}
		case 1:
			v = map[string]interface{}{"": v}
		}
	}
	return v
}

func isDeep(v interface{}, n int) bool {
	for ; n > 0; n-- {
		switch x := v.(type) {
		case []interface{}:
			if len(x) != 1 {
				return false
			}
			v = x[0]
		case map[string]interface{}:
			y, ok := x[""]
			if !ok || len(x) != 1 {
				return false
			}
			v = y
		default:
			return false
		}
	}
	return v == nil
}

func genDepth(t *rapid.T) int {
	n := rapid.SampledFrom([]int{10, 1000, 20000, 100000, 100000, 150000}).Draw(t, "n")
	return n + rapid.IntRange(-3, 3).Draw(t, "off")
}

// However deep a value is nested, it is encoded as it is or refused.
func TestC02Deep(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		n, kind, chunk := genDepth(t), rapid.IntRange(0, 1).Draw(t, "kind"), genChunkSize(t)
		desc := fmt.Sprintf("%d levels of kind %d, chunk size %d", n, kind, chunk)
		vh.Last("C02 " + desc)
		var buf bytes.Buffer
		var err error
		o := vh.Guard(nil, func() { err = encoding.NewEncoder(&buf, chunk).Encode(deepValue(n, kind)) })
		if o.Bad() != "" {
			t.Fatalf("%s: %s", desc, o.Bad())
		}
		if err != nil {
			if buf.Len() > 0 {
				t.Fatalf("%s: refused after writing %d bytes", desc, buf.Len())
			}
			if n < 1000 {
				t.Fatalf("%s: refused", desc)
			}
		} else {
			msgs, rest := refps.Deframe(buf.Bytes())
			want := bytes.Repeat([]byte{0x91}, n)
			if kind == 1 {
				want = bytes.Repeat([]byte{0xA1, 0x80}, n)
			}
			if len(rest) != 0 || len(msgs) != 1 || !bytes.Equal(msgs[0].Payload, append(want, 0xC0)) {
				t.Fatalf("%s: encoded as something else", desc)
			}
		}
		vh.Note("C02Deep:", desc, true, "deep", fmt.Sprint("refused-", err != nil))
	})
}

// TestC04Deep feeds deeply nested messages: they may be refused but must not
// end the process, and are not taken for something else.
func TestC04Deep(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		n := genDepth(t)
		if rapid.IntRange(0, 2).Draw(t, "huge") == 0 {
			n = 3000000
		}
		kind := rapid.IntRange(0, 2).Draw(t, "kind")
		vh.Last(fmt.Sprintf("C04 deep nesting: %d levels of kind %d", n, kind))
		var p []byte
		switch kind {
		case 0:
			p = bytes.Repeat([]byte{0x91}, n)
		case 1:
			p = bytes.Repeat([]byte{0xA1, 0x80}, n)
		default:
			p = bytes.Repeat([]byte{0xB1, 0x71}, n)
		}
		complete := rapid.Bool().Draw(t, "complete")
		if complete {
			p = append(p, 0xC0)
		}
		stream := refps.Chunk(nil, p, 0, refps.Minimal{})
		var v interface{}
		var err error
		o := vh.Guard(nil, func() { v, err = encoding.Unmarshal(stream) })
		if o.Bad() != "" {
			t.Fatalf("nesting of %d levels: %s", n, o.Bad())
		}
		if err == nil && (!complete || kind == 2 || !isDeep(v, n)) {
			t.Fatalf("nesting of %d levels of kind %d (complete: %v) was decoded to something else", n, kind, complete)
		}
		vh.Note("C04", fmt.Sprintf("deep %d kind %d", n, kind), true, "deep")
	})
}
