// Package refps is an independent reference implementation of the PackStream
// (Bolt v1) value format and of Bolt message chunking. It shares no code with
// the driver under test and is used as its oracle.
//
// Values are: nil, bool, int64, float64, string, []interface{},
// map[string]interface{} and Struct.
package refps

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
)

// Struct is a PackStream structure.
type Struct struct {
	Sig    byte
	Fields []interface{}
}

// Chooser resolves the free choices of the format (which of several valid
// representations to use). Choose(n) returns a number in [0,n).
type Chooser interface{ Choose(n int) int }

// Minimal always takes choice 0, the smallest representation.
type Minimal struct{}

// Choose implements Chooser.
func (Minimal) Choose(n int) int { return 0 }

// Encode appends the encoding of v to dst. Choice 0 is always the smallest
// representation and higher choices are wider.
func Encode(dst []byte, v interface{}, c Chooser) []byte {
	switch x := v.(type) {
	case nil:
		return append(dst, 0xC0)
	case bool:
		if x {
			return append(dst, 0xC3)
		}
		return append(dst, 0xC2)
	case int64:
		return encodeInt(dst, x, c)
	case float64:
		dst = append(dst, 0xC1)
		return binary.BigEndian.AppendUint64(dst, math.Float64bits(x))
	case string:
		dst = header(dst, len(x), 0x80, 0xD0, 0xD1, 0xD2, c)
		return append(dst, x...)
	case []interface{}:
		dst = header(dst, len(x), 0x90, 0xD4, 0xD5, 0xD6, c)
		for _, e := range x {
			dst = Encode(dst, e, c)
		}
		return dst
	case map[string]interface{}:
		dst = header(dst, len(x), 0xA0, 0xD8, 0xD9, 0xDA, c)
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			dst = Encode(dst, k, c)
			dst = Encode(dst, x[k], c)
		}
		return dst
	case Struct:
		dst = header(dst, len(x.Fields), 0xB0, 0xDC, 0xDD, 0, c)
		dst = append(dst, x.Sig)
		for _, e := range x.Fields {
			dst = Encode(dst, e, c)
		}
		return dst
	}
	panic(fmt.Sprintf("refps: cannot encode %T", v))
}

func encodeInt(dst []byte, x int64, c Chooser) []byte {
	var alts []int
	if x >= -16 && x <= 127 {
		alts = append(alts, 0)
	}
	if x >= math.MinInt8 && x <= math.MaxInt8 {
		alts = append(alts, 1)
	}
	if x >= math.MinInt16 && x <= math.MaxInt16 {
		alts = append(alts, 2)
	}
	if x >= math.MinInt32 && x <= math.MaxInt32 {
		alts = append(alts, 4)
	}
	alts = append(alts, 8)
	switch alts[c.Choose(len(alts))] {
	case 0:
		return append(dst, byte(x))
	case 1:
		return append(dst, 0xC8, byte(x))
	case 2:
		return binary.BigEndian.AppendUint16(append(dst, 0xC9), uint16(x))
	case 4:
		return binary.BigEndian.AppendUint32(append(dst, 0xCA), uint32(x))
	default:
		return binary.BigEndian.AppendUint64(append(dst, 0xCB), uint64(x))
	}
}

func header(dst []byte, n int, tiny, m8, m16, m32 byte, c Chooser) []byte {
	var alts []int
	if n <= 15 {
		alts = append(alts, 0)
	}
	if n <= math.MaxUint8 {
		alts = append(alts, 1)
	}
	if n <= math.MaxUint16 {
		alts = append(alts, 2)
	}
	if m32 != 0 {
		alts = append(alts, 4)
	}
	switch alts[c.Choose(len(alts))] {
	case 0:
		return append(dst, tiny|byte(n))
	case 1:
		return append(dst, m8, byte(n))
	case 2:
		return binary.BigEndian.AppendUint16(append(dst, m16), uint16(n))
	default:
		return binary.BigEndian.AppendUint32(append(dst, m32), uint32(n))
	}
}

// ErrKind classifies why a payload is not a valid value.
type ErrKind int

// Kinds of decode errors.
const (
	Truncated ErrKind = iota // bytes missing, or a length larger than what follows
	BadMarker
	BadKey   // map key is not a string
	DupKey   // map has a key twice
	Trailing // bytes after the value
	TooDeep
)

// Error is a decode error.
type Error struct {
	Kind ErrKind
	Off  int
}

func (e *Error) Error() string {
	return fmt.Sprintf("refps: error kind %d at offset %d", e.Kind, e.Off)
}

// Info describes a decoded payload.
type Info struct {
	NonMinimal []string // descriptions of non-minimal representations
	DupKeys    bool
	Used       int // bytes used
}

type dec struct {
	b    []byte
	off  int
	info *Info
}

// Decode decodes exactly one value and requires the payload to end there.
func Decode(b []byte) (interface{}, *Info, error) {
	v, info, err := DecodePrefix(b)
	if err == nil && info.Used != len(b) {
		return v, info, &Error{Trailing, info.Used}
	}
	if err == nil && info.DupKeys {
		return v, info, &Error{DupKey, 0}
	}
	return v, info, err
}

// DecodePrefix decodes one value from the start of b.
func DecodePrefix(b []byte) (interface{}, *Info, error) {
	d := &dec{b: b, info: &Info{}}
	v, err := d.value(0)
	d.info.Used = d.off
	return v, d.info, err
}

func (d *dec) take(n int) ([]byte, error) {
	if n < 0 || len(d.b)-d.off < n {
		return nil, &Error{Truncated, d.off}
	}
	r := d.b[d.off : d.off+n]
	d.off += n
	return r, nil
}

func (d *dec) uint(n int) (uint64, error) {
	r, err := d.take(n)
	if err != nil {
		return 0, err
	}
	var x uint64
	for _, c := range r {
		x = x<<8 | uint64(c)
	}
	return x, nil
}

func (d *dec) size(n int, what string) (int, error) {
	off := d.off - 1
	x, err := d.uint(n)
	if err != nil {
		return 0, err
	}
	if (n == 1 && x <= 15) || (n == 2 && x <= 255) || (n == 4 && x <= 65535) {
		d.info.NonMinimal = append(d.info.NonMinimal, fmt.Sprintf("%s length %d in %d bytes at %d", what, x, n, off))
	}
	return int(x), nil
}

func (d *dec) int(n int) (interface{}, error) {
	off := d.off - 1
	x, err := d.uint(n)
	if err != nil {
		return nil, err
	}
	v := int64(x<<(64-8*uint(n))) >> (64 - 8*uint(n))
	min := 8
	switch {
	case v >= -16 && v <= 127:
		min = 0
	case v >= math.MinInt8 && v <= math.MaxInt8:
		min = 1
	case v >= math.MinInt16 && v <= math.MaxInt16:
		min = 2
	case v >= math.MinInt32 && v <= math.MaxInt32:
		min = 4
	}
	if min != n {
		d.info.NonMinimal = append(d.info.NonMinimal, fmt.Sprintf("integer %d in %d bytes at %d", v, n, off))
	}
	return v, nil
}

const maxDepth = 100000

func (d *dec) value(depth int) (interface{}, error) {
	if depth > maxDepth {
		return nil, &Error{TooDeep, d.off}
	}
	mb, err := d.take(1)
	if err != nil {
		return nil, err
	}
	m := mb[0]
	switch {
	case m <= 0x7F || m >= 0xF0:
		return int64(int8(m)), nil
	case m >= 0x80 && m <= 0x8F:
		return d.str(int(m & 15))
	case m >= 0x90 && m <= 0x9F:
		return d.list(int(m&15), depth)
	case m >= 0xA0 && m <= 0xAF:
		return d.mapp(int(m&15), depth)
	case m >= 0xB0 && m <= 0xBF:
		return d.strct(int(m&15), depth)
	}
	var n int
	switch m {
	case 0xC0:
		return nil, nil
	case 0xC1:
		x, err := d.uint(8)
		return math.Float64frombits(x), err
	case 0xC2:
		return false, nil
	case 0xC3:
		return true, nil
	case 0xC8:
		return d.int(1)
	case 0xC9:
		return d.int(2)
	case 0xCA:
		return d.int(4)
	case 0xCB:
		return d.int(8)
	case 0xD0, 0xD1, 0xD2:
		if n, err = d.size(1<<(m-0xD0), "string"); err != nil {
			return nil, err
		}
		return d.str(n)
	case 0xD4, 0xD5, 0xD6:
		if n, err = d.size(1<<(m-0xD4), "list"); err != nil {
			return nil, err
		}
		return d.list(n, depth)
	case 0xD8, 0xD9, 0xDA:
		if n, err = d.size(1<<(m-0xD8), "map"); err != nil {
			return nil, err
		}
		return d.mapp(n, depth)
	case 0xDC, 0xDD:
		if n, err = d.size(1<<(m-0xDC), "struct"); err != nil {
			return nil, err
		}
		return d.strct(n, depth)
	}
	return nil, &Error{BadMarker, d.off - 1}
}

func (d *dec) str(n int) (interface{}, error) {
	b, err := d.take(n)
	if err != nil {
		return nil, err
	}
	return string(b), nil
}

func (d *dec) list(n int, depth int) (interface{}, error) {
	if n > len(d.b)-d.off {
		return nil, &Error{Truncated, d.off}
	}
	l := make([]interface{}, 0, n)
	for i := 0; i < n; i++ {
		v, err := d.value(depth + 1)
		if err != nil {
			return nil, err
		}
		l = append(l, v)
	}
	return l, nil
}

func (d *dec) mapp(n int, depth int) (interface{}, error) {
	if n > (len(d.b)-d.off)/2 {
		return nil, &Error{Truncated, d.off}
	}
	m := make(map[string]interface{}, n)
	for i := 0; i < n; i++ {
		off := d.off
		k, err := d.value(depth + 1)
		if err != nil {
			return nil, err
		}
		v, err := d.value(depth + 1)
		if err != nil {
			return nil, err
		}
		ks, ok := k.(string)
		if !ok {
			return nil, &Error{BadKey, off}
		}
		if _, dup := m[ks]; dup {
			d.info.DupKeys = true
		}
		m[ks] = v
	}
	return m, nil
}

func (d *dec) strct(n int, depth int) (interface{}, error) {
	sb, err := d.take(1)
	if err != nil {
		return nil, err
	}
	s := Struct{Sig: sb[0]}
	if n > len(d.b)-d.off {
		return nil, &Error{Truncated, d.off}
	}
	for i := 0; i < n; i++ {
		v, err := d.value(depth + 1)
		if err != nil {
			return nil, err
		}
		s.Fields = append(s.Fields, v)
	}
	return s, nil
}

// Chunk frames a payload as one message: chunks of the sizes the chooser
// picks, then the zero chunk. max is the largest chunk to make (0 = 65535).
func Chunk(dst, payload []byte, max int, c Chooser) []byte {
	if max <= 0 || max > 65535 {
		max = 65535
	}
	for len(payload) > 0 {
		n := len(payload)
		if n > max {
			n = max
		}
		// choice 0: as much as possible; otherwise a smaller chunk
		switch c.Choose(4) {
		case 1:
			n = 1
		case 2:
			n = 1 + n/2
			if n > len(payload) {
				n = len(payload)
			}
			if n > max {
				n = max
			}
		case 3:
			if n > 7 {
				n = 1 + c.Choose(7)
			}
		}
		dst = binary.BigEndian.AppendUint16(dst, uint16(n))
		dst = append(dst, payload[:n]...)
		payload = payload[n:]
	}
	return append(dst, 0, 0)
}

// Message is one deframed message.
type Message struct {
	Payload []byte
	Chunks  []int
}

// Deframe splits a byte string into complete messages and the unfinished rest.
func Deframe(b []byte) (msgs []Message, rest []byte) {
	for {
		var m Message
		off := 0
		for {
			if len(b)-off < 2 {
				return msgs, b
			}
			n := int(binary.BigEndian.Uint16(b[off:]))
			off += 2
			if n == 0 {
				break
			}
			if len(b)-off < n {
				return msgs, b
			}
			m.Chunks = append(m.Chunks, n)
			m.Payload = append(m.Payload, b[off:off+n]...)
			off += n
		}
		msgs = append(msgs, m)
		b = b[off:]
	}
}

// Equal compares two values in reference form; floats compare by bits.
func Equal(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case string:
		y, ok := b.(string)
		return ok && x == y
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !Equal(v, w) {
				return false
			}
		}
		return true
	case Struct:
		y, ok := b.(Struct)
		if !ok || x.Sig != y.Sig || len(x.Fields) != len(y.Fields) {
			return false
		}
		for i := range x.Fields {
			if !Equal(x.Fields[i], y.Fields[i]) {
				return false
			}
		}
		return true
	}
	return false
}
