package checks

import (
	"database/sql/driver"
	goerrors "errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"pgregory.net/rapid"

	nerr "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
	"verif/vh"
)

// ---- C21: wrapped errors ----

type customErr struct {
	n int
	s string
}

func (e customErr) Error() string { return fmt.Sprintf("custom %d %s", e.n, e.s) }

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return "pointer " + e.s }

// errMsg draws a message with arguments and the text they must give.
func errMsg(t *rapid.T, n int) (string, []interface{}, string) {
	tag := fmt.Sprintf("<m%d>", n)
	free := rapid.SampledFrom([]string{"", " plain", " with\nnewline", "\ttab", " é\x00", strings.Repeat("long ", 200)}).Draw(t, "free")
	switch rapid.IntRange(0, 5).Draw(t, "fmt") {
	case 0:
		return tag + free, nil, tag + free
	case 1:
		s := vh.Str(t, "arg", false) // may contain % and anything else
		return "%s" + tag + free, []interface{}{s}, s + tag + free
	case 2:
		i := vh.IntGen().Draw(t, "int")
		return free + tag + " %d%%", []interface{}{i}, fmt.Sprintf("%s%s %d%%", free, tag, i)
	case 3:
		v := vh.ToDriver(vh.Val(t, &vh.Opt{Budget: 4, Depth: 2, Graph: true}))
		return tag + "%#v|%T", []interface{}{v, v}, tag + fmt.Sprintf("%#v|%T", v, v)
	case 4:
		return tag + " %v %s", []interface{}{io.EOF, "x%sy"}, tag + " EOF x%sy"
	default:
		return tag + "%[2]d %[1]q", []interface{}{"q\"", 5}, tag + "5 \"q\\\"\""
	}
}

func TestC21Wrap(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		var base error
		var texts []string // from inside to outside
		kind := rapid.SampledFrom([]string{"new", "std", "badconn", "eof", "custom", "pointer", "failure", "foreign", "nil"}).Draw(t, "base")
		n := 0
		switch kind {
		case "new":
			m, a, want := errMsg(t, n)
			n++
			e := nerr.New(m, a...)
			if e.Inner() != nil {
				t.Fatalf("Inner of a new error is %v", e.Inner())
			}
			base = e
			texts = append(texts, want)
		case "std":
			s := vh.Str(t, "std", false)
			base = goerrors.New(s)
			texts = append(texts, s)
		case "badconn":
			base = driver.ErrBadConn
			texts = append(texts, base.Error())
		case "eof":
			base = io.EOF
			texts = append(texts, "EOF")
		case "custom":
			base = customErr{rapid.Int().Draw(t, "n"), vh.Str(t, "s", false)}
			texts = append(texts, base.Error())
		case "pointer":
			base = &ptrErr{vh.Str(t, "s", false)}
			texts = append(texts, base.Error())
		case "failure":
			// metadata as the server sent it, whatever it is
			f := messages.NewFailureMessage(vh.ToDriver(vh.Map(t, &vh.Opt{Budget: 6, Depth: 2, Graph: true})).(map[string]interface{}))
			base = &failPtr{f}
			texts = append(texts, base.Error())
		case "foreign":
			// something of another library that wraps one of ours
			base = fmt.Errorf("foreign: %w", nerr.New("hidden"))
			texts = append(texts, "foreign: ")
		case "nil":
		}
		depth := rapid.IntRange(0, 6).Draw(t, "depth")
		if rapid.IntRange(0, 19).Draw(t, "deep") == 0 {
			depth = rapid.IntRange(7, 200).Draw(t, "depth2")
		}
		if kind == "nil" && depth == 0 {
			depth = 1
		}
		err := base
		var layers []*nerr.Error
		for i := 0; i < depth; i++ {
			m, a, want := errMsg(t, n)
			n++
			w := nerr.Wrap(err, m, a...)
			if w.Inner() != err {
				t.Fatalf("Wrap(%T).Inner() returns %T %v, not the wrapped error", err, w.Inner(), w.Inner())
			}
			layers = append(layers, w)
			err = w
			texts = append(texts, want)
		}
		want := base
		if kind == "nil" {
			want = layers[0] // wraps nothing
		}
		for i, l := range layers {
			if got := l.InnerMost(); got != want {
				t.Fatalf("InnerMost after %d wraps of a %s error is %T %v, not the original error", i+1, kind, got, got)
			}
			if i > 0 && l.Inner() != error(layers[i-1]) {
				t.Fatalf("Inner of layer %d changed", i)
			}
		}
		if e, ok := base.(*nerr.Error); ok && e.InnerMost() != base {
			t.Fatalf("InnerMost of an error that wraps nothing is %v", e.InnerMost())
		}
		// the text of every layer contains all messages from there on, outside first
		for i := -1; i < len(layers); i++ {
			var e error
			top := len(texts) - len(layers) + i
			if i < 0 {
				if e = base; e == nil {
					continue
				}
			} else {
				if i > 12 && i < len(layers)-1 {
					continue
				}
				e = layers[i]
			}
			got := e.Error()
			rest := got
			for k := top; k >= 0; k-- {
				j := strings.Index(rest, texts[k])
				if j < 0 {
					t.Fatalf("the text of an error with %d messages lacks message %q at its place; the text:\n%s", top+1, texts[k], got)
				}
				rest = rest[j+len(texts[k]):]
			}
			if again := e.Error(); again != got {
				t.Fatalf("the text of an error changes from call to call")
			}
		}
		key := kind
		for _, s := range texts {
			key += "|" + s
		}
		vh.Note("C21", fmt.Sprintf("%d wraps of %s", depth, key), depth > 0, kind, depthClass(depth))
	})
}

// failPtr makes a failure comparable.
type failPtr struct{ messages.FailureMessage }

func depthClass(n int) string {
	switch {
	case n == 0:
		return "depth 0"
	case n == 1:
		return "depth 1"
	case n <= 6:
		return "depth 2-6"
	}
	return "depth >6"
}

// The documented way to the failure's metadata.
func TestC21Failure(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		m := vh.Map(t, &vh.Opt{Budget: 8, Depth: 3, Graph: true})
		var err error = messages.NewFailureMessage(vh.ToDriver(m).(map[string]interface{}))
		n := rapid.IntRange(1, 5).Draw(t, "depth")
		for i := 0; i < n; i++ {
			err = nerr.Wrap(err, "layer %d", i)
		}
		f, ok := err.(*nerr.Error).InnerMost().(messages.FailureMessage)
		if !ok {
			t.Fatalf("InnerMost of a failure wrapped %d times is %T", n, err.(*nerr.Error).InnerMost())
		}
		if d := vh.SameMap(f.Metadata, m); d != "" {
			t.Fatalf("failure metadata: %s", d)
		}
		if err.Error() == "" {
			t.Fatalf("empty text")
		}
		vh.Note("C21", fmt.Sprintf("failure %s wrapped %d times", vh.Show(m), n), true, "failure-metadata")
	})
}
