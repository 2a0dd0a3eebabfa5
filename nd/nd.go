// Package nd gives harnesses their symbolic inputs. Natively the inputs come
// from a recorded valuation (Run); the engine intercepts these functions and
// makes every value a fresh symbolic variable instead.
package nd

import (
	"fmt"
)

// Input is one valuation of a harness's symbolic inputs.
type Input struct {
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Vals    map[string]uint64 `json:"vals"`
	Choices []int             `json:"choices"`
}

// Output is what a native run of a harness did.
type Output struct {
	Status   string   `json:"status"` // ok, assume, assert, panic
	Msg      string   `json:"msg"`
	Observed []string `json:"observed"`
	Reached  []string `json:"reached"`
}

type assumeFail struct{}
type assertFail struct{ msg string }

var (
	cur     Input
	out     Output
	counts  map[string]int
	nchoice int
)

// Run executes f natively on the given input.
func Run(f func(), i Input) (o Output) {
	cur, out, counts, nchoice = i, Output{Status: "ok"}, map[string]int{}, 0
	defer func() {
		if r := recover(); r != nil {
			o = out
			switch x := r.(type) {
			case assumeFail:
				o.Status = "assume"
			case assertFail:
				o.Status, o.Msg = "assert", x.msg
			default:
				o.Status, o.Msg = "panic", fmt.Sprint(r)
			}
		}
	}()
	f()
	return out
}

func val(label string, w int) uint64 {
	n := counts[label]
	counts[label] = n + 1
	v := cur.Vals[fmt.Sprintf("%s#%d/%d", label, n, w)]
	if w < 64 {
		v &= 1<<uint(w) - 1
	}
	return v
}

// Bits is an arbitrary w-bit unsigned value.
func Bits(label string, w int) uint64 { return val(label, w) }

func U8(label string) uint8   { return uint8(val(label, 8)) }
func U16(label string) uint16 { return uint16(val(label, 16)) }
func U32(label string) uint32 { return uint32(val(label, 32)) }
func U64(label string) uint64 { return val(label, 64) }
func Bool(label string) bool  { return val(label, 1) == 1 }

// Bytes is n arbitrary bytes.
func Bytes(label string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(label, 8))
	}
	return b
}

// Text is n arbitrary characters for which ok is assumed (a class name:
// "print" printable ASCII, "alnum", "hex", "word" printable ASCII but no blank).
func Text(label string, n int, class string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(label, 8))
		if !InClass(b[i], class) {
			panic(assumeFail{})
		}
	}
	return string(b)
}

// InClass reports whether c belongs to a character class.
func InClass(c byte, class string) bool {
	switch class {
	case "print":
		return c >= 0x20 && c < 0x7f
	case "word":
		return c > 0x20 && c < 0x7f
	case "safe": // printable, not blank, needing no JSON or XML escape
		return c > 0x20 && c < 0x7f && c != '"' && c != '\\' && c != '<' && c != '>' && c != '&' && c != '\''
	case "alnum":
		return c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
	case "hex":
		return c >= '0' && c <= '9' || c >= 'A' && c <= 'F'
	case "digit":
		return c >= '0' && c <= '9'
	}
	panic("unknown class " + class)
}

// Choice forks over 0..n-1.
func Choice(label string, n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	if nchoice < len(cur.Choices) {
		v = cur.Choices[nchoice]
	}
	nchoice++
	if v >= n {
		panic(assumeFail{})
	}
	return v
}

// Tier is 0 for the quick and 1 for the thorough bounds.
func Tier() int { return cur.Tier }

// Assume restricts the inputs.
func Assume(ok bool) {
	if !ok {
		panic(assumeFail{})
	}
}

// Assert states the property.
func Assert(ok bool, msg string) {
	if !ok {
		panic(assertFail{msg})
	}
}

// Fix makes a number concrete: the engine explores each of its values.
func Fix(v uint64) uint64 { return v }

// Reach is a vacuity witness: the check insists that it is reached.
func Reach(label string) { out.Reached = append(out.Reached, label) }

// ObserveU, ObserveS record results compared between engine and native run.
func ObserveU(label string, v uint64) {
	out.Observed = append(out.Observed, fmt.Sprintf("%s=%d", label, v))
}
func ObserveS(label string, v string) {
	out.Observed = append(out.Observed, fmt.Sprintf("%s=%q", label, v))
}

// Stop is what Assume and Assert throw; Catch re-throws it.
func isStop(r interface{}) bool {
	switch r.(type) {
	case assumeFail, assertFail:
		return true
	}
	return false
}

// Catch runs f and returns whether it panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if isStop(r) {
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// ValidUTF8 is s with every byte which is not part of UTF-8 replaced by U+FFFD,
// as encoding/json and encoding/xml do it. (The engine calls it.)
func ValidUTF8(s string) string {
	o := make([]byte, 0, len(s))
	for _, r := range s {
		o = append(o, string(r)...)
	}
	return string(o)
}

// Or and And are || and && without a fork.
func Or(a, b bool) bool  { return a || b }
func And(a, b bool) bool { return a && b }

// Among reports whether v is one of the bytes of set.
func Among(v uint32, set string) bool {
	for i := 0; i < len(set); i++ {
		if v == uint32(set[i]) {
			return true
		}
	}
	return false
}
