package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"

	"pgregory.net/rapid"
)

// B is a byte slice that is written in replay files as a Go-quoted string.
type B []byte

// MarshalJSON writes the bytes as a Go-quoted ASCII string
func (b B) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(b))
	return json.Marshal(q[1 : len(q)-1])
}

// UnmarshalJSON reads what MarshalJSON wrote
func (b *B) UnmarshalJSON(data []byte) error {
	var s string
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	out, err := strconv.Unquote("\"" + s + "\"")
	if err != nil {
		return err
	}
	*b = B(out)
	return nil
}

// Rec receives what one case turned out to be.
type Rec struct {
	NonTrivial bool
	Labels     map[string]int
	Evals      int // how many executions of the code under test the case stood for
}

// Label counts a class of the current case
func (r *Rec) Label(name string) {
	if r.Labels == nil {
		r.Labels = map[string]int{}
	}
	r.Labels[name]++
}

// LabelIf counts a class of the current case
func (r *Rec) LabelIf(cond bool, name string) {
	if cond {
		r.Label(name)
	}
}

// Prop is one executable property.
type Prop struct {
	ID       string
	Rule     string
	Quick    int // cases, all shards together
	Thorough int
	Level    string
	Assume   []string
	// Draw generates one case and returns it serialised.
	Draw func(t *rapid.T) []byte
	// Check decides one serialised case.
	Check func(data []byte, rec *Rec) error
	// Enumerate, when set, replaces generation by an enumeration with a fixed number of cases.
}

var registry = map[string]*Prop{}

func register[C any](p Prop, draw func(t *rapid.T) C, check func(c C, rec *Rec) error) {
	p.Draw = func(t *rapid.T) []byte {
		data, err := json.Marshal(draw(t))
		if err != nil {
			panic("harness: cannot serialise the case: " + err.Error())
		}
		return data
	}
	p.Check = func(data []byte, rec *Rec) error {
		var c C
		if err := json.Unmarshal(data, &c); err != nil {
			return &harnessError{err.Error()}
		}
		return check(c, rec)
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	registry[p.ID] = &p
}

// harnessError is an error of the machinery, never a violation.
type harnessError struct{ msg string }

func (e *harnessError) Error() string { return "harness: " + e.msg }

func hfail(format string, args ...any) error { return &harnessError{fmt.Sprintf(format, args...)} }

// runCase executes a check; a panic of the code under test is a violation.
func runCase(p *Prop, data []byte, rec *Rec) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(*harnessError); ok {
				err = he
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return p.Check(data, rec)
}

func trimStack(s []byte) []byte {
	lines := bytes.Split(s, []byte("\n"))
	out := [][]byte{}
	skip := true
	for _, l := range lines {
		if skip {
			if bytes.HasPrefix(l, []byte("panic(")) {
				skip = false
			}
			continue
		}
		out = append(out, l)
		if len(out) > 16 {
			break
		}
	}
	return bytes.Join(out, []byte("\n"))
}

func shortHash(data []byte) string {
	h := sha256.Sum256(data)
	return hex.EncodeToString(h[:8])
}

func sortedKeys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- small generators ----

// intIn draws uniformly from small ranges (rapid's own ranges favour small values); large ranges keep rapid's bias.
func intIn(t *rapid.T, label string, lo, hi int) int {
	if hi-lo < 128 {
		return lo + uniform(t, label, hi-lo+1)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

var boolGen = rapid.Bool()

// uniform draws from 0..n-1, shrinking towards 0.
func uniform(t *rapid.T, label string, n int) int {
	if n <= 1 {
		return 0
	}
	v, span := 0, 1
	for span < n*8 {
		v <<= 1
		if boolGen.Draw(t, label) {
			v |= 1
		}
		span <<= 1
	}
	return v * n / span
}

func oneOf[V any](t *rapid.T, label string, vs ...V) V {
	return vs[uniform(t, label, len(vs))]
}

func chance(t *rapid.T, label string, percent int) bool {
	// shrinks towards false
	return uniform(t, label, 100) >= 100-percent
}

// expand is a fixed pure function from a small number to some bytes.
func expand(seed int, length int) []byte {
	out := make([]byte, length)
	x := uint64(seed)*0x9E3779B97F4A7C15 + 0x1234567
	for i := range out {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		out[i] = byte(x >> 24)
	}
	return out
}

// allocated is the amount of memory allocated by this process so far.
func allocated() uint64 {
	sample := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(sample)
	return sample[0].Value.Uint64()
}

// outOfProportion is the memory that a call on so many bytes has no reason to use.
func outOfProportion(length int) uint64 { return 2<<20 + 2000*uint64(length) }
