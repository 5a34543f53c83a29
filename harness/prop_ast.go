package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/coverages"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"pgregory.net/rapid"
)

type astCase struct {
	G    *Gram  `json:"g"`
	Data B      `json:"data"`
	Huge string `json:"huge,omitempty"` // what is large in it
}

const stepLimit = 40000

// stepsFor is the limit of steps of the reference parser: what is drawn huge is simple, but needs many.
func stepsFor(data []byte) int {
	if len(data) > 3000 {
		return 60 * len(data)
	}
	return stepLimit
}

// orHuge draws a huge case once in so many, and otherwise what draw gives.
func orHuge(oneIn int, draw func(t *rapid.T) astCase, kinds ...string) func(t *rapid.T) astCase {
	return func(t *rapid.T) astCase {
		if rare(t, "huge", oneIn) {
			return drawHuge(t, oneOf(t, "kind", kinds...))
		}
		return draw(t)
	}
}

// drawHuge draws a simple grammar of which one dimension is large, and data that needs all of it, or nearly.
func drawHuge(t *rapid.T, kind string) astCase {
	one, many := intPtr(1), (*int)(nil)
	v := func(b byte) Cont { return Cont{K: "v", V: int(b), Min: 1, Max: one} }
	tok := func(i int) Cont { return Cont{K: "t", T: i, Min: 1, Max: one} }
	alike := func(b byte, n int) []byte { return bytes.Repeat([]byte{b}, n) }
	long := func() int {
		if rare(t, "very long", 12) {
			return oneOf(t, "very long length", 65535, 65536, 66000)
		}
		return oneOf(t, "length", 1500, 2049, 4095, 4097, 5001, 8200)
	}
	wide := oneOf(t, "width", 17, 33, 60, 65, 120, 129, 255, 256, 257, 300)
	wrong := chance(t, "not quite", 25)
	g, data := &Gram{}, []byte{}
	switch kind {
	case "list": // so many values or tokens in a row
		n := long()
		c := Cont{K: "t", T: 1, Min: 1, Max: many}
		if chance(t, "values", 50) {
			c = v('a')
			c.Max = many
		}
		switch uniform(t, "cardinality", 4) {
		case 0:
			c.Min = n
		case 1:
			c.Max = intPtr(n)
		case 2:
			c.Min, c.Max = n, intPtr(n)
		}
		g.Toks = []Tok{{Lines: [][]Cont{{c, v('b')}}}, {Lines: [][]Cont{{v('a')}}}}
		if wrong {
			n += oneOf(t, "off", -1, 1)
		}
		data = append(alike('a', n), 'b', 'c')
		if c.K == "t" && len(data) > 2 && chance(t, "late", 40) { // the last one of another kind
			g.Toks[1].Lines = append(g.Toks[1].Lines, []Cont{tok(2)})
			g.Toks = append(g.Toks, Tok{Lines: [][]Cont{{v('z')}}})
			data[len(data)-3] = 'z'
		}
	case "deep": // a recursion so deep
		n := oneOf(t, "depth", 600, 1030, 2060, 4100)
		g.Toks = []Tok{{Lines: [][]Cont{{v('('), {K: "r", T: 0, Min: 0, Max: one}, v(')')}}}}
		if chance(t, "two tokens", 40) {
			g.Toks = []Tok{{Lines: [][]Cont{{v('('), tok(1)}, {v('('), v(')')}}}, {Lines: [][]Cont{{{K: "r", T: 0, Min: 1, Max: one}, v(')')}}}}
		}
		data = append(alike('(', n), alike(')', n)...)
		if wrong {
			data = data[:len(data)-1]
		}
	case "chain": // tokens in tokens in tokens
		for i := 0; i < wide; i++ {
			g.Toks = append(g.Toks, Tok{Lines: [][]Cont{{tok(i + 1), {K: "v", V: int('a' + i%3), Min: 0, Max: one}}}})
		}
		g.Toks = append(g.Toks, Tok{Lines: [][]Cont{{v('x')}}})
		data = append(data, 'x')
		for i := wide - 1; i >= 0; i-- {
			data = append(data, byte('a'+i%3))
		}
		if wrong {
			data = data[:len(data)/2]
		}
	case "lines": // so many alternatives, each of its own byte or two
		tk := Tok{}
		for i := 0; i < wide; i++ {
			tk.Lines = append(tk.Lines, []Cont{v(byte(i)), v(byte(i >> 8))})
		}
		g.Toks = []Tok{{Lines: [][]Cont{{{K: "t", T: 1, Min: 1, Max: many}}}}, tk}
		if chance(t, "root", 30) {
			g.Toks = []Tok{tk}
		}
		for k := 0; k < 4; k++ {
			at := wide - 1 - k*uniform(t, "which", 5)
			data = append(data, byte(at), byte(at>>8))
		}
		if wrong {
			data = []byte{byte(wide), byte(wide >> 8)}
		}
	case "containers": // a line of so many elements and composes
		line := []Cont{}
		for i := 0; i < wide; i++ {
			switch i % 4 {
			case 0:
				line = append(line, Cont{K: "c", Cp: [][]int{{'a' + i%3, 1}}})
			case 1:
				line = append(line, Cont{K: "v", V: 'a' + i%5, Min: 0, Max: one})
			default:
				line = append(line, v(byte('a'+i%5)))
			}
		}
		g.Toks = []Tok{{Lines: [][]Cont{line}}}
		for i, c := range line {
			if c.K == "c" {
				data = append(data, byte(c.Cp[0][0]))
			} else if c.Min > 0 || i%3 > 0 {
				data = append(data, byte(c.V))
			}
		}
		if wrong {
			data = data[:len(data)-1]
		}
	case "everything", "escapes": // so much up to the exception
		n := long()
		e := Cont{K: "e", T: 1, Min: 1, Max: one}
		if kind == "escapes" {
			n = min(n, 4200) // the application shows all the remaining data in each error
			e.Esc = intPtr(2)
		}
		g.Toks = []Tok{{Lines: [][]Cont{{e, tok(1)}}}, {Lines: [][]Cont{{v('!'), v('?')}}}, {Lines: [][]Cont{{v('/')}}}}
		data = expand(uniform(t, "seed", 100), n)
		for i := range data {
			data[i] = "abcdefgh!"[int(data[i])%9]
		}
		if kind == "escapes" {
			for i := 3 * uniform(t, "first", 400); i+3 <= len(data); i += 3 * (1 + uniform(t, "step", 400)) {
				copy(data[i:], "/!?")
			}
		}
		if !wrong {
			data = append(data, "!?ab"...)
		}
	case "channels": // so many channels, each of its own byte
		g.Toks = []Tok{{Lines: [][]Cont{{v(1), v(2)}}}}
		for i := 0; i < wide%253; i++ {
			g.Toks = append(g.Toks, Tok{Lines: [][]Cont{{v(byte(i + 3))}}})
			g.Chans = append(g.Chans, Chan{T: i + 1})
		}
		last := byte(len(g.Chans) + 2)
		data = []byte{last, 1, last, last - 1, last, 2, last}
		if wrong {
			data[0]++
		}
	case "skipped": // so much to skip
		n := min(long(), 8200)
		g.Toks = []Tok{{Lines: [][]Cont{{v('a'), v('b')}}}, {Lines: [][]Cont{{v(' ')}}}, {Lines: [][]Cont{{v('#'), {K: "e", T: 3, Min: 1, Max: one}, tok(3)}}}, {Lines: [][]Cont{{v('.')}}}}
		g.Chans = []Chan{{T: 1}, {T: 2}}
		gap := func() []byte {
			switch uniform(t, "gap", 3) {
			case 0:
				return nil
			case 1:
				return alike(' ', n)
			}
			return append(append([]byte("#"), alike(' ', n)...), '.')
		}
		data = append(append(append(append(gap(), 'a'), gap()...), 'b'), gap()...)
	case "compose": // so many times the same byte
		n := long()
		g.Toks = []Tok{{Lines: [][]Cont{{{K: "c", Cp: [][]int{{'a', n}, {'b', 1}}}}}}}
		if wrong {
			n += oneOf(t, "off", -1, 1)
		}
		data = append(alike('a', n), 'b', 'c')
	case "externals": // externals in externals in externals, or so many in a row
		n := oneOf(t, "levels", 10, 20, 40, 130, 260)
		if chance(t, "in a row", 50) {
			g.Toks = []Tok{{Lines: [][]Cont{{{K: "x", XN: "gx0", X: &Gram{Toks: []Tok{{Lines: [][]Cont{{v('a'), v('b')}}}}}, Min: 1, Max: many}}}}}
			data = append(bytes.Repeat([]byte("ab"), oneOf(t, "times", 300, 1030, 4100)), 'a')
			break
		}
		in := &Gram{Toks: []Tok{{Lines: [][]Cont{{v('x')}}}}}
		name := "gx0"
		for i := 0; i < n; i++ {
			in = &Gram{Toks: []Tok{{Lines: [][]Cont{{{K: "x", XN: name, X: in, Min: 1, Max: many}, v(byte('a' + i%3))}}}}}
			name += "x0"
		}
		// the names follow the nesting
		next := 0
		g = uniqueExternals(in, &next)
		data = append(data, 'x')
		for i := 0; i < n; i++ {
			data = append(data, byte('a'+i%3))
		}
		if wrong {
			data = data[:len(data)-1]
		}
	}
	return astCase{G: g, Data: data, Huge: kind}
}

// drawHugeSuites draws a grammar of which one dimension is large, and suites made of the data that needs it, or so many suites.
func drawHugeSuites(t *rapid.T) astCase {
	c := drawHuge(t, oneOf(t, "kind", "list", "deep", "chain", "lines", "containers", "channels", "skipped", "compose", "externals"))
	suite := func(data []byte) Suite {
		return Suite{Cp: toCompose(data), Valid: chance(t, "valid", 60)}
	}
	root := &c.G.Toks[0]
	root.Suites = append(root.Suites, suite(c.Data))
	if chance(t, "cut", 40) {
		root.Suites = append(root.Suites, suite(c.Data[:1+len(c.Data)/2]))
	}
	if len(c.G.Toks) > 1 {
		for k := 0; k < 3; k++ {
			at := uniform(t, "token", len(c.G.Toks))
			if chance(t, "last", 40) {
				at = len(c.G.Toks) - 1
			}
			tok := &c.G.Toks[at]
			tok.Suites = append(tok.Suites, suite(c.Data[:min(len(c.Data), 1+uniform(t, "length", 4))]))
		}
	}
	if chance(t, "many suites", 30) {
		tok := &c.G.Toks[uniform(t, "which", len(c.G.Toks))]
		for k := oneOf(t, "suites", 17, 65, 129, 255, 256, 257, 300); k > 0; k-- {
			tok.Suites = append(tok.Suites, suite(c.Data[:1+k%min(len(c.Data), 7)]))
		}
	}
	c.Data = nil
	return c
}

// stepsForSuites is the limit of steps of the executions of the suites of a grammar.
func stepsForSuites(c astCase) int {
	if c.Huge == "" {
		return stepLimit
	}
	return 2000000
}

func drawAst(o gramOpts, noise int) func(t *rapid.T) astCase {
	return func(t *rapid.T) astCase {
		g := drawGram(t, o, "g")
		if rare(t, "wide", 80) {
			return drawWide(t, g, o, noise)
		}
		if chance(t, "random data", 10) {
			return astCase{G: g, Data: randomBytes(t, o, 25)}
		}
		c := astCase{G: g, Data: drawSentence(t, g, o, noise)}
		if chance(t, "shift", 8) { // the same with other bytes: the meaning of a grammar does not depend on them
			by := oneOf(t, "shift", 128, 158, 159, 160, 224, 1+uniform(t, "by", 255))
			shiftGram(c.G, by)
			for i := range c.Data {
				c.Data[i] += byte(by)
			}
		}
		return c
	}
}

// drawExternalException draws a grammar with an everything, of which the exception or the escape is an external with
// channels that depend on the data before them.
func drawExternalException(o gramOpts) func(t *rapid.T) astCase {
	return func(t *rapid.T) astCase {
		sub := o
		sub.depth, sub.toks, sub.channels, sub.conditions = 0, 1, 100, 100
		external := func(name string) []Cont {
			line := []Cont{}
			if chance(t, "value before", 30) {
				line = append(line, Cont{K: "v", V: drawByte(t, o), Min: 1, Max: intPtr(1)})
			}
			return append(line, Cont{K: "x", XN: name, X: drawGram(t, sub, extPrefix(name)), Min: 1, Max: intPtr(1)})
		}
		everything := Cont{K: "e", T: 1, Min: 1, Max: intPtr(1)}
		g := &Gram{Toks: []Tok{{}, {Lines: [][]Cont{external("gx0")}}, drawSimpleTok(t, o, 2)}}
		if chance(t, "lines", 30) {
			g.Toks[1].Lines = append(g.Toks[1].Lines, []Cont{{K: "v", V: drawByte(t, o), Min: 1, Max: intPtr(1)}})
		}
		if chance(t, "escape", 50) {
			everything.Esc = intPtr(2)
			if chance(t, "external escape", 30) {
				g.Toks[2].Lines = [][]Cont{external("gx1")}
			}
		}
		line := []Cont{everything}
		if chance(t, "exception follows", 70) {
			line = append(line, Cont{K: "t", T: 1, Min: 1, Max: intPtr(1)})
		}
		g.Toks[0].Lines = [][]Cont{line}
		return astCase{G: g, Data: drawSentence(t, g, o, 25)}
	}
}

// wideAmount is an amount around the one where a byte overflows.
func wideAmount(t *rapid.T) int {
	return oneOf(t, "amount", 100, 127, 128, 254, 255, 256, 257, 300, 511, 513)
}

// drawWide changes an element or compose of the grammar to be repeated many times, and repeats some of the data.
func drawWide(t *rapid.T, g *Gram, o gramOpts, noise int) astCase {
	conts := []*Cont{}
	for ti := range g.Toks {
		for li := range g.Toks[ti].Lines {
			for ci := range g.Toks[ti].Lines[li] {
				conts = append(conts, &g.Toks[ti].Lines[li][ci])
			}
		}
	}
	c := conts[uniform(t, "wide container", min(len(conts), 6))]
	n := wideAmount(t)
	if c.K == "c" {
		c.Cp[uniform(t, "wide occurences", len(c.Cp))][1] = n
	} else {
		c.Min, c.Max = 1, nil
		switch uniform(t, "wide cardinality", 4) {
		case 0:
			c.Max = intPtr(n)
		case 1:
			c.Min = n
		case 2:
			c.Min, c.Max = n, intPtr(n)
		}
	}
	s := &sentence{t: t, o: o, budget: 1500, wide: true}
	s.token(g, 0, g.Chans, 0)
	data := s.out
	if chance(t, "off by some", 40) && len(data) > 0 {
		at := uniform(t, "at", len(data))
		if chance(t, "less", 50) {
			data = append(data[:at:at], data[at+1:]...)
		} else {
			for k := oneOf(t, "more", 1, 2, 256); k > 0; k-- {
				data = append(data[:at:at], data[max(at-1, 0):]...)
			}
		}
	}
	if len(data) > 3000 {
		data = data[:3000]
	}
	return astCase{G: g, Data: data}
}

func shiftGram(g *Gram, by int) {
	shift := func(cp [][]int) {
		for i := range cp {
			cp[i][0] = int(byte(cp[i][0] + by))
		}
	}
	for ti := range g.Toks {
		for li := range g.Toks[ti].Lines {
			for ci := range g.Toks[ti].Lines[li] {
				c := &g.Toks[ti].Lines[li][ci]
				switch c.K {
				case "v":
					c.V = int(byte(c.V + by))
				case "c":
					shift(c.Cp)
				case "x":
					shiftGram(c.X, by)
				}
			}
		}
		for i := range g.Toks[ti].Suites {
			shift(g.Toks[ti].Suites[i].Cp)
		}
	}
}

func label(rec *Rec, m *refParser) {
	for k := range m.stats {
		rec.Label(k)
	}
}

func diffText(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<nothing>", "<nothing>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("first difference at line %d:\nexpected %q\ngot      %q\n-- expected\n%s\n-- got\n%s", i+1, x, y, want, got)
		}
	}
	return ""
}

// runBoth executes the reference parser and the application and compares their trees.
func runBoth(c astCase, rec *Rec) (*mTree, *refParser, trees.Tree, error) {
	ref, m, err := parseRef(c.G, "g", c.Data, stepsFor(c.Data))
	if err != nil {
		rec.Label("discarded: too many steps")
		return nil, nil, nil, nil
	}
	label(rec, m)
	rec.LabelIf(c.Huge != "", "huge: "+c.Huge)
	input := append([]byte{}, c.Data...)
	tree, err := astApp().Execute(buildGrammar(c.G, "g"), input)
	if !bytes.Equal(input, c.Data) {
		return nil, nil, nil, fmt.Errorf("the input was modified: %q became %q", c.Data, input)
	}
	want, got := refDump(ref, len(c.Data)), realDump(tree, err)
	if want != got {
		return nil, nil, nil, fmt.Errorf("the tree of %q is not the expected one (error: %v): %s", c.Data, err, diffText(want, got))
	}
	if ref != nil && ref.ok {
		rec.Label("matched")
		rec.LabelIf(ref.end > 255, "matched more than 255 bytes")
		if ref.end == len(c.Data) {
			rec.Label("matched all the data")
		}
	} else {
		rec.Label("not matched")
	}
	if tree != nil && tree.HasRemaining() && !bytes.Equal(tree.Remaining(), c.Data[len(c.Data)-len(tree.Remaining()):]) {
		return nil, nil, nil, fmt.Errorf("the remaining data %q is not the end of the input %q", tree.Remaining(), c.Data)
	}
	return ref, m, tree, nil
}

// compareCase is the check of the properties that compare whole trees.
func compareCase(nonTrivial func(ref *mTree, m *refParser) bool) func(c astCase, rec *Rec) error {
	return func(c astCase, rec *Rec) error {
		ref, m, _, err := runBoth(c, rec)
		if err != nil {
			return err
		}
		rec.NonTrivial = m != nil && nonTrivial(ref, m)
		return nil
	}
}

func plainOpts() gramOpts {
	return gramOpts{toks: 4, nested: 30, rec: 8, comp: 6, optional: 30, alphabet: "abc", rich: 10, richEsc: 50}
}

func init() {
	// ---- A01 ----
	lossless := plainOpts()
	lossless.channels, lossless.conditions, lossless.every, lossless.ext, lossless.depth, lossless.richEsc = 60, 30, 8, 6, 1, 0
	register(Prop{
		ID:       "A01",
		Rule:     "random grammars (1-4 tokens, 1-3 alternatives of 1-4 values, tokens, recursions, externals, composes and everythings with random cardinalities; 0-3 channels, with conditions) and data made by walking the grammar, mutated, or random; in a successful tree the bytes of all leaves, channels included, followed by the remaining data, must be the input, at every level of the tree, and without channels the bytes of the values; once in 400, a simple grammar with one huge dimension (66000 values in a row, an everything of as much, 300 alternatives, parts or levels). Non-trivial: a match of 3 bytes or more with a channel or a nested tree.",
		Quick:    240000,
		Thorough: 7200000,
	}, orHuge(400, drawAst(lossless, 30), "list", "chain", "lines", "containers", "everything", "skipped", "compose", "externals"), checkLossless)

	// ---- A02 ----
	core := plainOpts()
	core.toks = 5
	register(Prop{
		ID:       "A02",
		Rule:     "random grammars (1-5 tokens of 1-3 alternatives of 1-4 containers: values, tokens, recursions, composes; cardinalities from 0, with and without maximum, maximum below minimum, rarely of hundreds; equal parts that are one instance, elements repeated in a line) and data made by walking the grammar, mutated, or random; the whole tree (alternative, elements, amounts, values, remaining) compared with an independent recursive-descent parser working on positions; once in 500, a simple grammar with one huge dimension (lists of up to 66000, recursions 4100 deep, 300 alternatives, parts of a line or levels of tokens). Non-trivial: a match that needed a second alternative, a missing optional element, a recursion or a nested token.",
		Quick:    600000,
		Thorough: 18000000,
	}, orHuge(500, drawAst(core, 35), "list", "list", "deep", "chain", "lines", "containers"), compareCase(func(ref *mTree, m *refParser) bool {
		return ref != nil && ref.ok && (m.stats["second-line"]+m.stats["optional-missing"]+m.stats["recursion"] > 0 || depthOf(ref) > 1)
	}))

	// ---- A03 ----
	chans := plainOpts()
	chans.channels, chans.conditions, chans.toks, chans.rich = 100, 45, 3, 30
	register(Prop{
		ID:       "A03",
		Rule:     "as A02, with 1-3 channels (most of one or two bytes, some made of the same bytes as the grammar, a third made of tokens, everythings with and without escape, composes, recursions and optional parts), half of them with a condition on what comes before, after, or both; data with channels between any two values; prefixes, suffixes and conditions compared with the reference parser; once in 600, up to 252 channels or up to 8200 bytes to skip. Non-trivial: a channel was skipped.",
		Quick:    450000,
		Thorough: 13500000,
		Assume:   []string{"the tokens of the conditions match at least one byte"},
	}, orHuge(600, drawAst(chans, 25), "channels", "skipped"), compareCase(func(ref *mTree, m *refParser) bool {
		return ref != nil && ref.ok && m.stats["prefix"]+m.stats["suffix"] > 0
	}))

	// ---- A04 ----
	every := plainOpts()
	every.every, every.esc, every.channels, every.nested, every.comp = 25, 60, 30, 20, 4
	register(Prop{
		ID:       "A04",
		Rule:     "random grammars where a quarter of the containers take everything up to an exception token of 1-3 alternatives, 60% of them with an escape token; data with exceptions, escaped exceptions, consecutive escapes and escapes at the end; trees compared with the reference parser; once in 300, up to 66000 bytes up to the exception, with up to 1400 escapes. Non-trivial: an exception stopped an everything, or an exception was escaped.",
		Quick:    160000,
		Thorough: 4800000,
	}, orHuge(300, drawAst(every, 25), "everything", "escapes"), compareCase(func(ref *mTree, m *refParser) bool {
		return m.stats["everything"] > 0 && m.stats["exception"]+m.stats["escape"] > 0
	}))

	// ---- A05 ----
	ext := plainOpts()
	ext.ext, ext.depth, ext.channels, ext.conditions, ext.nested, ext.every, ext.esc, ext.shadow = 22, 2, 50, 20, 25, 4, 30, 25
	ext.suites = 4
	externals, exceptions := orHuge(300, drawAst(ext, 25), "externals"), drawExternalException(ext)
	register(Prop{
		ID:       "A05",
		Rule:     "random grammars with externals: other grammars, with their own channels and tokens, up to two levels deep, anywhere in a line and repeated, some with the names of the grammar around them, or within the exception of an everything, where their channels depend on the data before them; trees compared with the reference parser, where an external starts with nothing of the grammar around it and gives back the data after it; once in 300, up to 260 levels of externals or 4100 in a row. Non-trivial: an external was matched.",
		Quick:    120000,
		Thorough: 3600000,
	}, func(t *rapid.T) astCase {
		if chance(t, "exception", 8) {
			return exceptions(t)
		}
		return externals(t)
	}, compareCase(func(ref *mTree, m *refParser) bool { return m.stats["external"] > 0 }))

	// ---- A06 ----
	comp := plainOpts()
	comp.comp, comp.channels = 35, 30
	register(Prop{
		ID:       "A06",
		Rule:     "random grammars where a third of the containers are composes of 1-3 bytes repeated 1-3 times, parsed as in A02; and random tokens made of composes (and sometimes of elements, or of two lines): composing gives the bytes in order, each as often as asked, or an error for tokens that are not composable; parsing what was composed matches all of it; once in 800, a byte repeated up to 66000 times. Non-trivial: a compose was matched or composed.",
		Quick:    800000,
		Thorough: 24000000,
	}, func(t *rapid.T) composeCase {
		if chance(t, "compose", 40) {
			g := &Gram{Toks: []Tok{{}}}
			lines := 1
			if chance(t, "two lines", 15) {
				lines = 2
			}
			for i := 0; i < lines; i++ {
				line := []Cont{}
				for k := intIn(t, "containers", 1, 4); k > 0; k-- {
					if chance(t, "element", 8) {
						line = append(line, Cont{K: "v", V: int('a'), Min: 1})
						continue
					}
					cp := [][]int{}
					for e := intIn(t, "elements", 1, 4); e > 0; e-- {
						cp = append(cp, []int{rapid.IntRange(0, 255).Draw(t, "value"), intIn(t, "occurences", 1, 6)})
						if rare(t, "long compose", 100) {
							cp[len(cp)-1][1] = wideAmount(t)
						}
					}
					line = append(line, Cont{K: "c", Cp: cp})
				}
				g.Toks[0].Lines = append(g.Toks[0].Lines, line)
			}
			return composeCase{Compose: true, Case: astCase{G: g}}
		}
		return composeCase{Case: orHuge(800, drawAst(comp, 30), "compose")(t)}
	}, checkCompose)

	// ---- A07, A08 ----
	cov := plainOpts()
	cov.suites, cov.channels, cov.conditions, cov.every, cov.esc, cov.ext, cov.depth, cov.toks = 60, 35, 30, 6, 40, 6, 1, 4
	cov.sameExtName = true
	drawCov := func(oneIn int) func(t *rapid.T) astCase {
		return func(t *rapid.T) astCase {
			if rare(t, "huge", oneIn) {
				return drawHugeSuites(t)
			}
			return astCase{G: uniqueExternals(drawGram(t, cov, "g"), new(int))}
		}
	}
	register(Prop{
		ID:       "A07",
		Rule:     "random grammars of up to 4 tokens and 3 channels, in which 60% of the tokens have 1-3 suites declared valid or invalid, of random bytes or made by walking their token (with channels), externals included; every suite of every token that can be reached is executed exactly once, on its bytes, its token alone, and its result is the tree or the error the reference parser gives; the reports of errors agree; once in 400, a grammar with one huge dimension (as in A02 and A03) with suites that need it, or 300 suites of a token. Non-trivial: three or more executions, with trees and errors.",
		Quick:    240000,
		Thorough: 7200000,
	}, drawCov(400), checkCoverages)
	register(Prop{
		ID:       "A08",
		Rule:     "the grammars of A07, huge ones included: the covered elements are exactly those that the successful trees of the executions went through, by token, line and position; the uncovered ones are exactly all the other elements of the grammar, its channels, exceptions, escapes and externals. Non-trivial: some elements are covered and some are not.",
		Quick:    200000,
		Thorough: 6000000,
		Assume:   []string{"an external has the name of its grammar's root", "token names are unique"},
	}, drawCov(400), checkCovered)

	// ---- A09 ----
	fetch := plainOpts()
	fetch.toks, fetch.nested, fetch.ext, fetch.depth, fetch.every, fetch.channels = 5, 45, 5, 1, 4, 20
	register(Prop{
		ID:       "A09",
		Rule:     "random trees from the grammars of A05; for every name of the grammar and one that is not in it, fetching gives the first tree or element of that name in a depth-first walk, or an error when there is none, from the tree, from its elements and, by index, among its direct elements; once in 500, a tree with one huge dimension (as in A02). Non-trivial: a name was found below the first level.",
		Quick:    240000,
		Thorough: 7200000,
		Assume:   []string{"an index other than zero is only used for names of direct elements that do not appear deeper"},
	}, orHuge(500, drawAst(fetch, 10), "list", "deep", "chain", "containers", "externals"), checkFetch)

	// ---- A10 ----
	pure := plainOpts()
	pure.channels, pure.conditions, pure.every, pure.esc, pure.ext, pure.depth, pure.suites, pure.sameExtName = 50, 30, 8, 40, 6, 1, 30, true
	register(Prop{
		ID:       "A10",
		Rule:     "one to three random grammars whose tokens have the same names (another one, one that differs by an element, or one made of the same tokens with other channels) and 2-4 inputs; one application executes them in random order, again after one another and from 4 goroutines at once, interleaved with coverage runs and with every way of reading the trees; each input gives the tree it gave alone on a new application and a newly built grammar, keeps it whatever is executed later, and neither input nor grammar changes; once in 150, a grammar with one huge dimension (as in A02 and A03). Non-trivial: two inputs with different trees.",
		Quick:    30000,
		Thorough: 900000,
	}, func(t *rapid.T) pureCase {
		if rare(t, "huge", 150) {
			a := drawHuge(t, oneOf(t, "kind", "list", "chain", "lines", "containers", "channels", "skipped", "compose"))
			return pureCase{G: a.G, Data: []B{B(a.Data), B(a.Data[:1+len(a.Data)/2]), B(a.Data)}, Of: []int{0, 0, 0}, Order: []int{0, 1, 2, 0, 3, 1}[:3+uniform(t, "order", 4)], Huge: a.Huge}
		}
		g := uniqueExternals(drawGram(t, pure, "g"), new(int))
		c := pureCase{G: g}
		if chance(t, "more", 50) {
			for k := intIn(t, "grammars", 1, 2); k > 0; k-- {
				switch uniform(t, "other", 3) {
				case 0: // another one, with the same names
					c.More = append(c.More, uniqueExternals(drawGram(t, pure, "g"), new(int)))
				case 1: // the same, but for one element
					other := copyGram(g)
					alterGram(t, other, pure)
					c.More = append(c.More, other)
				case 2: // the same tokens, with other channels
					other := copyGram(g)
					if other.Chans = nil; len(g.Chans) > 1 && chance(t, "one channel", 50) {
						other.Chans = g.Chans[:1]
					}
					c.More, c.Share = append(c.More, other), k == 1
				}
			}
		}
		for k := intIn(t, "inputs", 2, 4); k > 0; k-- {
			of := uniform(t, "of", len(c.More)+1)
			from := c.grams()[of]
			if len(c.Data) > 0 && chance(t, "same data", 30) {
				c.Data = append(c.Data, c.Data[0])
			} else {
				c.Data = append(c.Data, B(drawSentence(t, from, pure, 30)))
			}
			c.Of = append(c.Of, of)
		}
		for k := intIn(t, "order", 2, 8); k > 0; k-- {
			c.Order = append(c.Order, uniform(t, "input", len(c.Data)+1+len(c.More)))
		}
		return c
	}, checkPure)

	// ---- A11 ----
	rec := plainOpts()
	rec.rec, rec.optional, rec.toks, rec.every, rec.esc, rec.channels, rec.comp = 28, 50, 4, 6, 50, 20, 2
	register(Prop{
		ID:       "A11",
		Rule:     "random grammars in which a third of the containers are recursive (left, mutual, nested, through optional elements, or to tokens that are not in progress) and half of the elements optional, with random and grammar-made data, empty data included; executing returns a tree or an error, the one the reference parser gives; once in 400, recursions 4100 deep or 300 levels of tokens. Non-trivial: an alternative was refused because it was already in progress on the same data.",
		Quick:    120000,
		Thorough: 3600000,
	}, orHuge(400, drawAst(rec, 40), "deep", "chain"), compareCase(func(ref *mTree, m *refParser) bool { return m.stats["left-recursion"] > 0 }))
}

func depthOf(t *mTree) int {
	out := 0
	for _, el := range t.els {
		for _, c := range el.contents {
			if c.tree != nil {
				out = max(out, depthOf(c.tree))
			}
		}
	}
	return out + 1
}

// ---- A01 ----

func leaves(t trees.Tree, channels bool) []byte {
	out := []byte{}
	if !t.Block().HasSuccessful() {
		return out
	}
	for _, el := range t.Block().Successful().Elements().List() {
		out = append(out, elementLeaves(el, channels)...)
	}
	if channels && t.HasSuffix() {
		for _, s := range t.Suffix().List() {
			out = append(out, leaves(s, true)...)
		}
	}
	return out
}

func elementLeaves(el trees.Element, channels bool) []byte {
	out := []byte{}
	for _, c := range el.Contents().List() {
		out = append(out, contentLeaves(c, channels)...)
	}
	return out
}

func contentLeaves(c trees.Content, channels bool) []byte {
	if c.IsTree() {
		return leaves(c.Tree(), channels)
	}
	out := []byte{}
	if channels && c.Value().HasPrefix() {
		for _, s := range c.Value().Prefix().List() {
			out = append(out, leaves(s, true)...)
		}
	}
	return append(out, c.Value().Content())
}

// walkLossless verifies that each tree consumed the data between its beginning and its remaining data.
func walkLossless(t trees.Tree, data []byte) error {
	name := t.Grammar().Name()
	for _, channels := range []bool{true, false} {
		if want, got := leaves(t, channels), t.Bytes(channels); !bytes.Equal(want, got) {
			return fmt.Errorf("token %s: Bytes(%v) is %q, its leaves are %q", name, channels, got, want)
		}
	}
	if !t.Block().HasSuccessful() {
		return nil
	}
	remaining := []byte{}
	if t.HasRemaining() {
		remaining = t.Remaining()
	}
	if got := append(append([]byte{}, t.Bytes(true)...), remaining...); !bytes.Equal(got, data) {
		return fmt.Errorf("token %s was given %q, its tree contains %q and leaves %q", name, data, t.Bytes(true), remaining)
	}
	at := data
	for _, el := range t.Block().Successful().Elements().List() {
		for _, channels := range []bool{true, false} {
			if want, got := elementLeaves(el, channels), el.Bytes(channels); !bytes.Equal(want, got) {
				return fmt.Errorf("an element of token %s: Bytes(%v) is %q, its leaves are %q", name, channels, got, want)
			}
		}
		for _, c := range el.Contents().List() {
			for _, channels := range []bool{true, false} {
				if want, got := contentLeaves(c, channels), c.Bytes(channels); !bytes.Equal(want, got) {
					return fmt.Errorf("a content of token %s: Bytes(%v) is %q, its leaves are %q", name, channels, got, want)
				}
			}
			all := c.Bytes(true)
			if !bytes.HasPrefix(at, all) {
				return fmt.Errorf("a content of token %s contains %q where the data is %q", name, all, at)
			}
			if c.IsTree() {
				if err := walkLossless(c.Tree(), at); err != nil {
					return err
				}
			} else if c.Value().HasPrefix() {
				pos := at
				for _, s := range c.Value().Prefix().List() {
					if err := walkLossless(s, pos); err != nil {
						return err
					}
					pos = pos[len(s.Bytes(true)):]
				}
				if want, got := at[:len(at)-len(pos)], c.Value().Prefix().Bytes(true); !bytes.Equal(want, got) {
					return fmt.Errorf("the channels before a value of token %s are %q, not %q", name, got, want)
				}
			}
			at = at[len(all):]
		}
	}
	if t.HasSuffix() {
		for _, s := range t.Suffix().List() {
			if err := walkLossless(s, at); err != nil {
				return err
			}
			at = at[len(s.Bytes(true)):]
		}
	}
	return nil
}

func checkLossless(c astCase, rec *Rec) error {
	ref, m, err := parseRef(c.G, "g", c.Data, stepsFor(c.Data))
	if err != nil {
		rec.Label("discarded: too many steps")
		return nil
	}
	label(rec, m)
	rec.LabelIf(c.Huge != "", "huge: "+c.Huge)
	input := append([]byte{}, c.Data...)
	tree, err := astApp().Execute(buildGrammar(c.G, "g"), input)
	if !bytes.Equal(input, c.Data) {
		return fmt.Errorf("the input was modified: %q became %q", c.Data, input)
	}
	if err != nil {
		if ref != nil && ref.ok {
			return fmt.Errorf("%q should match: %v", c.Data, err)
		}
		return nil
	}
	if tree == nil {
		return fmt.Errorf("no tree and no error")
	}
	if tree.Block().HasSuccessful() {
		rec.Label("matched")
		rec.NonTrivial = len(tree.Bytes(true)) > 2 && ref != nil && (m.stats["prefix"]+m.stats["suffix"] > 0 || depthOf(ref) > 1)
	}
	return walkLossless(tree, input)
}

// ---- A06 ----

type composeCase struct {
	Compose bool    `json:"compose,omitempty"`
	Case    astCase `json:"case"`
}

func checkCompose(c composeCase, rec *Rec) error {
	if !c.Compose {
		_, m, _, err := runBoth(c.Case, rec)
		rec.NonTrivial = m != nil && m.stats["compose"] > 0
		return err
	}
	grammar := buildGrammar(c.Case.G, "g")
	lines := c.Case.G.Toks[0].Lines
	possible := len(lines) == 1
	want := []byte{}
	for _, one := range lines[0] {
		if one.K != "c" {
			possible = false
		}
		want = append(want, composeBytes(one.Cp)...)
	}
	got, err := astApp().Compose(grammar.Root())
	if !possible {
		rec.Label("not composable")
		if err == nil {
			return fmt.Errorf("a token that is not a single line of composes was composed into %q", got)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("a composable token was refused: %v", err)
	}
	if !bytes.Equal(want, got) {
		return fmt.Errorf("composed %q, expected %q", got, want)
	}
	rec.Label("composed")
	rec.NonTrivial = len(want) > 1
	tree, err := astApp().Execute(grammar, got)
	if err != nil || !tree.Block().HasSuccessful() || tree.HasRemaining() || !bytes.Equal(tree.Bytes(true), want) {
		return fmt.Errorf("what was composed (%q) does not parse back: %s", got, realDump(tree, err))
	}
	return nil
}

// ---- A07 ----

type refExecution struct {
	tok   string
	valid bool
	input []byte
	dump  string
	isErr bool
	tree  *mTree
}

// refCoverages lists what should be executed, in no particular order.
func refCoverages(g *Gram, prefix string, limit int) (list []refExecution, err error) {
	visited := map[int]bool{}
	var visit func(ti int, chans []Chan) error
	visit = func(ti int, chans []Chan) error {
		if visited[ti] {
			return nil
		}
		visited[ti] = true
		for _, s := range g.Toks[ti].Suites {
			input := composeBytes(s.Cp)
			tree, err := parseRefToken(g, prefix, ti, chans, input, limit)
			if err != nil {
				return err
			}
			list = append(list, refExecution{tokName(prefix, ti), s.Valid, input, refDump(tree, len(input)), tree == nil, tree})
		}
		for _, line := range g.Toks[ti].Lines {
			for _, c := range line {
				switch c.K {
				case "t":
					if err := visit(c.T, chans); err != nil {
						return err
					}
				case "e":
					if err := visit(c.T, chans); err != nil {
						return err
					}
					if c.Esc != nil {
						if err := visit(*c.Esc, chans); err != nil {
							return err
						}
					}
				case "x":
					sub, err := refCoverages(c.X, extPrefix(c.XN), limit)
					if err != nil {
						return err
					}
					list = append(list, sub...)
				}
			}
		}
		return nil
	}
	if err := visit(0, g.Chans); err != nil {
		return nil, err
	}
	for _, ch := range g.Chans {
		if err := visit(ch.T, nil); err != nil {
			return nil, err
		}
	}
	return list, nil
}

func parseRefToken(g *Gram, prefix string, ti int, chans []Chan, data []byte, limit int) (tree *mTree, err error) {
	m := &refParser{data: data, limit: limit, stats: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooManySteps); ok {
				err = errSteps
				return
			}
			panic(r)
		}
	}()
	return m.token(g, prefix, ti, mStack{}, chans, len(data), 0), nil
}

func realExecutions(covs coverages.Coverages) ([]string, bool, error) {
	out := []string{}
	anyErr := false
	if covs == nil {
		return out, false, nil
	}
	for _, cov := range covs.List() {
		covErr := false
		for _, ex := range cov.Executions().List() {
			input := []byte{}
			for _, el := range ex.Expectation().Content().List() {
				for i := 0; i < int(el.Occurences()); i++ {
					input = append(input, el.Value().Number())
				}
			}
			res := ex.Result()
			if res.IsError() == res.IsTree() {
				return nil, false, fmt.Errorf("a result is both or neither a tree and an error")
			}
			dump := "error"
			if res.IsTree() {
				dump = realDump(res.Tree(), nil)
			} else {
				covErr = true
			}
			out = append(out, fmt.Sprintf("%s valid=%v %q\n%s", cov.Token().Name(), ex.Expectation().IsValid(), input, dump))
		}
		if cov.Executions().ContainsError() != covErr {
			return nil, false, fmt.Errorf("token %s: reports errors: %v, has errors: %v", cov.Token().Name(), cov.Executions().ContainsError(), covErr)
		}
		anyErr = anyErr || covErr
	}
	return out, anyErr, nil
}

func checkCoverages(c astCase, rec *Rec) error {
	want, err := refCoverages(c.G, "g", stepsForSuites(c))
	if err != nil {
		rec.Label("discarded: too many steps")
		return nil
	}
	covs, err := astApp().Coverages(buildGrammar(c.G, "g"))
	if err != nil {
		return fmt.Errorf("the coverages failed: %v", err)
	}
	got, anyErr, err := realExecutions(covs)
	if err != nil {
		return err
	}
	wantTexts := []string{}
	errs := 0
	for _, one := range want {
		wantTexts = append(wantTexts, fmt.Sprintf("%s valid=%v %q\n%s", one.tok, one.valid, one.input, one.dump))
		if one.isErr {
			errs++
		}
	}
	sort.Strings(wantTexts)
	sort.Strings(got)
	if a, b := strings.Join(wantTexts, "\n"), strings.Join(got, "\n"); a != b {
		return fmt.Errorf("the executions are not the expected ones: %s", diffText(a, b))
	}
	if covs != nil && (covs.ContainsError() != anyErr || anyErr != (errs > 0)) {
		return fmt.Errorf("reports errors: %v, has errors: %v", covs.ContainsError(), anyErr)
	}
	rec.LabelIf(len(want) == 0, "no suites")
	rec.LabelIf(errs > 0, "errors")
	rec.LabelIf(c.Huge != "", "huge: "+c.Huge)
	rec.Evals = 1 + len(want)
	rec.NonTrivial = len(want) >= 3 && errs > 0 && errs < len(want)
	return nil
}

// ---- A08 ----

func refCovered(t *mTree, tok string, out map[string]bool) {
	if !t.ok || t.reverse {
		return
	}
	for _, el := range t.els {
		out[fmt.Sprintf("%s/%d/%d/%s", tok, t.line, el.ci, el.name)] = true
		for _, c := range el.contents {
			if c.tree != nil {
				refCovered(c.tree, el.name, out)
			}
		}
	}
}

func refElements(g *Gram, prefix string, out map[string]bool) {
	seen := map[int]bool{}
	var visit func(ti int)
	visit = func(ti int) {
		if seen[ti] {
			return
		}
		seen[ti] = true
		for li, line := range g.Toks[ti].Lines {
			for ci, c := range line {
				if c.K == "c" {
					continue
				}
				out[fmt.Sprintf("%s/%d/%d/%s", tokName(prefix, ti), li, ci, contName(prefix, c))] = true
				switch c.K {
				case "t":
					visit(c.T)
				case "e":
					visit(c.T)
					if c.Esc != nil {
						visit(*c.Esc)
					}
				case "x":
					refElements(c.X, extPrefix(c.XN), out)
				}
			}
		}
	}
	visit(0)
	for _, ch := range g.Chans {
		visit(ch.T)
	}
}

func flatten(mp map[string]map[uint]map[uint]string) map[string]bool {
	out := map[string]bool{}
	for tok, lines := range mp {
		for li, els := range lines {
			for ci, name := range els {
				out[fmt.Sprintf("%s/%d/%d/%s", tok, li, ci, name)] = true
			}
		}
	}
	return out
}

func compareSets(what string, want, got map[string]bool) error {
	for _, k := range sortedKeys(want) {
		if !got[k] {
			return fmt.Errorf("%s: %s is missing (expected %v, got %v)", what, k, sortedKeys(want), sortedKeys(got))
		}
	}
	for _, k := range sortedKeys(got) {
		if !want[k] {
			return fmt.Errorf("%s: %s should not be there (expected %v, got %v)", what, k, sortedKeys(want), sortedKeys(got))
		}
	}
	return nil
}

func checkCovered(c astCase, rec *Rec) error {
	list, err := refCoverages(c.G, "g", stepsForSuites(c))
	if err != nil {
		rec.Label("discarded: too many steps")
		return nil
	}
	covered, all := map[string]bool{}, map[string]bool{}
	composes := 0
	for _, one := range list {
		if one.tree != nil {
			refCovered(one.tree, one.tok, covered)
		}
	}
	refElements(c.G, "g", all)
	uncovered := map[string]bool{}
	for k := range all {
		if !covered[k] {
			uncovered[k] = true
		}
	}
	for k := range covered {
		if !all[k] {
			composes++ // a compose, which is not an element
		}
	}
	app := astApp()
	grammar := buildGrammar(c.G, "g")
	covs, err := app.Coverages(grammar)
	if err != nil {
		return fmt.Errorf("the coverages failed: %v", err)
	}
	gotCovered, err := app.Covered(covs)
	if err != nil {
		return fmt.Errorf("covered failed: %v", err)
	}
	if err := compareSets("covered", covered, flatten(gotCovered)); err != nil {
		return err
	}
	gotUncovered, err := app.Uncovered(grammar)
	if err != nil {
		return fmt.Errorf("uncovered failed: %v", err)
	}
	if err := compareSets("uncovered", uncovered, flatten(gotUncovered)); err != nil {
		return err
	}
	rec.LabelIf(len(list) == 0, "no suites")
	rec.LabelIf(len(uncovered) == 0, "all covered")
	rec.LabelIf(c.Huge != "", "huge: "+c.Huge)
	rec.NonTrivial = len(covered) > 0 && len(uncovered) > 0
	return nil
}

// ---- A09 ----

type mFound struct {
	tree *mTree
	el   *mElement
}

func refFetch(t *mTree, name string) *mFound {
	if t.name == name {
		return &mFound{tree: t}
	}
	if !t.ok {
		return nil
	}
	for i := range t.els {
		if f := refFetchElement(&t.els[i], name); f != nil {
			return f
		}
	}
	return nil
}

func refFetchElement(el *mElement, name string) *mFound {
	if el.ci >= 0 && el.name == name {
		return &mFound{el: el}
	}
	for _, c := range el.contents {
		if c.tree != nil {
			if f := refFetch(c.tree, name); f != nil {
				return f
			}
		}
	}
	return nil
}

func foundDump(f *mFound, n int) string {
	if f == nil {
		return "error"
	}
	sb := &strings.Builder{}
	if f.tree != nil {
		sb.WriteString("tree\n")
		f.tree.dump(sb, n, 0)
		return sb.String()
	}
	sb.WriteString("element\n")
	el := *f.el
	el.ci = 0
	el.dump(sb, n, 0)
	return sb.String()
}

func realFoundDump(t trees.Tree, el trees.Element, err error) string {
	if err != nil {
		if t != nil || el != nil {
			return "an error and a result"
		}
		return "error"
	}
	if (t != nil) == (el != nil) {
		return "neither or both of a tree and an element"
	}
	sb := &strings.Builder{}
	if t != nil {
		sb.WriteString("tree\n")
		dumpTree(sb, t, 0)
		return sb.String()
	}
	sb.WriteString("element\n")
	dumpElement(sb, el, 0, 0)
	return sb.String()
}

func gramNames(g *Gram, prefix string, out map[string]bool) {
	for ti, tok := range g.Toks {
		out[tokName(prefix, ti)] = true
		for _, line := range tok.Lines {
			for _, c := range line {
				out[contName(prefix, c)] = true
				if c.K == "x" {
					gramNames(c.X, extPrefix(c.XN), out)
				}
			}
		}
	}
}

func checkFetch(c astCase, rec *Rec) error {
	ref, m, tree, err := runBoth(c, rec)
	if err != nil || m == nil || tree == nil {
		return err
	}
	n := len(c.Data)
	names := map[string]bool{"missing": true}
	gramNames(c.G, "g", names)
	for _, name := range sortedKeys(names) {
		want := refFetch(ref, name)
		t, el, err := tree.Fetch(name, 0)
		if a, b := foundDump(want, n), realFoundDump(t, el, err); a != b {
			return fmt.Errorf("fetching %s: %s\nin:\n%s", name, diffText(a, b), refDump(ref, n))
		}
		if want == nil {
			rec.Label("fetch: none")
			continue
		}
		rec.Label("fetch: found")
		deep := true
		if want.tree == ref {
			continue
		}
		if !ref.ok {
			continue
		}
		direct := []*mElement{}
		below := 0
		list := tree.Block().Successful().Elements().List()
		for i := range ref.els {
			one := &ref.els[i]
			wantEl := refFetchElement(one, name)
			t, el, err := list[i].Fetch(name, 0)
			if a, b := foundDump(wantEl, n), realFoundDump(t, el, err); a != b {
				return fmt.Errorf("fetching %s from element %d: %s", name, i, diffText(a, b))
			}
			if one.ci >= 0 && one.name == name {
				direct = append(direct, one)
				deep = false
				continue
			}
			if wantEl != nil {
				below++
			}
		}
		rec.NonTrivial = rec.NonTrivial || deep
		if below > 0 {
			continue
		}
		for i := 0; i <= len(direct); i++ {
			var want *mFound
			if i < len(direct) {
				want = &mFound{el: direct[i]}
			}
			t, el, err := tree.Fetch(name, uint(i))
			if a, b := foundDump(want, n), realFoundDump(t, el, err); a != b {
				return fmt.Errorf("fetching %s at index %d: %s\nin:\n%s", name, i, diffText(a, b), refDump(ref, n))
			}
			rec.LabelIf(i > 0 && want != nil, "fetch: by index")
		}
	}
	return nil
}

// ---- A10 ----

type pureCase struct {
	G     *Gram   `json:"g"`
	More  []*Gram `json:"more,omitempty"`  // other grammars, whose tokens have the same names
	Share bool    `json:"share,omitempty"` // the last one is made of the tokens of the first
	Data  []B     `json:"data"`
	Of    []int   `json:"of,omitempty"` // the grammar of each input, 0 being the first
	Order []int   `json:"order"`        // index of the input, from len(data): the coverages of a grammar
	Huge  string  `json:"huge,omitempty"`
}

func (c pureCase) grams() []*Gram { return append([]*Gram{c.G}, c.More...) }

func (c pureCase) of(i int) int {
	if i < len(c.Of) {
		return c.Of[i]
	}
	return 0
}

// build builds all the grammars.
func (c pureCase) build() []grammars.Grammar {
	b := &gramBuilder{map[string]grammars.Token{}, c.G.Share, map[string]any{}}
	out := []grammars.Grammar{b.grammar(c.G, "g")}
	for k, g := range c.More {
		if c.Share && k == len(c.More)-1 {
			out = append(out, b.grammar(g, "g"))
			continue
		}
		out = append(out, buildGrammar(g, "g"))
	}
	return out
}

func copyGram(g *Gram) *Gram {
	out := &Gram{}
	if err := json.Unmarshal(must(json.Marshal(g)), out); err != nil {
		panic(&harnessError{err.Error()})
	}
	return out
}

// alterGram changes one container of the grammar, keeping all names.
func alterGram(t *rapid.T, g *Gram, o gramOpts) {
	tok := &g.Toks[uniform(t, "token", len(g.Toks))]
	line := tok.Lines[uniform(t, "line", len(tok.Lines))]
	c := &line[uniform(t, "container", len(line))]
	if c.K == "x" && chance(t, "inside", 70) {
		alterGram(t, c.X, o)
		return
	}
	if c.K != "c" && chance(t, "cardinality", 50) {
		drawCard(t, o, c)
		return
	}
	*c = Cont{K: "v", V: drawByte(t, o), Min: 1, Max: intPtr(1)}
}

// readAll uses every way of reading a tree.
func readAll(t trees.Tree, names []string) {
	t.Bytes(true)
	t.Bytes(false)
	for _, name := range names {
		t.Fetch(name, 0)
		t.Fetch(name, 1)
	}
	if t.HasSuffix() {
		t.Suffix().Bytes(true)
		for _, one := range t.Suffix().List() {
			readAll(one, nil)
		}
	}
	if !t.Block().HasSuccessful() {
		return
	}
	for _, el := range t.Block().Successful().Elements().List() {
		el.Bytes(true)
		el.Bytes(false)
		el.Amount()
		for _, name := range names {
			el.Fetch(name, 0)
		}
		for _, c := range el.Contents().List() {
			c.Bytes(true)
			if c.IsTree() {
				readAll(c.Tree(), nil)
				continue
			}
			if v := c.Value(); v.HasPrefix() {
				v.Prefix().Bytes(true)
				for _, one := range v.Prefix().List() {
					readAll(one, nil)
				}
			}
		}
	}
}

func checkPure(c pureCase, rec *Rec) error {
	grams, n := c.grams(), len(c.Data)
	want := make([]string, n+len(grams))
	for i, data := range c.Data {
		if _, _, err := parseRef(grams[c.of(i)], "g", data, stepsFor(data)/4); err != nil {
			rec.Label("discarded: too many steps")
			return nil
		}
		tree, err := astApp().Execute(c.build()[c.of(i)], append([]byte{}, data...))
		want[i] = realDump(tree, err)
	}
	for _, g := range grams {
		if _, err := refCoverages(g, "g", stepLimit/4); err != nil {
			rec.Label("discarded: too many steps")
			return nil
		}
	}
	names := []string{"v97", "gt0", "gt1", "x1_t0", "nothing"}
	type kept struct {
		i     int
		tree  trees.Tree
		input []byte
	}
	run := func(app applications.Application, all []grammars.Grammar, i int) (string, *kept, error) {
		if i >= n {
			g := all[i-n]
			un, err := app.Uncovered(g)
			if err != nil {
				return "", nil, err
			}
			covs, err := app.Coverages(g)
			if err != nil {
				return "", nil, err
			}
			ex, _, err := realExecutions(covs)
			if err != nil {
				return "", nil, err
			}
			return strings.Join(sortedKeys(flatten(un)), " ") + "\n" + strings.Join(ex, "\n"), nil, nil
		}
		input := append(append([]byte{}, c.Data[i]...), []byte("extra capacity")...)
		unchanged := func() error {
			if !bytes.Equal(input, append(append([]byte{}, c.Data[i]...), []byte("extra capacity")...)) {
				return fmt.Errorf("the input was modified: %q became %q", c.Data[i], input)
			}
			return nil
		}
		tree, err := app.Execute(all[c.of(i)], input[:len(c.Data[i])])
		if err := unchanged(); err != nil {
			return "", nil, err
		}
		first := realDump(tree, err)
		if err != nil {
			return first, nil, nil
		}
		readAll(tree, names)
		if again := realDump(tree, err); again != first {
			return "", nil, fmt.Errorf("reading the tree changed it: %s", diffText(first, again))
		}
		return first, &kept{i, tree, input[:len(c.Data[i])]}, unchanged()
	}
	var err error
	for k := range grams {
		if want[n+k], _, err = run(astApp(), c.build(), n+k); err != nil {
			return err
		}
	}
	app, all := astApp(), c.build()
	keep := []*kept{}
	for k, i := range c.Order {
		got, one, err := run(app, all, i)
		if err != nil {
			return err
		}
		if got != want[i] {
			return fmt.Errorf("execution %d, of input %d: %s", k, i, diffText(want[i], got))
		}
		if one != nil {
			keep = append(keep, one)
		}
	}
	var wg sync.WaitGroup
	errs := make(chan error, 8)
	for w := 0; w < 4; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Errorf("panic: %v", r)
				}
			}()
			for k := range c.Order {
				i := c.Order[(k+w)%len(c.Order)]
				got, _, err := run(app, all, i)
				if err == nil && got != want[i] {
					err = fmt.Errorf("concurrent execution of input %d: %s", i, diffText(want[i], got))
				}
				if err != nil {
					errs <- err
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	// the trees of the first executions are what they were, whatever was executed since
	for _, one := range keep {
		if got := realDump(one.tree, nil); got != want[one.i] {
			return fmt.Errorf("the tree of input %d changed while others were parsed: %s", one.i, diffText(want[one.i], got))
		}
		if !bytes.Equal(one.input, c.Data[one.i]) {
			return fmt.Errorf("input %q became %q while others were parsed", c.Data[one.i], one.input)
		}
	}
	rec.Evals = 5*len(c.Order) + n
	rec.LabelIf(len(c.More) > 0, "several grammars")
	rec.LabelIf(c.Share, "shared tokens")
	rec.LabelIf(c.Huge != "", "huge: "+c.Huge)
	for _, one := range want[:n] {
		rec.NonTrivial = rec.NonTrivial || one != want[0]
	}
	return nil
}
