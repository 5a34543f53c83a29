package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"pgregory.net/rapid"
)

// ---- grammars as data ----

// Gram is a grammar: the root is the first token, a token only contains tokens that come after it.
type Gram struct {
	Toks  []Tok  `json:"toks"`
	Chans []Chan `json:"chans,omitempty"`
	// Share: the parts that are the same are the same instance
	Share bool `json:"share,omitempty"`
}

// Tok is a token: the alternatives, in order
type Tok struct {
	Lines  [][]Cont `json:"lines"`
	Suites []Suite  `json:"suites,omitempty"`
}

// Cont is a container of a line
type Cont struct {
	K   string  `json:"k"` // v value, t token, r recursive, x external, e everything, c compose
	V   int     `json:"v,omitempty"`
	T   int     `json:"t,omitempty"`   // t, r: the token; e: the exception
	Esc *int    `json:"esc,omitempty"` // e: the escape
	X   *Gram   `json:"x,omitempty"`
	XN  string  `json:"xn,omitempty"` // name of the external
	Cp  [][]int `json:"cp,omitempty"` // c: value, occurences
	Min int     `json:"min"`
	Max *int    `json:"max,omitempty"`
}

// Chan is a channel
type Chan struct {
	T    int  `json:"t"`
	Prev *int `json:"prev,omitempty"`
	Next *int `json:"next,omitempty"`
}

// Suite is a test suite of a token
type Suite struct {
	Valid bool    `json:"valid"`
	Cp    [][]int `json:"cp"`
}

func contName(prefix string, c Cont) string {
	switch c.K {
	case "v":
		return "v" + strconv.Itoa(c.V)
	case "t", "r":
		return tokName(prefix, c.T)
	case "x":
		return c.XN
	case "e":
		if c.Esc != nil {
			return fmt.Sprintf("%se%d_%d", prefix, c.T, *c.Esc)
		}
		return fmt.Sprintf("%se%d", prefix, c.T)
	}
	return "c" + composeText(c.Cp)
}

func composeText(cp [][]int) string {
	out := ""
	for _, one := range cp {
		out += fmt.Sprintf("_%dx%d", one[0], one[1])
	}
	return out
}

func composeBytes(cp [][]int) []byte {
	out := []byte{}
	for _, one := range cp {
		for i := 0; i < one[1]; i++ {
			out = append(out, byte(one[0]))
		}
	}
	return out
}

func tokName(prefix string, i int) string { return prefix + "t" + strconv.Itoa(i) }

// prefix of the names in an external grammar: its root can be made to have the external's name.
func extPrefix(name string) string { return strings.TrimSuffix(name, "t0") + "" }

// ---- the real grammar ----

type gramBuilder struct {
	toks  map[string]grammars.Token
	share bool
	parts map[string]any
}

// part makes a part, or gives the one made before from the same description when they are shared.
func part[V any](b *gramBuilder, kind string, key any, fn func() V) V {
	if !b.share {
		return fn()
	}
	js, err := json.Marshal(key)
	if err != nil {
		panic(&harnessError{err.Error()})
	}
	name := kind + string(js)
	if ins, ok := b.parts[name]; ok {
		return ins.(V)
	}
	ins := fn()
	b.parts[name] = ins
	return ins
}

// must gives what a builder made of complete parts; refusing them breaks what the parts are built for.
func must[V any](v V, err error) V {
	if err != nil {
		panic(fmt.Errorf("a builder refused complete parts: %w", err))
	}
	return v
}

func buildGrammar(g *Gram, prefix string) grammars.Grammar {
	return (&gramBuilder{map[string]grammars.Token{}, g.Share, map[string]any{}}).grammar(g, prefix)
}

func (b *gramBuilder) grammar(g *Gram, prefix string) grammars.Grammar {
	root := b.token(g, prefix, 0)
	builder := grammars.NewBuilder().Create().WithRoot(root)
	if len(g.Chans) > 0 {
		list := []grammars.Channel{}
		for _, one := range g.Chans {
			cb := grammars.NewChannelBuilder().Create().WithToken(b.token(g, prefix, one.T))
			if one.Prev != nil || one.Next != nil {
				cond := grammars.NewChannelConditionBuilder().Create()
				if one.Prev != nil {
					cond.WithPrevious(b.token(g, prefix, *one.Prev))
				}
				if one.Next != nil {
					cond.WithNext(b.token(g, prefix, *one.Next))
				}
				cb.WithCondition(must(cond.Now()))
			}
			list = append(list, must(cb.Now()))
		}
		builder.WithChannels(must(grammars.NewChannelsBuilder().Create().WithList(list).Now()))
	}
	return must(builder.Now())
}

func buildCompose(cp [][]int) grammars.Compose {
	list := []grammars.ComposeElement{}
	for _, one := range cp {
		list = append(list, must(grammars.NewComposeElementBuilder().Create().WithValue(buildValue(one[0])).WithOccurences(uint(one[1])).Now()))
	}
	return must(grammars.NewComposeBuilder().Create().WithName("c" + composeText(cp)).WithList(list).Now())
}

func (b *gramBuilder) compose(cp [][]int) grammars.Compose {
	return part(b, "compose", cp, func() grammars.Compose { return buildCompose(cp) })
}

func buildValue(v int) values.Value {
	return must(values.NewBuilder().Create().WithName(fmt.Sprintf("v%d", v)).WithNumber(byte(v)).Now())
}

func (b *gramBuilder) token(g *Gram, prefix string, i int) grammars.Token {
	name := tokName(prefix, i)
	if tok, ok := b.toks[name]; ok {
		return tok
	}
	spec := g.Toks[i]
	lines := []grammars.Line{}
	for _, oneLine := range spec.Lines {
		conts := []grammars.Container{}
		for _, c := range oneLine {
			conts = append(conts, part(b, "container", c, func() grammars.Container { return b.container(g, prefix, c) }))
		}
		lines = append(lines, part(b, "line", oneLine, func() grammars.Line {
			return must(grammars.NewLineBuilder().Create().WithContainers(conts).Now())
		}))
	}
	tb := grammars.NewTokenBuilder().Create().WithName(name).WithBlock(must(grammars.NewBlockBuilder().Create().WithLines(lines).Now()))
	if len(spec.Suites) > 0 {
		list := []grammars.Suite{}
		for _, s := range spec.Suites {
			sb := grammars.NewSuiteBuilder().Create()
			if s.Valid {
				sb.WithValid(b.compose(s.Cp))
			} else {
				sb.WithInvalid(b.compose(s.Cp))
			}
			list = append(list, must(sb.Now()))
		}
		tb.WithSuites(must(grammars.NewSuitesBuilder().Create().WithList(list).Now()))
	}
	tok := must(tb.Now())
	b.toks[name] = tok
	return tok
}

func (b *gramBuilder) container(g *Gram, prefix string, c Cont) grammars.Container {
	if c.K == "c" {
		return must(grammars.NewContainerBuilder().Create().WithCompose(b.compose(c.Cp)).Now())
	}
	eb := grammars.NewElementBuilder().Create().WithCardinality(part(b, "cardinality", []any{c.Min, c.Max}, func() cardinalities.Cardinality {
		card := cardinalities.NewBuilder().Create().WithMin(uint(c.Min))
		if c.Max != nil {
			card.WithMax(uint(*c.Max))
		}
		return must(card.Now())
	}))
	switch c.K {
	case "v":
		eb.WithValue(part(b, "value", c.V, func() values.Value { return buildValue(c.V) }))
	case "t":
		eb.WithInstance(must(grammars.NewInstanceBuilder().Create().WithToken(b.token(g, prefix, c.T)).Now()))
	case "r":
		eb.WithRecursive(tokName(prefix, c.T))
	case "x":
		eb.WithExternal(must(grammars.NewExternalBuilder().Create().WithName(c.XN).WithGrammar(buildGrammar(c.X, extPrefix(c.XN))).Now()))
	case "e":
		ev := grammars.NewEverythingBuilder().Create().WithName(contName(prefix, c)).WithException(b.token(g, prefix, c.T))
		if c.Esc != nil {
			ev.WithEscape(b.token(g, prefix, *c.Esc))
		}
		eb.WithInstance(must(grammars.NewInstanceBuilder().Create().WithEverything(must(ev.Now())).Now()))
	}
	return must(grammars.NewContainerBuilder().Create().WithElement(must(eb.Now())).Now())
}

// ---- the reference parser ----
//
// Positions in the input replace the remaining data. It is written from the meaning of a grammar:
// ordered alternatives, possessive repetition, channels between the values, fresh scopes for externals and channels.

type mTree struct {
	name    string
	ok      bool
	line    int
	reverse bool
	lines   []int // the lines that are part of the block
	els     []mElement
	suffix  []*mTree
	end     int // position after the tree, its suffix included
	// for coverage: the token and its grammar
	g   *Gram
	pre string
	ti  int
}

type mElement struct {
	ci       int // index of the container in its line, -1 without
	name     string
	contents []mItem
}

type mItem struct {
	tree   *mTree
	val    byte
	prefix []*mTree
}

type mFrame struct {
	g     *Gram
	pre   string
	ti    int
	count int
	lines map[[2]int]int // line, position -> in progress
}

type mStack map[string]*mFrame

type refParser struct {
	data  []byte
	steps int
	limit int
	stats map[string]int
}

var errSteps = errors.New("too many steps")

type tooManySteps struct{}

func (m *refParser) tick() {
	m.steps++
	if m.steps > m.limit {
		panic(tooManySteps{})
	}
}

func (m *refParser) stat(name string) { m.stats[name]++ }

// parseRef runs the reference parser; errSteps when it needs more than the limit.
func parseRef(g *Gram, prefix string, data []byte, limit int) (tree *mTree, m *refParser, err error) {
	m = &refParser{data: data, limit: limit, stats: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooManySteps); ok {
				err = errSteps
				return
			}
			panic(r)
		}
	}()
	return m.token(g, prefix, 0, mStack{}, g.Chans, len(data), 0), m, nil
}

// token returns nil when no line could be considered at all.
func (m *refParser) token(g *Gram, pre string, ti int, st mStack, chans []Chan, prev, p int) *mTree {
	m.tick()
	name := tokName(pre, ti)
	frame, ok := st[name]
	if !ok {
		frame = &mFrame{g: g, pre: pre, ti: ti, lines: map[[2]int]int{}}
		st[name] = frame
	}
	frame.count++
	out := m.alternatives(g, pre, ti, st, chans, prev, p)
	frame.count--
	if frame.count == 0 {
		delete(st, name)
	}
	if out == nil {
		return nil
	}
	out.suffix, out.end = m.skip(g, pre, chans, prev, out.end)
	if len(out.suffix) > 0 {
		m.stat("suffix")
	}
	return out
}

func (m *refParser) alternatives(g *Gram, pre string, ti int, st mStack, chans []Chan, prev, p int) *mTree {
	out := &mTree{name: tokName(pre, ti), end: p, g: g, pre: pre, ti: ti}
	frame := st[out.name]
	for li := range g.Toks[ti].Lines {
		key := [2]int{li, p}
		if frame.lines[key] > 0 {
			m.stat("left-recursion")
			continue
		}
		frame.lines[key]++
		els, end, ok := m.sequence(g, pre, g.Toks[ti].Lines[li], st, chans, prev, p)
		frame.lines[key]--
		if !ok {
			continue
		}
		out.lines = append(out.lines, li)
		if len(els) > 0 {
			out.ok, out.line, out.els, out.end = true, li, els, end
			if li > 0 {
				m.stat("second-line")
			}
			return out
		}
		m.stat("empty-line")
	}
	if len(out.lines) == 0 {
		return nil
	}
	return out
}

func (m *refParser) sequence(g *Gram, pre string, line []Cont, st mStack, chans []Chan, prev, p int) ([]mElement, int, bool) {
	els := []mElement{}
	for ci, c := range line {
		m.tick()
		el := mElement{ci: ci, name: contName(pre, c)}
		if c.K == "c" {
			for _, b := range composeBytes(c.Cp) {
				content, end, ok := m.value(g, pre, int(b), chans, prev, p)
				if !ok {
					return nil, 0, false
				}
				el.contents = append(el.contents, content)
				prev, p = p, end
			}
			m.stat("compose")
			els = append(els, el)
			continue
		}
		for p < len(m.data) && (c.Max == nil || len(el.contents) < *c.Max) {
			content, end, ok := m.content(g, pre, c, st, chans, prev, p)
			if !ok {
				break
			}
			el.contents = append(el.contents, content)
			prev, p = p, end
		}
		if len(el.contents) < c.Min {
			return nil, 0, false
		}
		if len(el.contents) > 0 {
			els = append(els, el)
		} else {
			m.stat("optional-missing")
		}
	}
	return els, p, true
}

func (m *refParser) content(g *Gram, pre string, c Cont, st mStack, chans []Chan, prev, p int) (mItem, int, bool) {
	var t *mTree
	switch c.K {
	case "v":
		return m.value(g, pre, c.V, chans, prev, p)
	case "t":
		t = m.token(g, pre, c.T, st, chans, prev, p)
	case "r":
		frame, ok := st[tokName(pre, c.T)]
		if !ok {
			return mItem{}, 0, false
		}
		t = m.token(frame.g, frame.pre, frame.ti, st, chans, prev, p)
		if t != nil && t.ok {
			m.stat("recursion")
		}
	case "x":
		t = m.token(c.X, extPrefix(c.XN), 0, mStack{}, c.X.Chans, prev, p)
		if t != nil {
			t.name = c.XN
			if t.ok {
				m.stat("external")
			}
		}
	case "e":
		t = m.everything(g, pre, c, st, prev, p)
	}
	if t == nil || !t.ok {
		return mItem{}, 0, false
	}
	return mItem{tree: t}, t.end, true
}

func (m *refParser) everything(g *Gram, pre string, c Cont, st mStack, prev, p int) *mTree {
	name := tokName(pre, c.T)
	frame, ok := st[name]
	if !ok {
		frame = &mFrame{g: g, pre: pre, ti: c.T, lines: map[[2]int]int{}}
		st[name] = frame
	}
	frame.count++
	defer func() {
		frame.count--
		if frame.count == 0 {
			delete(st, name)
		}
	}()
	el := mElement{ci: -1}
	for p < len(m.data) {
		m.tick()
		if c.Esc != nil {
			esc := m.token(g, pre, *c.Esc, st, nil, prev, p)
			if esc != nil && esc.ok && esc.end < len(m.data) {
				exc := m.alternatives(g, pre, c.T, st, nil, p, esc.end)
				if exc != nil && exc.ok {
					for _, b := range m.data[esc.end:exc.end] {
						el.contents = append(el.contents, mItem{val: b})
					}
					m.stat("escape")
					prev, p = esc.end, exc.end
					continue
				}
			}
		}
		exc := m.alternatives(g, pre, c.T, st, nil, prev, p)
		if exc != nil && exc.ok {
			m.stat("exception")
			break
		}
		el.contents = append(el.contents, mItem{val: m.data[p]})
		prev, p = p, p+1
	}
	if len(el.contents) == 0 {
		return nil
	}
	m.stat("everything")
	return &mTree{name: name, ok: true, reverse: true, lines: []int{0}, els: []mElement{el}, end: p, g: g, pre: pre, ti: c.T}
}

func (m *refParser) value(g *Gram, pre string, v int, chans []Chan, prev, p int) (mItem, int, bool) {
	m.tick()
	prefix, p := m.skip(g, pre, chans, prev, p)
	if p >= len(m.data) || m.data[p] != byte(v) {
		return mItem{}, 0, false
	}
	if len(prefix) > 0 {
		m.stat("prefix")
	}
	return mItem{val: byte(v), prefix: prefix}, p + 1, true
}

// skip matches channels as long as one of them matches something.
func (m *refParser) skip(g *Gram, pre string, chans []Chan, prev, p int) ([]*mTree, int) {
	out := []*mTree{}
	for again := true; again; {
		again = false
		for _, ch := range chans {
			t := m.token(g, pre, ch.T, mStack{}, nil, prev, p)
			if t == nil || t.end == p {
				continue
			}
			if ch.Prev != nil && m.token(g, pre, *ch.Prev, mStack{}, nil, len(m.data), prev) == nil {
				m.stat("prev-condition-refused")
				continue
			}
			if ch.Next != nil && m.token(g, pre, *ch.Next, mStack{}, nil, len(m.data), t.end) == nil {
				m.stat("next-condition-refused")
				continue
			}
			if ch.Prev != nil || ch.Next != nil {
				m.stat("condition-accepted")
			}
			out = append(out, t)
			prev, p = p, t.end
			again = true
		}
	}
	return out, p
}

// ---- comparison of trees ----

// padding shows the depth of a node in a dump.
func padding(depth int) string {
	if depth > 60 {
		return fmt.Sprintf("%d:", depth)
	}
	return strings.Repeat(" ", depth)
}

func (t *mTree) dump(sb *strings.Builder, n int, depth int) {
	pad := padding(depth)
	fmt.Fprintf(sb, "%s%s suites=%d lines=%v", pad, t.name, len(t.g.Toks[t.ti].Suites), t.lines)
	if t.ok {
		fmt.Fprintf(sb, " line=%d reverse=%v", t.line, t.reverse)
	}
	fmt.Fprintf(sb, " remaining=%d\n", n-t.end)
	if t.ok {
		for _, el := range t.els {
			el.dump(sb, n, depth+1)
		}
	}
	for _, s := range t.suffix {
		fmt.Fprintf(sb, "%s suffix:\n", pad)
		s.dump(sb, n, depth+2)
	}
}

func (el mElement) dump(sb *strings.Builder, n int, depth int) {
	pad := padding(depth)
	fmt.Fprintf(sb, "%s[%d] %s\n", pad, el.ci, el.name)
	for _, c := range el.contents {
		if c.tree != nil {
			c.tree.dump(sb, n, depth+1)
			continue
		}
		for _, s := range c.prefix {
			fmt.Fprintf(sb, "%s prefix:\n", pad)
			s.dump(sb, n, depth+2)
		}
		fmt.Fprintf(sb, "%s %q\n", pad, []byte{c.val})
	}
}

func (t *mTree) bytes(channels bool) []byte {
	out := []byte{}
	if !t.ok {
		return out
	}
	for _, el := range t.els {
		out = append(out, el.bytes(channels)...)
	}
	if channels {
		for _, s := range t.suffix {
			out = append(out, s.bytes(channels)...)
		}
	}
	return out
}

func (el mElement) bytes(channels bool) []byte {
	out := []byte{}
	for _, c := range el.contents {
		out = append(out, c.bytes(channels)...)
	}
	return out
}

func (c mItem) bytes(channels bool) []byte {
	if c.tree != nil {
		return c.tree.bytes(channels)
	}
	out := []byte{}
	if channels {
		for _, s := range c.prefix {
			out = append(out, s.bytes(channels)...)
		}
	}
	return append(out, c.val)
}

func refDump(t *mTree, n int) string {
	if t == nil {
		return "error"
	}
	sb := &strings.Builder{}
	t.dump(sb, n, 0)
	return sb.String()
}

func realDump(t trees.Tree, err error) string {
	if err != nil {
		return "error"
	}
	if t == nil {
		return "nil tree and nil error"
	}
	sb := &strings.Builder{}
	dumpTree(sb, t, 0)
	return sb.String()
}

func dumpTree(sb *strings.Builder, t trees.Tree, depth int) {
	pad := padding(depth)
	lines := []int{}
	for _, l := range t.Block().Lines() {
		lines = append(lines, int(l.Index()))
	}
	suites := 0
	if t.Grammar().HasSuites() {
		suites = len(t.Grammar().Suites().List())
	}
	fmt.Fprintf(sb, "%s%s suites=%d lines=%v", pad, t.Grammar().Name(), suites, lines)
	if t.Block().HasSuccessful() {
		l := t.Block().Successful()
		fmt.Fprintf(sb, " line=%d reverse=%v", l.Index(), l.IsReverse())
		if !l.IsSuccessful() {
			fmt.Fprintf(sb, " THE SUCCESSFUL LINE IS NOT SUCCESSFUL")
		}
		grLines := t.Grammar().Block().Lines()
		if int(l.Index()) >= len(grLines) || grLines[l.Index()] != l.Grammar() {
			fmt.Fprintf(sb, " THE LINE IS NOT THE ONE OF THE GRAMMAR")
		}
	}
	remaining := 0
	if t.HasRemaining() {
		remaining = len(t.Remaining())
	}
	fmt.Fprintf(sb, " remaining=%d\n", remaining)
	if t.Block().HasSuccessful() {
		l := t.Block().Successful()
		next := 0 // the elements are in the order of the containers, of which some can be the same one
		for _, el := range l.Elements().List() {
			ci := -1
			if el.HasGrammar() {
				ci = -2
				for i, c := range l.Grammar().Containers() {
					if c == el.Grammar() && i >= next && ci < 0 {
						ci = i
					}
				}
				next = ci + 1
			}
			dumpElement(sb, el, ci, depth+1)
		}
	}
	if t.HasSuffix() {
		for _, s := range t.Suffix().List() {
			fmt.Fprintf(sb, "%s suffix:\n", pad)
			dumpTree(sb, s, depth+2)
		}
	}
}

func dumpElement(sb *strings.Builder, el trees.Element, ci int, depth int) {
	pad := padding(depth)
	name := ""
	if el.HasGrammar() {
		name = el.Grammar().Name()
	}
	fmt.Fprintf(sb, "%s[%d] %s\n", pad, ci, name)
	if int(el.Amount()) != len(el.Contents().List()) {
		fmt.Fprintf(sb, "%s WRONG AMOUNT %d\n", pad, el.Amount())
	}
	for _, c := range el.Contents().List() {
		if c.IsTree() == c.IsValue() {
			fmt.Fprintf(sb, "%s CONTENT WITH NEITHER OR BOTH\n", pad)
		}
		if c.IsTree() {
			dumpTree(sb, c.Tree(), depth+1)
			continue
		}
		v := c.Value()
		if v.HasPrefix() {
			for _, s := range v.Prefix().List() {
				fmt.Fprintf(sb, "%s prefix:\n", pad)
				dumpTree(sb, s, depth+2)
			}
		}
		fmt.Fprintf(sb, "%s %q\n", pad, []byte{v.Content()})
	}
}

func astApp() applications.Application { return applications.NewApplication() }

// ---- generators ----

type gramOpts struct {
	toks                       int
	channels, conditions       int // percent
	every, esc, ext, comp, rec int // percent of the containers (esc: of the everythings)
	suites                     int
	sameExtName                bool
	shadow                     int // percent of the externals
	alphabet                   string
	depth                      int // of externals
	optional                   int // percent of elements with min 0
	nested                     int // percent of containers that are tokens
	rich, richEsc              int // percent of the channels and conditions made of more than values; of their everythings with an escape
}

func intPtr(v int) *int { return &v }

func drawGram(t *rapid.T, o gramOpts, prefix string) *Gram {
	n := intIn(t, "tokens", 1, o.toks)
	g := &Gram{}
	hasChans := o.channels > 0 && chance(t, "channels", o.channels)
	for i := 0; i < n; i++ {
		g.Toks = append(g.Toks, drawTok(t, o, prefix, i, n, false))
	}
	if hasChans {
		amount := intIn(t, "channel amount", 1, 3)
		for i := 0; i < amount; i++ {
			ch := Chan{T: len(g.Toks)}
			condition := func() *int {
				at := len(g.Toks)
				if chance(t, "rich condition", o.rich) {
					g.Toks = append(g.Toks, drawRichTok(t, o, prefix, at, o.alphabet)...)
					// a condition matches at least one byte
					for i, line := range g.Toks[at].Lines {
						g.Toks[at].Lines[i] = append([]Cont{{K: "v", V: drawByte(t, o), Min: 1, Max: intPtr(1)}}, line...)
					}
				} else {
					g.Toks = append(g.Toks, drawSimpleTok(t, o, 2))
				}
				return &at
			}
			if chance(t, "rich channel", o.rich) {
				g.Toks = append(g.Toks, drawRichTok(t, o, prefix, len(g.Toks), chanBytes)...)
			} else {
				g.Toks = append(g.Toks, drawChanTok(t, o))
			}
			if chance(t, "condition", o.conditions) {
				which := uniform(t, "which", 3)
				if which != 1 {
					ch.Prev = condition()
				}
				if which != 0 {
					ch.Next = condition()
				}
			}
			g.Chans = append(g.Chans, ch)
		}
	}
	if chance(t, "share", 35) {
		g.Share = true
		// the same element at several places of a line
		for i := range g.Toks {
			for j, line := range g.Toks[i].Lines {
				if chance(t, "again", 30) {
					again := line[uniform(t, "which", len(line))]
					at := uniform(t, "where", len(line)+1)
					g.Toks[i].Lines[j] = append(append(append([]Cont{}, line[:at]...), again), line[at:]...)
				}
			}
		}
	}
	walkSuites(t, g, o)
	return g
}

// walkSuites replaces most of the suites by data that their token is likely to match, or nearly so.
func walkSuites(t *rapid.T, g *Gram, o gramOpts) {
	if o.suites <= 0 {
		return
	}
	for ti := range g.Toks {
		for i := range g.Toks[ti].Suites {
			if !chance(t, "walk", 70) {
				continue
			}
			chans := g.Chans
			for _, ch := range g.Chans {
				if ch.T == ti && chance(t, "alone", 60) {
					chans = nil
				}
			}
			s := &sentence{t: t, o: o, budget: 20}
			s.token(g, ti, chans, 0)
			out := mutate(t, o, s.out, 25)
			if len(chans) > 0 && chance(t, "suffix", 25) {
				s.out, s.budget = nil, 10
				s.channel(g)
				if chance(t, "prefix", 50) {
					out = append(s.out, out...)
				} else {
					out = append(out, s.out...)
				}
			}
			if out = out[:min(len(out), 40)]; len(out) > 0 {
				g.Toks[ti].Suites[i].Cp = toCompose(out)
			}
		}
	}
}

// toCompose is the compose of the given bytes.
func toCompose(data []byte) [][]int {
	out := [][]int{}
	for _, b := range data {
		if k := len(out) - 1; k >= 0 && out[k][0] == int(b) {
			out[k][1]++
			continue
		}
		out = append(out, []int{int(b), 1})
	}
	return out
}

// uniqueExternals gives each external its own name, the one of its root.
func uniqueExternals(g *Gram, next *int) *Gram {
	for ti := range g.Toks {
		for li := range g.Toks[ti].Lines {
			for ci := range g.Toks[ti].Lines[li] {
				c := &g.Toks[ti].Lines[li][ci]
				if c.K == "x" {
					*next++
					c.XN = fmt.Sprintf("x%d_t0", *next)
					uniqueExternals(c.X, next)
				}
			}
		}
	}
	return g
}

func drawByte(t *rapid.T, o gramOpts) int {
	return int(o.alphabet[uniform(t, "byte", len(o.alphabet))])
}

// drawSimpleTok draws a token of 1-3 lines of mandatory values.
func drawSimpleTok(t *rapid.T, o gramOpts, lines int) Tok {
	tok := Tok{}
	n := intIn(t, "lines", 1, lines)
	for i := 0; i < n; i++ {
		line := []Cont{}
		m := intIn(t, "values", 1, 2)
		for k := 0; k < m; k++ {
			c := Cont{K: "v", V: drawByte(t, o), Min: 1, Max: intPtr(1)}
			if chance(t, "many", 20) {
				c.Max = nil
			}
			line = append(line, c)
		}
		tok.Lines = append(tok.Lines, line)
	}
	return tok
}

const chanBytes = " \t#"

func drawChanTok(t *rapid.T, o gramOpts) Tok {
	if chance(t, "odd channel", 15) {
		tok := drawSimpleTok(t, o, 2)
		if o.suites > 0 && chance(t, "suites", o.suites/2) {
			tok.Suites = drawSuites(t, o)
		}
		return tok
	}
	tok := Tok{}
	n := intIn(t, "lines", 1, 2)
	for i := 0; i < n; i++ {
		line := []Cont{{K: "v", V: int(chanBytes[uniform(t, "byte", len(chanBytes))]), Min: 1, Max: intPtr(1)}}
		if chance(t, "longer", 25) {
			line = append(line, Cont{K: "v", V: int((chanBytes + o.alphabet)[uniform(t, "byte", len(chanBytes)+len(o.alphabet))]), Min: 1, Max: intPtr(1)})
		}
		if chance(t, "many", 30) {
			line[0].Max = nil
		}
		tok.Lines = append(tok.Lines, line)
	}
	if o.suites > 0 && chance(t, "suites", o.suites/2) {
		tok.Suites = drawSuites(t, o)
	}
	return tok
}

// drawRichTok draws a token that is not made of values only, with the two tokens it uses; its index will be base.
func drawRichTok(t *rapid.T, o gramOpts, prefix string, base int, bytes string) []Tok {
	tok := Tok{}
	lines := intIn(t, "lines", 1, 2)
	for k := 0; k < lines; k++ {
		line := []Cont{}
		if chance(t, "mark", 80) {
			line = append(line, Cont{K: "v", V: int(bytes[uniform(t, "byte", len(bytes))]), Min: 1, Max: intPtr(1)})
		}
		conts := intIn(t, "containers", 1, 3)
		for j := 0; j < conts; j++ {
			c := Cont{K: "v", V: int((bytes + o.alphabet)[uniform(t, "byte", len(bytes)+len(o.alphabet))])}
			switch uniform(t, "kind", 10) {
			case 0, 1:
				c.K, c.T = "t", base+1+uniform(t, "token", 2)
			case 2, 3, 4:
				c.K, c.T = "e", base+1
				if chance(t, "escape", o.richEsc) {
					c.Esc = intPtr(base + 2)
				}
				c.Min, c.Max = 1, intPtr(1)
				line = append(line, c)
				if chance(t, "exception follows", 60) {
					line = append(line, Cont{K: "t", T: base + 1, Min: 1, Max: intPtr(1)})
				}
				continue
			case 5:
				c = Cont{K: "c", Cp: drawCompose(t, o, 2)}
				line = append(line, c)
				continue
			case 6:
				if o.rec > 0 && chance(t, "self", 25) {
					c.K, c.T = "r", base
				}
			case 7:
				if o.ext > 0 && o.depth > 0 {
					sub := o
					sub.depth, sub.toks = 0, 1
					c.K, c.XN = "x", fmt.Sprintf("%sx%d", prefix, 7)
					if o.sameExtName {
						c.XN = "x0t0"
					}
					c.X = drawGram(t, sub, extPrefix(c.XN))
				}
			}
			drawCard(t, o, &c)
			line = append(line, c)
		}
		tok.Lines = append(tok.Lines, line)
	}
	if o.suites > 0 && chance(t, "suites", o.suites/2) {
		tok.Suites = drawSuites(t, o)
	}
	return []Tok{tok, drawSimpleTok(t, o, 2), drawSimpleTok(t, o, 2)}
}

func drawCompose(t *rapid.T, o gramOpts, max int) [][]int {
	out := [][]int{}
	n := intIn(t, "compose", 1, max)
	for i := 0; i < n; i++ {
		out = append(out, []int{drawByte(t, o), intIn(t, "occurences", 1, 3)})
		if rare(t, "long compose", 400) {
			out[i][1] = wideAmount(t)
		}
	}
	return out
}

func drawSuites(t *rapid.T, o gramOpts) []Suite {
	out := []Suite{}
	n := intIn(t, "suites", 1, 3)
	for i := 0; i < n; i++ {
		out = append(out, Suite{Valid: boolGen.Draw(t, "valid"), Cp: drawCompose(t, o, 4)})
	}
	return out
}

func drawTok(t *rapid.T, o gramOpts, prefix string, i, n int, simple bool) Tok {
	tok := Tok{}
	lines := intIn(t, "lines", 1, 3)
	for k := 0; k < lines; k++ {
		line := []Cont{}
		conts := intIn(t, "containers", 1, 4)
		for j := 0; j < conts; j++ {
			line = append(line, drawCont(t, o, prefix, i, n))
		}
		tok.Lines = append(tok.Lines, line)
	}
	if o.suites > 0 && chance(t, "suites", o.suites) {
		tok.Suites = drawSuites(t, o)
	}
	return tok
}

func drawCard(t *rapid.T, o gramOpts, c *Cont) {
	if chance(t, "optional", o.optional) {
		c.Min = 0
	} else {
		c.Min = oneOf(t, "min", 1, 1, 1, 2, 3)
	}
	switch uniform(t, "max", 8) {
	case 0, 1, 2, 3:
		c.Max = intPtr(max(c.Min, 1))
	case 4, 5:
	case 6:
		c.Max = intPtr(c.Min + 1 + uniform(t, "more", 2))
	case 7:
		c.Max = intPtr(uniform(t, "any", 4)) // can be below the minimum, or zero
	}
}

func drawCont(t *rapid.T, o gramOpts, prefix string, i, n int) Cont {
	kind := uniform(t, "kind", 100)
	c := Cont{K: "v"}
	at := 0
	pick := func(percent int) bool {
		at += percent
		return kind >= at-percent && kind < at
	}
	switch {
	case pick(100 - o.every - o.ext - o.comp - o.rec - o.nested):
		c.V = drawByte(t, o)
	case pick(o.nested):
		if i+1 < n {
			c.K, c.T = "t", i+1+uniform(t, "token", n-i-1)
		} else {
			c.V = drawByte(t, o)
		}
	case pick(o.rec):
		c.K, c.T = "r", uniform(t, "recursive", i+1)
		if chance(t, "any recursive", 5) {
			c.T = uniform(t, "recursive", n)
		}
	case pick(o.comp):
		c.K, c.Cp = "c", drawCompose(t, o, 3)
		return c
	case pick(o.every):
		if i+1 < n {
			c.K, c.T = "e", i+1+uniform(t, "exception", n-i-1)
			if chance(t, "escape", o.esc) {
				c.Esc = intPtr(i + 1 + uniform(t, "escape", n-i-1))
			}
		} else {
			c.V = drawByte(t, o)
		}
	default: // external
		if o.depth > 0 {
			sub := o
			sub.depth--
			sub.toks = max(1, o.toks/2)
			id := uniform(t, "external name", 3)
			c.K = "x"
			c.XN = fmt.Sprintf("%sx%d", prefix, id)
			if chance(t, "shadow", o.shadow) {
				c.XN = "gt0" // its tokens have the names of those of the outermost grammar
			}
			if o.sameExtName {
				// externals of the same name must be the same grammar for the reports to make sense
				c.XN = "x0t0" // see uniqueExternals
			}
			c.X = drawGram(t, sub, extPrefix(c.XN))
		} else {
			c.V = drawByte(t, o)
		}
	}
	drawCard(t, o, &c)
	return c
}

// drawSentence walks the grammar to make data it is likely to match.
func drawSentence(t *rapid.T, g *Gram, o gramOpts, noise int) []byte {
	s := &sentence{t: t, o: o, budget: 40}
	if len(g.Chans) > 0 && chance(t, "leading", 20) {
		s.channel(g)
	}
	s.token(g, 0, g.Chans, 0)
	if chance(t, "trailing", 30) {
		s.out = append(s.out, randomBytes(t, o, 4)...)
	}
	out := mutate(t, o, s.out, noise)
	if len(out) > 60 {
		out = out[:60]
	}
	return out
}

// mutate changes one or two bytes of the data, sometimes.
func mutate(t *rapid.T, o gramOpts, out []byte, noise int) []byte {
	if chance(t, "noise", noise) {
		k := intIn(t, "mutations", 1, 2)
		for i := 0; i < k && len(out) > 0; i++ {
			pos := uniform(t, "pos", len(out))
			switch uniform(t, "mutation", 4) {
			case 0:
				out[pos] = byte(drawByte(t, o))
			case 1:
				out = append(out[:pos:pos], out[pos+1:]...)
			case 2:
				out = append(out[:pos:pos], append([]byte{byte(drawByte(t, o))}, out[pos:]...)...)
			case 3:
				out = out[:pos]
			}
		}
	}
	return out
}

func randomBytes(t *rapid.T, o gramOpts, maxLen int) []byte {
	n := intIn(t, "length", 0, maxLen)
	out := make([]byte, n)
	al := o.alphabet + chanBytes
	for i := range out {
		out[i] = al[uniform(t, "byte", len(al))]
	}
	return out
}

type sentence struct {
	t      *rapid.T
	o      gramOpts
	out    []byte
	budget int
	calls  int
	wide   bool // cardinalities far above the usual
}

func (s *sentence) channel(g *Gram) {
	if s.budget <= 0 {
		return
	}
	ch := g.Chans[uniform(s.t, "channel", len(g.Chans))]
	s.token(g, ch.T, nil, 3)
}

func (s *sentence) emit(g *Gram, chans []Chan, b byte) {
	s.budget--
	for len(chans) > 0 && chance(s.t, "channel before", 25) {
		s.channel(g)
		if s.budget <= 0 {
			break
		}
	}
	s.out = append(s.out, b)
}

func (s *sentence) token(g *Gram, ti int, chans []Chan, depth int) {
	s.calls++
	if depth > 8 || s.budget <= 0 || ti >= len(g.Toks) || s.calls > 500 {
		return
	}
	if s.wide {
		s.budget--
	}
	lines := g.Toks[ti].Lines
	line := lines[uniform(s.t, "line", len(lines))]
	for _, c := range line {
		if c.K == "c" {
			for _, b := range composeBytes(c.Cp) {
				s.emit(g, chans, b)
			}
			continue
		}
		top := c.Min + 2
		if c.Max != nil {
			top = *c.Max
		}
		times := c.Min
		if top > c.Min {
			times += uniform(s.t, "times", min(top-c.Min, 3)+1)
		}
		if s.wide && top >= 100 && c.Min < 100 { // a wide maximum
			times = top - uniform(s.t, "less", 3)
		}
		if s.wide && c.Max == nil && c.Min < 100 && uniform(s.t, "wide times", 3) == 2 {
			times = wideAmount(s.t)
		}
		if depth > 4 {
			times = c.Min
		}
		for i := 0; i < times && s.budget > 0; i++ {
			switch c.K {
			case "v":
				s.emit(g, chans, byte(c.V))
			case "t", "r":
				s.token(g, c.T, chans, depth+1)
			case "x":
				s.token(c.X, 0, c.X.Chans, depth+1)
			case "e":
				for k := intIn(s.t, "everything", 1, 4); k > 0; k-- {
					if c.Esc != nil && chance(s.t, "escaped", 40) {
						s.token(g, *c.Esc, nil, depth+1)
						s.token(g, c.T, nil, depth+1)
						continue
					}
					s.budget--
					s.out = append(s.out, randomBytes(s.t, s.o, 1)...)
				}
				if chance(s.t, "exception", 30) {
					s.token(g, c.T, nil, depth+1)
				}
			}
		}
	}
}
