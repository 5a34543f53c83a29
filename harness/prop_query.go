package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	queryapp "github.com/steve-care-software/rodkina/libs/queries/applications"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
	"pgregory.net/rapid"
)

// Qry is a query as data
type Qry struct {
	Tok      string  `json:"tok"`
	Rev      string  `json:"rev"`
	El       string  `json:"el"`
	Idx      int     `json:"idx"`
	Content  *int    `json:"content,omitempty"`
	InSingle bool    `json:"insingle,omitempty"` // content functions
	InMode   int     `json:"inmode,omitempty"`   // see contentValue
	Fetch    []Fetch `json:"fetch,omitempty"`    // when set, fetchers instead of a content function
	Multi    bool    `json:"multi,omitempty"`
	Mode     int     `json:"mode,omitempty"` // see queryValue
}

// Fetch is a fetcher: a query or the name of one in progress
type Fetch struct {
	Rec string `json:"rec,omitempty"`
	Q   *Qry   `json:"q,omitempty"`
}

type queryCase struct {
	Case  astCase `json:"case"`
	Query *Qry    `json:"query"`
}

// ---- the functions of the queries: pure, shared by the model and the application ----

func contentValue(mode int, texts []string) ([]interface{}, error) {
	out := []interface{}{}
	switch mode {
	case 1: // refuses some contents
		for _, one := range texts {
			if strings.Contains(one, "c") {
				return nil, errors.New("refused content: " + one)
			}
		}
	case 2: // nothing
		return out, nil
	case 3: // twice
		for _, one := range texts {
			out = append(out, "first "+one)
		}
	case 4: // a single one for all
		return append(out, "all "+strings.Join(texts, "+")), nil
	}
	for _, one := range texts {
		out = append(out, one)
	}
	return out, nil
}

func queryValue(name string, mode int, list []interface{}) (interface{}, bool, error) {
	text := fmt.Sprintf("(%s %v)", name, list)
	switch mode {
	case 1: // refuses some
		if len(text)%5 == 0 {
			return nil, false, errors.New("refused instance: " + text)
		}
	case 2: // skips some
		if len(text)%3 == 0 {
			return "skipped", false, nil
		}
	case 3:
		return nil, true, nil
	}
	return text, true, nil
}

// ---- the real query ----

func contentText(c trees.Content) string {
	if c.IsTree() {
		return fmt.Sprintf("tree:%s:%q", c.Tree().Grammar().Name(), c.Bytes(true))
	}
	return fmt.Sprintf("value:%q", c.Bytes(true))
}

func buildQuery(q *Qry) queries.Query {
	tb := queries.NewTokenBuilder().Create().WithName(q.Tok).WithReverseName(q.Rev).
		WithElement(must(queries.NewElementBuilder().Create().WithName(q.El).WithIndex(uint(q.Idx)).Now()))
	if q.Content != nil {
		tb.WithContent(uint(*q.Content))
	}
	ib := queries.NewInsideBuilder().Create()
	if len(q.Fetch) > 0 {
		list := []queries.Fetcher{}
		for _, f := range q.Fetch {
			fb := queries.NewFetcherBuilder().Create()
			if f.Q != nil {
				fb.WithQuery(buildQuery(f.Q))
			} else {
				fb.WithRecursive(f.Rec)
			}
			list = append(list, must(fb.Now()))
		}
		ib.WithFetchers(must(queries.NewFetchersBuilder().Create().WithList(list).Now()))
	} else {
		cb := queries.NewContentFnBuilder().Create()
		mode := q.InMode
		if q.InSingle {
			cb.WithSingle(func(c trees.Content) ([]interface{}, error) { return contentValue(mode, []string{contentText(c)}) })
		} else {
			cb.WithMulti(func(cs []trees.Content) ([]interface{}, error) {
				texts := []string{}
				for _, c := range cs {
					texts = append(texts, contentText(c))
				}
				return contentValue(mode, texts)
			})
		}
		ib.WithFn(must(cb.Now()))
	}
	fb := queries.NewQueryFnBuilder().Create()
	name, mode := q.Tok, q.Mode
	if q.Multi {
		fb.WithMulti(func(list []interface{}) (interface{}, bool, error) { return queryValue(name, mode, list) })
	} else {
		fb.WithSingle(func(one interface{}) (interface{}, bool, error) { return queryValue(name, mode, []interface{}{one}) })
	}
	return must(queries.NewBuilder().Create().WithToken(must(tb.Now())).WithInside(must(ib.Now())).WithFn(must(fb.Now())).Now())
}

// ---- the reference evaluation ----

func (c mItem) text() string {
	if c.tree != nil {
		return fmt.Sprintf("tree:%s:%q", c.tree.name, c.tree.bytes(true))
	}
	return fmt.Sprintf("value:%q", c.bytes(true))
}

// queryScope holds the queries met so far, and the ones in progress
type queryScope struct {
	met      map[string]*Qry
	progress []*Qry
	limit    int
}

// enclosing returns the innermost query in progress of a name
func (s *queryScope) enclosing(name string) *Qry {
	for i := len(s.progress) - 1; i >= 0; i-- {
		if s.progress[i].Tok == name {
			return s.progress[i]
		}
	}
	return nil
}

type ambiguousName struct{}

func refQuery(q *Qry, t *mTree, known *queryScope, rec *Rec) (interface{}, bool, error) {
	rec.Evals++
	if rec.Evals > known.limit {
		panic(tooManySteps{})
	}
	if t.name != q.Tok || !t.ok {
		return nil, false, errors.New("the tree is not the one of the query")
	}
	found := []*mElement{}
	for i := range t.els {
		el := &t.els[i]
		if el.ci >= 0 && el.name == q.El || el.ci < 0 && q.El == q.Rev {
			found = append(found, el)
		}
	}
	items := []mItem{}
	if q.Idx < len(found) {
		items = found[q.Idx].contents
		if q.Idx > 0 {
			rec.Label("element by index")
		}
		if q.Content != nil {
			if *q.Content >= len(items) {
				return nil, false, errors.New("no such content")
			}
			items = items[*q.Content : *q.Content+1]
		}
	} else {
		rec.Label("missing element")
	}
	if other := known.enclosing(q.Tok); other != nil && other != q {
		rec.Label("query inside one of its name")
	}
	known.met[q.Tok] = q
	known.progress = append(known.progress, q)
	defer func() { known.progress = known.progress[:len(known.progress)-1] }()
	instances := []interface{}{}
	if len(q.Fetch) == 0 {
		texts := []string{}
		for _, one := range items {
			texts = append(texts, one.text())
		}
		if q.InSingle {
			if len(texts) == 0 {
				return nil, false, errors.New("a content is needed")
			}
			texts = texts[:1]
		}
		var err error
		if instances, err = contentValue(q.InMode, texts); err != nil {
			return nil, false, err
		}
	} else {
		for _, one := range items {
			if one.tree == nil {
				continue
			}
			for _, f := range q.Fetch {
				sub := f.Q
				if sub == nil {
					if sub = known.met[f.Rec]; sub == nil {
						rec.LabelIf(len(instances) > 0, "unknown recursion after a result")
						return nil, false, errors.New("unknown recursive query")
					}
					if sub != known.enclosing(f.Rec) {
						panic(ambiguousName{}) // names a query that is over: nothing says which one it should be
					}
					rec.Label("recursive query")
				}
				value, ok, err := refQuery(sub, one.tree, known, rec)
				if err != nil {
					return nil, false, err
				}
				if ok {
					instances = append(instances, value)
					rec.LabelIf(f.Q == nil, "result of a recursive query")
				} else {
					rec.Label("skipped instance")
				}
			}
		}
	}
	if len(instances) == 0 {
		return nil, false, nil
	}
	if !q.Multi {
		instances = instances[:1]
	}
	return queryValue(q.Tok, q.Mode, instances)
}

// ---- generator ----

type qGen struct {
	t     *rapid.T
	noise int
	loop  bool // the grammar is made of tokens that contain each other
	wide  bool // some elements have many contents
}

// query draws a query for a token; mostly for an element that is in the tree, when there is one.
func (x *qGen) query(g *Gram, pre string, ti int, asExternal string, tree *mTree, ancestors []string, depth int) *Qry {
	t := x.t
	q := &Qry{Tok: tokName(pre, ti), Rev: "reverse", Multi: boolGen.Draw(t, "multi")}
	if asExternal != "" {
		q.Tok = asExternal
	}
	lines := g.Toks[ti].Lines
	line := lines[uniform(t, "line", len(lines))]
	ci := uniform(t, "container", len(line))
	var sub *mTree
	if tree != nil && tree.ok && !tree.reverse && chance(t, "in the tree", 80) {
		line = lines[tree.line]
		el := tree.els[uniform(t, "element", len(tree.els))]
		if other := tree.els[uniform(t, "element", len(tree.els))]; el.contents[0].tree == nil {
			el = other // mostly the trees
		}
		ci, sub = el.ci, el.contents[0].tree
	}
	c := line[ci]
	q.El = contName(pre, c)
	for _, other := range line[:ci] {
		if contName(pre, other) == q.El {
			q.Idx++
		}
	}
	x.tail(q, g, pre, c, sub, ancestors, depth)
	return q
}

// tail draws what is done with the contents of the element.
func (x *qGen) tail(q *Qry, g *Gram, pre string, c Cont, sub *mTree, ancestors []string, depth int) {
	t := x.t
	noise := x.noise
	if x.loop { // what is missing, refused or out of range ends the whole query
		noise /= 4
	}
	if chance(t, "mode", 25) && !(x.loop && chance(t, "plain", 75)) {
		q.Mode = oneOf(t, "mode", 2, 3, 1)
	}
	if chance(t, "refine", 20) && !(x.loop && chance(t, "plain", 80)) {
		q.Content = intPtr(oneOf(t, "content", 0, 0, 1, 2))
		if x.wide {
			q.Content = intPtr(wideAmount(t) - uniform(t, "before", 3))
		}
	}
	ancestors = append(append([]string{}, ancestors...), q.Tok)
	if depth < 3 && c.K != "v" && c.K != "c" && chance(t, "fetch", 80) {
		k := intIn(t, "fetchers", 1, 2)
		if x.loop {
			k = intIn(t, "fetchers", 1, 4)
		}
		if rare(t, "many", 40) {
			k = intIn(t, "fetchers", 3, 12)
		}
		for ; k > 0; k-- {
			q.Fetch = append(q.Fetch, x.fetcher(g, pre, c, sub, ancestors, depth))
		}
	} else {
		q.InSingle = chance(t, "single", 50)
		if x.loop {
			q.InSingle = chance(t, "single", 6)
		}
		if chance(t, "inmode", 30) {
			q.InMode = oneOf(t, "inmode", 3, 4, 2, 1)
		}
	}
	if chance(t, "noise", noise) {
		switch uniform(t, "which", 7) {
		case 0:
			q.Tok = "gt1"
		case 1:
			q.El = oneOf(t, "name", "missing", "reverse", "v97", "gt1")
		case 2:
			q.Idx += intIn(t, "more", 1, 2)
		case 3:
			q.Content = intPtr(intIn(t, "content", 1, 4))
		case 4:
			q.Rev = q.El
		case 5:
			if len(q.Fetch) > 0 {
				q.Fetch[uniform(t, "unknown", len(q.Fetch))] = Fetch{Rec: "unknown"}
			}
		case 6:
			if len(q.Fetch) > 0 { // once the others gave their results
				q.Fetch = append(q.Fetch, Fetch{Rec: "unknown"})
			}
		}
	}
}

func (x *qGen) fetcher(g *Gram, pre string, c Cont, sub *mTree, ancestors []string, depth int) Fetch {
	if c.K == "e" {
		// a tree of everything has the name of its exception, its element is found by the reverse name
		name := tokName(pre, c.T)
		q := &Qry{Tok: name, Rev: "everything", El: "everything", Multi: boolGen.Draw(x.t, "multi")}
		x.tail(q, g, pre, Cont{K: "v"}, nil, ancestors, depth+1)
		return Fetch{Q: q}
	}
	target := contName(pre, c)
	for _, one := range ancestors {
		if one == target && (c.K == "r" || chance(x.t, "recursive", 30)) && chance(x.t, "recursive", 85) {
			return Fetch{Rec: target}
		}
	}
	if c.K == "x" {
		return Fetch{Q: x.query(c.X, extPrefix(c.XN), 0, c.XN, sub, ancestors, depth+1)}
	}
	return Fetch{Q: x.query(g, pre, c.T, "", sub, ancestors, depth+1)}
}

// drawLoop draws a grammar of lists in lists, whose tokens all contain the first one.
func drawLoop(t *rapid.T) *Gram {
	some := func(c Cont, min, max int) Cont {
		c.Min, c.Max = min, intPtr(max)
		return c
	}
	value := func(b byte, min, max int) Cont { return some(Cont{K: "v", V: int(b)}, min, max) }
	again := func() Cont { return some(Cont{K: "r", T: 0}, 1, intIn(t, "again", 1, 2)) }
	lines := [][]Cont{
		{again(), value('a', 0, 2), value('b', 0, 2)},
		{value('a', 1, 2), again()},
		{value('b', 1, 2), some(Cont{K: "t", T: 2}, 1, 2)},
		{value('a', 1, 3), value('c', 0, 1)},
		{value('b', 1, 3)},
	}
	first := uniform(t, "first", len(lines))
	return &Gram{Toks: []Tok{
		{Lines: [][]Cont{{value('(', 1, 1), some(Cont{K: "t", T: 1}, intIn(t, "min", 0, 1), intIn(t, "max", 1, 4)), value(')', 1, 1)}}},
		{Lines: append(append([][]Cont{}, lines[first:]...), lines[:first]...)},
		{Lines: [][]Cont{{value('c', 1, 2), again()}, {value('c', 1, 1)}}},
	}}
}

// drawHugeQuery draws a query of which one dimension is large.
func drawHugeQuery(t *rapid.T) queryCase {
	one := intPtr(1)
	v := func(b byte) Cont { return Cont{K: "v", V: int(b), Min: 1, Max: one} }
	leaf := func(tok, el string) *Qry {
		return &Qry{Tok: tok, Rev: "reverse", El: el, InMode: oneOf(t, "inmode", 0, 0, 3, 4), Multi: boolGen.Draw(t, "multi")}
	}
	q := &Qry{Tok: "gt0", Rev: "reverse", El: "gt1", Multi: true}
	g, data := &Gram{}, []byte{}
	kind := oneOf(t, "kind", "deep", "list", "positions", "fetchers", "chain")
	switch kind {
	case "deep": // a query that is recursive so many times
		n := oneOf(t, "depth", 70, 130, 260, 520, 1100)
		g.Toks = []Tok{{Lines: [][]Cont{{v('('), {K: "t", T: 1, Min: 1, Max: intPtr(2)}, v(')')}}}, {Lines: [][]Cont{{{K: "r", T: 0, Min: 1, Max: one}}, {v('x')}}}}
		data = append(append(bytes.Repeat([]byte("("), n), 'x'), bytes.Repeat([]byte(")"), n)...)
		q.Fetch = []Fetch{{Q: &Qry{Tok: "gt1", Rev: "reverse", El: "gt0", Fetch: []Fetch{{Rec: "gt0"}}}}, {Q: leaf("gt1", "v120")}}
	case "list": // so many contents
		n := oneOf(t, "length", 300, 1030, 4100, 9000)
		g.Toks = []Tok{{Lines: [][]Cont{{{K: "t", T: 1, Min: 1, Max: nil}}}}, {Lines: [][]Cont{{v('a')}, {v('b')}}}}
		data = expand(uniform(t, "seed", 100), n)
		for i := range data {
			data[i] = 'a' + data[i]%2
		}
		q.Fetch = []Fetch{{Q: leaf("gt1", "v97")}}
		if chance(t, "both", 50) {
			q.Fetch = append(q.Fetch, Fetch{Q: leaf("gt1", "v98")})
		}
		if chance(t, "content", 40) {
			q.Content = intPtr(n - uniform(t, "before", 3))
		}
		if chance(t, "values", 30) {
			q.Fetch = nil
			q.InMode = oneOf(t, "inmode", 0, 3, 4)
		}
	case "positions": // an element far in a line
		n := wideAmount(t)
		line := []Cont{}
		for i := 0; i < n; i++ {
			line = append(line, Cont{K: "t", T: 1, Min: 1, Max: intPtr(2)}, v('.'))
		}
		g.Toks = []Tok{{Lines: [][]Cont{line}}, {Lines: [][]Cont{{v('a')}, {v('b')}}}}
		for i := 0; i < n; i++ {
			data = append(data, "a.aa.b.ab.bb."[[]int{0, 2, 5, 7, 10}[i%5]:[]int{2, 5, 7, 10, 13}[i%5]]...)
		}
		q.Idx = n - uniform(t, "before", 4)
		if chance(t, "content", 40) {
			q.Content = intPtr(uniform(t, "which", 2))
		}
		q.Fetch = []Fetch{{Q: leaf("gt1", "v97")}, {Q: leaf("gt1", "v98")}}
	case "fetchers": // so many fetchers
		g.Toks = []Tok{{Lines: [][]Cont{{{K: "t", T: 1, Min: 1, Max: nil}}}}, {Lines: [][]Cont{{v('a'), v('b'), v('c')}}}}
		data = []byte("abcabc")
		for i := wideAmount(t); i > 0; i-- {
			q.Fetch = append(q.Fetch, Fetch{Q: leaf("gt1", oneOf(t, "el", "v97", "v98", "v99", "v100"))})
		}
	case "chain": // so many levels of queries
		n := oneOf(t, "levels", 20, 65, 130, 260)
		for i := 0; i < n; i++ {
			g.Toks = append(g.Toks, Tok{Lines: [][]Cont{{{K: "t", T: i + 1, Min: 1, Max: one}, {K: "v", V: 'a' + i%3, Min: 0, Max: one}}}})
		}
		g.Toks = append(g.Toks, Tok{Lines: [][]Cont{{v('x')}}})
		data = append(data, 'x')
		for i := n - 1; i >= 0; i-- {
			data = append(data, byte('a'+i%3))
		}
		at := q
		for i := 1; i < n; i++ {
			next := &Qry{Tok: tokName("g", i), Rev: "reverse", El: tokName("g", i+1)}
			at.Fetch = []Fetch{{Q: next}}
			at = next
		}
		at.Fetch = []Fetch{{Q: leaf(tokName("g", n), "v120")}}
	}
	return queryCase{astCase{G: g, Data: data, Huge: kind}, q}
}

func drawQuery(noise int) func(t *rapid.T) queryCase {
	o := plainOpts()
	o.toks, o.nested, o.rec, o.every, o.esc, o.ext, o.depth, o.channels = 4, 40, 10, 6, 40, 5, 1, 20
	return func(t *rapid.T) queryCase {
		if rare(t, "huge", 250) {
			return drawHugeQuery(t)
		}
		x := &qGen{t: t, noise: noise, loop: chance(t, "loop", 25)}
		var g *Gram
		if x.loop {
			g = drawLoop(t)
		} else {
			g = drawGram(t, o, "g")
		}
		var data []byte
		var tree *mTree
		if rare(t, "wide", 80) {
			data = drawWide(t, g, o, 5).Data
			tree, _, _ = parseRef(g, "g", data, stepLimit)
			x.wide = true
		}
		for try := 0; !x.wide && try < 3 && (tree == nil || !tree.ok); try++ {
			data = drawSentence(t, g, o, 5)
			tree, _, _ = parseRef(g, "g", data, stepLimit)
		}
		q := x.query(g, "g", 0, "", tree, nil, 0)
		return queryCase{astCase{G: g, Data: data}, q}
	}
}

func limitedRefQuery(q *Qry, t *mTree, limit int, rec *Rec) (value interface{}, ok bool, err error, discarded string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case tooManySteps:
				discarded = "discarded: too many steps"
			case ambiguousName:
				discarded = "discarded: recursion to a query that is over"
			default:
				panic(r)
			}
		}
	}()
	value, ok, err = refQuery(q, t, &queryScope{met: map[string]*Qry{}, limit: limit}, rec)
	return value, ok, err, ""
}

func checkQuery(c queryCase, rec *Rec) error {
	ref, m, tree, err := runBoth(c.Case, &Rec{})
	if err != nil || m == nil || tree == nil {
		rec.Label("no tree")
		return err
	}
	limit := 5000
	if c.Case.Huge != "" {
		limit = 100000
		rec.Label("huge: " + c.Case.Huge)
	}
	want, wantOk, wantErr, discarded := limitedRefQuery(c.Query, ref, limit, rec)
	rec.Evals = 1
	if discarded != "" {
		rec.Labels = map[string]int{discarded: 1}
		return nil
	}
	app := queryapp.NewApplication()
	query := buildQuery(c.Query)
	for round := 0; round < 2; round++ {
		got, ok, remaining, err := app.Execute(query, tree)
		if (err != nil) != (wantErr != nil) {
			return fmt.Errorf("round %d: expected error %v, got %v (result %v)\non the tree:\n%s", round, wantErr, err, got, refDump(ref, len(c.Case.Data)))
		}
		if err != nil {
			if got != nil || ok {
				return fmt.Errorf("round %d: an error and a result: %v", round, got)
			}
			continue
		}
		if ok != wantOk || got != want {
			return fmt.Errorf("round %d: expected %v (valid: %v), got %v (valid: %v)\non the tree:\n%s", round, want, wantOk, got, ok, refDump(ref, len(c.Case.Data)))
		}
		if wantRem := c.Case.Data[ref.end:]; !bytes.Equal(wantRem, remaining) {
			return fmt.Errorf("round %d: remaining %q, expected %q", round, remaining, wantRem)
		}
	}
	if a, b := refDump(ref, len(c.Case.Data)), realDump(tree, nil); a != b {
		return fmt.Errorf("the query changed the tree: %s", diffText(a, b))
	}
	switch {
	case wantErr != nil:
		rec.Label("error")
	case wantOk:
		rec.Label("valid")
	default:
		rec.Label("nothing")
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "Q01",
		Rule:     "random grammars and trees as in A02 (with everythings and externals), a quarter of them lists in lists, and queries drawn along the grammar: an element of a token, by name and position, all its contents or one, handed to a content function or to nested and recursive queries (mostly 1-2, rarely up to 12), once in 250 a simple query with one huge dimension (1100 recursions, 9000 contents, 500 positions or fetchers, 260 levels), the instances to a function of one or all; functions that fail, skip, repeat or drop included; result, validity, error and remaining data compared with an independent evaluation on the reference tree, twice. Non-trivial: the result is valid and came through a nested query, or an instance was skipped.",
		Quick:    90000,
		Thorough: 2700000,
		Assume:   []string{"the functions of the query are pure", "a recursive fetcher names a query in progress, the innermost of its name, or one that was never met"},
	}, drawQuery(3), func(c queryCase, rec *Rec) error {
		err := checkQuery(c, rec)
		rec.NonTrivial = err == nil && (rec.Labels["valid"] > 0 && len(c.Query.Fetch) > 0 || rec.Labels["skipped instance"] > 0)
		return err
	})
	register(Prop{
		ID:       "Q02",
		Rule:     "as Q01, with queries that do not fit: other token and element names, positions and content indexes that do not exist, unknown recursions, failing functions, elements made by everything queried by name; they give an error or an invalid result exactly when the independent evaluation does, never a crash or a partial result. Non-trivial: an error or a missing element.",
		Quick:    90000,
		Thorough: 2700000,
		Assume:   []string{"the functions of the query are pure"},
	}, drawQuery(45), func(c queryCase, rec *Rec) error {
		err := checkQuery(c, rec)
		rec.NonTrivial = err == nil && rec.Labels["error"]+rec.Labels["missing element"] > 0
		return err
	})
}
