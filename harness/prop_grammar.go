package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/steve-care-software/rodkina/instances/grammars/components"
	script "github.com/steve-care-software/rodkina/instances/grammars/grammars"
	"github.com/steve-care-software/rodkina/instances/grammars/tokens"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"pgregory.net/rapid"
)

// ---- G01: the lexical tokens ----

var lexical = []struct {
	name  string
	token func(tokens.Token) grammars.Token
	re    *regexp.Regexp
}{
	{"variable name", tokens.Token.VariableName, regexp.MustCompile(`^[a-z][a-zA-Z]*`)},
	{"sha512 hex", tokens.Token.Sha512Hex, regexp.MustCompile(`^[0-9a-fA-F]{128}`)},
	{"hex character", tokens.Token.AnyHexCharacter, regexp.MustCompile(`^[0-9a-fA-F]`)},
	{"letter", tokens.Token.AnyLetter, regexp.MustCompile(`^[a-zA-Z]`)},
	{"byte", tokens.Token.AnyByte, regexp.MustCompile(`(?s)^.`)},
	{"number", tokens.Token.AnyNumber, regexp.MustCompile(`^[0-9]`)},
	{"A to F", tokens.Token.AToFUpperCaseLetters, regexp.MustCompile(`^[A-F]`)},
	{"a to f", tokens.Token.AToFLowerCaseLetters, regexp.MustCompile(`^[a-f]`)},
	{"upper case", tokens.Token.UpperCaseLetters, regexp.MustCompile(`^[A-Z]`)},
	{"lower case", tokens.Token.LowerCaseLetters, regexp.MustCompile(`^[a-z]`)},
}

type lexicalCase struct {
	Token int `json:"token"`
	Data  B   `json:"data"`
	// Channels: the token is parsed with the channels of the components
	Channels bool  `json:"channels,omitempty"`
	Gaps     []gap `json:"gaps,omitempty"`
}

// gap is something the channels skip, put before the byte at a position.
type gap struct {
	At    int `json:"at"`
	Bytes B   `json:"bytes"`
}

func drawGap(t *rapid.T, n int) gap {
	g := gap{At: intIn(t, "at", 0, n)}
	pieces, length := 3, 6
	switch uniform(t, "long gap", 60) {
	case 0:
		pieces = 70
	case 1:
		length = 300
	}
	for i, k := 0, intIn(t, "pieces", 1, pieces); i < k; i++ {
		if chance(t, "comment", 25) {
			text := []byte("//")
			for j, l := 0, intIn(t, "len", 0, length); j < l; j++ {
				b := oneOf(t, "c", byte('a'), 'Z', '/', ' ', '\t', ';', '@', ':', '0', '-', 0, 0xff)
				if chance(t, "any", 15) {
					b = rapid.Byte().Draw(t, "byte")
				}
				if b != '\n' && b != '\r' {
					text = append(text, b)
				}
			}
			g.Bytes = append(g.Bytes, append(text, oneOf(t, "eol", byte('\n'), '\r'))...)
			continue
		}
		g.Bytes = append(g.Bytes, oneOf(t, "ws", byte(' '), '\t', '\n', '\r'))
	}
	return g
}

func withGaps(data []byte, gaps []gap) []byte {
	out := []byte{}
	for i := 0; i <= len(data); i++ {
		for _, g := range gaps {
			if g.At == i {
				out = append(out, g.Bytes...)
			}
		}
		if i < len(data) {
			out = append(out, data[i])
		}
	}
	return out
}

// strip removes what the channels skip.
func strip(data []byte) []byte {
	out := []byte{}
	for i := 0; i < len(data); i++ {
		switch {
		case bytes.IndexByte([]byte(" \t\n\r"), data[i]) >= 0:
		case data[i] == '/' && i+1 < len(data) && data[i+1] == '/':
			for i < len(data) && data[i] != '\n' && data[i] != '\r' {
				i++
			}
		default:
			out = append(out, data[i])
		}
	}
	return out
}

var grammarCache sync.Map

func lexicalGrammar(i int, channels bool) grammars.Grammar {
	key := fmt.Sprint(i, channels)
	if g, ok := grammarCache.Load(key); ok {
		return g.(grammars.Grammar)
	}
	b := grammars.NewBuilder().Create().WithRoot(lexical[i].token(tokens.NewToken()))
	if channels {
		b.WithChannels(components.NewComponent().Channel().Channels())
	}
	g := must(b.Now())
	grammarCache.Store(key, g)
	return g
}

func drawLexical(t *rapid.T) lexicalCase {
	c := lexicalCase{Token: intIn(t, "token", 0, len(lexical)-1), Channels: chance(t, "channels", 40)}
	n := intIn(t, "len", 0, 6)
	if lexical[c.Token].name == "sha512 hex" && chance(t, "long", 80) {
		n = intIn(t, "len", 124, 132)
	}
	if lexical[c.Token].name == "variable name" {
		n = intIn(t, "len", 0, 30)
		if rare(t, "very long", 30) {
			n = intIn(t, "len", 31, 300)
			if rare(t, "huge", 40) {
				n = oneOf(t, "len", 513, 1025, 4097, 5001)
			}
		}
	}
	odd := 0
	if !chance(t, "clean", 60) {
		odd = 8
	}
	classes := []string{"abcdef", "ghiz", "ABCDEF", "GHIZ", "0123456789"}
	main := oneOf(t, "class", [][]int{{0, 2, 4}, {0, 1, 2, 3}, {4}, {0}, {1}, {2}, {3}}...)
	if lexical[c.Token].name == "variable name" && n > 30 {
		main = []int{0, 1, 2, 3}
	} else if n > 100 {
		main = []int{0, 2, 4}
	}
	for i := 0; i < n; i++ {
		if odd > 0 && chance(t, "odd", odd) {
			b := rapid.Byte().Draw(t, "byte")
			if c.Channels && (b == '/' || bytes.IndexByte([]byte(" \t\n\r"), b) >= 0) {
				b = '@'
			}
			c.Data = append(c.Data, b)
			continue
		}
		class := classes[oneOf(t, "sub", main...)]
		c.Data = append(c.Data, class[uniform(t, "char", len(class))])
	}
	if c.Channels {
		for i, k := 0, intIn(t, "gaps", 0, 3); i < k; i++ {
			c.Gaps = append(c.Gaps, drawGap(t, len(c.Data)))
		}
	}
	return c
}

func checkLexical(c lexicalCase, rec *Rec) error {
	lex := lexical[c.Token]
	data := []byte(c.Data)
	raw := withGaps(data, c.Gaps)
	want := -1
	// bytes, not runes: latin-1 text has one rune for each byte
	if m := lex.re.FindString(latin1(data)); m != "" {
		want = len([]rune(m))
	}
	tree, err := astApp().Execute(lexicalGrammar(c.Token, c.Channels), append([]byte{}, raw...))
	rec.Evals++
	if (err != nil) != (want < 0) {
		return fmt.Errorf("%s on %q: expected a match of %d bytes (-1: none), got error %v", lex.name, raw, want, err)
	}
	rec.LabelIf(err == nil, "match: "+lex.name)
	rec.LabelIf(err != nil, "no match: "+lex.name)
	rec.NonTrivial = len(data) > 0 && (err != nil || want < len(data) || want > 1 || len(c.Gaps) > 0)
	if err != nil {
		return nil
	}
	return matched(lex.name, tree, data, raw, want)
}

// matched decides whether a tree took the first bytes of the data and left the others.
func matched(what string, tree trees.Tree, data, raw []byte, want int) error {
	if got := tree.Bytes(false); !bytes.Equal(got, data[:want]) {
		return fmt.Errorf("%s on %q: took %q, expected %q", what, raw, got, data[:want])
	}
	rest := []byte{}
	if tree.HasRemaining() {
		rest = tree.Remaining()
	}
	if !bytes.Equal(strip(rest), strip(data[want:])) {
		return fmt.Errorf("%s on %q: left %q, expected %q", what, raw, rest, data[want:])
	}
	if all := append(append([]byte{}, tree.Bytes(true)...), rest...); !bytes.Equal(all, raw) {
		return fmt.Errorf("%s on %q: the tree and what it left make %q", what, raw, all)
	}
	return nil
}

func latin1(data []byte) string {
	out := []rune{}
	for _, b := range data {
		out = append(out, rune(b))
	}
	return string(out)
}

// ---- G02: scripts ----

const reVar = `[a-z][a-zA-Z]*`
const reSuite = `---(?:valid:V(?:&V)*;(?:invalid:V(?:&V)*;)?|invalid:V(?:&V)*;)`
const reCard = `(?:[?+*]|\[\d+\]|\[\d+,\d*\])`

func scriptRe(s string) *regexp.Regexp {
	s = strings.ReplaceAll(s, "S", reSuite)
	s = strings.ReplaceAll(s, "C", reCard)
	s = strings.ReplaceAll(s, "V", reVar)
	return regexp.MustCompile("^" + s)
}

var (
	reRoot    = scriptRe(`@V;`)
	reChannel = scriptRe(`-V(?:\[(?:V:V|:V|V)\])?;`)
	reInstr   = []struct {
		kind string
		re   *regexp.Regexp
	}{
		{"valueAssignment", scriptRe(`V:\d{1,3};`)},
		{"composeAssignment", scriptRe(`V:V(?:\|\d+)*S;`)},
		{"everythingAssignment", scriptRe(`V:#V(?:!V)?S;`)},
		{"tokenAssignment", scriptRe(`V:(?:VC*)+(?:\|(?:VC*)+)*S;`)},
		{"externalTokenAssignment", scriptRe(`V:[0-9a-fA-F]{128}S;`)},
	}
)

type scriptCase struct {
	Text B     `json:"text"` // without spaces and comments
	Gaps []gap `json:"gaps,omitempty"`
}

type scriptRef struct {
	root     string
	channels []string
	kinds    []string
	instrs   []string
	end      int
}

func refScript(text string) *scriptRef {
	out := &scriptRef{}
	out.root = reRoot.FindString(text)
	if out.root == "" {
		return nil
	}
	p := len(out.root)
	for {
		m := reChannel.FindString(text[p:])
		if m == "" {
			break
		}
		out.channels = append(out.channels, m)
		p += len(m)
	}
next:
	for {
		for _, in := range reInstr {
			if m := in.re.FindString(text[p:]); m != "" {
				out.kinds = append(out.kinds, in.kind)
				out.instrs = append(out.instrs, m)
				p += len(m)
				continue next
			}
		}
		break
	}
	out.end = p
	if len(out.instrs) == 0 {
		return nil
	}
	return out
}

// scriptGen draws the parts of a script; long is the part of which there is an unusual number, somewhere.
type scriptGen struct {
	t    *rapid.T
	odd  int // how many of the parts are not drawn in their form, per hundred
	long string
}

// many draws how often a part is there.
func (x *scriptGen) many(part string, from, to int) int {
	if x.long == part && (part == "instructions" || part == "channels" || chance(x.t, "long", 60)) {
		x.long = ""
		switch {
		case rare(x.t, "huge", 60):
			return oneOf(x.t, part, 513, 1030)
		case chance(x.t, "very", 10):
			return intIn(x.t, part, 250, 300)
		case chance(x.t, "longer", 45):
			return intIn(x.t, part, 17, 70)
		}
		return intIn(x.t, part, to+1, 17)
	}
	return intIn(x.t, part, from, to)
}

func (x *scriptGen) name() string {
	t := x.t
	out := string(rune('a' + intIn(t, "first", 0, 25)))
	long := x.long == "letters"
	for i, n := 0, x.many("letters", 0, 5); i < n && (long && x.long == "" || !chance(t, "short", 30)); i++ {
		out += string(oneOf(t, "letter", 'a', 'b', 'f', 'k', 'z', 'A', 'D', 'M', 'Z'))
	}
	return out
}

func (x *scriptGen) num() string {
	t := x.t
	out, n := "", x.many("digits", 1, 3)
	if n < 4 && chance(t, "many", 12) {
		n = intIn(t, "digits", 0, 7)
	}
	for i := 0; i < n; i++ {
		out += string(rune('0' + intIn(t, "digit", 0, 9)))
	}
	return out
}

// drawSuite is a suite, with odd as often a sequence of parts that may not be one.
func (x *scriptGen) suite() string {
	t, odd := x.t, x.odd
	block := func() string {
		out := ":" + x.name()
		for i, n := 0, x.many("composes", 0, 2); i < n; i++ {
			out += "&" + x.name()
		}
		return out + ";"
	}
	if chance(t, "odd suite", odd) {
		out := oneOf(t, "dashes", "---", "---", "---", "--", "----", "")
		for i, n := 0, intIn(t, "parts", 0, 3); i < n; i++ {
			out += oneOf(t, "part", "valid", "invalid", "valid", "invalid", "other", "") + block()
		}
		return out
	}
	return "---" + oneOf(t, "suite", func() string { return "valid" + block() },
		func() string { return "invalid" + block() },
		func() string { return "valid" + block() + "invalid" + block() })()
}

func (x *scriptGen) elements() string {
	t, odd := x.t, x.odd
	out := ""
	for i, n := 0, x.many("elements", 1, 3); i < n; i++ {
		out += x.name()
		for n := x.many("cardinalities", 1, 1); n > 0; n-- {
			out += oneOf(t, "card", func() string { return "" }, func() string { return "*" }, func() string { return "+" }, func() string { return "?" },
				func() string { return "[" + x.num() + "]" }, func() string { return "[" + x.num() + ",]" },
				func() string { return "[" + x.num() + "," + x.num() + "]" })()
			if chance(t, "again", odd) {
				n++
			}
		}
		if chance(t, "odd card", odd/3) {
			out += oneOf(t, "card", "[]", "[,]", "[,1]", "[1,2,3]", "[1", "1", "{1}", "|")
		}
	}
	return out
}

func drawScript(t *rapid.T) scriptCase {
	odd := 0 // how many of the parts are not drawn in their form, per hundred
	if chance(t, "odd", 45) {
		odd = oneOf(t, "odd", 5, 15, 40)
	}
	x := &scriptGen{t: t, odd: odd}
	if rare(t, "long", 25) {
		if chance(t, "clean", 70) {
			odd, x.odd = 0, 0
		}
		x.long = oneOf(t, "part", "letters", "digits", "composes", "elements", "cardinalities", "lines", "amounts", "channels", "instructions")
	}
	v := func() string {
		if chance(t, "odd name", odd/8) {
			return oneOf(t, "name", "", "A", "0a", "_", "a0", "é")
		}
		return x.name()
	}
	parts := []string{}
	if !chance(t, "no root", odd/8) {
		parts = append(parts, "@"+v()+";")
	}
	channels, instructions := 0, 1
	if x.long == "channels" || chance(t, "channels", 55) {
		channels = x.many("channels", 1, 3)
	}
	if x.long == "instructions" || chance(t, "instructions", 45) {
		instructions = x.many("instructions", 2, 4)
	}
	if chance(t, "none", odd/8) {
		instructions = 0
	}
	for i := 0; i < channels; i++ {
		inside := ""
		for {
			inside += oneOf(t, "condition", func() string { return "" }, func() string { return "[" + v() + "]" }, func() string { return "[:" + v() + "]" }, func() string { return "[" + v() + ":" + v() + "]" })()
			if !chance(t, "again", odd) {
				break
			}
		}
		if chance(t, "odd condition", odd/3) {
			inside += oneOf(t, "condition", "[]", "[:]", "[a:]", "[a:b:c]", "[a", "a]", "[a,b]")
		}
		parts = append(parts, "-"+v()+inside+";")
	}
	for i := 0; i < instructions; i++ {
		body := ""
		switch oneOf(t, "kind", 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 4) {
		case 0:
			parts = append(parts, v()+":"+x.num()+";")
			continue
		case 1:
			body = v()
			for j, m := 0, x.many("amounts", 0, 2); j < m; j++ {
				body += "|" + x.num()
			}
		case 2:
			body = "#" + v()
			if chance(t, "escape", 50) {
				body += "!" + v()
			}
			for chance(t, "more", odd/3) {
				body += oneOf(t, "sign", "!", "#", "|") + v()
			}
		case 3:
			body = x.elements()
			for j, m := 0, x.many("lines", 0, 2); j < m; j++ {
				body += "|" + x.elements()
			}
		case 4:
			n := 128
			if chance(t, "odd length", odd) {
				n = oneOf(t, "length", 127, 129, 126, 130, 64, 256, 8)
			}
			digits := "0123456789abcdefABCDEF"
			from := uniform(t, "digits", len(digits))
			for j := 0; j < n; j++ {
				body += string(digits[(from+j*7+j*j)%len(digits)])
			}
			for j, m := 0, intIn(t, "changes", 0, 2); j < m; j++ {
				at := intIn(t, "at", 0, n-1)
				body = body[:at] + oneOf(t, "hex", "0", "9", "a", "f", "A", "F") + body[at+1:]
			}
			if chance(t, "odd digit", odd/3) {
				at := intIn(t, "at", 0, n-1)
				body = body[:at] + oneOf(t, "hex", "g", "G", "z", "@") + body[at+1:]
			}
		}
		if !chance(t, "no suite", odd/6) {
			body += x.suite()
		}
		if !chance(t, "no end", odd/8) {
			body += ";"
		}
		parts = append(parts, v()+":"+body)
	}
	if chance(t, "shuffle", 4+odd/4) && len(parts) > 1 {
		i, j := intIn(t, "i", 0, len(parts)-1), intIn(t, "j", 0, len(parts)-1)
		parts[i], parts[j] = parts[j], parts[i]
	}
	c := scriptCase{Text: B(strings.Join(parts, ""))}
	if chance(t, "mutated", 30) {
		for i, n := 0, intIn(t, "mutations", 1, 2); i < n; i++ {
			at := intIn(t, "at", 0, len(c.Text))
			b := oneOf(t, "byte", byte(';'), ':', '-', '[', ']', '|', '&', '@', '#', '!', '*', ',', 'a', 'Z', '0', '9', 0, 0xc3)
			switch uniform(t, "mutation", 4) {
			case 0:
				c.Text = append(append(append(B{}, c.Text[:at]...), b), c.Text[at:]...)
			case 1:
				if at < len(c.Text) {
					c.Text = append(append(B{}, c.Text[:at]...), c.Text[at+1:]...)
				}
			case 2:
				if at < len(c.Text) {
					c.Text[at] = b
				}
			case 3:
				c.Text = c.Text[:at]
			}
		}
	}
	if chance(t, "gaps", 40) {
		for i, n := 0, intIn(t, "gaps", 1, 6); i < n; i++ {
			c.Gaps = append(c.Gaps, drawGap(t, len(c.Text)))
		}
	}
	return c
}

var (
	reName     = scriptRe(`V`)
	reSuitePos = regexp.MustCompile(reSuiteAny())
	reHash     = regexp.MustCompile(`^[0-9a-fA-F]{128}`)
	reCardRef  = scriptRe(`C`)
)

func reSuiteAny() string { return strings.ReplaceAll(reSuite, "V", reVar) + ";$" }

// partNames are the tokens of the parts of a script that a reader of its tree looks for.
var partNames = map[string]bool{
	"root": true, "channel": true, "channelPreviousNext": true, "instruction": true, "valueAssignment": true, "composeAssignment": true,
	"everythingAssignment": true, "tokenAssignment": true, "externalTokenAssignment": true, "variableName": true, "suite": true, "suiteValid": true,
	"suiteInvalid": true, "compose": true, "composeWithAmount": true, "everythingWithEscape": true, "everythingWithoutEscape": true,
	"line": true, "element": true, "cardinality": true, "sha512Hex": true, "anyNumber": true,
}

// refParts lists the parts of an accepted script, outer parts first, in order.
func (r *scriptRef) refParts() []string {
	out := []string{}
	add := func(name, text string) { out = append(out, name+" "+text) }
	// words are the names and digits of a text
	words := func(text string) {
		for len(text) > 0 {
			if m := reName.FindString(text); m != "" {
				add("variableName", m)
				text = text[len(m):]
				continue
			}
			if text[0] >= '0' && text[0] <= '9' {
				add("anyNumber", text[:1])
			}
			text = text[1:]
		}
	}
	suite := func(text string) {
		add("suite", text)
		text = text[len("---"):]
		for text != "" {
			end := strings.Index(text, ";") + 1
			name := "suiteValid"
			if strings.HasPrefix(text, "invalid") {
				name = "suiteInvalid"
			}
			add(name, text[:end])
			words(text[strings.Index(text, ":"):end])
			text = text[end:]
		}
	}
	add("root", r.root)
	words(r.root)
	for _, ch := range r.channels {
		add("channel", ch)
		at := strings.Index(ch, "[")
		if at < 0 {
			words(ch)
			continue
		}
		words(ch[:at])
		add("channelPreviousNext", ch[at:len(ch)-1])
		words(ch[at:])
	}
	for i, in := range r.instrs {
		add("instruction", in)
		add(r.kinds[i], in)
		colon := strings.Index(in, ":")
		words(in[:colon])
		body := in[colon+1:]
		if r.kinds[i] == "valueAssignment" {
			words(body)
			continue
		}
		at := reSuitePos.FindStringIndex(body)[0]
		tail := body[at : len(body)-1]
		body = body[:at]
		switch r.kinds[i] {
		case "composeAssignment":
			add("compose", body)
			for j, piece := range strings.Split(body, "|") {
				if j > 0 {
					add("composeWithAmount", "|"+piece)
				}
				words(piece)
			}
		case "everythingAssignment":
			if strings.Contains(body, "!") {
				add("everythingWithEscape", body)
			} else {
				add("everythingWithoutEscape", body)
			}
			words(body)
		case "tokenAssignment":
			for _, line := range strings.Split(body, "|") {
				add("line", line)
				for line != "" {
					end := len(reName.FindString(line))
					for {
						m := reCardRef.FindString(line[end:])
						if m == "" {
							break
						}
						end += len(m)
					}
					el := line[:end]
					add("element", el)
					n := reName.FindString(el)
					add("variableName", n)
					for el = el[len(n):]; el != ""; {
						m := reCardRef.FindString(el)
						add("cardinality", m)
						words(m)
						el = el[len(m):]
					}
					line = line[end:]
				}
			}
		case "externalTokenAssignment":
			add("sha512Hex", body)
			for j := range body {
				if body[j] >= '0' && body[j] <= '9' {
					add("anyNumber", body[j:j+1])
				}
			}
		}
		suite(tail)
	}
	return out
}

func realParts(t trees.Tree, out *[]string) {
	if name := t.Grammar().Name(); partNames[name] {
		*out = append(*out, name+" "+string(t.Bytes(false)))
	}
	if !t.Block().HasSuccessful() {
		return
	}
	for _, el := range t.Block().Successful().Elements().List() {
		for _, ct := range el.Contents().List() {
			if ct.IsTree() {
				realParts(ct.Tree(), out)
			}
		}
	}
}

func scriptGrammar() grammars.Grammar {
	if g, ok := grammarCache.Load("script"); ok {
		return g.(grammars.Grammar)
	}
	g := script.NewGrammar().Grammar()
	grammarCache.Store("script", g)
	return g
}

func checkScript(c scriptCase, rec *Rec) error {
	raw := withGaps(c.Text, c.Gaps)
	ref := refScript(latin1(c.Text))
	tree, err := astApp().Execute(scriptGrammar(), append([]byte{}, raw...))
	rec.Evals++
	if (err != nil) != (ref == nil) {
		return fmt.Errorf("the script %q: expected acceptance %v, got error %v", raw, ref != nil, err)
	}
	if err != nil {
		rec.Label("rejected")
		rec.NonTrivial = len(c.Text) > 0
		return nil
	}
	if err := matched("the script", tree, c.Text, raw, ref.end); err != nil {
		return err
	}
	rec.Label("accepted")
	rec.LabelIf(ref.end < len(c.Text), "accepted in part")
	got := map[string][]string{}
	kinds := []string{}
	for _, el := range tree.Block().Successful().Elements().List() {
		for _, ct := range el.Contents().List() {
			if !ct.IsTree() {
				return fmt.Errorf("the script %q: a value at the first level", raw)
			}
			sub := ct.Tree()
			name := sub.Grammar().Name()
			got[name] = append(got[name], string(sub.Bytes(false)))
			if name != "instruction" {
				continue
			}
			inner := sub.Block().Successful().Elements().List()
			if len(inner) != 1 || len(inner[0].Contents().List()) != 1 || !inner[0].Contents().List()[0].IsTree() {
				return fmt.Errorf("the script %q: an instruction that is not made of one assignment", raw)
			}
			kinds = append(kinds, inner[0].Contents().List()[0].Tree().Grammar().Name())
		}
	}
	for name, want := range map[string][]string{"root": {ref.root}, "channel": ref.channels, "instruction": ref.instrs} {
		if strings.Join(got[name], "\n") != strings.Join(want, "\n") || len(got[name]) != len(want) {
			return fmt.Errorf("the script %q: expected %s %q, got %q", raw, name, want, got[name])
		}
	}
	if strings.Join(kinds, " ") != strings.Join(ref.kinds, " ") {
		return fmt.Errorf("the script %q: expected %v, got %v", raw, ref.kinds, kinds)
	}
	want, parts := ref.refParts(), []string{}
	realParts(tree, &parts)
	for i := range want {
		if i >= len(parts) || parts[i] != want[i] {
			return fmt.Errorf("the script %q: part %d is not %q: %q", raw, i, want[i], parts[min(i, len(parts)):min(i+3, len(parts))])
		}
	}
	if len(parts) > len(want) {
		return fmt.Errorf("the script %q: unexpected part %q", raw, parts[len(want)])
	}
	for _, k := range ref.kinds {
		rec.Label(k)
	}
	rec.NonTrivial = len(ref.instrs) > 1 || len(c.Gaps) > 0
	return nil
}

// ---- G03: the components ----

type componentCase struct {
	Kind   string `json:"kind"` // all, any, everything, repeat
	Text   B      `json:"text"`
	Escape B      `json:"escape,omitempty"`
	Min    int    `json:"min,omitempty"`
	Max    *int   `json:"max,omitempty"`
	Data   B      `json:"data"`
	// Toks are the tokens of a program: the first one is executed, a token only uses those after it
	Toks []compTok `json:"toks,omitempty"`
	// Share: the elements that are the same are the same instance
	Share bool `json:"share,omitempty"`
}

// compTok is a token made by the components.
type compTok struct {
	Kind   string   `json:"kind"` // all, any: from its text; elements: one of its first line; block
	Text   B        `json:"text,omitempty"`
	Lines  [][]Cont `json:"lines,omitempty"` // values and everythings once, tokens with a cardinality
	Suites []Suite  `json:"suites,omitempty"`
}

// gram is the same grammar without the components.
func (c componentCase) gram() *Gram {
	out := &Gram{}
	for _, tok := range c.Toks {
		next := Tok{}
		switch tok.Kind {
		case "all":
			next.Lines = [][]Cont{bytesLine(string(tok.Text))}
			next.Suites = []Suite{{Valid: true, Cp: unitCompose(tok.Text)}}
		case "any":
			seen := map[string]bool{}
			for _, r := range string(tok.Text) {
				next.Lines = append(next.Lines, bytesLine(string(r)))
				if !seen[string(r)] {
					next.Suites = append(next.Suites, Suite{Valid: true, Cp: unitCompose(B(string(r)))})
				}
				seen[string(r)] = true
			}
		case "elements":
			for _, el := range tok.Lines[0] {
				next.Lines = append(next.Lines, []Cont{el})
			}
			next.Suites = tok.Suites
		default:
			next.Lines, next.Suites = tok.Lines, tok.Suites
		}
		out.Toks = append(out.Toks, next)
	}
	return out
}

// unitCompose is the compose of the bytes, one at a time.
func unitCompose(data []byte) [][]int {
	out := [][]int{}
	for _, b := range data {
		out = append(out, []int{int(b), 1})
	}
	return out
}

func (c componentCase) build() grammars.Token {
	comp := components.NewComponent()
	made := make([]grammars.Token, len(c.Toks))
	elements := &gramBuilder{share: c.Share, parts: map[string]any{}}
	for i := len(c.Toks) - 1; i >= 0; i-- {
		tok, name := c.Toks[i], tokName("g", i)
		newElement := func(el Cont) grammars.Element {
			switch el.K {
			case "v":
				return comp.Element().FromValue(byte(el.V))
			case "e":
				if el.Esc == nil {
					return comp.Element().FromEverything(comp.Everything().WithoutEscape(contName("g", el), made[el.T]))
				}
				return comp.Element().FromEverything(comp.Everything().Everything(contName("g", el), made[el.T], made[*el.Esc]))
			}
			if el.Max == nil {
				return comp.Element().FromToken(made[el.T], comp.Cardinality().Cardinality(uint(el.Min), nil))
			}
			max := uint(*el.Max)
			card := comp.Cardinality().Cardinality(uint(el.Min), &max)
			if el.Min == 1 && max == 1 {
				card = comp.Cardinality().Once()
			}
			max = 99 // the cardinality does not keep the variable
			return comp.Element().FromToken(made[el.T], card)
		}
		element := func(el Cont) grammars.Element {
			return part(elements, "element", el, func() grammars.Element { return newElement(el) })
		}
		suites := map[string]bool{}
		for _, s := range tok.Suites {
			suites[string(composeBytes(s.Cp))] = s.Valid
		}
		switch tok.Kind {
		case "all":
			made[i] = comp.Token().AllCharacters(name, string(tok.Text))
		case "any":
			made[i] = comp.Token().AnyCharacter(name, string(tok.Text))
		case "elements":
			list := []grammars.Element{}
			for _, el := range tok.Lines[0] {
				list = append(list, element(el))
			}
			made[i] = comp.Token().AnyElement(name, list, comp.Suite().Suites(suites))
		default:
			lines := []grammars.Line{}
			for _, line := range tok.Lines {
				list := []grammars.Element{}
				for _, el := range line {
					list = append(list, element(el))
				}
				lines = append(lines, comp.Line().FromElements(list))
			}
			made[i] = comp.Token().FromBlock(name, comp.Block().FromLines(lines), comp.Suite().Suites(suites))
		}
	}
	return made[0]
}

func drawProgramOfComponents(t *rapid.T) componentCase {
	c := componentCase{Kind: "program", Share: chance(t, "share", 35)}
	o := plainOpts()
	n := intIn(t, "tokens", 2, 5)
	chars := []string{"a", "b", "c", "a", "b", "a", "\x00", "\xff", "é", "世", "\xc3", "0"}
	if chance(t, "ascii", 60) {
		chars = []string{"a", "b", "c"}
	}
	char := func() string { return chars[uniform(t, "char", len(chars))] }
	text := func(lo, hi int) B {
		out := B{}
		for i, n := 0, intIn(t, "len", lo, hi); i < n; i++ {
			out = append(out, char()...)
		}
		return out
	}
	for i := 0; i < n; i++ {
		tok := compTok{Kind: oneOf(t, "kind", "all", "any", "elements", "block", "block", "block")}
		if i == 0 {
			tok.Kind = oneOf(t, "kind", "block", "block", "block", "elements")
		}
		if i == n-1 {
			tok.Kind = oneOf(t, "kind", "all", "any")
		}
		switch tok.Kind {
		case "all":
			tok.Text = text(1, 4)
		case "any":
			for tok.Text == nil || !utf8.Valid(tok.Text) {
				tok.Text = text(1, 4)
			}
		default:
			lines := 1
			if tok.Kind == "block" {
				lines = intIn(t, "lines", 1, 3)
			}
			for j := 0; j < lines; j++ {
				line := []Cont{}
				for k, m := 0, intIn(t, "elements", 1, 3); k < m; k++ {
					el := Cont{K: oneOf(t, "element", "v", "t", "t", "t", "e"), Min: 1, Max: intPtr(1)}
					switch el.K {
					case "v":
						el.V = int(char()[0])
					case "t":
						el.T = intIn(t, "token", i+1, n-1)
						if chance(t, "cardinality", 60) {
							el.Min, el.Max = intIn(t, "min", 0, 3), nil
							if chance(t, "max", 60) {
								el.Max = intPtr(el.Min + intIn(t, "more", 0, 3))
							}
						}
					case "e":
						el.T = intIn(t, "exception", i+1, n-1)
						if chance(t, "escape", 60) {
							el.Esc = intPtr(intIn(t, "escape", i+1, n-1))
						}
					}
					line = append(line, el)
				}
				if c.Share && chance(t, "again", 40) {
					line = append(line, line[uniform(t, "which", len(line))])
				}
				tok.Lines = append(tok.Lines, line)
			}
		}
		c.Toks = append(c.Toks, tok)
	}
	g := c.gram()
	word := func(ti int) B {
		s := &sentence{t: t, o: o, budget: 20}
		s.token(g, ti, nil, 0)
		out := B(s.out)
		if chance(t, "mutated", 25) && len(out) > 0 {
			at := uniform(t, "at", len(out))
			out = append(append(append(B{}, out[:at]...), char()...), out[at+uniform(t, "cut", 2):]...)
		}
		if chance(t, "more", 20) {
			out = append(out, text(1, 2)...)
		}
		return out[:min(len(out), 40)]
	}
	for i := range c.Toks {
		if k := c.Toks[i].Kind; k == "all" || k == "any" || !chance(t, "suites", 50) {
			continue
		}
		seen := map[string]bool{}
		for j, m := 0, intIn(t, "suites", 1, 3); j < m; j++ {
			if w := word(i); len(w) > 0 && !seen[string(w)] {
				seen[string(w)] = true
				c.Toks[i].Suites = append(c.Toks[i].Suites, Suite{Valid: chance(t, "valid", 65), Cp: unitCompose(w)})
			}
		}
	}
	c.Data = word(0)
	return c
}

var reValueName = regexp.MustCompile(`(?m)\] v(\d+)$`)

// checkProgramOfComponents compares a grammar made by the components with the same grammar without them.
func checkProgramOfComponents(c componentCase, rec *Rec) error {
	g := c.gram()
	// the components give a value its number as name
	named := func(dump string) string { return reValueName.ReplaceAllString(dump, "] $1") }
	ref, _, err := parseRef(g, "g", c.Data, stepLimit)
	want, err2 := refCoverages(g, "g", stepLimit)
	if err != nil || err2 != nil {
		rec.Label("discarded: too many steps")
		return nil
	}
	grammar := must(grammars.NewBuilder().Create().WithRoot(c.build()).Now())
	tree, err := astApp().Execute(grammar, append([]byte{}, c.Data...))
	rec.Evals += 1 + len(want)
	wantDump, dump := "", ""
	if wantDump, dump = named(refDump(ref, len(c.Data))), realDump(tree, err); wantDump != dump {
		return fmt.Errorf("a program of components on %q: %s", c.Data, diffText(wantDump, dump))
	}
	covs, err := astApp().Coverages(grammar)
	if err != nil {
		return fmt.Errorf("the coverages of a program of components: %w", err)
	}
	got, _, err := realExecutions(covs)
	if err != nil {
		return err
	}
	texts := []string{}
	for _, one := range want {
		texts = append(texts, named(fmt.Sprintf("%s valid=%v %q\n%s", one.tok, one.valid, one.input, one.dump)))
	}
	sort.Strings(texts)
	sort.Strings(got)
	if a, b := strings.Join(texts, "\n"), strings.Join(got, "\n"); a != b {
		return fmt.Errorf("the suites of a program of components: %s", diffText(a, b))
	}
	rec.Label("program")
	rec.LabelIf(ref != nil && ref.ok, "match: program")
	rec.LabelIf(ref == nil || !ref.ok, "no match: program")
	rec.NonTrivial = len(c.Data) > 0
	return nil
}

// expandText gives so many characters.
func expandText(seed, n int) B {
	out := expand(seed, n)
	for i := range out {
		out[i] = "abcd"[out[i]&3]
	}
	return out
}

func drawComponent(t *rapid.T) componentCase {
	if chance(t, "program", 50) {
		return drawProgramOfComponents(t)
	}
	c := componentCase{Kind: oneOf(t, "kind", "all", "any", "repeat", "everything")}
	char := func() string {
		return oneOf(t, "char", "a", "b", "c", "a", "b", "/", "\x00", "\x7f", "é", "ß", "世", "😀")
	}
	if chance(t, "ascii", 50) {
		char = func() string { return oneOf(t, "char", "a", "b", "c", "d") }
	}
	text := func(lo, hi int) B {
		out := B{}
		for i, n := 0, intIn(t, "len", lo, hi); i < n; i++ {
			out = append(out, char()...)
		}
		return out
	}
	c.Text = text(1, 4)
	if c.Kind == "everything" && chance(t, "escape", 60) {
		c.Escape = text(1, 2)
	}
	if c.Kind == "repeat" {
		c.Min = intIn(t, "min", 0, 3)
		if chance(t, "max", 60) {
			max := c.Min + intIn(t, "more", 0, 3)
			if max > 0 {
				c.Max = &max
			}
		}
	}
	if rare(t, "long", 60) {
		n := oneOf(t, "length", 5, 17, 33, 100, 255, 256, 257, 300)
		if rare(t, "huge", 12) {
			n = oneOf(t, "length", 513, 1030, 4097, 5001)
		}
		switch c.Kind {
		case "repeat":
			c.Min = max(0, n-uniform(t, "less", 3))
			if c.Max != nil {
				c.Max = intPtr(c.Min + 1)
			}
			c.Text = c.Text[:1]
			if c.Text[0] >= utf8.RuneSelf {
				c.Text = B("r")
			}
			c.Data = bytes.Repeat(c.Text, n+uniform(t, "more", 4)-1)
		case "any":
			c.Text = nil
			for i, first := 0, rune(intIn(t, "first", 1, 0x3000)); i < n; i++ {
				c.Text = append(c.Text, string(first+rune(i))...)
			}
		default:
			c.Text = expandText(uniform(t, "seed", 100), n)
		}
	}
	runes := []rune(string(c.Text))
	for i, n := 0, intIn(t, "pieces", 0, 7); i < n && len(c.Data) < 1500; i++ {
		switch uniform(t, "piece", 6) {
		case 0, 1:
			c.Data = append(c.Data, c.Text...)
		case 2:
			c.Data = append(c.Data, string(runes[uniform(t, "rune", len(runes))])...)
		case 3:
			c.Data = append(c.Data, c.Escape...)
		case 4:
			c.Data = append(append(c.Data, c.Escape...), c.Text...)
		case 5:
			c.Data = append(c.Data, char()...)
		}
	}
	if chance(t, "cut", 15) && len(c.Data) > 0 {
		c.Data = c.Data[:len(c.Data)-1]
	}
	return c
}

func checkComponent(c componentCase, rec *Rec) error {
	if c.Kind == "program" {
		return checkProgramOfComponents(c, rec)
	}
	comp := components.NewComponent()
	text := string(c.Text)
	wrap := func(els ...grammars.Element) grammars.Token {
		return comp.Token().FromBlock("wrap", comp.Block().FromLines([]grammars.Line{comp.Line().FromElements(els)}), nil)
	}
	var root grammars.Token
	want := -1 // how many bytes are taken
	data := string(c.Data)
	suites := 0
	switch c.Kind {
	case "all":
		root = comp.Token().AllCharacters("all", text)
		suites = 1
		if err := checkBytesCompose(comp.Compose().Compose([]byte(text)), text); err != nil {
			return fmt.Errorf("the compose of %q: %w", text, err)
		}
		if strings.HasPrefix(data, text) {
			want = len(text)
		}
	case "any":
		root = comp.Token().AnyCharacter("any", text)
		seen := map[rune]bool{}
		for _, r := range text {
			if !seen[r] {
				suites++
			}
			seen[r] = true
			if want < 0 && strings.HasPrefix(data, string(r)) {
				want = len(string(r))
			}
		}
	case "repeat":
		var pMax *uint
		if c.Max != nil {
			max := uint(*c.Max)
			pMax = &max
		}
		inner := comp.Token().AllCharacters("all", text)
		root = wrap(comp.Element().FromToken(inner, comp.Cardinality().Cardinality(uint(c.Min), pMax)))
		suites = 1
		n := 0
		for strings.HasPrefix(data[n*len(text):], text) && (c.Max == nil || n < *c.Max) {
			n++
		}
		if n >= c.Min && n > 0 {
			want = n * len(text)
		}
		if n == 0 && c.Min == 0 {
			rec.Label("nothing matched")
			return nil // what an empty token gives is decided by A02
		}
	case "everything":
		exc := comp.Token().AllCharacters("exc", text)
		if len(c.Escape) > 0 {
			esc := comp.Token().AllCharacters("esc", string(c.Escape))
			root = wrap(comp.Element().FromEverything(comp.Everything().Everything("all", exc, esc)))
		} else {
			root = wrap(comp.Element().FromEverything(comp.Everything().WithoutEscape("all", exc)))
		}
		// the meaning of an everything is decided by A04: the same grammar built by hand
		g := &Gram{Toks: []Tok{{Lines: [][]Cont{{{K: "e", T: 1, Min: 1, Max: intPtr(1)}}}}, {Lines: [][]Cont{bytesLine(text)}}}}
		if len(c.Escape) > 0 {
			g.Toks[0].Lines[0][0].Esc = intPtr(2)
			g.Toks = append(g.Toks, Tok{Lines: [][]Cont{bytesLine(string(c.Escape))}})
		}
		ref, _, err := parseRef(g, "", c.Data, 100000)
		if err != nil && err == errSteps {
			return hfail("steps")
		}
		if ref != nil {
			want = ref.end
		}
	}
	tree, err := astApp().Execute(must(grammars.NewBuilder().Create().WithRoot(root).Now()), append([]byte{}, c.Data...))
	rec.Evals++
	if (err != nil) != (want < 0) {
		return fmt.Errorf("%s %q (escape %q, %d to %v) on %q: expected a match of %d bytes (-1: none), got error %v", c.Kind, c.Text, c.Escape, c.Min, c.Max, c.Data, want, err)
	}
	rec.LabelIf(err == nil, "match: "+c.Kind)
	rec.LabelIf(err != nil, "no match: "+c.Kind)
	ascii := true
	for _, b := range c.Text {
		ascii = ascii && b < 0x80
	}
	rec.LabelIf(!ascii, "not ascii")
	rec.NonTrivial = len(c.Data) > 0
	if err == nil {
		left := []byte{}
		if tree.HasRemaining() {
			left = tree.Remaining()
		}
		// an everything leaves out the escapes
		if got := tree.Bytes(true); string(got) != data[:want] && c.Kind != "everything" || string(left) != data[want:] {
			return fmt.Errorf("%s %q (escape %q) on %q: took %q and left %q, expected %q and %q", c.Kind, c.Text, c.Escape, c.Data, got, left, data[:want], data[want:])
		}
	}
	// the suites that come with the component all pass
	covs, err := astApp().Coverages(must(grammars.NewBuilder().Create().WithRoot(root).Now()))
	if err != nil {
		return fmt.Errorf("%s %q: coverages: %w", c.Kind, c.Text, err)
	}
	if c.Kind == "everything" {
		return nil
	}
	runs := 0
	for _, cov := range covs.List() {
		for _, ex := range cov.Executions().List() {
			runs++
			if ex.Result().IsError() || !ex.Expectation().IsValid() {
				return fmt.Errorf("%s %q: a suite that came with the component fails: %s", c.Kind, c.Text, ex.Result().Error())
			}
		}
	}
	if runs != suites {
		return fmt.Errorf("%s %q: %d suites were executed, expected %d", c.Kind, c.Text, runs, suites)
	}
	rec.Evals += runs
	return nil
}

// checkBytesCompose verifies that a compose gives the bytes of a text.
func checkBytesCompose(compose grammars.Compose, text string) error {
	container := must(grammars.NewContainerBuilder().Create().WithCompose(compose).Now())
	line := must(grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{container}).Now())
	block := must(grammars.NewBlockBuilder().Create().WithLines([]grammars.Line{line}).Now())
	token := must(grammars.NewTokenBuilder().Create().WithName("compose").WithBlock(block).Now())
	got, err := astApp().Compose(token)
	if err != nil {
		return err
	}
	if string(got) != text {
		return fmt.Errorf("it gives %q", got)
	}
	if compose.Name() != text {
		return fmt.Errorf("it is named %q", compose.Name())
	}
	return nil
}

func bytesLine(text string) []Cont {
	out := []Cont{}
	for i := 0; i < len(text); i++ {
		out = append(out, Cont{K: "v", V: int(text[i]), Min: 1, Max: intPtr(1)})
	}
	return out
}

func init() {
	register(Prop{
		ID:       "G01",
		Rule:     "random bytes around the classes of the ten tokens (variable name, 128-digit hash, letters, digits, hexadecimal digits, any byte), with lengths around 128 for the hash and rarely up to 300, now and then 5001, for a name, 40% of them with spaces and comments between any two bytes; acceptance, the bytes taken and those left compared with a regular expression. Non-trivial: rejected, taken in part, longer than one byte, or with spaces.",
		Quick:    120000,
		Thorough: 3600000,
	}, drawLexical, checkLexical)
	register(Prop{
		ID:       "G02",
		Rule:     "random scripts (a root, 0-3 channels with conditions, 1-4 values, composes, everythings, tokens and externals with suites), 45% of them with parts that are repeated, missing, empty, too long or in another order, 30% mutated by 1-2 bytes or cut, 40% with spaces and comments at up to 6 random places, and one in 25 with up to 300, now and then 1030, of one of their parts (letters, digits, composes, elements, cardinalities, lines, amounts, channels, instructions); acceptance, root, channels, instructions with their kinds, what is left, and all the parts of the tree (names, conditions, lines, elements, cardinalities, digits, amounts, valid and invalid suites) compared with regular expressions on the text without spaces and comments. Non-trivial: rejected, several instructions, or with spaces.",
		Quick:    7800,
		Thorough: 234000,
	}, drawScript, checkScript)
	register(Prop{
		ID:       "G03",
		Rule:     "the components with random texts of 1-4 characters (one in 60 of up to 300, one in 720 of up to 5001), multi-byte ones included, as a compose, a sequence, a choice, a repetition or the end of an everything with and without escape, on data made of their pieces; what is taken and left compared with string operations (for an everything with the reference parser), and the suites that come with a component all pass. Non-trivial: data that is not empty.",
		Quick:    750000,
		Thorough: 22500000,
	}, drawComponent, checkComponent)
}
