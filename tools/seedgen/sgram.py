from lib import *
I='instances/grammars/'; TK=I+'tokens/token.go'; GG=I+'grammars/grammar.go'; CO=I+'components/'
GH=GRAM.replace('	"'+M+'libs/asts/domain/trees"\n)','	"'+M+'libs/asts/domain/trees"\n	"'+M+'instances/grammars/components"\n	scripts "'+M+'instances/grammars/grammars"\n	"'+M+'instances/grammars/tokens"\n)')+'''
var _ = components.NewComponent

// script tells if all of the script is recognised
func script(text string) bool {
	_, _, left, isOk := parse(scripts.NewGrammar().Grammar(), text)
	return isOk && left == ""
}

var _ = tokens.NewToken
'''
def s(id,prop,needs,breaks,edits,main,imports=()):
    seed(id,prop,needs,breaks,edits,main,imports,helper=GH)
s('g01-hex-longer','G01','more than 128 hexadecimal digits in a row',
 'a hash takes all the digits that follow, not 128 of them',
 [(TK,'app.component.Cardinality().Cardinality(amount, &amount)','app.component.Cardinality().Cardinality(amount, nil)')],'''
func main() {
	g := gram(tokens.NewToken().Sha512Hex())
	hex := strings.Repeat("0123456789abcdef", 8)
	want(g, hex, hex, "")
	want(g, hex+"x", hex, "x")
	refuse(g, hex[1:])
	want(g, hex+"ab", hex, "ab")
}''',['strings',M+I+'tokens'])
s('g01-last-byte','G01','the byte 255',
 'the byte token does not accept the last byte',
 [(TK,'	for i := 0; i < byteLength; i++ {','	for i := 0; i < byteLength-1; i++ {')],'''
func main() {
	g := gram(tokens.NewToken().AnyByte())
	for i := 0; i < 256; i++ {
		want(g, string([]byte{byte(i), 'x'}), string([]byte{byte(i)}), "x")
	}
}''',[M+I+'tokens'])
s('g01-comment-return','G01','a comment whose line ends with a carriage return',
 'only a new line ends a comment',
 [(CO+'channels/channels.go','''										app.element.FromValue([]byte("\\n")[0]),
										app.element.FromValue([]byte("\\r")[0]),
									},
									app.suite.Suites(map[string]bool{
										"\\n": true,
										"\\r": true,
''','''										app.element.FromValue([]byte("\\n")[0]),
									},
									app.suite.Suites(map[string]bool{
										"\\n": true,
''')],'''
func main() {
	for _, one := range []string{"@a;v:1;", "@a;\\n\\tv: 1;", "@a; // comment\\nv:1;", "@a; // comment\\r\\nv:1;", "@a; // comment\\rv:1;"} {
		if !script(one) {
			fail("%q is not recognised", one)
		}
	}
}''')
s('g02-channel-twice','G02','a channel with two conditions',
 'a channel of a script can have any number of conditions',
 [(GG,'app.component.Element().FromToken(app.channelPreviousNextToken(), app.component.Cardinality().Cardinality(0, &pMax))','app.component.Element().FromToken(app.channelPreviousNextToken(), app.component.Cardinality().Cardinality(0, nil))'),
  (GG,'func (app *grammar) channelToken() grammars.Token {\n	pMax := uint(1)\n','func (app *grammar) channelToken() grammars.Token {\n')],'''
func main() {
	for _, one := range []string{"@a;-c;v:1;", "@a;-c[p];v:1;", "@a;-c[p:n];-d;v:1;"} {
		if !script(one) {
			fail("%q is not recognised", one)
		}
	}
	for _, one := range []string{"@a;-c[p][:n];v:1;", "@a;-c[];v:1;", "@a;-c[p;v:1;"} {
		if script(one) {
			fail("%q is recognised", one)
		}
	}
}''')
s('g02-cardinality-digits','G02','a cardinality with a maximum of four digits or more',
 'the maximum of a cardinality has three digits at most',
 [(GG,'				app.component.Element().FromToken(app.token.AnyNumber(), app.component.Cardinality().Cardinality(0, nil)),\n','				app.component.Element().FromToken(app.token.AnyNumber(), app.component.Cardinality().Cardinality(0, &pMax)),\n'),
 (GG,'func (app *grammar) cardinalityToken() grammars.Token {\n','func (app *grammar) cardinalityToken() grammars.Token {\n	pMax := uint(3)\n')],'''
func main() {
	for _, one := range []string{"*", "[1]", "[12345]", "[0,]", "[0,123]", "[1234,]", "[0,1234]"} {
		text := "@a; v: b" + one + " --- valid: c; ;"
		if !script(text) {
			fail("%q is not recognised", text)
		}
	}
}''')
s('g02-suite-order','G02','a suite with only valid composes, then several invalid ones, or the other way around',
 'the invalid composes of a suite can be repeated',
 [(GG,'				app.component.Element().FromToken(app.suiteInvalidToken(), app.component.Cardinality().Cardinality(0, &pMax)),\n','				app.component.Element().FromToken(app.suiteInvalidToken(), app.component.Cardinality().Cardinality(0, nil)),\n')],'''
func main() {
	for _, one := range []string{"valid:a;", "invalid:a;", "valid:a&b;invalid:c;"} {
		if text := "@a; v: b* ---" + one + ";"; !script(text) {
			fail("%q is not recognised", text)
		}
	}
	for _, one := range []string{"", "invalid:a;valid:b;", "valid:a;valid:b;", "valid:a;invalid:b;invalid:c;"} {
		if text := "@a; v: b* ---" + one + ";"; script(text) {
			fail("%q is recognised", text)
		}
	}
}''')
s('g03-zero-maximum','G03','a cardinality with a maximum of zero',
 'a maximum of zero is taken for no maximum',
 [(CO+'cardinalities/cardinality.go','	if pMax != nil {','	if pMax != nil && *pMax > 0 {')],'''
func main() {
	c := components.NewComponent()
	a := c.Token().AllCharacters("a", "a")
	for _, max := range []uint{0, 1, 2} {
		root := c.Token().FromBlock("root", c.Block().FromLines([]grammars.Line{c.Line().FromElements([]grammars.Element{
			c.Element().FromToken(a, c.Cardinality().Cardinality(0, &max)),
			c.Element().FromValue('b'),
		})}), nil)
		for n := uint(0); n < 4; n++ {
			text := strings.Repeat("a", int(n)) + "b"
			if n <= max {
				want(gram(root), text, text, "")
			} else {
				refuse(gram(root), text)
			}
		}
	}
}''',['strings',M+I+'components'])
s('g03-escape-once','G03','an everything built by the components with an escape',
 'the escape of an everything is dropped when it has more than one alternative',
 [(CO+'everythings/everything.go','	if escape != nil {','	if escape != nil && len(escape.Block().Lines()) == 1 {')],'''
func main() {
	c := components.NewComponent()
	quote := c.Token().AnyCharacter("quote", "q")
	for _, chars := range []string{"/", "/%"} {
		root := c.Token().FromBlock("root", c.Block().FromLines([]grammars.Line{c.Line().FromElements([]grammars.Element{
			c.Element().FromEverything(c.Everything().Everything("all", quote, c.Token().AnyCharacter("escape", chars))),
			c.Element().FromToken(quote, c.Cardinality().Once()),
		})}), nil)
		want(gram(root), "abq", "abq", "")
		want(gram(root), "a/qbqc", "aqbq", "c")
	}
}''',[M+I+'components'])
s('g03-suite-compose','G03','a suite of a component whose text repeats a character',
 'the composes made by the components merge repeated characters, keeping one',
 [(CO+'composes/compose.go','	for _, oneValue := range values {\n','	for idx, oneValue := range values {\n		if idx > 2 && values[idx-1] == oneValue && values[idx-2] == oneValue && values[idx-3] == oneValue {\n			continue\n		}\n\n')],'''
func main() {
	c := components.NewComponent()
	for _, text := range []string{"a", "abc", "aabb", "aaaa", "x----", "aaabbbbb"} {
		token := c.Token().AllCharacters("text", text)
		want(gram(token), text, text, "")
		covs := ok(applications.NewApplication().Coverages(gram(token)))
		if covs.ContainsError() {
			fail("the suites of %q do not pass", text)
		}
		if data := c.Compose().Compose([]byte(text)); len(data.List()) != len(text) {
			fail("the compose of %q has %d elements", text, len(data.List()))
		}
	}
}''',[M+I+'components'])
s('g03-line-dedup','G03','the same element given twice for a line',
 'a line keeps an element that was given several times only once',
 [(CO+'lines/line.go','''	for _, oneElement := range elements {
''','''	for _, oneElement := range app.unique(elements) {
'''),(CO+'lines/line.go','''func (app *line) lineFromContainers''','''func (app *line) unique(elements []grammars.Element) []grammars.Element {
	list := []grammars.Element{}
	added := map[grammars.Element]bool{}
	for _, oneElement := range elements {
		if added[oneElement] {
			continue
		}

		added[oneElement] = true
		list = append(list, oneElement)
	}

	return list
}

func (app *line) lineFromContainers''')],'''
func main() {
	c := components.NewComponent()
	quote := c.Element().FromValue('\\'')
	l := c.Line().FromElements([]grammars.Element{quote, c.Element().FromValue('x'), quote})
	g := gram(c.Token().FromBlock("quoted", c.Block().FromLines([]grammars.Line{l}), nil))
	want(g, "'x'y", "'x'", "y")
}''',[M+I+'components'])
