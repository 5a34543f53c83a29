from lib import *
TR='libs/asts/domain/trees/'; GR='libs/asts/domain/grammars/'
APP=M+'libs/asts/applications'; GRP=M+'libs/asts/domain/grammars'
def s(id,prop,needs,breaks,edits,main,imports=()):
    seed(id,prop,needs,breaks,edits,main,imports,helper=GRAM)

s('a01-suffix-bytes','A01','a grammar with channels, a channel after a nested tree, and data left after it',
 'the bytes of a tree omit its suffix when the tree left some data',
 [(TR+'tree.go','	if includeChannels && obj.HasSuffix() {','	if includeChannels && obj.HasSuffix() && !obj.HasRemaining() {')],'''
func main() {
	space := tok("space", nil, line(vEl(' ', 1, 1)))
	word := tok("word", nil, line(vEl('a', 1, -1)))
	root := tok("root", nil, line(tEl(word, 1, 1), vEl('b', 1, 1)))
	g := gram(root, channel(space, nil, nil))
	want(g, "ab", "ab", "")
	want(g, "a b", "a b", "")
	want(g, "a a  b  ", "a a  b  ", "")
	want(g, "ab c", "ab ", "c")
}''')

s('a02-guard-prefix','A02','a recursive token, on data that repeats itself',
 'an alternative in progress is refused for data that begins the data it is in progress on, not only for the same data: a recursion on repetitive data is cut short',
 [(AST,'				if bytes.Compare(remaining, data) == 0 {','				if bytes.HasPrefix(data, remaining) {')],'''
func main() {
	// root = ( root ) | x root | x
	root := tok("root", nil, line(vEl('(', 1, 1), rEl("root", 1, 1), vEl(')', 1, 1)), line(vEl('x', 1, 1), rEl("root", 1, 1)), line(vEl('x', 1, 1)))
	g := gram(root)
	want(g, "x", "x", "")
	want(g, "(x)", "(x)", "")
	want(g, "((x))y", "((x))", "y")
	want(g, "(x(x))", "(x(x))", "")
	want(g, "xx", "xx", "")
	want(g, "xxx", "xxx", "")
}''')

s('a03-channel-prev','A03','a channel with a condition on what comes before it, right after another channel in the same gap',
 'the condition of a channel is judged on the data before the first channel of the gap, not on the one right before it',
 [(AST,'''			previousData = remaining
			remaining = rem
		}

		if beginAmount == len(treeList) {''','''			remaining = rem
		}

		if beginAmount == len(treeList) {''')],'''
func main() {
	space := tok("space", nil, line(vEl(' ', 1, 1)))
	dash := tok("dash", nil, line(vEl('-', 1, 1)))
	root := tok("root", nil, line(vEl('a', 1, 1), vEl('b', 1, 1)))

	// a dash is only a channel after a space
	g := gram(root, channel(space, nil, nil), channel(dash, space, nil))
	want(g, "a b", "a b", "")
	refuse(g, "a-b")
	refuse(g, "a--b")
	want(g, "a -b", "a -b", "")
}''')

s('a03-condition-end','A03','a channel with a condition on what comes after it, at the end of the data',
 'the condition of a channel is not judged when nothing is left after it',
 [(AST,'	if channel.HasCondition() {\n','	if channel.HasCondition() && tree.HasRemaining() {\n')],'''
func main() {
	space := tok("space", nil, line(vEl(' ', 1, 1)))
	b := tok("b", nil, line(vEl('b', 1, 1)))
	root := tok("root", nil, line(vEl('a', 1, 1), vEl('b', 0, 1)))

	// a space is only a channel before a b
	g := gram(root, channel(space, nil, b))
	want(g, "a b", "a b", "")
	want(g, "a c", "a", " c")
	want(g, "a ", "a", " ")
}''')

s('a04-doubled-escape','A04','an everything whose escape has the name of its exception, as for doubled quotes',
 'the escape is ignored when it is the same token as the exception',
 [(GR+'everything_builder.go','	if app.escape != nil {','	if app.escape != nil && app.escape.Name() != app.exception.Name() {')],'''
func main() {
	quote := tok("quote", nil, line(vEl('"', 1, 1)))
	slash := tok("slash", nil, line(vEl('/', 1, 1)))
	for _, one := range []struct {
		escape grammars.Token
		data   string
		match  string
		left   string
	}{
		{slash, "\\"ab/\\"c\\"d", "\\"ab\\"c\\"", "d"},
		{quote, "\\"abc\\"d", "\\"abc\\"", "d"},
		{quote, "\\"ab\\"\\"c\\"d", "\\"ab\\"c\\"", "d"},
	} {
		root := tok("root", nil, line(tEl(quote, 1, 1), eEl("text", quote, one.escape), tEl(quote, 1, 1)))
		want(gram(root), one.data, one.match, one.left)
	}
}''')

s('a05-external-cache','A05','two grammars executed by one application on the same data, each with an external whose root has the same name',
 'the trees of externals are remembered by the name of their root and their data: another grammar gets the tree of the first',
 [(AST,'''	treeIns, err := app.grammar(grammar, isReverse, prevData, currentData)
''','''	treeIns, err := app.known(grammar, isReverse, prevData, currentData)
'''),
 (AST,'''func (app *application) external(''','''// known executes the grammar, or returns the tree it had for the same data
func (app *application) known(grammar grammars.Grammar, isReverse bool, prevData []byte, currentData []byte) (trees.Tree, error) {
	key := fmt.Sprintf("%s:%t:%s:%s", grammar.Root().Name(), isReverse, prevData, currentData)
	if tree, ok := app.externals.Load(key); ok {
		return tree.(trees.Tree), nil
	}

	tree, err := app.grammar(grammar, isReverse, prevData, currentData)
	if err == nil {
		app.externals.Store(key, tree)
	}

	return tree, err
}

func (app *application) external('''),
 (AST,'''	coverageResultBuilder     coverages.ResultBuilder
}

func''','''	coverageResultBuilder     coverages.ResultBuilder
	externals                 sync.Map
}

func'''),(AST,'	"fmt"\n\n','	"fmt"\n	"sync"\n\n')],'''
func main() {
	letters := gram(tok("word", nil, line(vEl('a', 1, -1))))
	both := gram(tok("word", nil, line(vEl('a', 1, -1), vEl('b', 0, 1))))
	app := applications.NewApplication()
	one := gram(tok("root", nil, line(xEl("word", letters, 1, 1), vEl('b', 0, 1), vEl('c', 0, 1))))
	two := gram(tok("root", nil, line(xEl("word", both, 1, 1), vEl('c', 1, 1))))
	for i := 0; i < 2; i++ {
		tree := ok(app.Execute(one, []byte("aabc")))
		if string(tree.Bytes(true)) != "aabc" {
			fail("the first grammar matched %q", tree.Bytes(true))
		}
		other, err := app.Execute(two, []byte("aabc"))
		if err != nil {
			fail("the second grammar: %s", err.Error())
		}
		if string(other.Bytes(true)) != "aabc" {
			fail("the second grammar matched %q", other.Bytes(true))
		}
	}
}''')

s('a06-occurences-width','A06','a compose of more than 255 occurences of a value',
 'the occurences are counted on one byte',
 [(AST,'''		occurences := int(oneElement.Occurences())
		for i := 0; i < occurences; i++ {
			output = append(output, number)''','''		occurences := uint8(oneElement.Occurences())
		for i := uint8(0); i < occurences; i++ {
			output = append(output, number)''')],'''
func repeated(c byte, n uint) grammars.Token {
	el := ok(grammars.NewComposeElementBuilder().Create().WithValue(val(c)).WithOccurences(n).Now())
	cp := ok(grammars.NewComposeBuilder().Create().WithName("many").WithList([]grammars.ComposeElement{el}).Now())
	ct := ok(grammars.NewContainerBuilder().Create().WithCompose(cp).Now())
	return tok("root", nil, ok(grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{ct}).Now()))
}

func main() {
	for _, n := range []uint{1, 2, 100, 255, 256, 300, 1000} {
		token := repeated('x', n)
		data := ok(applications.NewApplication().Compose(token))
		if uint(len(data)) != n {
			fail("%d occurences composed %d bytes", n, len(data))
		}
		want(gram(token), string(data)+"y", string(data), "y")
	}
}''')

s('a07-escape-channels','A07','a suite of an escape token, in a grammar with channels, whose bytes contain a channel',
 'the suites of an escape are judged without the channels of the grammar',
 [(AST,'						coverages, err := app.coveragesToken(escape, channels, pSkip)\n','						coverages, err := app.coveragesToken(escape, nil, pSkip)\n')],'''
func main() {
	space := tok("space", nil, line(vEl(' ', 1, 1)))
	quote := tok("quote", suites([]string{"q", " q"}, nil), line(vEl('q', 1, 1)))
	slash := tok("slash", suites([]string{"/", " /"}, []string{"q"}), line(vEl('/', 1, 1)))
	root := tok("root", suites([]string{"qaq"}, []string{"qa"}), line(tEl(quote, 1, 1), eEl("text", quote, slash), tEl(quote, 1, 1)))
	covs := ok(applications.NewApplication().Coverages(gram(root, channel(space, nil, nil))))
	amount := 0
	for _, cov := range covs.List() {
		for _, one := range cov.Executions().List() {
			amount++
			if one.Expectation().IsValid() != one.Result().IsTree() {
				fail("a suite of the token %s has another result", cov.Token().Name())
			}
		}
	}
	if amount != 7 {
		fail("%d suites were executed", amount)
	}
}''')

s('a08-valid-only','A08','an element that only a suite declared invalid goes through, as its tree leaves data',
 'the elements are covered by the suites declared valid only',
 [(AST,'			if !result.IsTree() {\n				continue\n			}\n\n			block','			if !result.IsTree() || !oneExecution.Expectation().IsValid() {\n				continue\n			}\n\n			block')],'''
func main() {
	root := tok("root", suites([]string{"b"}, []string{"ac"}), line(vEl('a', 1, 1)), line(vEl('b', 1, 1)))
	app := applications.NewApplication()
	covered := ok(app.Covered(ok(app.Coverages(gram(root)))))
	left := ok(app.Uncovered(gram(root)))
	if len(covered["root"]) != 2 {
		fail("covered: %v", covered)
	}
	if len(left["root"][0])+len(left["root"][1]) != 0 {
		fail("not covered: %v", left)
	}
}''')

s('a08-escape-elements','A08','an everything with an escape whose elements no suite covers',
 'the elements of an escape are not listed as uncovered when the token of the everything is in a channel or nested below another exception',
 [(AST,'''					if everything.HasEscape() {
						escape := everything.Escape()
						err := app.findElementsFromToken(escape, &elements)
''','''					if everything.HasEscape() && !exception.HasSuites() {
						escape := everything.Escape()
						err := app.findElementsFromToken(escape, &elements)
''')],'''
func main() {
	slash := tok("slash", nil, line(vEl('/', 1, 1)))
	for _, list := range []grammars.Suites{nil, suites([]string{"q"}, nil)} {
		quote := tok("quote", list, line(vEl('q', 1, 1)))
		root := tok("root", nil, line(tEl(quote, 1, 1), eEl("text", quote, slash), tEl(quote, 1, 1)))
		left := ok(applications.NewApplication().Uncovered(gram(root)))
		if left["slash"][0][0] != "/" {
			fail("the element of the escape is not listed: %v", left)
		}
	}
}''')

s('a09-first-content','A09','a name that is only in a later repetition of a nested element',
 'an element is fetched from the first tree among its contents only',
 [(TR+'element.go','''		tree, element, err := oneContent.Tree().Fetch(name, elementIndex)
		if err != nil {
			continue
		}
''','''		tree, element, err := oneContent.Tree().Fetch(name, elementIndex)
		if err != nil {
			break
		}
''')],'''
func main() {
	number := tok("number", nil, line(vEl('1', 1, -1)))
	word := tok("word", nil, line(vEl('a', 1, -1)))
	part := tok("part", nil, line(tEl(number, 1, 1)), line(tEl(word, 1, 1)))
	root := tok("root", nil, line(tEl(part, 1, -1), vEl('.', 1, 1)))
	for _, one := range []string{"1a.", "a1.", "11aa1.", "a."} {
		tree := ok(applications.NewApplication().Execute(gram(root), []byte(one)))
		_, el, err := tree.Fetch("word", 0)
		if err != nil {
			fail("%s: %s", one, err.Error())
		}
		if string(el.Bytes(true))[0] != 'a' {
			fail("%s: fetched %q", one, el.Bytes(true))
		}
	}
}''')

s('a10-data-alias','A10','an input with channels, kept by the caller after it was parsed',
 'the bytes of the prefix are put together in the memory of the input',
 [(AST,'	return app.grammar(grammar, false, []byte{}, values)\n','	return app.grammar(grammar, false, values[:0], values)\n'),
  (TR+'trees.go','''	output := []byte{}
	for _, oneTree := range obj.list {
		output = append(output, oneTree.Bytes(includeChannels)...)
	}
''','''	output := []byte{}
	for idx, oneTree := range obj.list {
		if idx == 0 && oneTree.HasRemaining() {
			output = oneTree.Remaining()[:0]
		}

		output = append(output, oneTree.Bytes(includeChannels)...)
	}
''')],'''
func main() {
	space := tok("space", nil, line(vEl(' ', 1, 1)))
	root := tok("root", nil, line(vEl('a', 1, -1), vEl('b', 1, 1)))
	g := gram(root, channel(space, nil, nil))
	input := []byte("a a  b   c")
	tree := ok(applications.NewApplication().Execute(g, input))
	for i := 0; i < 2; i++ {
		if string(tree.Bytes(true)) != "a a  b   " || string(tree.Remaining()) != "c" {
			fail("the bytes are %q, left %q", tree.Bytes(true), tree.Remaining())
		}
	}
	if string(input) != "a a  b   c" {
		fail("the input became %q", input)
	}
}''')

s('a10-shared-stack','A10','the same application executed by several callers at once, with a recursive grammar',
 'the stack of tokens is shared by the executions of an application',
 [(AST,'''	root := grammar.Root()
	channels := grammar.Channels()
	tree, _, err := app.token(root, map[string]*stack{}, nil, channels, isReverse, prevData, currentData)
''','''	root := grammar.Root()
	channels := grammar.Channels()
	stackMap, ok := app.stacks[root]
	if !ok {
		stackMap = map[string]*stack{}
		app.stacks[root] = stackMap
	}

	tree, _, err := app.token(root, stackMap, nil, channels, isReverse, prevData, currentData)
'''),(AST,'''	coverageResultBuilder     coverages.ResultBuilder
}

func''','''	coverageResultBuilder     coverages.ResultBuilder
	stacks                    map[grammars.Token]map[string]*stack
}

func'''),(AST,'		coverageResultBuilder:     coverageResultBuilder,\n	}\n','		coverageResultBuilder:     coverageResultBuilder,\n		stacks:                    map[grammars.Token]map[string]*stack{},\n	}\n')],'''
func main() {
	root := tok("root", nil, line(vEl('(', 1, 1), rEl("root", 1, 1), vEl(')', 1, 1)), line(vEl('x', 1, 1)))
	g := gram(root)
	app := applications.NewApplication()
	done := make(chan string, 8)
	for i := 0; i < 8; i++ {
		go func() {
			for k := 0; k < 2000; k++ {
				tree, err := app.Execute(g, []byte("((((x))))y"))
				if err != nil || string(tree.Bytes(true)) != "((((x))))" {
					done <- fmt.Sprintf("another result: %v", err)
					return
				}
			}
			done <- ""
		}()
	}
	for i := 0; i < 8; i++ {
		if s := <-done; s != "" {
			fail("%s", s)
		}
	}
}''')

s('a11-guard-line','A11','a left recursion through the second alternative of a token',
 'only the first alternative that is in progress is looked at for infinite loops',
 [(AST,'			if data, ok := currentStack[tokenName].lines[idx]; ok {','			if data, ok := currentStack[tokenName].lines[idx]; ok && len(currentStack[tokenName].lines) < 3 {')],'''
func main() {
	// the alternatives start with the token itself
	root := tok("root", nil, line(rEl("root", 1, 1), vEl('a', 1, 1)), line(rEl("root", 1, 1), vEl('b', 1, 1)), line(vEl('c', 1, 1)))
	want(gram(root), "c", "c", "")
	three := tok("root", nil, line(rEl("root", 1, 1), vEl('a', 1, 1)), line(rEl("root", 1, 1), vEl('b', 1, 1)), line(rEl("root", 1, 1), vEl('d', 1, 1)), line(vEl('c', 1, 1)))
	want(gram(three), "ca", "ca", "")
}''')
seed('a09-inner-first','A09','a recursive grammar, whose elements contain elements of the same name',
 'fetching a name gives the innermost element of that name rather than the first one',
 [('libs/asts/domain/trees/element.go','''	if obj.HasGrammar() {
		if obj.grammar.Name() == name {
			return nil, obj, nil
		}
	}

	list''','''	list'''),
  ('libs/asts/domain/trees/element.go','''	str := fmt.Sprintf("the''' if 0 else '''	str := fmt.Sprintf("there is no Tree or Element associated to the given name: %s", name)
''','''	if obj.HasGrammar() && obj.grammar.Name() == name {
		return nil, obj, nil
	}

	str := fmt.Sprintf("there is no Tree or Element associated to the given name: %s", name)
''')],'''
func main() {
	g := gram(tok("root", nil, line(vEl('(', 1, 1), rEl("root", 0, 1), vEl(')', 1, 1))))
	tree := ok(applications.NewApplication().Execute(gram(tok("all", nil, line(tEl(g.Root(), 1, 1)))), []byte("((()))")))
	_, element, err := tree.Fetch("root", 0)
	if err != nil || element == nil || string(element.Bytes(true)) != "((()))" {
		fail("the element is not the first one: %v", err)
	}
}''',helper=GRAM)
