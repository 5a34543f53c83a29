from lib import *
QH=GRAM.replace('	"'+M+'libs/asts/domain/trees"\n)','	"'+M+'libs/asts/domain/trees"\n	queries_app "'+M+'libs/queries/applications"\n	"'+M+'libs/queries/domain/queries"\n)')+'''
// q queries the contents (one of them, or all when content is negative) of an element
func q(token string, element string, index uint, content int, inside queries.Inside) queries.Query {
	b := queries.NewTokenBuilder().Create().WithName(token).WithReverseName("everything").
		WithElement(ok(queries.NewElementBuilder().Create().WithName(element).WithIndex(index).Now()))
	if content >= 0 {
		b.WithContent(uint(content))
	}
	fn := ok(queries.NewQueryFnBuilder().Create().WithMulti(func(list []interface{}) (interface{}, bool, error) {
		out := ""
		for _, one := range list {
			out += fmt.Sprintf("<%s>", one)
		}
		return out, true, nil
	}).Now())
	return ok(queries.NewBuilder().Create().WithToken(ok(b.Now())).WithInside(inside).WithFn(fn).Now())
}

// text gives the bytes of the contents
func text() queries.Inside {
	fn := ok(queries.NewContentFnBuilder().Create().WithMulti(func(list []trees.Content) ([]interface{}, error) {
		out := []interface{}{}
		for _, one := range list {
			out = append(out, string(one.Bytes(false)))
		}
		return out, nil
	}).Now())
	return ok(queries.NewInsideBuilder().Create().WithFn(fn).Now())
}

func nested(list ...queries.Query) queries.Inside { return nestedAnd("", list...) }

// nestedAnd fetches queries, and a recursive one
func nestedAnd(recursive string, list ...queries.Query) queries.Inside {
	fetchers := []queries.Fetcher{}
	for _, one := range list {
		fetchers = append(fetchers, ok(queries.NewFetcherBuilder().Create().WithQuery(one).Now()))
	}
	if recursive != "" {
		fetchers = append(fetchers, ok(queries.NewFetcherBuilder().Create().WithRecursive(recursive).Now()))
	}
	return ok(queries.NewInsideBuilder().Create().WithFetchers(ok(queries.NewFetchersBuilder().Create().WithList(fetchers).Now())).Now())
}

// ask executes the query
func ask(g grammars.Grammar, data string, query queries.Query) string {
	tree := ok(applications.NewApplication().Execute(g, []byte(data)))
	v, isValid, rem, err := queries_app.NewApplication().Execute(query, tree)
	if err != nil {
		return "error"
	}
	return fmt.Sprintf("%v %t %s", v, isValid, rem)
}

func expect(g grammars.Grammar, data string, query queries.Query, expected string) {
	if got := ask(g, data, query); got != expected {
		fail("%q: the query returned %q, expected %q", data, got, expected)
	}
}
'''
QH2=QH+'''
// recursiveAnd fetches a recursive query, then another one
func recursiveAnd(recursive string, query queries.Query) queries.Inside {
	list := []queries.Fetcher{
		ok(queries.NewFetcherBuilder().Create().WithRecursive(recursive).Now()),
		ok(queries.NewFetcherBuilder().Create().WithQuery(query).Now()),
	}
	return ok(queries.NewInsideBuilder().Create().WithFetchers(ok(queries.NewFetchersBuilder().Create().WithList(list).Now())).Now())
}
'''
def s2(id,prop,needs,breaks,edits,main,imports=()):
    seed(id,prop,needs,breaks,edits,main,imports,helper=QH2)
def s(id,prop,needs,breaks,edits,main,imports=()):
    seed(id,prop,needs,breaks,edits,main,imports,helper=QH)
s('q01-sibling-break','Q01','a query with several nested queries, of which one selects nothing in a content',
 'the nested queries that follow one that selects nothing are not executed',
 [(QRY,'''				query := oneFetcher.Query()
				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return nil, err
				}

				if !isValid {
					continue
				}
''','''				query := oneFetcher.Query()
				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return nil, err
				}

				if !isValid {
					break
				}
''')],'''
func main() {
	pair := tok("pair", nil, line(vEl('a', 0, -1), vEl('b', 1, -1)))
	g := gram(tok("root", nil, line(tEl(pair, 1, -1), vEl('.', 1, 1))))
	query := q("root", "pair", 0, -1, nested(q("pair", "a", 0, -1, text()), q("pair", "b", 0, -1, text())))
	expect(g, "abaab.x", query, "<<a>><<b>><<a><a>><<b>> true x")
	expect(g, "bab.", query, "<<b>><<a>><<b>> true ")
}''')
s('q01-position-amount','Q01','an element that appears several times in a line, with several contents, queried by its position',
 'the positions of elements count their contents',
 [(QRY,'''		cpt++
	}

	return []trees.Content{}, nil''','''		cpt += oneElement.Amount()
	}

	return []trees.Content{}, nil''')],'''
func main() {
	g := gram(tok("root", nil, line(vEl('a', 1, -1), vEl('b', 1, 1), vEl('a', 1, -1), vEl('c', 1, 1), vEl('a', 1, -1))))
	for i, expected := range []string{"<a> true ", "<a><a> true ", "<a><a><a> true "} {
		expect(g, "abaacaaa", q("root", "a", uint(i), -1, text()), expected)
	}
}''')
s('q01-partial-row','Q01','a query with several nested queries over several contents, some of which select only a part',
 'the results of a content are dropped when one of its nested queries selects nothing and the content is not the first',
 [(QRY,'''				if !isValid {
					continue
				}

				row = append(row, ins)
				continue
			}

			recursive :=''','''				if !isValid && len(output) <= 0 {
					continue
				} else if !isValid {
					row = nil
					break
				}

				row = append(row, ins)
				continue
			}

			recursive :=''')],'''
func main() {
	pair := tok("pair", nil, line(vEl('a', 0, 1), vEl('b', 1, 1)))
	g := gram(tok("root", nil, line(tEl(pair, 1, -1))))
	query := q("root", "pair", 0, -1, nested(q("pair", "a", 0, -1, text()), q("pair", "b", 0, -1, text())))
	expect(g, "bab", query, "<<b>><<a>><<b>> true ")
	expect(g, "abb", query, "<<a>><<b>><<b>> true ")
}''')
s('q02-content-bound','Q02','a content index that is exactly the amount of contents',
 'the content right after the last one is looked up, which crashes',
 [(QRY,'	if listLength <= *pIndex {','	if listLength < *pIndex {')],'''
func main() {
	g := gram(tok("root", nil, line(vEl('a', 1, -1))))
	for i, expected := range []string{"<a> true ", "<a> true ", "error", "error"} {
		expect(g, "aa", q("root", "a", 0, i, text()), expected)
	}
}''')
s('q02-recursive-unknown','Q02','a nested query followed by a recursive one whose token was not queried before',
 'a recursive query that refers to nothing is skipped when a result was found before it',
 [(QRY,'			if query, ok := previous[recursive]; ok {','			query, ok := previous[recursive]\n			if !ok && len(row) > 0 {\n				continue\n			}\n\n			if ok {')],'''
func main() {
	pair := tok("pair", nil, line(vEl('a', 0, 1), vEl('b', 1, 1)))
	g := gram(tok("root", nil, line(tEl(pair, 1, -1))))
	expect(g, "ab", q("root", "pair", 0, -1, nestedAnd("nothing", q("pair", "c", 0, -1, text()))), "error")
	expect(g, "ab", q("root", "pair", 0, -1, nestedAnd("nothing", q("pair", "a", 0, -1, text()))), "error")
}''')
s('q02-nested-error','Q02','a nested query that fails in one of several contents',
 'a nested query that fails is left out of the result instead of failing the query',
 [(QRY,'''				query := oneFetcher.Query()
				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return nil, err
				}
''','''				query := oneFetcher.Query()
				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil && len(contentList) <= 1 {
					return nil, err
				}
''')],'''
func main() {
	item := tok("item", nil, line(vEl('a', 1, 1), vEl('b', 1, 2)))
	g := gram(tok("root", nil, line(tEl(item, 1, -1))))
	second := q("item", "b", 0, 1, text())
	expect(g, "abbabb", q("root", "item", 0, -1, nested(second)), "<<b>><<b>> true ")
	expect(g, "abbab", q("root", "item", 0, -1, nested(second)), "error")
}''')
s2('q01-recursive-outer','Q01','a query nested in another one of the same token name, which then recurses',
 'a recursive query of a name that several queries have executes the outermost of them',
 [(QRY,'''	previous[query.Token().Name()] = query
''','''	name := query.Token().Name()
	if _, ok := previous[name]; !ok {
		previous[name] = query
	}

''')],'''
func main() {
	g := gram(tok("root", nil, line(vEl('(', 1, 1), rEl("root", 0, 1), vEl('a', 0, -1), vEl('b', 0, -1), vEl(')', 1, 1))))
	bs := q("root", "b", 0, -1, text())
	inner := q("root", "root", 0, -1, recursiveAnd("root", bs))
	outer := q("root", "root", 0, -1, nested(inner))
	expect(g, "((((ab)b)abb)b)", outer, "<<<<b>>><<b>>> true ")
	expect(g, "(((ab)b)abb)", outer, "<<<b>>> true ")
}''')
