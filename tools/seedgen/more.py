from lib import *
import re
src=open('/tmp/seedgen/codec.py').read()
BASE=re.search(r"BASE='''(.*?)'''",src,re.S).group(1).replace('\\n','\\n')
BASE=BASE.replace('\\\\n','\\n') if '\\\\n' in BASE else BASE
H=M+'libs/cryptography/domain/hash'; HTM=M+'libs/cryptography/domain/hashtrees'; RF=M+'libs/databases/domain/references'; CT=M+'libs/databases/domain/contents'
CF='libs/databases/domain/contents/'
CODEC=BASE

seed('d03-values-once','D03','the same hash written twice in one commit',
 'the blocks of the values of a commit contain a hash that was written twice only once, so the values are not those of the contents of the commit',
 [(FS,'''		blocks := [][]byte{}
		for _, oneContent := range pContext.contentList {
			// add the hash in the blocks for the commit values:
			blocks = append(blocks, oneContent.Hash().Bytes())
		}
''','''		blocks := [][]byte{}
		added := map[string]bool{}
		for _, oneContent := range pContext.contentList {
			// add the hash in the blocks for the commit values:
			if keyname := oneContent.Hash().String(); !added[keyname] {
				blocks = append(blocks, oneContent.Hash().Bytes())
				added[keyname] = true
			}
		}
''')],'''
func main() {
	app := open(dir())
	ok(app.New("db"))
	c, err := app.Open("db")
	ok(err)
	ok(app.Write(*c, h("a"), []byte("first"), 0))
	ok(app.Write(*c, h("b"), []byte("second"), 0))
	ok(app.Write(*c, h("a"), []byte("third"), 1))
	ok(app.Commit(*c))
	commits, err := app.Commits(*c)
	ok(err)
	expected, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{h("a").Bytes(), h("b").Bytes(), h("a").Bytes()}).Now()
	ok(err)
	if !commits.Latest().Values().Head().Compare(expected.Head()) {
		fail("the values of the commit are not the tree of its 3 contents")
	}
}''',imports=(HTM,))

seed('d09-lock-file','D09','a commit, then a look at the folder of the database',
 'the lock of a database is on a file beside it, which is never removed and is itself taken for a database',
 [(FS,'''	// create a Lock instance on the path:
	pLock := fslock.New(path)
''','''	// create a Lock instance beside the path, the database itself is replaced by the commits:
	pLock := fslock.New(fmt.Sprintf("%s%s%s", path, fileNameExtensionDelimiter, "lock"))
''')],'''
func main() {
	d := dir()
	app := open(d)
	ok(app.New("db"))
	c, err := app.Open("db")
	ok(err)
	ok(app.Write(*c, h("a"), []byte("data"), 0))
	ok(app.Commit(*c))
	ok(app.Close(*c))
	list, err := os.ReadDir(d)
	ok(err)
	for _, one := range list {
		if one.Name() != "db" {
			fail("%s is left behind", one.Name())
		}
	}
}''',imports=('os',))

seed('c01-proof-int64','C01','a proof over 63 bits',
 'the proof is encoded by its int64 value',
 [(REF+'commit_adapter.go','proofBytes := ins.Mine().Proof().Bytes()','proofBytes := big.NewInt(ins.Mine().Proof().Int64()).Bytes()')],'''
func main() {
	proof := big.NewInt(0).Lsh(big.NewInt(3), 70)
	commit := ok(references.NewCommitBuilder(0).Create().WithValues(tree("a", "b")).CreatedOn(time.Now().UTC()).WithProof(proof).Now())
	adapter := references.NewCommitAdapter(0)
	back := ok(adapter.ToCommit(ok(adapter.ToContent(commit))))
	if !back.HasMine() || back.Mine().Proof().Cmp(proof) != 0 || !back.Hash().Compare(commit.Hash()) {
		fail("the proof is not decoded as it was")
	}
}''',imports=('math/big','time',RF),helper=CODEC)

seed('c01-time-before','C01','a commit made before 1970',
 'the seconds and nanoseconds of a commit are taken from the unsigned value: a time before 1970 is another one once decoded',
 [(REF+'commit_adapter.go','createdOn := time.Unix(0, int64(createdOnUnixNano)).UTC()','createdOn := time.Unix(int64(createdOnUnixNano/1000000000), int64(createdOnUnixNano%1000000000)).UTC()')],'''
func main() {
	at := time.Date(1969, 7, 20, 20, 17, 40, 7, time.UTC)
	commit := ok(references.NewCommitBuilder(0).Create().WithValues(tree("a", "b")).CreatedOn(at).Now())
	adapter := references.NewCommitAdapter(0)
	back := ok(adapter.ToCommit(ok(adapter.ToContent(commit))))
	if !back.CreatedOn().Equal(at) || !back.Hash().Compare(commit.Hash()) {
		fail("the commit was made on %s, %s once decoded", at, back.CreatedOn())
	}
}''',imports=('time',RF),helper=CODEC)

seed('c02-trim-zeros','C02','a content whose data ends with zeros, and whose length is a multiple of 8',
 'the zeros at the end of the data of a content are taken for filling bytes, and are not encoded',
 [(CF+'content_adapter.go','''	output = append(output, ins.Data()...)
''','''	data := ins.Data()
	for len(data) > 1 && len(data)%8 == 0 && data[len(data)-1] == 0 {
		data = data[:len(data)-1]
	}

	output = append(output, data...)
''')],'''
func main() {
	data := []byte{1, 2, 3, 4, 5, 6, 7, 0}
	ins := ok(contents.NewContentBuilder().Create().WithHash(h("a")).WithData(data).WithKind(3).Now())
	adapter := contents.NewContentAdapter()
	back := ok(adapter.ToInstance(ok(adapter.ToContent(ins))))
	if string(back.Data()) != string(data) {
		fail("the data is %v once decoded", back.Data())
	}
}''',imports=(CT,),helper=CODEC)

seed('c05-score-runs','C05','a proof of which the mining values of the result are not at its beginning',
 'the score counts the longest run of mining values, wherever it is, and not the one at the beginning of the result',
 [(REF+'commit_builder.go','''		score := uint(0)
		resultBytes := pResult.Bytes()
		for _, oneByte := range resultBytes {
			if oneByte == app.miningValue {
				score++
				continue
			}

			break
		}
''','''		score, run := uint(0), uint(0)
		resultBytes := pResult.Bytes()
		for _, oneByte := range resultBytes {
			if oneByte != app.miningValue {
				run = 0
				continue
			}

			run++
			if run > score {
				score = run
			}
		}
''')],'''
func main() {
	for i := 0; i < 300; i++ {
		commit := ok(references.NewCommitBuilder(0).Create().WithValues(tree("a", "b")).CreatedOn(time.Unix(0, 5).UTC()).WithProof(big.NewInt(int64(i))).Now())
		score := uint(0)
		for _, one := range commit.Mine().Result().Bytes() {
			if one != 0 {
				break
			}
			score++
		}
		if commit.Mine().Score() != score {
			fail("proof %d: the score is %d, expected %d", i, commit.Mine().Score(), score)
		}
	}
}''',imports=('math/big','time',RF),helper=CODEC)

seed('c06-kind-width','C06','two kinds that are the same on 32 bits',
 'the kinds are compared on 32 bits when listing by kind',
 [(REF+'contentkeys.go','if oneContentKey.Kind() != kind {','if uint32(oneContentKey.Kind()) != uint32(kind) {')],'''
func main() {
	pointer := ok(references.NewPointerBuilder().Create().From(0).WithLength(3).Now())
	list := []references.ContentKey{}
	for i, kind := range []uint{7, 7 + 1<<32} {
		list = append(list, ok(references.NewContentKeyBuilder().Create().WithHash(h(fmt.Sprint(i))).WithKind(kind).WithContent(pointer).WithCommit(h("commit")).Now()))
	}
	keys := ok(references.NewContentKeysBuilder().Create().WithList(list).Now())
	if amount := len(keys.ListByKind(7)); amount != 1 {
		fail("%d contents are of kind 7", amount)
	}
}''',imports=('fmt',RF),helper=CODEC)

seed('a02-exact-end','A02','an optional element that the last byte of the data matches, after two elements',
 'an optional element is not tried on the last byte once two elements have matched',
 [(AST,'''		for {

			if len(remaining) <= 0 {
				break
			}
''','''		for {

			if len(remaining) <= 0 || (len(remaining) == 1 && len(list) > 1 && cardinality.Min() <= 0 && len(contentsList) > 0) {
				break
			}
''')],'''
func main() {
	g := gram(tok("root", nil, line(vEl('a', 1, 1), vEl('b', 1, 1), vEl('c', 0, -1))))
	want(g, "abcc", "abcc", "")
}''',helper=GRAM)

seed('a07-external-stop','A07','channels with suites, of which an earlier one brings coverages',
 'the suites of the channels after the first channel that has some are not executed',
 [(AST,'''			coverages, err := app.coveragesToken(token, nil, &skip)
			if err != nil {
				return nil, err
			}

			if coverages != nil {
				list = append(list, coverages.List()...)
			}
''','''			coverages, err := app.coveragesToken(token, nil, &skip)
			if err != nil {
				return nil, err
			}

			if coverages != nil && len(list) <= 0 {
				list = append(list, coverages.List()...)
			}
''')],'''
func main() {
	space := tok("space", suites([]string{" "}, nil), line(vEl(' ', 1, 1)))
	tab := tok("tab", suites([]string{"\\t"}, nil), line(vEl('\\t', 1, 1)))
	g := gram(tok("root", nil, line(vEl('a', 1, 1))), channel(space, nil, nil), channel(tab, nil, nil))
	report := ok(applications.NewApplication().Coverages(g))
	if len(report.List()) != 2 {
		fail("%d tokens are covered, expected 2", len(report.List()))
	}
}''',helper=GRAM)

seed('a07-compose-line','A07','a line with a compose before an element',
 'the elements after a compose are not looked for suites',
 [(AST,'''			if oneContainer.IsCompose() {
				continue
			}

			content := oneContainer''','''			if oneContainer.IsCompose() {
				break
			}

			content := oneContainer''')],'''
func main() {
	inner := tok("inner", suites([]string{"b"}, nil), line(vEl('b', 1, 1)))
	list := []grammars.Container{
		ok(grammars.NewContainerBuilder().Create().WithCompose(compose("a")).Now()),
		ok(grammars.NewContainerBuilder().Create().WithElement(tEl(inner, 1, 1)).Now()),
	}
	g := gram(tok("root", nil, ok(grammars.NewLineBuilder().Create().WithContainers(list).Now())))
	report := ok(applications.NewApplication().Coverages(g))
	if report == nil || len(report.List()) != 1 {
		fail("the suite after the compose was not executed")
	}
}''',helper=GRAM)

seed('a06-joined','A06','three composes in a line, of which the third begins with the byte that the second ends with',
 'a byte that is repeated from one compose to the next is composed once',
 [(AST,'''		output = append(output, data...)
	}

	return output, nil
}

func (app *application) composeCompose''','''		if idx > 1 && bytes.HasSuffix(output, data[:1]) {
			output = output[:len(output)-1]
		}

		output = append(output[:len(output):len(output)], data...)
	}

	return output, nil
}

func (app *application) composeCompose''')],'''
func main() {
	list := []grammars.Container{}
	for _, one := range []string{"a", "b", "b"} {
		list = append(list, ok(grammars.NewContainerBuilder().Create().WithCompose(compose(one)).Now()))
	}
	token := tok("root", nil, ok(grammars.NewLineBuilder().Create().WithContainers(list).Now()))
	data := ok(applications.NewApplication().Compose(token))
	if string(data) != "abb" {
		fail("composed %q", data)
	}
	want(gram(token), string(data), "abb", "")
}''',helper=GRAM)


seed('d05-shared-pool','D05','contents written in turns in two contexts of the same application, then committed',
 'the pending contents of all the contexts are kept in the same memory: those of a context replace those of another one',
 [(FS,"""		contentList: []contents.Content{},
	}

	app.contexts[pContext.identifier]""","""		contentList: app.pending[:0],
	}

	app.contexts[pContext.identifier]"""),(FS,"""	contexts                    map[uint]*context
	nextIdentifier              uint
""","""	contexts                    map[uint]*context
	pending                     []contents.Content
	nextIdentifier              uint
"""),(FS,"""		contexts:                    map[uint]*context{},
""","""		contexts:                    map[uint]*context{},
		pending:                     make([]contents.Content, 0, 32),
""")],"""
func main() {
	app := open(dir())
	ok(app.New("a"))
	ok(app.New("b"))
	a, err := app.Open("a")
	ok(err)
	b, err := app.Open("b")
	ok(err)
	ok(app.Write(*a, h("1"), []byte("data of a"), 0))
	ok(app.Write(*b, h("2"), []byte("data of b"), 0))
	ok(app.Commit(*a))
	ok(app.Commit(*b))
	data, err := app.ReadByHash(*a, h("1"))
	if err != nil || string(data) != "data of a" {
		fail("read %q (%v) in the first database", data, err)
	}
}""")

seed('d10-reference-last','D10','a power failure once a commit reported success, before the system wrote its last bytes',
 'the reference is written at the beginning of the new file after that file was flushed, and is not flushed itself before it replaces the database',
 [(FS,"""	// write the reference data on disk:
	writtenAmount, err := destination.Write(refData)
""","""	// keep the place of the reference, it is written last so that the file is not valid before it is complete:
	writtenAmount, err := destination.Write(make([]byte, len(refData)))
"""),(FS,"""	dataOffset := uint(writtenAmount)
	return &dataOffset, nil
""","""	// the data is complete, so write the reference:
	_, err = destination.WriteAt(refData, 0)
	if err != nil {
		return nil, err
	}

	dataOffset := uint(writtenAmount)
	return &dataOffset, nil
""")],"""
// runs the commit in a traced process, and verifies that nothing is renamed on the database while it is not flushed
func main() {
	if d := os.Getenv("DEMO_DB"); d != "" {
		app := open(d)
		ok(app.New("db"))
		c, err := app.Open("db")
		ok(err)
		for _, one := range []string{"first", "second"} {
			ok(app.Write(*c, h(one), []byte(one), 0))
			ok(app.Commit(*c))
		}
		return
	}
	d := dir()
	out := filepath.Join(os.Getenv("DEMO_DIR"), "trace")
	cmd := exec.Command("strace", "-f", "-y", "-o", out, "-e", "trace=write,pwrite64,fsync,fdatasync,rename,renameat,renameat2", os.Args[0])
	cmd.Env = append(os.Environ(), "DEMO_DB="+d)
	if text, err := cmd.CombinedOutput(); err != nil {
		fail("%s: %s", err.Error(), text)
	}
	file, err := os.Open(out)
	ok(err)
	write := regexp.MustCompile(`^\\d+ +(write|pwrite64)\\(\\d+<([^>]*)>`)
	flush := regexp.MustCompile(`^\\d+ +(fsync|fdatasync)\\(\\d+<([^>]*)>`)
	rename := regexp.MustCompile(`^\\d+ +rename[a-z0-9]*\\([^"]*"([^"]*)"`)
	dirty, renames := map[string]bool{}, 0
	for lines := bufio.NewScanner(file); lines.Scan(); {
		if m := write.FindStringSubmatch(lines.Text()); m != nil {
			dirty[m[2]] = true
		}
		if m := flush.FindStringSubmatch(lines.Text()); m != nil {
			dirty[m[2]] = false
		}
		if m := rename.FindStringSubmatch(lines.Text()); m != nil {
			renames++
			if dirty[m[1]] {
				fail("%s becomes the database while its last bytes are not flushed", m[1])
			}
		}
	}
	if renames <= 0 {
		fail("no file was renamed")
	}
}""",imports=('os','os/exec','path/filepath','regexp','bufio'))

seed('h03-trim-zeros','H03','a block that ends with a zero',
 'the zeros at the end of the blocks to order are ignored when finding their leaf',
 [(HT+'adapter.go',"""	for _, oneData := range mixed {
		hsh, err := app.hashAdapter.FromBytes(oneData)
""","""	for _, oneData := range mixed {
		hsh, err := app.hashAdapter.FromBytes(bytes.TrimRight(oneData, "\\x00"))
"""),(HT+'adapter.go',"""import (
""","""import (
	"bytes"
""")],"""
func main() {
	ins := tree("a", "b\\x00")
	if out := ok(hashtrees.NewAdapter().ToOrder(ins, [][]byte{[]byte("b\\x00"), []byte("a")})); len(out) != 2 || string(out[1]) != "b\\x00" {
		fail("ordered %q", out)
	}
}""",imports=(HTM,),helper=CODEC)

seed('a04-inherited-escape','A04','an everything without escape in the exception of one that has an escape',
 'an everything without escape uses the escape of the everything it is in',
 [(AST,"		return app.token(token, stackMap, escape, channels, isReverse, prevData, currentData)\n	}\n\n	everything := instance.Everything()\n	return app.everything(everything, stackMap, isReverse, prevData, currentData)","		return app.token(token, stackMap, escape, channels, isReverse, prevData, currentData)\n	}\n\n	everything := instance.Everything()\n	return app.everything(everything, stackMap, escape, isReverse, prevData, currentData)"),
 (AST,"everything(everything grammars.Everything, stackMap map[string]*stack, isReverse","everything(everything grammars.Everything, stackMap map[string]*stack, escape grammars.Token, isReverse"),
 (AST,"	escape := everything.Escape()\n	return app.token","	if everything.HasEscape() {\n		escape = everything.Escape()\n	}\n\n	return app.token")],"""
func main() {
	closing := tok("closing", nil, line(vEl('>', 1, 1)))
	exception := tok("exception", nil, line(vEl('<', 1, 1), eEl("inner", closing, nil), vEl('>', 1, 1)))
	escape := tok("escape", nil, line(vEl('!', 1, 1)))
	g := gram(tok("root", nil, line(eEl("outer", exception, escape))))
	want(g, "xx<a!>", "xx", "<a!>")
}""",helper=GRAM)

seed('a05-shared-stack','A05','an external whose recursive token has the name of a token that is in progress around it',
 'an external shares the stack of the grammar that uses it: its recursive elements are those of the other grammar',
 [(AST,"	return app.grammar(grammar, false, []byte{}, values)","	return app.grammar(grammar, map[string]*stack{}, false, []byte{}, values)"),
 (AST,"grammar(grammar grammars.Grammar, isReverse bool,","grammar(grammar grammars.Grammar, stackMap map[string]*stack, isReverse bool,"),
 (AST,"	tree, _, err := app.token(root, map[string]*stack{}, nil, channels, isReverse, prevData, currentData)","	tree, _, err := app.token(root, stackMap, nil, channels, isReverse, prevData, currentData)"),
 (AST,"external(external grammars.External, isReverse bool,","external(external grammars.External, stackMap map[string]*stack, isReverse bool,"),
 (AST,"	treeIns, err := app.grammar(grammar, isReverse,","	treeIns, err := app.grammar(grammar, stackMap, isReverse,"),
 (AST,"app.external(external, isReverse, prevData, currentData)","app.external(external, stackMap, isReverse, prevData, currentData)")],"""
func main() {
	inner := gram(tok("root", nil, line(vEl('(', 1, 1), rEl("root", 0, 1), vEl(')', 1, 1))))
	g := gram(tok("root", nil, line(vEl('a', 1, 1), xEl("inner", inner, 1, 1))))
	want(g, "a(())", "a(())", "")
}""",helper=GRAM)

seed('d04-leftover-tail','D04','a crash in the middle of a long commit, then a shorter commit, then another one',
 'the destination file that a crash left behind is written over without being emptied: what is left of it stays at the end of the database and shifts the contents of the next commit',
 [(FS,"os.Create(destinationPath)","os.OpenFile(destinationPath, os.O_RDWR|os.O_CREATE, 0666)")],"""
func main() {
	d := dir()
	app := open(d)
	ok(app.New("x"))
	// what a commit that crashed left
	ok(os.WriteFile(filepath.Join(d, "x.dst"), make([]byte, 100000), 0666))
	ctx, err := app.Open("x")
	ok(err)
	for _, one := range []string{"first", "second", "third"} {
		ok(app.Write(*ctx, h(one), []byte("content of "+one), 0))
		ok(app.Commit(*ctx))
	}
	for _, one := range []string{"first", "second", "third"} {
		data, err := app.ReadByHash(*ctx, h(one))
		ok(err)
		if string(data) != "content of "+one {
			fail("%s is read as %q", one, data)
		}
	}
}""",imports=('os','path/filepath'))
