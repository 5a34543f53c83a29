from lib import *
G='libs/asts/domain/grammars/'
seed('d09-lock-kept','D09','a commit that fails on the disk after its lock was taken (a folder has the name of its destination), then another commit to the same database',
 'the lock of a commit is released at the end of the commit only, so a commit that fails keeps the database locked',
 [(FS,'''	// release the lock on closing the method:
	defer context.pLock.Unlock()

''',''),
  (FS,'''	// delete the backup file:
	err = os.Remove(backupPath)
	if err != nil {
		return nil, nil, err
	}
''','''	// the source database is replaced, its lock is no longer needed:
	context.pLock.Unlock()

	// delete the backup file:
	err = os.Remove(backupPath)
	if err != nil {
		return nil, nil, err
	}
''')],'''
func main() {
	d := dir()
	app := open(d)
	ok(app.New("db"))
	c, err := app.Open("db")
	ok(err)
	ok(app.Write(*c, h("a"), []byte("first"), 0))
	ok(os.MkdirAll(filepath.Join(d, "db.dst", "full"), 0777))
	if app.Commit(*c) == nil {
		fmt.Println("the commit does not need its destination")
		return
	}
	ok(os.RemoveAll(filepath.Join(d, "db.dst")))
	other := open(d)
	c2, err := other.Open("db")
	ok(err)
	ok(other.Write(*c2, h("b"), []byte("second"), 0))
	if err := other.Commit(*c2); err != nil {
		fail("the database remains locked after a failed commit: %s", err.Error())
	}
}''',['os','path/filepath','fmt'])
seed('d09-destination-open','D09','a commit that fails while it writes its destination (the disk is full)',
 'the destination file is closed when the commit succeeds only, each commit that fails on a full disk leaves a file open',
 [(FS,'''	// close the destination:
	defer destination.Close()

''',''),
  (FS,'''	dataOffset := uint(writtenAmount)
	return &dataOffset, nil
''','''	// close the destination:
	err = destination.Close()
	if err != nil {
		return nil, err
	}

	dataOffset := uint(writtenAmount)
	return &dataOffset, nil
''')],'''
func handles() int {
	list, err := os.ReadDir("/proc/self/fd")
	ok(err)
	return len(list)
}

// the size of the files is limited, so that the commits fail as on a full disk
func main() {
	d := dir()
	app := open(d)
	ok(app.New("db"))
	c, err := app.Open("db")
	ok(err)
	signal.Ignore(syscall.SIGXFSZ)
	var limit syscall.Rlimit
	ok(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &limit))
	ok(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 8192, Max: limit.Max}))
	ok(app.Write(*c, h("a"), make([]byte, 100000), 0))
	before := 0
	for i := 0; i < 10; i++ {
		if app.Commit(*c) == nil {
			fmt.Println("the size of the files is not limited")
			return
		}
		if i == 0 {
			before = handles()
		}
	}
	if after := handles(); after > before {
		fail("%d files are open, %d after the first commit", after, before)
	}
}''',['os','os/signal','syscall','fmt'])
seed('b01-block-last','B01','a block of which several lines are successful',
 'the successful line of a block is the last one that is, instead of the first one',
 [('libs/asts/domain/trees/block_builder.go','''			successful = oneLine
			break
''','''			successful = oneLine
''')],'''
func main() {
	g := ok(applications.NewApplication().Execute(gram(tok("a", nil, line(vEl('a', 1, 1)))), []byte("ab")))
	first := g.Block().Successful()
	second := ok(trees.NewLineBuilder().Create().WithIndex(1).WithGrammar(first.Grammar()).WithElements(first.Elements()).Now())
	block := ok(trees.NewBlockBuilder().Create().WithLines([]trees.Line{first, second}).Now())
	if !block.HasSuccessful() || block.Successful().Index() != 0 {
		fail("the successful line is the one at %d", block.Successful().Index())
	}
}''',helper=GRAM)
seed('b01-list-append','B01','a list given twice to the same builder of a compose',
 'the list given to a compose is added to the one given before instead of replacing it',
 [(G+'compose_builder.go','	app.list = list\n','	app.list = append(app.list, list...)\n')],'''
func main() {
	list := compose("abc").List()
	ins := ok(grammars.NewComposeBuilder().Create().WithName("c").WithList(list[:2]).WithList(list[2:]).Now())
	if len(ins.List()) != 1 {
		fail("%d elements", len(ins.List()))
	}
}''',helper=GRAM)
seed('b02-create-reset','B02','two elements that are being built at the same time with the builder of the other one',
 'Create clears the builder and returns it instead of making a new one: the builders in use are the same one',
 [(G+'element_builder.go','''	return createElementBuilder()
}

// WithCardinality''','''	app.cardinality = nil
	app.value = nil
	app.external = nil
	app.instance = nil
	app.recursive = ""
	return app
}

// WithCardinality''')],'''
func main() {
	builder := grammars.NewElementBuilder()
	first := builder.Create().WithCardinality(card(1, 1)).WithValue(val('a'))
	second := builder.Create().WithCardinality(card(2, 2)).WithValue(val('b'))
	one, err := first.Now()
	if err != nil || !one.Content().IsValue() || one.Content().Value().Number() != 'a' {
		fail("the first element is not the one that was built")
	}
	ok(second.Now())
}''',helper=GRAM)
seed('b02-max-shared','B02','a builder of cardinalities used again after it built one that has a maximum',
 'the maximum of a cardinality is the one of its builder, giving another one to the builder changes the cardinalities it built',
 [(G+'cardinalities/builder.go','	pMax *uint\n}','	pMax *uint\n	max  uint\n}'),
  (G+'cardinalities/builder.go','	app.pMax = &max\n','	app.max = max\n	app.pMax = &app.max\n')],'''
func main() {
	builder := cardinalities.NewBuilder().Create().WithMin(1).WithMax(2)
	one := ok(builder.Now())
	ok(builder.WithMax(5).Now())
	if *one.Max() != 2 {
		fail("the maximum became %d", *one.Max())
	}
}''',helper=GRAM)
