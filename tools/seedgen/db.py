from lib import *
seed('d01-shared-cache','D01','the caller modifies the bytes that a read by hash returned, then reads them again',
 'ReadByHash keeps what it read in the context and returns the same slice each time, so that a caller that changes its copy changes what is read later',
 [(FC,'	contentList []contents.Content\n','	contentList []contents.Content\n	readCache   map[string][]byte\n'),
  (FS,'	return app.Read(context, contentKey.Content())\n','''	// the data of a pointer never changes, so read it only once:
	pContext := app.contexts[context]
	pointer := contentKey.Content()
	keyname := fmt.Sprintf("%d-%d", pointer.From(), pointer.Length())
	if data, ok := pContext.readCache[keyname]; ok {
		return data, nil
	}

	data, err := app.Read(context, pointer)
	if err != nil {
		return nil, err
	}

	if pContext.readCache == nil {
		pContext.readCache = map[string][]byte{}
	}

	pContext.readCache[keyname] = data
	return data, nil
''')],'''
func main() {
	app := open(dir())
	ok(app.New("db"))
	c, err := app.Open("db")
	ok(err)
	ok(app.Write(*c, h("a"), []byte("some data"), 0))
	ok(app.Commit(*c))
	first, err := app.ReadByHash(*c, h("a"))
	ok(err)
	first[0] = 'X'
	second, err := app.ReadByHash(*c, h("a"))
	ok(err)
	if string(second) != "some data" {
		fail("read %q", second)
	}
}''')
seed('d02-write-dedup','D02','the same hash written twice in the same commit, under two kinds or with other data',
 'a content is not written when its hash is already pending, although its kind is another one: it is missing from the kind it was written to',
 [(FS,'''		pContext.contentList = append(pContext.contentList, contentIns)
''','''		pContext.contentList = app.addContent(pContext.contentList, contentIns)
'''),(FS,'''// Cancel cancels a context
''','''func (app *application) addContent(list []contents.Content, ins contents.Content) []contents.Content {
	// the same content does not need to be written twice:
	for _, oneContent := range list {
		if oneContent.Hash().Compare(ins.Hash()) {
			return list
		}
	}

	return append(list, ins)
}

// Cancel cancels a context
''')],'''
func main() {
	app := open(dir())
	ok(app.New("db"))
	c, err := app.Open("db")
	ok(err)
	ok(app.Write(*c, h("a"), []byte("some data"), 0))
	ok(app.Write(*c, h("a"), []byte("some data"), 1))
	ok(app.Commit(*c))
	keys, err := app.ContentKeysByKind(*c, 1)
	ok(err)
	if len(keys.List()) != 1 {
		fail("%d keys", len(keys.List()))
	}
}''')
seed('d03-parent-leak','D03','one application that commits to a database that has commits, then makes the first commit of another one',
 'the commit builder is used without being reset: the first commit of a database names the parent of the last commit made to another one',
 [(FS,'		builder := app.referenceCommitBuilder.Create()\n','		builder := app.referenceCommitBuilder\n')],'''
func main() {
	app := open(dir())
	ok(app.New("one"))
	ok(app.New("two"))
	one, err := app.Open("one")
	ok(err)
	two, err := app.Open("two")
	ok(err)
	for _, s := range []string{"a", "b"} {
		ok(app.Write(*one, h(s), []byte(s), 0))
		ok(app.Commit(*one))
	}
	ok(app.Write(*two, h("c"), []byte("c"), 0))
	ok(app.Commit(*two))
	commits, err := app.Commits(*two)
	ok(err)
	if commits.List()[0].HasParent() {
		fail("the first commit has a parent")
	}
}''')
seed('d04-reference-early','D04','a commit that fails on the disk (a folder has the name of its destination file), then a read on the same context',
 'the context takes the updated reference before the database is written: after a failed commit it shows contents that are not in the database',
 [(FS,'''		// update database on disk:
		pConn, pDataOffset, err := app.updateDatabaseOnFile(pContext, updatedReference)
		if err != nil {
			return err
		}

		// update the file connection and reference:
		app.contexts[context].reference = updatedReference
''','''		// update the reference:
		pendingContext := *pContext
		app.contexts[context].reference = updatedReference

		// update database on disk:
		pConn, pDataOffset, err := app.updateDatabaseOnFile(&pendingContext, updatedReference)
		if err != nil {
			return err
		}

		// update the file connection:
''')],'''
func main() {
	d := dir()
	app := open(d)
	ok(app.New("db"))
	c, err := app.Open("db")
	ok(err)
	ok(app.Write(*c, h("a"), []byte("first"), 0))
	ok(app.Commit(*c))
	ok(os.Mkdir(filepath.Join(d, "db.dst"), 0777))
	ok(app.Write(*c, h("b"), []byte("second"), 1))
	if app.Commit(*c) == nil {
		fail("the commit succeeded")
	}
	if _, err := app.ContentKeysByKind(*c, 1); err == nil {
		fail("the content of the failed commit is visible")
	}
	ok(os.Remove(filepath.Join(d, "db.dst")))
	ok(app.Commit(*c))
	keys, err := app.ContentKeysByKind(*c, 1)
	ok(err)
	if len(keys.List()) != 1 {
		fail("%d keys", len(keys.List()))
	}
}''',['os','path/filepath'])
seed('d04-backup-rename','D04','a failure while the database is replaced, after its backup is made and before the destination takes its name',
 'the source database is moved to its backup once that one is complete, so a failure in between leaves no database',
 [(FS,'''	// close the backup file:
	err = backupPtr.Close()
	if err != nil {
		return nil, nil, err
	}
''','''	// close the backup file:
	if err := backupPtr.Close(); err != nil {
		return nil, nil, err
	}

	// the backup replaces the source database until the destination does:
	err = os.Rename(sourcePath, backupPath)
	if err != nil {
		return nil, nil, err
	}
''')],'''
// somebody holds the lock of the destination while a commit is made: it fails, and leaves the database as it was
func main() {
	d := dir()
	app := open(d)
	ok(app.New("db"))
	c, err := app.Open("db")
	ok(err)
	ok(app.Write(*c, h("a"), []byte("first"), 0))
	ok(app.Commit(*c))
	f, err := os.Create(filepath.Join(d, "db.dst"))
	ok(err)
	ok(syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB))
	ok(app.Write(*c, h("b"), []byte("second"), 0))
	if app.Commit(*c) == nil {
		fmt.Println("the commit does not need the lock")
	}
	f.Close()
	c2, err := open(d).Open("db")
	if err != nil {
		fail("the database cannot be opened after a failed commit: %s", err.Error())
	}
	_ = c2
	data, err := os.ReadFile(filepath.Join(d, "db"))
	if err != nil || len(data) == 0 {
		fail("the database is gone: %v", err)
	}
}''',['fmt','os','path/filepath','syscall'])
seed('d05-close-by-name','D05','two databases of which the name of one ends with the name of the other are open, and one of them is closed',
 'closing a context also forgets the contexts on databases whose name has the same ending',
 [(FS,'''		delete(app.contexts, context)
''','''		for identifier, oneContext := range app.contexts {
			if filepath.Base(oneContext.name) == filepath.Base(pContext.name) {
				delete(app.contexts, identifier)
			}
		}

''')],'''
func main() {
	d := dir()
	app := open(d)
	ok(app.New("db"))
	ok(os.Mkdir(filepath.Join(d, "sub"), 0777))
	ok(app.New("sub/db"))
	one, err := app.Open("db")
	ok(err)
	two, err := app.Open("sub/db")
	ok(err)
	ok(app.Close(*one))
	ok(app.Write(*two, h("a"), []byte("a"), 0))
	ok(app.Commit(*two))
}''',['os','path/filepath'])
seed('d06-short-reference','D06','a database file that is cut inside the length of its index, opened',
 'a database whose header is cut is opened as an empty database rather than refused',
 [(FS,'''	if refAmount != expectedReferenceBytesLength {
		str := fmt.Sprintf("%d bytes were expected to be read when reading the reference length bytes, %d actually read", expectedReferenceBytesLength, refAmount)
		return nil, 0, errors.New(str)
	}
''','''	// the header was never completed, so the database contains nothing yet:
	if refAmount < expectedReferenceBytesLength {
		return nil, 0, nil
	}
''')],'''
func main() {
	d := dir()
	app := open(d)
	ok(app.New("db"))
	c, err := app.Open("db")
	ok(err)
	ok(app.Write(*c, h("a"), []byte("first"), 0))
	ok(app.Commit(*c))
	ok(app.Close(*c))
	ok(os.Truncate(filepath.Join(d, "db"), 5))
	if _, err := app.Open("db"); err == nil {
		fail("the damaged database was opened")
	}
}''',['os','path/filepath'])
seed('d07-delete-leftovers','D07','another database whose name begins with the name of the deleted one and a dot',
 'deleting a database also removes all files with its name and an extension, other databases included',
 [(FS,'	return os.Remove(path)\n}','''	// remove what its commits might have left as well:
	leftovers, err := filepath.Glob(fmt.Sprintf("%s%s*", path, fileNameExtensionDelimiter))
	if err != nil {
		return err
	}

	for _, onePath := range leftovers {
		err := os.Remove(onePath)
		if err != nil {
			return err
		}
	}

	err = os.Remove(path)
	return err
}''')],'''
func main() {
	app := open(dir())
	ok(app.New("db"))
	ok(app.New("db.old"))
	ok(app.Delete("db"))
	exists, err := app.Exists("db.old")
	ok(err)
	if !exists {
		fail("db.old was deleted")
	}
}''')
seed('d08-unlock-early','D08','two applications that commit to the same database at the same time, one while the other one copies the database',
 'the lock of the database is released as soon as it was taken, so two commits write the same destination file and replace each other',
 [(FS,'	// release the lock on closing the method:\n	defer context.pLock.Unlock()\n','	// release the lock, nobody else holds it:\n	context.pLock.Unlock()\n')],'''
func main() {
	for round := 0; round < 30; round++ {
		d := dir()
		base := open(d)
		ok(base.New("db"))
		done := make(chan string)
		data := make([]byte, 8<<20)
		apps := []applications.Application{open(d), open(d)}
		ctxs := []*uint{}
		for _, app := range apps {
			c, err := app.Open("db")
			ok(err)
			ctxs = append(ctxs, c)
			ok(app.Write(*c, h(fmt.Sprintf("k%d", len(ctxs))), data, 0))
		}
		for i := range apps {
			go func(i int) {
				if apps[i].Commit(*ctxs[i]) == nil {
					done <- fmt.Sprintf("k%d", i+1)
					return
				}
				done <- ""
			}(i)
		}
		succeeded := []string{<-done, <-done}
		c, err := base.Open("db")
		for _, one := range succeeded {
			if one == "" {
				continue
			}
			ok(err)
			if _, err := base.ReadByHash(*c, h(one)); err != nil {
				fail("the commit of %s succeeded but its content is missing: %s", one, err.Error())
			}
		}
		ok(os.RemoveAll(d))
	}
}''',['fmt','os',M+'libs/databases/applications'])
seed('d01-read-span','D01','several pointers read together of which those in the middle are not in the order of the data',
 'pointers that seem to follow one another are read at once, without verifying the ones in the middle',
 [(FS,'''	output := [][]byte{}
	for _, onePointer := range pointers {
		content, err''','''	output := make([][]byte, 0, len(pointers))
	if amount := len(pointers); amount > 1 {
		// read the pointers at once when they follow one another:
		length := uint(0)
		for _, onePointer := range pointers {
			length += onePointer.Length()
		}

		last := pointers[amount-1]
		from := pointers[0].From()
		if from+length == last.From()+last.Length() {
			pointer, err := app.referencePointerBuilder.Create().From(from).WithLength(length).Now()
			if err != nil {
				return nil, err
			}

			content, err := app.Read(context, pointer)
			if err != nil {
				return nil, err
			}

			for _, onePointer := range pointers {
				output = append(output, content[:onePointer.Length():onePointer.Length()])
				content = content[onePointer.Length():]
			}

			return output, nil
		}
	}

	for _, onePointer := range pointers {
		content, err''')],'''
func main() {
	app := open(dir())
	ok(app.New("db"))
	c, err := app.Open("db")
	ok(err)
	for _, one := range []string{"first", "second", "third", "fourth"} {
		ok(app.Write(*c, h(one), []byte(one), 0))
	}
	ok(app.Commit(*c))
	keys, err := app.ContentKeysByKind(*c, 0)
	ok(err)
	list := keys.List()
	data, err := app.ReadAll(*c, []references.Pointer{list[0].Content(), list[2].Content(), list[1].Content(), list[3].Content()})
	ok(err)
	if got := string(bytes.Join(data, []byte(" "))); got != "first third second fourth" {
		fail("read %q", got)
	}
}''',['bytes',M+'libs/databases/domain/references'])

seed('d02-bulk-missing','D02','several hashes read at once, of which one was never committed',
 'the hashes that are not in the database are left out of what is read in bulk, without an error',
 [(FS,'''		content, err := app.ReadByHash(context, oneHash)
		if err != nil {
			return nil, err
		}
''','''		contentKey, err := app.retrieveActiveContentKeyByHash(context, oneHash)
		if err != nil && len(hashes) > 1 {
			continue
		}

		if err != nil {
			return nil, err
		}

		content, err := app.Read(context, contentKey.Content())
		if err != nil {
			return nil, err
		}
''')],'''
func main() {
	app := open(dir())
	ok(app.New("db"))
	ctx, err := app.Open("db")
	ok(err)
	ok(app.Write(*ctx, h("a"), []byte("a"), 0))
	ok(app.Write(*ctx, h("b"), []byte("b"), 0))
	ok(app.Commit(*ctx))
	ok(app.Write(*ctx, h("c"), []byte("c"), 0))
	list, err := app.ReadAllByHashes(*ctx, []hash.Hash{h("b"), h("a")})
	ok(err)
	if len(list) != 2 || string(list[0]) != "b" || string(list[1]) != "a" {
		fail("read %q", list)
	}
	if list, err := app.ReadAllByHashes(*ctx, []hash.Hash{h("a"), h("c"), h("b")}); err == nil {
		fail("a hash that was not committed is read: %q", list)
	}
}''',['"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"'])
