package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"

	"pgregory.net/rapid"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"

	"verif/faultos"
)

// everyCallFails makes every call there is on a context that is not open.
func everyCallFails(app applications.Application, ctx uint) error {
	p, err := references.NewPointerBuilder().Create().From(0).WithLength(1).Now()
	if err != nil {
		return fmt.Errorf("building a pointer: %v", err)
	}
	calls := []struct {
		name string
		fn   func() error
	}{
		{"ContentKeysByKind", func() error { _, err := app.ContentKeysByKind(ctx, 0); return err }},
		{"CommitByHash", func() error { _, err := app.CommitByHash(ctx, labelHash(0)); return err }},
		{"Commits", func() error { _, err := app.Commits(ctx); return err }},
		{"Read", func() error { _, err := app.Read(ctx, p); return err }},
		{"ReadByHash", func() error { _, err := app.ReadByHash(ctx, labelHash(0)); return err }},
		{"ReadAll", func() error { _, err := app.ReadAll(ctx, []references.Pointer{p}); return err }},
		{"ReadAllByHashes", func() error { _, err := app.ReadAllByHashes(ctx, []hash.Hash{labelHash(0)}); return err }},
		{"Write", func() error { return app.Write(ctx, labelHash(0), []byte{1}, 0) }},
		{"Cancel", func() error { return app.Cancel(ctx) }},
		{"Commit", func() error { return app.Commit(ctx) }},
		{"Close", func() error { return app.Close(ctx) }},
	}
	for _, c := range calls {
		if c.fn() == nil {
			return fmt.Errorf("%s succeeded on context %d, which is not open", c.name, ctx)
		}
	}
	return nil
}

type badFileCase struct {
	Base faultCase  `json:"base"`
	How  string     `json:"how"` // raw, mutate, header, datatrunc, dataflip, append
	Raw  B          `json:"raw,omitempty"`
	Muts []mutation `json:"muts,omitempty"`
	At   int        `json:"at"`
	Len  uint64     `json:"len"`
}

type lifeOp struct {
	Op   string  `json:"op"`
	Name int     `json:"name"`
	App  int     `json:"app"`
	At   int     `json:"at,omitempty"`
	W    []wSpec `json:"w,omitempty"`
}

type lifeCase struct {
	Cfg dbCfg    `json:"cfg"`
	Ops []lifeOp `json:"ops"`
}

// the last name is the one of a folder
var lifeNames = [][]string{
	{"first", "with space.db", "folder"},
	{"data", "data.old", "data.d"},
	{"data.old", "data", "folder"},
	{"[ab]*", "a", "*"},
	{"é\\n%s", "é", "-rf"},
}

func (c lifeCase) name(i int) string {
	if c.Cfg.Names < 0 || c.Cfg.Names >= len(lifeNames) {
		return lifeNames[0][i]
	}
	return lifeNames[c.Cfg.Names][i]
}

// drawCrowd draws a history of so many databases, all open at the same time in one application.
func drawCrowd(t *rapid.T) dbCase {
	c := dbCase{Cfg: drawDBCfg(t), DBs: oneOf(t, "databases", 9, 17, 33, 65, 70, 129, 257), Huge: "databases"}
	c.Cfg.Chunk = max(c.Cfg.Chunk, 200)
	c.Other = c.Cfg.Chunk
	for i := 0; i < c.DBs; i++ {
		c.Ops = append(c.Ops, dbOp{Op: "open", DB: i})
	}
	for i := intIn(t, "operations", 10, 30); i > 0; i-- {
		db := uniform(t, "db", c.DBs)
		switch uniform(t, "op", 3) {
		case 0:
			c.Ops = append(c.Ops, dbOp{Op: "close", DB: db}, dbOp{Op: "open", DB: (db + uniform(t, "other", 2)) % c.DBs})
		default:
			c.Ops = append(c.Ops, dbOp{Op: "write", DB: db, H: i % hashUniverse, Len: i, Seed: i}, dbOp{Op: "commit", DB: db})
		}
	}
	return c
}

func init() {
	register(Prop{
		ID:       "D05",
		Rule:     "random histories on three databases whose contexts are open at the same time in one application; after every operation each open context shows exactly its own database's committed state, identifiers of open contexts differ, and every call on an identifier that is closed or was never given fails; once in 300, up to 257 databases are open at the same time. Non-trivial: two or more contexts were open at once and one of them was closed or committed.",
		Quick:    60000,
		Thorough: 1800000,
	}, func(t *rapid.T) dbCase {
		if rare(t, "crowd", 300) {
			return drawCrowd(t)
		}
		c := dbCase{Cfg: drawDBCfg(t), DBs: 3}
		c.Other = c.Cfg.Chunk
		c.Ops = drawHistory(t, c.Cfg, 3, 24, map[string]int{"open": 4, "write": 6, "commit": 4, "cancel": 1, "close": 4})
		return c
	}, func(c dbCase, rec *Rec) error {
		return runHistory(c, rec, func(r *dbRun, i int, op dbOp) error {
			open := map[uint]int{}
			for k, ctx := range r.ctx {
				if ctx.open {
					if other, ok := open[ctx.id]; ok {
						return fmt.Errorf("the open contexts of %s and %s have the same identifier", r.cfg.name(k), r.cfg.name(other))
					}
					open[ctx.id] = k
				}
			}
			if len(open) >= 2 && (op.Op == "commit" || op.Op == "close") {
				rec.NonTrivial = true
			}
			rec.LabelIf(len(open) == 3, "three contexts open")
			if err := r.eachOpen(func(i int, ctx uint) error {
				views, err := exactly(r.app, ctx, &r.dbs[i], r.views[i])
				r.views[i] = views
				return err
			}); err != nil {
				return err
			}
			for _, ctx := range r.ctx {
				if _, ok := open[ctx.id]; !ok {
					if err := everyCallFails(r.app, ctx.id); err != nil {
						return err
					}
				}
			}
			return everyCallFails(r.app, 987654321)
		})
	})

	register(Prop{
		ID:       "D06",
		Rule:     "database files that are random bytes, a valid file mutated (flips, truncations, insertions, duplications, extreme lengths in the header), with data cut off or flipped at the end, or with bytes appended; opening gives an error or a context on which every call returns (no crash, no runaway memory or time); when only data was damaged, the undamaged contents are read back exactly and what was cut off is an error. Non-trivial: the file differs from a valid one and is not empty.",
		Quick:    120000,
		Thorough: 3600000,
	}, func(t *rapid.T) badFileCase {
		c := badFileCase{Base: drawFaultCase(t), How: oneOf(t, "how", "raw", "mutate", "mutate", "mutate", "header", "datatrunc", "dataflip", "append", "cut")}
		if len(c.Base.Pre) == 0 {
			c.Base.Pre = [][]wSpec{drawWrites(t, c.Base.Cfg.Chunk, 3)}
		}
		switch c.How {
		case "raw":
			c.Raw = drawBytes(t, "raw", 120)
		case "mutate":
			c.Muts = drawMutations(t)
		case "header":
			c.Len = oneOf(t, "len", uint64(0), 1, 7, 8, 9, 1<<31, 1<<32, 1<<40, 1<<62, 1<<63, ^uint64(0), ^uint64(7), ^uint64(0)>>1)
			if chance(t, "rel", 50) {
				c.Len = uint64(intIn(t, "near", -20, 20)) + 1<<20
			}
		}
		c.At = intIn(t, "at", 0, 400)
		return c
	}, func(c badFileCase, rec *Rec) error {
		base := c.Base
		r, err := base.setup()
		if err != nil {
			return err
		}
		defer r.clean()
		if err := r.app.Close(r.ctx); err != nil {
			return err
		}
		old, _ := base.models()
		path := filepath.Join(r.dir, base.Cfg.name(0))
		valid, err := os.ReadFile(path)
		if err != nil {
			return fmt.Errorf("the file of a database cannot be read: %v", err)
		}
		total := len(old.concat())
		start := len(valid) - total
		data := append([]byte{}, valid...)
		damagedFrom, damagedTo := total, total // in the data; the metadata is intact when dataOnly
		dataOnly := false
		switch c.How {
		case "raw":
			data = c.Raw
		case "mutate":
			data = applyMutations(valid, c.Muts)
		case "header":
			n := c.Len
			if n >= 1<<20-20 && n <= 1<<20+20 { // close to the right one
				n = uint64(start-8) + n - 1<<20
			}
			binary.LittleEndian.PutUint64(data, n)
		case "datatrunc":
			dataOnly = true
			cut := 1 + c.At%total
			data = data[:len(data)-cut]
			damagedFrom, damagedTo = total-cut, total
		case "dataflip":
			dataOnly = true
			at := c.At % total
			data[start+at] ^= 0x55
			damagedFrom, damagedTo = at, at+1
		case "cut":
			n := c.At % len(valid)
			if c.At%2 == 0 {
				n = c.At / 2 % 16
			}
			data = data[:n]
		case "append":
			dataOnly = true
			data = append(data, expand(c.At, 1+c.At%50)...)
		}
		rec.NonTrivial = len(data) > 0 && !bytes.Equal(data, valid)
		if err := os.WriteFile(path, data, 0644); err != nil {
			return hfail("%v", err)
		}
		app := newApp(r.dir, base.Cfg)
		before := allocated()
		pCtx, err := app.Open(base.Cfg.name(0))
		if used := allocated() - before; used > outOfProportion(len(data)) {
			return fmt.Errorf("%s: opening a file of %d bytes used %d bytes of memory", c.How, len(data), used)
		}
		if err != nil {
			rec.Label(c.How + ": refused")
			if dataOnly {
				return fmt.Errorf("%s: the metadata is intact but Open fails: %v", c.How, err)
			}
			if again, _ := os.ReadFile(path); !bytes.Equal(again, data) {
				return fmt.Errorf("refusing to open the file changed it")
			}
			return nil
		}
		rec.Label(c.How + ": opened")
		ctx := *pCtx
		if _, err := app.Commits(ctx); err != nil && len(data) > 0 {
			return fmt.Errorf("%s: a file of %d bytes is opened as an empty database", c.How, len(data))
		}
		if dataOnly {
			keys, err := contentKeyList(app, ctx, auditKinds())
			if err != nil || len(keys) != len(old.Contents) {
				return fmt.Errorf("%s: %d content keys instead of %d: %v", c.How, len(keys), len(old.Contents), err)
			}
			off := 0
			for i, mc := range old.Contents {
				from, to := off, off+len(mc.Data)
				off = to
				touched := from < damagedTo && to > damagedFrom
				got, err := app.Read(ctx, keys[i].Content())
				if !touched {
					if err != nil || !bytes.Equal(got, mc.Data) {
						return fmt.Errorf("%s: content %d is undamaged but is not read back: %v", c.How, i, err)
					}
					continue
				}
				if c.How == "datatrunc" && err == nil {
					return fmt.Errorf("content %d lost its end but is read without an error", i)
				}
				if c.How == "dataflip" && (err != nil || len(got) != len(mc.Data)) {
					return fmt.Errorf("content %d has a byte flipped: %v, %d bytes", i, err, len(got))
				}
			}
		}
		if lost := c.How == "datatrunc"; lost {
			keys, _ := contentKeyList(app, ctx, auditKinds())
			all, hashes := []references.Pointer{}, []hash.Hash{}
			for _, ck := range keys {
				all, hashes = append(all, ck.Content()), append(hashes, ck.Hash())
			}
			if got, err := app.ReadAll(ctx, all); err == nil {
				return fmt.Errorf("ReadAll gives %d contents of which some lost their end", len(got))
			}
			if got, err := app.ReadAllByHashes(ctx, hashes); err == nil && latestCut(&old, damagedFrom) {
				return fmt.Errorf("ReadAllByHashes gives %d contents of which some lost their end", len(got))
			}
		}
		// whatever the file said, every call returns
		pointers := []references.Pointer{}
		for k := range auditKinds() {
			ins, err := app.ContentKeysByKind(ctx, k)
			if err != nil {
				continue
			}
			for _, ck := range ins.List() {
				pointers = append(pointers, ck.Content())
				before := allocated()
				app.ReadByHash(ctx, ck.Hash())
				app.Read(ctx, ck.Content())
				if used := allocated() - before; used > outOfProportion(len(data)) {
					return fmt.Errorf("%s: reading a content of a file of %d bytes used %d bytes of memory", c.How, len(data), used)
				}
			}
		}
		app.ReadAll(ctx, pointers)
		if commits, err := app.Commits(ctx); err == nil {
			for _, one := range commits.List() {
				if _, err := app.CommitByHash(ctx, one.Hash()); err != nil {
					return fmt.Errorf("a listed commit cannot be fetched: %v", err)
				}
				one.Values().Head()
				one.CreatedOn().UnixNano()
			}
			commits.Latest()
		}
		if err := app.Write(ctx, labelHash(100), []byte("new"), 1); err != nil {
			return fmt.Errorf("Write on the context opened on it: %v", err)
		}
		if err := app.Commit(ctx); err != nil {
			if again, _ := os.ReadFile(path); !bytes.Equal(again, data) {
				return fmt.Errorf("the commit failed (%v) but changed the database", err)
			}
		} else if got, err := app.ReadByHash(ctx, labelHash(100)); !dataOnly {
			_ = got // pointers of a damaged file may overlap anything
		} else if c.How != "datatrunc" && c.How != "append" && (err != nil || !bytes.Equal(got, []byte("new"))) {
			return fmt.Errorf("what was just committed is not read back: %v", err)
		}
		return app.Close(ctx)
	})

	register(Prop{
		ID:       "D07",
		Rule:     "random histories of exists/new/delete/open/write+commit/close by two applications on two database names and a folder, with I/O faults injected in Exists, New and Delete; compared with a model: New makes an empty database exactly when there is none and otherwise changes nothing, Delete removes it for good, a deleted or recreated database is never written by an older context. Non-trivial: a database with content was deleted or created over.",
		Quick:    30000,
		Thorough: 900000,
	}, func(t *rapid.T) lifeCase {
		c := lifeCase{Cfg: drawDBCfg(t)}
		for i, n := 0, 3+uniform(t, "n", 24); i < n; i++ {
			op := lifeOp{Op: oneOf(t, "op", "exists", "existsfault", "new", "new", "newfault", "delete", "delfault", "commit", "commit", "commit", "commit", "commitold", "read"), Name: uniform(t, "name", 2), App: uniform(t, "app", 2)}
			if chance(t, "folder", 6) {
				op.Name = 2
			}
			switch op.Op {
			case "newfault", "delfault", "existsfault":
				op.At = uniform(t, "at", 4)
			case "commit", "commitold":
				op.W = drawWrites(t, 64, 2)
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, func(c lifeCase, rec *Rec) error {
		dir, clean := caseDir(c.Cfg)
		defer clean()
		defer releaseAll(dir)
		if err := os.MkdirAll(filepath.Join(dir, c.name(2)), 0777); err != nil {
			return hfail("%v", err)
		}
		if c.Cfg.Sub { // the directory must be created by New
			if err := os.RemoveAll(dir); err != nil {
				return hfail("%v", err)
			}
		}
		apps := []applications.Application{newApp(dir, c.Cfg), newApp(dir, c.Cfg)}
		dbs := make([]mDB, 3)
		gen := 0
		type held struct {
			app, name int
			ctx       uint
			gen       int
			state     mDB
		}
		contexts := []held{}
		find := func(app, name int) int {
			for i, h := range contexts {
				if h.app == app && h.name == name {
					return i
				}
			}
			return -1
		}
		audit := func() error {
			fresh := newApp(dir, c.Cfg)
			for i, name := range []string{c.name(0), c.name(1), c.name(2)} {
				ok, err := fresh.Exists(name)
				if err != nil {
					return fmt.Errorf("Exists(%s): %v", name, err)
				}
				if ok != dbs[i].Exists {
					return fmt.Errorf("Exists(%s) is %v", name, ok)
				}
				if !ok {
					if _, err := fresh.Open(name); err == nil {
						return fmt.Errorf("Open(%s) succeeded although there is no such database", name)
					}
					continue
				}
				if err := reopen(dir, c.Cfg, name, func(app applications.Application, ctx uint) error {
					_, err := exactly(app, ctx, &dbs[i], nil)
					return err
				}); err != nil {
					return err
				}
			}
			return nil
		}
		step := func(op lifeOp) error {
			app, name, db := apps[op.App], c.name(op.Name), &dbs[op.Name]
			folder := op.Name == 2
			switch op.Op {
			case "exists", "existsfault":
				p := &faultos.Plan{At: -1}
				if op.Op == "existsfault" {
					p = &faultos.Plan{At: op.At, Mode: "error"}
				}
				ok := false
				err, _ := guarded(p, func() (err error) { ok, err = app.Exists(name); return err })
				rec.LabelIf(p.Hit, "Exists with an I/O error")
				if err != nil && p.Hit {
					return nil // it could not tell
				}
				if err != nil || ok != db.Exists {
					return fmt.Errorf("Exists: %v, %v (I/O error: %v)", ok, err, p.Hit)
				}
			case "new", "newfault":
				p := &faultos.Plan{At: -1}
				if op.Op == "newfault" {
					p = &faultos.Plan{At: op.At, Mode: "error"}
				}
				var err error
				err, _ = guarded(p, func() error { return app.New(name) })
				rec.LabelIf(p.Hit, "New with an I/O error")
				if folder && !c.Cfg.Sub {
					if err == nil {
						return fmt.Errorf("New succeeded on the name of a folder")
					}
					return nil
				}
				if db.Exists {
					if err == nil && !p.Hit {
						return fmt.Errorf("New succeeded although the database exists")
					}
					if len(db.Contents) > 0 {
						rec.NonTrivial = true
						rec.Label("New on a database with content")
					}
					return nil
				}
				if p.Hit {
					// created or not
					_, serr := os.Stat(filepath.Join(dir, name))
					if err == nil && serr != nil {
						return fmt.Errorf("New reported success with an I/O error, and created nothing")
					}
					if serr == nil {
						gen++
						*db = mDB{Exists: true, Gen: gen}
					}
					return nil
				}
				if err != nil {
					return fmt.Errorf("New: %v", err)
				}
				gen++
				*db = mDB{Exists: true, Gen: gen}
			case "delete", "delfault":
				p := &faultos.Plan{At: -1}
				if op.Op == "delfault" {
					p = &faultos.Plan{At: op.At, Mode: "error"}
				}
				err, _ := guarded(p, func() error { return app.Delete(name) })
				if !db.Exists {
					if err == nil {
						return fmt.Errorf("Delete succeeded although there is no such database")
					}
					return nil
				}
				if p.Hit && err != nil {
					rec.Label("Delete with an I/O error")
					return nil
				}
				if err != nil {
					return fmt.Errorf("Delete: %v", err)
				}
				if len(db.Contents) > 0 {
					rec.NonTrivial = true
					rec.Label("deleted a database with content")
				}
				gen++
				*db = mDB{Gen: gen}
			case "commit", "commitold", "read":
				at := find(op.App, op.Name)
				if at >= 0 && op.Op == "commit" && contexts[at].gen != db.Gen {
					if err := app.Close(contexts[at].ctx); err != nil {
						return fmt.Errorf("Close: %v", err)
					}
					contexts = append(contexts[:at], contexts[at+1:]...)
					at = -1
				}
				if at < 0 {
					pCtx, err := app.Open(name)
					if !db.Exists {
						if err == nil {
							return fmt.Errorf("Open succeeded although there is no such database")
						}
						return nil
					}
					if err != nil {
						return fmt.Errorf("Open: %v", err)
					}
					contexts = append(contexts, held{op.App, op.Name, *pCtx, db.Gen, db.clone()})
					at = len(contexts) - 1
				}
				h := &contexts[at]
				if op.Op == "read" {
					_, err := exactly(app, h.ctx, &h.state, nil)
					rec.LabelIf(h.gen != db.Gen, "read through an older context")
					return err
				}
				if err := writeAll(app, h.ctx, op.W); err != nil {
					return err
				}
				err := app.Commit(h.ctx)
				if h.gen != db.Gen {
					rec.Label("commit through an older context")
					if err == nil {
						return fmt.Errorf("Commit succeeded although the database was deleted or replaced since its context was opened")
					}
					return app.Cancel(h.ctx)
				}
				if err != nil {
					return fmt.Errorf("Commit: %v", err)
				}
				gen++
				*db = withCommit(*db, op.W)
				db.Gen = gen
				h.gen, h.state = gen, db.clone()
			default:
				return hfail("unknown op %q", op.Op)
			}
			return nil
		}
		for i, op := range c.Ops {
			if err := step(op); err != nil {
				return fmt.Errorf("operation %d (%s %s): %w", i, op.Op, c.name(op.Name), err)
			}
			if err := audit(); err != nil {
				return fmt.Errorf("after operation %d (%s %s): %w", i, op.Op, c.name(op.Name), err)
			}
		}
		return nil
	})
}

// latestCut tells whether the latest content of some hash lost its end.
func latestCut(m *mDB, from int) bool {
	end := map[int]int{}
	off := 0
	for _, one := range m.Contents {
		off += len(one.Data)
		end[one.Hash] = off
	}
	for _, one := range end {
		if one > from {
			return true
		}
	}
	return false
}
