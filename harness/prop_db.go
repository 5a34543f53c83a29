package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"pgregory.net/rapid"

	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)

// A history of operations on one application with several databases.
type dbOp struct {
	Op   string `json:"op"`
	DB   int    `json:"db"`
	H    int    `json:"h,omitempty"`
	Len  int    `json:"len,omitempty"`
	Seed int    `json:"seed,omitempty"`
	Kind uint   `json:"kind,omitempty"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
}

type dbCase struct {
	Cfg   dbCfg  `json:"cfg"`
	Other int    `json:"other"` // the chunk size used when reopening
	DBs   int    `json:"dbs"`
	Ops   []dbOp `json:"ops"`
	Huge  string `json:"huge,omitempty"`
}

const hashUniverse = 8

// drawHistory draws a mostly meaningful history: weights pick the operation, invalid ones are kept rare.
func drawHistory(t *rapid.T, cfg dbCfg, dbs int, maxOps int, weights map[string]int) []dbOp {
	n := intIn(t, "nops", 3, maxOps)
	kinds := sortedKeys(weights)
	table := []string{}
	for _, k := range kinds {
		for i := 0; i < weights[k]; i++ {
			table = append(table, k)
		}
	}
	ops := []dbOp{}
	open := map[int]bool{}
	pending := map[int]int{}
	for i := 0; i < n; i++ {
		op := dbOp{Op: table[uniform(t, "op", len(table))], DB: intIn(t, "db", 0, dbs-1)}
		if !open[op.DB] && op.Op != "open" && !chance(t, "invalid", 6) {
			op.Op = "open"
		}
		if open[op.DB] && op.Op == "open" && !chance(t, "invalid", 6) {
			op.Op = "write"
		}
		if open[op.DB] && op.Op == "commit" && pending[op.DB] == 0 && !chance(t, "invalid", 10) {
			op.Op = "write"
		}
		switch op.Op {
		case "open":
			open[op.DB] = true
		case "close":
			delete(open, op.DB)
			pending[op.DB] = 0
		case "commit", "cancel":
			pending[op.DB] = 0
		case "bulk":
			pending[op.DB] += 2
			op.A = intIn(t, "count", 2, 12)
			if rare(t, "many", 40) { // more contents than fit a narrower count, under as many hashes
				op.A, op.B = oneOf(t, "count", 60, 130, 257, 300), 1000
			}
			op.Len = intIn(t, "len", 1, 120)
			op.Seed = intIn(t, "seed", 0, 255)
			op.Kind = drawKind(t)
		case "write":
			pending[op.DB]++
			op.H = intIn(t, "h", 0, hashUniverse-1)
			op.Len = drawDataLen(t, cfg.Chunk)
			if chance(t, "empty", 3) {
				op.Len = 0
			}
			if rare(t, "huge", 1000) { // more bytes than fit a narrower length
				op.Len = oneOf(t, "len", 4096, 32769, 65535, 65536, 70001, 200003)
			}
			op.Seed = intIn(t, "seed", 0, 255)
			op.Kind = drawKind(t)
		case "readsub":
			op.A = intIn(t, "a", 0, 3000)
			op.B = intIn(t, "b", 1, 600)
		}
		ops = append(ops, op)
	}
	return ops
}

type mCtx struct {
	open    bool
	id      uint
	pending []mContent
	buffers [][]byte // what was given to Write, the caller uses it again once it is committed or cancelled
}

type dbRun struct {
	cfg     dbCfg
	dir     string
	app     applications.Application
	dbs     []mDB
	ctx     []mCtx
	views   [][]commitView
	commits int
	rec     *Rec
	// classification
	multiCommit, unaligned, crossChunk bool
}

func (r *dbRun) step(op dbOp) error {
	name := r.cfg.name(op.DB)
	db := &r.dbs[op.DB]
	c := &r.ctx[op.DB]
	switch op.Op {
	case "open":
		pCtx, err := r.app.Open(name)
		if c.open {
			if err == nil {
				return fmt.Errorf("Open(%s) succeeded although the application already has an open context on it", name)
			}
			r.rec.Label("open: already open")
			return nil
		}
		if err != nil {
			return fmt.Errorf("Open(%s): %v", name, err)
		}
		for i, o := range r.ctx {
			if o.open && o.id == *pCtx {
				return fmt.Errorf("Open(%s) returned context %d, which is the one still open on %s", name, *pCtx, r.cfg.name(i))
			}
		}
		*c = mCtx{open: true, id: *pCtx}
	case "write":
		data := expand(op.Seed, op.Len)
		err := r.app.Write(c.id, labelHash(op.H), data, op.Kind)
		if !c.open {
			return r.closedErr("Write", c, err)
		}
		if op.Len == 0 {
			if err == nil {
				return fmt.Errorf("Write of no data succeeded")
			}
			r.rec.Label("write: empty data rejected")
			return nil
		}
		if err != nil {
			return fmt.Errorf("Write: %v", err)
		}
		c.buffers = append(c.buffers, data)
		c.pending = append(c.pending, mContent{Hash: op.H, Data: expand(op.Seed, op.Len), Kind: op.Kind})
	case "bulk": // several contents under consecutive hashes
		universe := hashUniverse
		if op.B > 0 {
			universe = op.B
		}
		for i := 0; i < op.A; i++ {
			one := dbOp{Op: "write", DB: op.DB, H: (op.H + i) % universe, Len: 1 + (op.Len+i*37)%160, Seed: op.Seed + i, Kind: op.Kind + uint(i%2)}
			if op.Kind > 3 {
				one.Kind = op.Kind
			}
			if err := r.step(one); err != nil {
				return err
			}
		}
	case "commit":
		err := r.app.Commit(c.id)
		if !c.open {
			return r.closedErr("Commit", c, err)
		}
		if len(c.pending) == 0 {
			if err == nil {
				return fmt.Errorf("Commit without pending content succeeded")
			}
			r.rec.Label("commit: nothing pending rejected")
			return nil
		}
		if err != nil {
			return fmt.Errorf("Commit of %d contents: %v", len(c.pending), err)
		}
		old := len(db.concat())
		if old > 0 {
			r.multiCommit = true
			if old%r.cfg.Chunk != 0 {
				r.unaligned = true
			}
			if old > r.cfg.Chunk {
				r.crossChunk = true
			}
		}
		for _, p := range c.pending {
			p.Commit = db.Commits
			db.Contents = append(db.Contents, p)
		}
		scribble(c.buffers...)
		c.buffers = nil
		db.Commits++
		r.commits++
		c.pending = nil
	case "cancel":
		err := r.app.Cancel(c.id)
		if !c.open {
			return r.closedErr("Cancel", c, err)
		}
		if err != nil {
			return fmt.Errorf("Cancel: %v", err)
		}
		r.rec.LabelIf(len(c.pending) > 0, "cancel with pending content")
		scribble(c.buffers...)
		c.buffers = nil
		c.pending = nil
	case "close":
		err := r.app.Close(c.id)
		if !c.open {
			return r.closedErr("Close", c, err)
		}
		if err != nil {
			return fmt.Errorf("Close: %v", err)
		}
		r.rec.LabelIf(len(c.pending) > 0, "close with pending content")
		*c = mCtx{id: c.id}
	case "readsub":
		if !c.open {
			return nil
		}
		all := db.concat()
		if len(all) == 0 {
			return nil
		}
		from, length := op.A, op.B
		if from >= len(all) {
			from = from % len(all)
		}
		p, err := references.NewPointerBuilder().Create().From(uint(from)).WithLength(uint(length)).Now()
		if err != nil {
			return fmt.Errorf("building a pointer: %v", err)
		}
		got, err := r.app.Read(c.id, p)
		if from+length > len(all) {
			if err == nil {
				return fmt.Errorf("Read of %d bytes at %d succeeded although only %d bytes are stored", length, from, len(all))
			}
			r.rec.Label("read beyond the end rejected")
			return nil
		}
		if err != nil {
			return fmt.Errorf("Read of %d bytes at %d, with %d stored: %v", length, from, len(all), err)
		}
		defer scribble(got)
		if !bytes.Equal(got, all[from:from+length]) {
			return fmt.Errorf("Read of %d bytes at %d returned other bytes (first difference at %d)", length, from, firstDiff(got, all[from:from+length]))
		}
		r.rec.Label("pointer read inside the stored data")
	default:
		return hfail("unknown op %q", op.Op)
	}
	return nil
}

// closedErr: a call on an identifier that is not open must fail, unless that identifier was given to another context since.
func (r *dbRun) closedErr(what string, c *mCtx, err error) error {
	if err == nil {
		return fmt.Errorf("%s succeeded on context %d, which is not open", what, c.id)
	}
	r.rec.Label("call on a context that is not open rejected")
	return nil
}

// reused tells whether the stale identifier of a closed context belongs to another open context by now.
func (r *dbRun) reused(op dbOp) bool {
	c := r.ctx[op.DB]
	if c.open {
		return false
	}
	for _, o := range r.ctx {
		if o.open && o.id == c.id {
			return true
		}
	}
	return false
}

// newDB creates a database, with the folder of its name when it has one
func (r *dbRun) newDB(i int) error {
	name := r.cfg.name(i)
	if filepath.Dir(name) != "." {
		if err := os.MkdirAll(filepath.Join(r.dir, filepath.Dir(name)), 0777); err != nil {
			return hfail("%v", err)
		}
	}
	if err := r.app.New(name); err != nil {
		return fmt.Errorf("New(%s): %v", name, err)
	}
	return nil
}

func runHistory(c dbCase, rec *Rec, after func(r *dbRun, i int, op dbOp) error) error {
	dir, clean := caseDir(c.Cfg)
	defer clean()
	r := &dbRun{cfg: c.Cfg, dir: dir, app: newApp(dir, c.Cfg), rec: rec}
	r.dbs = make([]mDB, c.DBs)
	r.ctx = make([]mCtx, c.DBs)
	r.views = make([][]commitView, c.DBs)
	defer func() {
		for i := range r.ctx {
			if r.ctx[i].open {
				r.app.Close(r.ctx[i].id)
			}
		}
	}()
	for i := 0; i < c.DBs; i++ {
		if err := r.newDB(i); err != nil {
			return err
		}
		r.dbs[i].Exists = true
		r.ctx[i].id = 1000000 + uint(i)
	}
	rec.LabelIf(c.Huge != "", "huge: "+c.Huge)
	for i, op := range c.Ops {
		if r.reused(op) && op.Op != "open" {
			continue
		}
		if err := r.step(op); err != nil {
			return fmt.Errorf("operation %d (%s on %s): %w", i, op.Op, r.cfg.name(op.DB), err)
		}
		if err := after(r, i, op); err != nil {
			return fmt.Errorf("after operation %d (%s on %s): %w", i, op.Op, r.cfg.name(op.DB), err)
		}
	}
	return after(r, len(c.Ops), dbOp{Op: "end"})
}

// drawLongHistory draws a history of one database with so many commits, opened and closed, or cancelled, now and then.
func drawLongHistory(t *rapid.T, maxLen int) dbCase {
	c := dbCase{Cfg: drawDBCfg(t), DBs: 1, Huge: "commits"}
	c.Cfg.Chunk = max(c.Cfg.Chunk, 200)
	c.Other = 1000
	c.Ops = []dbOp{{Op: "open"}}
	seed, every := intIn(t, "seed", 0, 255), 1+uniform(t, "every", 60)
	for i, n := 0, oneOf(t, "commits", 33, 65, 70, 129, 140, 257); i < n; i++ {
		if i%every == every-1 {
			switch uniform(t, "between", 3) {
			case 0:
				c.Ops = append(c.Ops, dbOp{Op: "close"}, dbOp{Op: "open"})
			case 1:
				c.Ops = append(c.Ops, dbOp{Op: "write", H: i % hashUniverse, Len: 2, Seed: i, Kind: uint(i % 3)}, dbOp{Op: "cancel"})
			}
		}
		c.Ops = append(c.Ops, dbOp{Op: "write", H: (seed + i*i) % hashUniverse, Len: 1 + (seed+i*7)%maxLen, Seed: (seed + i) % 256, Kind: uint(i % 3)}, dbOp{Op: "commit"})
	}
	return c
}

func drawCase(maxOps int, dbsMax int, weights map[string]int) func(t *rapid.T) dbCase {
	return func(t *rapid.T) dbCase {
		if rare(t, "long history", 400) {
			return drawLongHistory(t, 60)
		}
		c := dbCase{Cfg: drawDBCfg(t), DBs: intIn(t, "dbs", 1, dbsMax)}
		c.Other = drawDBCfg(t).Chunk
		c.Ops = drawHistory(t, c.Cfg, c.DBs, maxOps, weights)
		return c
	}
}

// eachOpen runs fn on every open context.
func (r *dbRun) eachOpen(fn func(i int, ctx uint) error) error {
	for i := range r.ctx {
		if r.ctx[i].open {
			if err := fn(i, r.ctx[i].id); err != nil {
				return fmt.Errorf("database %s: %w", r.cfg.name(i), err)
			}
		}
	}
	return nil
}

func (r *dbRun) other(c dbCase) dbCfg { o := r.cfg; o.Chunk = c.Other; return o }

func init() {
	register(Prop{
		ID:       "D01",
		Rule:     "random histories of open/write/commit/cancel/close/pointer-read on 1-2 databases with chunk sizes 1..2500 and 10^6, contents of 1..7500 bytes drawn around chunk multiples; after every commit and reopen all committed contents are read back by hash, by pointer and in bulk (in the order of the list, reversed, shuffled and with repetitions), by the live context and by a new application with another chunk size; the bytes that were handed over or returned are overwritten in between. Several sets of database names, rarely contents of up to a megabyte; once in 400, a history of up to 257 commits. Non-trivial: at least two commits into the same database.",
		Quick:    40000,
		Thorough: 1200000,
		Assume:   []string{"the scratch file system behaves like a POSIX file system", "contents are addressed by 64-byte hashes"},
	}, drawCase(30, 2, map[string]int{"open": 2, "write": 6, "bulk": 1, "commit": 7, "cancel": 1, "close": 1, "readsub": 3}),
		func(c dbCase, rec *Rec) error {
			err := runHistory(c, rec, func(r *dbRun, i int, op dbOp) error {
				if op.Op == "readsub" || op.Op == "write" || op.Op == "bulk" {
					return nil
				}
				if err := r.eachOpen(func(i int, ctx uint) error { return auditData(r.app, ctx, &r.dbs[i]) }); err != nil {
					return err
				}
				if op.Op == "commit" || op.Op == "close" || op.Op == "end" {
					for i := range r.dbs {
						if op.Op != "end" && i != op.DB {
							continue
						}
						if err := reopen(r.dir, r.other(c), r.cfg.name(i), func(app applications.Application, ctx uint) error {
							return auditData(app, ctx, &r.dbs[i])
						}); err != nil {
							return fmt.Errorf("database %s: %w", r.cfg.name(i), err)
						}
					}
				}
				if op.Op == "end" {
					rec.NonTrivial = r.multiCommit
					rec.LabelIf(r.multiCommit, "several commits in a database")
					rec.LabelIf(r.unaligned, "existing data not a multiple of the chunk size")
					rec.LabelIf(r.crossChunk, "existing data longer than a chunk")
					rec.LabelIf(c.Cfg.Chunk != c.Other, "reopened with another chunk size")
				}
				return nil
			})
			return err
		})

	register(Prop{
		ID:       "D02",
		Rule:     "as D01 with more cancels, closes, empty commits and empty writes; after every operation the content keys of every open context are compared, kind by kind and in order, with those committed so far, and hashes never committed must be unreadable; the same from a new application after commit, cancel and close; once in 400, a history of up to 257 commits. Non-trivial: a cancel or close dropped pending content, or a context committed twice.",
		Quick:    40000,
		Thorough: 1200000,
	}, drawCase(30, 2, map[string]int{"open": 2, "write": 7, "bulk": 1, "commit": 6, "cancel": 2, "close": 2}),
		func(c dbCase, rec *Rec) error {
			return runHistory(c, rec, func(r *dbRun, i int, op dbOp) error {
				if err := r.eachOpen(func(i int, ctx uint) error { return auditKeys(r.app, ctx, &r.dbs[i], hashUniverse) }); err != nil {
					return err
				}
				if op.Op == "commit" || op.Op == "close" || op.Op == "cancel" {
					if err := reopen(r.dir, r.other(c), r.cfg.name(op.DB), func(app applications.Application, ctx uint) error {
						return auditKeys(app, ctx, &r.dbs[op.DB], hashUniverse)
					}); err != nil {
						return err
					}
				}
				if op.Op == "end" {
					rec.LabelIf(r.multiCommit, "several commits in a database")
					rec.NonTrivial = r.multiCommit || rec.Labels["cancel with pending content"] > 0 || rec.Labels["close with pending content"] > 0
				}
				return nil
			})
		})

	register(Prop{
		ID:       "D03",
		Rule:     "as D01 with many commits; after every commit, in the live context and from a new application: as many commits as were made, each one's parent the commit before, each hash recomputed from values, time, parent; values compared with an independent Merkle root over the content hashes; every content key names its commit; earlier commits unchanged since they were first seen; once in 400, a history of up to 257 commits. Non-trivial: at least two commits in a database.",
		Quick:    32000,
		Thorough: 960000,
	}, drawCase(36, 2, map[string]int{"open": 2, "write": 6, "bulk": 1, "commit": 7, "cancel": 1, "close": 1}),
		func(c dbCase, rec *Rec) error {
			return runHistory(c, rec, func(r *dbRun, i int, op dbOp) error {
				if op.Op == "write" || op.Op == "readsub" || op.Op == "bulk" {
					return nil
				}
				check := func(app applications.Application, ctx uint, db int) error {
					views, err := auditHistory(app, ctx, &r.dbs[db])
					if err != nil {
						return err
					}
					for k, v := range r.views[db] {
						if views[k] != v {
							return fmt.Errorf("commit %d changed after it was made", k)
						}
					}
					r.views[db] = views
					return nil
				}
				if err := r.eachOpen(func(i int, ctx uint) error { return check(r.app, ctx, i) }); err != nil {
					return err
				}
				if op.Op == "commit" || op.Op == "close" {
					if err := reopen(r.dir, r.other(c), r.cfg.name(op.DB), func(app applications.Application, ctx uint) error {
						return check(app, ctx, op.DB)
					}); err != nil {
						return err
					}
				}
				if op.Op == "end" {
					rec.NonTrivial = r.multiCommit
					rec.LabelIf(r.multiCommit, "several commits in a database")
					rec.LabelIf(r.commits >= 4, "four or more commits")
				}
				return nil
			})
		})
}
