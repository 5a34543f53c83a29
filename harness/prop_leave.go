package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"pgregory.net/rapid"

	"github.com/steve-care-software/rodkina/libs/databases/applications"

	"verif/faultos"
)

// leaveOp is one call, possibly with a fault in it.
type leaveOp struct {
	Op     string  `json:"op"` // new, open, write, commit, cancel, read, close, delete, exists, locked, damaged
	App    int     `json:"app"`
	DB     int     `json:"db"`
	Writes []wSpec `json:"writes,omitempty"`
	Mode   string  `json:"mode,omitempty"` // error, short, full: what happens to the operation number At of the call
	At     int     `json:"at,omitempty"`
}

type leaveCase struct {
	Cfg dbCfg     `json:"cfg"`
	Ops []leaveOp `json:"ops"`
}

func drawLeaveCase(t *rapid.T) leaveCase {
	c := leaveCase{Cfg: drawDBCfg(t)}
	for c.Cfg.Names == 1 { // one of its names is in a folder that does not exist
		c.Cfg.Names = uniform(t, "names", len(dbNames))
	}
	apps := 1 + uniform(t, "apps", 2)
	dbs := 1 + uniform(t, "dbs", 3)
	open := map[[2]int]bool{}
	for i, n := 0, 4+uniform(t, "nops", 20); i < n; i++ {
		op := leaveOp{App: uniform(t, "app", apps), DB: uniform(t, "db", dbs)}
		op.Op = oneOf(t, "op", "open", "open", "write", "commit", "commit", "commit", "commit", "close", "close", "cancel", "read", "new", "delete", "exists", "locked", "damaged")
		key := [2]int{op.App, op.DB}
		switch op.Op {
		case "open", "damaged":
			if open[key] && !chance(t, "again", 20) {
				op.Op = "commit"
			}
		case "write", "commit", "close", "cancel", "read", "locked":
			if !open[key] && !chance(t, "unopened", 5) {
				op.Op = "open"
			}
		case "delete":
			if !chance(t, "really", 50) {
				op.Op = "exists"
			}
		}
		switch op.Op {
		case "open":
			open[key] = true
		case "close":
			delete(open, key)
		}
		if op.Op == "write" || op.Op == "commit" || op.Op == "locked" {
			op.Writes = drawWrites(t, c.Cfg.Chunk, 2)
		}
		if chance(t, "fault", 45) {
			op.Mode = oneOf(t, "mode", "error", "error", "error", "short", "full")
			switch op.Op {
			case "commit":
				op.At = uniform(t, "at", 28)
			case "close":
				op.At = 0
			default:
				op.At = uniform(t, "at", 6)
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// heldBelow lists the files below a folder the process has open.
func heldBelow(dir string) []string {
	out := []string{}
	entries, _ := os.ReadDir("/proc/self/fd")
	for _, e := range entries {
		target, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name()))
		if err == nil && strings.HasPrefix(target, dir+"/") {
			out = append(out, strings.TrimPrefix(target, dir+"/"))
		}
	}
	sort.Strings(out)
	return out
}

func filesBelow(dir string) []string {
	out := []string{}
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			out = append(out, strings.TrimPrefix(path, dir+"/"))
		}
		return nil
	})
	sort.Strings(out)
	return out
}

type leaveRun struct {
	c      leaveCase
	rec    *Rec
	dir    string
	apps   []applications.Application
	ctxs   []map[int]uint // by application, the context of each database
	exists map[int]bool
	dirty  map[int]bool // a commit failed, or met a fault, and none has succeeded since
}

// reopenable opens, in an application that has no context on a database, a context on it: it must be possible.
func (r *leaveRun) reopenable(app, db int, why string) error {
	if !r.exists[db] {
		return nil
	}
	pCtx, err := r.apps[app].Open(r.c.Cfg.name(db))
	if err != nil {
		return fmt.Errorf("%s, then opening the database again: %v", why, err)
	}
	if err := r.apps[app].Close(*pCtx); err != nil {
		return fmt.Errorf("%s, then opening and closing the database: %v", why, err)
	}
	return nil
}

func (r *leaveRun) closeOne(app, db int, plan *faultos.Plan) error {
	ctx := r.ctxs[app][db]
	err, _ := guarded(plan, func() error { return r.apps[app].Close(ctx) })
	if err != nil && !plan.Hit {
		return fmt.Errorf("Close: %v", err)
	}
	delete(r.ctxs[app], db)
	if err != nil {
		r.rec.Label("Close failed")
		r.apps[app].Close(ctx) // a second attempt may or may not be needed
		return r.reopenable(app, db, fmt.Sprintf("Close failed (%v)", err))
	}
	return nil
}

func (r *leaveRun) step(op leaveOp) error {
	plan := &faultos.Plan{At: -1, Closes: true}
	if op.Mode != "" {
		plan.At, plan.Mode = op.At, op.Mode
	}
	app, name := r.apps[op.App], r.c.Cfg.name(op.DB)
	path := filepath.Join(r.dir, name)
	ctx, opened := r.ctxs[op.App][op.DB]
	defer func() {
		r.rec.Evals++
		r.rec.LabelIf(plan.Hit, "fault in "+op.Op)
	}()
	look := func(what string, err error, should, was bool) error {
		_, serr := os.Stat(path)
		is := serr == nil
		if err == nil && is != should {
			return fmt.Errorf("%s succeeded but the database exists: %v", what, is)
		}
		if err != nil && !plan.Hit && is != was {
			return fmt.Errorf("%s failed (%v) and yet changed whether the database exists", what, err)
		}
		r.exists[op.DB] = is
		return nil
	}
	switch op.Op {
	case "new":
		was := r.exists[op.DB]
		err, _ := guarded(plan, func() error { return app.New(name) })
		if err != nil && !was && !plan.Hit {
			return fmt.Errorf("New: %v", err)
		}
		return look("New", err, true, was)
	case "delete":
		was := r.exists[op.DB]
		err, _ := guarded(plan, func() error { return app.Delete(name) })
		if err != nil && was && !plan.Hit {
			return fmt.Errorf("Delete: %v", err)
		}
		return look("Delete", err, false, was)
	case "exists":
		guarded(plan, func() error { _, err := app.Exists(name); return err })
	case "open":
		var pCtx *uint
		err, _ := guarded(plan, func() (err error) { pCtx, err = app.Open(name); return err })
		switch {
		case opened || !r.exists[op.DB]:
			if err == nil {
				return fmt.Errorf("Open succeeded although the database exists: %v, and is open: %v", r.exists[op.DB], opened)
			}
		case err != nil:
			if !plan.Hit {
				return fmt.Errorf("Open: %v", err)
			}
			r.rec.Label("Open failed")
			return r.reopenable(op.App, op.DB, fmt.Sprintf("Open failed (%v)", err))
		default:
			r.ctxs[op.App][op.DB] = *pCtx
		}
	case "damaged":
		if opened || !r.exists[op.DB] {
			return nil
		}
		data, err := os.ReadFile(path)
		if err != nil {
			return fmt.Errorf("the file of a database cannot be read: %v", err)
		}
		if err := os.WriteFile(path, append([]byte("this is not a database"), data...), 0666); err != nil {
			return hfail("%v", err)
		}
		_, err = app.Open(name)
		if werr := os.WriteFile(path, data, 0666); werr != nil {
			return hfail("%v", werr)
		}
		if err == nil {
			return fmt.Errorf("Open accepted a damaged database")
		}
		r.rec.Label("Open refused damaged data")
		return r.reopenable(op.App, op.DB, fmt.Sprintf("Open failed (%v) and the file was repaired", err))
	case "write":
		if opened {
			return writeAll(app, ctx, op.Writes)
		}
	case "read":
		if opened {
			for _, w := range []int{0, 1} {
				guarded(plan, func() error { _, err := app.ReadByHash(ctx, labelHash(w)); return err })
			}
		}
	case "cancel":
		if opened {
			if err := app.Cancel(ctx); err != nil {
				return fmt.Errorf("Cancel: %v", err)
			}
		}
	case "close":
		if opened {
			return r.closeOne(op.App, op.DB, plan)
		}
	case "commit", "locked":
		if !opened {
			return nil
		}
		if err := writeAll(app, ctx, op.Writes); err != nil {
			return err
		}
		if op.Op == "locked" {
			fd, err := syscall.Open(path, syscall.O_RDONLY, 0)
			if err == nil {
				if err := syscall.Flock(fd, syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
					syscall.Close(fd)
					return fmt.Errorf("the database is still locked although no call is running: %v", err)
				}
				defer syscall.Close(fd)
			}
		}
		err, _ := guarded(plan, func() error { return app.Commit(ctx) })
		r.dirty[op.DB] = err != nil
		r.rec.LabelIf(err == nil, "Commit succeeded")
		r.rec.LabelIf(err != nil && plan.Hit, "Commit failed by the fault")
		r.rec.LabelIf(err != nil && !plan.Hit, "Commit refused")
	}
	return nil
}

// look compares what is there with what should be.
func (r *leaveRun) look() error {
	open := 0
	for _, m := range r.ctxs {
		open += len(m)
	}
	held := heldBelow(r.dir)
	if len(held) > 3*open {
		return fmt.Errorf("%d contexts are open but these files below the folder are held open: %q", open, held)
	}
	dirty := false
	want := []string{}
	for i := range dbNames[0] {
		dirty = dirty || r.dirty[i]
		if r.exists[i] {
			want = append(want, r.c.Cfg.name(i))
		}
	}
	sort.Strings(want)
	got := filesBelow(r.dir)
	if !dirty && strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Errorf("the folder holds %q, the databases are %q", got, want)
	}
	for i := range dbNames[0] {
		if _, err := os.Stat(filepath.Join(r.dir, r.c.Cfg.name(i))); (err == nil) != r.exists[i] {
			return fmt.Errorf("the database %q is there: %v, it should be: %v", r.c.Cfg.name(i), err == nil, r.exists[i])
		}
	}
	return nil
}

func (c leaveCase) run(rec *Rec) error {
	dir, clean := caseDir(c.Cfg)
	r := &leaveRun{c: c, rec: rec, dir: dir, exists: map[int]bool{}, dirty: map[int]bool{}}
	defer func() { releaseAll(dir); clean() }()
	for i := 0; i < 2; i++ {
		r.apps = append(r.apps, newApp(dir, c.Cfg))
		r.ctxs = append(r.ctxs, map[int]uint{})
	}
	for i := range dbNames[0] {
		if err := r.apps[0].New(c.Cfg.name(i)); err != nil {
			return fmt.Errorf("New: %v", err)
		}
		r.exists[i] = true
	}
	if err := r.look(); err != nil {
		return fmt.Errorf("after creating the databases: %w", err)
	}
	for i, op := range c.Ops {
		what := fmt.Sprintf("call %d (%s", i, op.Op)
		if op.Mode != "" {
			what += fmt.Sprintf(", %s at its operation %d", op.Mode, op.At)
		}
		if err := r.step(op); err != nil {
			return fmt.Errorf("%s): %w", what, err)
		}
		if err := r.look(); err != nil {
			return fmt.Errorf("after %s): %w", what, err)
		}
	}
	// everything is closed, then each database is committed to once more
	for app := range r.apps {
		for db := range dbNames[0] {
			if _, ok := r.ctxs[app][db]; ok {
				if err := r.closeOne(app, db, &faultos.Plan{At: -1, Closes: true}); err != nil {
					return fmt.Errorf("at the end: %w", err)
				}
			}
		}
	}
	if err := r.look(); err != nil {
		return fmt.Errorf("after closing every context: %w", err)
	}
	for db := range dbNames[0] {
		app, name := r.apps[db%2], c.Cfg.name(db)
		if !r.exists[db] {
			if err := app.New(name); err != nil {
				return fmt.Errorf("at the end, New: %v", err)
			}
			r.exists[db] = true
		}
		pCtx, err := app.Open(name)
		if err != nil {
			return fmt.Errorf("at the end, Open: %v", err)
		}
		if err := writeAll(app, *pCtx, []wSpec{{H: 0, Len: 3, Seed: 1}}); err != nil {
			return fmt.Errorf("at the end: %v", err)
		}
		if err := app.Commit(*pCtx); err != nil {
			return fmt.Errorf("at the end, Commit: %v", err)
		}
		r.dirty[db] = false
		if err := app.Close(*pCtx); err != nil {
			return fmt.Errorf("at the end, Close: %v", err)
		}
	}
	if err := r.look(); err != nil {
		return fmt.Errorf("after one more commit to every database: %w", err)
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "D09",
		Rule:     "random histories of 4-23 calls (new, open, write, commit, cancel, read, close, delete, exists) of one or two applications on three databases, almost half of the calls with a fault at one of their file operations (I/O error, short write or read, full disk, failing close), some commits while the database is locked and some openings of damaged files. After every call the descriptors of the process below the folder and the files in it are compared with the contexts and databases of the model; at the end every context is closed (nothing may be held) and every database committed to once more (only databases may be there). Non-trivial: a fault was met or a commit refused while a context was open.",
		Quick:    36000,
		Thorough: 1080000,
		Level:    "exploration",
		Assume:   []string{"what a failed commit leaves in the folder is removed by the next commit of that database that succeeds, not before"},
	}, drawLeaveCase, func(c leaveCase, rec *Rec) error {
		err := c.run(rec)
		for l := range rec.Labels {
			if strings.HasPrefix(l, "fault in ") || l == "Commit refused" || l == "Close failed" {
				rec.NonTrivial = true
			}
		}
		return err
	})
}
