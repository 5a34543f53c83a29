package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"pgregory.net/rapid"

	"github.com/steve-care-software/rodkina/libs/databases/applications"

	"verif/faultos"
)

type wSpec struct {
	H    int  `json:"h"`
	Len  int  `json:"len"`
	Seed int  `json:"seed"`
	Kind uint `json:"kind"`
}

func drawWrites(t *rapid.T, chunk, max int) []wSpec {
	out := []wSpec{}
	for i, n := 0, 1+uniform(t, "nw", max); i < n; i++ {
		w := wSpec{H: intIn(t, "h", 0, hashUniverse-1), Seed: intIn(t, "seed", 0, 255), Kind: uint(intIn(t, "kind", 0, 3))}
		w.Len = drawDataLen(t, chunk)
		if chunk < 16 && w.Len > 60 {
			w.Len = 1 + w.Len%60
		}
		out = append(out, w)
	}
	return out
}

func (w wSpec) content(commit int) mContent {
	return mContent{Hash: w.H, Data: expand(w.Seed, w.Len), Kind: w.Kind, Commit: commit}
}

func withCommit(m mDB, ws []wSpec) mDB {
	out := m.clone()
	for _, w := range ws {
		out.Contents = append(out.Contents, w.content(m.Commits))
	}
	out.Commits++
	return out
}

func writeAll(app applications.Application, ctx uint, ws []wSpec) error {
	for _, w := range ws {
		if err := app.Write(ctx, labelHash(w.H), expand(w.Seed, w.Len), w.Kind); err != nil {
			return fmt.Errorf("Write: %v", err)
		}
	}
	return nil
}

// exactly tells how an open context differs from a model, in data, keys and history.
func exactly(app applications.Application, ctx uint, m *mDB, before []commitView) ([]commitView, error) {
	if err := auditKeys(app, ctx, m, hashUniverse); err != nil {
		return nil, err
	}
	if err := auditData(app, ctx, m); err != nil {
		return nil, err
	}
	views, err := auditHistory(app, ctx, m)
	if err != nil {
		return nil, err
	}
	for i := range before {
		if i >= len(views) || views[i] != before[i] {
			return nil, fmt.Errorf("commit %d is no longer what it was", i)
		}
	}
	return views, nil
}

// oneOf tells which of two states an open context shows.
func oneOfStates(app applications.Application, ctx uint, old, new *mDB, before []commitView) (string, error) {
	_, oerr := exactly(app, ctx, old, before)
	if oerr == nil {
		return "old", nil
	}
	_, nerr := exactly(app, ctx, new, before)
	if nerr == nil {
		return "new", nil
	}
	return "", fmt.Errorf("the state is neither the one before the commit (%v) nor the one after it (%v)", oerr, nerr)
}

// releaseAll closes what a dead process had open below dir, its locks included.
func releaseAll(dir string) {
	faultos.CloseAll()
	entries, _ := os.ReadDir("/proc/self/fd")
	for _, e := range entries {
		target, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name()))
		if err == nil && strings.HasPrefix(target, dir+"/") {
			if fd, err := strconv.Atoi(e.Name()); err == nil {
				syscall.Close(fd)
			}
		}
	}
}

// guarded runs fn with a plan; crashed tells that the plan killed it.
func guarded(p *faultos.Plan, fn func() error) (err error, crashed bool) {
	faultos.Arm(p)
	defer faultos.Disarm()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(faultos.Crash); ok {
				crashed = true
				return
			}
			panic(r)
		}
	}()
	err = fn()
	return
}

type faultCase struct {
	Cfg     dbCfg     `json:"cfg"`
	Pre     [][]wSpec `json:"pre"`
	Live    bool      `json:"live"` // the commits before were made through the same context
	Pending []wSpec   `json:"pending"`
	More    []wSpec   `json:"more"`
}

type faultRun struct {
	dir    string
	app    applications.Application
	ctx    uint
	before []commitView
	clean  func()
}

func (c faultCase) models() (old, new mDB) {
	for _, ws := range c.Pre {
		old = withCommit(old, ws)
	}
	return old, withCommit(old, c.Pending)
}

// setup brings a fresh database to the state just before the commit under test.
func (c faultCase) setup() (*faultRun, error) {
	dir, clean := caseDir(c.Cfg)
	r := &faultRun{dir: dir, clean: func() { releaseAll(dir); clean() }}
	fail := func(what string, err error) (*faultRun, error) {
		r.clean()
		return nil, fmt.Errorf("without any fault, %s: %v", what, err)
	}
	r.app = newApp(dir, c.Cfg)
	if err := r.app.New(c.Cfg.name(0)); err != nil {
		return fail("New", err)
	}
	pCtx, err := r.app.Open(c.Cfg.name(0))
	if err != nil {
		return fail("Open", err)
	}
	for _, ws := range c.Pre {
		if err := writeAll(r.app, *pCtx, ws); err != nil {
			return fail("Write", err)
		}
		if err := r.app.Commit(*pCtx); err != nil {
			return fail("Commit", err)
		}
	}
	if !c.Live {
		if err := r.app.Close(*pCtx); err != nil {
			return fail("Close", err)
		}
		r.app = newApp(dir, c.Cfg)
		if pCtx, err = r.app.Open(c.Cfg.name(0)); err != nil {
			return fail("Open", err)
		}
	}
	r.ctx = *pCtx
	if len(c.Pre) > 0 {
		commits, err := r.app.Commits(r.ctx)
		if err != nil {
			return fail("Commits", err)
		}
		for _, one := range commits.List() {
			r.before = append(r.before, viewCommit(one))
		}
	}
	if err := writeAll(r.app, r.ctx, c.Pending); err != nil {
		return fail("Write", err)
	}
	return r, nil
}

func (c faultCase) fresh(r *faultRun, fn func(app applications.Application, ctx uint) error) error {
	return reopen(r.dir, c.Cfg, c.Cfg.name(0), fn)
}

// oneFault decides a single run with a plan.
func (c faultCase) oneFault(p *faultos.Plan, rec *Rec) error {
	r, err := c.setup()
	if err != nil {
		return err
	}
	defer r.clean()
	old, new := c.models()
	cerr, crashed := guarded(p, func() error { return r.app.Commit(r.ctx) })
	if !p.Hit && p.Mode != "" {
		rec.Label("fault not reached")
	}
	if crashed {
		releaseAll(r.dir)
		state := ""
		if err := c.fresh(r, func(app applications.Application, ctx uint) (err error) {
			state, err = oneOfStates(app, ctx, &old, &new, r.before)
			return err
		}); err != nil {
			return fmt.Errorf("after the crash: %w", err)
		}
		rec.Label("crash, state is the " + state + " one")
		return c.another(r, state, &old, &new, true)
	}
	if cerr == nil {
		rec.LabelIf(p.Hit, "fault tolerated")
		if _, err := exactly(r.app, r.ctx, &new, r.before); err != nil {
			return fmt.Errorf("Commit succeeded but its context shows: %w", err)
		}
		if err := c.fresh(r, func(app applications.Application, ctx uint) error {
			_, err := exactly(app, ctx, &new, r.before)
			return err
		}); err != nil {
			return fmt.Errorf("Commit succeeded but %w", err)
		}
		return c.another(r, "new", &old, &new, false)
	}
	if p.Mode == "" {
		return fmt.Errorf("without any fault, Commit: %v", cerr)
	}
	state := ""
	if err := c.fresh(r, func(app applications.Application, ctx uint) (err error) {
		state, err = oneOfStates(app, ctx, &old, &new, r.before)
		return err
	}); err != nil {
		return fmt.Errorf("Commit failed (%v): %w", cerr, err)
	}
	rec.Label("error, state is the " + state + " one")
	if _, err := oneOfStates(r.app, r.ctx, &old, &new, r.before); err != nil {
		return fmt.Errorf("Commit failed (%v), then through its own context: %w", cerr, err)
	}
	// trying again
	rerr := r.app.Commit(r.ctx)
	if rerr != nil && state == "old" {
		return fmt.Errorf("Commit failed (%v) without changing the database, and fails again once the fault is over: %v", cerr, rerr)
	}
	want := &new
	if err := c.fresh(r, func(app applications.Application, ctx uint) error {
		_, err := exactly(app, ctx, want, r.before)
		return err
	}); err != nil {
		return fmt.Errorf("Commit failed (%v; the database was in the %s state) and was tried again (%v): %w", cerr, state, rerr, err)
	}
	return c.another(r, "new", &old, &new, false)
}

// another makes one more commit from where things are and checks the result.
func (c faultCase) another(r *faultRun, state string, old, new *mDB, fresh bool) error {
	m := new
	if state == "old" {
		m = old
	}
	next := m.clone()
	// the second one shows what the first one left behind the contents
	for i, ws := range [][]wSpec{c.More, {{H: 1, Len: 1 + len(c.More)%2, Seed: 7, Kind: 2}}} {
		next = withCommit(next, ws)
		if i == 0 && fresh {
			r.app = newApp(r.dir, c.Cfg)
		} else if err := r.app.Close(r.ctx); err != nil {
			return fmt.Errorf("Close after it: %v", err)
		}
		pCtx, err := r.app.Open(c.Cfg.name(0))
		if err != nil {
			return fmt.Errorf("Open after it: %v", err)
		}
		r.ctx = *pCtx
		if err := writeAll(r.app, r.ctx, ws); err != nil {
			return err
		}
		if err := r.app.Commit(r.ctx); err != nil {
			return fmt.Errorf("the next commit: %v", err)
		}
		if _, err := exactly(r.app, r.ctx, &next, r.before); err != nil {
			return fmt.Errorf("after the next commit: %w", err)
		}
	}
	return c.fresh(r, func(app applications.Application, ctx uint) error {
		_, err := exactly(app, ctx, &next, r.before)
		return err
	})
}

// plans lists the faults worth trying at each operation of a run.
func plans(ops []faultos.Op) []faultos.Plan {
	out := []faultos.Plan{}
	for i, op := range ops {
		add := func(modes ...string) {
			for _, m := range modes {
				out = append(out, faultos.Plan{At: i, Mode: m})
			}
		}
		add("error")
		switch {
		case op.Name == "write" || op.Name == "pwrite":
			add("short", "crash", "crashmid", "full")
		case op.Mutates:
			add("crash", "full")
		case op.Name == "read" || op.Name == "pread":
			add("short")
		}
	}
	out = append(out, faultos.Plan{At: len(ops) - 1, Mode: "crash"})
	return out
}

func copyPlan(p faultos.Plan) *faultos.Plan {
	return &faultos.Plan{At: p.At, Mode: p.Mode, Hook: p.Hook}
}

// readCase: I/O errors while opening and reading.
func (c faultCase) readFaults(rec *Rec) error {
	old, _ := c.models()
	c.Pending = nil
	r, err := c.setup()
	if err != nil {
		return err
	}
	defer r.clean()
	try := func(p *faultos.Plan) error {
		app := newApp(r.dir, c.Cfg)
		var pCtx *uint
		oerr, _ := guarded(p, func() (err error) { pCtx, err = app.Open(c.Cfg.name(0)); return err })
		if oerr != nil {
			rec.Label("Open: I/O error reported")
			return nil
		}
		defer app.Close(*pCtx)
		if _, err := exactly(app, *pCtx, &old, r.before); err != nil {
			return fmt.Errorf("Open succeeded although a read failed, then: %w", err)
		}
		return nil
	}
	count := &faultos.Plan{At: -1}
	if err := try(count); err != nil {
		return err
	}
	if len(count.Ops) == 0 {
		return hfail("no file operation was seen: the overlay is not in use")
	}
	for _, p := range plans(count.Ops) {
		if p.Mode == "error" || p.Mode == "short" {
			rec.Evals++
			if err := try(copyPlan(p)); err != nil {
				return fmt.Errorf("%s at operation %d (%s) of Open: %w", p.Mode, p.At, count.Ops[p.At].Name, err)
			}
		}
	}
	for _, mc := range old.Contents {
		want := old.latest(mc.Hash).Data
		for _, mode := range []string{"error", "short"} {
			for at := 0; at < 4; at++ {
				p := &faultos.Plan{At: at, Mode: mode}
				var got []byte
				rerr, _ := guarded(p, func() (err error) { got, err = r.app.ReadByHash(r.ctx, labelHash(mc.Hash)); return err })
				rec.Evals++
				if rerr == nil && !bytes.Equal(got, want) {
					return fmt.Errorf("%s at operation %d of a read: other bytes were returned without an error", mode, at)
				}
				if !p.Hit {
					break
				}
				rec.LabelIf(rerr != nil, "Read: I/O error reported")
			}
		}
	}
	return nil
}

func drawFaultCase(t *rapid.T) faultCase {
	c := faultCase{Cfg: drawDBCfg(t), Live: boolGen.Draw(t, "live")}
	for i, n := 0, uniform(t, "npre", 4); i < n; i++ {
		c.Pre = append(c.Pre, drawWrites(t, c.Cfg.Chunk, 3))
	}
	c.Pending = drawWrites(t, c.Cfg.Chunk, 3)
	c.More = drawWrites(t, c.Cfg.Chunk, 2)
	if chance(t, "small", 30) { // what a failed commit left is longer
		c.More = []wSpec{{H: 1, Len: 1 + uniform(t, "smalllen", 3), Seed: 9, Kind: 1}}
	}
	return c
}

func init() {
	register(Prop{
		ID:       "D04",
		Rule:     "random databases (0-3 commits, made through the same or an earlier context) and pending contents; the file operations of the commit are counted, then the commit is run again on an identical database once per operation and fault: I/O error, short write/read, disk full from there on, crash before it, crash in the middle of a write. After each the database must be exactly the old or the new one, the context must still read, the commit must be repeatable, and two more commits must give exactly what they should. The same with read errors while opening and reading. Non-trivial: the database had earlier commits.",
		Quick:    270,
		Thorough: 8100,
		Level:    "fault_enumeration",
		Assume:   []string{"a crash keeps the file operations completed before it, in order (no power loss reordering)", "rename replaces a file atomically"},
	}, drawFaultCase, func(c faultCase, rec *Rec) error {
		count := &faultos.Plan{At: -1}
		if err := c.oneFault(count, rec); err != nil {
			return err
		}
		if len(count.Ops) == 0 {
			return hfail("no file operation was seen: the overlay is not in use")
		}
		rec.NonTrivial = len(c.Pre) > 0
		rec.LabelIf(len(c.Pre) > 0 && !c.Live, "existing data, reopened context")
		rec.LabelIf(len(c.Pre) > 0 && c.Live, "existing data, same context")
		for _, p := range plans(count.Ops) {
			rec.Evals++
			if err := c.oneFault(copyPlan(p), rec); err != nil {
				return fmt.Errorf("%s at operation %d (%s %s) of Commit: %w", p.Mode, p.At, count.Ops[p.At].Name, filepath.Base(count.Ops[p.At].Path), err)
			}
		}
		return c.readFaults(rec)
	})
}
