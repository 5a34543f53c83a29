package main

import (
	"fmt"
	"path/filepath"

	"pgregory.net/rapid"

	"github.com/steve-care-software/rodkina/libs/databases/applications"

	"verif/faultos"
)

// Two applications on the same directory: what the second does happens between two file operations of the first.
type raceCase struct {
	faultCase
	Victim string  `json:"victim"` // what the first application is doing: commit, open, new
	Actor  string  `json:"actor"`  // what the second one does meanwhile: write, stale, read
	Other  []wSpec `json:"other"`
}

func isOneOf(app applications.Application, ctx uint, states map[string]*mDB, before []commitView) (string, error) {
	msg := ""
	for _, name := range sortedKeys(states) {
		_, err := exactly(app, ctx, states[name], before)
		if err == nil {
			return name, nil
		}
		msg += fmt.Sprintf("; not %s: %v", name, err)
	}
	return "", fmt.Errorf("the state is none of those expected%s", msg)
}

type actor struct {
	app       applications.Application
	ctx       *uint
	ran       bool
	committed bool
	err       error // a violation seen meanwhile
	state     string
}

func (c raceCase) one(p *faultos.Plan, rec *Rec) error {
	base := c.faultCase
	if c.Victim == "new" {
		base.Pre = nil
	}
	r, err := base.setup()
	if err != nil {
		return err
	}
	defer r.clean()
	var old mDB
	for _, ws := range base.Pre {
		old = withCommit(old, ws)
	}
	mine := withCommit(old, c.Pending)
	theirs := withCommit(old, c.Other)
	both1, both2 := withCommit(mine, c.Other), withCommit(theirs, c.Pending)
	name := c.Cfg.name(0)
	if c.Victim == "new" {
		name = "created"
	}
	b := &actor{app: newApp(r.dir, c.Cfg)}
	open := func() error {
		pCtx, err := b.app.Open(name)
		if err != nil {
			return fmt.Errorf("the second application cannot open the database: %v", err)
		}
		b.ctx = pCtx
		return nil
	}
	if c.Actor == "stale" && c.Victim != "new" {
		if err := open(); err != nil {
			return err
		}
		if err := writeAll(b.app, *b.ctx, c.Other); err != nil {
			return err
		}
	}
	p.Hook = func() {
		b.ran = true
		if c.Victim == "new" {
			if err := b.app.New(name); err != nil {
				b.ran = false
				return
			}
		}
		if b.ctx == nil {
			if b.err = open(); b.err != nil {
				return
			}
			if c.Actor == "read" {
				b.state, b.err = isOneOf(b.app, *b.ctx, map[string]*mDB{"old": &old, "new": &mine}, r.before)
				return
			}
			if b.err = writeAll(b.app, *b.ctx, c.Other); b.err != nil {
				return
			}
		}
		b.committed = b.app.Commit(*b.ctx) == nil
	}
	// what the first application does
	okMine := false
	switch c.Victim {
	case "commit":
		err, _ := guarded(p, func() error { return r.app.Commit(r.ctx) })
		okMine = err == nil
		if err != nil && !b.committed {
			return fmt.Errorf("Commit: %v, although nobody else committed", err)
		}
	case "open":
		app := newApp(r.dir, c.Cfg)
		var pCtx *uint
		err, _ := guarded(p, func() (err error) { pCtx, err = app.Open(name); return err })
		if err != nil {
			return fmt.Errorf("Open: %v", err)
		}
		states := map[string]*mDB{"old": &old}
		if b.committed {
			states["theirs"] = &theirs
		}
		if _, err := isOneOf(app, *pCtx, states, r.before); err != nil {
			return fmt.Errorf("the opened context: %w", err)
		}
		r.app, r.ctx = app, *pCtx
		if err := writeAll(app, *pCtx, c.Pending); err != nil {
			return err
		}
		okMine = app.Commit(*pCtx) == nil
	case "new":
		guarded(p, func() error { return r.app.New(name) })
		if b.ran && !b.committed && b.err == nil {
			rec.Label("new: the second application could not commit")
		}
		pCtx, err := r.app.Open(name)
		if err != nil {
			return fmt.Errorf("Open after New: %v", err)
		}
		want := &old
		if b.committed {
			want = &theirs
		}
		if _, err := exactly(r.app, *pCtx, want, nil); err != nil {
			return fmt.Errorf("after New: %w", err)
		}
		r.ctx = *pCtx
		if err := writeAll(r.app, r.ctx, c.Pending); err != nil {
			return err
		}
		okMine = r.app.Commit(r.ctx) == nil
	}
	if !p.Hit {
		return nil
	}
	if b.err != nil {
		return fmt.Errorf("meanwhile: %w", b.err)
	}
	rec.LabelIf(okMine && b.committed, "both commits made")
	rec.LabelIf(!okMine && b.committed, "only the second application's commit made")
	rec.LabelIf(okMine && !b.committed && c.Actor != "read", "only the first application's commit made")
	rec.LabelIf(c.Actor == "read", "reader meanwhile saw the "+b.state+" state")

	final := map[string]*mDB{}
	switch {
	case okMine && b.committed:
		final["both1"], final["both2"] = &both1, &both2
	case okMine:
		final["mine"] = &mine
	case b.committed:
		final["theirs"] = &theirs
	default:
		final["old"] = &old
	}
	if err := reopen(r.dir, c.Cfg, name, func(app applications.Application, ctx uint) error {
		_, err := isOneOf(app, ctx, final, r.before)
		return err
	}); err != nil {
		return fmt.Errorf("first application's commit made: %v, second one's: %v: %w", okMine, b.committed, err)
	}
	// what the contexts show is what they showed, or what they committed
	if okMine {
		if _, err := isOneOf(r.app, r.ctx, map[string]*mDB{"mine": &mine, "both1": &both1, "both2": &both2}, r.before); err != nil {
			return fmt.Errorf("the context that committed, while another application did something: %w", err)
		}
	} else if _, err := isOneOf(r.app, r.ctx, map[string]*mDB{"old": &old, "theirs": &theirs}, r.before); err != nil {
		return fmt.Errorf("the context whose commit was refused: %w", err)
	}
	if b.ctx != nil {
		states := map[string]*mDB{"theirs": &theirs, "both1": &both1, "both2": &both2}
		if c.Actor == "read" {
			states = map[string]*mDB{b.state: map[string]*mDB{"old": &old, "new": &mine}[b.state]}
		} else if !b.committed {
			states = map[string]*mDB{"old": &old, "mine": &mine}
		}
		if _, err := isOneOf(b.app, *b.ctx, states, r.before); err != nil {
			return fmt.Errorf("the second application's context afterwards: %w", err)
		}
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "D08",
		Rule:     "random databases (0-3 commits) used by two applications: for every file operation of the first one's commit, opening or creation, and both before and after it, the second one - with a context opened then or before - writes and commits, or opens and reads. Every commit that reported success is in the database once and whole, those that reported an error are not at all, and every context keeps showing one state. Non-trivial: the database had earlier commits and the second application commits.",
		Quick:    1500,
		Thorough: 45000,
		Assume:   []string{"the second application's calls run whole between two file operations of the first one"},
	}, func(t *rapid.T) raceCase {
		c := raceCase{faultCase: drawFaultCase(t), Victim: oneOf(t, "victim", "commit", "commit", "open", "new"), Actor: oneOf(t, "actor", "write", "stale", "read"), Other: drawWrites(t, 64, 2)}
		if chance(t, "alike", 20) { // the two commits make databases of the same size
			c.Other = []wSpec{}
			for _, w := range c.Pending {
				w.Seed++
				c.Other = append(c.Other, w)
			}
		}
		return c
	}, func(c raceCase, rec *Rec) error {
		if c.Victim != "commit" && c.Actor == "read" {
			c.Actor = "write"
		}
		rec.NonTrivial = len(c.Pre) > 0 && c.Actor != "read" && c.Victim != "new"
		rec.Label(c.Victim + " / " + c.Actor)
		count := &faultos.Plan{At: -1}
		if err := c.one(count, rec); err != nil {
			return fmt.Errorf("with nobody else: %w", err)
		}
		if len(count.Ops) == 0 {
			return hfail("no file operation was seen: the overlay is not in use")
		}
		step := 1 + len(count.Ops)/60
		for i := 0; i < len(count.Ops); i += step {
			for _, mode := range []string{"before", "after"} {
				rec.Evals++
				if err := c.one(&faultos.Plan{At: i, Mode: mode}, rec); err != nil {
					return fmt.Errorf("the other application acts %s operation %d (%s %s): %w", mode, i, count.Ops[i].Name, filepath.Base(count.Ops[i].Path), err)
				}
			}
		}
		return nil
	})
}
