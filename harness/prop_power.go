package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"syscall"

	"pgregory.net/rapid"

	"github.com/steve-care-software/rodkina/libs/databases/applications"

	"verif/faultos"
)

// disk knows what a folder contains, and what of it would be left if the power failed.
type disk struct {
	dir   string
	held  map[uint64]*os.File // every file that was seen, so that its number is not used again
	saved map[uint64][]byte   // what was flushed of every file
	steps []diskStep
	err   error
}

type diskStep struct {
	op     string
	names  map[string]uint64 // the files of the folder
	data   map[uint64][]byte // what they contain, those that were removed included
	saved  map[uint64][]byte
	folder map[string]bool // the folders that were flushed by this step
}

func inode(fi os.FileInfo) uint64 { return fi.Sys().(*syscall.Stat_t).Ino }

func newDisk(dir string) *disk {
	d := &disk{dir: dir, held: map[uint64]*os.File{}, saved: map[uint64][]byte{}}
	d.look("", nil)
	for ino, data := range d.steps[0].data {
		d.saved[ino], d.steps[0].saved[ino] = data, data
	}
	return d
}

func (d *disk) close() {
	for _, f := range d.held {
		f.Close()
	}
}

// look adds a step.
func (d *disk) look(op string, folder map[string]bool) {
	s := diskStep{op: op, names: map[string]uint64{}, data: map[uint64][]byte{}, saved: map[uint64][]byte{}, folder: folder}
	err := filepath.Walk(d.dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() {
			return err
		}
		rel, _ := filepath.Rel(d.dir, path)
		ino := inode(fi)
		if d.held[ino] == nil {
			if d.held[ino], err = os.Open(path); err != nil {
				return err
			}
		}
		s.names[rel] = ino
		return nil
	})
	if err != nil && d.err == nil {
		d.err = err
	}
	for ino, f := range d.held {
		data, err := io.ReadAll(io.NewSectionReader(f, 0, 1<<30))
		if err != nil && d.err == nil {
			d.err = err
		}
		s.data[ino] = data
		if k := len(d.steps) - 1; k >= 0 && bytes.Equal(data, d.steps[k].data[ino]) {
			s.data[ino] = d.steps[k].data[ino]
		}
	}
	for ino, data := range d.saved {
		s.saved[ino] = data
	}
	d.steps = append(d.steps, s)
}

// each follows the operations on the folder.
func (d *disk) each(op faultos.Op) {
	if op.Name != "sync" {
		d.look(op.Name+" "+filepath.Base(op.Path), nil)
		return
	}
	if f := d.held[op.Inode]; f != nil {
		d.saved[op.Inode] = d.steps[len(d.steps)-1].data[op.Inode]
		d.look("flush "+filepath.Base(op.Path), nil)
		return
	}
	d.look("flush of the folder", map[string]bool{filepath.Clean(op.Path): true})
}

type powerCase struct {
	faultCase
	Cuts []int `json:"cuts"` // where what was not flushed is cut, in 1/256 of it
	Fail int   `json:"fail"` // an operation of the commit that fails before the power does, from 1; negative: the flushing of a file
}

// lost gives what a file can contain after the power failed.
func (c powerCase) lost(s diskStep, ino uint64) [][]byte {
	data, saved := s.data[ino], s.saved[ino]
	out := [][]byte{data}
	if bytes.Equal(data, saved) {
		return out
	}
	out = append(out, saved)
	zeros := make([]byte, len(data))
	copy(zeros, saved)
	out = append(out, zeros)
	for _, cut := range c.Cuts {
		at := len(data) * cut / 256
		out = append(out, data[:at])
		some := make([]byte, len(data)) // the size was saved, and a part of the data
		copy(some, saved)
		copy(some[at:], data[at:])
		out = append(out, some)
	}
	return out
}

func (c powerCase) check(rec *Rec) error {
	rec.NonTrivial = len(c.Pre) > 0
	ops, err := c.follow(&faultos.Plan{At: -1}, rec)
	if err != nil || c.Fail == 0 {
		return err
	}
	// the same with an operation that fails, on anything but the folder: that one cannot be flushed everywhere
	some := []int{}
	for i, op := range ops {
		if op.Path != "" && (c.Fail > 0 || op.Name == "sync") {
			some = append(some, i)
		}
	}
	if len(some) == 0 {
		return nil
	}
	at := some[(max(c.Fail, -c.Fail)-1)%len(some)]
	_, err = c.follow(&faultos.Plan{At: at, Mode: "error"}, rec)
	if err != nil {
		return fmt.Errorf("operation %d (%s %s) of the commit fails, and then %w", at, ops[at].Name, filepath.Base(ops[at].Path), err)
	}
	return nil
}

// follow makes the commit and decides all power failures during and after it; the operations are returned, without path those on a folder.
func (c powerCase) follow(p *faultos.Plan, rec *Rec) ([]faultos.Op, error) {
	r, err := c.setup()
	if err != nil {
		return nil, err
	}
	defer r.clean()
	d := newDisk(r.dir)
	defer d.close()
	p.Each = d.each
	cerr, _ := guarded(p, func() error { return r.app.Commit(r.ctx) })
	if cerr != nil && p.Mode == "" {
		return nil, fmt.Errorf("without any fault, Commit: %v", cerr)
	}
	if d.err != nil {
		return nil, hfail("following the folder: %v", d.err)
	}
	if len(d.steps) < 2 && p.Mode == "" {
		return nil, hfail("no file operation was seen: the overlay is not in use")
	}
	if p.Mode != "" {
		rec.LabelIf(cerr != nil, "a failed commit, then a power failure")
		rec.LabelIf(cerr == nil, "a commit that tolerated a fault, then a power failure")
	}
	for i, op := range p.Ops {
		if fi, err := os.Stat(op.Path); err == nil && fi.IsDir() {
			p.Ops[i].Path = ""
		}
	}
	return p.Ops, c.decide(r, d, cerr == nil, rec)
}

func (c powerCase) decide(r *faultRun, d *disk, success bool, rec *Rec) error {
	old, new := c.models()
	var err error
	name := filepath.Clean(c.Cfg.name(0))
	folder := filepath.Dir(filepath.Join(d.dir, name))
	known := map[string]string{}
	from := 0 // the names are those of this step or of a later one
	for k, s := range d.steps {
		if s.folder[folder] {
			from = k
		}
		done := success && k+1 == len(d.steps)
		for j := from; j <= k; j++ {
			when := fmt.Sprintf("the power fails after operation %d (%s) of the commit, the names in the folder being those after operation %d (%s)", k, s.op, j, d.steps[j].op)
			if done {
				when = fmt.Sprintf("the power fails once the commit reported success, the names in the folder being those after operation %d (%s) of %d", j, d.steps[j].op, k)
			}
			ino, ok := d.steps[j].names[name]
			if !ok {
				return fmt.Errorf("%s: the database no longer exists", when)
			}
			for _, data := range c.lost(s, ino) {
				state, ok := known[string(data)]
				if !ok {
					rec.Evals++
					if state, err = c.judge(r, s, d.steps[j], name, data, &old, &new); err != nil {
						return fmt.Errorf("%s: %w (the database file has %d bytes, of the %d written)", when, err, len(data), len(s.data[ino]))
					}
					known[string(data)] = state
				}
				if done && state != "new" {
					return fmt.Errorf("%s: the database is as it was before the commit", when)
				}
				rec.Label("the state is the " + state + " one")
			}
			rec.LabelIf(!bytes.Equal(s.data[ino], s.saved[ino]), "the database was not flushed")
		}
		for ino := range s.data {
			rec.LabelIf(!bytes.Equal(s.data[ino], s.saved[ino]), "a file was not flushed")
		}
	}
	return nil
}

// judge tells which state a database is in after the power failed, and whether it can be used.
func (c powerCase) judge(r *faultRun, s, names diskStep, name string, data []byte, old, new *mDB) (string, error) {
	dir, clean := caseDir(c.Cfg)
	defer func() { releaseAll(dir); clean() }()
	put := func(rel string, data []byte) error {
		path := filepath.Join(dir, rel)
		if err := os.MkdirAll(filepath.Dir(path), 0777); err != nil {
			return hfail("%v", err)
		}
		if err := os.WriteFile(path, data, 0666); err != nil {
			return hfail("%v", err)
		}
		return nil
	}
	for rel, ino := range names.names {
		if rel != name {
			list := c.lost(s, ino)
			if err := put(rel, list[len(list)-1]); err != nil {
				return "", err
			}
		}
	}
	if err := put(name, data); err != nil {
		return "", err
	}
	after := &faultRun{dir: dir, before: r.before}
	state := ""
	if err := c.fresh(after, func(app applications.Application, ctx uint) (err error) {
		state, err = oneOfStates(app, ctx, old, new, r.before)
		return err
	}); err != nil {
		return "", err
	}
	if err := c.another(after, state, old, new, true); err != nil {
		return "", fmt.Errorf("the database is in the %s state, %w", state, err)
	}
	return state, nil
}

func init() {
	register(Prop{
		ID:       "D10",
		Rule:     "random databases (0-3 commits, made through the same or an earlier context) and pending contents, as for D04; the files of the folder and what was flushed of them are followed through the commit, and the power fails after each of its operations and after the commit: the names are those after any operation since the folder was last flushed, and what was not flushed of the file of the database is there, lost, cut, zeroed or there in part. The database that is left must be exactly the old or the new one, the new one once the commit reported success, and one more commit must give exactly what it should. In a quarter of the cases the same with an operation of the commit failing before the power does. Non-trivial: the database had earlier commits.",
		Quick:    24000,
		Thorough: 720000,
		Level:    "fault_enumeration",
		Assume:   []string{"the names in a folder reach the disk in the order they were changed", "what was flushed is not lost, and flushing a folder saves the names in it"},
	}, func(t *rapid.T) powerCase {
		c := powerCase{faultCase: drawFaultCase(t)}
		for i := 0; i < 3; i++ {
			c.Cuts = append(c.Cuts, uniform(t, "cut", 256))
		}
		if chance(t, "fails", 25) {
			c.Fail = oneOf(t, "fail", -1, -1, -2, 1+uniform(t, "op", 40))
		}
		return c
	}, powerCase.check)
}
