package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	interp "github.com/steve-care-software/rodkina/libs/interpreters/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	iapps "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	iatts "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	imods "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	iparams "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	pmods "github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	"pgregory.net/rapid"
)

// instr is one instruction of a generated program.
type instr struct {
	Kind  string  `json:"kind"` // module, app, in, out, var, const, sub, exec (assignments), attach, run
	Name  B       `json:"name,omitempty"`
	Ref   B       `json:"ref,omitempty"` // the module of an application, the variable or application used
	N     uint    `json:"n,omitempty"`   // the index of a module, the target of an attachment
	Bytes B       `json:"bytes,omitempty"`
	Sub   []instr `json:"sub,omitempty"`
}

type modSpec struct {
	Index uint `json:"index"`
	// Fail: the function fails when the text of its input has this length modulo 4 (below 4)
	Fail int `json:"fail"`
	// Scribble: the function writes in the input it received, after it was read
	Scribble bool `json:"scribble,omitempty"`
	// Nil: the function returns nothing
	Nil bool `json:"nil,omitempty"`
	// Count: the function tells how often it was called during the execution
	Count bool `json:"count,omitempty"`
	// Suffix: something the function adds to its text
	Suffix string `json:"suffix,omitempty"`
}

type interpCase struct {
	Fold    bool      `json:"fold,omitempty"` // names differing only by case are the same name
	Names   int       `json:"names,omitempty"`
	Wide    bool      `json:"wide,omitempty"` // many modules, applications, parameters and inputs
	Huge    string    `json:"huge,omitempty"`
	Modules []modSpec `json:"modules"`
	Program []instr   `json:"program"`
	Inputs  [][]B     `json:"inputs"` // one execution for each
}

// ---- what the program should do ----

type rValue struct {
	kind  string // input, const, prog, exec
	input uint
	bytes B
	prog  *rProgram
	app   *rApp
}

type rAtt struct {
	local uint
	value *rValue
}

type rApp struct {
	mod  modSpec
	atts []rAtt
}

type rIns struct {
	value *rValue
	run   *rApp
}

type rProgram struct {
	ins     []rIns
	outputs []int
}

func (c *interpCase) norm(b B) string {
	if c.Fold {
		return strings.ToLower(string(b))
	}
	return string(b)
}

func (c *interpCase) module(index uint) (modSpec, bool) {
	found, ok := modSpec{}, false
	for _, m := range c.Modules {
		if m.Index == index {
			found, ok = m, true
		}
	}
	return found, ok
}

type rParam struct {
	input bool
	index uint
}

func (c *interpCase) refCompile(list []instr) (*rProgram, error) {
	mods := map[string]modSpec{}
	apps := map[string]*rApp{}
	params := map[string]rParam{}
	values := map[string]*rValue{}
	inputs := uint(0)
	out := &rProgram{}
	for i, ins := range list {
		name, ref := c.norm(ins.Name), c.norm(ins.Ref)
		fail := func(format string, args ...any) error {
			return fmt.Errorf("instruction %d: %s", i, fmt.Sprintf(format, args...))
		}
		var assigned *rValue
		switch ins.Kind {
		case "module":
			mod, ok := c.module(ins.N)
			if !ok {
				return nil, fail("no module %d", ins.N)
			}
			if _, ok := mods[name]; ok {
				return nil, fail("module %q declared twice", name)
			}
			mods[name] = mod
		case "app":
			if _, ok := apps[name]; ok {
				return nil, fail("application %q declared twice", name)
			}
			mod, ok := mods[ref]
			if !ok {
				return nil, fail("no module %q", ref)
			}
			apps[name] = &rApp{mod: mod}
		case "in", "out":
			if _, ok := params[name]; ok {
				return nil, fail("parameter %q declared twice", name)
			}
			params[name] = rParam{input: ins.Kind == "in", index: inputs}
			if ins.Kind == "in" {
				inputs++
			}
		case "var":
			p, ok := params[ref]
			if !ok || !p.input {
				return nil, fail("%q is not an input", ref)
			}
			assigned = &rValue{kind: "input", input: p.index}
		case "const":
			assigned = &rValue{kind: "const", bytes: ins.Bytes}
		case "sub":
			prog, err := c.refCompile(ins.Sub)
			if err != nil {
				return nil, fail("%s", err.Error())
			}
			assigned = &rValue{kind: "prog", prog: prog}
		case "exec":
			a, ok := apps[ref]
			if !ok {
				return nil, fail("no application %q", ref)
			}
			assigned = &rValue{kind: "exec", app: a}
		case "attach":
			v, ok := values[name]
			if !ok {
				p, ok := params[name]
				if !ok || !p.input {
					return nil, fail("%q has no value", name)
				}
				v = &rValue{kind: "input", input: p.index}
			}
			a, ok := apps[ref]
			if !ok {
				return nil, fail("no application %q", ref)
			}
			next := &rApp{mod: a.mod, atts: append([]rAtt{}, a.atts...)}
			next.atts = append(next.atts, rAtt{local: ins.N, value: v})
			apps[ref] = next
		case "run":
			a, ok := apps[name]
			if !ok {
				return nil, fail("no application %q", name)
			}
			out.ins = append(out.ins, rIns{run: a})
		default:
			panic(hfail("kind %q", ins.Kind))
		}
		if assigned != nil {
			values[name] = assigned
			if p, ok := params[name]; ok && !p.input {
				out.outputs = append(out.outputs, len(out.ins))
			}
			out.ins = append(out.ins, rIns{value: assigned})
		}
	}
	if len(out.ins) == 0 {
		return nil, fmt.Errorf("nothing to execute")
	}
	return out, nil
}

// modFunc is the function of a module: a text made of everything it received.
// With Count, the text also has how often the function was called during the execution.
func modFunc(m modSpec, input map[uint]any, nth int) (any, error) {
	keys := []int{}
	for k := range input {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	text := fmt.Sprintf("m%d(", m.Index)
	for _, k := range keys {
		text += fmt.Sprintf("%d=%s;", k, showValue(input[uint(k)]))
	}
	text += ")" + m.Suffix
	if m.Count {
		text += fmt.Sprintf("#%d", nth)
	}
	if m.Scribble {
		for k := range input {
			delete(input, k)
		}
		input[77] = "scribbled"
	}
	if m.Fail < 4 && len(text)%4 == m.Fail {
		return "partial", fmt.Errorf("module %d failed", m.Index)
	}
	if m.Nil {
		return nil, nil
	}
	return text, nil
}

func showValue(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return x
	case []byte:
		return fmt.Sprintf("b%q", x)
	case B:
		return fmt.Sprintf("in%q", string(x))
	case []any:
		out := "["
		for _, e := range x {
			out += showValue(e) + ","
		}
		return out + "]"
	}
	return fmt.Sprintf("?%T:%v", v, v)
}

// callLog is what happens during an execution of a program.
type callLog struct {
	calls  []string // the calls of modules, in order
	counts map[uint]int
	steps  int
	limit  int
}

func (l *callLog) called(m modSpec, text string) int {
	l.calls = append(l.calls, text)
	if l.counts == nil {
		l.counts = map[uint]int{}
	}
	l.counts[m.Index]++
	return l.counts[m.Index]
}

func (c *interpCase) refRun(p *rProgram, input []any, log *callLog) ([]any, error) {
	values := map[int]any{}
	for i, ins := range p.ins {
		if ins.run != nil {
			if _, err := c.refCall(ins.run, input, log); err != nil {
				return nil, err
			}
			continue
		}
		v, err := c.refValue(ins.value, input, log)
		if err != nil {
			return nil, err
		}
		values[i] = v
	}
	out := []any{}
	for _, i := range p.outputs {
		out = append(out, values[i])
	}
	return out, nil
}

func (c *interpCase) refValue(v *rValue, input []any, log *callLog) (any, error) {
	log.steps++
	if log.steps > log.limit {
		panic(tooManySteps{})
	}
	switch v.kind {
	case "input":
		if v.input >= uint(len(input)) {
			return nil, fmt.Errorf("no input %d", v.input)
		}
		return input[v.input], nil
	case "const":
		return []byte(v.bytes), nil
	case "prog":
		return c.refRun(v.prog, input, log)
	}
	return c.refCall(v.app, input, log)
}

func (c *interpCase) refCall(a *rApp, input []any, log *callLog) (any, error) {
	params := map[uint]any{}
	for _, att := range a.atts {
		v, err := c.refValue(att.value, input, log)
		if err != nil {
			return nil, err
		}
		params[att.local] = v
	}
	return modFunc(a.mod, params, log.called(a.mod, callText(a.mod, params)))
}

func callText(m modSpec, params map[uint]any) string {
	copied := map[uint]any{}
	for k, v := range params {
		copied[k] = v
	}
	m.Fail, m.Scribble, m.Nil, m.Count = 9, false, false, false
	out, _ := modFunc(m, copied, 0)
	return out.(string)
}

// ---- the real thing ----

func buildInstructions(list []instr) instructions.Instructions {
	out := []instructions.Instruction{}
	nonNil := func(b B) []byte {
		if b == nil {
			return []byte{}
		}
		return b
	}
	for _, ins := range list {
		name, ref := nonNil(ins.Name), nonNil(ins.Ref)
		b := instructions.NewInstructionBuilder().Create()
		assign := func(vb instructions.ValueBuilder) {
			v := must(vb.Now())
			b.WithAssignment(must(instructions.NewAssignmentBuilder().Create().WithVariable(name).WithValue(v).Now()))
		}
		vb := instructions.NewValueBuilder().Create()
		switch ins.Kind {
		case "module":
			b.WithModule(must(imods.NewBuilder().Create().WithIndex(ins.N).WithName(name).Now()))
		case "app":
			b.WithApplication(must(iapps.NewBuilder().Create().WithModule(ref).WithName(name).Now()))
		case "in":
			b.WithParameter(must(iparams.NewBuilder().Create().WithName(name).IsInput().Now()))
		case "out":
			b.WithParameter(must(iparams.NewBuilder().Create().WithName(name).Now()))
		case "var":
			assign(vb.WithVariable(ref))
		case "const":
			assign(vb.WithConstant(nonNil(ins.Bytes)))
		case "sub":
			assign(vb.WithInstructions(buildInstructions(ins.Sub)))
		case "exec":
			assign(vb.WithExecution(ref))
		case "attach":
			v := must(iatts.NewVariableBuilder().Create().WithCurrent(name).WithTarget(ins.N).Now())
			b.WithAttachment(must(iatts.NewBuilder().Create().WithVariable(v).WithApplication(ref).Now()))
		case "run":
			b.WithExecution(name)
		}
		out = append(out, must(b.Now()))
	}
	return must(instructions.NewBuilder().Create().WithList(out).Now())
}

type realLog struct {
	mu sync.Mutex
	callLog
}

func (c *interpCase) build(log *realLog) (interp.Application, pmods.Modules) {
	return interp.NewApplication(func(name []byte) string { return c.norm(B(name)) }), c.modules(log)
}

func (c *interpCase) modules(log *realLog) pmods.Modules {
	list := []pmods.Module{}
	for _, m := range c.Modules {
		m := m
		list = append(list, must(pmods.NewModuleBuilder().Create().WithIndex(m.Index).WithFunc(func(input map[uint]any) (any, error) {
			log.mu.Lock()
			nth := log.called(m, callText(m, input))
			log.mu.Unlock()
			return modFunc(m, input, nth)
		}).Now()))
	}
	return must(pmods.NewBuilder().Create().WithList(list).Now())
}

func (c *interpCase) refAll(rec *Rec) (prog *rProgram, compileErr error, outs [][]any, errs []error, logs []callLog, enough bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooManySteps); ok {
				enough = false
				return
			}
			panic(r)
		}
	}()
	prog, compileErr = c.refCompile(c.Program)
	if compileErr != nil {
		return prog, compileErr, nil, nil, nil, true
	}
	for _, in := range c.Inputs {
		log := callLog{limit: 4000}
		if c.Huge != "" {
			log.limit = 40000
		}
		out, err := c.refRun(prog, asInput(in), &log)
		outs, errs, logs = append(outs, out), append(errs, err), append(logs, log)
	}
	return prog, nil, outs, errs, logs, true
}

func asInput(in []B) []any {
	out := []any{}
	for _, b := range in {
		out = append(out, b)
	}
	return out
}

func sameRun(got []any, err error, want []any, wantErr error) error {
	if (err != nil) != (wantErr != nil) {
		return fmt.Errorf("expected error %v, got %v", wantErr, err)
	}
	if err != nil {
		if got != nil {
			return fmt.Errorf("an error and a result: %s", showValue(got))
		}
		return nil
	}
	if a, b := showValue(want), showValue(got); a != b {
		return fmt.Errorf("expected %s, got %s", a, b)
	}
	return nil
}

func hasKind(list []instr, kind string) bool {
	for _, i := range list {
		if i.Kind == kind || hasKind(i.Sub, kind) {
			return true
		}
	}
	return false
}

func checkInterp(c interpCase, rec *Rec, full bool) error {
	_, compileErr, outs, errs, logs, enough := c.refAll(rec)
	if !enough {
		rec.Label("discarded: too many steps")
		return nil
	}
	rec.LabelIf(c.Huge != "", "huge: "+c.Huge)
	log := &realLog{}
	app, mods := c.build(log)
	ins := buildInstructions(c.Program)
	prog, err := app.Compile(mods, ins)
	rec.Evals++
	if (err != nil) != (compileErr != nil) {
		return fmt.Errorf("compile: expected error %v, got %v", compileErr, err)
	}
	if len(log.calls) > 0 {
		return fmt.Errorf("compiling called a module: %v", log.calls)
	}
	if err != nil {
		if prog != nil {
			return fmt.Errorf("compile: an error and a program")
		}
		rec.Label("compile error")
		return nil
	}
	rec.Label("compiled")
	for i, in := range c.Inputs {
		log.callLog = callLog{}
		input := asInput(in)
		got, err := app.Execute(input, prog)
		rec.Evals++
		if err := sameRun(got, err, outs[i], errs[i]); err != nil {
			return fmt.Errorf("execution %d: %w", i, err)
		}
		if a, b := showValue(asInput(in)), showValue(input); a != b {
			return fmt.Errorf("execution %d: the input was changed: %s", i, b)
		}
		// the same calls were made, in the same order
		for at := 0; at < len(logs[i].calls) || at < len(log.calls); at++ {
			if at >= len(logs[i].calls) || at >= len(log.calls) || logs[i].calls[at] != log.calls[at] {
				return fmt.Errorf("execution %d: the calls of the modules differ from the %d-th: expected %q, got %q", i, at, logs[i].calls, log.calls)
			}
		}
		rec.LabelIf(err != nil, "execution error")
		rec.LabelIf(len(outs[i]) > 0, "outputs")
		rec.LabelIf(len(logs[i].calls) > 0, "calls")
		rec.LabelIf(len(logs[i].calls) > 1, "several calls")
	}
	if !full {
		return nil
	}
	// the same instructions with modules that do something else, by the same application
	other := c
	other.Modules = nil
	for _, m := range c.Modules {
		m.Suffix = "other"
		other.Modules = append(other.Modules, m)
	}
	otherLog := &realLog{}
	otherProg, err := app.Compile(other.modules(otherLog), ins)
	if err != nil {
		return fmt.Errorf("compiling the same instructions with other modules: %w", err)
	}
	_, _, otherOuts, otherErrs, _, _ := other.refAll(rec)
	again, err := app.Compile(mods, ins)
	if err != nil {
		return fmt.Errorf("compiling the same instructions again: %w", err)
	}
	for i, in := range c.Inputs {
		for _, one := range []struct {
			what string
			prog programs.Program
			log  *realLog
			outs [][]any
			errs []error
		}{
			{"with other modules", otherProg, otherLog, otherOuts, otherErrs},
			{"compiled again", again, log, outs, errs},
			{"after another program", prog, log, outs, errs},
		} {
			one.log.callLog = callLog{}
			got, err := app.Execute(asInput(in), one.prog)
			rec.Evals++
			if err := sameRun(got, err, one.outs[i], one.errs[i]); err != nil {
				return fmt.Errorf("execution %d %s: %w", i, one.what, err)
			}
		}
	}
	// together
	for _, m := range c.Modules {
		if m.Count {
			return nil // its results depend on the order of the calls
		}
	}
	var wg sync.WaitGroup
	list := []programs.Program{prog, again, otherProg}
	problems := make([]error, len(c.Inputs)*len(list))
	for round, p := range list {
		for i := range c.Inputs {
			wg.Add(1)
			go func(round, i int, p programs.Program) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						problems[round*len(c.Inputs)+i] = fmt.Errorf("panic: %v", r)
					}
				}()
				got, err := app.Execute(asInput(c.Inputs[i]), p)
				wantOuts, wantErrs := outs, errs
				if round == 2 {
					wantOuts, wantErrs = otherOuts, otherErrs
				}
				if err := sameRun(got, err, wantOuts[i], wantErrs[i]); err != nil {
					problems[round*len(c.Inputs)+i] = err
				}
			}(round, i, p)
		}
	}
	wg.Wait()
	for i, p := range problems {
		if p != nil {
			return fmt.Errorf("concurrent execution %d: %w", i, p)
		}
	}
	rec.Evals += len(problems)
	return nil
}

// ---- generation ----

// scope follows what is declared while a program is drawn.
type scope struct {
	mods, apps, ins, outs, vals, params []string
}

// nameSets are the names of the programs: letters, or names that contain each other or are not text.
var nameSets = [][]string{
	{"a", "b", "c", "d", "e"},
	{"a", "ab", "abc", " a", "b"},
	{"a\x00", "a", "\xff", "\xfe", "a\x00\x00"},
	{"0", "00", "1", "-1", "61"},
	wideNames(),
}

// wideNames are the names of large programs.
func wideNames() []string {
	out := []string{strings.Repeat("long", 30), strings.Repeat("long", 30) + "er", strings.Repeat("long", 70)}
	for i := 0; len(out) < 40; i++ {
		out = append(out, fmt.Sprintf("name%d", i))
	}
	return out
}

// inputs draws a list of inputs.
func (c *interpCase) drawInputs(t *rapid.T) []B {
	out := []B{}
	n := intIn(t, "inputs", 0, 5)
	if c.Wide {
		n = intIn(t, "inputs", 0, 40)
	}
	for ; n > 0; n-- {
		out = append(out, B(rapid.SliceOfN(rapid.Byte(), 0, 2).Draw(t, "input")))
	}
	return out
}

func drawProgram(t *rapid.T, c *interpCase, depth, badPercent int) []instr {
	names := []string{"a", "b", "c", "d", "e"}
	if c.Fold {
		names = []string{"a", "A", "b", "B", "c"}
	} else {
		names = nameSets[c.Names]
	}
	s := &scope{}
	out := []instr{}
	bad := func() bool { return chance(t, "bad", badPercent) }
	has := func(list []string, name string) bool {
		for _, o := range list {
			if c.norm(B(o)) == c.norm(B(name)) {
				return true
			}
		}
		return false
	}
	// fresh picks a name that is not in the list; with bad, any name
	fresh := func(label string, list []string) (string, bool) {
		any := bad()
		free := []string{}
		for _, n := range names {
			if any || !has(list, n) {
				free = append(free, n)
			}
		}
		if len(free) == 0 {
			return "", false
		}
		return oneOf(t, label, free...), true
	}
	known := func(label string, list []string) (string, bool) {
		if bad() {
			return oneOf(t, label, names...), true
		}
		if len(list) == 0 {
			return "", false
		}
		n := oneOf(t, label, list...)
		if c.Fold && chance(t, "case", 30) {
			n = strings.ToUpper(n)
		}
		return n, true
	}
	addModule := func() {
		name, ok := fresh("name", s.mods)
		if !ok {
			return
		}
		index := oneOf(t, "module", c.Modules...).Index
		if bad() {
			index = uint(intIn(t, "module", 0, 4))
			if c.Modules[0].Index > 4 { // the same to some narrower type
				index = uint(oneOf(t, "narrow", uint64(uint8(c.Modules[0].Index)), uint64(uint16(c.Modules[0].Index)), uint64(uint32(c.Modules[0].Index)), uint64(c.Modules[0].Index)+1<<32))
			}
		}
		out = append(out, instr{Kind: "module", Name: B(name), N: index})
		s.mods = append(s.mods, name)
	}
	addApp := func() {
		name, ok := fresh("name", s.apps)
		ref, ok2 := known("ref", s.mods)
		if !ok || !ok2 {
			return
		}
		out = append(out, instr{Kind: "app", Name: B(name), Ref: B(ref)})
		s.apps = append(s.apps, name)
	}
	addParam := func() {
		name, ok := fresh("name", s.params)
		if !ok {
			return
		}
		kind := oneOf(t, "kind", "in", "out")
		out = append(out, instr{Kind: kind, Name: B(name)})
		s.params = append(s.params, name)
		if kind == "in" {
			s.ins = append(s.ins, name)
		} else {
			s.outs = append(s.outs, name)
		}
	}
	assignee := func() string {
		if len(s.outs) > 0 && chance(t, "to output", 60) {
			return oneOf(t, "out", s.outs...)
		}
		return oneOf(t, "variable", names...)
	}
	length := intIn(t, "len", 1, 16)
	if depth > 0 {
		length = intIn(t, "len", 1, 6)
	} else if rare(t, "long", 300) {
		length = oneOf(t, "len", 70, 140, 300)
	}
	if c.Wide && depth == 0 && chance(t, "large", 80) {
		length = intIn(t, "len", 20, 120)
	}
	mods, apps, params := 2, 3, 3
	if c.Wide && chance(t, "large", 70) {
		mods, apps, params = 16, 24, 40
	}
	if chance(t, "prelude", 85) {
		for i := intIn(t, "mods", 1, mods); i > 0; i-- {
			addModule()
		}
		for i := intIn(t, "apps", 1, apps); i > 0; i-- {
			addApp()
		}
		for i := intIn(t, "params", 0, params); i > 0; i-- {
			addParam()
		}
	}
	for i := 0; i < length; i++ {
		switch uniform(t, "op", 14) {
		case 0:
			addModule()
		case 1:
			addApp()
		case 2:
			addParam()
		case 3, 4:
			ref, ok := known("ref", s.ins)
			if !ok || !bad() && has(s.vals, ref) {
				continue // an input that was assigned over is left alone
			}
			name := assignee()
			out = append(out, instr{Kind: "var", Name: B(name), Ref: B(ref)})
			s.vals = append(s.vals, name)
		case 5, 6:
			name := assignee()
			out = append(out, instr{Kind: "const", Name: B(name), Bytes: drawConst(t, c.Wide)})
			s.vals = append(s.vals, name)
		case 7:
			if depth >= 2 && !c.Wide || depth >= 6 {
				continue
			}
			name := assignee()
			sub := drawProgram(t, c, depth+1, badPercent)
			if len(sub) == 0 {
				continue
			}
			out = append(out, instr{Kind: "sub", Name: B(name), Sub: sub})
			s.vals = append(s.vals, name)
		case 8, 9:
			ref, ok := known("ref", s.apps)
			if !ok {
				continue
			}
			name := assignee()
			out = append(out, instr{Kind: "exec", Name: B(name), Ref: B(ref)})
			s.vals = append(s.vals, name)
		case 10, 11, 12:
			from := append(append([]string{}, s.vals...), s.ins...)
			name, ok := known("name", from)
			ref, ok2 := known("ref", s.apps)
			if !ok || !ok2 {
				continue
			}
			target := uint(intIn(t, "target", 0, 2))
			if c.Wide && chance(t, "wide target", 50) {
				target = uint(intIn(t, "target", 0, 40))
			}
			if rare(t, "big target", 30) {
				target = oneOf(t, "target", uint(255), 256, 257, 65536, 1<<32, 1<<32+1, 1<<62)
			}
			out = append(out, instr{Kind: "attach", Name: B(name), Ref: B(ref), N: target})
		case 13:
			name, ok := known("name", s.apps)
			if !ok {
				continue
			}
			out = append(out, instr{Kind: "run", Name: B(name)})
		}
	}
	return out
}

// drawConst draws the bytes of a constant, rarely many.
func drawConst(t *rapid.T, wide bool) B {
	if wide && chance(t, "long const", 20) {
		return expand(uniform(t, "seed", 100), longLength(t, "length"))
	}
	return B(rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "const"))
}

// drawHugeProgram draws a simple program of which one dimension is large.
func drawHugeProgram(t *rapid.T, wrong bool) interpCase {
	c := interpCase{Huge: oneOf(t, "kind", "instructions", "outputs", "inputs", "modules", "applications", "attachments", "levels", "calls", "runs", "names", "constant")}
	n := oneOf(t, "how many", 64, 127, 129, 255, 256, 257, 300, 513, 1030)
	nm := func(kind string, i int) B { return B(fmt.Sprintf("%s%d", kind, i)) }
	text := func(i int) B { return B(fmt.Sprintf("c%d", i)) }
	add := func(list ...instr) { c.Program = append(c.Program, list...) }
	out := B("out")
	c.Modules = []modSpec{{Index: 1, Fail: 9, Count: chance(t, "count", 25)}}
	module, app := instr{Kind: "module", Name: B("m"), N: 1}, instr{Kind: "app", Name: B("a"), Ref: B("m")}
	output := instr{Kind: "out", Name: out}
	input := []B{B("x"), B("y")}
	bad := func(b B) B {
		if wrong {
			return append(append(B{}, b...), "missing"...)
		}
		return b
	}
	switch c.Huge {
	case "instructions": // so many assignments
		n *= oneOf(t, "times", 1, 5)
		add(output)
		for i := 0; i < n; i++ {
			add(instr{Kind: "const", Name: nm("v", i%7), Bytes: text(i)})
		}
		add(instr{Kind: "const", Name: out, Bytes: B("last")}, module, app, instr{Kind: "attach", Name: bad(nm("v", n%7)), Ref: B("a"), N: 1}, instr{Kind: "exec", Name: out, Ref: B("a")})
	case "outputs": // so many outputs, or the same one so often
		same := chance(t, "same", 30)
		add(module, app)
		for i := 0; i < n; i++ {
			if !same || i == 0 {
				add(instr{Kind: "out", Name: nm("o", i)})
			}
		}
		for i := 0; i < n; i++ {
			at := i
			if same {
				at = 0
			}
			add(instr{Kind: "const", Name: nm("o", at), Bytes: text(i)})
		}
		add(instr{Kind: "exec", Name: B("last"), Ref: bad(B("a"))})
	case "inputs": // so many inputs
		add(output)
		for i := 0; i < n; i++ {
			add(instr{Kind: "in", Name: nm("i", i)})
		}
		add(module, app, instr{Kind: "attach", Name: nm("i", n-1), Ref: B("a"), N: 3}, instr{Kind: "exec", Name: out, Ref: B("a")})
		for k := 0; k < 4; k++ {
			add(instr{Kind: "var", Name: out, Ref: nm("i", n-1-uniform(t, "which", n))})
		}
		input = nil
		for i := 0; i < n; i++ {
			input = append(input, text(i))
		}
		if wrong {
			input = input[:n-1]
		}
	case "modules", "applications": // so many modules, or applications of a module
		add(output, module)
		for i := 0; i < n; i++ {
			ref := B("m")
			if c.Huge == "modules" {
				ref = nm("m", i)
				c.Modules = append(c.Modules, modSpec{Index: uint(i + 2), Fail: 9})
				add(instr{Kind: "module", Name: ref, N: uint(i + 2)})
			}
			add(instr{Kind: "app", Name: nm("a", i), Ref: ref}, instr{Kind: "const", Name: B("v"), Bytes: text(i)}, instr{Kind: "attach", Name: B("v"), Ref: nm("a", i), N: uint(i)})
		}
		for k := 0; k < 4; k++ {
			at := nm("a", n-1-uniform(t, "which", n))
			add(instr{Kind: "run", Name: at}, instr{Kind: "exec", Name: out, Ref: at})
		}
		add(instr{Kind: "run", Name: bad(nm("a", n-1))})
	case "attachments": // so many attachments, of other targets or of a few
		targets := oneOf(t, "targets", 2*n, 2*n, 3)
		add(output, module, app)
		for i := 0; i < n; i++ {
			add(instr{Kind: "const", Name: B("v"), Bytes: text(i)}, instr{Kind: "attach", Name: B("v"), Ref: B("a"), N: uint(i % targets)})
		}
		add(instr{Kind: "exec", Name: out, Ref: B("a")}, instr{Kind: "run", Name: bad(B("a"))})
	case "levels": // programs in programs in programs
		sub := []instr{output, module, app, {Kind: "in", Name: B("i")}, {Kind: "attach", Name: B("i"), Ref: B("a"), N: 1}, {Kind: "exec", Name: out, Ref: bad(B("a"))}}
		for i := 0; i < n; i++ {
			sub = []instr{output, {Kind: "sub", Name: out, Sub: sub}}
		}
		add(sub...)
	case "calls": // an application that needs another, that needs another
		add(output, module, instr{Kind: "in", Name: B("v")})
		n = min(n, 129)
		for i := 0; i < n; i++ {
			add(instr{Kind: "app", Name: nm("a", i), Ref: B("m")}, instr{Kind: "attach", Name: B("v"), Ref: nm("a", i), N: uint(i % 3)}, instr{Kind: "exec", Name: B("v"), Ref: nm("a", i)})
		}
		add(instr{Kind: "exec", Name: out, Ref: bad(nm("a", n-1))})
	case "runs": // the same application so often
		add(output, module, app)
		for i := 0; i < n; i++ {
			add(instr{Kind: "run", Name: B("a")})
		}
		add(instr{Kind: "exec", Name: out, Ref: bad(B("a"))})
	case "names": // names so long that differ at their end
		length := oneOf(t, "length", 255, 256, 257, 1030, 4097, 65535, 65536, 66000)
		long := func(s string) B { return B(strings.Repeat("n", length) + s) }
		add(instr{Kind: "module", Name: long("m"), N: 1}, instr{Kind: "app", Name: long("a"), Ref: long("m")}, instr{Kind: "app", Name: long("b"), Ref: long("m")},
			instr{Kind: "in", Name: long("i")}, instr{Kind: "in", Name: long("j")}, instr{Kind: "out", Name: long("o")}, instr{Kind: "out", Name: long("p")},
			instr{Kind: "attach", Name: long("j"), Ref: long("b"), N: 1}, instr{Kind: "exec", Name: long("p"), Ref: long("b")}, instr{Kind: "var", Name: long("o"), Ref: bad(long("i"))}, instr{Kind: "run", Name: long("a")})
	case "constant": // a constant so long
		length := oneOf(t, "length", 255, 256, 257, 1030, 4097, 65535, 65536, 66000)
		add(output, module, app, instr{Kind: "const", Name: out, Bytes: expand(uniform(t, "seed", 100), length)}, instr{Kind: "attach", Name: out, Ref: B("a"), N: 1}, instr{Kind: "exec", Name: out, Ref: bad(B("a"))})
	}
	c.Inputs = [][]B{input, input, append(append([]B{}, input...), B("more"))}
	return c
}

func drawInterp(badPercent, failPercent, maxInputs int) func(t *rapid.T) interpCase {
	return func(t *rapid.T) interpCase {
		if rare(t, "huge", 1000) {
			return drawHugeProgram(t, chance(t, "wrong", 5*badPercent))
		}
		c := interpCase{Fold: chance(t, "fold", 20)}
		if chance(t, "names", 30) {
			c.Names = uniform(t, "names", len(nameSets))
		}
		modules, indexes := 3, 4
		if rare(t, "wide", 60) {
			c.Wide, c.Names, c.Fold = true, len(nameSets)-1, false
			modules, indexes = 30, 60
		}
		for i, n := 0, intIn(t, "modules", 1, modules); i < n; i++ {
			m := modSpec{Index: uint(intIn(t, "index", 0, indexes)), Fail: 9, Scribble: chance(t, "scribble", 30), Nil: chance(t, "nil", 10), Count: chance(t, "count", 25)}
			if chance(t, "fails", failPercent) {
				m.Fail = intIn(t, "fail", 0, 3)
			}
			if rare(t, "big index", 20) {
				m.Index = oneOf(t, "index", uint(255), 256, 257, 65536+1, 1<<32, 1<<32+1, 1<<62)
			}
			taken := false
			for _, o := range c.Modules {
				taken = taken || o.Index == m.Index
			}
			if !taken {
				c.Modules = append(c.Modules, m)
			}
		}
		c.Program = drawProgram(t, &c, 0, badPercent)
		if len(c.Program) == 0 {
			c.Program = []instr{{Kind: "const", Name: B("a"), Bytes: B("x")}}
		}
		for i, n := 0, intIn(t, "executions", 1, maxInputs); i < n; i++ {
			c.Inputs = append(c.Inputs, c.drawInputs(t))
		}
		return c
	}
}

func init() {
	pure := []string{"the functions of the modules do not change the bytes of the constants they receive", "an input parameter that was assigned a value is not read again by an assignment"}
	register(Prop{
		ID:       "I01",
		Rule:     "random programs of 1-25 instructions over 1-3 modules (declarations, parameters, assignments of inputs, constants, executions and sub-programs two levels deep, attachments, executions), names compared exactly or without case, executed on 1-3 lists of 0-5 inputs, one in 60 of them large (up to 120 instructions, 30 modules, 24 applications, 40 parameters, inputs and targets, six levels of sub-programs, names of hundreds of bytes), one in 1000 with one huge dimension (1030 instructions, outputs, inputs, modules, applications, attachments, executions or levels of sub-programs, a chain of 129 applications that need each other, names and constants of 66000 bytes); the outputs, and the calls made by the instructions, in order, compared with an independent interpreter. Non-trivial: the program has outputs and calls a module with attachments.",
		Quick:    750000,
		Thorough: 22500000,
		Assume:   pure,
	}, drawInterp(0, 0, 3), func(c interpCase, rec *Rec) error {
		err := checkInterp(c, rec, false)
		rec.NonTrivial = rec.Labels["outputs"] > 0 && rec.Labels["calls"] > 0 && hasKind(c.Program, "attach")
		return err
	})
	register(Prop{
		ID:       "I02",
		Rule:     "as I01, huge programs included, with 6% of the names and indexes drawn without looking at what is declared (unknown modules, applications and variables, repeated declarations, outputs read), and modules that fail on some inputs; compiling and executing give an error exactly when the independent interpreter does, and never a partial result. Non-trivial: an error.",
		Quick:    750000,
		Thorough: 22500000,
		Assume:   pure,
	}, drawInterp(6, 40, 2), func(c interpCase, rec *Rec) error {
		err := checkInterp(c, rec, false)
		rec.NonTrivial = rec.Labels["compile error"]+rec.Labels["execution error"] > 0
		return err
	})
	register(Prop{
		ID:       "I03",
		Rule:     "programs as in I01, huge ones included, with failing modules, executed one after another on 2-4 lists of inputs, then all at once from goroutines on the same program and on the same instructions compiled a second time; every execution gives what the independent interpreter gives for its inputs alone. Non-trivial: two executions with different results.",
		Quick:    360000,
		Thorough: 10800000,
		Assume:   pure,
	}, func(t *rapid.T) interpCase {
		c := drawInterp(0, 15, 3)(t)
		c.Inputs = append(c.Inputs, c.drawInputs(t))
		return c
	}, func(c interpCase, rec *Rec) error {
		err := checkInterp(c, rec, true)
		if err == nil {
			_, _, outs, errs, _, _ := c.refAll(rec)
			seen := map[string]bool{}
			for i := range outs {
				seen[fmt.Sprint(errs[i] != nil, showValue(outs[i]))] = true
			}
			rec.NonTrivial = len(seen) > 1
		}
		return err
	})
}
