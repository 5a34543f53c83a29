from lib import *
A=M+'libs/interpreters/'
INTH='''package main

import (
	"fmt"
	"os"

	"'''+A+'''applications"
	"'''+A+'''domain/instructions"
	iapps "'''+A+'''domain/instructions/applications"
	"'''+A+'''domain/instructions/attachments"
	imods "'''+A+'''domain/instructions/modules"
	"'''+A+'''domain/instructions/parameters"
	"'''+A+'''domain/programs"
	"'''+A+'''domain/programs/modules"
)

func ok[V any](v V, err error) V {
	if err != nil {
		fail("unexpected error: %s", err.Error())
	}
	return v
}

func fail(f string, a ...interface{}) {
	fmt.Printf("FAILED: "+f+"\\n", a...)
	os.Exit(1)
}

func one() instructions.InstructionBuilder { return instructions.NewInstructionBuilder().Create() }

func module(name string, index uint) instructions.Instruction {
	return ok(one().WithModule(ok(imods.NewBuilder().Create().WithIndex(index).WithName([]byte(name)).Now())).Now())
}

func app(name string, module string) instructions.Instruction {
	return ok(one().WithApplication(ok(iapps.NewBuilder().Create().WithModule([]byte(module)).WithName([]byte(name)).Now())).Now())
}

func in(name string) instructions.Instruction {
	return ok(one().WithParameter(ok(parameters.NewBuilder().Create().WithName([]byte(name)).IsInput().Now())).Now())
}

func out(name string) instructions.Instruction {
	return ok(one().WithParameter(ok(parameters.NewBuilder().Create().WithName([]byte(name)).Now())).Now())
}

func assign(name string, b instructions.ValueBuilder) instructions.Instruction {
	return ok(one().WithAssignment(ok(instructions.NewAssignmentBuilder().Create().WithVariable([]byte(name)).WithValue(ok(b.Now())).Now())).Now())
}

func constant(name string, value string) instructions.Instruction {
	return assign(name, instructions.NewValueBuilder().Create().WithConstant([]byte(value)))
}

func variable(name string, from string) instructions.Instruction {
	return assign(name, instructions.NewValueBuilder().Create().WithVariable([]byte(from)))
}

func call(name string, app string) instructions.Instruction {
	return assign(name, instructions.NewValueBuilder().Create().WithExecution([]byte(app)))
}

func sub(name string, list ...instructions.Instruction) instructions.Instruction {
	return assign(name, instructions.NewValueBuilder().Create().WithInstructions(many(list...)))
}

func run(app string) instructions.Instruction {
	return ok(one().WithExecution([]byte(app)).Now())
}

func attach(variable string, app string, target uint) instructions.Instruction {
	v := ok(attachments.NewVariableBuilder().Create().WithCurrent([]byte(variable)).WithTarget(target).Now())
	return ok(one().WithAttachment(ok(attachments.NewBuilder().Create().WithVariable(v).WithApplication([]byte(app)).Now())).Now())
}

func many(list ...instructions.Instruction) instructions.Instructions {
	return ok(instructions.NewBuilder().Create().WithList(list).Now())
}

func mods(fns ...func(map[uint]interface{}) (interface{}, error)) modules.Modules {
	list := []modules.Module{}
	for i, fn := range fns {
		list = append(list, ok(modules.NewModuleBuilder().Create().WithIndex(uint(i)).WithFunc(fn).Now()))
	}
	return ok(modules.NewBuilder().Create().WithList(list).Now())
}

// show returns what it was given
func show(in map[uint]interface{}) (interface{}, error) {
	out := map[uint]string{}
	for k, v := range in {
		out[k] = fmt.Sprint(v)
		if b, ok := v.([]byte); ok {
			out[k] = string(b)
		}
	}
	return fmt.Sprint(out), nil
}

func newApp() applications.Application {
	return applications.NewApplication(func(name []byte) string { return string(name) })
}

func text(v []interface{}, err error) string {
	if err != nil && v == nil {
		return "error"
	}
	return fmt.Sprintf("%v %v", v, err)
}

// want executes the program and verifies its output
func want(p programs.Program, input []interface{}, expected string) {
	if got := text(newApp().Execute(input, p)); got != expected {
		fail("the output is %s, expected %s", got, expected)
	}
}
'''
def s(id,prop,needs,breaks,edits,main,imports=()):
    seed(id,prop,needs,breaks,edits,main,imports,helper=INTH)
s('i01-attach-first','I01','two attachments to the same target of one application, with the application executed between or after them',
 'the first value attached to a target is kept, whatever is attached later',
 [(INT,'			parameters[local] = ins\n','			if _, ok := parameters[local]; !ok {\n				parameters[local] = ins\n			}\n')],'''
func main() {
	p := ok(newApp().Compile(mods(show), many(
		module("m", 0), app("a", "m"), out("first"), out("second"),
		constant("x", "one"), attach("x", "a", 3), call("first", "a"),
		constant("x", "two"), attach("x", "a", 3), call("second", "a"),
	)))
	want(p, nil, "[map[3:one] map[3:two]] <nil>")
}''')
s('i01-input-position','I01','an input parameter declared after an output parameter, attached to an application without being assigned',
 'an attached input is looked up by its position among all the parameters',
 [(INT,'		return app.valueBuilder.Create().WithInput(parameter.inputParameterIndex).Now()\n','		return app.valueBuilder.Create().WithInput(parameter.allParameterIndex).Now()\n')],'''
func main() {
	p := ok(newApp().Compile(mods(show), many(
		module("m", 0), app("a", "m"), in("x"), out("o"), in("y"),
		attach("y", "a", 0), attach("x", "a", 1), call("o", "a"),
	)))
	want(p, []interface{}{"X", "Y", "Z"}, "[map[0:Y 1:X]] <nil>")
	p = ok(newApp().Compile(mods(show), many(
		module("m", 0), app("a", "m"), in("x"), in("y"), out("o"),
		attach("y", "a", 0), attach("x", "a", 1), call("o", "a"),
	)))
	want(p, []interface{}{"X", "Y"}, "[map[0:Y 1:X]] <nil>")
}''')
s('i01-attached-memo','I01','a module with effects, whose execution is attached to an application that is executed several times',
 'the value of an attached execution is computed once per execution of the program, so that its module is called less often',
 [(INT,'''			attachedValue := oneAttachment.Value()
			ins, err := app.executeValue(input, values, attachedValue)
			if err != nil {
				return nil, err
			}
''','''			attachedValue := oneAttachment.Value()
			key := fmt.Sprintf("%p", attachedValue)
			ins, ok := values[key]
			if !ok {
				result, err := app.executeValue(input, values, attachedValue)
				if err != nil {
					return nil, err
				}

				values[key] = result
				ins = result
			}
''')],'''
func main() {
	calls := 0
	count := func(in map[uint]interface{}) (interface{}, error) {
		calls++
		return fmt.Sprint(calls), nil
	}
	p := ok(newApp().Compile(mods(count, show), many(
		module("count", 0), module("show", 1), app("c", "count"), app("s", "show"), out("o"),
		call("v", "c"), attach("v", "s", 0), call("o", "s"), call("o", "s"),
	)))
	want(p, nil, "[map[0:2] map[0:3]] <nil>")
	if calls != 3 {
		fail("the module was called %d times", calls)
	}
}''',['fmt'])
s('i02-module-alias','I02','a program that loads another module under a name that is already used, or the same module twice',
 'a module name can be declared again for the same module',
 [(INT,'	if _, ok := loadedModules[moduleNameStr]; ok {','	if loaded, ok := loadedModules[moduleNameStr]; ok && loaded.Index() != index {')],'''
func main() {
	for _, index := range []uint{0, 1} {
		_, err := newApp().Compile(mods(show, show), many(module("m", 0), module("m", index), app("a", "m"), run("a")))
		if err == nil {
			fail("a name was declared twice (module %d)", index)
		}
	}
	ok(newApp().Compile(mods(show, show), many(module("m", 0), module("n", 0), app("a", "m"), run("a"))))
}''')
s('i02-sub-silent','I02','a sub-program without outputs in which a module fails',
 'the error of a sub-program that has no output is ignored',
 [(INT,'''		subProgramOutput, err := app.Execute(input, subProgram)
		if err != nil {''','''		subProgramOutput, err := app.Execute(input, subProgram)
		if err != nil && subProgram.HasOutputs() {''')],'''
func main() {
	broken := func(in map[uint]interface{}) (interface{}, error) { return nil, errors.New("broken") }
	inner := []instructions.Instruction{module("m", 0), app("a", "m"), run("a")}
	p := ok(newApp().Compile(mods(broken), many(out("o"), sub("o", append(inner, out("v"), constant("v", "x"))...))))
	want(p, nil, "error")
	p = ok(newApp().Compile(mods(broken), many(out("o"), sub("o", inner...))))
	want(p, nil, "error")
}''',['errors',A+'domain/instructions'])
s('i03-params-pool','I03','an execution in which a module fails, followed by one that attaches fewer values',
 'the parameters of modules are recycled, and keep the values of a call that failed',
 [(INT,'	parameters := map[uint]interface{}{}\n	if execution','	parameters := app.parameters.Get().(map[uint]interface{})\n	defer app.parameters.Put(parameters)\n	if execution'),
  (INT,'''	execFn := module.Func()
	return execFn(parameters)
''','''	execFn := module.Func()
	result, err := execFn(parameters)
	if err != nil {
		return nil, err
	}

	// the map is used again by the next call:
	for local := range parameters {
		delete(parameters, local)
	}

	return result, nil
'''),(INT,'''	nameBytesToStringFn NameBytesToString
}
''','''	nameBytesToStringFn NameBytesToString
	parameters          sync.Pool
}
'''),(INT,'''		nameBytesToStringFn: nameBytesToStringFn,
	}
''','''		nameBytesToStringFn: nameBytesToStringFn,
		parameters: sync.Pool{
			New: func() interface{} {
				return map[uint]interface{}{}
			},
		},
	}
'''),(INT,'	"fmt"\n\n','	"fmt"\n	"sync"\n\n')],'''
func main() {
	runtime.GOMAXPROCS(1)
	fails := false
	first := func(in map[uint]interface{}) (interface{}, error) {
		if fails {
			return nil, errors.New("broken")
		}
		return fmt.Sprint(len(in)), nil
	}
	a := newApp()
	attached := ok(a.Compile(mods(first), many(module("m", 0), app("a", "m"), in("x"), out("o"), attach("x", "a", 9), call("o", "a"))))
	alone := ok(a.Compile(mods(show), many(module("m", 0), app("a", "m"), out("o"), call("o", "a"))))
	for i := 0; i < 100; i++ {
		fails = i%3 == 1
		if got := text(a.Execute([]interface{}{"X"}, attached)); fails && got != "error" || !fails && got != "[1] <nil>" {
			fail("the output is %s", got)
		}
		if got := text(a.Execute(nil, alone)); got != "[map[]] <nil>" {
			fail("without attachments the module received %s", got)
		}
	}
}''',['errors','fmt','runtime'])
s('i03-program-cache','I03','the same instructions compiled again with other modules, by the same application',
 'the compiled sub-programs are kept by their instructions, whatever the modules',
 [(INT,'''		subProgram, err := app.Compile(allModules, subInstructions)
		if err != nil {
			return nil, err
		}

		builder.WithProgram(subProgram)
''','''		subProgram, ok := app.programs.Load(subInstructions)
		if !ok {
			compiled, err := app.Compile(allModules, subInstructions)
			if err != nil {
				return nil, err
			}

			app.programs.Store(subInstructions, compiled)
			subProgram = compiled
		}

		builder.WithProgram(subProgram.(programs.Program))
'''),(INT,'''	nameBytesToStringFn NameBytesToString
}
''','''	nameBytesToStringFn NameBytesToString
	programs            sync.Map
}
'''),(INT,'	"fmt"\n\n','	"fmt"\n	"sync"\n\n')],'''
func main() {
	list := many(out("o"), sub("o", module("m", 0), app("a", "m"), out("v"), call("v", "a")))
	a := newApp()
	for _, name := range []string{"first", "second", "third"} {
		name := name
		p := ok(a.Compile(mods(func(in map[uint]interface{}) (interface{}, error) { return name, nil }), list))
		if got := text(a.Execute(nil, p)); got != "[["+name+"]] <nil>" {
			fail("the program with the %s modules returned %s", name, got)
		}
	}
}''')
s('i02-missing-attachment','I02','a program that needs more inputs than it is given, and uses the missing one through an attachment only',
 'an attachment whose value is missing is left out instead of being an error',
 [(INT,'		for _, oneAttachment := range attachments {\n','		for _, oneAttachment := range app.available(input, attachments) {\n'),
  (INT,'''func (app *application) execute(input''','''func (app *application) available(input []interface{}, attachments []programs.Attachment) []programs.Attachment {
	list := []programs.Attachment{}
	for _, oneAttachment := range attachments {
		value := oneAttachment.Value()
		if value.IsInput() && *value.Input() >= uint(len(input)) {
			// there is nothing to attach:
			continue
		}

		list = append(list, oneAttachment)
	}

	return list
}

func (app *application) execute(input''')],'''
func main() {
	p := ok(newApp().Compile(mods(show), many(
		module("m", 0), app("a", "m"), in("x"), in("y"), out("o"),
		attach("x", "a", 0), attach("y", "a", 1), call("o", "a"),
	)))
	want(p, []interface{}{"one", "two"}, "[map[0:one 1:two]] <nil>")
	want(p, []interface{}{"one"}, "error")
}''')
