package main

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/coverages"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	iapplications "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	imodules "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	pmodules "github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
)

// bSpec tells what a builder asks for and how what it builds shows it.
type bSpec struct {
	Name   string
	New    func() any
	Req    []string          // what must be given
	Choice []string          // of these, one must be given
	Lax    bool              // whether it may be built without any of the choice is left open
	Path   map[string]string // where a part is seen: "Accessor.Accessor" or "Accessor|Flag"
	Blank  []string          // parts whose zero or empty value counts as not given
	Extra  func(ins any, given map[string]any) error
	// for a builder whose parts are not seen one by one: what it misses, whether anything is claimed, and what it must show
	Missing func(given map[string]any) ([]string, bool)
	Inspect func(ins any, given map[string]any) error

	fields []*bField
}

type bField struct {
	setter string
	arg    reflect.Type // nil when the setter takes nothing
	path   []string
	flag   []string // nil when nothing tells whether the part is there
	req    bool
	choice bool
	blank  bool
}

func call(v any, method string, args ...reflect.Value) []reflect.Value {
	m := reflect.ValueOf(v).MethodByName(method)
	if !m.IsValid() {
		panic(&harnessError{fmt.Sprintf("%T has no method %s", v, method)})
	}
	return m.Call(args)
}

func hasMethod(t reflect.Type, name string) bool {
	m, ok := t.MethodByName(name)
	return ok && m.Type.NumIn() == 0 && m.Type.NumOut() == 1 && m.Type.Out(0).Kind() == reflect.Bool
}

// bSpecs are all the builders of the domain.
var bSpecs = []*bSpec{
	{Name: "grammars.Grammar", New: func() any { return grammars.NewBuilder() }, Req: []string{"WithRoot"}},
	{Name: "grammars.Channels", New: func() any { return grammars.NewChannelsBuilder() }, Req: []string{"WithList"}},
	{Name: "grammars.Channel", New: func() any { return grammars.NewChannelBuilder() }, Req: []string{"WithToken"}},
	{Name: "grammars.ChannelCondition", New: func() any { return grammars.NewChannelConditionBuilder() }, Lax: true},
	{Name: "grammars.External", New: func() any { return grammars.NewExternalBuilder() }, Req: []string{"WithName", "WithGrammar"}},
	{Name: "grammars.Instance", New: func() any { return grammars.NewInstanceBuilder() }, Choice: []string{"WithToken", "WithEverything"}, Extra: func(v any, given map[string]any) error {
		ins := v.(grammars.Instance)
		if ins.IsToken() {
			return sameName(ins.Name(), ins.Token().Name())
		}
		return sameName(ins.Name(), ins.Everything().Name())
	}},
	{Name: "grammars.Everything", New: func() any { return grammars.NewEverythingBuilder() }, Req: []string{"WithName", "WithException"}},
	{Name: "grammars.Tokens", New: func() any { return grammars.NewTokensBuilder() }, Req: []string{"WithList"}},
	{Name: "grammars.Token", New: func() any { return grammars.NewTokenBuilder() }, Req: []string{"WithName", "WithBlock"}},
	{Name: "grammars.Suites", New: func() any { return grammars.NewSuitesBuilder() }, Req: []string{"WithList"}},
	{Name: "grammars.Suite", New: func() any { return grammars.NewSuiteBuilder() }, Choice: []string{"WithValid", "WithInvalid"},
		Path: map[string]string{"WithValid": "Content|IsValid", "WithInvalid": "Content|!IsValid"}},
	{Name: "grammars.Block", New: func() any { return grammars.NewBlockBuilder() }, Req: []string{"WithLines"}},
	{Name: "grammars.Line", New: func() any { return grammars.NewLineBuilder() }, Req: []string{"WithContainers"}},
	{Name: "grammars.Container", New: func() any { return grammars.NewContainerBuilder() }, Choice: []string{"WithElement", "WithCompose"}, Extra: func(v any, given map[string]any) error {
		ins := v.(grammars.Container)
		if ins.IsElement() {
			return sameName(ins.Name(), ins.Element().Name())
		}
		return sameName(ins.Name(), ins.Compose().Name())
	}},
	{Name: "grammars.Element", New: func() any { return grammars.NewElementBuilder() }, Req: []string{"WithCardinality"},
		Choice: []string{"WithValue", "WithExternal", "WithInstance", "WithRecursive"},
		Path:   map[string]string{"WithValue": "Content.Value|Content.IsValue", "WithExternal": "Content.External|Content.IsExternal", "WithInstance": "Content.Instance|Content.IsInstance", "WithRecursive": "Content.Recursive|Content.IsRecursive"},
		Extra: func(v any, given map[string]any) error {
			ins := v.(grammars.Element)
			c := ins.Content()
			switch {
			case c.IsValue():
				return sameName(ins.Name(), c.Value().Name())
			case c.IsExternal():
				return sameName(ins.Name(), c.External().Name())
			case c.IsInstance():
				return sameName(ins.Name(), c.Instance().Name())
			}
			return sameName(ins.Name(), c.Recursive())
		}},
	{Name: "grammars.Compose", New: func() any { return grammars.NewComposeBuilder() }, Req: []string{"WithName", "WithList"}},
	{Name: "grammars.ComposeElement", New: func() any { return grammars.NewComposeElementBuilder() }, Req: []string{"WithValue", "WithOccurences"}, Blank: []string{"WithOccurences"}},
	{Name: "cardinalities.Cardinality", New: func() any { return cardinalities.NewBuilder() }, Req: []string{"WithMin"}},
	{Name: "values.Value", New: func() any { return values.NewBuilder() }, Req: []string{"WithName", "WithNumber"}},
	{Name: "coverages.Coverages", New: func() any { return coverages.NewBuilder() }, Req: []string{"WithList"}, Extra: func(v any, given map[string]any) error {
		ins := v.(coverages.Coverages)
		any := false
		for _, one := range ins.List() {
			any = any || one.Executions().ContainsError()
		}
		return sameBool("ContainsError", ins.ContainsError(), any)
	}},
	{Name: "coverages.Coverage", New: func() any { return coverages.NewCoverageBuilder() }, Req: []string{"WithToken", "WithExecutions"}},
	{Name: "coverages.Executions", New: func() any { return coverages.NewExecutionsBuilder() }, Req: []string{"WithList"}, Extra: func(v any, given map[string]any) error {
		ins := v.(coverages.Executions)
		any := false
		for _, one := range ins.List() {
			any = any || one.Result().IsError()
		}
		return sameBool("ContainsError", ins.ContainsError(), any)
	}},
	{Name: "coverages.Execution", New: func() any { return coverages.NewExecutionBuilder() }, Req: []string{"WithExpectation", "WithResult"}},
	{Name: "coverages.Result", New: func() any { return coverages.NewResultBuilder() }, Choice: []string{"WithTree", "WithError"}},
	{Name: "trees.Trees", New: func() any { return trees.NewBuilder() }, Req: []string{"WithList"}},
	{Name: "trees.Tree", New: func() any { return trees.NewTreeBuilder() }, Req: []string{"WithGrammar", "WithBlock"}, Blank: []string{"WithRemaining"}},
	{Name: "trees.Block", New: func() any { return trees.NewBlockBuilder() }, Req: []string{"WithLines"}, Extra: func(v any, given map[string]any) error {
		ins := v.(trees.Block)
		var first trees.Line
		for _, one := range ins.Lines() {
			if first == nil && one.IsSuccessful() {
				first = one
			}
		}
		if err := sameBool("HasSuccessful", ins.HasSuccessful(), first != nil); err != nil {
			return err
		}
		if first != nil && !reflect.DeepEqual(ins.Successful(), first) {
			return fmt.Errorf("Successful is not the first line that is successful")
		}
		return nil
	}},
	{Name: "trees.Line", New: func() any { return trees.NewLineBuilder() }, Req: []string{"WithIndex", "WithGrammar"}, Extra: func(v any, given map[string]any) error {
		ins := v.(trees.Line)
		return lineSuccess(ins.Grammar(), ins.Index())
	}},
	{Name: "trees.Elements", New: func() any { return trees.NewElementsBuilder() }, Req: []string{"WithList"}, Extra: func(v any, given map[string]any) error {
		ins := v.(trees.Elements)
		for _, one := range ins.List() {
			if !one.HasGrammar() {
				continue
			}
			name := one.Grammar().Name()
			got, err := ins.Fetch(name)
			if err != nil {
				return fmt.Errorf("Fetch(%q): %v", name, err)
			}
			if !got.HasGrammar() || got.Grammar().Name() != name {
				return fmt.Errorf("Fetch(%q) returned an element of another name", name)
			}
		}
		if _, err := ins.Fetch("nothing has this name"); err == nil {
			return fmt.Errorf("Fetch succeeded with a name nothing has")
		}
		return nil
	}},
	{Name: "trees.Element", New: func() any { return trees.NewElementBuilder() }, Req: []string{"WithContents"}, Extra: func(v any, given map[string]any) error {
		ins := v.(trees.Element)
		if int(ins.Amount()) != len(ins.Contents().List()) {
			return fmt.Errorf("Amount is %d, there are %d contents", ins.Amount(), len(ins.Contents().List()))
		}
		is := true
		if ins.HasGrammar() {
			min, max := uint(0), ^uint(0)
			if ins.Grammar().IsElement() {
				card := ins.Grammar().Element().Cardinality()
				min = card.Min()
				if card.HasMax() {
					max = *card.Max()
				}
			} else {
				for _, one := range ins.Grammar().Compose().List() {
					min += one.Occurences()
				}
			}
			is = min <= ins.Amount() && ins.Amount() <= max
		}
		return sameBool("IsSuccessful", ins.IsSuccessful(), is)
	}},
	{Name: "trees.Contents", New: func() any { return trees.NewContentsBuilder() }, Req: []string{"WithList"}},
	{Name: "trees.Content", New: func() any { return trees.NewContentBuilder() }, Choice: []string{"WithValue", "WithTree"}},
	{Name: "trees.Value", New: func() any { return trees.NewValueBuilder() }, Req: []string{"WithContent"}},
	{Name: "hashtrees.HashTree", New: func() any { return hashtrees.NewBuilder() }, Missing: func(given map[string]any) ([]string, bool) {
		_, blocks := given["WithBlocks"]
		_, head := given["WithHead"]
		_, parent := given["WithParent"]
		if head && parent || blocks && !head && !parent {
			return nil, true
		}
		// blocks with a head or a parent alone are contradictory
		return []string{"WithBlocks, or WithHead and WithParent"}, !blocks
	}, Inspect: func(v any, given map[string]any) error {
		ins := v.(hashtrees.HashTree)
		if head, ok := given["WithHead"]; ok {
			if !samePart(ins.Head(), head) || !samePart(ins.Parent(), given["WithParent"]) {
				return fmt.Errorf("the head and parent are not those that were given")
			}
			return nil
		}
		if ins.Parent() == nil || string(ins.Head().Bytes()) != string(merkleHead(given["WithBlocks"].([][]byte))) {
			return fmt.Errorf("the head is not the one of the blocks")
		}
		return nil
	}},
	{Name: "hashtrees.ParentLeaf", New: func() any { return hashtrees.NewParentLeafBuilder() }, Req: []string{"WithLeft", "WithRight"}},
	{Name: "hashtrees.Leaf", New: func() any { return hashtrees.NewLeafBuilder() }, Req: []string{"WithHead"}},
	{Name: "hashtrees.Leaves", New: func() any { return hashtrees.NewLeavesBuilder() }, Req: []string{"WithList"}, Path: map[string]string{"WithList": "Leaves"}},
	{Name: "hashtrees.Compact", New: func() any { return hashtrees.NewCompactBuilder() }, Req: []string{"WithHead", "WithLeaves"}},
	{Name: "contents.Contents", New: func() any { return contents.NewBuilder() }, Req: []string{"WithList"}},
	{Name: "contents.Content", New: func() any { return contents.NewContentBuilder() }, Req: []string{"WithHash", "WithData", "WithKind"}, Blank: []string{"WithData"}},
	{Name: "references.Reference", New: func() any { return references.NewBuilder() }, Req: []string{"WithContentKeys", "WithCommits"}},
	{Name: "references.Commits", New: func() any { return references.NewCommitsBuilder() }, Req: []string{"WithList"}, Extra: func(v any, given map[string]any) error {
		ins := v.(references.Commits)
		list := ins.List()
		if !reflect.DeepEqual(ins.Latest(), list[len(list)-1]) {
			return fmt.Errorf("Latest is not the last commit")
		}
		for _, one := range list {
			got, err := ins.Fetch(one.Hash())
			if err != nil || got.Hash().String() != one.Hash().String() {
				return fmt.Errorf("Fetch of a commit: %v", err)
			}
		}
		if _, err := ins.Fetch(labelHash(99)); err == nil {
			return fmt.Errorf("Fetch succeeded with a hash no commit has")
		}
		return nil
	}},
	{Name: "references.Commit", New: func() any { return references.NewCommitBuilder(7) }, Req: []string{"WithValues", "CreatedOn"}, Path: map[string]string{"WithProof": "Mine.Proof|HasMine"}, Extra: func(v any, given map[string]any) error {
		ins := v.(references.Commit)
		if string(ins.Hash().Bytes()) != string(commitID(ins)) {
			return fmt.Errorf("the hash does not identify the values, time, parent and proof")
		}
		return nil
	}},
	{Name: "references.ContentKeys", New: func() any { return references.NewContentKeysBuilder() }, Req: []string{"WithList"}},
	{Name: "references.ContentKey", New: func() any { return references.NewContentKeyBuilder() }, Req: []string{"WithHash", "WithKind", "WithContent", "WithCommit"}},
	{Name: "references.Pointer", New: func() any { return references.NewPointerBuilder() }, Req: []string{"From", "WithLength"}, Blank: []string{"WithLength"}},
	{Name: "instructions.Instructions", New: func() any { return instructions.NewBuilder() }, Req: []string{"WithList"}, Blank: []string{"WithRemaining"}},
	{Name: "instructions.Instruction", New: func() any { return instructions.NewInstructionBuilder() }, Choice: []string{"WithModule", "WithApplication", "WithParameter", "WithAssignment", "WithAttachment", "WithExecution"}},
	{Name: "instructions.Assignment", New: func() any { return instructions.NewAssignmentBuilder() }, Req: []string{"WithVariable", "WithValue"}},
	{Name: "instructions.Value", New: func() any { return instructions.NewValueBuilder() }, Choice: []string{"WithVariable", "WithConstant", "WithInstructions", "WithExecution"}},
	{Name: "instructions.Application", New: func() any { return iapplications.NewBuilder() }, Req: []string{"WithModule", "WithName"}},
	{Name: "instructions.Attachment", New: func() any { return attachments.NewBuilder() }, Req: []string{"WithVariable", "WithApplication"}},
	{Name: "instructions.Variable", New: func() any { return attachments.NewVariableBuilder() }, Req: []string{"WithCurrent", "WithTarget"}},
	{Name: "instructions.Module", New: func() any { return imodules.NewBuilder() }, Req: []string{"WithIndex", "WithName"}},
	{Name: "instructions.Parameter", New: func() any { return parameters.NewBuilder() }, Req: []string{"WithName"}},
	{Name: "programs.Program", New: func() any { return programs.NewBuilder() }, Req: []string{"WithInstructions"}},
	{Name: "programs.Instructions", New: func() any { return programs.NewInstructionsBuilder() }, Req: []string{"WithList"}},
	{Name: "programs.Instruction", New: func() any { return programs.NewInstructionBuilder() }, Choice: []string{"WithValue", "WithExecution"}},
	{Name: "programs.Application", New: func() any { return programs.NewApplicationBuilder() }, Req: []string{"WithIndex", "WithModule"}},
	{Name: "programs.Attachments", New: func() any { return programs.NewAttachmentsBuilder() }, Req: []string{"WithList"}},
	{Name: "programs.Attachment", New: func() any { return programs.NewAttachmentBuilder() }, Req: []string{"WithValue", "WithLocal"}},
	{Name: "programs.Value", New: func() any { return programs.NewValueBuilder() }, Choice: []string{"WithConstant", "WithInput", "WithExecution", "WithProgram"}},
	{Name: "modules.Modules", New: func() any { return pmodules.NewBuilder() }, Req: []string{"WithList"}, Extra: func(v any, given map[string]any) error {
		ins := v.(pmodules.Modules)
		for _, one := range ins.List() {
			got, err := ins.Fetch(one.Index())
			if err != nil || got.Index() != one.Index() {
				return fmt.Errorf("Fetch(%d): %v", one.Index(), err)
			}
		}
		if _, err := ins.Fetch(987654); err == nil {
			return fmt.Errorf("Fetch succeeded with an index no module has")
		}
		return nil
	}},
	{Name: "modules.Module", New: func() any { return pmodules.NewModuleBuilder() }, Req: []string{"WithIndex", "WithFunc"}},
	{Name: "queries.Query", New: func() any { return queries.NewBuilder() }, Req: []string{"WithToken", "WithInside", "WithFn"}},
	{Name: "queries.QueryFn", New: func() any { return queries.NewQueryFnBuilder() }, Choice: []string{"WithSingle", "WithMulti"}},
	{Name: "queries.Token", New: func() any { return queries.NewTokenBuilder() }, Req: []string{"WithName", "WithReverseName", "WithElement"}},
	{Name: "queries.Element", New: func() any { return queries.NewElementBuilder() }, Req: []string{"WithName", "WithIndex"}},
	{Name: "queries.Inside", New: func() any { return queries.NewInsideBuilder() }, Choice: []string{"WithFn", "WithFetchers"}},
	{Name: "queries.Fetchers", New: func() any { return queries.NewFetchersBuilder() }, Req: []string{"WithList"}},
	{Name: "queries.Fetcher", New: func() any { return queries.NewFetcherBuilder() }, Choice: []string{"WithRecursive", "WithQuery"}},
	{Name: "queries.ContentFn", New: func() any { return queries.NewContentFnBuilder() }, Choice: []string{"WithSingle", "WithMulti"}},
}

func sameName(got, want string) error {
	if got != want {
		return fmt.Errorf("Name is %q instead of %q", got, want)
	}
	return nil
}

func sameBool(what string, got, want bool) error {
	if got != want {
		return fmt.Errorf("%s is %v instead of %v", what, got, want)
	}
	return nil
}

var (
	bByType = map[reflect.Type]*bSpec{} // by what they build
	bPools  = map[reflect.Type][]any{}
	bReady  bool
)

const bVariants = 4

// bPrepare reads the setters of every builder.
func bPrepare() {
	if bReady {
		return
	}
	bReady = true
	for _, s := range bSpecs {
		bt := reflect.TypeOf(s.New())
		now, ok := bt.MethodByName("Now")
		if !ok {
			panic(&harnessError{s.Name + " has no Now"})
		}
		it := now.Type.Out(0)
		bByType[it] = s
		for i := 0; i < bt.NumMethod(); i++ {
			m := bt.Method(i)
			if m.Name == "Create" || m.Name == "Now" {
				continue
			}
			f := &bField{setter: m.Name}
			if m.Type.NumIn() == 2 {
				f.arg = m.Type.In(1)
			}
			path, flag := strings.TrimPrefix(m.Name, "With"), ""
			if p, ok := s.Path[m.Name]; ok {
				parts := strings.SplitN(p, "|", 2)
				path = parts[0]
				if len(parts) > 1 {
					flag = parts[1]
				}
			}
			f.path = strings.Split(path, ".")
			if flag == "" && len(f.path) == 1 && f.arg != nil {
				for _, p := range []string{"Has", "Is"} {
					if m, ok := it.MethodByName(p + path); ok && m.Type.NumIn() == 0 && m.Type.NumOut() == 1 {
						flag = p + path
					}
				}
			}
			if flag != "" {
				f.flag = strings.Split(flag, ".")
			}
			for _, r := range s.Req {
				f.req = f.req || r == m.Name
			}
			for _, r := range s.Choice {
				f.choice = f.choice || r == m.Name
			}
			for _, r := range s.Blank {
				f.blank = f.blank || r == m.Name
			}
			s.fields = append(s.fields, f)
		}
		known := map[string]bool{}
		for _, f := range s.fields {
			known[f.setter] = true
		}
		for _, r := range append(append([]string{}, s.Req...), s.Choice...) {
			if !known[r] {
				panic(&harnessError{s.Name + " has no " + r})
			}
		}
	}
}

func (s *bSpec) field(setter string) *bField {
	for _, f := range s.fields {
		if f.setter == setter {
			return f
		}
	}
	return nil
}

// bMake builds the variant i of what a spec builds, from valid parts.
func (s *bSpec) bMake(i, depth int) any {
	b := call(s.New(), "Create")[0].Interface()
	chosen := ""
	if len(s.Choice) > 0 {
		chosen = s.Choice[0]
		if depth < 2 {
			chosen = s.Choice[i%len(s.Choice)]
		}
	}
	for k, f := range s.fields {
		optional := !f.req && !f.choice
		if f.choice && f.setter != chosen || optional && (depth > 1 || (i+k)%2 == 0) {
			continue
		}
		if f.arg == nil {
			b = call(b, f.setter)[0].Interface()
			continue
		}
		k := i
		if f.blank && f.arg.Kind() == reflect.Uint {
			k = i % 3 // the last variant is zero
		}
		b = call(b, f.setter, reflect.ValueOf(bValue(f.arg, k, depth+1)))[0].Interface()
	}
	out := call(b, "Now")
	if !out[1].IsNil() {
		panic(fmt.Errorf("a complete %s was refused: %v", s.Name, out[1].Interface()))
	}
	return out[0].Interface()
}

var (
	fnSingle  = []queries.SingleQueryFn{func(any) (any, bool, error) { return 1, true, nil }, func(any) (any, bool, error) { return 2, true, nil }, func(any) (any, bool, error) { return 3, true, nil }, func(any) (any, bool, error) { return 4, true, nil }}
	fnMulti   = []queries.MultiQueryFn{func([]any) (any, bool, error) { return 1, true, nil }, func([]any) (any, bool, error) { return 2, true, nil }, func([]any) (any, bool, error) { return 3, true, nil }, func([]any) (any, bool, error) { return 4, true, nil }}
	fnSingleC = []queries.SingleContentFn{func(trees.Content) ([]any, error) { return []any{1}, nil }, func(trees.Content) ([]any, error) { return []any{2}, nil }, func(trees.Content) ([]any, error) { return []any{3}, nil }, func(trees.Content) ([]any, error) { return []any{4}, nil }}
	fnMultiC  = []queries.MultiContentFn{func([]trees.Content) ([]any, error) { return []any{1}, nil }, func([]trees.Content) ([]any, error) { return []any{2}, nil }, func([]trees.Content) ([]any, error) { return []any{3}, nil }, func([]trees.Content) ([]any, error) { return []any{4}, nil }}
	fnExecute = []pmodules.ExecuteFn{func(map[uint]any) (any, error) { return 1, nil }, func(map[uint]any) (any, error) { return 2, nil }, func(map[uint]any) (any, error) { return 3, nil }, func(map[uint]any) (any, error) { return 4, nil }}
)

// bValue is the variant i of a type, always one that counts as given.
func bValue(t reflect.Type, i, depth int) any {
	if i >= bVariants {
		if v, ok := bWide(t, i, depth); ok {
			return v
		}
	}
	i %= bVariants
	switch t {
	case reflect.TypeOf(hash.Hash{}):
		return labelHash(i)
	case reflect.TypeOf(time.Time{}):
		return time.Unix(int64(i)*1234567, int64(i)*891).UTC()
	case reflect.TypeOf(&big.Int{}):
		return big.NewInt(int64(i) * 98765)
	case reflect.TypeOf(fnSingle[0]):
		return fnSingle[i]
	case reflect.TypeOf(fnMulti[0]):
		return fnMulti[i]
	case reflect.TypeOf(fnSingleC[0]):
		return fnSingleC[i]
	case reflect.TypeOf(fnMultiC[0]):
		return fnMultiC[i]
	case reflect.TypeOf(fnExecute[0]):
		return fnExecute[i]
	case reflect.TypeOf((*hashtrees.HashTree)(nil)).Elem():
		return must(hashtrees.NewBuilder().Create().WithBlocks([][]byte{{byte(i)}, {1, byte(i)}}).Now())
	}
	switch t.Kind() {
	case reflect.String:
		return []string{"first", "second", "é", "-"}[i]
	case reflect.Uint:
		return []uint{1, 7, 1 << 40, 0}[i]
	case reflect.Uint8:
		return []byte{0, 1, 127, 255}[i]
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return reflect.ValueOf([]byte{byte(i), 1, 2, byte(200 + i)}[:1+i]).Convert(t).Interface()
		}
		out := reflect.MakeSlice(t, 0, 3)
		for k := 0; k < 1+(i+1)%3; k++ {
			out = reflect.Append(out, reflect.ValueOf(bValue(t.Elem(), i+k, depth+1)))
		}
		return out.Interface()
	case reflect.Interface:
		s, ok := bByType[t]
		if !ok {
			panic(&harnessError{"no builder for " + t.String()})
		}
		if depth > 1 {
			return s.bMake(i, depth)
		}
		if len(bPools[t]) == 0 {
			pool := []any{}
			if special, ok := bSpecial[t]; ok {
				pool = special()
			}
			for k := len(pool); k < bVariants; k++ {
				pool = append(pool, s.bMake(k, 2))
			}
			bPools[t] = pool
		}
		return bPools[t][i]
	}
	panic(&harnessError{"no values of type " + t.String()})
}

// bSpecial gives the variants of the parts that have to fit together to mean something.
var bSpecial = map[reflect.Type]func() []any{
	reflect.TypeOf((*trees.Line)(nil)).Elem():    bLines,
	reflect.TypeOf((*trees.Element)(nil)).Elem(): bElements,
}

// bOneLine is a line of a tree whose only element has the amount of contents, of which the grammar asks for two or three.
func bOneLine(index uint, amount int) trees.Line {
	card := must(cardinalities.NewBuilder().Create().WithMin(2).WithMax(3).Now())
	value := must(values.NewBuilder().Create().WithName("a").WithNumber('a').Now())
	container := must(grammars.NewContainerBuilder().Create().WithElement(must(grammars.NewElementBuilder().Create().WithCardinality(card).WithValue(value).Now())).Now())
	grammar := must(grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{container}).Now())
	list := []trees.Content{}
	for k := 0; k < amount; k++ {
		list = append(list, must(trees.NewContentBuilder().Create().WithValue(must(trees.NewValueBuilder().Create().WithContent('a').Now())).Now()))
	}
	contents := must(trees.NewContentsBuilder().Create().WithList(list).Now())
	element := must(trees.NewElementBuilder().Create().WithContents(contents).WithGrammar(container).Now())
	elements := must(trees.NewElementsBuilder().Create().WithList([]trees.Element{element}).Now())
	return must(trees.NewLineBuilder().Create().WithIndex(index).WithGrammar(grammar).WithElements(elements).Now())
}

func bLines() []any {
	return []any{bOneLine(0, 2), bOneLine(1, 1), bOneLine(2, 3)}
}

func bElements() []any {
	out := []any{}
	for _, amount := range []int{1, 3, 4} {
		out = append(out, bOneLine(0, amount).Elements().List()[0])
	}
	return out
}

// bWide are the values of the types that have many: long, big and arbitrary ones.
func bWide(t reflect.Type, i, depth int) (any, bool) {
	length := 1 + i%70
	if i%61 == 60 {
		length = []int{129, 256, 257, 300, 1030, 4097}[i/61%6]
	}
	bytes := expand(i, length)
	num := uint64(0)
	for _, b := range expand(i, 8) {
		num = num<<8 | uint64(b)
	}
	num >>= uint(i % 64)
	switch t {
	case reflect.TypeOf(hash.Hash{}):
		return labelHash(i), true
	case reflect.TypeOf(time.Time{}):
		return time.Unix(0, int64(num>>1)).UTC(), true
	case reflect.TypeOf(&big.Int{}):
		return new(big.Int).SetBytes(bytes), true
	}
	switch t.Kind() {
	case reflect.String:
		return string(bytes), true
	case reflect.Uint:
		return uint(num | 1), true
	case reflect.Uint8:
		return byte(i), true
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return reflect.ValueOf(bytes).Convert(t).Interface(), true
		}
		out := reflect.MakeSlice(t, 0, 3)
		for k, b := range bytes {
			e := int(b) % bVariants
			if t.Elem().Kind() == reflect.Uint {
				e = i + k
			}
			out = reflect.Append(out, reflect.ValueOf(bValue(t.Elem(), e, 1)))
		}
		return out.Interface(), true
	}
	return nil, false
}

// bEmpty is a value that counts as not given, or false.
func bEmpty(f *bField, i int) (reflect.Value, bool) {
	switch f.arg.Kind() {
	case reflect.String:
		return reflect.ValueOf(""), true
	case reflect.Interface, reflect.Func:
		return reflect.Zero(f.arg), true
	case reflect.Uint:
		return reflect.ValueOf(uint(0)), f.blank
	case reflect.Slice:
		if f.arg == reflect.TypeOf(hash.Hash{}) {
			return reflect.Value{}, false
		}
		if i%2 == 0 && (f.arg.Elem().Kind() != reflect.Uint8 || f.blank) {
			return reflect.MakeSlice(f.arg, 0, 0), true
		}
		return reflect.Zero(f.arg), true
	}
	return reflect.Value{}, false
}

func isEmpty(f *bField, v any) bool {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() {
		return true
	}
	switch rv.Kind() {
	case reflect.String:
		return rv.Len() == 0
	case reflect.Func:
		return rv.IsNil()
	case reflect.Uint:
		return f.blank && rv.Uint() == 0
	case reflect.Slice:
		return rv.Len() == 0
	}
	return false
}

func follow(ins any, path []string) (any, bool) {
	v := ins
	for _, p := range path {
		if v == nil || reflect.ValueOf(v).Kind() == reflect.Pointer && reflect.ValueOf(v).IsNil() {
			return nil, false
		}
		v = call(v, p)[0].Interface()
	}
	return v, true
}

func samePart(got, want any) bool {
	gv := reflect.ValueOf(got)
	wv := reflect.ValueOf(want)
	if !gv.IsValid() || !wv.IsValid() {
		return gv.IsValid() == wv.IsValid()
	}
	if gb, ok := got.(*big.Int); ok {
		wb, ok := want.(*big.Int)
		return ok && gb != nil && gb.Cmp(wb) == 0
	}
	if gt, ok := got.(time.Time); ok {
		wt, ok := want.(time.Time)
		return ok && gt.Equal(wt)
	}
	if gv.Kind() == reflect.Func {
		return wv.Kind() == reflect.Func && gv.Pointer() == wv.Pointer()
	}
	if gv.Kind() == reflect.Pointer && wv.Kind() != reflect.Pointer && !gv.IsNil() {
		got = gv.Elem().Interface()
	}
	return reflect.DeepEqual(got, want)
}

// bInspect compares an instance with the parts given for it.
func (s *bSpec) bInspect(ins any, given map[string]any) error {
	if s.Inspect != nil {
		return s.Inspect(ins, given)
	}
	chosen := 0
	for _, f := range s.fields {
		if !f.choice {
			continue
		}
		v, ok := given[f.setter]
		is := ok
		if f.flag != nil {
			var err error
			if is, err = readFlag(ins, f.flag); err != nil {
				return err
			}
		}
		if !is {
			continue
		}
		if !ok {
			return fmt.Errorf("it shows %s, which was not given", f.path)
		}
		chosen++
		got, found := follow(ins, f.path)
		if !found || !samePart(got, v) {
			return fmt.Errorf("%s is not what was given to %s", strings.Join(f.path, "."), f.setter)
		}
	}
	if len(s.Choice) > 0 && chosen != 1 {
		return fmt.Errorf("it shows %d of the parts of which there is one", chosen)
	}
	for _, f := range s.fields {
		if f.choice {
			continue
		}
		v, ok := given[f.setter]
		if f.flag != nil {
			is, err := readFlag(ins, f.flag)
			if err != nil {
				return err
			}
			if is != ok {
				return fmt.Errorf("%s is %v, given: %v", strings.Join(f.flag, "."), is, ok)
			}
		}
		if f.arg == nil {
			got, _ := follow(ins, f.path)
			if got != ok {
				return fmt.Errorf("%s is %v instead of %v", strings.Join(f.path, "."), got, ok)
			}
			continue
		}
		if !ok {
			continue
		}
		got, found := follow(ins, f.path)
		if !found || !samePart(got, v) {
			return fmt.Errorf("%s is not what was given to %s", strings.Join(f.path, "."), f.setter)
		}
	}
	if s.Extra != nil {
		return s.Extra(ins, given)
	}
	return nil
}

func readFlag(ins any, flag []string) (bool, error) {
	not := strings.HasPrefix(flag[len(flag)-1], "!")
	path := append([]string{}, flag...)
	path[len(path)-1] = strings.TrimPrefix(path[len(path)-1], "!")
	v, ok := follow(ins, path)
	if !ok {
		return false, fmt.Errorf("%s cannot be read", strings.Join(path, "."))
	}
	return v.(bool) != not, nil
}

// bCall is one step with one of the builders of a case.
type bCall struct {
	B  int    `json:"b"`
	Op string `json:"op"` // a setter, "create" or "now"
	V  int    `json:"v"`  // the variant; -1 and -2 stand for values that count as not given
}

type buildCase struct {
	Kind  string  `json:"kind"`
	Many  bool    `json:"many"`
	Calls []bCall `json:"calls"`
}

func drawBuildCase(t *rapid.T, many bool) buildCase {
	bPrepare()
	s := bSpecs[uniform(t, "kind", len(bSpecs))]
	c := buildCase{Kind: s.Name, Many: many}
	bs := 1
	if many {
		bs = 2 + uniform(t, "builders", 2)
	}
	set := func(f *bField, b int) {
		call := bCall{B: b, Op: f.setter, V: uniform(t, "variant", bVariants)}
		if chance(t, "wide", 25) {
			call.V = uniform(t, "wide", 300)
		}
		if f.arg != nil && chance(t, "empty", 12) {
			if _, ok := bEmpty(f, 1); ok {
				call.V = -1 - uniform(t, "which", 2)
			}
		}
		c.Calls = append(c.Calls, call)
	}
	for round, n := 0, 1+uniform(t, "rounds", 3); round < n; round++ {
		// most of the parts, in any order, of the builders in turn
		type part struct {
			f *bField
			b int
		}
		parts := []part{}
		for b := 0; b < bs; b++ {
			chosen := -1
			if len(s.Choice) > 0 {
				chosen = uniform(t, "chosen", len(s.Choice))
			}
			for _, f := range s.fields {
				p := 50
				if f.req {
					p = 88
				}
				if f.choice {
					p = 4
					if f.setter == s.Choice[chosen] {
						p = 90
					}
				}
				if round > 0 {
					p /= 2
				}
				if chance(t, "given", p) {
					parts = append(parts, part{f, b})
				}
			}
		}
		for len(parts) > 0 {
			k := uniform(t, "next", len(parts))
			set(parts[k].f, parts[k].b)
			parts = append(parts[:k], parts[k+1:]...)
		}
		for b := 0; b < bs; b++ {
			if b == 0 || chance(t, "build", 80) {
				c.Calls = append(c.Calls, bCall{B: b, Op: "now"})
			}
			if chance(t, "afresh", 20) {
				c.Calls = append(c.Calls, bCall{B: b, Op: "create", V: uniform(t, "from", bs)})
			}
		}
	}
	return c
}

type bState struct {
	ins   any
	given map[string]any
}

type bBuilt struct {
	bState
	step int
}

func (c buildCase) run(rec *Rec) error {
	bPrepare()
	var s *bSpec
	for _, one := range bSpecs {
		if one.Name == c.Kind {
			s = one
		}
	}
	if s == nil {
		return hfail("unknown builder %q", c.Kind)
	}
	rec.Label(c.Kind)
	origin := s.New()
	builders := []bState{}
	for i := 0; i < 3; i++ {
		from := origin
		if c.Many && i > 0 {
			from = builders[i-1].ins
		}
		builders = append(builders, bState{call(from, "Create")[0].Interface(), map[string]any{}})
	}
	built := []bBuilt{}
	used := map[int]bool{}
	for step, one := range c.Calls {
		if one.B < 0 || one.B >= len(builders) || one.Op == "create" && (one.V < 0 || one.V >= len(builders)) {
			return hfail("call %d is out of range", step)
		}
		b := &builders[one.B]
		used[one.B] = true
		switch one.Op {
		case "create":
			*b = bState{call(builders[one.V].ins, "Create")[0].Interface(), map[string]any{}}
			continue
		case "now":
			rec.Evals++
			out := call(b.ins, "Now")
			err, _ := out[1].Interface().(error)
			missing, options := []string{}, 0
			for _, f := range s.fields {
				_, ok := b.given[f.setter]
				if f.req && !ok {
					missing = append(missing, f.setter)
				}
				if f.choice && ok {
					options++
				}
			}
			if len(s.Choice) > 0 && options == 0 {
				missing = append(missing, strings.Join(s.Choice, " or "))
			}
			if s.Missing != nil {
				claimed := true
				if missing, claimed = s.Missing(b.given); !claimed {
					continue
				}
			}
			sort.Strings(missing)
			complete := len(missing) == 0
			rec.LabelIf(complete, "complete")
			rec.LabelIf(!complete, "incomplete")
			rec.LabelIf(options > 1, "several of a choice")
			what := fmt.Sprintf("call %d, building a %s out of %v", step, s.Name, sortedKeys(b.given))
			if !complete {
				if err == nil {
					return fmt.Errorf("%s: it was built although %v is missing", what, missing)
				}
				continue
			}
			if err != nil {
				if options > 1 || s.Lax && len(b.given) == 0 {
					continue
				}
				return fmt.Errorf("%s: refused: %v", what, err)
			}
			given := map[string]any{}
			for k, v := range b.given {
				given[k] = v
			}
			if err := s.bInspect(out[0].Interface(), given); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			built = append(built, bBuilt{bState{out[0].Interface(), given}, step})
			continue
		}
		f := s.field(one.Op)
		if f == nil {
			return hfail("%s has no %s", s.Name, one.Op)
		}
		var out []reflect.Value
		if f.arg == nil {
			out = call(b.ins, f.setter)
			b.given[f.setter] = true
		} else {
			var v reflect.Value
			if one.V < 0 {
				ok := false
				if v, ok = bEmpty(f, one.V); !ok {
					return hfail("%s has no empty value", f.setter)
				}
			} else {
				v = reflect.ValueOf(bValue(f.arg, one.V, 1))
			}
			out = call(b.ins, f.setter, v)
			if given := v.Interface(); isEmpty(f, given) {
				delete(b.given, f.setter)
			} else {
				b.given[f.setter] = given
			}
		}
		b.ins = out[0].Interface()
	}
	for _, one := range built {
		if err := s.bInspect(one.ins, one.given); err != nil {
			return fmt.Errorf("the %s built by call %d is no longer what it was at the end: %w", s.Name, one.step, err)
		}
	}
	if c.Many {
		rec.NonTrivial = len(used) > 1 && len(built) > 1
	} else {
		rec.NonTrivial = len(built) > 0 && len(s.fields) > 1
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "B01",
		Rule:     "each of the 72 builders of the domains, given random parts (wide scalars and lists of up to seventy, rarely up to 4097, and four instances of each type made by the other builders) in random order, some twice, some empty, and asked to build one to three times: it refuses exactly when something it needs is missing, and otherwise what it builds shows every part that was given and no other. Non-trivial: something was built and the builder takes more than one part.",
		Quick:    400000,
		Thorough: 12000000,
	}, func(t *rapid.T) buildCase { return drawBuildCase(t, false) }, func(c buildCase, rec *Rec) error { return c.run(rec) })
	register(Prop{
		ID:       "B02",
		Rule:     "two or three builders of one kind, created from one another, given parts in turn (every builder of the domains), building several times and created afresh in between: each builds exactly what was given to it alone since its creation, and at the end everything built is still what it was. Non-trivial: more than one builder was used and more than one instance built.",
		Quick:    240000,
		Thorough: 7200000,
	}, func(t *rapid.T) buildCase { return drawBuildCase(t, true) }, func(c buildCase, rec *Rec) error { return c.run(rec) })
}
