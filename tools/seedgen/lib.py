import os,subprocess,json,shutil
REPO='/tmp/seedrepo'; OUT='/verif/seeded'
shutil.rmtree(REPO,ignore_errors=True); subprocess.run(['git','clone','-q','/repo',REPO],check=True)
SH='''#!/bin/bash
# builds the program beside this file against the tree it is run in, and runs it: 0 when the guarantee holds, not 0 otherwise
here=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.27.3 ] && export GOROOT=/opt/veriftools/go1.27.3 PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
export DEMO_DIR=$t
sep=; { printf '{"Replace":{'
for f in "$here"/*.go; do printf '%s"%s/zz_demo/%s":"%s"' "$sep" "$PWD" "$(basename "$f")" "$f"; sep=,; done
printf '}}'; } > "$t/overlay.json"
go build RACE -overlay "$t/overlay.json" -o "$t/demo" ./zz_demo || exit 3
cd "$t" && timeout 250 "$t/demo"
'''
DB='''package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

func dir() string {
	d, err := os.MkdirTemp(os.Getenv("DEMO_DIR"), "db")
	if err != nil {
		fail("%v", err)
	}
	return filepath.Join(d, "data")
}

func open(d string) applications.Application { return files.NewApplication(0, d, "dst", "bck", 1024) }

func ok(err error) {
	if err != nil {
		fail("unexpected error: %s", err.Error())
	}
}

func fail(f string, a ...interface{}) {
	fmt.Printf("FAILED: "+f+"\\n", a...)
	os.Exit(1)
}

func h(s string) hash.Hash {
	p, err := hash.NewAdapter().FromBytes([]byte(s))
	ok(err)
	return *p
}
'''
GRAM='''package main

import (
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

func ok[V any](v V, err error) V {
	if err != nil {
		fail("unexpected error: %s", err.Error())
	}
	return v
}

func fail(f string, a ...interface{}) {
	fmt.Printf("FAILED: "+f+"\\n", a...)
	os.Exit(1)
}

// card is a cardinality, without maximum when max is negative
func card(min int, max int) cardinalities.Cardinality {
	b := cardinalities.NewBuilder().Create().WithMin(uint(min))
	if max >= 0 {
		b.WithMax(uint(max))
	}
	return ok(b.Now())
}

func val(c byte) values.Value {
	return ok(values.NewBuilder().Create().WithNumber(c).WithName(string([]byte{c})).Now())
}

func vEl(c byte, min, max int) grammars.Element {
	return ok(grammars.NewElementBuilder().Create().WithCardinality(card(min, max)).WithValue(val(c)).Now())
}

func tEl(t grammars.Token, min, max int) grammars.Element {
	ins := ok(grammars.NewInstanceBuilder().Create().WithToken(t).Now())
	return ok(grammars.NewElementBuilder().Create().WithCardinality(card(min, max)).WithInstance(ins).Now())
}

func eEl(name string, exception grammars.Token, escape grammars.Token) grammars.Element {
	b := grammars.NewEverythingBuilder().Create().WithName(name).WithException(exception)
	if escape != nil {
		b.WithEscape(escape)
	}
	ins := ok(grammars.NewInstanceBuilder().Create().WithEverything(ok(b.Now())).Now())
	return ok(grammars.NewElementBuilder().Create().WithCardinality(card(1, 1)).WithInstance(ins).Now())
}

func xEl(name string, g grammars.Grammar, min, max int) grammars.Element {
	x := ok(grammars.NewExternalBuilder().Create().WithName(name).WithGrammar(g).Now())
	return ok(grammars.NewElementBuilder().Create().WithCardinality(card(min, max)).WithExternal(x).Now())
}

func rEl(name string, min, max int) grammars.Element {
	return ok(grammars.NewElementBuilder().Create().WithCardinality(card(min, max)).WithRecursive(name).Now())
}

func compose(s string) grammars.Compose {
	list := []grammars.ComposeElement{}
	for _, c := range []byte(s) {
		list = append(list, ok(grammars.NewComposeElementBuilder().Create().WithValue(val(c)).WithOccurences(1).Now()))
	}
	return ok(grammars.NewComposeBuilder().Create().WithName("c"+s).WithList(list).Now())
}

func line(els ...grammars.Element) grammars.Line {
	list := []grammars.Container{}
	for _, e := range els {
		list = append(list, ok(grammars.NewContainerBuilder().Create().WithElement(e).Now()))
	}
	return ok(grammars.NewLineBuilder().Create().WithContainers(list).Now())
}

func tok(name string, suites grammars.Suites, lines ...grammars.Line) grammars.Token {
	bl := ok(grammars.NewBlockBuilder().Create().WithLines(lines).Now())
	b := grammars.NewTokenBuilder().Create().WithName(name).WithBlock(bl)
	if suites != nil {
		b.WithSuites(suites)
	}
	return ok(b.Now())
}

func suites(valid []string, invalid []string) grammars.Suites {
	list := []grammars.Suite{}
	for _, s := range valid {
		list = append(list, ok(grammars.NewSuiteBuilder().Create().WithValid(compose(s)).Now()))
	}
	for _, s := range invalid {
		list = append(list, ok(grammars.NewSuiteBuilder().Create().WithInvalid(compose(s)).Now()))
	}
	return ok(grammars.NewSuitesBuilder().Create().WithList(list).Now())
}

func channel(t grammars.Token, prev grammars.Token, next grammars.Token) grammars.Channel {
	b := grammars.NewChannelBuilder().Create().WithToken(t)
	if prev != nil || next != nil {
		c := grammars.NewChannelConditionBuilder().Create()
		if prev != nil {
			c.WithPrevious(prev)
		}
		if next != nil {
			c.WithNext(next)
		}
		b.WithCondition(ok(c.Now()))
	}
	return ok(b.Now())
}

func gram(root grammars.Token, channels ...grammars.Channel) grammars.Grammar {
	b := grammars.NewBuilder().Create().WithRoot(root)
	if len(channels) > 0 {
		b.WithChannels(ok(grammars.NewChannelsBuilder().Create().WithList(channels).Now()))
	}
	return ok(b.Now())
}

// parse returns the bytes matched, with and without channels, and the data left; false when the grammar does not match
func parse(g grammars.Grammar, s string) (string, string, string, bool) {
	t, err := applications.NewApplication().Execute(g, []byte(s))
	if err != nil || !t.Block().HasSuccessful() {
		return "", "", "", false
	}
	return string(t.Bytes(true)), string(t.Bytes(false)), string(t.Remaining()), true
}

// want verifies that the grammar matches a part of the data and leaves the rest
func want(g grammars.Grammar, s string, matched string, left string) {
	with, _, rem, isOk := parse(g, s)
	if !isOk || with != matched || rem != left {
		fail("%q: matched %q, left %q (%t), expected %q and %q", s, with, rem, isOk, matched, left)
	}
}

// refuse verifies that the grammar does not match
func refuse(g grammars.Grammar, s string) {
	if with, _, rem, isOk := parse(g, s); isOk {
		fail("%q: matched %q, left %q, expected an error", s, with, rem)
	}
}

var _ trees.Tree
'''
HDR='''package main

import (
%s)

'''
def seed(id,prop,needs,breaks,edits,main,imports=(),helper=DB,race=False):
    d=f'{OUT}/{id}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['git','-C',REPO,'checkout','-q','--','.'],check=True)
    try:
        for f,o,n in edits:
            s=open(f'{REPO}/{f}').read()
            assert s.count(o)>=1,(id,f,o)
            assert s.count(o)==1,(id,f,'AMBIGUOUS',o)
            open(f'{REPO}/{f}','w').write(s.replace(o,n))
        p=subprocess.run(['git','-C',REPO,'diff'],capture_output=True,text=True).stdout
        fm=subprocess.run('/opt/veriftools/go1.27.3/bin/gofmt -l $(git diff --name-only)',shell=True,cwd=REPO,capture_output=True,text=True).stdout
        if fm: print(id,'GOFMT',fm)
    finally:
        subprocess.run(['git','-C',REPO,'checkout','-q','--','.'],check=True)
    open(d+'/patch.diff','w').write(p)
    open(d+'/demo.sh','w').write(SH.replace(' RACE',' -race' if race else '')); os.chmod(d+'/demo.sh',0o755)
    if helper: open(d+'/lib.go','w').write('//go:build go1.21\n\n'+helper)
    if helper and helper.startswith(GRAM[:60]) and 'libs/asts/applications' in helper:
        imports=list(imports)
        for pk,path in (('fmt','"fmt"'),('os','"os"'),('applications',M+'libs/asts/applications'),('grammars',M+'libs/asts/domain/grammars'),('trees',M+'libs/asts/domain/trees'),('cardinalities',M+'libs/asts/domain/grammars/cardinalities')):
            if pk+'.' in main: imports.append(path)
    imp=''.join('\t'+(i if '"' in i else f'"{i}"')+'\n' for i in imports)
    open(d+'/main.go','w').write('//go:build go1.21\n\n'+((HDR%imp) if imports else 'package main\n\n')+main.strip()+'\n')
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1); open(d+'/meta.json','a').write('\n')
FS='libs/databases/infrastructure/files/application.go'
FC='libs/databases/infrastructure/files/context.go'
AST='libs/asts/applications/application.go'
REF='libs/databases/domain/references/'
HT='libs/cryptography/domain/hashtrees/'
INT='libs/interpreters/applications/application.go'
QRY='libs/queries/applications/application.go'
M='github.com/steve-care-software/rodkina/'
