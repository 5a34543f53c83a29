// Command overlay writes, for every non-test Go file of a tree that imports package os, a copy that imports
// verif/faultos instead, and the overlay file that makes go build use the copies.
package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	swap := map[string]string{"os": "verif/faultos", "io/ioutil": "verif/faultos/ioutil"}
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); n == "vendor" || n == "node_modules" || (strings.HasPrefix(n, ".") && path != repo) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ImportsOnly)
		if err != nil {
			return nil // the build will tell
		}
		changed := false
		for i := len(f.Imports) - 1; i >= 0; i-- {
			imp := f.Imports[i]
			name, _ := strconv.Unquote(imp.Path.Value)
			to, ok := swap[name]
			if !ok {
				continue
			}
			spec := strconv.Quote(to)
			if imp.Name == nil {
				spec = filepath.Base(name) + " " + spec
			}
			from, end := fset.Position(imp.Path.Pos()).Offset, fset.Position(imp.Path.End()).Offset
			src = []byte(string(src[:from]) + spec + string(src[end:]))
			changed = true
		}
		if !changed {
			return nil
		}
		to := filepath.Join(out, fmt.Sprintf("%d_%s", len(replace), filepath.Base(path)))
		replace[path] = to
		return os.WriteFile(to, src, 0644)
	})
	if err == nil {
		var data []byte
		data, _ = json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
		err = os.WriteFile(filepath.Join(out, "overlay.json"), data, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
