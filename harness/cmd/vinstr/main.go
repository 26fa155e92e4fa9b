// Command vinstr writes copies of the library's source files in which the
// standard sync package is replaced by the hooked one, and prints the overlay
// entries for them. The copies differ in the import only, line numbers stay.
package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	repo, out, overlay := os.Args[1], os.Args[2], os.Args[3]
	var o struct{ Replace map[string]string }
	b, err := os.ReadFile(overlay)
	if err == nil {
		err = json.Unmarshal(b, &o)
	}
	files, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") || err != nil {
			continue
		}
		var src []byte
		if src, err = os.ReadFile(f); err != nil {
			break
		}
		fs := token.NewFileSet()
		af, perr := parser.ParseFile(fs, f, src, parser.ImportsOnly)
		if perr != nil {
			continue // the compiler will say so
		}
		for _, im := range af.Imports {
			if im.Path.Value != `"sync"` {
				continue
			}
			start, end := fs.Position(im.Pos()).Offset, fs.Position(im.End()).Offset
			name := "sync"
			if im.Name != nil {
				name = im.Name.Name
			}
			dst := filepath.Join(out, filepath.Base(f))
			text := string(src[:start]) + name + ` "verif/harness/vsync"` + string(src[end:])
			if err = os.WriteFile(dst, []byte(text), 0o644); err == nil {
				o.Replace[f] = dst
			}
		}
	}
	if err == nil {
		b, _ = json.Marshal(o)
		err = os.WriteFile(overlay, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
