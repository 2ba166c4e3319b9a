package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const jitterSrc = `
import (
	"math/rand"
	"runtime"
	"time"
)

func verifJitter() {
	switch rand.Intn(6) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(rand.Intn(200)) * time.Microsecond)
	}
}
`

// buildJitter builds the replay program with a random pause before every statement of the
// repository's concurrent files, so that a schedule found by the engine shows natively too.
func buildJitter(repo, verif, tmp string) (string, error) {
	rep := map[string]string{filepath.Join(verif, "harness/cmd/replay/reg.go"): filepath.Join(tmp, "reg.go")}
	pkgs := map[string]string{}
	n := 0
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			return nil
		}
		conc := false
		var at []int
		add := func(l []ast.Stmt) {
			for _, s := range l {
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.GoStmt, *ast.SendStmt, *ast.ChanType, *ast.SelectStmt:
				conc = true
			case *ast.BlockStmt:
				sw := false
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						sw = true
					}
				}
				if !sw {
					add(x.List)
				}
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
		if !conc {
			return nil
		}
		sort.Sort(sort.Reverse(sort.IntSlice(at)))
		out := string(src)
		for _, o := range at {
			out = out[:o] + "verifJitter(); " + out[o:]
		}
		n++
		q := filepath.Join(tmp, fmt.Sprintf("jitter%d.go", n))
		os.WriteFile(q, []byte(out), 0o644)
		rep[p] = q
		pkgs[filepath.Dir(p)] = f.Name.Name
		return nil
	})
	for dir, name := range pkgs {
		n++
		q := filepath.Join(tmp, fmt.Sprintf("jitter%d.go", n))
		os.WriteFile(q, []byte("package "+name+"\n"+jitterSrc), 0o644)
		rep[filepath.Join(dir, "verif_jitter.go")] = q
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(tmp, "overlay2.json")
	if err := os.WriteFile(of, ov, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, "replay2")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, "./cmd/replay")
	cmd.Dir = filepath.Join(verif, "harness")
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building replay: %v\n%s", err, out)
	}
	return bin, nil
}
