package goast

import (
	"errors"
	"fmt"
	"go/format"
	"io"
	"log/slog"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/scope"
	"golang.org/x/tools/imports"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	top := t.TempDir()
	for k := 0; !vTimeUp(); k++ {
		dir := filepath.Join(top, fmt.Sprint(k%50))
		_ = os.RemoveAll(dir)
		_ = os.MkdirAll(filepath.Join(dir, "isdir.go"), 0o755)
		_ = os.WriteFile(filepath.Join(dir, "file"), []byte("x"), 0o644)
		_ = os.WriteFile(filepath.Join(dir, "old.go"), []byte(strings.Repeat("old ", 200)), 0o644)
		_ = os.Symlink("/dev/full", filepath.Join(dir, "full.go"))
		name := []string{"new.go", "new", "a/b/new.go", "x.go.txt", "old.go", "old", "go", ".go", "ogo", "isdir.go", "isdir", "file/x.go", "file/a/x", "full.go", "full"}[r.Intn(15)]
		file := filepath.Join(dir, name)
		path := file
		if !strings.HasSuffix(path, ".go") {
			path += ".go"
		}
		auto := []bool(nil)
		if r.Intn(4) == 0 {
			auto = []bool{r.Intn(2) == 0}
			if r.Intn(3) == 0 {
				auto = append(auto, !auto[0])
			}
		}
		if r.Intn(3) == 0 { // reading
			content := []string{"package foo\n", "package foo\nvar x   =  1\n", "", "package foo {{{", "var x = 1\n"}[r.Intn(5)]
			bad := strings.HasPrefix(name, "isdir") || strings.HasPrefix(name, "file") || strings.HasPrefix(name, "full")
			missing := r.Intn(3) == 0 && !bad
			if missing {
				_ = os.RemoveAll(path)
			} else if !bad {
				_ = os.MkdirAll(filepath.Dir(path), 0o755)
				if os.WriteFile(path, []byte(content), 0o644) != nil {
					continue
				}
			}
			if strings.HasPrefix(name, "full") {
				continue
			}
			if !vCase(fmt.Sprintf("reading %q, missing %v, text %q", name, missing, content), func() string {
				out, err := helper.ReadFile(file)
				f, aerr := ParseAst(file)
				want, ferr := format.Source([]byte(content))
				switch {
				case missing:
					if !errors.Is(err, os.ErrNotExist) {
						return fmt.Sprintf("ReadFile of a missing file answers %v", err)
					}
					if f != nil || aerr != ErrNotExist {
						return fmt.Sprintf("ParseAst of a missing file answers %v, %v", f, aerr)
					}
				case bad || ferr != nil:
					if err == nil || f != nil || aerr == nil || errors.Is(aerr, ErrNotExist) {
						return fmt.Sprintf("ReadFile and ParseAst answer %v and %v", err, aerr)
					}
				default:
					if err != nil || string(out) != string(want) {
						return fmt.Sprintf("ReadFile answers %q, %v", out, err)
					}
				}
				return ""
			}) {
				break
			}
			continue
		}
		text := ""
		var scs []Scope
		if r.Intn(8) != 0 {
			for j := 1 + r.Intn(3); j > 0; j-- {
				var ts []string
				for l := r.Intn(4); l >= 0; l-- {
					ts = append(ts, append([]string{"package foo\n", "\nvar x   = 1\n", "func f() {\nreturn\n}\n", "import \"os\"\n", "// é\n", "\xff", "\n"}, vLines...)[r.Intn(7+len(vLines))])
				}
				if r.Intn(2) == 0 && text == "" {
					ts = append([]string{"package foo\n"}, ts...)
				}
				text += strings.Join(ts, "")
				scs = append(scs, NewScope(0, scope.Func, NewNodes(0, ts...)))
				if r.Intn(6) == 0 {
					scs = append(scs, NewScope(0, scope.Func, nil))
				}
			}
		}
		f := &ast{scope: scs}
		if text == "" && r.Intn(2) == 0 {
			f = nil
		}
		fails := text == "" || strings.HasPrefix(name, "isdir") || strings.HasPrefix(name, "file") || strings.HasPrefix(name, "full")
		if !vCase(fmt.Sprintf("saving %q to %q, auto %v", text, name, auto), func() string {
			var before []byte
			berr := os.ErrNotExist
			if !strings.HasPrefix(name, "full") {
				before, berr = os.ReadFile(path)
			}
			err := f.Save(file, auto...)
			if fails {
				if err == nil {
					return "no error, though it cannot be saved"
				}
				if text == "" {
					if strings.HasPrefix(name, "full") {
						return ""
					}
					if now, nerr := os.ReadFile(path); string(now) != string(before) || (nerr == nil) != (berr == nil) {
						return "an empty source changes the file"
					}
				}
				return ""
			}
			if err != nil {
				return fmt.Sprint("fails: ", err)
			}
			want, ferr := format.Source([]byte(text))
			if len(auto) != 0 && auto[0] {
				want, ferr = imports.Process(path, []byte(text), nil)
			}
			if ferr != nil {
				want = []byte(text)
			}
			got, err := os.ReadFile(path)
			if err != nil || string(got) != string(want) {
				return fmt.Sprintf("the file holds %q (%v), should hold %q", got, err, want)
			}
			if path != file {
				if _, err := os.Stat(file); err == nil && name != "file" {
					return fmt.Sprintf("%q is written too", name)
				}
			}
			return ""
		}) {
			break
		}
	}
	vDone()
}
