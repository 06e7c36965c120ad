package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Functions that are pure and may be taken over from the real package.
var pureFuncs = map[string]string{
	"os":            "IsExist IsNotExist IsPermission IsTimeout IsPathSeparator Expand NewSyscallError",
	"time":          "Date Parse ParseInLocation ParseDuration FixedZone LoadLocation",
	"path/filepath": "Base Clean Dir Ext FromSlash IsAbs Join Match Rel Split SplitList ToSlash VolumeName IsLocal",
	"fmt":           "Append Appendf Appendln Errorf Fprint Fprintf Fprintln Fscan Fscanf Fscanln Sprint Sprintf Sprintln Sscan Sscanf Sscanln FormatString",
	"math/rand":     "New NewSource NewZipf",
	"net":           "ParseIP ParseCIDR IPv4 CIDRMask JoinHostPort SplitHostPort ParseMAC",
	"log":           "New",
	"syscall":       "",
	"sync":          "",
	"runtime":       "",
	"os/exec":       "",
	"io/ioutil":     "",
	"os/signal":     "",
}

var skipVars = map[string]bool{"os.Stdin": true, "os.Stdout": true, "os.Stderr": true, "os.Args": true, "io/ioutil.Discard": true}

func genShim(dir string) {
	var names []string
	for p := range pureFuncs {
		names = append(names, p)
	}
	sort.Strings(names)
	exports := map[string]string{}
	for _, p := range goList(".", names...) {
		exports[p.ImportPath] = p.Export
	}
	imp := importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) { return os.Open(exports[path]) })
	for _, p := range names {
		tp, err := imp.Import(p)
		if err != nil {
			die("%v", err)
		}
		sd := filepath.Join(dir, shims[p])
		own := map[string]bool{}
		pkgs, err := parser.ParseDir(token.NewFileSet(), sd, func(i os.FileInfo) bool { return i.Name() != "zz_alias.go" }, 0)
		if err != nil {
			die("%v", err)
		}
		for _, pk := range pkgs {
			for _, f := range pk.Files {
				for _, d := range f.Decls {
					switch x := d.(type) {
					case *ast.FuncDecl:
						if x.Recv == nil {
							own[x.Name.Name] = true
						}
					case *ast.GenDecl:
						for _, s := range x.Specs {
							switch y := s.(type) {
							case *ast.TypeSpec:
								own[y.Name.Name] = true
							case *ast.ValueSpec:
								for _, n := range y.Names {
									own[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
		pure := map[string]bool{}
		for _, f := range strings.Fields(pureFuncs[p]) {
			pure[f] = true
		}
		var b strings.Builder
		fmt.Fprintf(&b, "// Generated by zrw -genshim. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", tp.Name(), p)
		n := 0
		for _, nm := range tp.Scope().Names() {
			o := tp.Scope().Lookup(nm)
			if !o.Exported() || own[nm] || skipVars[p+"."+nm] {
				continue
			}
			switch x := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real.%s\n", nm, nm)
			case *types.TypeName:
				if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				if p == "sync" || p == "os/exec" || p == "os" && nm != "FileInfo" && nm != "FileMode" && nm != "DirEntry" && nm != "PathError" && nm != "LinkError" && nm != "SyscallError" {
					continue
				}
				fmt.Fprintf(&b, "type %s = real.%s\n", nm, nm)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", nm, nm)
			case *types.Func:
				if !pure[nm] {
					continue
				}
				if x.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				// a plain variable would be slower to call; the compiler does not care
				fmt.Fprintf(&b, "var %s = real.%s\n", nm, nm)
			default:
				continue
			}
			n++
		}
		if n == 0 {
			os.Remove(filepath.Join(sd, "zz_alias.go"))
			continue
		}
		if err := os.WriteFile(filepath.Join(sd, "zz_alias.go"), []byte(b.String()), 0644); err != nil {
			die("%v", err)
		}
	}
}
