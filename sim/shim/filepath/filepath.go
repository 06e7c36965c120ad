package filepath

import (
	"io/fs"
	"sort"

	"github.com/innerr/ticat/zsim/rt"
	"github.com/innerr/ticat/zsim/shim/os"
)

func Abs(p string) (string, error)          { rt.Tick(); return rt.AbsPath(p), nil }
func EvalSymlinks(p string) (string, error) { return rt.EvalSymlinks(p) }

// Walk follows the algorithm of path/filepath.
func Walk(root string, fn WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	names, err := names(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, name := range names {
		f := Join(path, name)
		fi, err := os.Lstat(f)
		if err != nil {
			if err := fn(f, fi, err); err != nil && err != SkipDir {
				return err
			}
		} else {
			err = walk(f, fi, fn)
			if err != nil {
				if !fi.IsDir() || err != SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

func names(p string) ([]string, error) {
	es, err := os.ReadDir(p)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return out, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := os.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(Join(path, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := Match(pattern, ""); err != nil {
		return nil, err
	}
	if !hasMeta(pattern) {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := Split(pattern)
	if dir == "" {
		dir = "."
	} else if len(dir) > 1 {
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if hasMeta(dir) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		ns, err := names(d)
		if err != nil {
			continue
		}
		for _, n := range ns {
			if ok, _ := Match(file, n); ok {
				out = append(out, Join(d, n))
			}
		}
	}
	return out, nil
}

func hasMeta(p string) bool {
	for _, c := range p {
		if c == '*' || c == '?' || c == '[' || c == '\\' {
			return true
		}
	}
	return false
}
