package main

import (
	"path"
	"sort"
	"strings"

	"github.com/innerr/ticat/zsim/rt"
)

// Git is a stand-in for the git program and the servers it talks to.
type Git struct {
	w       *W
	Remotes map[string]map[string]string // address -> files
	Down    map[string]bool              // unreachable addresses
	Calls   []GitCall
	FailN   int // the next FailN network operations fail
}

type GitCall struct {
	Op   string
	Addr string
	Dir  string
	Code int
}

func newGit(w *W) *Git {
	return &Git{w: w, Remotes: map[string]map[string]string{}, Down: map[string]bool{}}
}

// net is one network operation; it may fail.
func (g *Git) net(c *rt.ExecCtx, addr string) bool {
	err := g.w.S.NetOp("git-net", addr)
	g.w.S.Sleep(int64(g.w.S.Jitter(50)+1) * 1e6)
	if err != nil || g.Down[addr] {
		return false
	}
	if _, ok := g.Remotes[addr]; !ok {
		return false
	}
	if g.FailN > 0 {
		g.FailN--
		return false
	}
	return true
}

func (g *Git) run(c *rt.ExecCtx) (code int) {
	a := c.Args
	if len(a) == 0 {
		return 1
	}
	call := GitCall{Op: a[0], Dir: c.Dir}
	defer func() {
		call.Code = code
		g.Calls = append(g.Calls, call)
	}()
	switch a[0] {
	case "clone":
		var pos []string
		branch := ""
		for i := 1; i < len(a); i++ {
			if a[i] == "-b" || a[i] == "--branch" || a[i] == "--depth" {
				i++
				if a[i-1] != "--depth" && i < len(a) {
					branch = a[i]
				}
				continue
			}
			if strings.HasPrefix(a[i], "-") {
				continue
			}
			pos = append(pos, a[i])
		}
		if len(pos) < 1 {
			return 129
		}
		addr := pos[0]
		ref := "master"
		full := addr
		if branch != "" {
			ref = branch
			full += "#" + branch
		}
		call.Addr = full
		dir := strings.TrimSuffix(path.Base(addr), ".git")
		if len(pos) > 1 {
			dir = pos[1]
		}
		if !strings.HasPrefix(dir, "/") {
			dir = path.Join(c.Dir, dir)
		}
		if st, err := rt.Stat(dir); err == nil {
			es, _ := rt.ReadDir(dir)
			if !st.IsDir() || len(es) > 0 {
				c.ErrOut("fatal: destination path '" + dir + "' already exists and is not an empty directory.\n")
				return 128
			}
		}
		c.ErrOut("Cloning into '" + dir + "'...\n")
		bad := func(msg string) int {
			rt.RemoveAll(dir)
			c.ErrOut("fatal: " + msg + "\n")
			return 128
		}
		if err := rt.MkdirAll(dir+"/.git", 0755); err != nil {
			return bad(err.Error())
		}
		if err := putFile(dir+"/.git/config", "[remote \"origin\"]\n\turl = "+addr+"\n"); err != nil {
			return bad(err.Error())
		}
		if !g.net(c, full) {
			return bad("unable to access '" + full + "'")
		}
		if err := putFile(dir+"/.git/HEAD", "ref: refs/heads/"+ref+"\n"); err != nil {
			return bad(err.Error())
		}
		if err := g.checkout(full, dir); err != nil {
			c.ErrOut("fatal: unable to checkout: " + err.Error() + "\n")
			// like git: the clone is kept when only the checkout failed
			return 128
		}
		return 0
	case "pull":
		call.Addr = g.addrOf(c.Dir)
		if !g.w.S.FS.Exists(c.Dir+"/.git/HEAD") || call.Addr == "" {
			c.ErrOut("fatal: not a git repository (or any of the parent directories): .git\n")
			return 128
		}
		if !g.net(c, call.Addr) {
			c.ErrOut("fatal: unable to access '" + call.Addr + "'\n")
			return 1
		}
		if err := g.checkout(call.Addr, c.Dir); err != nil {
			c.ErrOut("error: " + err.Error() + "\n")
			return 1
		}
		c.Out("Already up to date.\n")
		return 0
	case "status":
		if !g.w.S.FS.Exists(c.Dir + "/.git/HEAD") {
			c.ErrOut("fatal: not a git repository\n")
			return 128
		}
		c.Out("On branch master\nnothing to commit, working tree clean\n")
		return 0
	}
	c.ErrOut("git: '" + a[0] + "' is not a git command.\n")
	return 1
}

func (g *Git) addrOf(dir string) string {
	b, ok := g.w.S.FS.Get(dir + "/.git/config")
	if !ok {
		return ""
	}
	s := string(b)
	i := strings.Index(s, "url = ")
	if i < 0 {
		return ""
	}
	addr := strings.TrimSpace(s[i+6:])
	h, _ := g.w.S.FS.Get(dir + "/.git/HEAD")
	if b := strings.TrimPrefix(strings.TrimSpace(string(h)), "ref: refs/heads/"); b != "" && b != "master" {
		addr += "#" + b
	}
	return addr
}

func (g *Git) checkout(addr, dir string) error {
	files := g.Remotes[addr]
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if b, ok := g.w.S.FS.Get(dir + "/" + n); ok && string(b) == files[n] {
			continue
		}
		if err := rt.MkdirAll(path.Dir(dir+"/"+n), 0755); err != nil {
			return err
		}
		if err := putFile(dir+"/"+n, files[n]); err != nil {
			return err
		}
	}
	return nil
}

func putFile(p, data string) error {
	f, err := rt.OpenFile(p, rt.O_WRONLY|rt.O_CREATE|rt.O_TRUNC, 0644)
	if err != nil {
		return err
	}
	_, err = f.Write([]byte(data))
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
