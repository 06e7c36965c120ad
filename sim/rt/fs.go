package rt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// ---- in-memory file system --------------------------------------------------

type Node struct {
	Ino    int
	Dir    bool
	Link   string // symlink target
	Kids   map[string]*Node
	Data   []byte
	Mode   fs.FileMode
	Mtime  int64
	Unread bool // permanently unreadable (EIO), set by scenarios
}

type FS struct {
	s    *Sim
	root *Node
	ino  int
	// Quota in bytes for file data; 0 means unlimited.
	Writes int64
	// Watch is called after every change that can be seen by other processes.
	Watch func(op, path string)
}

func newFS(s *Sim) *FS {
	f := &FS{s: s}
	f.root = f.node(true)
	return f
}

func (f *FS) node(dir bool) *Node {
	f.ino++
	n := &Node{Ino: f.ino, Dir: dir, Mtime: f.s.now, Mode: 0644}
	if dir {
		n.Kids = map[string]*Node{}
		n.Mode = 0755 | fs.ModeDir
	}
	return n
}

func clean(cwd, p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	return path.Clean(p)
}

// walk resolves p; parent is the node of the directory that holds the last
// element (nil for the root).
func (f *FS) walk(p string, follow bool) (parent *Node, base string, n *Node, err error) {
	depth := 0
again:
	cur := f.root
	if p == "/" {
		return nil, "", cur, nil
	}
	segs := strings.Split(p[1:], "/")
	for i, seg := range segs {
		if !cur.Dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if len(seg) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		kid, ok := cur.Kids[seg]
		last := i == len(segs)-1
		if !ok {
			if last {
				return cur, seg, nil, syscall.ENOENT
			}
			return nil, "", nil, syscall.ENOENT
		}
		if kid.Link != "" && (!last || follow) {
			depth++
			if depth > 20 {
				return nil, "", nil, syscall.ELOOP
			}
			t := kid.Link
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(segs[:i], "/") + "/" + t
			}
			p = path.Clean(t + "/" + strings.Join(segs[i+1:], "/"))
			goto again
		}
		if last {
			return cur, seg, kid, nil
		}
		cur = kid
	}
	return nil, "", nil, syscall.ENOENT
}

// ---- direct access for scenarios and oracles (no faults, no time) -----------

func (f *FS) Get(p string) ([]byte, bool) {
	_, _, n, err := f.walk(path.Clean(p), true)
	if err != nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

func (f *FS) Exists(p string) bool {
	_, _, _, err := f.walk(path.Clean(p), true)
	return err == nil
}

func (f *FS) IsDir(p string) bool {
	_, _, n, err := f.walk(path.Clean(p), true)
	return err == nil && n.Dir
}

func (f *FS) Put(p string, data string) {
	p = path.Clean(p)
	f.MkAll(path.Dir(p))
	par, base, n, _ := f.walk(p, true)
	if n == nil {
		n = f.node(false)
		par.Kids[base] = n
	}
	n.Data = []byte(data)
	n.Mtime = f.s.now + f.s.Offset
}

func (f *FS) MkAll(p string) {
	p = path.Clean(p)
	if p == "/" {
		return
	}
	f.MkAll(path.Dir(p))
	par, base, n, _ := f.walk(p, true)
	if n == nil {
		par.Kids[base] = f.node(true)
	}
}

func (f *FS) RemoveTree(p string) {
	par, base, n, err := f.walk(path.Clean(p), false)
	if err == nil && n != nil && par != nil {
		delete(par.Kids, base)
	}
}

// Symlink makes a symbolic link (for scenarios).
func (f *FS) Symlink(p, target string) {
	f.Put(p, "")
	parent, base, _, _ := f.walk(path.Clean(p), false)
	n := f.node(false)
	n.Link = target
	n.Mode = 0777 | fs.ModeSymlink
	parent.Kids[base] = n
}

func (f *FS) SetUnreadable(p string, on bool) {
	_, _, n, err := f.walk(path.Clean(p), true)
	if err == nil {
		n.Unread = on
	}
}

func (f *FS) List(p string) []string {
	_, _, n, err := f.walk(path.Clean(p), true)
	if err != nil || !n.Dir {
		return nil
	}
	var out []string
	for k := range n.Kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Tree returns path -> content of every file below p.
func (f *FS) Tree(p string) map[string]string {
	out := map[string]string{}
	p = path.Clean(p)
	_, _, n, err := f.walk(p, true)
	if err != nil {
		return out
	}
	var rec func(n *Node, p string)
	rec = func(n *Node, p string) {
		if !n.Dir {
			out[p] = string(n.Data)
			return
		}
		for k, c := range n.Kids {
			rec(c, p+"/"+k)
		}
	}
	rec(n, strings.TrimSuffix(p, "/"))
	return out
}

// ---- streams ----------------------------------------------------------------

// Chunk is one piece of output on a terminal-like sink.
type Chunk struct {
	Seq  int64
	T    int64
	Data string
}

// Sink collects the output of a simulated process.
type Sink struct {
	Chunks []Chunk
	Peers  *Sink // combined stream (stdout and stderr in arrival order)
	Closed bool
}

func (k *Sink) add(s *Sim, b []byte) {
	s.seq++
	c := Chunk{s.seq, s.now, string(b)}
	k.Chunks = append(k.Chunks, c)
	if k.Peers != nil {
		k.Peers.Chunks = append(k.Peers.Chunks, c)
	}
}

func (k *Sink) String() string {
	var b strings.Builder
	for _, c := range k.Chunks {
		b.WriteString(c.Data)
	}
	return b.String()
}

// Pipe is a byte stream between processes, or from the scenario to a process.
type Pipe struct {
	buf      []byte
	writers  int
	readers  int
	rwait    []*Task
	wwait    []*Task
	Reads    int64 // number of times a reader blocked or took data
	OnBlock  func() // called when a reader is about to block
	Unlimited bool
	Lines     bool // a reader gets at most one line at a time
}

func (s *Sim) NewPipe() *Pipe { return &Pipe{} }

func (p *Pipe) wakeAll(s *Sim) {
	for _, t := range p.rwait {
		s.ready(t)
	}
	p.rwait = nil
	for _, t := range p.wwait {
		s.ready(t)
	}
	p.wwait = nil
}

// Feed adds data from the scenario.
func (p *Pipe) Feed(s *Sim, data string) {
	p.buf = append(p.buf, data...)
	p.wakeAll(s)
}

// CloseWrite is end of input from the scenario.
func (p *Pipe) CloseWrite(s *Sim) {
	p.writers = 0
	p.wakeAll(s)
}

// NewInput is a pipe whose writing end is held by the scenario.
func (s *Sim) NewInput() *Pipe {
	return &Pipe{writers: 1}
}

// ---- open files -------------------------------------------------------------

type File struct {
	id     int
	name   string
	path   string
	node   *Node
	pos    int64
	flag   int
	proc   *Proc
	closed bool
	Sink   *Sink
	rp     *Pipe // read end
	wp     *Pipe // write end
	dirPos int
	refs   int
}

func (s *Sim) newFile(p *Proc, name string) *File {
	s.nextTID++ // any unique number will do
	f := &File{id: s.nextTID, name: name, proc: p}
	if p != nil {
		p.files[f] = true
	}
	return f
}

func (s *Sim) SinkFile(p *Proc, name string, k *Sink) *File {
	f := s.newFile(p, name)
	f.Sink = k
	return f
}

func (s *Sim) PipeReader(p *Proc, name string, pp *Pipe) *File {
	f := s.newFile(p, name)
	f.rp = pp
	pp.readers++
	return f
}

func (s *Sim) PipeWriter(p *Proc, name string, pp *Pipe) *File {
	f := s.newFile(p, name)
	f.wp = pp
	pp.writers++
	return f
}

// Dup gives process p its own handle on the same open file.
func (f *File) Dup(s *Sim, p *Proc) *File {
	n := s.newFile(p, f.name)
	n.path, n.node, n.pos, n.flag, n.Sink, n.rp, n.wp = f.path, f.node, f.pos, f.flag, f.Sink, f.rp, f.wp
	if n.rp != nil {
		n.rp.readers++
	}
	if n.wp != nil {
		n.wp.writers++
	}
	return n
}

// drop releases the file when closed or when its process dies.
func (f *File) drop() {
	if f.closed {
		return
	}
	f.closed = true
	s := S
	if f.rp != nil {
		f.rp.readers--
		f.rp.wakeAll(s)
	}
	if f.wp != nil {
		f.wp.writers--
		f.wp.wakeAll(s)
	}
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// ---- operations with faults -------------------------------------------------

type act struct {
	err   error
	n     int // for torn writes: bytes written before the fault
	torn  bool
	crash bool
	post  bool // crash after the effect
}

var opErrs = map[string]map[string]error{
	"EIO":    nil,
	"ENOSPC": nil,
}

func errnoOf(kind string) error {
	switch kind {
	case "EIO":
		return syscall.EIO
	case "ENOSPC":
		return syscall.ENOSPC
	case "EMFILE":
		return syscall.EMFILE
	case "EACCES":
		return syscall.EACCES
	case "ENOENT":
		return syscall.ENOENT
	case "EAGAIN":
		return syscall.EAGAIN
	case "EROFS":
		return syscall.EROFS
	}
	return syscall.EIO
}

// op is the common entry of every simulated system call of process p.
func (s *Sim) op(op, pth string, n int) act {
	me := s.alive()
	p := me.Proc
	s.tick()
	s.opPoint()
	me = s.alive() // may have been killed while others ran
	p.OpCount++
	s.Counts["ops"]++
	switch op {
	case "open-w", "write", "rename", "remove", "mkdir", "link", "exec", "truncate", "close-w":
		p.MutCount++
		if p.MutCount == p.StallMut {
			s.Counts["stalls"]++
			s.Event("STALL %d", p.StallFor)
			s.Sleep(p.StallFor)
		}
	}
	if s.OnOp != nil {
		s.OnOp(p, op, pth)
	}
	s.Event("%s %s %d", op, pth, n)
	var a act
	if s.FaultWin && p.Faulty {
		idx := s.nSite
		s.nSite++
		s.Sites = append(s.Sites, Site{op, pth, p.Pid, n})
		if f, ok := s.faultIdx[idx]; ok && (f.Op == "" || f.Op == op) {
			s.Event("FAULT %s on %s %s", f.Kind, op, pth)
			s.Fired = append(s.Fired, FiredFault{f, op, pth, p.Pid, s.now})
			switch f.Kind {
			case "crash":
				s.crash(p, "crash before "+op+" "+pth)
			case "crash-torn":
				a.crash = true
				a.torn = true
				if n > 0 {
					a.n = f.Param % (n + 1)
				}
			case "crash-after":
				a.post = true
			case "short": // partial write, then error
				a.torn = true
				if n > 0 {
					a.n = f.Param % n
				}
				a.err = syscall.ENOSPC
			case "stall":
				s.Sleep(int64(f.Param%100+1) * 1e8)
			case "clock-jump":
				s.Offset += int64(f.Param) * 1e9
			default:
				a.err = errnoOf(f.Kind)
			}
		}
	}
	return a
}

// done finishes an operation: a crash that strikes right after its effect.
func (s *Sim) done(a act, what string) {
	if a.post || a.crash {
		s.crash(s.cur.Proc, "crash after "+what)
	}
}

func (s *Sim) changed(op, p string) {
	if s.FS.Watch != nil {
		s.FS.Watch(op, p)
	}
}

const (
	O_RDONLY = syscall.O_RDONLY
	O_WRONLY = syscall.O_WRONLY
	O_RDWR   = syscall.O_RDWR
	O_APPEND = syscall.O_APPEND
	O_CREATE = syscall.O_CREAT
	O_EXCL   = syscall.O_EXCL
	O_SYNC   = syscall.O_SYNC
	O_TRUNC  = syscall.O_TRUNC
)

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	s := S
	p := s.alive().Proc
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	pth := clean(p.Cwd, name)
	cls := "open-r"
	if flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) != 0 {
		cls = "open-w"
	}
	a := s.op(cls, pth, 0)
	if a.err != nil {
		return nil, perr("open", name, a.err)
	}
	par, base, n, err := s.FS.walk(pth, true)
	if err != nil && !(err == syscall.ENOENT && par != nil) {
		return nil, perr("open", name, err)
	}
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if strings.HasSuffix(name, "/") {
			return nil, perr("open", name, syscall.EISDIR)
		}
		n = s.FS.node(false)
		n.Mode = perm & 0777
		n.Mtime = s.now + s.Offset
		par.Kids[base] = n
		s.changed("create", pth)
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.Dir && flag&(O_WRONLY|O_RDWR|O_TRUNC) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if n.Unread && flag&(O_WRONLY) == 0 {
			return nil, perr("open", name, syscall.EACCES)
		}
		if flag&O_TRUNC != 0 && len(n.Data) > 0 {
			n.Data = nil
			n.Mtime = s.now + s.Offset
			s.changed("truncate", pth)
		}
	}
	f := s.newFile(p, name)
	f.path = pth
	f.node = n
	f.flag = flag
	s.done(a, "open "+pth)
	return f, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Node() *Node  { return f.node }
func (f *File) Path() string { return f.path }
func (f *File) IsStream() bool {
	return f.node == nil
}
func (f *File) Fd() int { return f.id }

func (f *File) chk(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, fs.ErrClosed)
	}
	return nil
}

func (f *File) label() string {
	if f.path != "" {
		return f.path
	}
	return "<" + f.name + ">"
}

func (f *File) Read(b []byte) (int, error) {
	s := S
	me := s.alive()
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.rp != nil {
		s.tick()
		s.opPoint()
		pp := f.rp
		for len(pp.buf) == 0 {
			if pp.writers == 0 {
				s.Event("read %s eof", f.label())
				return 0, io.EOF
			}
			pp.Reads++
			pp.rwait = append(pp.rwait, me)
			if pp.OnBlock != nil {
				pp.OnBlock()
			}
			if len(pp.buf) > 0 || pp.writers == 0 {
				continue
			}
			s.block("read " + f.label())
		}
		n := len(pp.buf)
		if pp.Lines { // a terminal gives one line at a time
			for i, c := range pp.buf {
				if c == '\n' {
					n = i + 1
					break
				}
			}
		}
		n = copy(b, pp.buf[:n])
		pp.buf = pp.buf[n:]
		for _, t := range pp.wwait {
			s.ready(t)
		}
		pp.wwait = nil
		s.Event("read %s %q", f.label(), string(b[:n]))
		return n, nil
	}
	if f.Sink != nil {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	a := s.op("read", f.label(), 0)
	if a.err != nil {
		return 0, perr("read", f.name, a.err)
	}
	if f.node.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.node.Unread {
		return 0, perr("read", f.name, syscall.EIO)
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.pos >= int64(len(f.node.Data)) {
		return 0, io.EOF
	}
	m := len(b)
	if s.ShortReads && m > 1 { // legal: fewer bytes than asked for
		s.mapN++
		if x := Mix(s.MapSeed, s.mapN); x%3 == 0 {
			m = 1 + int(x>>8)%m
		}
	}
	n := copy(b[:m], f.node.Data[f.pos:])
	f.pos += int64(n)
	s.done(a, "read")
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	s := S
	s.alive()
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	a := s.op("read", f.label(), 0)
	if a.err != nil {
		return 0, perr("read", f.name, a.err)
	}
	if f.node == nil {
		return 0, perr("read", f.name, syscall.ESPIPE)
	}
	if off >= int64(len(f.node.Data)) {
		return 0, io.EOF
	}
	n := copy(b, f.node.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// PipeCap is the capacity of a pipe between processes.
const PipeCap = 65536

func (f *File) Write(b []byte) (int, error) {
	s := S
	me := s.alive()
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if f.Sink != nil {
		a := s.op("out", f.label(), 0)
		if a.err != nil {
			return 0, perr("write", f.name, a.err)
		}
		f.Sink.add(s, b)
		if s.KeepLog {
			s.Event("output %q", string(b))
		} else {
			s.Event("output %q", string(b))
		}
		s.done(a, "output")
		return len(b), nil
	}
	if f.wp != nil {
		a := s.op("pipe-write", f.label(), 0)
		if a.err != nil {
			return 0, perr("write", f.name, a.err)
		}
		total := 0
		for len(b) > 0 {
			if f.wp.readers == 0 {
				return total, perr("write", f.name, syscall.EPIPE)
			}
			room := PipeCap - len(f.wp.buf)
			if room <= 0 {
				f.wp.wwait = append(f.wp.wwait, me)
				s.block("write to full pipe " + f.label())
				continue
			}
			n := len(b)
			if n > room {
				n = room
			}
			f.wp.buf = append(f.wp.buf, b[:n]...)
			b = b[n:]
			total += n
			for _, t := range f.wp.rwait {
				s.ready(t)
			}
			f.wp.rwait = nil
		}
		return total, nil
	}
	if f.rp != nil {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	a := s.op("write", f.label(), len(b))
	if a.err != nil && !a.torn {
		return 0, perr("write", f.name, a.err)
	}
	data := b
	if a.torn {
		data = b[:a.n]
	}
	f.put(data)
	s.FS.Writes++
	s.changed("write", f.path)
	s.done(a, "write "+f.path)
	if a.err != nil {
		return len(data), perr("write", f.name, a.err)
	}
	return len(b), nil
}

func (f *File) put(data []byte) {
	n := f.node
	if f.flag&O_APPEND != 0 {
		f.pos = int64(len(n.Data))
	}
	end := f.pos + int64(len(data))
	if end > int64(len(n.Data)) {
		nd := make([]byte, end, end+end/2+64)
		copy(nd, n.Data)
		n.Data = nd
	} else {
		nd := make([]byte, len(n.Data))
		copy(nd, n.Data)
		n.Data = nd
	}
	copy(n.Data[f.pos:], data)
	f.pos = end
	n.Mtime = S.now + S.Offset
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.chk("seek"); err != nil {
		return 0, err
	}
	if f.node == nil {
		return 0, perr("seek", f.name, syscall.ESPIPE)
	}
	switch whence {
	case 0:
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.node.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	old, fl := f.pos, f.flag
	f.pos = off
	f.flag &^= O_APPEND
	n, err := f.Write(b)
	f.pos, f.flag = old, fl
	return n, err
}

func (f *File) Truncate(size int64) error {
	s := S
	s.alive()
	if err := f.chk("truncate"); err != nil {
		return err
	}
	a := s.op("truncate", f.label(), 0)
	if a.err != nil {
		return perr("truncate", f.name, a.err)
	}
	nd := make([]byte, size)
	copy(nd, f.node.Data)
	f.node.Data = nd
	s.changed("truncate", f.path)
	s.done(a, "truncate")
	return nil
}

func (f *File) Sync() error {
	s := S
	s.alive()
	if err := f.chk("sync"); err != nil {
		return err
	}
	a := s.op("sync", f.label(), 0)
	if a.err != nil {
		return perr("sync", f.name, a.err)
	}
	s.done(a, "sync")
	return nil
}

func (f *File) Close() error {
	s := S
	s.alive()
	if err := f.chk("close"); err != nil {
		return err
	}
	if f.node == nil {
		f.drop()
		delete(f.proc.files, f)
		return nil
	}
	op := "close"
	if f.flag&(O_WRONLY|O_RDWR) != 0 {
		op = "close-w"
	}
	a := s.op(op, f.label(), 0)
	f.drop()
	delete(f.proc.files, f)
	if a.err != nil {
		return perr("close", f.name, a.err)
	}
	s.done(a, "close")
	return nil
}

// ---- file info --------------------------------------------------------------

type Info struct {
	name string
	n    *Node
	size int64
	mode fs.FileMode
	mt   int64
}

func (i *Info) Name() string       { return i.name }
func (i *Info) Size() int64        { return i.size }
func (i *Info) Mode() fs.FileMode  { return i.mode }
func (i *Info) ModTime() time.Time { return time.Unix(0, Epoch+i.mt).UTC() }
func (i *Info) IsDir() bool        { return i.mode.IsDir() }
func (i *Info) Sys() interface{}   { return nil }
func (i *Info) Ino() int           { return i.n.Ino }

func info(name string, n *Node) *Info {
	i := &Info{name: name, n: n, size: int64(len(n.Data)), mode: n.Mode, mt: n.Mtime}
	if n.Link != "" {
		i.mode = fs.ModeSymlink | 0777
	}
	if n.Dir {
		i.size = 4096
	}
	return i
}

func (f *File) Stat() (fs.FileInfo, error) {
	s := S
	s.alive()
	if err := f.chk("stat"); err != nil {
		return nil, err
	}
	if f.node == nil {
		return &Info{name: f.name, n: &Node{}, mode: fs.ModeNamedPipe | 0600, mt: s.now}, nil
	}
	a := s.op("stat", f.label(), 0)
	if a.err != nil {
		return nil, perr("stat", f.name, a.err)
	}
	return info(path.Base(f.path), f.node), nil
}

func Stat(name string) (fs.FileInfo, error)  { return stat(name, true) }
func Lstat(name string) (fs.FileInfo, error) { return stat(name, false) }

func stat(name string, follow bool) (fs.FileInfo, error) {
	s := S
	p := s.alive().Proc
	op := "stat"
	if !follow {
		op = "lstat"
	}
	if name == "" {
		return nil, perr(op, name, syscall.ENOENT)
	}
	pth := clean(p.Cwd, name)
	a := s.op("stat", pth, 0)
	if a.err != nil {
		return nil, perr(op, name, a.err)
	}
	_, _, n, err := s.FS.walk(pth, follow)
	if err != nil {
		return nil, perr(op, name, err)
	}
	s.done(a, "stat")
	return info(path.Base(pth), n), nil
}

// ---- directory operations ---------------------------------------------------

func Mkdir(name string, perm fs.FileMode) error {
	s := S
	p := s.alive().Proc
	if name == "" {
		return perr("mkdir", name, syscall.ENOENT)
	}
	pth := clean(p.Cwd, name)
	a := s.op("mkdir", pth, 0)
	if a.err != nil {
		return perr("mkdir", name, a.err)
	}
	par, base, n, err := s.FS.walk(pth, true)
	if n != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if par == nil {
		return perr("mkdir", name, err)
	}
	d := s.FS.node(true)
	d.Mode = fs.ModeDir | perm&0777
	par.Kids[base] = d
	s.changed("mkdir", pth)
	s.done(a, "mkdir")
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	s := S
	p := s.alive().Proc
	if name == "" {
		return perr("mkdir", name, syscall.ENOENT)
	}
	if st, err := Stat(name); err == nil {
		if st.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	pth := clean(p.Cwd, name)
	if par := path.Dir(pth); par != "/" && par != pth {
		if err := MkdirAll(par, perm); err != nil {
			return err
		}
	}
	err := Mkdir(pth, perm)
	if err != nil {
		if st, e2 := Lstat(pth); e2 == nil && st.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	s := S
	p := s.alive().Proc
	if name == "" {
		return perr("remove", name, syscall.ENOENT)
	}
	pth := clean(p.Cwd, name)
	a := s.op("remove", pth, 0)
	if a.err != nil {
		return perr("remove", name, a.err)
	}
	par, base, n, err := s.FS.walk(pth, false)
	if n == nil {
		return perr("remove", name, err)
	}
	if n.Dir && len(n.Kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	if par == nil {
		return perr("remove", name, syscall.EBUSY)
	}
	delete(par.Kids, base)
	s.changed("remove", pth)
	s.done(a, "remove")
	return nil
}

func RemoveAll(name string) error {
	s := S
	p := s.alive().Proc
	if name == "" {
		return nil
	}
	pth := clean(p.Cwd, name)
	err := Remove(pth)
	if err == nil || errors.Is(err, fs.ErrNotExist) {
		return nil
	}
	if !errors.Is(err, syscall.ENOTEMPTY) {
		return err
	}
	for round := 0; round < 3; round++ {
		names, err := readNames(pth)
		if err != nil {
			if errors.Is(err, fs.ErrNotExist) {
				return nil
			}
			return err
		}
		for _, k := range names {
			if err := RemoveAll(pth + "/" + k); err != nil {
				return err
			}
		}
		err = Remove(pth)
		if err == nil || errors.Is(err, fs.ErrNotExist) {
			return nil
		}
		if !errors.Is(err, syscall.ENOTEMPTY) {
			return err
		}
	}
	return perr("unlinkat", name, syscall.ENOTEMPTY)
}

func readNames(name string) ([]string, error) {
	s := S
	p := s.alive().Proc
	pth := clean(p.Cwd, name)
	a := s.op("readdir", pth, 0)
	if a.err != nil {
		return nil, perr("open", name, a.err)
	}
	_, _, n, err := s.FS.walk(pth, true)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if !n.Dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	if n.Unread {
		return nil, perr("open", name, syscall.EACCES)
	}
	var out []string
	for k := range n.Kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out, nil
}

type dirEntry struct{ i *Info }

func (d dirEntry) Name() string { return d.i.name }
func (d dirEntry) IsDir() bool  { return d.i.IsDir() }
func (d dirEntry) String() string { return d.i.name }

func (d dirEntry) Type() fs.FileMode          { return d.i.mode.Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return d.i, nil }

func ReadDir(name string) ([]fs.DirEntry, error) {
	names, err := readNames(name)
	if err != nil {
		return nil, err
	}
	s := S
	pth := clean(s.cur.Proc.Cwd, name)
	var out []fs.DirEntry
	for _, k := range names {
		_, _, n, err := s.FS.walk(path.Clean(pth+"/"+k), false)
		if err != nil {
			continue
		}
		out = append(out, dirEntry{info(k, n)})
	}
	return out, nil
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.chk("readdir"); err != nil {
		return nil, err
	}
	all, err := ReadDir(f.path)
	if err != nil {
		return nil, err
	}
	all = all[min2(f.dirPos, len(all)):]
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		if len(all) > n {
			all = all[:n]
		}
	}
	f.dirPos += len(all)
	return all, nil
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func Rename(from, to string) error {
	s := S
	p := s.alive().Proc
	lerr := func(err error) error { return &LinkError{"rename", from, to, err} }
	if from == "" || to == "" {
		return lerr(syscall.ENOENT)
	}
	fp, tp := clean(p.Cwd, from), clean(p.Cwd, to)
	a := s.op("rename", fp+" -> "+tp, 0)
	if a.err != nil {
		return lerr(a.err)
	}
	fpar, fbase, fn, err := s.FS.walk(fp, false)
	if fn == nil {
		return lerr(err)
	}
	tpar, tbase, tn, err := s.FS.walk(tp, false)
	if tpar == nil {
		return lerr(err)
	}
	if fn.Dir && (tp == fp || strings.HasPrefix(tp, fp+"/")) {
		if tp == fp {
			return nil
		}
		return lerr(syscall.EINVAL)
	}
	if tn != nil {
		if tn == fn {
			return nil
		}
		if tn.Dir && !fn.Dir {
			return lerr(syscall.EEXIST) // os.Rename reports "file exists" for directories
		}
		if !tn.Dir && fn.Dir {
			return lerr(syscall.ENOTDIR)
		}
		if tn.Dir && len(tn.Kids) > 0 {
			return lerr(syscall.ENOTEMPTY)
		}
	}
	if s.devOf(fp) != s.devOf(tp) {
		return lerr(syscall.EXDEV)
	}
	delete(fpar.Kids, fbase)
	tpar.Kids[tbase] = fn
	s.changed("rename", fp+" -> "+tp)
	s.done(a, "rename")
	return nil
}

// Directories below /mnt/<x> are different devices.
func (s *Sim) devOf(p string) string {
	if strings.HasPrefix(p, "/mnt/") {
		rest := p[5:]
		if i := strings.IndexByte(rest, '/'); i >= 0 {
			rest = rest[:i]
		}
		return rest
	}
	return ""
}

type LinkError = os.LinkError

func Symlink(old, name string) error {
	s := S
	p := s.alive().Proc
	pth := clean(p.Cwd, name)
	a := s.op("symlink", pth, 0)
	if a.err != nil {
		return &LinkError{"symlink", old, name, a.err}
	}
	par, base, n, err := s.FS.walk(pth, false)
	if n != nil {
		return &LinkError{"symlink", old, name, syscall.EEXIST}
	}
	if par == nil {
		return &LinkError{"symlink", old, name, err}
	}
	l := s.FS.node(false)
	l.Link = old
	par.Kids[base] = l
	return nil
}

func Link(old, name string) error {
	s := S
	p := s.alive().Proc
	a := s.op("link", clean(p.Cwd, name), 0)
	if a.err != nil {
		return &LinkError{"link", old, name, a.err}
	}
	_, _, on, err := s.FS.walk(clean(p.Cwd, old), false)
	if on == nil {
		return &LinkError{"link", old, name, err}
	}
	par, base, n, err := s.FS.walk(clean(p.Cwd, name), false)
	if n != nil {
		return &LinkError{"link", old, name, syscall.EEXIST}
	}
	if par == nil {
		return &LinkError{"link", old, name, err}
	}
	par.Kids[base] = on
	s.changed("link", clean(p.Cwd, name))
	s.done(a, "link")
	return nil
}

func Readlink(name string) (string, error) {
	s := S
	p := s.alive().Proc
	_, _, n, err := s.FS.walk(clean(p.Cwd, name), false)
	if err != nil {
		return "", perr("readlink", name, err)
	}
	if n.Link == "" {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return n.Link, nil
}

func EvalSymlinks(name string) (string, error) {
	s := S
	p := s.alive().Proc
	pth := clean(p.Cwd, name)
	for i := 0; i < 20; i++ {
		_, _, n, err := s.FS.walk(pth, false)
		if err != nil {
			return "", perr("lstat", name, err)
		}
		if n.Link == "" {
			return pth, nil
		}
		t := n.Link
		if !strings.HasPrefix(t, "/") {
			t = path.Dir(pth) + "/" + t
		}
		pth = path.Clean(t)
	}
	return "", fmt.Errorf("EvalSymlinks: too many links")
}

func Chmod(name string, mode fs.FileMode) error {
	s := S
	p := s.alive().Proc
	a := s.op("chmod", clean(p.Cwd, name), 0)
	if a.err != nil {
		return perr("chmod", name, a.err)
	}
	_, _, n, err := s.FS.walk(clean(p.Cwd, name), true)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.Mode = n.Mode&^0777 | mode&0777
	return nil
}

func Chtimes(name string, mtime int64) error {
	s := S
	p := s.alive().Proc
	_, _, n, err := s.FS.walk(clean(p.Cwd, name), true)
	if err != nil {
		return perr("chtimes", name, err)
	}
	n.Mtime = mtime
	return nil
}

func Chdir(name string) error {
	s := S
	p := s.alive().Proc
	pth := clean(p.Cwd, name)
	_, _, n, err := s.FS.walk(pth, true)
	if err != nil {
		return perr("chdir", name, err)
	}
	if !n.Dir {
		return perr("chdir", name, syscall.ENOTDIR)
	}
	p.Cwd = pth
	return nil
}

func AbsPath(name string) string { return clean(S.alive().Proc.Cwd, name) }
