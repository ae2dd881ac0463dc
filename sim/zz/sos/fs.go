// Package sos replaces the file operations of package os by a simulated disk.
// Nothing in it touches a real file.
//
// The disk has a kernel view (what the running system sees) and a durable part
// (what survives a power loss): file data becomes durable by Sync of the file,
// changes of a directory by Sync of the directory. At a power loss an ordered
// prefix of the pending directory changes, and for every file a prefix of the
// pending writes, with the next one possibly torn or zeroed, have reached the
// disk as well.
package sos

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"zzsim.local/rt"
)

type write struct {
	truncate bool
	off      int
	data     []byte
	size     int
}

type inode struct {
	id      int
	dir     bool
	data    []byte // kernel view
	durable []byte
	pending []write
	mode    fs.FileMode
	mtime   time.Time
}

type metaOp struct {
	op       string // create, remove, rename
	path, to string
	node     *inode
}

// Fault hits the N-th file system call of an operation. Faults of reads and
// writes (short-write, torn-*, eintr-read) hit the N-th read or write.
type Fault struct {
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
}

// FS is a simulated disk
type FS struct {
	names   map[string]*inode // kernel view
	durable map[string]*inode
	meta    []metaOp
	nextID  int
	open    map[*File]bool
	tmpSeq  int

	Calls      int // calls of the current operation
	kindCalls  map[string]int
	Faults     []Fault
	Fired      map[string]int // fault kinds, which took effect
	Last       []Fault        // faults, which took effect during the current operation
	Trace      []string
	Crash      func(power bool, seed int) // called when a crash fault fires, does not return
	ShortReads int
}

// Disk is the disk of the current run
var Disk *FS

func NewFS() *FS {
	d := &FS{names: map[string]*inode{}, durable: map[string]*inode{}, open: map[*File]bool{}, Fired: map[string]int{}}
	for _, p := range []string{"/", "/data", "/tmp"} {
		n := &inode{dir: true, mode: fs.ModeDir | 0o755}
		d.names[p] = n
		d.durable[p] = n
	}
	return d
}

// Begin starts a new operation with its own faults
func (d *FS) Begin(faults []Fault) {
	d.Calls = 0
	d.kindCalls = nil
	d.Faults = faults
	d.Last = nil
}

func (d *FS) OpenHandles() int { return len(d.open) }

// Content returns the content of a file in the kernel view
func (d *FS) Content(path string) ([]byte, bool) {
	n, ok := d.names[path]
	if !ok {
		return nil, false
	}
	return append([]byte{}, n.data...), true
}

// Put replaces a file, durably
func (d *FS) Put(path string, data []byte) {
	d.syncNames()
	n := &inode{id: d.nextID, data: append([]byte{}, data...), durable: append([]byte{}, data...), mode: 0o644}
	d.nextID++
	d.names[path] = n
	d.durable[path] = n
}

// syncNames makes earlier changes of names durable, so that they can not follow a later durable one
func (d *FS) syncNames() {
	for _, op := range d.meta {
		apply(d.durable, op)
	}
	d.meta = nil
}

// Delete removes a file, durably
func (d *FS) Delete(path string) {
	d.syncNames()
	delete(d.names, path)
	delete(d.durable, path)
}

// Files lists all files in the kernel view
func (d *FS) Files() []string {
	res := []string{}
	for p, n := range d.names {
		if !n.dir {
			res = append(res, p)
		}
	}
	sort.Strings(res)
	return res
}

// ProcessCrash closes all handles, the kernel view survives
func (d *FS) ProcessCrash() {
	for f := range d.open {
		f.closed = true
	}
	d.open = map[*File]bool{}
}

// PowerLoss leaves what has reached the disk
func (d *FS) PowerLoss(seed int) {
	d.ProcessCrash()
	r := rt.NewPRNG(rt.Mix(uint64(seed), 4242))
	k := 0
	switch r.N(4) {
	case 0: // nothing pending has reached the disk
	case 1:
		k = len(d.meta)
	default:
		k = r.N(len(d.meta) + 1)
	}
	for _, op := range d.meta[:k] {
		apply(d.durable, op)
	}
	d.meta = nil
	names := map[string]*inode{}
	paths := []string{}
	for p := range d.durable {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	done := map[*inode]bool{}
	for _, p := range paths {
		n := d.durable[p]
		if !n.dir && !done[n] {
			done[n] = true
			n.data = n.settle(r)
			n.durable = append([]byte{}, n.data...)
			n.pending = nil
		}
		names[p] = n
	}
	d.names = names
	d.durable = map[string]*inode{}
	for p, n := range names {
		d.durable[p] = n
	}
}

func (n *inode) settle(r *rt.PRNG) []byte {
	data := append([]byte{}, n.durable...)
	k := 0
	switch r.N(4) {
	case 0:
	case 1:
		k = len(n.pending)
	default:
		k = r.N(len(n.pending) + 1)
	}
	for _, w := range n.pending[:k] {
		data = w.apply(data)
	}
	if k < len(n.pending) {
		w := n.pending[k]
		if !w.truncate && len(w.data) > 0 {
			switch r.N(3) {
			case 0: // torn
				w.data = w.data[:r.N(len(w.data))]
				data = w.apply(data)
			case 1: // size without data
				w.data = make([]byte, len(w.data))
				data = w.apply(data)
			}
		}
	}
	return data
}

func (w write) apply(data []byte) []byte {
	if w.truncate {
		if w.size <= len(data) {
			return data[:w.size:w.size]
		}
		return append(data[:len(data):len(data)], make([]byte, w.size-len(data))...)
	}
	end := w.off + len(w.data)
	res := append([]byte{}, data...)
	if end > len(res) {
		res = append(res, make([]byte, end-len(res))...)
	}
	copy(res[w.off:], w.data)
	return res
}

func (n *inode) write(w write) {
	n.data = w.apply(n.data)
	n.pending = append(n.pending, w)
	n.mtime = rt.Now()
}

func (n *inode) sync() {
	n.durable = append([]byte{}, n.data...)
	n.pending = nil
}

func apply(names map[string]*inode, op metaOp) {
	switch op.op {
	case "create":
		names[op.path] = op.node
	case "remove":
		if names[op.path] == op.node {
			delete(names, op.path)
		}
	case "rename":
		if names[op.path] == op.node {
			delete(names, op.path)
		}
		names[op.to] = op.node
	}
}

func (d *FS) do(op metaOp) {
	apply(d.names, op)
	d.meta = append(d.meta, op)
}

func (d *FS) syncDir(path string) {
	rest := []metaOp{}
	for _, op := range d.meta {
		if filepath.Dir(op.path) == path || (op.to != "" && filepath.Dir(op.to) == path) {
			apply(d.durable, op)
		} else {
			rest = append(rest, op)
		}
	}
	d.meta = rest
}

// call registers a file system call and returns the fault, which hits it
func (d *FS) call(name, path string) (Fault, bool) {
	if rt.Dead() {
		return Fault{Kind: "dead"}, true
	}
	rt.Y(-1)
	n := d.Calls
	d.Calls++
	kindN := d.kindCalls[name]
	if d.kindCalls == nil {
		d.kindCalls = map[string]int{}
	}
	d.kindCalls[name]++
	d.Trace = append(d.Trace, name+" "+path)
	if s := rt.Active(); s != nil {
		s.Event("fs %s %s", name, path)
	}
	for _, f := range d.Faults {
		switch f.Kind {
		case "short-write", "torn-crash", "torn-power": // hits the N-th write
			if name != "write" || f.N != kindN {
				continue
			}
		case "eintr-read": // hits the N-th read
			if name != "read" || f.N != kindN {
				continue
			}
		default:
			if f.N != n {
				continue
			}
		}
		switch f.Kind {
		case "crash", "power": // before the call
			d.fired(f)
			d.Crash(f.Kind == "power", f.Arg)
		}
		return f, true
	}
	return Fault{}, false
}

func (d *FS) fired(f Fault) {
	d.Fired[f.Kind]++
	d.Last = append(d.Last, f)
	if s := rt.Active(); s != nil {
		s.Event("fault %s", f.Kind)
	}
}

// after handles crashes, which follow the call
func (d *FS) after(f Fault, ok bool) {
	if ok && (f.Kind == "crash-after" || f.Kind == "power-after") {
		d.fired(f)
		d.Crash(f.Kind == "power-after", f.Arg)
	}
}

func (d *FS) fail(f Fault, op, path string, def syscall.Errno) error {
	if f.Kind == "dead" {
		return &fs.PathError{Op: op, Path: path, Err: syscall.EIO}
	}
	d.fired(f)
	errno := def
	switch f.Kind {
	case "eio":
		errno = syscall.EIO
	case "enospc":
		errno = syscall.ENOSPC
	case "emfile":
		errno = syscall.EMFILE
	case "eacces":
		errno = syscall.EACCES
	}
	return &fs.PathError{Op: op, Path: path, Err: errno}
}

func isErr(f Fault, ok bool) bool {
	if !ok {
		return false
	}
	switch f.Kind {
	case "eio", "enospc", "emfile", "eacces", "dead":
		return true
	}
	return false
}

func clean(path string) string {
	if !filepath.IsAbs(path) {
		path = "/data/" + path
	}
	return filepath.Clean(path)
}

var errNoDisk = &fs.PathError{Op: "open", Path: "?", Err: syscall.ENOSYS}

// File is an open file of the simulated disk
type File struct {
	name   string
	path   string
	node   *inode
	off    int
	flag   int
	closed bool
	listed int
	disk   *FS
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	d := Disk
	if d == nil {
		return nil, errNoDisk
	}
	f, hit := d.call("open", name)
	if isErr(f, hit) {
		return nil, d.fail(f, "open", name, syscall.EIO)
	}
	path := clean(name)
	node, ok := d.names[path]
	if name == "" {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	if !ok {
		if flag&os.O_CREATE == 0 {
			return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		if parent, ok := d.names[filepath.Dir(path)]; !ok || !parent.dir {
			return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		node = &inode{id: d.nextID, mode: perm & 0o755, mtime: rt.Now()}
		d.nextID++
		d.do(metaOp{op: "create", path: path, node: node})
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EEXIST}
		}
		if node.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EISDIR}
		}
		if flag&os.O_TRUNC != 0 && !node.dir {
			node.write(write{truncate: true})
		}
	}
	file := &File{name: name, path: path, node: node, flag: flag, disk: d}
	d.open[file] = true
	d.after(f, hit)
	return file, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 99 }

func (f *File) bad(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	d := f.disk
	ft, hit := d.call("read", f.name)
	if isErr(ft, hit) {
		return 0, d.fail(ft, "read", f.name, syscall.EIO)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: syscall.EBADF}
	}
	if f.node.dir {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: syscall.EISDIR}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= len(f.node.data) {
		d.after(ft, hit)
		return 0, io.EOF
	}
	avail := len(f.node.data) - f.off
	if avail > len(b) {
		avail = len(b)
	}
	if hit && ft.Kind == "eintr-read" { // fails after a part
		n := ft.Arg % (avail + 1)
		copy(b[:n], f.node.data[f.off:])
		f.off += n
		return n, d.fail(ft, "read", f.name, syscall.EIO)
	}
	if d.ShortReads > 0 {
		n := 1 + rt.NewPRNG(rt.Mix(uint64(d.ShortReads), uint64(f.off), uint64(d.Calls))).N(avail)
		if n < avail {
			d.Fired["short-read"]++
		}
		avail = n
	}
	n := copy(b[:avail], f.node.data[f.off:])
	f.off += n
	d.after(ft, hit)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	d := f.disk
	ft, hit := d.call("read", f.name)
	if isErr(ft, hit) {
		return 0, d.fail(ft, "read", f.name, syscall.EIO)
	}
	if int(off) >= len(f.node.data) {
		return 0, io.EOF
	}
	n := copy(b, f.node.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) writeAt(b []byte, off int) (int, error) {
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	d := f.disk
	ft, hit := d.call("write", f.name)
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
	}
	if hit && (ft.Kind == "short-write" || ft.Kind == "torn-crash" || ft.Kind == "torn-power") {
		n := 0
		if len(b) > 0 {
			n = ft.Arg % len(b)
		}
		f.node.write(write{off: off, data: append([]byte{}, b[:n]...)})
		f.off = off + n
		if ft.Kind == "short-write" {
			return n, d.fail(ft, "write", f.name, syscall.ENOSPC)
		}
		d.fired(ft)
		d.Crash(ft.Kind == "torn-power", ft.Arg)
	}
	if isErr(ft, hit) {
		return 0, d.fail(ft, "write", f.name, syscall.EIO)
	}
	f.node.write(write{off: off, data: append([]byte{}, b...)})
	f.off = off + len(b)
	d.after(ft, hit)
	return len(b), nil
}

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.flag&os.O_APPEND != 0 && !f.closed {
		f.off = len(f.node.data)
	}
	if f == nil {
		return 0, os.ErrInvalid
	}
	return f.writeAt(b, f.off)
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	keep := f.off
	n, err := f.writeAt(b, int(off))
	f.off = keep
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	var total int64
	buf := make([]byte, 32*1024)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			w, werr := f.Write(buf[:n])
			total += int64(w)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.bad("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		offset += int64(f.off)
	case io.SeekEnd:
		offset += int64(len(f.node.data))
	}
	if offset < 0 {
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: syscall.EINVAL}
	}
	f.off = int(offset)
	return offset, nil
}

func (f *File) Sync() error {
	if err := f.bad("sync"); err != nil {
		return err
	}
	d := f.disk
	ft, hit := d.call("sync", f.name)
	if isErr(ft, hit) {
		return d.fail(ft, "sync", f.name, syscall.EIO)
	}
	if f.node.dir {
		d.syncDir(f.path)
	} else {
		f.node.sync()
	}
	d.after(ft, hit)
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	d := f.disk
	ft, hit := d.call("close", f.name)
	if ft.Kind == "dead" {
		return nil
	}
	f.closed = true
	delete(d.open, f)
	if isErr(ft, hit) {
		return d.fail(ft, "close", f.name, syscall.EIO)
	}
	d.after(ft, hit)
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.bad("truncate"); err != nil {
		return err
	}
	d := f.disk
	ft, hit := d.call("truncate", f.name)
	if isErr(ft, hit) {
		return d.fail(ft, "truncate", f.name, syscall.EIO)
	}
	f.node.write(write{truncate: true, size: int(size)})
	d.after(ft, hit)
	return nil
}

func (f *File) Chmod(mode fs.FileMode) error {
	if err := f.bad("chmod"); err != nil {
		return err
	}
	return Chmod(f.name, mode)
}

func (f *File) Chown(uid, gid int) error { return f.bad("chown") }

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.bad("stat"); err != nil {
		return nil, err
	}
	d := f.disk
	ft, hit := d.call("stat", f.name)
	if isErr(ft, hit) {
		return nil, d.fail(ft, "stat", f.name, syscall.EIO)
	}
	return f.node.info(f.path), nil
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.bad("readdir"); err != nil {
		return nil, err
	}
	entries, err := ReadDir(f.name)
	if err != nil {
		return nil, err
	}
	entries = entries[f.listed:]
	if n > 0 && len(entries) > n {
		entries = entries[:n]
	}
	f.listed += len(entries)
	if n > 0 && len(entries) == 0 {
		return nil, io.EOF
	}
	return entries, nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	entries, err := f.ReadDir(n)
	res := []fs.FileInfo{}
	for _, e := range entries {
		i, _ := e.Info()
		res = append(res, i)
	}
	return res, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	entries, err := f.ReadDir(n)
	res := []string{}
	for _, e := range entries {
		res = append(res, e.Name())
	}
	return res, err
}

type info struct {
	name string
	n    *inode
	size int64
}

func (n *inode) info(path string) fs.FileInfo {
	return info{filepath.Base(path), n, int64(len(n.data))}
}
func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return i.size }
func (i info) Mode() fs.FileMode          { return i.n.mode }
func (i info) ModTime() time.Time         { return i.n.mtime }
func (i info) IsDir() bool                { return i.n.dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.n.mode.Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

// simple runs a call, which works on one name
func simple(name, path string, fn func(d *FS, path string) error) error {
	d := Disk
	if d == nil {
		return errNoDisk
	}
	f, hit := d.call(name, path)
	if isErr(f, hit) {
		return d.fail(f, name, path, syscall.EIO)
	}
	err := fn(d, clean(path))
	if err == nil {
		d.after(f, hit)
	}
	return err
}

func Remove(name string) error {
	return simple("remove", name, func(d *FS, path string) error {
		node, ok := d.names[path]
		if !ok {
			return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
		}
		if node.dir {
			for p := range d.names {
				if p != path && strings.HasPrefix(p, path+"/") {
					return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOTEMPTY}
				}
			}
		}
		d.do(metaOp{op: "remove", path: path, node: node})
		return nil
	})
}

func RemoveAll(name string) error {
	return simple("removeall", name, func(d *FS, path string) error {
		paths := []string{}
		for p := range d.names {
			if p == path || strings.HasPrefix(p, path+"/") {
				paths = append(paths, p)
			}
		}
		sort.Sort(sort.Reverse(sort.StringSlice(paths)))
		for _, p := range paths {
			d.do(metaOp{op: "remove", path: p, node: d.names[p]})
		}
		return nil
	})
}

func Rename(from, to string) error {
	return simple("rename", from, func(d *FS, path string) error {
		node, ok := d.names[path]
		target := clean(to)
		parent, pok := d.names[filepath.Dir(target)]
		if !ok || !pok || !parent.dir {
			return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
		}
		if tmp := TempDir() + "/"; strings.HasPrefix(path, tmp) != strings.HasPrefix(target, tmp) {
			return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EXDEV} // another file system
		}
		if t, ok := d.names[target]; ok && t.dir != node.dir {
			return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EEXIST}
		}
		d.do(metaOp{op: "rename", path: path, to: target, node: node})
		return nil
	})
}

func Link(from, to string) error {
	return simple("link", to, func(d *FS, target string) error {
		node, ok := d.names[clean(from)]
		if !ok {
			return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.ENOENT}
		}
		if _, ok := d.names[target]; ok {
			return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.EEXIST}
		}
		d.do(metaOp{op: "create", path: target, node: node})
		return nil
	})
}

func Symlink(from, to string) error {
	return &os.LinkError{Op: "symlink", Old: from, New: to, Err: syscall.EPERM}
}

func Readlink(name string) (string, error) {
	return "", &fs.PathError{Op: "readlink", Path: name, Err: syscall.EINVAL}
}

func Stat(name string) (fs.FileInfo, error) {
	var res fs.FileInfo
	err := simple("stat", name, func(d *FS, path string) error {
		node, ok := d.names[path]
		if !ok {
			return &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
		}
		res = node.info(path)
		return nil
	})
	return res, err
}

func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.n == y.n
}

func Mkdir(name string, perm fs.FileMode) error {
	return simple("mkdir", name, func(d *FS, path string) error {
		if _, ok := d.names[path]; ok {
			return &fs.PathError{Op: "mkdir", Path: name, Err: syscall.EEXIST}
		}
		if p, ok := d.names[filepath.Dir(path)]; !ok || !p.dir {
			return &fs.PathError{Op: "mkdir", Path: name, Err: syscall.ENOENT}
		}
		d.do(metaOp{op: "create", path: path, node: &inode{dir: true, mode: fs.ModeDir | perm, mtime: rt.Now()}})
		return nil
	})
}

func MkdirAll(name string, perm fs.FileMode) error {
	return simple("mkdirall", name, func(d *FS, path string) error {
		parts := strings.Split(strings.Trim(path, "/"), "/")
		cur := ""
		for _, p := range parts {
			cur += "/" + p
			n, ok := d.names[cur]
			if ok && !n.dir {
				return &fs.PathError{Op: "mkdir", Path: cur, Err: syscall.ENOTDIR}
			}
			if !ok {
				d.do(metaOp{op: "create", path: cur, node: &inode{dir: true, mode: fs.ModeDir | perm, mtime: rt.Now()}})
			}
		}
		return nil
	})
}

func Chmod(name string, mode fs.FileMode) error {
	return simple("chmod", name, func(d *FS, path string) error {
		n, ok := d.names[path]
		if !ok {
			return &fs.PathError{Op: "chmod", Path: name, Err: syscall.ENOENT}
		}
		n.mode = n.mode.Type() | mode.Perm()
		return nil
	})
}

func Chown(name string, uid, gid int) error {
	return simple("chown", name, func(d *FS, path string) error {
		if _, ok := d.names[path]; !ok {
			return &fs.PathError{Op: "chown", Path: name, Err: syscall.ENOENT}
		}
		return nil
	})
}

func Chtimes(name string, atime, mtime time.Time) error {
	return simple("chtimes", name, func(d *FS, path string) error {
		n, ok := d.names[path]
		if !ok {
			return &fs.PathError{Op: "chtimes", Path: name, Err: syscall.ENOENT}
		}
		n.mtime = mtime
		return nil
	})
}

func Truncate(name string, size int64) error {
	return simple("truncate", name, func(d *FS, path string) error {
		n, ok := d.names[path]
		if !ok {
			return &fs.PathError{Op: "truncate", Path: name, Err: syscall.ENOENT}
		}
		n.write(write{truncate: true, size: int(size)})
		return nil
	})
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	res := []fs.DirEntry{}
	err := simple("readdir", name, func(d *FS, path string) error {
		if n, ok := d.names[path]; !ok || !n.dir {
			return &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		paths := []string{}
		for p := range d.names {
			if p != "/" && filepath.Dir(p) == path {
				paths = append(paths, p)
			}
		}
		sort.Strings(paths)
		for _, p := range paths {
			res = append(res, d.names[p].info(p).(info))
		}
		return nil
	})
	return res, err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	data := []byte{}
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		data = append(data, buf[:n]...)
		if err == io.EOF {
			return data, nil
		}
		if err != nil {
			return data, err
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func CreateTemp(dir, pattern string) (*File, error) {
	d := Disk
	if d == nil {
		return nil, errNoDisk
	}
	if dir == "" {
		dir = TempDir()
	}
	prefix, suffix := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		prefix, suffix = pattern[:i], pattern[i+1:]
	}
	for {
		d.tmpSeq++
		name := filepath.Join(dir, prefix+itoa(d.tmpSeq+100000)+suffix)
		f, err := OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		if err != nil && os.IsExist(err) {
			continue
		}
		return f, err
	}
}

func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

func MkdirTemp(dir, pattern string) (string, error) {
	d := Disk
	if d == nil {
		return "", errNoDisk
	}
	if dir == "" {
		dir = TempDir()
	}
	d.tmpSeq++
	name := filepath.Join(dir, strings.Replace(pattern, "*", "", 1)+itoa(d.tmpSeq+100000))
	return name, Mkdir(name, 0o700)
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func Getwd() (string, error) { return "/data", nil }
func TempDir() string        { return "/tmp" }
func Getpid() int            { return 4711 }

// Exit stops the simulated process
func Exit(code int) {
	if s := rt.Active(); s != nil {
		s.Fail("exit", "the library ended the process")
	}
}
