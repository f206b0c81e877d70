package zzsim

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// ---- Clock ----

type Jump struct {
	Call  int64 `json:"call"`  // at this reading of the clock
	Delta int64 `json:"delta"` // the wall clock jumps by this many nanoseconds
}

type ClockSpec struct {
	Wall  int64  `json:"wall"` // nanoseconds since 1970 at the start
	Tick  int64  `json:"tick"` // every reading takes this long
	Jumps []Jump `json:"jumps,omitempty"`
	TZ    string `json:"tz,omitempty"` // the local time zone
}

var (
	clock     ClockSpec
	Mono      int64 // simulated nanoseconds since start
	wallSkew  int64
	clockRead int64
	cpuUser   int64
	cpuSys    int64
	Readings  []int64 // wall clock readings handed out
)

func SetClock(c ClockSpec) {
	clock = c
	if c.Tick == 0 {
		clock.Tick = 1000
	}
}

// Advance moves simulated time forward.
func Advance(d int64) {
	Mono += d
	cpuUser += d / 2
	cpuSys += d / 4
}

// Now returns the simulated wall and monotonic clocks.
func Now() (wall time.Time, mono int64) {
	Point()
	clockRead++
	for _, j := range clock.Jumps {
		if j.Call == clockRead {
			wallSkew += j.Delta
			FaultCounts.Inc("clock-jump")
		}
	}
	Advance(clock.Tick)
	wakeTimers()
	w := clock.Wall + Mono + wallSkew
	if len(Readings) < 1<<12 {
		Readings = append(Readings, w)
	}
	return withMono(time.Unix(0, w), Mono), Mono
}

// withMono gives t a reading of the monotonic clock, as time.Now does, so
// that differences of times do not show jumps of the wall clock.
func withMono(t time.Time, mono int64) time.Time {
	sec := t.Unix() - time.Date(1885, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	if sec < 0 || sec >= 1<<33 {
		return t
	}
	m := t
	p := (*struct {
		wall uint64
		ext  int64
		loc  *time.Location
	})(unsafe.Pointer(&m))
	p.wall = 1<<63 | uint64(sec)<<30 | uint64(t.Nanosecond())
	p.ext = mono + 1
	if m.UnixNano() != t.UnixNano() {
		return t // Not what this version's times look like.
	}
	return m
}

func CPU() (user, sys int64) {
	Point()
	Advance(clock.Tick)
	return cpuUser, cpuSys
}

// ---- Fault counting ----

type counts struct {
	names []string
	n     []int64
}

func (c *counts) Inc(name string) {
	for i, s := range c.names {
		if s == name {
			c.n[i]++
			return
		}
	}
	c.names = append(c.names, name)
	c.n = append(c.n, 1)
}

func (c *counts) Map() map[string]int64 {
	m := map[string]int64{}
	for i, s := range c.names {
		m[s] = c.n[i]
	}
	return m
}

var FaultCounts counts

// ---- Standard streams ----

type ReadEvent struct {
	Out  int   `json:"out"` // bytes on standard output so far
	Err  int   `json:"err"`
	In   int   `json:"in"`   // bytes of input already delivered
	Clk  int   `json:"clk"`  // readings of the clock so far
	Mono int64 `json:"mono"` // nanoseconds since the start
}

var (
	Stdout, Stderr []byte
	stdinChunks    []string
	stdinErr       string
	stdinRead      int
	Reads          []ReadEvent
	StdoutErrs     int
)

func SetStdin(chunks []string, err string) {
	stdinChunks = chunks
	stdinErr = err
}

func appendBytes(b []byte, p []byte) []byte {
	if len(b)+len(p) > cap(b) {
		nb := make([]byte, len(b), 2*cap(b)+len(p)+4096)
		for i := range b {
			nb[i] = b[i]
		}
		b = nb
	}
	n := len(b)
	b = b[:n+len(p)]
	for i := range p {
		b[n+i] = p[i]
	}
	return b
}

func readStdin(p []byte) (int, error) {
	if len(Reads) < 1<<20 {
		Reads = append(Reads, ReadEvent{len(Stdout), len(Stderr), stdinRead, len(Readings), Mono})
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(stdinChunks) == 0 {
		switch stdinErr {
		case "", "EOF":
			return 0, io.EOF
		}
		name, once := strings.CutSuffix(stdinErr, "-once")
		if once {
			stdinErr = "" // and then the end
		}
		FaultCounts.Inc("stdin-read-" + name)
		return 0, pathErr("read", "/dev/stdin", name)
	}
	c := stdinChunks[0]
	n := 0
	for n < len(p) && n < len(c) {
		p[n] = c[n]
		n++
	}
	if n == len(c) {
		stdinChunks = stdinChunks[1:]
	} else {
		stdinChunks[0] = c[n:]
	}
	stdinRead += n
	return n, nil
}

// ---- Files ----

// A Fault makes one file operation fail.
type Fault struct {
	Op   string `json:"op"`             // open, create, read, write, close, rename, remove, sync
	N    int    `json:"n"`              // the Nth such operation, from 1
	Err  string `json:"err"`            // EIO, ENOSPC, EACCES, ..., SHORT (a short read)
	Keep int    `json:"keep,omitempty"` // bytes transferred before the error
	File string `json:"file,omitempty"` // only on files with this in their name
	All  bool   `json:"all,omitempty"`  // and on every later one
	At   int    `json:"at,omitempty"`   // if N is 0, reads fail from this offset in the file on
	seen int
}

type FSSpec struct {
	Files   map[string][]byte `json:"files,omitempty"`
	Faults  []Fault           `json:"faults,omitempty"`
	FDLimit int               `json:"fdLimit,omitempty"`
	KillOp  int               `json:"killOp,omitempty"` // the process is killed at this file operation
	Short   int               `json:"short,omitempty"`  // reads of files return at most this many bytes
	Seed    uint64            `json:"seed,omitempty"`
}

type inode struct {
	data []byte
	dir  bool
	mode fs.FileMode
}

var (
	inodes    = map[string]*inode{}
	fsSpec    FSSpec
	fsOps     int
	OpenFiles int
	MaxOpen   int
	Opened    int
	openNames []string
	fsRNG     RNG
	tempN     int
)

func SetFS(s FSSpec) {
	fsSpec = s
	fsRNG = NewRNG(s.Seed ^ 0xf5)
	for name, data := range s.Files {
		inodes[clean(name)] = &inode{data: data, mode: 0o666, dir: strings.HasSuffix(name, "/")}
	}
	if fsSpec.FDLimit == 0 {
		fsSpec.FDLimit = 1 << 20
	}
}

func clean(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = "/work/" + name
	}
	return path.Clean(name)
}

// Snapshot returns the files, with names relative to the working directory.
func Snapshot() map[string][]byte {
	m := map[string][]byte{}
	for name, in := range inodes {
		if !in.dir {
			m[strings.TrimPrefix(name, "/work/")] = in.data
		}
	}
	return m
}

func OpenNames() []string {
	l := append([]string(nil), openNames...)
	sort.Strings(l)
	return l
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "ENOENT": syscall.ENOENT,
	"EMFILE": syscall.EMFILE, "EISDIR": syscall.EISDIR, "EDQUOT": syscall.EDQUOT, "EINTR": syscall.EINTR,
	"EROFS": syscall.EROFS, "EBADF": syscall.EBADF, "EPIPE": syscall.EPIPE, "ENFILE": syscall.ENFILE,
	"EEXIST": syscall.EEXIST, "ENOTDIR": syscall.ENOTDIR, "EFBIG": syscall.EFBIG,
}

func pathErr(op, name, e string) error {
	n, ok := errnos[e]
	if !ok {
		n = syscall.EIO
	}
	return &fs.PathError{Op: op, Path: name, Err: n}
}

// fsOp counts a file operation and returns the fault that hits it, if any.
func fsOp(op, name string) *Fault {
	Point()
	fsOps++
	if fsOps == fsSpec.KillOp {
		FaultCounts.Inc("kill")
		Kill()
	}
	for i := range fsSpec.Faults {
		f := &fsSpec.Faults[i]
		if f.N == 0 || f.Op != op && f.Op != "any" || f.File != "" && !strings.Contains(name, f.File) {
			continue
		}
		f.seen++
		if f.seen == f.N || f.All && f.seen > f.N {
			FaultCounts.Inc(op + "-" + f.Err)
			return f
		}
	}
	return nil
}

func FSOps() int { return fsOps }

// A File is an open simulated file or standard stream.
type File struct {
	name   string
	std    int // 1 in, 2 out, 3 err
	in     *inode
	off    int
	flag   int
	closed bool
}

func Std(n int) *File {
	return &File{name: []string{"", "/dev/stdin", "/dev/stdout", "/dev/stderr"}[n], std: n}
}

const (
	oWRONLY = syscall.O_WRONLY
	oRDWR   = syscall.O_RDWR
	oCREATE = syscall.O_CREAT
	oEXCL   = syscall.O_EXCL
	oTRUNC  = syscall.O_TRUNC
	oAPPEND = syscall.O_APPEND
)

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	op := "open"
	if flag&oCREATE != 0 {
		op = "create"
	}
	if f := fsOp(op, name); f != nil {
		return nil, pathErr("open", name, f.Err)
	}
	if OpenFiles >= fsSpec.FDLimit {
		FaultCounts.Inc("fd-limit")
		return nil, pathErr("open", name, "EMFILE")
	}
	if name == "" {
		return nil, pathErr("open", name, "ENOENT")
	}
	switch name {
	case "/dev/stdin":
		return Std(1), nil
	case "/dev/stdout":
		return Std(2), nil
	case "/dev/stderr":
		return Std(3), nil
	}
	p := clean(name)
	in := inodes[p]
	switch {
	case in == nil && flag&oCREATE == 0:
		return nil, pathErr("open", name, "ENOENT")
	case in != nil && flag&oCREATE != 0 && flag&oEXCL != 0:
		return nil, pathErr("open", name, "EEXIST")
	case in != nil && in.dir && flag&(oWRONLY|oRDWR) != 0:
		return nil, pathErr("open", name, "EISDIR")
	case !isDir(path.Dir(p)):
		return nil, pathErr("open", name, "ENOENT")
	case in == nil:
		in = &inode{mode: perm}
		inodes[p] = in
	}
	if flag&oTRUNC != 0 {
		in.data = nil
	}
	OpenFiles++
	Opened++
	if OpenFiles > MaxOpen {
		MaxOpen = OpenFiles
	}
	openNames = append(openNames, name)
	return &File{name: name, in: in, flag: flag}, nil
}

func (f *File) Name() string { return f.name }

func (f *File) Fd() uintptr { return uintptr(f.std) - 1 }

func (f *File) Read(p []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if f.closed {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: fs.ErrClosed}
	}
	if f.std == 1 {
		Point()
		return readStdin(p)
	}
	if f.std != 0 || f.flag&oWRONLY != 0 {
		return 0, pathErr("read", f.name, "EBADF")
	}
	if f.in.dir {
		return 0, pathErr("read", f.name, "EISDIR")
	}
	max := len(p)
	if fsSpec.Short > 0 {
		max = 1 + fsRNG.Intn(fsSpec.Short)
		if max < len(p) {
			FaultCounts.Inc("short-read")
		}
	}
	flt := fsOp("read", f.name)
	if flt != nil {
		max = flt.Keep
	}
	for i := range fsSpec.Faults {
		if b := &fsSpec.Faults[i]; flt == nil && b.N == 0 && b.Op == "read" && strings.Contains(f.name, b.File) {
			// A bad sector.
			if f.off >= b.At {
				FaultCounts.Inc("bad-sector-" + b.Err)
				return 0, pathErr("read", f.name, b.Err)
			}
			max = min(max, b.At-f.off)
		}
	}
	rest := f.in.data[min(f.off, len(f.in.data)):]
	n := copy(p[:min(len(p), max)], rest)
	f.off += n
	if flt != nil && flt.Err != "SHORT" {
		return n, pathErr("read", f.name, flt.Err)
	}
	if n == 0 && len(p) > 0 && len(rest) == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if f.closed {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: fs.ErrClosed}
	}
	switch f.std {
	case 1:
		return 0, pathErr("write", f.name, "EBADF")
	case 2:
		Point()
		Stdout = appendBytes(Stdout, p)
		return len(p), nil
	case 3:
		Point()
		Stderr = appendBytes(Stderr, p)
		return len(p), nil
	}
	if f.flag&(oWRONLY|oRDWR) == 0 {
		return 0, pathErr("write", f.name, "EBADF")
	}
	n := len(p)
	flt := fsOp("write", f.name)
	if flt != nil {
		n = min(n, flt.Keep)
	}
	if f.flag&oAPPEND != 0 {
		f.off = len(f.in.data)
	}
	for f.off > len(f.in.data) {
		f.in.data = append(f.in.data, 0)
	}
	k := copy(f.in.data[f.off:], p[:n])
	f.in.data = append(f.in.data, p[k:n]...)
	f.off += n
	if flt != nil {
		return n, pathErr("write", f.name, flt.Err)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
	g := &File{name: f.name, std: f.std, in: f.in, off: int(off), flag: f.flag, closed: f.closed}
	for n < len(p) && err == nil {
		var k int
		k, err = g.Read(p[n:])
		n += k
	}
	return n, err
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	g := &File{name: f.name, std: f.std, in: f.in, off: int(off), flag: f.flag, closed: f.closed}
	return g.Write(p)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.std != 0 {
		return 0, pathErr("seek", f.name, "EIO")
	}
	switch whence {
	case 1:
		off += int64(f.off)
	case 2:
		off += int64(len(f.in.data))
	}
	if off < 0 {
		return 0, pathErr("seek", f.name, "EIO")
	}
	f.off = int(off)
	return off, nil
}

func (f *File) Truncate(n int64) error {
	if flt := fsOp("truncate", f.name); flt != nil {
		return pathErr("truncate", f.name, flt.Err)
	}
	if int(n) < len(f.in.data) {
		f.in.data = f.in.data[:n]
	}
	return nil
}

func (f *File) Sync() error {
	if f.std != 0 {
		return nil
	}
	if flt := fsOp("sync", f.name); flt != nil {
		return pathErr("sync", f.name, flt.Err)
	}
	return nil
}

func (f *File) Chmod(m fs.FileMode) error { return nil }

func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: fs.ErrClosed}
	}
	f.closed = true
	if f.std != 0 {
		return nil
	}
	flt := fsOp("close", f.name)
	OpenFiles--
	for i, s := range openNames {
		if s == f.name {
			openNames = append(openNames[:i], openNames[i+1:]...)
			break
		}
	}
	if flt != nil {
		return pathErr("close", f.name, flt.Err)
	}
	return nil
}

// isDir reports whether the cleaned path is a folder.
func isDir(p string) bool {
	if in := inodes[p]; in != nil {
		return in.dir
	}
	if p == "/" || p == "/work" || p == "/tmp" {
		return true
	}
	for name := range inodes {
		if strings.HasPrefix(name, p+"/") {
			return true
		}
	}
	return false
}

type info struct {
	name string
	in   *inode
}

func (i info) Name() string { return path.Base(i.name) }
func (i info) Size() int64  { return int64(len(i.in.data)) }
func (i info) Mode() fs.FileMode {
	if i.in.dir {
		return fs.ModeDir | 0o777
	}
	return 0o644
}
func (i info) ModTime() time.Time { return time.Unix(0, clock.Wall) }
func (i info) IsDir() bool        { return i.in.dir }
func (i info) Sys() any           { return nil }

func (f *File) Stat() (fs.FileInfo, error) {
	if f.std != 0 {
		return info{f.name, &inode{}}, nil
	}
	return info{f.name, f.in}, nil
}

func Stat(name string) (fs.FileInfo, error) {
	if f := fsOp("stat", name); f != nil {
		return nil, pathErr("stat", name, f.Err)
	}
	in := inodes[clean(name)]
	if in == nil {
		return nil, pathErr("stat", name, "ENOENT")
	}
	return info{name, in}, nil
}

func Remove(name string) error {
	if f := fsOp("remove", name); f != nil {
		return pathErr("remove", name, f.Err)
	}
	if inodes[clean(name)] == nil {
		return pathErr("remove", name, "ENOENT")
	}
	delete(inodes, clean(name))
	return nil
}

func Rename(from, to string) error {
	if f := fsOp("rename", from); f != nil {
		return pathErr("rename", from, f.Err)
	}
	in := inodes[clean(from)]
	if in == nil {
		return pathErr("rename", from, "ENOENT")
	}
	if old := inodes[clean(to)]; old != nil && old.dir {
		return pathErr("rename", to, "EEXIST")
	}
	if !isDir(path.Dir(clean(to))) {
		return pathErr("rename", to, "ENOENT")
	}
	delete(inodes, clean(from))
	inodes[clean(to)] = in
	return nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	tempN++
	return OpenFile(dir+"/"+pre+strconv.Itoa(tempN)+suf, oRDWR|oCREATE|oEXCL, 0o600)
}

func Mkdir(name string) error {
	if inodes[clean(name)] == nil {
		inodes[clean(name)] = &inode{dir: true}
	}
	return nil
}

var ErrNotSim = errors.New("not simulated")
