// Package vsys stands in for the operating system: a small file system, terminals and signals, on
// which any operation can be made to fail. The shim variants redirect the package's calls here.
package vsys

import (
	"io"
	"os"
	"sort"
	"sync"
	"syscall"
	"time"
)

// Fault says what happens at operation number At (1 is the first).
type Fault struct {
	At    int
	Short int   // of a write or read: this many bytes are transferred before the error, -1 for none
	Err   error // what is reported
	Stick bool  // all later operations fail as well
}

type inode struct {
	data  []byte
	mode  os.FileMode
	saved []byte // the content in the last snapshot, nil if it has changed
}

var (
	mu    sync.Mutex
	files map[string]*inode
	ops   int
	fault Fault
	chunk int // most bytes one Read returns

	// Log is the name of every operation so far.
	Log []string
	// Snaps is the content of the files before every operation that changes them, and, for a write,
	// after every byte of it (the first 24 and the last 8): what a crash there would leave.
	Snaps []map[string][]byte
)

// Reset makes an empty file system without faults.
func Reset() {
	mu.Lock()
	defer mu.Unlock()
	files, ops, fault, chunk = map[string]*inode{}, 0, Fault{}, 0
	Log, Snaps = nil, nil
	resetTerm()
	resetProc()
	OsStdin.reset(0, "/dev/stdin")
	OsStdout.reset(1, "/dev/stdout")
	OsStderr.reset(2, "/dev/stderr")
}

// SetFault plans the fault, counting from the next operation.
func SetFault(f Fault) {
	mu.Lock()
	defer mu.Unlock()
	ops, fault = 0, f
}

// Faulted reports whether the fault has happened.
func Faulted() bool {
	mu.Lock()
	defer mu.Unlock()
	return fault.At > 0 && ops >= fault.At
}

// SetChunk limits what one Read returns.
func SetChunk(n int) { chunk = n }

// Put makes a file.
func Put(name string, data []byte) {
	mu.Lock()
	defer mu.Unlock()
	if files == nil {
		files = map[string]*inode{}
	}
	files[name] = &inode{data: append([]byte{}, data...), mode: 0o600}
}

// Get is the content of a file.
func Get(name string) ([]byte, bool) {
	mu.Lock()
	defer mu.Unlock()
	f, ok := files[name]
	if !ok {
		return nil, false
	}
	return append([]byte{}, f.data...), true
}

// Names are the existing files, sorted.
func Names() []string {
	mu.Lock()
	defer mu.Unlock()
	var l []string
	for n := range files {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func snap() {
	m := map[string][]byte{}
	for n, f := range files {
		if f.saved == nil {
			f.saved = append([]byte{}, f.data...)
		}
		m[n] = f.saved
	}
	Snaps = append(Snaps, m)
}

// op counts one operation; the error is the planned fault.
func op(name string) (bool, error) {
	ops++
	Log = append(Log, name)
	if fault.At > 0 && (ops == fault.At || fault.Stick && ops > fault.At) {
		e := fault.Err
		if e == nil {
			e = syscall.EIO
		}
		return true, e
	}
	return false, nil
}

func perr(o, name string, e error) error { return &os.PathError{Op: o, Path: name, Err: e} }

// OsFile is an open file.
type OsFile struct {
	name   string
	fd     int
	ino    *inode
	flag   int
	off    int
	closed bool
	std    bool
	In     chan []byte // of a terminal
	left   []byte
	Out    []byte
}

var nextFd = 10

func (f *OsFile) reset(fd int, name string) {
	*f = OsFile{name: name, fd: fd, std: true, In: make(chan []byte, 16)}
}

// The standard streams.
var (
	OsStdin  = &OsFile{name: "/dev/stdin", std: true, In: make(chan []byte, 16)}
	OsStdout = &OsFile{name: "/dev/stdout", fd: 1, std: true}
	OsStderr = &OsFile{name: "/dev/stderr", fd: 2, std: true}
)

func OsOpenFile(name string, flag int, perm os.FileMode) (*OsFile, error) {
	mu.Lock()
	defer mu.Unlock()
	if bad, e := op("open"); bad {
		return nil, perr("open", name, e)
	}
	ino, ok := files[name]
	if ok && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if !ok {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		snap()
		ino = &inode{mode: perm}
		if files == nil {
			files = map[string]*inode{}
		}
		files[name] = ino
	} else if flag&os.O_TRUNC != 0 {
		snap()
		ino.data, ino.saved = nil, nil
	}
	nextFd++
	return &OsFile{name: name, fd: nextFd, ino: ino, flag: flag}, nil
}

func OsOpen(name string) (*OsFile, error) { return OsOpenFile(name, os.O_RDONLY, 0) }

func OsCreate(name string) (*OsFile, error) {
	return OsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

var tmpCount int

func OsCreateTemp(dir, pattern string) (*OsFile, error) {
	tmpCount++
	name := pattern
	if dir != "" {
		name = dir + "/" + pattern
	}
	return OsOpenFile(name+string(rune('0'+tmpCount)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func IoutilTempFile(dir, pattern string) (*OsFile, error) { return OsCreateTemp(dir, pattern) }

func OsRename(from, to string) error {
	mu.Lock()
	defer mu.Unlock()
	if bad, e := op("rename"); bad {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	f, ok := files[from]
	if !ok {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	snap()
	files[to] = f
	delete(files, from)
	return nil
}

func OsRemove(name string) error {
	mu.Lock()
	defer mu.Unlock()
	if bad, e := op("remove"); bad {
		return perr("remove", name, e)
	}
	if _, ok := files[name]; !ok {
		return perr("remove", name, syscall.ENOENT)
	}
	snap()
	delete(files, name)
	return nil
}

func OsLink(from, to string) error {
	mu.Lock()
	defer mu.Unlock()
	if bad, e := op("link"); bad {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: e}
	}
	f, ok := files[from]
	if !ok {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.ENOENT}
	}
	if _, ok := files[to]; ok {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.EEXIST}
	}
	snap()
	files[to] = f
	return nil
}

func OsTruncate(name string, size int64) error {
	f, err := OsOpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func OsReadFile(name string) ([]byte, error) {
	f, err := OsOpen(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var all []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		all = append(all, buf[:n]...)
		if err == io.EOF {
			return all, nil
		}
		if err != nil {
			return all, err
		}
	}
}

func IoutilReadFile(name string) ([]byte, error) { return OsReadFile(name) }

func OsWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OsOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func IoutilWriteFile(name string, data []byte, perm os.FileMode) error {
	return OsWriteFile(name, data, perm)
}

type info struct {
	name string
	size int64
	mode os.FileMode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() os.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

func OsStat(name string) (os.FileInfo, error) {
	mu.Lock()
	defer mu.Unlock()
	if bad, e := op("stat"); bad {
		return nil, perr("stat", name, e)
	}
	f, ok := files[name]
	if !ok {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{name, int64(len(f.data)), f.mode}, nil
}

func OsLstat(name string) (os.FileInfo, error) { return OsStat(name) }

func OsChmod(name string, mode os.FileMode) error {
	mu.Lock()
	defer mu.Unlock()
	if bad, e := op("chmod"); bad {
		return perr("chmod", name, e)
	}
	f, ok := files[name]
	if !ok {
		return perr("chmod", name, syscall.ENOENT)
	}
	f.mode = mode
	return nil
}

func (f *OsFile) Name() string { return f.name }

func (f *OsFile) Fd() uintptr {
	if f == nil || f.closed {
		return ^uintptr(0)
	}
	return uintptr(f.fd)
}

func (f *OsFile) check(o string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(o, f.name, os.ErrClosed)
	}
	return nil
}

func (f *OsFile) Read(p []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std {
		if len(f.left) == 0 {
			b, ok := <-f.In
			if !ok {
				return 0, io.EOF
			}
			f.left = b
		}
		n := copy(p, f.left)
		f.left = f.left[n:]
		return n, nil
	}
	mu.Lock()
	defer mu.Unlock()
	bad, e := op("read")
	n := 0
	if f.flag&(os.O_WRONLY|os.O_RDWR) == os.O_WRONLY {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.off < len(f.ino.data) {
		n = len(f.ino.data) - f.off
		if n > len(p) {
			n = len(p)
		}
		if chunk > 0 && n > chunk {
			n = chunk
		}
	}
	if bad {
		if fault.Short < n {
			n = fault.Short
		}
		if n < 0 {
			n = 0
		}
		copy(p, f.ino.data[f.off:f.off+n])
		f.off += n
		return n, perr("read", f.name, e)
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	copy(p, f.ino.data[f.off:f.off+n])
	f.off += n
	return n, nil
}

func (f *OsFile) Write(p []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	mu.Lock()
	defer mu.Unlock()
	if f.std {
		f.Out = append(f.Out, p...)
		return len(p), nil
	}
	bad, e := op("write")
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	n := len(p)
	if bad {
		if fault.Short < n {
			n = fault.Short
		}
		if n < 0 {
			n = 0
		}
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = len(f.ino.data)
	}
	for i := 0; i < n; i++ {
		if i < 24 || i > n-8 {
			snap()
		}
		for f.off > len(f.ino.data) {
			f.ino.data = append(f.ino.data, 0)
		}
		if f.off < len(f.ino.data) {
			d := append([]byte{}, f.ino.data...)
			d[f.off] = p[i]
			f.ino.data = d
		} else {
			f.ino.data = append(f.ino.data, p[i])
		}
		f.off++
		f.ino.saved = nil
	}
	if bad {
		return n, perr("write", f.name, e)
	}
	return n, nil
}

func (f *OsFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *OsFile) WriteAt(p []byte, off int64) (int, error) {
	old := f.off
	f.off = int(off)
	n, err := f.Write(p)
	f.off = old
	return n, err
}

func (f *OsFile) ReadAt(p []byte, off int64) (int, error) {
	old := f.off
	f.off = int(off)
	n, err := f.Read(p)
	f.off = old
	return n, err
}

func (f *OsFile) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	mu.Lock()
	defer mu.Unlock()
	bad, e := op("close")
	f.closed = true
	if bad {
		return perr("close", f.name, e)
	}
	return nil
}

func (f *OsFile) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	mu.Lock()
	defer mu.Unlock()
	if bad, e := op("sync"); bad {
		return perr("sync", f.name, e)
	}
	return nil
}

func (f *OsFile) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	mu.Lock()
	defer mu.Unlock()
	if bad, e := op("seek"); bad {
		return 0, perr("seek", f.name, e)
	}
	switch whence {
	case io.SeekStart:
		f.off = int(off)
	case io.SeekCurrent:
		f.off += int(off)
	case io.SeekEnd:
		f.off = len(f.ino.data) + int(off)
	}
	return int64(f.off), nil
}

func (f *OsFile) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	mu.Lock()
	defer mu.Unlock()
	if bad, e := op("truncate"); bad {
		return perr("truncate", f.name, e)
	}
	snap()
	d := make([]byte, size)
	copy(d, f.ino.data)
	f.ino.data, f.ino.saved = d, nil
	return nil
}

func (f *OsFile) Stat() (os.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	mu.Lock()
	defer mu.Unlock()
	if bad, e := op("stat"); bad {
		return nil, perr("stat", f.name, e)
	}
	if f.ino == nil {
		return info{f.name, 0, os.ModeCharDevice}, nil
	}
	return info{f.name, int64(len(f.ino.data)), f.ino.mode}, nil
}

func (f *OsFile) Chmod(mode os.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	mu.Lock()
	defer mu.Unlock()
	if bad, e := op("chmod"); bad {
		return perr("chmod", f.name, e)
	}
	if f.ino != nil {
		f.ino.mode = mode
	}
	return nil
}
