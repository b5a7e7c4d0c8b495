// Package disk stands for the file system and a web server. The engine uses
// the models below; a replay uses real files in its scratch directory and a
// server on the loopback interface.
package disk

import (
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"os/signal"
	"strconv"
	"strings"
	"syscall"

	"github.com/gofrs/flock"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

// Answer is what the server says to a path.
type Answer struct {
	Status int
	Body   []byte
	Cut    bool // the connection ends before the body does
	Down   bool // no answer
}

// Handler is the server.
var Handler func(path string) Answer

// Gets counts the requests.
var Gets int

// Serve starts the server and is its address.
func Serve() string {
	if sym.Symbolic() {
		return "http://server"
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		_ = http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			Gets++
			a := Handler(r.URL.Path)
			if a.Down {
				panic(http.ErrAbortHandler)
			}
			n := len(a.Body)
			if a.Cut {
				n++
			}
			w.Header().Set("Content-Length", strconv.Itoa(n))
			w.WriteHeader(a.Status)
			_, _ = w.Write(a.Body)
		}))
	}()
	return "http://" + l.Addr().String()
}

type file struct{ b []byte }

type handle struct {
	f        *file
	off      int
	read     bool
	write    bool
	isClosed bool
}

var (
	files   = map[string]*file{}
	dirs    = map[string]bool{}
	handles = map[*os.File]*handle{}
	locks   = map[*file]*flock.Flock{}
	held    = map[*flock.Flock]*file{}
	limit   = -1
	errDisk = errors.New("disk model: bad file")
	errFull = errors.New("disk model: no space")
)

// Full makes the disk refuse to hold files longer than n bytes; a negative n
// ends that.
func Full(n int) {
	if sym.Symbolic() {
		limit = n
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	l := syscall.Rlimit{}
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	l.Cur = l.Max
	if n >= 0 {
		l.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
}

//verif:model os.Stat
func stat(name string) (os.FileInfo, error) {
	if files[name] == nil && !dirs[name] {
		return nil, os.ErrNotExist
	}
	return nil, nil
}

//verif:model os.IsNotExist
func isNotExist(err error) bool { return err == os.ErrNotExist }

//verif:model os.MkdirAll
func mkdirAll(path string, perm os.FileMode) error {
	dirs[path] = true
	return nil
}

func under(name string) bool {
	i := strings.LastIndexByte(name, '/')
	return i < 0 || dirs[name[:i]]
}

//verif:model os.Create
func create(name string) (*os.File, error) {
	if !under(name) {
		return nil, os.ErrNotExist
	}
	f := &file{}
	if files[name] != nil {
		f = files[name]
		f.b = nil
	}
	files[name] = f
	h := new(os.File)
	handles[h] = &handle{f: f, read: true, write: true}
	return h, nil
}

//verif:model os.Open
func open(name string) (*os.File, error) {
	f := files[name]
	if f == nil {
		return nil, os.ErrNotExist
	}
	h := new(os.File)
	handles[h] = &handle{f: f, read: true}
	return h, nil
}

//verif:model os.ReadFile
func readFile(name string) ([]byte, error) {
	f := files[name]
	if f == nil {
		return nil, os.ErrNotExist
	}
	return append([]byte{}, f.b...), nil
}

//verif:model os.WriteFile
func writeFile(name string, data []byte, perm os.FileMode) error {
	if !under(name) {
		return os.ErrNotExist
	}
	f := files[name]
	if f == nil {
		f = &file{}
		files[name] = f
	}
	if limit >= 0 && len(data) > limit {
		f.b = append([]byte{}, data[:limit]...)
		return errFull
	}
	f.b = append([]byte{}, data...)
	return nil
}

//verif:model os.Rename
func rename(oldpath, newpath string) error {
	if files[oldpath] == nil || !under(newpath) {
		return os.ErrNotExist
	}
	files[newpath] = files[oldpath]
	delete(files, oldpath)
	return nil
}

//verif:model os.Remove
func remove(name string) error {
	if files[name] == nil {
		return os.ErrNotExist
	}
	delete(files, name)
	return nil
}

//verif:model (*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) {
	h := handles[f]
	if h == nil || h.isClosed || !h.read {
		return 0, errDisk
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= len(h.f.b) {
		return 0, io.EOF
	}
	n := copy(b, h.f.b[h.off:])
	h.off += n
	return n, nil
}

//verif:model (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) {
	h := handles[f]
	if h == nil || h.isClosed || !h.write {
		return 0, errDisk
	}
	if limit >= 0 && h.off+len(b) > limit {
		n := limit - h.off
		if n < 0 {
			n = 0
		}
		h.f.b = append(h.f.b[:h.off:h.off], b[:n]...)
		h.off = len(h.f.b)
		return n, errFull
	}
	h.f.b = append(h.f.b[:h.off:h.off], b...)
	h.off = len(h.f.b)
	return len(b), nil
}

//verif:model (*os.File).WriteTo
func fileWriteTo(f *os.File, w io.Writer) (int64, error) {
	h := handles[f]
	if h == nil || h.isClosed || !h.read {
		return 0, errDisk
	}
	b := h.f.b[h.off:]
	h.off = len(h.f.b)
	n, err := w.Write(b)
	return int64(n), err
}

//verif:model (*os.File).ReadFrom
func fileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, e := fileWrite(f, b)
	if err == nil {
		err = e
	}
	return int64(n), err
}

//verif:model (*os.File).Sync
func fileSync(f *os.File) error {
	if h := handles[f]; h == nil || h.isClosed {
		return errDisk
	}
	return nil
}

//verif:model (*os.File).Close
func fileClose(f *os.File) error {
	h := handles[f]
	if h == nil || h.isClosed {
		return errDisk
	}
	h.isClosed = true
	return nil
}

type body struct {
	b   []byte
	cut bool
}

func (r *body) Read(b []byte) (int, error) {
	if len(r.b) == 0 {
		if r.cut {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := copy(b, r.b)
	r.b = r.b[n:]
	return n, nil
}

func (r *body) Close() error { return nil }

//verif:model (*net/http.Client).Get
func httpGet(c *http.Client, url string) (*http.Response, error) {
	Gets++
	if !strings.HasPrefix(url, "http://server/") {
		return nil, errors.New("disk model: no such host")
	}
	a := Handler(url[len("http://server"):])
	if a.Down {
		return nil, errors.New("disk model: no answer")
	}
	return &http.Response{StatusCode: a.Status, Status: strconv.Itoa(a.Status), Body: &body{append([]byte{}, a.Body...), a.Cut}}, nil
}

var lockPath = map[*flock.Flock]string{}

//verif:model github.com/gofrs/flock.New
func lockNew(path string) *flock.Flock {
	l := new(flock.Flock)
	lockPath[l] = path
	return l
}

// The file a lock has open, which it keeps when the file is locked already.
var lockFile = map[*flock.Flock]*file{}

//verif:model (*github.com/gofrs/flock.Flock).TryLock
func tryLock(l *flock.Flock) (bool, error) {
	if held[l] != nil {
		return true, nil
	}
	if lockFile[l] == nil {
		p := lockPath[l]
		if !under(p) {
			return false, os.ErrNotExist
		}
		if files[p] == nil {
			files[p] = &file{}
		}
		lockFile[l] = files[p]
		sym.Yield()
	}
	if locks[lockFile[l]] != nil {
		return false, nil
	}
	locks[lockFile[l]], held[l] = l, lockFile[l]
	return true, nil
}

//verif:model (*github.com/gofrs/flock.Flock).Locked
func locked(l *flock.Flock) bool { return held[l] != nil }

//verif:model (*github.com/gofrs/flock.Flock).Unlock
func unlock(l *flock.Flock) error {
	if held[l] != nil {
		delete(locks, held[l])
		delete(held, l)
		delete(lockFile, l)
		sym.Yield()
	}
	return nil
}
