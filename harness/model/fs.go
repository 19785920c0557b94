package model

import (
	"errors"
	"io/fs"
	"path/filepath"
	"strings"
	"time"

	"github.com/fsnotify/fsnotify"
)

// inode is a file, whatever its name is.
type inode struct{ data []byte }

var (
	files  = map[string]*inode{}
	fsws   = map[*fsnotify.Watcher]*fsw{}
	Opened int // watchers created
	Closed int // watchers closed
	// QueueMax is how many events an inotify instance holds.
	QueueMax = 16384
	errDead  = errors.New("inotify instance already closed")
)

func noEnt(op, name string) error { return &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist} }

// Switch is a point where other goroutines may run.
func Switch() {
	lock.Lock()
	lock.Unlock()
}

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	lock.Lock()
	defer lock.Unlock()
	f := files[filepath.Clean(name)]
	if f == nil {
		return nil, noEnt("open", name)
	}
	return append([]byte(nil), f.data...), nil
}

type info struct {
	name string
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return 0o644 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

// Stat is os.Stat.
func Stat(name string) (fs.FileInfo, error) {
	lock.Lock()
	defer lock.Unlock()
	f := files[filepath.Clean(name)]
	if f == nil {
		return nil, noEnt("stat", name)
	}
	return info{name[strings.LastIndex(name, "/")+1:], int64(len(f.data))}, nil
}

// WriteFile is os.WriteFile: it empties the file, then fills it.
func WriteFile(name string, data []byte, _ fs.FileMode) error {
	name = filepath.Clean(name)
	lock.Lock()
	f := files[name]
	if f == nil {
		f = &inode{}
		files[name] = f
	} else if len(f.data) > 0 {
		f.data = nil
		notify(f, fsnotify.Write)
	}
	lock.Unlock()
	if len(data) == 0 {
		return nil
	}
	lock.Lock()
	f.data = append([]byte(nil), data...)
	notify(f, fsnotify.Write)
	lock.Unlock()
	return nil
}

// Remove is os.Remove.
func Remove(name string) error {
	name = filepath.Clean(name)
	lock.Lock()
	defer lock.Unlock()
	f := files[name]
	if f == nil {
		return noEnt("remove", name)
	}
	delete(files, name)
	gone(f)
	return nil
}

// Rename is os.Rename.
func Rename(from, to string) error {
	from, to = filepath.Clean(from), filepath.Clean(to)
	lock.Lock()
	defer lock.Unlock()
	f := files[from]
	if f == nil {
		return noEnt("rename", from)
	}
	old := files[to]
	delete(files, from)
	files[to] = f
	notify(f, fsnotify.Rename)
	if old != nil && old != f {
		gone(old)
	}
	return nil
}

// MkdirTemp is os.MkdirTemp.
func MkdirTemp(string, string) (string, error) { return "/virtual", nil }

// MkdirAll is os.MkdirAll: directories are always there.
func MkdirAll(string, fs.FileMode) error { return nil }

type fsw struct {
	w       *fsnotify.Watcher
	last    int
	kernel  map[int]*inode // what inotify watches
	watches map[string]int
	paths   map[int]string
	queue   []raw
	more    chan struct{}
	done    chan struct{}
	over    chan struct{}
	closed  bool
}

// raw is an inotify event.
type raw struct {
	wd int
	op fsnotify.Op
}

func notify(f *inode, op fsnotify.Op) {
	for _, s := range fsws {
		for wd, i := range s.kernel {
			if i == f {
				switch n := len(s.queue); {
				case n < QueueMax:
					s.queue = append(s.queue, raw{wd, op})
				case n == QueueMax:
					s.queue = append(s.queue, raw{-1, 0})
				}
				select {
				case s.more <- struct{}{}:
				default:
				}
			}
		}
	}
}

// gone is the end of an inode.
func gone(f *inode) {
	notify(f, fsnotify.Chmod)
	notify(f, fsnotify.Remove)
	for _, s := range fsws {
		for wd, i := range s.kernel {
			if i == f {
				delete(s.kernel, wd)
			}
		}
	}
}

// FsNewWatcher is fsnotify.NewWatcher.
func FsNewWatcher() (*fsnotify.Watcher, error) {
	w := &fsnotify.Watcher{Events: make(chan fsnotify.Event), Errors: make(chan error)}
	s := &fsw{w: w, kernel: map[int]*inode{}, watches: map[string]int{}, paths: map[int]string{}, more: make(chan struct{}, 1), done: make(chan struct{}), over: make(chan struct{})}
	lock.Lock()
	fsws[w] = s
	Opened++
	lock.Unlock()
	go s.run()
	return w, nil
}

func (s *fsw) run() {
	defer func() {
		close(s.w.Events)
		close(s.w.Errors)
		close(s.over)
	}()
	for {
		lock.Lock()
		if len(s.queue) > 0 && s.queue[0].wd < 0 {
			s.queue = s.queue[1:]
			lock.Unlock()
			select {
			case s.w.Errors <- fsnotify.ErrEventOverflow:
			case <-s.done:
				return
			}
			continue
		}
		var e fsnotify.Event
		have := len(s.queue) > 0
		if have {
			r := s.queue[0]
			s.queue = s.queue[1:]
			name, ok := s.paths[r.wd]
			if ok && r.op == fsnotify.Remove {
				delete(s.paths, r.wd)
				delete(s.watches, name)
			}
			e = fsnotify.Event{Name: name, Op: r.op}
			// events of a file that is gone by now are left out
			if e.Op&(fsnotify.Remove|fsnotify.Rename) == 0 && files[e.Name] == nil {
				lock.Unlock()
				continue
			}
		}
		lock.Unlock()
		if have {
			select {
			case s.w.Events <- e:
			case <-s.done:
				return
			}
			continue
		}
		select {
		case <-s.more:
		case <-s.done:
			return
		}
	}
}

// FsAdd is (*fsnotify.Watcher).Add.
func FsAdd(w *fsnotify.Watcher, name string) error {
	name = filepath.Clean(name)
	lock.Lock()
	defer lock.Unlock()
	s := fsws[w]
	if s.closed {
		return errDead
	}
	f := files[name]
	if f == nil {
		return noEnt("watch", name)
	}
	wd := 0
	for k, i := range s.kernel {
		if i == f {
			wd = k
		}
	}
	if wd == 0 {
		s.last++
		wd = s.last
		s.kernel[wd] = f
	}
	if _, ok := s.watches[name]; !ok {
		s.paths[wd] = name
	}
	s.watches[name] = wd
	return nil
}

// FsRemove is (*fsnotify.Watcher).Remove.
func FsRemove(w *fsnotify.Watcher, name string) error {
	name = filepath.Clean(name)
	lock.Lock()
	defer lock.Unlock()
	s := fsws[w]
	wd, ok := s.watches[name]
	if !ok {
		return errors.New("can't remove non-existent inotify watch for: " + name)
	}
	delete(s.paths, wd)
	delete(s.watches, name)
	if s.kernel[wd] == nil {
		return errors.New("invalid argument")
	}
	delete(s.kernel, wd)
	return nil
}

// FsClose is (*fsnotify.Watcher).Close.
func FsClose(w *fsnotify.Watcher) error {
	lock.Lock()
	s := fsws[w]
	if s.closed {
		lock.Unlock()
		return nil
	}
	s.closed = true
	Closed++
	lock.Unlock()
	close(s.done)
	<-s.over
	return nil
}

// IsNotExist is os.IsNotExist.
func IsNotExist(err error) bool { return errors.Is(err, fs.ErrNotExist) }
