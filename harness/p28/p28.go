package p28

import (
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/DaoCloud/ckube/utils"
	"github.com/DaoCloud/ckube/zzverif/model"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
	"github.com/fsnotify/fsnotify"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// world is a directory with two files.
func world() string {
	if !rt.InEngine() {
		// the system may not have another one
		w, err := fsnotify.NewWatcher()
		rt.Assume(err == nil)
		_ = w.Close()
	}
	d, err := os.MkdirTemp("", "p28")
	must(err)
	for _, f := range names {
		write(d+"/"+f, "0")
	}
	return d
}

var names = []string{"a", "b"}

func write(f, text string) { must(os.WriteFile(f, []byte(text), 0o644)) }

// open is the number of inotify instances of the process.
func open() int {
	if rt.InEngine() {
		return model.Opened - model.Closed
	}
	n := 0
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range es {
		if l, _ := os.Readlink(filepath.Join("/proc/self/fd", e.Name())); strings.Contains(l, "inotify") {
			n++
		}
	}
	return n
}

// log is what a watcher reported.
type log struct {
	mu   sync.Mutex
	got  []utils.Event
	over bool
}

func read(w utils.FixedFileWatcher) *log {
	l := &log{}
	go func() {
		for e := range w.Events() {
			l.mu.Lock()
			l.got = append(l.got, e)
			l.mu.Unlock()
		}
		l.mu.Lock()
		l.over = true
		l.mu.Unlock()
	}()
	return l
}

// count is the number of events of a type for a file.
func (l *log) count(f string, t utils.EventType) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	n := 0
	for _, e := range l.got {
		if e.Name == f && e.Type == t {
			n++
		}
	}
	return n
}

func (l *log) all() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.got)
}

func (l *log) ended() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.over
}

// pause is long for the watcher.
func pause() {
	if rt.InEngine() {
		time.Sleep(time.Minute)
	} else {
		time.Sleep(2600 * time.Millisecond)
	}
}

// eventually waits until f holds.
func eventually(f func() bool) bool {
	for i := 0; i < 400; i++ {
		if f() {
			return true
		}
		if rt.InEngine() && i > 3 {
			break
		}
		if rt.InEngine() {
			time.Sleep(20 * time.Second)
		} else {
			time.Sleep(25 * time.Millisecond)
		}
	}
	return f()
}

// CheckEvents: every change of a file is reported, whatever happened before.
func CheckEvents() {
	d := world()
	var fs []string
	for _, n := range names {
		fs = append(fs, d+"/"+n)
	}
	w, err := utils.NewFixedFileWatcher(fs)
	must(err)
	must(w.Start())
	l := read(w)
	gone := map[string]bool{}
	n := rt.Bound("changes", 3, 4)
	for i := 0; i < n; i++ {
		f := fs[rt.Choice("file", len(fs))]
		text := string(rune('1' + i))
		how := rt.Choice("how", 8)
		if gone[f] {
			if how > 1 {
				how = 0
			}
		}
		before, errs, all := l.count(f, utils.EventTypeChanged), l.count(f, utils.EventTypeError), l.all()
		switch how {
		case 0: // in place
			write(f, text)
		case 1: // replaced
			write(d+"/new", text)
			must(os.Rename(d+"/new", f))
		case 2: // made again
			must(os.Remove(f))
			write(f, text)
		case 3: // made again later
			must(os.Remove(f))
			pause()
			write(f, text)
		case 4: // moved away and made again
			must(os.Rename(f, f+".old"))
			write(f, text)
		case 5: // moved away and made again, the old one removed
			must(os.Rename(f, f+".old"))
			must(os.Remove(f + ".old"))
			write(f, text)
		case 6: // removed
			must(os.Remove(f))
		case 7: // moved away
			must(os.Rename(f, f+".old"))
		}
		if how >= 6 {
			gone[f] = true
			ok := eventually(func() bool { return l.count(f, utils.EventTypeError) > errs })
			rt.Assert("gone", ok, "a file that is gone is not reported")
			rt.Assert("gone-once", l.all() == all+1, "more is reported than that a file is gone")
			continue
		}
		gone[f] = false
		ok := eventually(func() bool { return l.count(f, utils.EventTypeChanged) > before })
		rt.Assert("change", ok, "a changed file is not reported")
		if !ok {
			return
		}
		pause()
		for _, o := range fs {
			if o != f {
				total := l.count(f, utils.EventTypeChanged) + l.count(f, utils.EventTypeError)
				rt.Assert("other", l.all() == all+total-before-errs, "a file is reported that did not change")
			}
		}
	}
	must(w.Close())
	rt.Assert("end", eventually(l.ended), "the events do not end with the watcher")
	rt.Assert("closed", eventually(func() bool { return open() == 0 }), "a closed watcher keeps an inotify instance")
}

// CheckLast: the last event comes after the last change, however they fall.
func CheckLast() {
	d := world()
	f := d + "/a"
	w, err := utils.NewFixedFileWatcher([]string{f})
	must(err)
	must(w.Start())
	var mu sync.Mutex
	last := ""
	go func() {
		for range w.Events() {
			b, _ := os.ReadFile(f)
			mu.Lock()
			last = string(b)
			mu.Unlock()
		}
	}()
	rt.Preempt(rt.Bound("switches", 2, 3))
	how := []int{rt.Choice("how", 3), rt.Choice("how", 3)}
	for i, h := range how {
		text := string(rune('1' + i))
		switch h {
		case 0:
			write(f, text)
		case 1:
			write(d+"/new", text)
			must(os.Rename(d+"/new", f))
		case 2:
			must(os.Remove(f))
			write(f, text)
		}
	}
	rt.Preempt(0)
	ok := eventually(func() bool {
		mu.Lock()
		defer mu.Unlock()
		return last == "2"
	})
	rt.Assert("last", ok, "who reads a file on every event does not see its last contents")
}

// CheckClose: a watcher can be closed at any time.
func CheckClose() {
	tries := 20
	if rt.InEngine() {
		tries = 1
	}
	how := rt.Choice("how", 3)
	reads := rt.Bool("reads")
	late := rt.Bool("late")
	for i := 0; i < tries; i++ {
		d := world()
		f := d + "/a"
		w, err := utils.NewFixedFileWatcher([]string{f})
		must(err)
		must(w.Start())
		var l *log
		if reads {
			l = read(w)
		}
		rt.Preempt(rt.Bound("switches_close", 2, 3))
		switch how {
		case 0:
			write(f, "1")
		case 1:
			must(os.Remove(f))
		case 2:
			must(os.Rename(f, f+".old"))
			write(f, "1")
		}
		if late {
			if rt.InEngine() {
				time.Sleep(2 * time.Second)
			} else {
				time.Sleep(2*time.Second + time.Duration(i-3)*time.Millisecond/4)
			}
		} else if !rt.InEngine() {
			time.Sleep(time.Duration(i) * 20 * time.Microsecond)
		}
		must(w.Close())
		must(w.Close())
		rt.Preempt(0)
		if l == nil {
			l = read(w)
		}
		rt.Assert("end", eventually(l.ended), "the events do not end with the watcher")
		rt.Assert("closed", eventually(func() bool { return open() == 0 }), "a closed watcher keeps an inotify instance")
	}
}

// CheckMissing: files that are not there are refused.
func CheckMissing() {
	d := world()
	fs := []string{d + "/a", d + "/b"}
	miss := rt.Choice("missing", 3)
	if miss < 2 {
		must(os.Remove(fs[miss]))
	}
	w, err := utils.NewFixedFileWatcher(fs)
	rt.Assert("new", (err != nil) == (miss < 2), "a missing file is accepted, or a file is refused that is there")
	rt.Assert("new-closed", eventually(func() bool { return open() == 0 }), "a watcher that is not started keeps an inotify instance")
	if err != nil {
		return
	}
	miss = rt.Choice("missing_later", 3)
	if miss < 2 {
		must(os.Remove(fs[miss]))
	}
	err = w.Start()
	rt.Assert("start", (err != nil) == (miss < 2), "a missing file is accepted, or a file is refused that is there")
	if err != nil {
		rt.Assert("start-closed", eventually(func() bool { return open() == 0 }), "a watcher that can not start keeps an inotify instance")
	}
	must(w.Close())
	rt.Assert("closed", eventually(func() bool { return open() == 0 }), "a closed watcher keeps an inotify instance")
}

// CheckOverflow: changes are reported after more of them than inotify holds.
func CheckOverflow() {
	d := world()
	fs := []string{d + "/a", d + "/b"}
	w, err := utils.NewFixedFileWatcher(fs)
	must(err)
	must(w.Start())
	model.QueueMax = 1 + rt.Choice("queue", 4)
	n := 1 + rt.Choice("burst", 8)
	if !rt.InEngine() {
		n = 40000
	}
	for i := 0; i < n; i++ {
		write(fs[i%2], "1")
	}
	l := read(w)
	pause()
	f := fs[rt.Choice("file", 2)]
	before := l.count(f, utils.EventTypeChanged)
	write(f, "2")
	rt.Assert("after", eventually(func() bool { return l.count(f, utils.EventTypeChanged) > before }), "no change is reported after too many of them")
	must(w.Close())
	rt.Assert("end", eventually(l.ended), "the events do not end with the watcher")
}

// CheckLost: changes that inotify had no room for are made up for.
func CheckLost() {
	d := world()
	fs := []string{d + "/a", d + "/b"}
	w, err := utils.NewFixedFileWatcher(fs)
	must(err)
	must(w.Start())
	model.QueueMax = 1 + rt.Choice("queue", 4)
	n := 7 + rt.Choice("burst", 4)
	if !rt.InEngine() {
		n = 40000
	}
	// what is read on every event
	write(fs[0], "1")
	for i := 0; i < n; i++ {
		write(fs[i%2], "1")
	}
	write(fs[0], "2")
	var mu sync.Mutex
	last := ""
	go func() {
		for range w.Events() {
			b, _ := os.ReadFile(fs[0])
			mu.Lock()
			last = string(b)
			mu.Unlock()
		}
	}()
	rt.Assert("lost", eventually(func() bool {
		mu.Lock()
		defer mu.Unlock()
		return last == "2"
	}), "who reads a file on every event does not see its last contents")
}
