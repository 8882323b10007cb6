package clog

import (
	"encoding/binary"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/sys/unix"

	"verifharness/kit"
)

// event is a change of a file in a watched directory.
type event struct {
	kind string // create modify close delete rename
	name string
	to   string // rename
}

// watch records the file events in dir while f runs, in order. The second
// result is false when the kernel does not let us watch.
func watch(dir string, f func()) ([]event, bool) {
	fd, err := unix.InotifyInit1(unix.IN_NONBLOCK | unix.IN_CLOEXEC)
	if err != nil {
		f()
		return nil, false
	}
	defer unix.Close(fd)
	if _, err := unix.InotifyAddWatch(fd, dir, unix.IN_CREATE|unix.IN_MODIFY|unix.IN_CLOSE_WRITE|unix.IN_DELETE|unix.IN_MOVED_FROM|unix.IN_MOVED_TO); err != nil {
		f()
		return nil, false
	}
	f()
	var evs []event
	from := map[uint32]string{}
	buf := make([]byte, 1<<16)
	for {
		n, err := unix.Read(fd, buf)
		if err != nil || n <= 0 {
			break
		}
		for p := 0; p+unix.SizeofInotifyEvent <= n; {
			mask := binary.LittleEndian.Uint32(buf[p+4:])
			cookie := binary.LittleEndian.Uint32(buf[p+8:])
			l := int(binary.LittleEndian.Uint32(buf[p+12:]))
			name := strings.TrimRight(string(buf[p+unix.SizeofInotifyEvent:p+unix.SizeofInotifyEvent+l]), "\x00")
			p += unix.SizeofInotifyEvent + l
			switch {
			case mask&unix.IN_Q_OVERFLOW != 0:
				return nil, false
			case mask&unix.IN_CREATE != 0:
				evs = append(evs, event{kind: "create", name: name})
			case mask&unix.IN_MODIFY != 0:
				evs = append(evs, event{kind: "modify", name: name})
			case mask&unix.IN_CLOSE_WRITE != 0:
				evs = append(evs, event{kind: "close", name: name})
			case mask&unix.IN_DELETE != 0:
				evs = append(evs, event{kind: "delete", name: name})
			case mask&unix.IN_MOVED_FROM != 0:
				from[cookie] = name
				evs = append(evs, event{kind: "delete", name: name}) // replaced below if it stays in the directory
			case mask&unix.IN_MOVED_TO != 0:
				if src, ok := from[cookie]; ok && len(evs) > 0 && evs[len(evs)-1].name == src {
					evs[len(evs)-1] = event{kind: "rename", name: src, to: name}
				} else {
					evs = append(evs, event{kind: "create", name: name})
				}
			}
		}
	}
	return evs, true
}

func snapshot(dir string) map[string][]byte {
	es, err := os.ReadDir(dir)
	kit.Abort(err)
	out := map[string][]byte{}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		kit.Abort(err)
		out[e.Name()] = b
	}
	return out
}

// incarnation is one file between its creation and its removal.
type incarnation struct {
	before  []byte // content before the run (nil: created during it)
	existed bool
	final   []byte
	known   bool // final content is known
	mods    int  // modifications still to come
	touched bool
}

// crashStates lists the directory contents that a process killed during the
// run could have left behind: after every event, with every file that is still
// being written cut at some point. cuts chooses where.
func crashStates(before, after map[string][]byte, evs []event, cuts func(n int) []int) []map[string][]byte {
	// pass 1: find the incarnations and their final content
	cur := map[string]*incarnation{}
	initial := map[string]*incarnation{}
	var all []*incarnation
	for n, b := range before {
		cur[n] = &incarnation{before: b, existed: true}
		initial[n] = cur[n]
		all = append(all, cur[n])
	}
	per := make([]*incarnation, len(evs)) // the incarnation an event is about
	for i, e := range evs {
		switch e.kind {
		case "create":
			x := &incarnation{}
			cur[e.name] = x
			all = append(all, x)
			per[i] = x
		case "modify":
			if cur[e.name] != nil {
				cur[e.name].mods++
				cur[e.name].touched = true
			}
			per[i] = cur[e.name]
		case "delete":
			per[i] = cur[e.name]
			delete(cur, e.name)
		case "rename":
			per[i] = cur[e.name]
			cur[e.to] = cur[e.name]
			delete(cur, e.name)
		}
	}
	for n, x := range cur {
		if b, ok := after[n]; ok && x != nil {
			x.final, x.known = b, true
		}
	}
	for _, x := range all {
		if !x.known && x.existed && !x.touched {
			x.final, x.known = x.before, true
		}
		if !x.known && !x.existed && !x.touched {
			x.final, x.known = []byte{}, true
		}
	}
	// pass 2: the states
	live := initial
	started := map[*incarnation]bool{}
	var out []map[string][]byte
	emit := func() {
		// choices per file
		base := map[string][]byte{}
		type open struct {
			name string
			opts [][]byte
		}
		var opens []open
		for n, x := range live {
			switch {
			case x == nil:
				return
			case !x.touched || x.mods == 0:
				if !x.known {
					return
				}
				base[n] = x.final
			case !started[x]:
				base[n] = x.before // nil: empty
				if !x.existed {
					base[n] = []byte{}
				}
			default:
				if !x.known {
					return
				}
				lo := 0
				if x.existed && len(x.before) <= len(x.final) && string(x.final[:len(x.before)]) == string(x.before) {
					lo = len(x.before)
				}
				var opts [][]byte
				for _, c := range cuts(len(x.final) - lo) {
					opts = append(opts, x.final[:lo+c])
				}
				opens = append(opens, open{n, opts})
			}
		}
		if len(opens) == 0 {
			out = append(out, base)
			return
		}
		// one open file at a time varies; the others take their first choice
		for k := range opens {
			for _, o := range opens[k].opts {
				m := map[string][]byte{}
				for n, b := range base {
					m[n] = b
				}
				for j := range opens {
					m[opens[j].name] = opens[j].opts[0]
				}
				m[opens[k].name] = o
				out = append(out, m)
			}
		}
	}
	emit()
	for i, e := range evs {
		x := per[i]
		switch e.kind {
		case "create":
			live[e.name] = x
		case "modify":
			if x != nil {
				started[x] = true
				emit() // inside the write
				x.mods--
			}
		case "delete":
			delete(live, e.name)
		case "rename":
			live[e.to] = x
			delete(live, e.name)
		}
		if e.kind != "close" {
			emit()
		}
	}
	return out
}
