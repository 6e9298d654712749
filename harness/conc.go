package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	areas["conc"] = runConc
	areas["concfree"] = runConcFree
}

// cfile is a file in memory used by several threads.
type cfile struct {
	mu   sync.Mutex
	data []byte
	pos  int64
}

func (f *cfile) image() []byte {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]byte{}, f.data...)
}

// gates forces a schedule on the threads: every one stops before each of its steps until it is let go.
type gates struct {
	mu    sync.Mutex
	cond  *sync.Cond
	at    map[int]bool // stands before a step
	pass  map[int]bool // may do it
	done  map[int]bool
	free  bool
	delay time.Duration
}

func newGates(delay time.Duration) *gates {
	var g = &gates{at: map[int]bool{}, pass: map[int]bool{}, done: map[int]bool{}, delay: delay}
	g.cond = sync.NewCond(&g.mu)
	return g
}

func (g *gates) stop(th int) {
	g.mu.Lock()
	if !g.free {
		g.at[th] = true
		g.cond.Broadcast()
		for !g.pass[th] && !g.free {
			g.cond.Wait()
		}
		g.at[th], g.pass[th] = false, false
	}
	g.mu.Unlock()
}

func (g *gates) finish(th int) {
	g.mu.Lock()
	g.done[th] = true
	g.cond.Broadcast()
	g.mu.Unlock()
}

// settle waits until the thread stands at a gate or has finished, but not for long: it may wait for a lock.
func (g *gates) settle(th int) (at bool) {
	var end = time.Now().Add(g.delay)
	for {
		g.mu.Lock()
		var a, d = g.at[th] && !g.pass[th], g.done[th]
		g.mu.Unlock()
		if a || d {
			return a
		}
		if time.Now().After(end) {
			return false
		}
		runtime.Gosched()
	}
}

func (g *gates) grant(th int) {
	if g.settle(th) {
		g.mu.Lock()
		g.pass[th] = true
		g.cond.Broadcast()
		g.mu.Unlock()
		g.settle(th)
	}
}

func (g *gates) release() {
	g.mu.Lock()
	g.free = true
	g.cond.Broadcast()
	g.mu.Unlock()
}

// thw is the writer of one thread on a common file.
type thw struct {
	f  *cfile
	g  *gates
	th int
}

func (w *thw) Write(p []byte) (int, error) {
	w.g.stop(w.th)
	w.f.mu.Lock()
	defer w.f.mu.Unlock()
	w.f.data = patch(w.f.data, w.f.pos, p)
	w.f.pos += int64(len(p))
	return len(p), nil
}

func (w *thw) Seek(off int64, whence int) (int64, error) {
	w.g.stop(w.th)
	w.f.mu.Lock()
	defer w.f.mu.Unlock()
	switch whence {
	case io.SeekCurrent:
		off += w.f.pos
	case io.SeekEnd:
		off += int64(len(w.f.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	w.f.pos = off
	return off, nil
}

// thr is a source: it gives its data in some pieces and ends well or badly.
type thr struct {
	b     []byte
	piece int
	bad   bool
	g     *gates
	th    int
	file  *os.File
}

func (r *thr) Read(p []byte) (int, error) {
	r.g.stop(r.th)
	if len(r.b) == 0 {
		if r.bad {
			return 0, errInjected
		}
		return 0, io.EOF
	}
	var n = copy(p[:imin(len(p), imax(r.piece, 1))], r.b)
	r.b = r.b[n:]
	return n, nil
}

func (r *thr) Stat() (fs.FileInfo, error) {
	var fi, err = r.file.Stat()
	return thInfo{fi, r}, err
}

// thInfo lets the thread be stopped when the times of a file are asked for.
type thInfo struct {
	fs.FileInfo
	r *thr
}

func (i thInfo) Sys() any {
	i.r.g.stop(i.r.th)
	return i.FileInfo.Sys()
}
func (r *thr) Close() error { return nil }

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type concCall struct {
	K   string `json:"k"`
	N   string `json:"n"`
	C   string `json:"c"` // new name
	Ch  int    `json:"ch"`
	Bad bool   `json:"bad"`
}

// afterCall is called when the call of thread 1 is over, and before anything else is looked at.
var afterCall func()

type concTest struct {
	Prog  [][]concCall `json:"prog"`
	Sched []int        `json:"sched"`
}

// conc is one scenario of concurrent calls.
type conc struct {
	h        *H
	mu       sync.Mutex
	events   []J
	split    bool
	ftt      *wpk.FTT
	wpt, wpf *cfile
	cs       *contents
	g        *gates
	dir      string
	src      *os.File
}

func (c *conc) log(e J) {
	c.mu.Lock()
	c.events = append(c.events, e)
	c.mu.Unlock()
}

func (c *conc) data() *cfile {
	if c.split {
		return c.wpf
	}
	return c.wpt
}

func contName(th, i, ch int) string { return fmt.Sprintf("t%d.%d.%d", th, i, ch) }

var chLens = []int{0, 11, 70000}

func tabJ(es []entJ) []J {
	var r = []J{}
	for _, e := range es {
		var f = 0
		for _, t := range e.Tags {
			if t.T == int(wpk.TIDmtime) {
				f = 1
			}
		}
		r = append(r, J{"n": e.K, "c": e.C, "f": f})
	}
	return r
}

// view opens what is written, as a reader starting at this moment would.
func (c *conc) view(way int) {
	c.mu.Lock() // no begin or return is noted meanwhile
	defer c.mu.Unlock()
	var tags = c.wpt.image()
	var data []byte
	if c.split {
		data = c.wpf.image()
	}
	var v = diskView(c.h, tags, data, c.split, c.cs, (way%2)*2)
	var tab, inside = []J{}, true
	if v["st"] == "ok" {
		var es = v["tab"].([]entJ)
		tab = tabJ(es)
		for _, e := range es {
			if e.O < v["do"].(int) || e.O+e.N > v["do"].(int)+v["hds"].(int) {
				inside = false
			}
		}
	}
	c.events = append(c.events, J{"op": "view", "v": J{"st": v["st"], "tab": tab}, "hcnt": v["hcnt"], "inside": inside})
}

func (c *conc) call(th, i int, cl concCall) {
	var cont = contName(th, i, cl.Ch)
	var pkg = &wpk.Package{FTT: c.ftt, Workspace: "."}
	c.g.stop(th)
	switch cl.K {
	case "rename", "alias", "rendir":
		c.log(J{"op": "call", "th": th, "k": cl.K, "n": cl.N, "c": cl.C, "bad": cl.Bad})
	default:
		c.log(J{"op": "call", "th": th, "k": cl.K, "n": cl.N, "c": cont, "bad": cl.Bad})
	}
	var wpt = &thw{c.wpt, c.g, th}
	var wpf = &thw{c.wpf, c.g, th}
	var dw = wpf
	if !c.split {
		dw = wpt
	}
	var r = &thr{b: c.cs.data[cont], bad: cl.Bad, g: c.g, th: th, file: c.src}
	if cl.Ch > 0 {
		r.piece = (len(r.b) + cl.Ch - 1) / cl.Ch
	}
	var ts wpk.TagsetRaw
	var res, names, own = "", []string{}, true
	var crash = inline(func() {
		var err error
		switch cl.K {
		case "pack":
			ts, err = pkg.PackData(dw, r, cl.N)
			res = okc(err)
		case "file":
			ts, err = pkg.PackFile(dw, r, cl.N)
			res = okc(err)
		case "sync":
			if c.split {
				err = c.ftt.Sync(wpt, wpf)
			} else {
				err = c.ftt.Sync(wpt, nil)
			}
			res = okc(err)
		case "has":
			res = yesno(pkg.HasTagset(cl.N))
		case "num":
			res, names = "ok", []string{fmt.Sprint(pkg.TagsetNum())}
		case "enum":
			pkg.Enum(func(k string, _ wpk.TagsetRaw) bool { names = append(names, k); return true })
			res = "ok"
		case "del":
			var _, ok = pkg.DelTagset(cl.N)
			res = yesno(ok)
		case "rename":
			res = okc(pkg.Rename(cl.N, cl.C))
		case "alias":
			res = okc(pkg.PutAlias(cl.N, cl.C))
		case "rendir":
			_, err = pkg.RenameDir(cl.N, cl.C, cl.Bad)
			res = okc(err)
		default:
			bug("kind " + cl.K)
		}
	})
	if th == 1 && afterCall != nil {
		afterCall()
	}
	if res == "ok" && (cl.K == "pack" || cl.K == "file") && crash == "" {
		// the tags given back must point to the data of this call
		var o, n = ts.Pos()
		var img = c.data().image()
		own = o+n <= uint(len(img)) && string(img[o:o+n]) == string(c.cs.data[cont])
	}
	c.log(J{"op": "ret", "th": th, "crash": crash, "r": res, "v": names, "own": own})
	if cl.K == "sync" && res == "ok" && c.split { // in a single file the next packing goes over the table
		c.view(i)
	}
}

func okc(err error) string {
	switch errc(err) {
	case "":
		return "ok"
	case "exist":
		return "exist"
	}
	return "err"
}

func yesno(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

func (h *H) newConc(split bool, src *os.File, delay time.Duration) *conc {
	var c = &conc{h: h, split: split, cs: newContents(h.Seed), wpt: &cfile{}, wpf: &cfile{}, g: newGates(delay), src: src}
	c.ftt = &wpk.FTT{}
	c.ftt.Init(&wpk.Header{})
	return c
}

func (c *conc) begin(prog [][]concCall) bool {
	for th, p := range prog {
		for i, cl := range p {
			var id = contName(th+1, i, cl.Ch)
			if _, ok := c.cs.data[id]; !ok {
				var b = make([]byte, chLens[cl.Ch])
				rand.New(rand.NewSource(c.h.Seed*7919 + int64(th*100+i*10+cl.Ch))).Read(b)
				if len(b) == 0 { // all empty files have one content
					c.cs.data[id] = b
					continue
				}
				c.cs.data[id], c.cs.back[tok(b)] = b, id
			}
		}
	}
	var err error
	if c.split {
		err = c.ftt.Begin(c.wpt0(), c.wpf0())
	} else {
		err = c.ftt.Begin(c.wpt0(), nil)
	}
	return err == nil
}

func (c *conc) wpt0() io.WriteSeeker { return &thw{c.wpt, freeGates, 0} }
func (c *conc) wpf0() io.WriteSeeker { return &thw{c.wpf, freeGates, 0} }

var freeGates = func() *gates { var g = newGates(0); g.free = true; return g }()

// end syncs from a single thread and looks at everything once more; tells whether the calls return.
func (c *conc) end(th int) bool {
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); c.last(th) }()
	return waitAll(&wg, 30*time.Second)
}

func (c *conc) last(th int) {
	c.call(th, 0, concCall{K: "sync"})
	c.log(J{"op": "mem", "tab": tabJ(entries(c.ftt, c.data().image(), c.cs))})
}

// emptyAs makes the token of empty content equal on both sides.
func (c *conc) normalize() {
	for _, e := range c.events {
		if e["op"] == "call" {
			if b, ok := c.cs.data[e["c"].(string)]; ok && len(b) == 0 {
				e["c"] = "?"
			}
		}
	}
}

func (h *H) emitAll(id string, c *conc, hang bool) {
	h.concMu.Lock()
	defer h.concMu.Unlock()
	c.mu.Lock()
	defer c.mu.Unlock()
	c.normalize()
	var mode = "single"
	if c.split {
		mode = "split"
	}
	h.Reset(id, J{"mode": mode})
	for _, e := range c.events {
		h.Emit(e)
	}
	if hang {
		h.Emit(J{"op": "fatal", "detail": "threads do not return"})
		if hangs.Add(1) >= maxHangs {
			h.Stop("")
		}
	}
}

func waitAll(wg *sync.WaitGroup, d time.Duration) bool {
	var ch = make(chan struct{})
	go func() { wg.Wait(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

func (h *H) sourceFile() *os.File {
	var p = filepath.Join(h.Scratch, "source.bin")
	must(os.WriteFile(p, []byte("source"), 0644))
	var f, err = os.Open(p)
	must(err)
	return f
}

// parallel runs n independent scenarios on some workers.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	var next = make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}

func runConc(h *H) {
	var src = h.sourceFile()
	parallel(len(h.Tests), func(ti int) {
		var t concTest
		must(json.Unmarshal(h.Tests[ti], &t))
		var rnd = rand.New(rand.NewSource(h.Seed*1000003 + int64(ti)))
		var syncs = false
		for _, p := range t.Prog {
			for _, cl := range p {
				syncs = syncs || cl.K == "sync"
			}
		}
		var c = h.newConc(ti%2 == 0 || syncs && ti%3 != 0, src, time.Millisecond)
		if !c.begin(t.Prog) {
			c.log(J{"op": "fatal", "detail": "begin failed"})
			h.emitAll(fmt.Sprintf("g%d", ti), c, false)
			return
		}
		var wg sync.WaitGroup
		for th, p := range t.Prog {
			var th, p = th + 1, p
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer c.g.finish(th)
				for i, cl := range p {
					c.call(th, i, cl)
				}
			}()
		}
		// an observer asks about the table meanwhile
		var ask = make(chan concCall, len(t.Sched)+1)
		var obs sync.WaitGroup
		obs.Add(1)
		go func() {
			defer obs.Done()
			for cl := range ask {
				c.observe(cl)
			}
		}()
		for _, th := range t.Sched {
			c.g.grant(th)
			switch rnd.Intn(5) {
			case 0:
				ask <- concCall{K: []string{"has", "enum", "num"}[rnd.Intn(3)], N: []string{"a", "b"}[rnd.Intn(2)]}
			case 1:
				if c.split {
					c.view(rnd.Intn(4))
				}
			}
		}
		c.g.release()
		var ok = waitAll(&wg, 30*time.Second)
		close(ask)
		ok = ok && waitAll(&obs, 30*time.Second)
		ok = ok && c.end(7)
		h.emitAll(fmt.Sprintf("g%d", ti), c, !ok)
	})
}

// observe makes a call of the observer, which is never stopped.
func (c *conc) observe(cl concCall) {
	var o = &conc{h: c.h, split: c.split, ftt: c.ftt, wpt: c.wpt, wpf: c.wpf, cs: c.cs, g: freeGates}
	c.log(J{"op": "call", "th": 9, "k": cl.K, "n": cl.N, "c": "-", "bad": false})
	o.call(9, 0, cl)
	for _, e := range o.events {
		if e["op"] == "ret" {
			c.log(e)
		}
	}
}

// runConcFree leaves the schedule to the Go runtime.
func runConcFree(h *H) {
	var src = h.sourceFile()
	var n = 400
	if h.Thorough {
		n = 8000
	}
	if len(h.Args) > 0 && h.Args[0] == "race" {
		n /= 4
	}
	var kinds = []string{"pack", "pack", "pack", "file", "file", "has", "enum", "num", "del", "sync"}
	parallel(n, func(ti int) {
		var rnd = rand.New(rand.NewSource(h.Seed*1000003 + int64(ti)))
		var c = h.newConc(ti%3 != 0, src, 0)
		var rounds = 1 + rnd.Intn(3)
		var prog [][]concCall
		for th := 0; th < 4; th++ {
			var p []concCall
			for i := 0; i < 3; i++ {
				var cl = concCall{K: kinds[rnd.Intn(len(kinds))], N: string(rune('a' + rnd.Intn(4))), Ch: rnd.Intn(3), Bad: rnd.Intn(6) == 0}
				if cl.K == "file" { // only one thread, other names: its times are stored a moment later
					cl.N = fmt.Sprintf("f%d%d", th, i)
				}
				p = append(p, cl)
			}
			prog = append(prog, p)
		}
		c.g = freeGates
		if !c.begin(prog) {
			c.log(J{"op": "fatal", "detail": "begin failed"})
			h.emitAll(fmt.Sprintf("f%d", ti), c, false)
			return
		}
		var ok = true
		for rd := 0; rd < imin(rounds, 3) && ok; rd++ {
			var wg sync.WaitGroup
			for th, p := range prog {
				var th, cl = th + 1, p[rd]
				wg.Add(1)
				go func() {
					defer wg.Done()
					c.call(th, rd, cl)
				}()
			}
			ok = waitAll(&wg, 30*time.Second)
		}
		ok = ok && c.end(7)
		h.emitAll(fmt.Sprintf("f%d", ti), c, !ok)
	})
}
