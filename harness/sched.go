//go:build sched

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/schwarzlichtbezirk/wpk/util"
)

// The code under test is built here with a hook before each of its statements. One thread is stopped before its
// k-th statement while the others go on till they return or wait, for every k.

func init() {
	areas["concpre"] = runConcPre
	areas["seqmappre"] = runSeqMapPre
	stopAt.Store(-1)
	util.VerifStep = verifStep
	afterCall = func() { stopAt.Store(-1) }
}

// One scenario runs at a time. Till thread 1 is stopped it is the only one running, so its steps need no sign.
var (
	stopAt atomic.Int64 // statements to do before the stop, negative when nobody is to stop
	steps  atomic.Int64
	paused chan struct{}
	resume chan struct{}
)

func verifStep() {
	steps.Add(1)
	if stopAt.Load() >= 0 && stopAt.Add(-1) < 0 {
		close(paused)
		<-resume
	}
}

// rest waits till the thread returns or no steps are made.
func rest(done chan struct{}) {
	for {
		var n = steps.Load()
		select {
		case <-done:
			return
		case <-time.After(1500 * time.Microsecond):
			if steps.Load() == n {
				return
			}
		}
	}
}

func start(f func()) chan struct{} {
	var done = make(chan struct{})
	go func() { defer close(done); f() }()
	return done
}

// preempt runs a till its k-th statement, then each of bs as far as it goes, then all to their ends. It tells
// whether a has that statement, and whether all did return. Before the rest goes on, look is called.
func preempt(k int, a func(), bs []func(), look func()) (has, ok bool) {
	paused, resume = make(chan struct{}), make(chan struct{})
	stopAt.Store(int64(k))
	var done = start(a)
	select {
	case <-done:
	case <-paused:
		has = true
	case <-time.After(30 * time.Second):
		return false, false
	}
	stopAt.Store(-1)
	var ends = []chan struct{}{done}
	for _, b := range bs {
		var db = start(b)
		rest(db)
		ends = append(ends, db)
	}
	if look != nil {
		look()
	}
	if has {
		close(resume)
	}
	for _, d := range ends {
		select {
		case <-d:
		case <-time.After(30 * time.Second):
			return has, false
		}
	}
	return has, true
}

type preTest struct {
	Setup []concCall `json:"setup"`
	A     concCall   `json:"a"`
	B     []concCall `json:"b"`
}

func runConcPre(h *H) {
	var src = h.sourceFile()
	for ti := range h.Tests {
		var t preTest
		must(json.Unmarshal(h.Tests[ti], &t))
		for k := 0; ; k++ {
			if !h.concPre(ti, k, t, src) {
				break
			}
		}
	}
}

func (h *H) concPre(ti, k int, t preTest, src *os.File) bool {
	var syncs = t.A.K == "sync"
	for _, b := range t.B {
		syncs = syncs || b.K == "sync"
	}
	var c = h.newConc(ti%2 == 0 || syncs && ti%3 != 0, src, 0)
	c.g = freeGates
	var id = fmt.Sprintf("p%d.%d", ti, k)
	if !c.begin([][]concCall{{t.A}, t.B, t.Setup}) {
		c.log(J{"op": "fatal", "detail": "begin failed"})
		h.emitAll(id, c, false)
		return false
	}
	for i, cl := range t.Setup {
		c.call(3, i, cl)
	}
	var look = func() {
		if c.split {
			c.view(k)
		}
	}
	var has, ok = preempt(k, func() { c.call(1, 0, t.A) }, []func(){
		func() {
			for i, cl := range t.B {
				c.call(2, i, cl)
			}
		},
		func() { c.observe(concCall{K: []string{"enum", "num", "has"}[k%3], N: "a"}) },
	}, look)
	ok = ok && c.end(7)
	h.emitAll(id, c, !ok)
	return has && ok
}

type smPre struct {
	Setup []smOp `json:"setup"`
	A     smOp   `json:"a"`
	B     []smOp `json:"b"`
}

func runSeqMapPre(h *H) {
	for ti := range h.Tests {
		var t smPre
		must(json.Unmarshal(h.Tests[ti], &t))
		for k := 0; ; k++ {
			var m smap
			m.Init(0)
			var mu sync.Mutex
			var events []J
			var log = func(e J) { mu.Lock(); events = append(events, e); mu.Unlock() }
			var do = func(th int, e smOp) {
				log(J{"op": "call", "th": th, "e": e})
				var r = smRes(false, "", "", 0, nil)
				var crash = inline(func() { r = smDo(&m, e) })
				log(J{"op": "ret", "th": th, "r": r, "crash": crash})
			}
			for _, e := range t.Setup {
				do(9, e)
			}
			var has, ok = preempt(k, func() { do(1, t.A) }, []func(){
				func() {
					for _, e := range t.B {
						do(2, e)
					}
				},
				func() {
					do(3, []smOp{{Op: "range", N: 99}, {Op: "len"}, {Op: "has", K: "a"}, {Op: "peek", K: "b"}}[k%4])
				},
			}, nil)
			if ok {
				for _, e := range []smOp{{Op: "range", N: 99}, {Op: "len"}, {Op: "has", K: "a"}, {Op: "peek", K: "b"}, {Op: "pop"}, {Op: "push", K: "zz", V: "v"}, {Op: "range", N: 99}} {
					do(9, e)
				}
			}
			h.concMu.Lock()
			mu.Lock()
			h.Reset(fmt.Sprintf("p%d.%d", ti, k), nil)
			for _, e := range events {
				h.Emit(e)
			}
			if !ok {
				h.Emit(J{"op": "fatal", "detail": "threads do not return"})
				if hangs.Add(1) >= maxHangs {
					h.Stop("")
				}
			}
			mu.Unlock()
			h.concMu.Unlock()
			if !has || !ok {
				break
			}
		}
	}
}
