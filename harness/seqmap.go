package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/schwarzlichtbezirk/wpk/util"
)

func init() {
	areas["seqmap"] = runSeqMap
	areas["seqmapfree"] = runSeqMapFree
}

type smap = util.SeqMap[string, string]

type smOp struct {
	Op string `json:"op"`
	K  string `json:"k"`
	V  string `json:"v"`
	N  int    `json:"n"`
}

func smRes(ok bool, k, v string, n int, seq []J) J {
	if seq == nil {
		seq = []J{}
	}
	return J{"ok": ok, "k": k, "v": v, "n": n, "seq": seq}
}

func smPairs(m *smap) []J {
	var seq = []J{}
	m.Range(func(k, v string) bool { seq = append(seq, J{"k": k, "v": v}); return true })
	return seq
}

func smDo(m *smap, e smOp) J {
	switch e.Op {
	case "init":
		m.Init(e.N)
		return smRes(true, "", "", 0, nil)
	case "len":
		return smRes(true, "", "", m.Len(), nil)
	case "has":
		return smRes(m.Has(e.K), "", "", 0, nil)
	case "peek":
		var v, ok = m.Peek(e.K)
		return smRes(ok, "", v, 0, nil)
	case "poke":
		m.Poke(e.K, e.V)
		return smRes(true, "", "", 0, nil)
	case "push":
		return smRes(m.Push(e.K, e.V), "", "", 0, nil)
	case "pop":
		var k, v, ok = m.Pop()
		return smRes(ok, k, v, 0, nil)
	case "delete":
		var v, ok = m.Delete(e.K)
		return smRes(ok, "", v, 0, nil)
	case "range":
		var seq = []J{}
		m.Range(func(k, v string) bool {
			seq = append(seq, J{"k": k, "v": v})
			return len(seq) < e.N
		})
		return smRes(true, "", "", 0, seq)
	case "churn":
		var seq = []J{}
		m.Range(func(k, v string) bool {
			seq = append(seq, J{"k": k, "v": v})
			m.Delete(k)
			m.Poke(k, v)
			return true
		})
		return smRes(true, "", "", 0, seq)
	case "drain":
		var seq = []J{}
		m.Range(func(k, v string) bool {
			seq = append(seq, J{"k": k, "v": v})
			m.Delete(k)
			return true
		})
		return smRes(true, "", "", 0, seq)
	}
	bug("op " + e.Op)
	return nil
}

func (h *H) smRun(id string, ops []smOp) {
	h.Reset(id, nil)
	var m smap
	m.Init(0)
	for _, e := range ops {
		var r J = smRes(false, "", "", 0, nil)
		var all = []J{}
		var crash = inline(func() {
			r = smDo(&m, e)
			all = smPairs(&m)
			// the other ways of looking at it must agree
			if m.Len() != len(all) {
				all = append(all, J{"k": "?len", "v": ""})
			}
			for _, p := range all {
				if v, ok := m.Peek(p["k"].(string)); !ok || v != p["v"].(string) || !m.Has(p["k"].(string)) {
					all = append(all, J{"k": "?peek", "v": ""})
					break
				}
			}
		})
		h.Emit(J{"op": e.Op, "k": e.K, "v": e.V, "n": e.N, "r": r, "all": all, "crash": crash})
		if crash != "" {
			return
		}
	}
}

func runSeqMap(h *H) {
	for i, t := range h.Tests {
		var ops []smOp
		must(json.Unmarshal(t, &ops))
		h.smRun(fmt.Sprintf("s%d", i), ops)
	}
	var n = 100
	if h.Thorough {
		n = 2000
	}
	for i := 0; i < n; i++ {
		var ops []smOp
		var kinds = []string{"poke", "poke", "push", "push", "has", "peek", "delete", "pop", "len", "range", "churn"}
		var nk = 2 + h.Rng.Intn(30)
		for j := 0; j < 60; j++ {
			var e = smOp{Op: kinds[h.Rng.Intn(len(kinds))]}
			switch e.Op {
			case "poke", "push":
				e.V = fmt.Sprint("v", j)
				e.K = fmt.Sprint("k", h.Rng.Intn(nk))
			case "has", "peek", "delete":
				e.K = fmt.Sprint("k", h.Rng.Intn(nk))
			case "range":
				e.N = 1 + h.Rng.Intn(nk)
			}
			ops = append(ops, e)
		}
		h.smRun(fmt.Sprintf("r%d", i), ops)
	}
}

// runSeqMapFree lets threads use one map at the same time.
func runSeqMapFree(h *H) {
	var n = 300
	if h.Thorough {
		n = 10000
	}
	var kinds = []string{"poke", "push", "push", "has", "peek", "delete", "pop", "pop", "len", "range"}
	parallel(n, func(ti int) {
		var rnd = rand.New(rand.NewSource(h.Seed*1000003 + int64(ti)))
		var m smap
		m.Init(0)
		var mu sync.Mutex
		var events []J
		var log = func(e J) { mu.Lock(); events = append(events, e); mu.Unlock() }
		var ok = true
		for rd := 0; rd < 8 && ok; rd++ {
			var wg sync.WaitGroup
			var start atomic.Int32
			for th := 1; th <= 4; th++ {
				var e = smOp{Op: kinds[rnd.Intn(len(kinds))]}
				switch e.Op {
				case "poke", "push":
					e.V = fmt.Sprintf("v%d.%d", rd, th)
					e.K = string(rune('a' + rnd.Intn(4)))
				case "has", "peek", "delete":
					e.K = string(rune('a' + rnd.Intn(4)))
				case "range":
					e.N = 99
				}
				var th = th
				wg.Add(1)
				go func() {
					defer wg.Done()
					log(J{"op": "call", "th": th, "e": e})
					start.Add(1)
					for start.Load() < 4 { // all at once
						runtime.Gosched()
					}
					var r = smRes(false, "", "", 0, nil)
					var crash = inline(func() { r = smDo(&m, e) })
					log(J{"op": "ret", "th": th, "r": r, "crash": crash})
				}()
			}
			ok = waitAll(&wg, 60*time.Second)
		}
		// the rest is looked at from one thread
		for _, e := range []smOp{{Op: "range", N: 99}, {Op: "len"}, {Op: "has", K: "a"}, {Op: "peek", K: "b"}, {Op: "pop"}, {Op: "push", K: "zz", V: "v"}, {Op: "range", N: 99}} {
			if ok {
				log(J{"op": "call", "th": 9, "e": e})
				var r = smRes(false, "", "", 0, nil)
				var crash = inline(func() { r = smDo(&m, e) })
				log(J{"op": "ret", "th": 9, "r": r, "crash": crash})
			}
		}
		h.concMu.Lock()
		defer h.concMu.Unlock()
		mu.Lock()
		defer mu.Unlock()
		h.Reset(fmt.Sprintf("f%d", ti), nil)
		for _, e := range events {
			h.Emit(e)
		}
		if !ok {
			h.Emit(J{"op": "fatal", "detail": "threads do not return"})
		}
	})
}
