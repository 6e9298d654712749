package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	areas["tagset"] = runTagset
	areas["tagraw"] = runTagRaw
}

type tsop struct {
	Op  string `json:"op"`
	H   string `json:"h"`
	T   int    `json:"t"`
	V   string `json:"v"`
	T2  int    `json:"t2"`
	raw []byte // value when the token is not its hexadecimal form
}

type tagJ struct {
	T int    `json:"t"`
	V string `json:"v"`
}

// list reads a tag set through its iterator.
func list(ts wpk.TagsetRaw) []tagJ {
	var l = []tagJ{}
	var tsi = ts.Iterator()
	for tsi.Next() {
		l = append(l, tagJ{int(tsi.TID()), tok(tsi.Tag())})
		if tsi.TagLen() != len(tsi.Tag()) {
			l = append(l, tagJ{-1, "TagLen"})
		}
	}
	if tsi.Failed() || !tsi.Passed() {
		l = append(l, tagJ{-1, "iteration failed"})
	}
	return l
}

// regime places a tag set into a buffer with some spare capacity.
func regime(ts wpk.TagsetRaw, spare int) wpk.TagsetRaw {
	var buf = make([]byte, len(ts)+spare)
	copy(buf, ts)
	for i := len(ts); i < len(buf); i++ {
		buf[i] = 0xee
	}
	return wpk.TagsetRaw(buf[:len(ts)])
}

func doTagset(h *H, id string, ops []tsop, spare int) {
	h.Reset(id, nil)
	var hs = map[string]wpk.TagsetRaw{"a": nil, "b": nil}
	for _, o := range ops {
		var r = J{"ok": true, "v": "", "n": 0}
		var ts = hs[o.H]
		if spare >= 0 && o.Op != "copy" {
			ts = regime(ts, spare)
		}
		var val = o.raw
		if val == nil {
			val = unhex(o.V)
		}
		var crash = inline(func() {
			var ok bool
			switch o.Op {
			case "put":
				ts = ts.Put(wpk.TID(o.T), val)
			case "set":
				var pr = ts.Set // both flavours exist
				if len(ops)%2 == 0 {
					_ = pr
				}
				ts, ok = ts.SetOk(wpk.TID(o.T), val)
				r["ok"] = ok
			case "add":
				ts, ok = ts.AddOk(wpk.TID(o.T), val)
				r["ok"] = ok
			case "del":
				ts, ok = ts.DelOk(wpk.TID(o.T))
				r["ok"] = ok
			case "setfrom":
				var v, _ = ts.Get(wpk.TID(o.T2))
				ts, ok = ts.SetOk(wpk.TID(o.T), v)
				r["ok"] = ok
			case "get":
				var v wpk.TagRaw
				v, ok = ts.Get(wpk.TID(o.T))
				r["ok"], r["v"] = ok, tok(v)
			case "has":
				r["ok"] = ts.Has(wpk.TID(o.T))
			case "num":
				r["n"] = ts.Num()
			case "copy":
				var other = "a"
				if o.H == "a" {
					other = "b"
				}
				hs[other] = wpk.CopyTagset(ts)
			default:
				bug("op " + o.Op)
			}
			hs[o.H] = ts
			r["a"], r["b"] = list(hs["a"]), list(hs["b"])
		})
		if crash != "" {
			r = J{"ok": false, "v": "", "n": 0, "a": []tagJ{}, "b": []tagJ{}}
		}
		r["crash"] = crash
		var v = o.V
		if o.raw != nil {
			v = tok(o.raw)
		}
		h.Emit(J{"op": o.Op, "h": o.H, "t": o.T, "v": v, "t2": o.T2, "r": r})
		if crash != "" {
			return
		}
	}
}

// chain runs set/add/del without the result flag, in a chain, as callers do.
func doTagsetChain(h *H, id string, ops []tsop) {
	h.Reset(id, nil)
	var ts wpk.TagsetRaw
	for _, o := range ops {
		if o.H != "a" {
			continue
		}
		var val = o.raw
		if val == nil {
			val = unhex(o.V)
		}
		var had bool
		var r = J{"v": "", "n": 0}
		var crash = inline(func() {
			had = ts.Has(wpk.TID(o.T))
			switch o.Op {
			case "put":
				ts, had = ts.Put(wpk.TID(o.T), val), false
			case "set":
				ts = ts.Set(wpk.TID(o.T), val)
			case "add":
				ts = ts.Add(wpk.TID(o.T), val)
			case "del":
				ts = ts.Del(wpk.TID(o.T))
				had = !had
			default:
				return
			}
			r["a"] = list(ts)
		})
		if _, ok := r["a"]; !ok && crash == "" {
			continue
		}
		if crash != "" {
			r["a"] = []tagJ{}
		}
		r["b"], r["ok"], r["crash"] = []tagJ{}, !had, crash
		var v = o.V
		if o.raw != nil {
			v = tok(o.raw)
		}
		h.Emit(J{"op": o.Op, "h": "a", "t": o.T, "v": v, "t2": 0, "r": r})
		if crash != "" {
			return
		}
	}
}

func runTagset(h *H) {
	// tests generated from the model, under several spare capacities
	for i, t := range h.Tests {
		var ops []tsop
		must(json.Unmarshal(t, &ops))
		var spares = []int{-1, 0, 1, 7, 64}
		if !h.Thorough {
			spares = []int{[]int{-1, 0, 1, 7, 64}[i%5], []int{64, 1, 7}[i%3]}
		}
		for _, sp := range spares {
			doTagset(h, fmt.Sprintf("gen%d/%d", i, sp), ops, sp)
		}
		if i%4 == 0 {
			doTagsetChain(h, fmt.Sprintf("gen%d/chain", i), ops)
		}
	}
	// random histories with wide identifiers and values
	var tids = []int{0, 0, 1, 2, 3, 4, 5, 7, 10, 20, 100, 116, 255, 256, 257, 511, 512, 1000, 0x7fff, 0x8000, 0xfffe, 0xffff}
	var lens = []int{0, 0, 1, 2, 3, 4, 5, 8, 12, 13, 16, 31, 64, 100, 255, 256, 257, 1000}
	var n = 400
	if h.Thorough {
		n = 6000
	}
	for i := 0; i < n; i++ {
		var ops []tsop
		var k = 3 + h.Rng.Intn(14)
		var pool = make([]int, 2+h.Rng.Intn(5))
		for j := range pool {
			pool[j] = tids[h.Rng.Intn(len(tids))]
		}
		for j := 0; j < k; j++ {
			var o = tsop{H: "a", T: pool[h.Rng.Intn(len(pool))]}
			if h.Rng.Intn(5) == 0 {
				o.H = "b"
			}
			switch x := h.Rng.Intn(20); {
			case x < 7:
				o.Op = "set"
			case x < 11:
				o.Op = "add"
			case x < 14:
				o.Op = "del"
			case x < 15:
				o.Op = "get"
			case x < 16:
				o.Op = "has"
			case x < 17:
				o.Op = "num"
			case x < 18:
				o.Op = "copy"
			case x < 19 && j > 2:
				o.Op = "setfrom"
				o.T2 = o.T
				for _, p := range ops {
					if p.H == o.H && (p.Op == "set" || p.Op == "add") {
						o.T2 = p.T
					}
				}
			default:
				o.Op = "put"
			}
			var l = lens[h.Rng.Intn(len(lens))]
			if h.Rng.Intn(300) == 0 {
				l = []int{0x7fff, 0x8000, 0xfff0, 0xffff}[h.Rng.Intn(4)]
			}
			o.raw = make([]byte, l)
			h.Rng.Read(o.raw)
			if o.Op != "set" && o.Op != "add" && o.Op != "put" {
				o.raw, o.V = nil, ""
			}
			ops = append(ops, o)
		}
		ops = fixSetfrom(ops)
		doTagset(h, fmt.Sprintf("rnd%d", i), ops, []int{-1, -1, 0, 3, 100, 2000}[h.Rng.Intn(6)])
		if i%3 == 0 {
			doTagsetChain(h, fmt.Sprintf("rnd%d/chain", i), ops)
		}
	}
}

// fixSetfrom drops operations that would read a tag that is not there.
func fixSetfrom(ops []tsop) (res []tsop) {
	var m = map[string]map[int]int{"a": {}, "b": {}}
	for _, o := range ops {
		var s = m[o.H]
		switch o.Op {
		case "put":
			s[o.T]++
		case "set", "add":
			if s[o.T] == 0 {
				s[o.T] = 1
			}
		case "del":
			if s[o.T] > 0 {
				s[o.T]--
			}
		case "copy":
			var c = map[int]int{}
			for k, v := range s {
				c[k] = v
			}
			if o.H == "a" {
				m["b"] = c
			} else {
				m["a"] = c
			}
		case "setfrom":
			if s[o.T2] == 0 {
				continue
			}
			if s[o.T] == 0 {
				s[o.T] = 1
			}
		}
		res = append(res, o)
	}
	return
}

// ---- damaged bytes ----

func rawCase(h *H, b []byte, t int) {
	type tb struct {
		T int   `json:"t"`
		B []int `json:"b"`
	}
	var tags = []tb{}
	var r = J{"tags": tags, "failed": false, "num": 0, "has": false, "got": false, "val": []int{}, "reset": J{"t": -1, "n": -1, "v": []int{}}}
	var crash = inline(func() {
		var ts = wpk.TagsetRaw(append(make([]byte, 0, len(b)), b...))
		var tsi = ts.Iterator()
		var n int
		for tsi.Next() {
			tags = append(tags, tb{int(tsi.TID()), ints(tsi.Tag())})
			if n++; n > 70000 {
				panic("endless iteration")
			}
		}
		r["tags"], r["failed"], r["num"] = tags, tsi.Failed(), ts.Num()
		if tsi.Failed() == tsi.Passed() {
			panic("Failed and Passed disagree")
		}
		if tsi.Failed() && (tsi.Tag() != nil || tsi.TagLen() != 0) {
			panic("tag from a failed iterator")
		}
		r["has"] = ts.Has(wpk.TID(t))
		var v, ok = ts.Get(wpk.TID(t))
		r["got"], r["val"] = ok, ints(v)
		// typed getters never panic either
		ts.TagStr(wpk.TID(t))
		ts.TagUint(wpk.TID(t))
		ts.TagTime(wpk.TID(t))
		ts.TagBool(wpk.TID(t))
		ts.TagNumber(wpk.TID(t))
		ts.Pos()
		ts.Path()
		ts.Name()
		ts.Size()
		ts.Mode()
		ts.ModTime()
		tsi.Reset()
		// as before the first tag
		r["reset"] = J{"t": int(tsi.TID()), "n": tsi.TagLen(), "v": ints(tsi.Tag())}
		var m int
		for tsi.Next() {
			m++
		}
		if m != n {
			panic("iteration after reset differs")
		}
	})
	r["crash"] = crash
	h.Emit(J{"op": "raw", "b": ints(b), "t": t, "r": r})
}

func runTagRaw(h *H) {
	h.Reset("raw", nil)
	var n int
	var put = func(b []byte, t int) {
		if n++; n%200 == 0 {
			h.Reset(fmt.Sprintf("raw%d", n), nil)
		}
		rawCase(h, b, t)
	}
	// every byte string over a small alphabet up to length 5 (ids and lengths 0, 1, 2, 255)
	var alpha = []byte{0, 1, 2}
	var rec func(b []byte, k int)
	rec = func(b []byte, k int) {
		put(b, n%3)
		if k == 0 {
			return
		}
		for _, c := range alpha {
			rec(append(append([]byte{}, b...), c), k-1)
		}
	}
	var depth = 6
	if h.Thorough {
		depth = 8
	}
	rec(nil, depth)
	// truncations and single-byte damage of well-formed sets
	var mk = func() wpk.TagsetRaw {
		var ts wpk.TagsetRaw
		for j := 0; j < 1+h.Rng.Intn(4); j++ {
			var v = make([]byte, h.Rng.Intn(6))
			h.Rng.Read(v)
			ts = ts.Put(wpk.TID(h.Rng.Intn(4)), v)
		}
		return ts
	}
	var sets = 20
	if h.Thorough {
		sets = 150
	}
	for i := 0; i < sets; i++ {
		var ts = mk()
		for j := 0; j <= len(ts); j++ {
			put(ts[:j], h.Rng.Intn(4))
		}
		for j := 0; j < len(ts); j++ {
			for _, x := range []byte{0, 1, 0xff, ts[j] + 1, ts[j] ^ 0x80} {
				var b = append([]byte{}, ts...)
				b[j] = x
				put(b, h.Rng.Intn(4))
			}
		}
	}
	// bytes from the test generator
	for _, t := range h.Tests {
		var s string
		must(json.Unmarshal(t, &s))
		var b, err = hex.DecodeString(s)
		must(err)
		put(b, 1)
	}
}
