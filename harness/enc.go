package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"testing/iotest"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

func init() { areas["enc"] = runEnc }

// limbs gives a number as n bytes, least significant first, by arithmetic only.
func limbs(u uint64, n int) []int {
	var r = make([]int, n)
	for i := range r {
		r[i] = int(u % 256)
		u /= 256
	}
	return r
}

func unlimbs(v []int) (u uint64) {
	for i := len(v) - 1; i >= 0; i-- {
		u = u*256 + uint64(v[i])
	}
	return
}

func toBytes(v []int) []byte {
	var b = make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}

func encode(kind string, v []int, ns int) wpk.TagRaw {
	var u = unlimbs(v[:len(v)*boolInt(len(v) <= 8)])
	switch kind {
	case "str":
		return wpk.StrTag(string(toBytes(v)))
	case "bool":
		return wpk.BoolTag(v[0] != 0)
	case "byte":
		return wpk.ByteTag(byte(u))
	case "u16":
		return wpk.Uint16Tag(uint16(u))
	case "u32":
		return wpk.Uint32Tag(uint32(u))
	case "u64":
		return wpk.Uint64Tag(u)
	case "num":
		return wpk.NumberTag(math.Float64frombits(u))
	case "uint":
		return wpk.UintTag(uint(u))
	case "uint1":
		return wpk.UintLenTag(uint(u), 1)
	case "uint2":
		return wpk.UintLenTag(uint(u), 2)
	case "uint4":
		return wpk.UintLenTag(uint(u), 4)
	case "uint8":
		return wpk.UintLenTag(uint(u), 8)
	case "time":
		return wpk.TimeTag(time.Unix(int64(u), int64(ns)))
	case "unixms":
		return wpk.UnixmsTag(time.Unix(int64(u), int64(ns)))
	}
	bug("kind " + kind)
	return nil
}

type getter interface {
	TagStr() (string, bool)
	TagBool() (bool, bool)
	TagByte() (byte, bool)
	TagUint16() (uint16, bool)
	TagUint32() (uint32, bool)
	TagUint64() (uint64, bool)
	TagUint() (uint, bool)
	TagNumber() (float64, bool)
	TagTime() (time.Time, bool)
	TagUnixms() (int64, bool)
}

// inSet looks at a tag of a tag set through the typed getters of the set.
type inSet struct {
	ts  wpk.TagsetRaw
	tid wpk.TID
}

func (s inSet) TagStr() (string, bool)     { return s.ts.TagStr(s.tid) }
func (s inSet) TagBool() (bool, bool)      { return s.ts.TagBool(s.tid) }
func (s inSet) TagByte() (byte, bool)      { return s.ts.TagByte(s.tid) }
func (s inSet) TagUint16() (uint16, bool)  { return s.ts.TagUint16(s.tid) }
func (s inSet) TagUint32() (uint32, bool)  { return s.ts.TagUint32(s.tid) }
func (s inSet) TagUint64() (uint64, bool)  { return s.ts.TagUint64(s.tid) }
func (s inSet) TagUint() (uint, bool)      { return s.ts.TagUint(s.tid) }
func (s inSet) TagNumber() (float64, bool) { return s.ts.TagNumber(s.tid) }
func (s inSet) TagTime() (time.Time, bool) { return s.ts.TagTime(s.tid) }
func (s inSet) TagUnixms() (int64, bool)   { return s.ts.TagUnixms(s.tid) }

func timeJ(t time.Time, ok bool) J {
	return J{"ok": ok, "v": limbs(uint64(t.Unix()), 8), "ns": t.Nanosecond()}
}

func decodeAll(g getter) J {
	var one = func(ok bool, v []int) J {
		if !ok {
			return J{"ok": false, "v": []int{}, "ns": 0}
		}
		return J{"ok": true, "v": v, "ns": 0}
	}
	var r = J{}
	var s, ok = g.TagStr()
	r["str"] = one(ok, ints([]byte(s)))
	var b, okb = g.TagBool()
	r["bool"] = one(okb, []int{boolInt(b)})
	var y, oky = g.TagByte()
	r["byte"] = one(oky, []int{int(y)})
	var u16, ok16 = g.TagUint16()
	r["u16"] = one(ok16, limbs(uint64(u16), 2))
	var u32, ok32 = g.TagUint32()
	r["u32"] = one(ok32, limbs(uint64(u32), 4))
	var u64, ok64 = g.TagUint64()
	r["u64"] = one(ok64, limbs(u64, 8))
	var u, oku = g.TagUint()
	r["uint"] = one(oku, limbs(uint64(u), 8))
	var f, okf = g.TagNumber()
	r["num"] = one(okf, limbs(math.Float64bits(f), 8))
	var t, okt = g.TagTime()
	r["time"] = timeJ(t, okt)
	var m, okm = g.TagUnixms()
	r["unixms"] = one(okm, limbs(uint64(m), 8))
	return r
}

type failWriter struct{ n int }

func (w *failWriter) Write(p []byte) (int, error) {
	return 0, errors.New("no room")
}

func numHelpers(kind string, v []int) (r J) {
	r = J{}
	var u = unlimbs(v)
	var n = len(v)
	var buf = bytes.Repeat([]byte{0xAA}, n+2)
	var out bytes.Buffer
	var rd = func() io.Reader { return iotest.OneByteReader(bytes.NewReader(toBytes(v))) }
	var short = bytes.NewReader(toBytes(v)[:n-1])
	var got, red uint64
	var err, err1, err2, err3 error
	switch kind {
	case "u16":
		util.SetU16(buf[1:], uint16(u))
		got = uint64(util.GetU16(toBytes(v)))
		err = util.WriteU16(&out, uint16(u))
		err1 = util.WriteU16(&failWriter{}, uint16(u))
		var x uint16
		x, err2 = util.ReadU16(rd())
		red = uint64(x)
		_, err3 = util.ReadU16(short)
	case "u32":
		util.SetU32(buf[1:], uint32(u))
		got = uint64(util.GetU32(toBytes(v)))
		err = util.WriteU32(&out, uint32(u))
		err1 = util.WriteU32(&failWriter{}, uint32(u))
		var x uint32
		x, err2 = util.ReadU32(rd())
		red = uint64(x)
		_, err3 = util.ReadU32(short)
	case "u64":
		util.SetU64(buf[1:], u)
		got = util.GetU64(toBytes(v))
		err = util.WriteU64(&out, u)
		err1 = util.WriteU64(&failWriter{}, u)
		red, err2 = util.ReadU64(rd())
		_, err3 = util.ReadU64(short)
	case "f32":
		util.SetF32(buf[1:], math.Float32frombits(uint32(u)))
		got = uint64(math.Float32bits(util.GetF32(toBytes(v))))
		err = util.WriteF32(&out, math.Float32frombits(uint32(u)))
		err1 = util.WriteF32(&failWriter{}, 1)
		var x float32
		x, err2 = util.ReadF32(rd())
		red = uint64(math.Float32bits(x))
		_, err3 = util.ReadF32(short)
	case "f64":
		util.SetF64(buf[1:], math.Float64frombits(u))
		got = math.Float64bits(util.GetF64(toBytes(v)))
		err = util.WriteF64(&out, math.Float64frombits(u))
		err1 = util.WriteF64(&failWriter{}, 1)
		var x float64
		x, err2 = util.ReadF64(rd())
		red = math.Float64bits(x)
		_, err3 = util.ReadF64(short)
	}
	r["set"], r["get"], r["read"] = ints(buf[1:n+1]), limbs(got, n), limbs(red, n)
	if buf[0] != 0xAA || buf[n+1] != 0xAA || err2 != nil {
		r["set"] = []int{}
	}
	r["write"] = ints(out.Bytes())
	r["werr"] = err == nil && err1 != nil
	r["short"] = err3 != nil
	return
}

func runEnc(h *H) {
	type encTest struct {
		Op   string `json:"op"`
		Kind string `json:"kind"`
		V    []int  `json:"v"`
		NS   int    `json:"ns"`
	}
	var tests []encTest
	for _, t := range h.Tests {
		var et encTest
		must(json.Unmarshal(t, &et))
		tests = append(tests, et)
	}
	// random values besides the generated ones
	var n = 2000
	if h.Thorough {
		n = 60000
	}
	var kinds = []string{"byte", "u16", "u32", "u64", "num", "uint", "uint8", "time", "unixms", "str"}
	var size = map[string]int{"byte": 1, "u16": 2, "u32": 4}
	for i := 0; i < n; i++ {
		var et = encTest{Op: "enc", Kind: kinds[h.Rng.Intn(len(kinds))], V: []int{}}
		var u = h.Rng.Uint64() >> uint(h.Rng.Intn(64))
		et.V = limbs(u, 8)
		if s, ok := size[et.Kind]; ok {
			et.V = et.V[:s]
		}
		switch et.Kind {
		case "time", "unixms":
			et.V = limbs(uint64(h.Rng.Int63n(1<<40)-1<<39), 8)
			et.NS = h.Rng.Intn(1000000000)
		case "str":
			et.V = ints(h.randBytes(h.Rng.Intn(40)))
		}
		tests = append(tests, et, encTest{Op: "dec", V: ints(h.randBytes(h.Rng.Intn(14)))})
	}
	for i, et := range tests {
		if i%50 == 0 {
			h.Reset(fmt.Sprintf("e%d", i), nil)
		}
		if et.V == nil {
			et.V = []int{}
		}
		switch et.Op {
		case "enc":
			var b wpk.TagRaw
			var crash = inline(func() { b = encode(et.Kind, et.V, et.NS) })
			h.Emit(J{"op": "enc", "kind": et.Kind, "v": et.V, "ns": et.NS, "r": J{"crash": crash, "b": ints(b)}})
			var uk = map[string]string{"u16": "u16", "u32": "u32", "u64": "u64", "num": "f64"}[et.Kind]
			if et.Kind == "u32" && i%2 == 0 && nanFree(et.V) {
				uk = "f32"
			}
			if uk != "" {
				var r J
				if crash = inline(func() { r = numHelpers(uk, et.V) }); crash != "" {
					r = J{}
				}
				r["crash"] = crash
				h.Emit(J{"op": "num", "kind": uk, "v": et.V, "r": r})
			}
		case "dec":
			var r = J{}
			var raw = wpk.TagRaw(toBytes(et.V))
			r["crash"] = inline(func() {
				var ts wpk.TagsetRaw
				ts = ts.Put(7, wpk.TagRaw("before")).Put(9, raw).Put(11, wpk.TagRaw{1, 2, 3, 4, 5, 6, 7, 8})
				r["raw"], r["set"], r["absent"] = decodeAll(raw), decodeAll(inSet{ts, 9}), decodeAll(inSet{ts, 10})
			})
			h.Emit(J{"op": "dec", "v": et.V, "r": r})
			if len(raw) == 8 || len(raw) == 12 {
				h.timesEvent(et.V, raw)
			}
		}
	}
}

// nanFree: conversions of 32-bit not-a-numbers may quieten them.
func nanFree(v []int) bool {
	var f = math.Float32frombits(uint32(unlimbs(v)))
	return f == f
}

func (h *H) randBytes(n int) []byte {
	var b = make([]byte, n)
	h.Rng.Read(b)
	return b
}

// timesEvent stores the bytes as time tags of an entry and asks the accessors.
func (h *H) timesEvent(v []int, raw wpk.TagRaw) {
	var r = J{}
	r["crash"] = inline(func() {
		var ts = wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.UintTag(0)).
			Put(wpk.TIDmtime, raw).Put(wpk.TIDatime, raw).Put(wpk.TIDctime, raw).Put(wpk.TIDbtime, raw)
		r["m"], r["a"] = timeJ(ts.ModTime(), true), timeJ(ts.AccessTime(), true)
		r["c"], r["b"] = timeJ(ts.ChangeTime(), true), timeJ(ts.BirthTime(), true)
		r["hasc"], r["hasb"] = ts.HasChangeTime(), ts.HasBirthTime()
	})
	h.Emit(J{"op": "times", "v": v, "r": r})
	var q = J{}
	q["crash"] = inline(func() {
		var ts = wpk.TagsetRaw{}.Put(wpk.TIDmtime, raw).Put(wpk.TIDatime, raw)
		q["hasc"], q["hasb"] = ts.HasChangeTime(), ts.HasBirthTime()
	})
	h.Emit(J{"op": "notimes", "r": q})
}
