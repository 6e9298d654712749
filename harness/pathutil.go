package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/luawpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

func init() { areas["pathutil"] = runPathUtil }

// variables of the environment and of the map given to the function
var puEnv = map[string]string{"A": "oa", "B": "os%A%b", "A1": "a longer value", "WPKV_X": "x", "_b": "/u", "ZERO": "", "z": "lz", "Z": "uz", "a": "la", "_": "under", "A0": "nought", "b9": "nine"}
var puMap = map[string]string{"A": "m$B", "AA": "", "B1": "${A}"}

type puTest struct {
	Op string `json:"op"`
	S  string `json:"s"`
	T  string `json:"t"`
}

type puLua struct{ ls *lua.LState }

// call gives the results of a script function.
func (p puLua) call(fn string, args ...lua.LValue) (r []lua.LValue, err error) {
	var top = p.ls.GetTop()
	var f lua.LValue
	if i := strings.IndexByte(fn, '.'); i >= 0 {
		f = p.ls.GetField(p.ls.GetGlobal(fn[:i]), fn[i+1:])
	} else {
		f = p.ls.GetGlobal(fn)
	}
	err = p.ls.CallByParam(lua.P{Fn: f, NRet: lua.MultRet, Protect: true}, args...)
	for i := top + 1; i <= p.ls.GetTop(); i++ {
		r = append(r, p.ls.Get(i))
	}
	p.ls.SetTop(top)
	return
}

func (p puLua) str(fn string, args ...string) string {
	var q []lua.LValue
	for _, a := range args {
		q = append(q, lua.LString(a))
	}
	var r, err = p.call(fn, q...)
	if err != nil {
		return "!error"
	}
	if len(r) != 1 {
		return "!results"
	}
	if s, ok := r[0].(lua.LString); ok {
		return string(s)
	}
	return "!" + r[0].String()
}

// fresh gives a string with its own bytes.
func fresh(s string) string { return string(append([]byte{}, s...)) }

func runPathUtil(h *H) {
	os.Clearenv()
	for k, v := range puEnv {
		os.Setenv(k, v)
	}
	var ls = lua.NewState()
	luawpk.InitLuaVM(ls)
	var p = puLua{ls}
	var tests []puTest
	for _, t := range h.Tests {
		var x puTest
		must(json.Unmarshal(t, &x))
		tests = append(tests, x)
	}
	// longer random strings
	var n = 3000
	if h.Thorough {
		n = 60000
	}
	var bits = []string{"$", "${", "}", "%", "A", "B", "AA", "A1", "WPKV_X", "_b", "ZERO", "1", "/", "x", ".", "\\", "é", " ", "$A", "${A0}", "$b9", "%B%", "${A1}", "%Q%", "Z", "b", "*", "?", "@", "[", "`", "{", "Ж", "\x01", "..", "z", "a", "Y", "9", "0", ":", "%z%", "$Z", "${a}", "_"}
	var rs = func(m int) string {
		var b strings.Builder
		for i := h.Rng.Intn(m); i >= 0; i-- {
			b.WriteString(bits[h.Rng.Intn(len(bits))])
		}
		return b.String()
	}
	for i := 0; i < n; i++ {
		tests = append(tests, puTest{[]string{"env", "env", "str", "join"}[i%4], rs(9), rs(5)})
	}
	for i := 0; i < 300; i++ {
		tests = append(tests, puTest{Op: "hex"}, puTest{Op: "milli"})
	}
	for i := 0; i < 30; i++ {
		tests = append(tests, puTest{Op: "files"})
	}
	for i := 0; i < 256+300; i++ {
		tests = append(tests, puTest{Op: "bytes", T: fmt.Sprint(i)})
	}
	for i, t := range tests {
		if i%500 == 0 {
			h.Reset(fmt.Sprintf("p%d", i), J{"env": puEnv, "map": puMap})
		}
		var e = J{"op": t.Op, "s": t.S, "t": t.T}
		var r = J{}
		var s = fresh(t.S)
		var crash = inline(func() {
			switch t.Op {
			case "env":
				r["nomap"] = util.Envfmt(s, nil)
				r["map"] = util.Envfmt(s, puMap)
				r["lua"] = p.str("path.envfmt", s)
				r["same"] = s == t.S
			case "str":
				r["slash"], r["lower"], r["upper"], r["key"] = util.ToSlash(s), util.ToLower(s), util.ToUpper(s), util.ToKey(s)
				r["name"] = util.PathName(s)
				for k, f := range map[string]string{"lslash": "toslash", "lname": "name", "clean": "clean", "dir": "dir", "base": "base", "ext": "ext", "vol": "volume"} {
					r[k] = p.str("path."+f, s)
				}
				r["sdir"], r["sfile"] = "!", "!"
				if q, err := p.call("path.split", lua.LString(s)); err == nil && len(q) == 2 {
					r["sdir"], r["sfile"] = q[0].String(), q[1].String()
				}
				r["same"] = s == t.S
			case "join":
				r["path"], r["file"] = util.JoinPath(s, t.T), util.JoinFilePath(s, t.T)
				r["lua"] = p.str("path.join", s, t.T)
				r["one"], r["three"] = p.str("path.join", s), p.str("path.join", t.T, s, t.T)
				r["tmp"] = strings.TrimPrefix(wpk.TempPath(s), util.ToSlash(os.TempDir()))
			case "match":
				// pattern s, name t
				var q, err = p.call("path.match", lua.LString(t.T), lua.LString(s))
				r["lua"] = err == nil && len(q) == 1 && q[0] == lua.LTrue
			case "bytes": // every byte, first, last and amid others
				var b = h.randBytes(h.Rng.Intn(6))
				if v := bytesIndex(t.T); v < 256 {
					b = append([][]byte{{}, {'Q'}, {'q', '\\'}}[v%3], byte(v))
					b = append(b, []byte{'m', 'M'}[:(v/3)%3]...)
				}
				e["b"] = ints(b)
				var s = string(b)
				r["slash"], r["lower"], r["upper"], r["key"] = ints([]byte(util.ToSlash(s))), ints([]byte(util.ToLower(s))), ints([]byte(util.ToUpper(s))), ints([]byte(util.ToKey(s)))
				r["same"] = s == string(b)
			case "hex":
				var b = h.randBytes(h.Rng.Intn(20))
				e["b"] = ints(b)
				var x = p.str("bin2hex", string(b))
				r["hex"], r["bin"] = x, ints([]byte(p.str("hex2bin", strings.ToUpper(x))))
				var _, err = p.call("hex2bin", lua.LString(x+"q"))
				r["bad"] = err != nil
			case "milli":
				var m = h.Rng.Int63n(1<<46) - 1<<45
				if h.Rng.Intn(3) == 0 {
					m = h.Rng.Int63n(5000) - 2500
				}
				e["v"] = limbs(uint64(m), 8)
				var layout = ""
				var args = []lua.LValue{lua.LNumber(m)}
				if h.Rng.Intn(2) == 0 { // whole seconds by other layouts
					layout = []string{"2006-01-02T15:04:05Z07:00", "02 Jan 2006 15:04:05 -0700", "2006-01-02 15:04:05.000 -0700"}[h.Rng.Intn(3)]
					m = m / 1000 * 1000
					e["v"] = limbs(uint64(m), 8)
					args = []lua.LValue{lua.LNumber(m), lua.LString(layout)}
				}
				var str, err = p.call("milli2time", args...)
				var _, err2 = p.call("time2milli", lua.LString("2020-13-45"))
				r["bad"] = err2 != nil
				r["at"], r["back"] = []int{}, []int{}
				if err == nil && len(str) == 1 {
					var lay, more = layout, []lua.LValue{lua.LString(layout)}
					if layout == "" {
						lay, more = time.RFC3339Nano, nil
					}
					if t, err := time.Parse(lay, str[0].String()); err == nil {
						r["at"] = limbs(uint64(t.UnixMilli()), 8)
					}
					if q, err := p.call("time2milli", append(str[:1:1], more...)...); err == nil && len(q) == 1 {
						if v, ok := q[0].(lua.LNumber); ok {
							r["back"] = limbs(uint64(int64(v)), 8)
						}
					}
				}
			case "files":
				h.filesEvent(p, e, r, i)
			default:
				bug("op " + t.Op)
			}
		})
		if crash != "" {
			r = J{}
		}
		r["crash"] = crash
		e["r"] = r
		h.Emit(e)
	}
}

func bytesIndex(s string) int {
	var n, err = strconv.Atoi(s)
	must(err)
	return n
}

func (h *H) filesEvent(p puLua, e, r J, i int) {
	var dir = filepath.Join(h.Scratch, fmt.Sprint("d", i))
	must(os.MkdirAll(dir, 0o777))
	defer os.RemoveAll(dir)
	var names = []string{}
	for _, n := range []string{"a.txt", "b.txt", "ab", "c", "a.png", "..d", ".e"} {
		if i%4 > 0 && h.Rng.Intn(2) == 0 {
			names = append(names, n)
			must(os.WriteFile(filepath.Join(dir, n), []byte("x"), 0o666))
		}
	}
	var n = 1 + h.Rng.Intn(5)
	var pat = []string{"*", "a*", "*.txt", "?", "a?", "?.*", "zz*", "*b*"}[h.Rng.Intn(8)]
	e["names"], e["n"], e["p"] = names, n, pat
	var list = func(q []lua.LValue, err error) []string {
		var l = []string{}
		if err != nil || len(q) != 1 {
			return []string{"!error"}
		}
		if tb, ok := q[0].(*lua.LTable); ok {
			for k := 1; k <= tb.Len(); k++ {
				l = append(l, tb.RawGetInt(k).String())
			}
		}
		return l
	}
	r["all"] = list(p.call("path.enum", lua.LString(dir)))
	r["zero"] = list(p.call("path.enum", lua.LString(dir), lua.LNumber(0)))
	r["some"] = list(p.call("path.enum", lua.LString(dir), lua.LNumber(n)))
	var g = []string{}
	var q, err = p.call("path.glob", lua.LString(dir+"/"+pat))
	if err != nil {
		g = []string{"!error"}
	}
	for _, v := range q {
		if s, ok := v.(lua.LString); ok {
			g = append(g, strings.TrimPrefix(string(s), dir+"/"))
		}
	}
	r["glob"] = g
	var back = func(fp string) []string {
		var q, err = p.call("checkfile", lua.LString(fp))
		if err != nil {
			return []string{"!error"}
		}
		var l = []string{}
		for _, v := range q {
			l = append(l, backOf(v))
		}
		return l
	}
	var f = filepath.Join(h.Scratch, "file")
	must(os.WriteFile(f, []byte("x"), 0o666))
	r["check"], r["checkdir"] = back(f), back(dir)
	var no = []string{filepath.Join(dir, "absent"), filepath.Join(f, "below"), filepath.Join(dir, "no", "where")}[h.Rng.Intn(3)]
	r["absent"] = back(no)
	// file and directory there
	var there = func(fp string) []bool {
		var a, err1 = wpk.FileExists(fp)
		var b, err2 = wpk.DirExists(fp)
		return []bool{a, b, err1 == nil, err2 == nil}
	}
	r["isfile"], r["isdir"], r["isno"] = there(f), there(dir), there(no)[:2]
	if !strings.HasSuffix(no, "below") {
		r["isno"] = there(no)
	}
}
