package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"mime"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/luawpk"
)

func init() {
	areas["lua"] = runLua
}

var luaContents = map[string]string{
	"c0": "",
	"c1": "plain one",
	"c2": "\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR\x00\x00\x00\x10\x00\x00\x00\x10\x08\x06\x00\x00\x00\x1f\xf3\xffa",
	"c3": strings.Repeat("0123456789", 10),
	"c4": "\xff\xd8\xff\xe0\x00\x10JFIF\x00\x01\x01\x01",
}
var luaNames = []string{"a", "b.txt", "d/c.png", "img.PNG", "u.xyz1", "m.m3u8", "M.EOT", "x.map", "d/e"}
var luaSecrets = map[string]string{"s0": "", "s1": "package-private-key", "s2": "k"}
var luaAutos = []string{"crc32", "crc64", "md5", "sha1", "sha224", "sha256", "sha384", "sha512"}

// vtok is a tag's value: hexadecimal when short.
func vtok(b []byte) string {
	if len(b) <= 80 {
		return hex.EncodeToString(b)
	}
	if bytes.Count(b, b[:1]) == len(b) {
		return fmt.Sprintf("#%d:%02x", len(b), b[0])
	}
	return fmt.Sprintf("#%d:%x", len(b), sha1.Sum(b))
}

func stok(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] < 32 || s[i] > 126 {
			return "x" + vtok([]byte(s))
		}
	}
	if len(s) <= 200 {
		return "s" + s
	}
	return "s" + vtok([]byte(s))
}

// backOf encodes what a script gets.
func backOf(v lua.LValue) string {
	switch v := v.(type) {
	case *lua.LNilType:
		return "nil"
	case lua.LBool:
		if v {
			return "b1"
		}
		return "b0"
	case lua.LNumber:
		if float64(v) == float64(int64(v)) {
			return "n" + strconv.FormatInt(int64(v), 10)
		}
		return "n" + strconv.FormatFloat(float64(v), 'g', -1, 64)
	case lua.LString:
		return stok(string(v))
	}
	return "?" + v.Type().String()
}

// mimeOf is the type of a file by the documentation: by extension, by known extensions, by content.
func mimeOf(k, c string) string {
	var ext = strings.ToLower(path.Ext(k))
	if t := mime.TypeByExtension(ext); t != "" {
		return t
	}
	if ext == ".m3u8" {
		return "application/mpegurl"
	}
	switch {
	case ext == ".eot":
		return "application/vnd.ms-fontobject"
	case ext == ".map":
		return "application/json"
	case ext == ".txt": // should be known to the system
		return "text/plain; charset=utf-8"
	case c == "c2":
		return "image/png"
	case c == "c4":
		return "image/jpeg"
	}
	return "application/octet-stream"
}

func luaEnv() J {
	var ln, mm, dig = J{}, J{}, J{}
	for c, s := range luaContents {
		ln[c] = len(s)
		var byS = J{}
		for sn, sec := range luaSecrets {
			var d = J{}
			var w = func(name string, h hash.Hash) {
				h.Write([]byte(s))
				d[name] = hex.EncodeToString(h.Sum(nil))
			}
			w("crc32", crc32.New(crc32.MakeTable(crc32.Castagnoli)))
			w("crc64", crc64.New(crc64.MakeTable(crc64.ISO)))
			w("md5", hmac.New(md5.New, []byte(sec)))
			w("sha1", hmac.New(sha1.New, []byte(sec)))
			w("sha224", hmac.New(sha256.New224, []byte(sec)))
			w("sha256", hmac.New(sha256.New, []byte(sec)))
			w("sha384", hmac.New(sha512.New384, []byte(sec)))
			w("sha512", hmac.New(sha512.New, []byte(sec)))
			byS[sn] = d
		}
		dig[c] = byS
	}
	for _, k := range luaNames {
		var m = J{}
		for c := range luaContents {
			var t = mimeOf(k, c)
			m[c] = J{"v": vtok([]byte(t)), "b": stok(t)}
		}
		mm[k] = m
	}
	return J{"len": ln, "mime": mm, "dig": dig}
}

var luaVals = map[string]string{
	"abc": `"abc"`, "hex": `"0a0b"`, "num": `"7"`, "n5": `5`, "n300": `300`, "n256": `256`, "n65536": `65536`, "n70000": `70000`, "n8": `4294967296`,
	"neg": `-5`, "negs": `"-5"`, "frac": `2.5`, "true": `true`, "false": `false`, "tm": `"2020-01-02T03:04:05.678Z"`,
	"ms": `1577934245678`, "tbl": `{}`, "nil": `nil`, "empty": `""`, "long": `string.rep("a",65535)`,
	"toolong": `string.rep("a",65536)`,
}

func luaKey(k string) string {
	if k == "@true" {
		return "true"
	}
	if strings.HasPrefix(k, "#") {
		return k[1:]
	}
	return strconv.Quote(k)
}

type luaOp struct {
	Op string `json:"op"`
	K  string `json:"k"`
	C  string `json:"c"`
	A  string `json:"a"`
	B  string `json:"b"`
	T  []struct {
		K string `json:"k"`
		V string `json:"v"`
	} `json:"T"`
}

func (o *luaOp) table() string {
	var b strings.Builder
	b.WriteString("{")
	for _, p := range o.T {
		fmt.Fprintf(&b, "[%s]=%s,", luaKey(p.K), luaVals[p.V])
	}
	b.WriteString("}")
	return b.String()
}

var luaPaths = []string{"p1", "p2"}

type luaRun struct {
	dir string
	ls  *lua.LState
}

func (x *luaRun) file(p string) string {
	switch p {
	case "":
		return ""
	case "nodir":
		return filepath.Join(x.dir, "absent", "p")
	}
	return filepath.Join(x.dir, p)
}
func (x *luaRun) id(p string) string {
	if p == "nil" {
		return p
	}
	p = strings.TrimPrefix(p, "s")
	if r, err := filepath.Rel(x.dir, p); err == nil {
		return r
	}
	return "?" + p
}

func (x *luaRun) pkg() *luawpk.LuaPackage {
	if ud, ok := x.ls.GetGlobal("pkg").(*lua.LUserData); ok {
		if p, ok := ud.Value.(*luawpk.LuaPackage); ok {
			return p
		}
	}
	return nil
}

// run executes a chunk; it gives the returned values, whether an error was raised, and a crash.
func (x *luaRun) run(chunk string) (vals []lua.LValue, errs string, crash string) {
	x.ls.SetTop(0)
	crash = inline(func() {
		if err := x.ls.DoString(chunk); err != nil {
			errs = "err"
			var ae *lua.ApiError
			if errors.As(err, &ae) && (ae.Type == lua.ApiErrorPanic || strings.Contains(ae.Object.String(), "runtime error")) {
				panic("in script: " + firstLine(ae.Object.String()))
			}
		}
	})
	for i := 1; i <= x.ls.GetTop(); i++ {
		vals = append(vals, x.ls.Get(i))
	}
	x.ls.SetTop(0)
	return
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func tagsOf(ts wpk.TagsetRaw) (l []J) {
	l = []J{}
	var it = ts.Iterator()
	for it.Next() {
		if t := it.TID(); t < 1 || t > 3 {
			l = append(l, J{"t": int(t), "v": vtok(it.Tag())})
		}
	}
	return
}

// num keeps numbers in the range TLC can hold.
func num(v int64) int {
	if v < 0 || v > 1<<30 {
		return -1
	}
	return int(v)
}

func luaTab(enum func(func(string, wpk.TagsetRaw) bool), data []byte, withData bool) []J {
	var tab = []J{}
	enum(func(k string, ts wpk.TagsetRaw) bool {
		var o, n = ts.Pos()
		var e = J{"k": k, "p": ts.Path(), "o": num(int64(o)), "n": num(int64(n)), "rl": len(ts), "tags": tagsOf(ts), "c": ""}
		if withData {
			e["c"] = "?"
			if o+n <= uint(len(data)) {
				for c, s := range luaContents {
					if s == string(data[o:o+n]) {
						e["c"] = c
					}
				}
			}
		}
		tab = append(tab, e)
		return true
	})
	return tab
}

func (x *luaRun) disk(p string) J {
	var r = J{"st": "", "tab": []J{}, "info": []J{}}
	var crash = inline(func() {
		var pkg = wpk.NewPackage()
		if err := pkg.OpenFile(x.file(p)); err != nil {
			r["st"] = errc(err)
			return
		}
		r["st"] = "ok"
		var df = x.file(p)
		if pkg.IsSplitted() {
			df += ".dat"
		}
		var data, _ = os.ReadFile(df)
		r["tab"] = luaTab(pkg.Enum, data, true)
		r["info"] = tagsOf(pkg.GetInfo())
	})
	if crash != "" {
		r["st"] = crash
	}
	return r
}

const luaProps = `
return pkg.pkgpath, pkg.datpath, pkg.recnum, pkg.tagnum, pkg.fftsize, pkg.datasize, pkg.label, pkg.secret, pkg:sumsize(), tostring(pkg),
 pkg.autofid, pkg.automime, pkg.crc32, pkg.crc64, pkg.md5, pkg.sha1, pkg.sha224, pkg.sha256, pkg.sha384, pkg.sha512`

func lnum(v lua.LValue) int {
	if n, ok := v.(lua.LNumber); ok && float64(n) == float64(int(n)) {
		return num(int64(n))
	}
	return -1
}

func (x *luaRun) state(r J) {
	var p = x.pkg()
	if p == nil {
		bug("no package object")
	}
	r["tab"] = luaTab(p.Enum, nil, false)
	r["info"] = tagsOf(p.GetInfo())
	var disk = J{}
	for _, p := range luaPaths {
		disk[p] = x.disk(p)
	}
	r["disk"] = disk
	var v, e, crash = x.run(luaProps)
	if e != "" || len(v) != 20 {
		crash += " properties failed"
	}
	if crash != "" {
		r["crash"] = crash
		return
	}
	var auto = []string{}
	for i, n := range append([]string{"fid", "mime"}, luaAutos...) {
		if v[10+i] == lua.LTrue {
			auto = append(auto, n)
		}
	}
	var sec = "?"
	for n, s := range luaSecrets {
		if v[7] == lua.LString(s) {
			sec = n
		}
	}
	var glob = []string{}
	var g, ge, gc = x.run(`return pkg:glob("*")`)
	for d := "*/*"; len(d) < 20; d += "/*" { // names of any depth
		var g2, ge2, gc2 = x.run(`return pkg:glob("` + d + `")`)
		g, ge, gc = append(g, g2...), ge+ge2, gc+gc2
	}
	for _, n := range g {
		glob = append(glob, n.String())
	}
	if ge+gc != "" {
		glob = append(glob, "failed")
	}
	var files = []J{}
	for _, k := range luaNames {
		var h, he, hc = x.run(`return pkg:hasfile(` + strconv.Quote(k) + `)`)
		var s, se, sc = x.run(`return pkg:filesize(` + strconv.Quote(k) + `)`)
		var f = J{"k": k, "has": len(h) == 1 && h[0] == lua.LTrue, "size": "err"}
		if se == "" && len(s) == 1 {
			f["size"] = backOf(s[0])
		}
		if he+hc+sc != "" {
			f["size"] = "failed " + hc + sc
		}
		files = append(files, f)
	}
	r["props"] = J{"pkgpath": x.id(backOf(v[0])), "datpath": x.id(backOf(v[1])), "recnum": lnum(v[2]), "tagnum": lnum(v[3]),
		"fftsize": lnum(v[4]), "datasize": lnum(v[5]), "label": backOf(v[6]), "secret": sec, "sumsize": lnum(v[8]), "str": v[9].String(),
		"auto": auto, "glob": glob, "files": files}
}

// chunk is the script that does an operation; mt the modification time of a file packed.
func (x *luaRun) chunk(o *luaOp) (c string, mt J) {
	var q = strconv.Quote
	switch o.Op {
	case "new":
		c = `pkg = wpk.new()`
	case "begin", "load":
		c = fmt.Sprintf("return pkg:%s(%s", o.Op, q(x.file(o.A)))
		if o.B != "" {
			c += "," + q(x.file(o.B))
		}
		c += ")"
	case "append", "flush", "finalize", "getinfo":
		c = fmt.Sprintf("return pkg:%s()", o.Op)
	case "putdata":
		c = fmt.Sprintf("return pkg:putdata(%s,contents[%s],%s)", q(o.K), q(o.C), o.table())
	case "putfile":
		var fp = filepath.Join(x.dir, "src-"+o.C)
		if fi, err := os.Stat(fp); err == nil && !fi.IsDir() {
			var t = wpk.TimeTag(fi.ModTime())
			mt = J{"v": vtok(t), "b": stok(fi.ModTime().UTC().Format("2006-01-02T15:04:05.999Z07:00"))}
		}
		c = fmt.Sprintf("return pkg:putfile(%s,%s,%s)", q(o.K), q(fp), o.table())
	case "rename", "putalias":
		c = fmt.Sprintf("return pkg:%s(%s,%s)", o.Op, q(o.K), q(o.A))
	case "renamedir":
		c = fmt.Sprintf("return pkg:renamedir(%s,%s", q(o.K), q(o.A))
		if o.B != "" {
			c += "," + o.B
		}
		c += ")"
	case "delalias", "gettags":
		c = fmt.Sprintf("return pkg:%s(%s)", o.Op, q(o.K))
	case "hastag", "gettag", "deltag":
		c = fmt.Sprintf("return pkg:%s(%s,%s)", o.Op, q(o.K), luaKey(o.A))
	case "settag", "addtag":
		c = fmt.Sprintf("return pkg:%s(%s,%s,%s)", o.Op, q(o.K), luaKey(o.A), luaVals[o.B])
	case "settags", "addtags", "deltags":
		c = fmt.Sprintf("return pkg:%s(%s,%s)", o.Op, q(o.K), o.table())
	case "setupinfo":
		c = fmt.Sprintf("return pkg:setupinfo(%s)", o.table())
	case "label":
		c = fmt.Sprintf("pkg.label = %s", luaVals[o.B])
	case "auto":
		var n = o.A
		if n == "fid" || n == "mime" {
			n = "auto" + n
		}
		c = fmt.Sprintf("pkg.%s = %t", n, o.B == "on")
	case "secret":
		c = fmt.Sprintf("pkg.secret = %s", q(luaSecrets[o.A]))
	default:
		bug("unknown operation " + o.Op)
	}
	return
}

func (x *luaRun) do(o *luaOp) J {
	var e = J{"op": o.Op, "k": o.K, "c": o.C, "a": o.A, "b": o.B, "T": o.T, "mt": J{"v": "", "b": ""}}
	if o.T == nil {
		e["T"] = []J{}
	}
	var c, mt = x.chunk(o)
	if mt != nil {
		e["mt"] = mt
	}
	var v, errs, crash = x.run(c)
	var r = J{"crash": crash, "err": errs, "ret": []string{}, "kv": []J{}, "tab": []J{}, "info": []J{}, "disk": J{}, "props": J{}}
	e["r"] = r
	if crash != "" {
		return e
	}
	var ret, kv = []string{}, []J{}
	for _, y := range v {
		if tb, ok := y.(*lua.LTable); ok {
			tb.ForEach(func(k, v lua.LValue) {
				var ks string
				if n, ok := k.(lua.LNumber); ok {
					ks = "#" + n.String()
				} else {
					ks = k.String()
				}
				kv = append(kv, J{"k": ks, "b": backOf(v)})
			})
			continue
		}
		ret = append(ret, backOf(y))
	}
	r["ret"], r["kv"] = ret, kv
	x.state(r)
	return e
}

func runLua(h *H) {
	var env = luaEnv()
	for i, raw := range h.Tests {
		var t struct {
			Ops []luaOp `json:"ops"`
		}
		must(json.Unmarshal(raw, &t))
		var dir = filepath.Join(h.Scratch, fmt.Sprintf("lua%d", i))
		must(os.MkdirAll(filepath.Join(dir, "src-dir"), 0o755))
		var x = &luaRun{dir: dir, ls: lua.NewState()}
		luawpk.InitLuaVM(x.ls)
		var tb = x.ls.CreateTable(0, 0)
		for n, s := range luaContents {
			tb.RawSetString(n, lua.LString(s))
		}
		x.ls.SetGlobal("contents", tb)
		var used = map[string]bool{}
		for _, o := range t.Ops {
			if o.Op == "putfile" {
				used[o.C] = true
			}
		}
		for n, s := range luaContents {
			if used[n] {
				var fp = filepath.Join(dir, "src-"+n)
				must(os.WriteFile(fp, []byte(s), 0o644))
				var mt = time.Unix(1600000000+int64(len(s)), 123456789)
				must(os.Chtimes(fp, mt.Add(time.Hour), mt))
			}
		}
		// a package with a good header and a damaged table
		must(os.WriteFile(filepath.Join(dir, "pbad"), damagedPackage(), 0o644))
		h.Reset(fmt.Sprint(i), J{"env": env, "paths": luaPaths})
		if _, e, c := x.run("pkg = wpk.new()"); e+c != "" {
			bug("new failed")
		}
		for j := range t.Ops {
			var e J
			var crash = guard(func() { e = x.do(&t.Ops[j]) })
			if crash != "" {
				if strings.Contains(crash, "HARNESS") {
					bug(crash)
				}
				h.Emit(J{"op": t.Ops[j].Op, "r": J{"crash": crash}, "k": "", "c": "", "a": "", "b": "", "T": []J{}, "mt": J{"v": "", "b": ""}})
				break
			}
			h.Emit(e)
			if e["r"].(J)["crash"] != "" {
				break
			}
		}
		x.run("pkg:finalize()")
		x.ls.Close()
		os.RemoveAll(dir)
		if i%100 == 99 {
			runtime.GC()
		}
	}
}

// damagedPackage has a good header and a table with a length reaching past its end.
func damagedPackage() []byte {
	var b = make([]byte, 64, 100)
	copy(b, wpk.SignReady)
	var put = func(at int, v uint64) { binary.LittleEndian.PutUint64(b[at:], v) }
	put(24, 1)
	put(32, 64)
	put(40, 20)
	put(48, 64)
	put(56, 0)
	b = append(b, 0, 0, 0xff, 0xff)
	return append(b, make([]byte, 16)...)
}
