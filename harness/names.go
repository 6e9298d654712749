package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
)

func init() {
	areas["names"] = runNames
	areas["union"] = runUnion
}

type nameOp struct {
	Op   string `json:"op"`
	Ws   string `json:"ws"`
	A    string `json:"a"`
	B    string `json:"b"`
	Skip bool   `json:"skip"`
	T    string `json:"t"`
	St   int    `json:"st"`
}

const tagTravel = 100

func dataOf(id string) []byte { return []byte("data of " + id) }
func idOf(b []byte) string {
	if s := string(b); strings.HasPrefix(s, "data of ") {
		return s[8:]
	}
	return "?" + tok(b)
}

// style turns some of the slashes of an argument over.
func style(s string, st int) string {
	switch st {
	case 1:
		return strings.ReplaceAll(s, "/", "\\")
	case 2:
		return strings.Replace(s, "/", "\\", 1)
	}
	return s
}

// query asks one question; the answer never has absent fields.
type query struct {
	Q, A string
	N    int
}

type listed struct {
	N   string `json:"n"`
	Dir bool   `json:"dir"`
}

// taken describes a list and then uses it as its owner may: what is returned belongs to the caller.
func taken(des []fs.DirEntry) []listed {
	var l = listing(des)
	var bogus fs.DirEntry = wpk.TagsetRaw{}.Put(wpk.TIDpath, wpk.StrTag("bogus"))
	_ = append(des, bogus, bogus)
	for i := range des {
		des[i] = bogus
	}
	return l
}

func listing(des []fs.DirEntry) []listed {
	var l = []listed{}
	for _, de := range des {
		var x = listed{de.Name(), de.IsDir()}
		var bad = ""
		if de.Type()&fs.ModeDir != 0 != de.IsDir() || de.Type()&^fs.ModeType != 0 {
			bad += " type"
		}
		if fi, err := de.Info(); err != nil || fi.IsDir() != de.IsDir() || fi.Name() != de.Name() || fi.Mode().Type() != de.Type() {
			bad += " info"
		}
		x.N += bad
		l = append(l, x)
	}
	return l
}

type anyFS interface {
	fs.FS
	fs.StatFS
	fs.ReadDirFS
	fs.ReadFileFS
	fs.GlobFS
	fs.SubFS
}

func ask(v anyFS, q query) J {
	var err error
	var r = J{"e": "", "dir": false, "n": "", "len": 0, "d": "", "l": []listed{}}
	switch q.Q {
	case "stat":
		var fi fs.FileInfo
		if fi, err = v.Stat(q.A); err == nil {
			r["dir"], r["n"] = fi.IsDir(), fi.Name()
			if !fi.IsDir() {
				r["len"] = int(fi.Size())
			}
			if fi.Mode().IsDir() != fi.IsDir() {
				r["n"] = "mode"
			}
		}
	case "open":
		var f fs.File
		if f, err = v.Open(q.A); err == nil {
			defer f.Close()
			var fi, err1 = f.Stat()
			if err1 != nil {
				err = err1
				break
			}
			r["dir"], r["n"] = fi.IsDir(), fi.Name()
			if fi.IsDir() {
				var df, ok = f.(fs.ReadDirFile)
				if !ok {
					r["n"] = "not a directory file"
					break
				}
				if _, err1 := f.Read(make([]byte, 4)); err1 == nil {
					r["n"] = "directory was read"
				}
				var des []fs.DirEntry
				des, err = df.ReadDir(-1)
				r["l"] = taken(des)
			} else {
				var b []byte
				b, err = io.ReadAll(f)
				r["d"] = idOf(b)
				if int(fi.Size()) != len(b) {
					r["n"] = "size"
				}
			}
		}
	case "readdir":
		var des []fs.DirEntry
		if des, err = v.ReadDir(q.A); err == nil {
			r["l"] = taken(des)
		}
	case "readfile":
		var b []byte
		if b, err = v.ReadFile(q.A); err == nil {
			r["d"] = idOf(b)
			for i := range b { // the content is for the caller
				b[i] ^= 0x5a
			}
		}
	case "portions", "mixed":
		var f fs.File
		var ps = [][]listed{}
		r["end"], r["rest"] = "", 0
		r["ps"] = ps
		if f, err = v.Open(q.A); err != nil {
			break
		}
		defer f.Close()
		var df, ok = f.(fs.ReadDirFile)
		if !ok {
			err = io.ErrUnexpectedEOF
			break
		}
		if _, err1 := df.Stat(); err1 != nil {
			err = err1
			break
		}
		if q.Q == "portions" {
			for i := 0; i < 200; i++ {
				var des, err1 = df.ReadDir(q.N)
				if len(des) > 0 || err1 == nil {
					ps = append(ps, taken(des))
				}
				if err1 == io.EOF {
					r["end"] = "eof"
					break
				}
				if err1 != nil {
					err = err1
					break
				}
			}
		} else {
			var des, err1 = df.ReadDir(q.N)
			if err1 != nil && err1 != io.EOF {
				err = err1
				break
			}
			ps = append(ps, taken(des))
			if des, err = df.ReadDir(-1); err != nil {
				break
			}
			ps = append(ps, taken(des))
			if des, err = df.ReadDir(0); err != nil {
				break
			}
			r["rest"] = len(des)
			if _, err1 = df.ReadDir(1); err1 == io.EOF {
				r["end"] = "eof"
			}
		}
		r["ps"] = ps
	case "glob":
		var l []string
		l, err = v.Glob(q.A)
		r["l"] = append([]string{}, l...)
		for i := range l {
			l[i] = "?"
		}
	case "walk":
		var l = []listed{}
		err = fs.WalkDir(v, ".", func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			l = append(l, listed{p, d.IsDir()})
			return nil
		})
		r["l"] = l
	case "keys":
		var l = []string{}
		switch x := v.(type) {
		case *wpk.Package:
			x.Enum(func(k string, ts wpk.TagsetRaw) bool { l = append(l, k); return true })
		case *wpk.Union:
			var keys = x.AllKeys()
			l = append(l, keys...)
			for i := range keys {
				keys[i] = "?"
			}
		}
		r["l"] = l
	case "has":
		r["dir"] = v.(*wpk.Package).HasTagset(q.A)
		if _, ok := v.(*wpk.Package).GetTagset(q.A); ok != r["dir"].(bool) {
			r["dir"] = "inconsistent"
		}
	case "sub":
		_, err = v.Sub(q.A)
	case "readdirn": // a given number of members, straight from the table
		var des []fs.DirEntry
		switch x := v.(type) {
		case *wpk.Package:
			des, err = x.FTT.ReadDirN(x.FullPath(q.A), q.N)
		case *wpk.Union:
			des, err = x.ReadDirN(q.A, q.N)
		}
		r["l"] = listing(des)
		if err == io.EOF {
			r["n"], err = "eof", nil
		}
	case "full":
		r["d"] = v.(*wpk.Package).FullPath(q.A)
	case "trim":
		r["d"] = v.(*wpk.Package).TrimPath(q.A)
	default:
		bug("query " + q.Q)
	}
	r["e"] = errc(err)
	return r
}

func askAll(v anyFS, qs []query) []J {
	var res = []J{}
	for _, q := range qs {
		var r J
		var crash = inline(func() { r = ask(v, q) })
		if crash != "" {
			r = J{}
		}
		res = append(res, J{"q": q.Q, "a": q.A, "n": q.N, "r": r, "crash": crash})
	}
	return res
}

var globs = []string{"*", "*/*", "*/*/*", "d/*", "d\\*", "?", "??", "*/?", "[a-d]*", "[^d]*", "[^d]*/[ab]", "d*", "*a", "d/[ab]", "[d]/*", "*x*", "[", "a[", "[a", "*/[", "d/e/*", "*d*/*a", "**", "a", "d/a", "img*"}

// battery is a set of queries about the names given, and names near to them.
func battery(names []string, n int, union bool) (qs []query) {
	var set = map[string]bool{".": true, "..": true, "../a": true, "./a": true, "nope": true, "a/nope": true, "d/": true, "d//a": true, "d/.": true, "d/../a": true}
	for _, k := range names {
		set[k] = true
		set[k+"x"] = true
		set[k+"/x"] = true
		set[k[:len(k)-1]] = len(k) > 1
		for i := range k {
			if k[i] == '/' {
				set[k[:i]] = true
			}
		}
	}
	var all []string
	for k, ok := range set {
		if ok && k != "" && k[0] != '/' {
			all = append(all, k)
		}
	}
	sort.Strings(all)
	for i, k := range all {
		var a = style(k, (i+n)%3)
		qs = append(qs, query{"stat", a, 0}, query{"open", a, 0}, query{"readdir", a, 0}, query{"readfile", a, 0}, query{"sub", a, 0})
		if !union {
			qs = append(qs, query{"has", a, 0})
		}
		if (i+n)%2 == 0 || k == "." {
			qs = append(qs, query{"portions", a, 1 + (n+i)%3}, query{"mixed", a, 1 + (n+i)%2})
		}
		if !strings.Contains(k, ".") || k == "." {
			qs = append(qs, query{"readdirn", a, (n + i) % 5})
			if !union {
				qs = append(qs, query{"full", k, 0})
			}
		}
	}
	for _, g := range globs {
		qs = append(qs, query{"glob", g, 0})
	}
	qs = append(qs, query{"walk", ".", 0}, query{"keys", ".", 0})
	return
}

// trims asks for names relative to a view.
func trims(ws string, names map[string]bool) (qs []query) {
	var l = []string{ws, ws + "/", ws + "x", ws + "x/a", ws + "/a"}
	if ws == "." {
		l = []string{"."}
	}
	for k := range names {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		qs = append(qs, query{"trim", k, 0})
	}
	return
}

func relTo(ws string, names map[string]bool) (l []string) {
	for k := range names {
		if ws == "." {
			l = append(l, k)
		} else if strings.HasPrefix(k, ws+"/") {
			l = append(l, k[len(ws)+1:])
		} else if strings.HasPrefix(k, ws) && len(k) > len(ws) {
			l = append(l, k[len(ws):], k) // must not be seen
		}
	}
	sort.Strings(l)
	return
}

func joinWs(ws, a string) string {
	if ws == "." {
		return a
	}
	return ws + "/" + a
}

type namePkg struct {
	pkg        *wpk.Package
	wpt, wpf   *os.File
	tags, data string
	tgr        wpk.Tagger
}

func (p *namePkg) w() *os.File {
	if p.wpf != nil {
		return p.wpf
	}
	return p.wpt
}

func (p *namePkg) sync() error {
	if p.wpf != nil {
		return p.pkg.Sync(p.wpt, p.wpf)
	}
	return p.pkg.Sync(p.wpt, nil)
}

// reopen syncs the package and opens it again.
func (p *namePkg) reopen(n int) (np *wpk.Package, tgr wpk.Tagger, err error) {
	var crash = guard(func() {
		if err = p.sync(); err != nil {
			return
		}
		np = wpk.NewPackage()
		if err = np.OpenFile(p.tags); err != nil {
			return
		}
		tgr, err = openTagger(p.data, n)
		np.Tagger = tgr
	})
	if crash != "" {
		err = errors.New(crash)
	}
	return
}

func (p *namePkg) close() {
	if p.tgr != nil {
		p.tgr.Close()
	}
	p.wpt.Close()
	if p.wpf != nil {
		p.wpf.Close()
	}
	os.Remove(p.tags)
	os.Remove(p.data)
}

func newNamePkg(dir string, n int, split bool) *namePkg {
	var p = &namePkg{pkg: wpk.NewPackage()}
	var err error
	p.tags = filepath.Join(dir, fmt.Sprintf("n%d.wpk", n))
	p.data = p.tags
	if split {
		p.tags, p.data = wpk.MakeTagsPath(p.tags), wpk.MakeDataPath(p.tags)
	}
	p.wpt, err = os.Create(p.tags)
	must(err)
	if split {
		p.wpf, err = os.Create(p.data)
		must(err)
		must(p.pkg.Begin(p.wpt, p.wpf))
	} else {
		must(p.pkg.Begin(p.wpt, nil))
	}
	p.tgr, err = fsys.MakeTagger(p.data)
	must(err)
	p.pkg.Tagger = p.tgr
	return p
}

func nameTab(pkg *wpk.Package, data string) []J {
	var l = []J{}
	var img, err = os.ReadFile(data)
	must(err)
	pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
		var o, n = ts.Pos()
		var d = "?"
		if o+n >= o && o+n <= uint(len(img)) {
			d = idOf(img[o : o+n])
		}
		var t, _ = ts.TagStr(tagTravel)
		l = append(l, J{"k": k, "p": ts.Path(), "d": d, "t": t})
		return true
	})
	return l
}

func runNames(h *H) {
	for i, t := range h.Tests {
		var nt struct {
			Ops []nameOp `json:"ops"`
		}
		must(json.Unmarshal(t, &nt))
		h.Reset(fmt.Sprintf("t%d", i), J{"init": []int{}})
		var p = newNamePkg(h.Scratch, i, i%2 == 1)
		var held = map[string]*wpk.Package{".": p.pkg}
		var names = map[string]bool{}
		var puts = 0
		var dead = false
		for _, o := range nt.Ops {
			var v = held[o.Ws]
			if v == nil { // the view could not be taken although it should
				break
			}
			var a, b = style(o.A, o.St), style(o.B, o.St)
			for _, x := range []string{o.A, o.B} {
				if x != "" {
					names[joinWs(o.Ws, x)] = true
				}
			}
			var err error
			var cnt int
			var crash = guard(func() {
				switch o.Op {
				case "put":
					var ts wpk.TagsetRaw
					if ts, err = v.PackData(p.w(), bytes.NewReader(dataOf(fmt.Sprint(puts+1))), a); err == nil {
						puts++
						v.SetTagset(a, wpk.CopyTagset(ts).Put(tagTravel, wpk.StrTag("t0")))
					}
				case "del":
					if _, ok := v.DelTagset(a); !ok {
						err = fs.ErrNotExist
					}
				case "tag":
					var ts, ok = v.GetTagset(a)
					if !ok {
						err = fs.ErrNotExist
						return
					}
					v.SetTagset(a, wpk.CopyTagset(ts).Set(tagTravel, wpk.StrTag(o.T)))
				case "rename":
					err = v.Rename(a, b)
				case "alias":
					err = v.PutAlias(a, b)
				case "renamedir":
					if o.St == 2 { // a trailing slash may be given
						if a != "" {
							a += "/"
						}
						if b != "" {
							b += "/"
						}
					}
					cnt, err = v.RenameDir(a, b, o.Skip)
				case "reopen":
					var np, tgr, err1 = p.reopen(2)
					if err = err1; err != nil {
						return
					}
					p.tgr.Close()
					p.pkg, p.tgr = np, tgr
					if p.wpf != nil {
						err = np.Append(p.wpt, p.wpf)
					} else {
						err = np.Append(p.wpt, nil)
					}
					held = map[string]*wpk.Package{".": p.pkg}
				case "sub":
					var s fs.FS
					if s, err = v.Sub(a); err == nil {
						if w := joinWs(o.Ws, o.A); held[w] == nil {
							held[w] = s.(*wpk.Package)
						}
					}
				default:
					bug("name op " + o.Op)
				}
			})
			var tab []J
			if crash == "" {
				crash = guard(func() { tab = nameTab(p.pkg, p.data) })
			}
			h.Emit(J{"op": o.Op, "ws": o.Ws, "a": a, "b": b, "skip": o.Skip, "t": o.T,
				"r": J{"crash": crash, "err": errc(err), "cnt": cnt, "tab": append([]J{}, tab...), "num": p.pkg.TagsetNum()}})
			if dead = crash != ""; dead {
				break
			}
		}
		// trailing slashes of directory arguments are part of the style only
		if !dead {
			var wss []string
			for ws := range held {
				wss = append(wss, ws)
			}
			sort.Strings(wss)
			for j, ws := range wss {
				h.Emit(J{"op": "q", "ws": ws, "when": "live", "qs": askAll(held[ws], append(battery(relTo(ws, names), i+j, false), trims(ws, names)...))})
			}
			// the same after reopening
			var np, tgr, err = p.reopen(i)
			if err != nil {
				h.Emit(J{"op": "broken", "what": err.Error()})
				p.close()
				continue
			}
			for j, ws := range wss {
				var v = np
				if ws != "." {
					var s, err = np.Sub(ws)
					if err != nil {
						continue // told by the query on the upper view
					}
					v = s.(*wpk.Package)
				}
				h.Emit(J{"op": "q", "ws": ws, "when": "reopened", "qs": askAll(v, battery(relTo(ws, names), i+j+1, false))})
			}
			tgr.Close()
		}
		p.close()
	}
}

// countClose counts the closings of a tagger, which may report a failure.
type countClose struct {
	wpk.Tagger
	n    int
	fail bool
}

func (c *countClose) Close() error {
	c.n++
	var err = c.Tagger.Close()
	if c.fail {
		err = errInjected
	}
	return err
}

func runUnion(h *H) {
	type conf struct {
		Names []string `json:"names"`
		Ws    string   `json:"ws"`
	}
	for i, t := range h.Tests {
		var ut struct {
			Pk   []conf   `json:"pk"`
			Subs []string `json:"subs"`
		}
		must(json.Unmarshal(t, &ut))
		var init = []J{}
		var u wpk.Union
		var files []*namePkg
		var ccs []*countClose
		var broken string
		var names = map[string]bool{}
		for j, c := range ut.Pk {
			var p = newNamePkg(h.Scratch, i*10+j, (i+j)%2 == 1)
			var L = []J{}
			for k, n := range c.Names {
				var id = fmt.Sprintf("p%d%s:%d", j, strings.Repeat("+", j), k) // lengths differ too
				if _, err := p.pkg.PackData(p.w(), bytes.NewReader(dataOf(id)), n); err != nil {
					broken = err.Error()
				}
				L = append(L, J{"k": n, "d": id, "t": ""})
				if c.Ws == "." {
					names[n] = true
				} else if strings.HasPrefix(n, c.Ws+"/") {
					names[n[len(c.Ws)+1:]] = true
				} else {
					names[n] = true
				}
			}
			var np, tgr, err1 = p.reopen(i + j)
			if err1 != nil {
				broken = err1.Error()
				p.close()
				break
			}
			var cc = &countClose{Tagger: tgr}
			ccs = append(ccs, cc)
			np.Tagger = cc
			var v = np
			if c.Ws != "." {
				var s, err = np.Sub(c.Ws)
				if err != nil {
					broken = err.Error()
					p.close()
					break
				}
				v = s.(*wpk.Package)
			}
			u.List = append(u.List, v)
			files = append(files, p)
			init = append(init, J{"L": L, "ws": c.Ws})
		}
		h.Reset(fmt.Sprintf("u%d", i), J{"init": init})
		if broken != "" {
			h.Emit(J{"op": "broken", "what": broken})
			for _, p := range files {
				p.close()
			}
			continue
		}
		h.Emit(J{"op": "uq", "ws": ".", "qs": askAll(&u, battery(relTo(".", names), i, true))})
		for j, sub := range ut.Subs {
			var s, err = u.Sub(sub)
			if err != nil {
				continue // whether it should fail is judged by the query "sub"
			}
			h.Emit(J{"op": "uq", "ws": sub, "qs": askAll(s.(*wpk.Union), battery(relTo(sub, names), i+j, true))})
		}
		// raw content by index
		var raws = []J{}
		for j := 0; j <= len(files); j++ {
			var r = J{"e": "", "same": false}
			var crash = inline(func() {
				var f, err = u.Open(style(fmt.Sprintf("%s/%d", wpk.PackName, j), i))
				r["e"] = errc(err)
				if err == nil {
					defer f.Close()
					var b, err1 = io.ReadAll(f)
					r["same"] = err1 == nil && j < len(files) && bytes.Equal(b, rawContent(files[j]))
				}
			})
			raws = append(raws, J{"q": "raw", "n": j, "r": r, "crash": crash})
		}
		h.Emit(J{"op": "raw", "qs": raws})
		// closing one of the packages may fail
		var fails = i%3 != 0
		if fails {
			ccs[(i/3)%len(ccs)].fail = true
		}
		var clerr error
		var crash = inline(func() { clerr = u.Close() })
		var closed = []int{}
		for _, c := range ccs {
			closed = append(closed, c.n)
		}
		h.Emit(J{"op": "uclose", "fails": fails, "r": J{"crash": crash, "closed": closed, "err": clerr != nil}})
		for _, p := range files {
			p.close()
		}
	}
}

// rawContent is the package file up to the end of data, by its header.
func rawContent(p *namePkg) []byte {
	var tags, err = os.ReadFile(p.tags)
	must(err)
	var do, ds = binary.LittleEndian.Uint64(tags[48:]), binary.LittleEndian.Uint64(tags[56:])
	var b, err1 = os.ReadFile(p.data)
	must(err1)
	return b[:do+ds]
}
