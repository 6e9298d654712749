package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"mime"
	"net/http"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/luawpk"
)

func init() { areas["tools"] = runTools }

var toolContents = map[string]string{
	"c0": "",
	"c1": "plain one",
	"c2": "\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR\x00\x00\x00\x10",
	"c3": strings.Repeat("0123456789", 200),
	"c4": "<!DOCTYPE HTML><html><body>x</body></html>",
	"c5": strings.Repeat("text ", 102) + "ab\x00\x01\x02\x03", // binary from the 513th byte on
	"c6": strings.Repeat(" ", 500) + "<html>",
	"c7": strings.Repeat("\x00\xff\x10long", 30000),
}

var toolTimes = []time.Time{
	{},
	time.Date(2021, 3, 4, 5, 6, 7, 123456789, time.UTC),
	time.Unix(-2, 500000000),
	time.Date(1903, 12, 14, 0, 0, 0, 1, time.UTC),
	time.Unix(1<<31, 999999),
	time.Date(2200, 1, 1, 1, 1, 1, 999999999, time.UTC),
	time.Unix(0, 0),
	time.Unix(1000000000, 1000000),
}

type toolOp struct {
	Op   string   `json:"op"`
	F    string   `json:"f"`
	N    string   `json:"n"`
	K    string   `json:"k"`
	C    string   `json:"c"`
	T    int      `json:"t"`
	Fs   []string `json:"fs"`
	P    string   `json:"p"`
	Ps   []string `json:"ps"`
	O    struct{ Mime, Link, Log, Split bool }
	Mode string   `json:"mode"`
	Ft   bool     `json:"ft"`
	Md   bool     `json:"md"`
	Ns   []string `json:"ns"`
	How  string   `json:"how"`
	// what stands in the way of the run
	Hinder string `json:"hinder"`
}

// nobody is the user the tools run as, so that nothing but the scratch files is within their reach.
const nobody = 65534

type toolWorld struct {
	h             *H
	pack, extract string
	user          bool // tools run as nobody
	base, dst     string
	split         map[string]bool
	n             int
}

func stamp(t time.Time) []int {
	return append(limbs(uint64(t.Unix()), 8), limbs(uint64(t.Nanosecond()), 4)...)
}

func tsStamp(ts syscall.Timespec) []int { return stamp(time.Unix(ts.Unix())) }

// statTimes asks the system for the times of a file.
func statTimes(p string) (m, a, c, b []int, ok bool) {
	var st syscall.Stat_t
	if syscall.Stat(p, &st) != nil {
		return []int{}, []int{}, []int{}, []int{}, false
	}
	return tsStamp(st.Mtim), tsStamp(st.Atim), tsStamp(st.Ctim), birth(p), true
}

// birth is the time of creation by statx, if the system has it.
func birth(p string) []int {
	if runtime.GOARCH != "amd64" {
		return []int{}
	}
	var buf [256]byte
	var bp, _ = syscall.BytePtrFromString(p)
	var at = -100
	if _, _, e := syscall.Syscall6(332, uintptr(at), uintptr(unsafe.Pointer(bp)), 0, 0x800, uintptr(unsafe.Pointer(&buf[0])), 0); e != 0 {
		return []int{}
	}
	var mask = *(*uint32)(unsafe.Pointer(&buf[0]))
	if mask&0x800 == 0 {
		return []int{}
	}
	var sec = *(*int64)(unsafe.Pointer(&buf[80]))
	var ns = *(*uint32)(unsafe.Pointer(&buf[88]))
	return stamp(time.Unix(sec, int64(ns)))
}

// run starts a tool; done tells whether it reports completion.
func (w *toolWorld) run(tight bool, bin string, args ...string) (done bool, crash string, lines []string) {
	var ctx, cancel = context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	// files cannot grow beyond any sense
	var limit = `ulimit -f 65536; exec "$@"`
	if tight {
		limit = `trap '' XFSZ; ulimit -f 8; exec "$@"`
	}
	var cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", limit, "sh", bin}, args...)...)
	cmd.Dir = w.base
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + w.base, "WPKW=" + w.base, "TMPDIR=" + w.base}
	if w.user {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: false}}
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	var err = cmd.Run()
	var s = out.String()
	lines = strings.Split(strings.TrimSpace(s), "\n")
	switch {
	case ctx.Err() != nil:
		return false, "hang", lines
	case strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "goroutine "):
		return false, "panic", lines
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		bug(err)
	}
	if l := lines[len(lines)-1]; err == nil && strings.HasSuffix(l, " done.") {
		done = true
	}
	return
}

func (w *toolWorld) reset() {
	w.n++
	w.base = filepath.Join(w.h.Scratch, fmt.Sprintf("w%d_%p", w.n, w))
	w.dst = filepath.Join(w.base, "x1", "x2", "x3", "x4", "dst")
	w.split = map[string]bool{}
	for _, d := range []string{"src/f1", "src/f2", "tgt/dir", "pk", "x1/x2/x3/x4"} {
		must(os.MkdirAll(filepath.Join(w.base, d), 0o777))
	}
	must(os.WriteFile(filepath.Join(w.base, "tgt/dir/in.txt"), []byte("in"), 0o666))
	for c, s := range toolContents {
		must(os.WriteFile(filepath.Join(w.base, "tgt", c), []byte(s), 0o666))
	}
	// what a hostile name could hit
	for _, d := range []string{"", "x1", "x1/x2", "x1/x2/x3", "x1/x2/x3/x4"} {
		must(os.WriteFile(filepath.Join(w.base, d, "x"), []byte("sentinel"), 0o666))
	}
	filepath.WalkDir(w.base, func(p string, d fs.DirEntry, err error) error {
		must(err)
		if d.IsDir() {
			return os.Chmod(p, 0o777)
		}
		return os.Chmod(p, 0o666)
	})
}

func (w *toolWorld) done() {
	must(os.RemoveAll(w.base))
}

// outside gives everything below the base but the destination (and the given paths).
func (w *toolWorld) outside(but ...string) map[string]string {
	var m = map[string]string{}
	filepath.WalkDir(w.base, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		for _, b := range but {
			if p == b {
				return nil
			}
		}
		if p == w.dst {
			return fs.SkipDir
		}
		var fi, e = d.Info()
		if e != nil {
			return nil
		}
		if d.IsDir() {
			m[p] = "dir"
		} else {
			m[p] = fmt.Sprint(fi.Mode(), fi.Size(), fi.ModTime().UnixNano())
			if fi.Mode().IsRegular() && fi.Size() < 1000 {
				var b, _ = os.ReadFile(p)
				m[p] += tok(b)
			}
		}
		return nil
	})
	return m
}

func differ(a, b map[string]string) (n int) {
	for k, v := range a {
		if b[k] != v {
			n++
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			n++
		}
	}
	return
}

// tree lists the destination. Times are taken before contents are read.
func (w *toolWorld) tree() (l []J, there bool) {
	l = []J{}
	if fi, err := os.Stat(w.dst); err != nil || !fi.IsDir() {
		return l, false
	}
	filepath.WalkDir(w.dst, func(p string, d fs.DirEntry, err error) error {
		must(err)
		if p == w.dst {
			return nil
		}
		var rel, _ = filepath.Rel(w.dst, p)
		if d.IsDir() {
			l = append(l, J{"n": rel, "c": "dir", "m": []int{}, "a": []int{}})
			return nil
		}
		if !d.Type().IsRegular() {
			l = append(l, J{"n": rel, "c": "special", "m": []int{}, "a": []int{}})
			return nil
		}
		var m, a, _, _, _ = statTimes(p)
		var b, e = os.ReadFile(p)
		must(e)
		l = append(l, J{"n": rel, "c": tok(b), "m": m, "a": a})
		return nil
	})
	return l, true
}

func (w *toolWorld) put(o *toolOp) J {
	var k = o.K
	if (k == "shut" || k == "shutdir") && !w.user {
		k = "lnbad"
	}
	var p = filepath.Join(w.base, "src", o.F, o.N)
	var body = toolContents[o.C]
	var e = J{"op": "put", "f": o.F, "n": o.N, "kind": k, "tok": tok([]byte(body)), "r": J{"crash": "", "ok": false}}
	if fi, err := os.Lstat(p); err == nil {
		if os.Remove(p) != nil { // a folder in use
			return e
		}
		_ = fi
	}
	if os.MkdirAll(filepath.Dir(p), 0o777) != nil {
		return e
	}
	switch k {
	case "file", "shut":
		must(os.WriteFile(p, []byte(body), 0o644))
		if t := toolTimes[o.T%len(toolTimes)]; o.T > 0 {
			must(os.Chtimes(p, t.Add(36*time.Hour+1), t))
		}
		if k == "shut" {
			must(os.Chmod(p, 0))
		}
	case "dir":
		must(os.Mkdir(p, 0o777))
	case "shutdir":
		must(os.Mkdir(p, 0o777))
		must(os.WriteFile(filepath.Join(p, "in"), []byte(body), 0o644))
		must(os.Chmod(p, 0))
	case "ln":
		must(os.Symlink(filepath.Join(w.base, "tgt", o.C), p))
	case "lndir":
		must(os.Symlink(filepath.Join(w.base, "tgt", "dir"), p))
	case "lnbad":
		must(os.Symlink(filepath.Join(w.base, "tgt", "absent"), p))
	}
	e["r"].(J)["ok"] = true
	return e
}

// facts describes the files of folders, as the system sees them.
func (w *toolWorld) facts(folders []string, links map[string]string) (l []J) {
	l = []J{}
	for _, f := range folders {
		var dir = filepath.Join(w.base, "src", f)
		filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() {
				return nil
			}
			var n, _ = filepath.Rel(dir, p)
			var kind = "file"
			if d.Type()&fs.ModeSymlink != 0 {
				kind = "ln"
				if fi, err := os.Stat(p); err != nil || fi.IsDir() {
					return nil
				}
			}
			var m, a, c, b, _ = statTimes(p)
			var fi, e = os.Stat(p)
			must(e)
			var head = make([]byte, 512)
			var fl, e1 = os.OpenFile(p, os.O_RDONLY|syscall.O_NOATIME, 0)
			must(e1)
			var k, _ = io.ReadFull(fl, head)
			fl.Close()
			l = append(l, J{"f": f, "n": n, "kind": kind, "len": int(fi.Size()), "m": m, "as": [][]int{a}, "ct": c, "bt": b,
				"ext": mime.TypeByExtension(path.Ext(n)), "sniff": http.DetectContentType(head[:k]), "link": links[f] + "/" + n})
			return nil
		})
	}
	return
}

// factsAfter adds the access times after reading.
func (w *toolWorld) factsAfter(l []J) {
	for _, x := range l {
		var _, a, _, _, ok = statTimes(filepath.Join(w.base, "src", x["f"].(string), x["n"].(string)))
		if ok {
			x["as"] = append(x["as"].([][]int), a)
		}
	}
}

func (w *toolWorld) pkgFile(p string) string {
	if w.split[p] {
		return filepath.Join(w.base, "pk", p+".wpt")
	}
	return filepath.Join(w.base, "pk", p+".wpk")
}

type timespec interface {
	ModTime() time.Time
	AccessTime() time.Time
	ChangeTime() time.Time
	BirthTime() time.Time
	HasChangeTime() bool
	HasBirthTime() bool
}

func zeroTime() J { return J{"ok": false, "v": []int{}, "ns": 0} }

// table opens a package file and lists its entries.
func (w *toolWorld) table(file string, split bool) (l []J, opened bool) {
	l = []J{}
	var pkg = wpk.NewPackage()
	if pkg.OpenFile(file) != nil {
		return
	}
	var dat = file
	if split {
		dat = strings.TrimSuffix(file, ".wpt") + ".wpf"
	}
	if pkg.IsSplitted() != split {
		return
	}
	w.n++
	var t, err = openTagger(dat, w.n%3)
	if err != nil {
		return
	}
	pkg.Tagger = t
	defer pkg.Close()
	opened = true
	// what a script sees
	var ls = lua.NewState()
	defer ls.Close()
	luawpk.InitLuaVM(ls)
	var chunk = fmt.Sprintf("pkg = wpk.new() pkg:load(%q)", file)
	if split {
		chunk = fmt.Sprintf("pkg = wpk.new() pkg:load(%q,%q)", file, dat)
	}
	var loaded = ls.DoString(chunk) == nil
	pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
		var x = J{"n": k, "size": -1, "c": "!", "same": true}
		if f, err := pkg.OpenTagset(ts); err == nil {
			if b, err := io.ReadAll(f); err == nil {
				x["c"] = tok(b)
			}
			if fi, err := f.Stat(); err != nil || !sameTimes(ts, fi) {
				x["same"] = false
			}
			f.Close()
		}
		if fs.ValidPath(k) {
			if fi, err := fs.Stat(pkg, k); err == nil && !sameTimes(ts, fi) {
				x["same"] = false
			}
			if es, err := fs.ReadDir(pkg, path.Dir(k)); err == nil {
				for _, e := range es {
					if e.Name() == path.Base(k) && !e.IsDir() {
						if fi, err := e.Info(); err != nil || !sameTimes(ts, fi) {
							x["same"] = false
						}
					}
				}
			}
		}
		x["size"] = num(ts.Size())
		var raw, acc, scr = J{}, J{}, J{}
		var acct = func(t time.Time) J { return J{"v": limbs(uint64(t.Unix()), 8), "ns": t.Nanosecond(), "z": t.IsZero()} }
		for i, nm := range []string{"m", "a", "c", "b"} {
			var tid = []wpk.TID{wpk.TIDmtime, wpk.TIDatime, wpk.TIDctime, wpk.TIDbtime}[i]
			raw[nm] = []int{}
			if t, ok := ts.Get(tid); ok {
				raw[nm] = ints(t)
			}
			acc[nm] = acct([]time.Time{ts.ModTime(), ts.AccessTime(), ts.ChangeTime(), ts.BirthTime()}[i])
			scr[nm] = zeroTime()
			if loaded && ls.DoString(fmt.Sprintf("x = pkg:gettag(%q,%q)", k, nm+"time")) == nil {
				if s, ok := ls.GetGlobal("x").(lua.LString); ok {
					if t, err := time.Parse(time.RFC3339Nano, string(s)); err == nil {
						scr[nm] = timeJ(t, true)
					}
				}
			}
		}
		x["raw"], x["acc"], x["scr"] = raw, acc, scr
		x["hasc"], x["hasb"] = ts.HasChangeTime(), ts.HasBirthTime()
		var s, ok = ts.TagStr(wpk.TIDmime)
		x["mime"], x["hasmime"] = s, ok
		s, ok = ts.TagStr(wpk.TIDlink)
		x["link"], x["haslink"] = s, ok
		l = append(l, x)
		return true
	})
	return
}

func sameTimes(ts wpk.TagsetRaw, fi fs.FileInfo) bool {
	if !fi.ModTime().Equal(ts.ModTime()) {
		return false
	}
	if t, ok := fi.(timespec); ok {
		return t.AccessTime().Equal(ts.AccessTime()) && t.ChangeTime().Equal(ts.ChangeTime()) && t.BirthTime().Equal(ts.BirthTime()) &&
			t.HasBirthTime() == ts.HasBirthTime() && t.HasChangeTime() == ts.HasChangeTime()
	}
	return true
}

// plain is what programs other than the pack tool are given: regular readable files in order.
func (w *toolWorld) plain(folders []string) (l [][2]string) {
	for _, f := range folders {
		var dir = filepath.Join(w.base, "src", f)
		var q []string
		filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			must(err)
			if fi, err := d.Info(); err == nil && fi.IsDir() && fi.Mode().Perm() == 0 {
				return fs.SkipDir
			}
			if fi, err := d.Info(); err == nil && fi.Mode().IsRegular() && fi.Mode().Perm() != 0 {
				var n, _ = filepath.Rel(dir, p)
				q = append(q, n)
			}
			return nil
		})
		sort.Strings(q)
		for _, n := range q {
			l = append(l, [2]string{n, filepath.Join(dir, n)})
		}
	}
	return
}

func (w *toolWorld) create(file string, split bool) (pkg *wpk.Package, pt, pf *os.File, err error) {
	pkg = wpk.NewPackage()
	pt, err = os.Create(file)
	must(err)
	var wpf wpk.WriteSeekCloser
	if split {
		pf, err = os.Create(strings.TrimSuffix(file, ".wpt") + ".wpf")
		must(err)
		wpf = pf
	}
	err = pkg.Begin(pt, wpf)
	return
}

func (w *toolWorld) packAPI(o *toolOp, file string) (done bool) {
	var pkg, pt, pf, err = w.create(file, o.O.Split)
	defer pt.Close()
	var dat = pt
	var wpf wpk.WriteSeekCloser
	if pf != nil {
		dat, wpf = pf, pf
		defer pf.Close()
	}
	if err != nil {
		return false
	}
	for _, x := range w.plain(o.Fs) {
		var f, err = os.Open(x[1])
		must(err)
		_, err = pkg.PackFile(dat, f, x[0])
		f.Close()
		if err != nil {
			return false
		}
	}
	return pkg.Sync(pt, wpf) == nil
}

func (w *toolWorld) packLua(o *toolOp, file string) (done bool) {
	var b strings.Builder
	fmt.Fprintf(&b, "local pkg = wpk.new()\n")
	if o.O.Split {
		fmt.Fprintf(&b, "pkg:begin(%q,%q)\n", file, strings.TrimSuffix(file, ".wpt")+".wpf")
	} else {
		fmt.Fprintf(&b, "pkg:begin(%q)\n", file)
	}
	for _, x := range w.plain(o.Fs) {
		fmt.Fprintf(&b, "pkg:putfile(%q,%q)\n", x[0], x[1])
	}
	b.WriteString("pkg:finalize()\n")
	var ls = lua.NewState()
	defer ls.Close()
	luawpk.InitLuaVM(ls)
	return ls.DoString(b.String()) == nil
}

func (w *toolWorld) make(o *toolOp, file string) (done bool, given J) {
	given = J{"m": []int{}, "a": []int{}, "c": []int{}, "b": []int{}}
	var pkg, pt, pf, err = w.create(file, o.O.Split)
	defer pt.Close()
	var dat = pt
	var wpf wpk.WriteSeekCloser
	if pf != nil {
		dat, wpf = pf, pf
		defer pf.Close()
	}
	if err != nil {
		return false, given
	}
	var put = func(ts wpk.TagsetRaw, nm string, tid wpk.TID, t time.Time) wpk.TagsetRaw {
		var tag = wpk.TimeTag(t)
		if o.T%2 == 1 {
			tag = wpk.UnixmsTag(t)
		}
		given[nm] = ints(tag)
		return ts.Put(tid, tag)
	}
	var t = toolTimes[o.T%len(toolTimes)]
	var used = map[string]bool{}
	for _, n := range o.Ns {
		n = strings.ReplaceAll(n, "@BASE", w.base)
		if used[n] {
			continue
		}
		used[n] = true
		var ts, err = pkg.PackData(dat, strings.NewReader("made "+n), n)
		if err != nil {
			return false, given
		}
		if o.T > 0 {
			ts = put(ts, "m", wpk.TIDmtime, t)
			if o.T != 7 {
				ts = put(ts, "a", wpk.TIDatime, t.Add(time.Hour+time.Nanosecond))
			}
			if o.T > 3 {
				ts = put(ts, "c", wpk.TIDctime, t.Add(-time.Nanosecond))
				ts = put(ts, "b", wpk.TIDbtime, t.Add(-time.Hour))
			}
			pkg.SetTagset(n, ts)
		}
	}
	return pkg.Sync(pt, wpf) == nil, given
}

// vary writes a path in one of the ways the tools take.
func (w *toolWorld) vary(p string) string {
	w.n++
	var rel = strings.TrimPrefix(p, w.base)
	switch w.n % 6 {
	case 0:
		return "$WPKW" + rel
	case 1:
		return "${WPKW}" + rel
	case 2:
		return "%WPKW%" + rel
	}
	return p
}

func (w *toolWorld) do(o *toolOp) (e J) {
	var b, _ = json.Marshal(o)
	json.Unmarshal(b, &e)
	e["o"] = J{"mime": o.O.Mime, "link": o.O.Link, "log": o.O.Log, "split": o.O.Split}
	delete(e, "O")
	for _, k := range []string{"fs", "ps", "ns"} {
		if e[k] == nil {
			e[k] = []string{}
		}
	}
	var r = J{"crash": ""}
	e["r"] = r
	switch o.Op {
	case "put":
		return w.put(o)
	case "del":
		r["ok"] = os.Remove(filepath.Join(w.base, "src", o.F, o.N)) == nil
	case "pack", "inside":
		var dir, p = filepath.Join(w.base, "pk"), o.P
		if o.Op == "inside" {
			dir, p = filepath.Join(w.base, "src", o.F), []string{"0in", "zin"}[w.n%2]
		}
		var file = filepath.Join(dir, p+".wpk")
		if o.O.Split {
			file = filepath.Join(dir, p+".wpt")
		}
		if o.Op == "pack" {
			if o.How != "tool" {
				for _, f := range o.Fs {
					if f == "nofolder" {
						return nil
					}
				}
				if len(o.Fs) == 0 {
					return nil
				}
				o.O.Mime, o.O.Link = false, false
				e["o"] = J{"mime": false, "link": false, "log": o.O.Log, "split": o.O.Split}
			}
			w.split[p] = o.O.Split
		}
		var links = map[string]string{}
		var srcs []string
		for i, f := range o.Fs {
			var d = filepath.Join(w.base, "src", f)
			links[f] = d
			d = w.vary(d)
			if i%2 == 1 {
				d += "/"
			}
			srcs = append(srcs, d)
		}
		var facts = w.facts(o.Fs, links)
		var dat = filepath.Join(dir, p+".wpf")
		var before = w.outside(file, dat)
		switch o.How {
		case "api":
			r["done"] = w.packAPI(o, file)
		case "lua":
			r["done"] = w.packLua(o, file)
		default:
			var args = []string{"-src", strings.Join(srcs, ";") + []string{"", ";"}[w.n%2], "-dst", w.vary(filepath.Join(dir, p+".wpk"))}
			if o.O.Mime {
				args = append(args, "-mime")
			}
			if o.O.Link {
				args = append(args, "-link")
			}
			if !o.O.Log {
				args = append(args, "-log=false")
			}
			if o.O.Split {
				args = append(args, "-split")
			}
			if o.Hinder == "dst" {
				os.Remove(file)
				os.Remove(dat)
				before = w.outside(file, dat)
				must(os.Chmod(dir, 0o555))
			}
			var done, crash, _ = w.run(o.Hinder == "tight", w.pack, args...)
			if o.Hinder == "dst" {
				must(os.Chmod(dir, 0o777))
			}
			r["done"], r["crash"] = done, crash
		}
		r["outside"] = differ(before, w.outside(file, dat))
		w.factsAfter(facts)
		e["facts"] = facts
		r["table"], r["opened"] = w.table(file, o.O.Split)
		if o.Op == "inside" {
			os.Remove(file)
			os.Remove(dat)
		}
	case "make":
		var file = filepath.Join(w.base, "pk", o.P+".wpk")
		if o.O.Split {
			file = filepath.Join(w.base, "pk", o.P+".wpt")
		}
		w.split[o.P] = o.O.Split
		r["done"], e["given"] = w.make(o, file)
		r["table"], r["opened"] = w.table(file, o.O.Split)
	case "cut":
		var p = w.pkgFile(o.P)
		if w.split[o.P] {
			p = filepath.Join(w.base, "pk", o.P+".wpf")
		}
		var fi, err = os.Stat(p)
		must(err)
		r["lost"] = fi.Size() > 0
		if w.split[o.P] {
			must(os.Truncate(p, 0))
		} else {
			must(os.Truncate(p, fi.Size()-1))
		}
	case "extract":
		var srcs []string
		for _, p := range o.Ps {
			srcs = append(srcs, w.vary(w.pkgFile(p)))
		}
		var args = []string{"-src", strings.Join(srcs, ";"), "-dst", w.vary(w.dst) + []string{"", "/"}[w.n%2], "-pm", o.Mode}
		if o.Ft {
			args = append(args, "-ft")
		}
		if o.Md {
			args = append(args, "-md")
		}
		if w.n%4 == 0 {
			args = append(args, "-sl=false")
		}
		var before = w.outside()
		var mode fs.FileMode
		var barred string
		switch {
		case o.Hinder == "pkg" && len(o.Ps) > 0:
			barred = w.pkgFile(o.Ps[0])
		case o.Hinder == "dst":
			barred = w.dst
		}
		if fi, err := os.Stat(barred); err != nil {
			barred = ""
		} else {
			mode = fi.Mode().Perm()
			must(os.Chmod(barred, map[bool]fs.FileMode{true: 0o555, false: 0}[fi.IsDir()]))
		}
		var done, crash, lines = w.run(o.Hinder == "tight", w.extract, args...)
		r["done"], r["crash"] = done, crash
		if barred != "" {
			must(os.Chmod(barred, mode))
		}
		r["outside"] = differ(before, w.outside())
		r["after"], r["there"] = w.tree()
		r["log"] = done || (len(lines) > 0 && lines[len(lines)-1] != "" && !strings.HasSuffix(lines[len(lines)-1], "starts"))
	case "plant":
		if fi, err := os.Stat(w.dst); err == nil && fi.IsDir() {
			var p = filepath.Join(w.dst, o.N)
			if _, err := os.Lstat(p); err != nil && os.MkdirAll(filepath.Dir(p), 0o777) == nil {
				if o.K == "dir" {
					must(os.Mkdir(p, 0o777))
				} else {
					must(os.WriteFile(p, []byte(strings.Repeat("planted", 5000)), 0o666))
				}
				filepath.WalkDir(w.dst, func(p string, d fs.DirEntry, err error) error {
					if d.IsDir() {
						os.Chmod(p, 0o777)
					} else {
						os.Chmod(p, 0o666)
					}
					return nil
				})
			}
		}
		r["after"], r["there"] = w.tree()
	case "clean":
		must(os.RemoveAll(w.dst))
		r["after"], r["there"] = []J{}, false
	default:
		bug("unknown operation " + o.Op)
	}
	return
}

func runTools(h *H) {
	var user = false
	for p := h.Scratch; strings.Contains(p, "wpkv_"); p = filepath.Dir(p) {
		os.Chmod(p, 0o711)
		if strings.HasPrefix(filepath.Base(p), "wpkv_") {
			break
		}
	}
	syscall.Umask(0)
	{
		var cmd = exec.Command("/bin/sh", "-c", "test -x "+h.Args[0])
		cmd.Dir = h.Scratch
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		user = cmd.Run() == nil
	}
	var mu sync.Mutex
	parallel(len(h.Tests), func(i int) {
		var t struct {
			Ops  []toolOp `json:"ops"`
			Vary bool     `json:"vary"`
		}
		must(json.Unmarshal(h.Tests[i], &t))
		var w = &toolWorld{h: h, pack: h.Args[0], extract: h.Args[1], user: user, n: i * 1000}
		var rnd = rand.New(rand.NewSource(h.Seed*1000003 + int64(i)))
		w.reset()
		var evs []J
		for j := range t.Ops {
			var o = &t.Ops[j]
			if t.Vary { // parameters the model left to us
				o.T, o.Ft, o.Mode = rnd.Intn(8), rnd.Intn(2) == 0, []string{"bulk", "mmap", "fsys"}[rnd.Intn(3)]
				if rnd.Intn(6) == 0 {
					o.Hinder = []string{"tight", "dst", "pkg"}[rnd.Intn(3)]
				}
				if o.Op == "put" && rnd.Intn(6) == 0 {
					o.C = "c7"
				}
				o.O.Mime, o.O.Link, o.O.Log, o.O.Split = rnd.Intn(2) == 0, rnd.Intn(3) == 0, rnd.Intn(2) == 0, rnd.Intn(2) == 0
			}
			if o.Op == "pack" && o.Hinder == "pkg" {
				o.Hinder = ""
			}
			if (!user && o.Hinder != "tight") || o.How == "api" || o.How == "lua" || o.Op == "inside" {
				o.Hinder = ""
			}
			var e J
			if crash := guardT(60*time.Second, func() { e = w.do(o) }); crash != "" {
				e = J{"op": o.Op, "r": J{"crash": crash}}
			}
			if e != nil {
				evs = append(evs, e)
			}
		}
		w.done()
		mu.Lock()
		defer mu.Unlock()
		h.Reset(fmt.Sprint("t", i), J{"user": user})
		for _, e := range evs {
			h.Emit(e)
		}
	})
}
