package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"testing/iotest"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() { areas["reader"] = runReader }

type rdop struct {
	Op  string `json:"op"`
	H   int    `json:"h"`
	N   int    `json:"n"`
	Off int    `json:"off"`
	Wh  int    `json:"wh"`
}

type rdTest struct {
	N   int    `json:"n"`
	Ops []rdop `json:"ops"`
}

func fbyte(salt, i int) byte { return byte((i%1009)*(i%1013) + i/7 + salt) }

func fcontent(salt, n int) []byte {
	var b = make([]byte, n)
	for i := range b {
		b[i] = fbyte(salt, i)
	}
	return b
}

// placements of the file in its package
var places = []string{"start", "page-1", "page", "page+1", "endpage", "endpage+1", "last", "small"}

func placeOffset(place string, base, n int) int {
	const page = 65536
	switch place {
	case "page-1":
		return page - 1
	case "page":
		return page
	case "page+1":
		return page + 1
	case "endpage":
		return (base+n+page-1)/page*page - n + page*boolInt((base+n+page-1)/page*page-n < base)
	case "endpage+1":
		return (base+n+page-1)/page*page - n + 1
	case "small":
		return 4096 + 4
	}
	return base
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

type rdPkg struct {
	dir, tags, data string
	salt            int
}

// buildReader packs a file of n bytes at the wanted place.
func buildReader(h *H, n int, place string, split bool, salt int) *rdPkg {
	var dir, err = os.MkdirTemp(h.Scratch, "r")
	must(err)
	var p = &rdPkg{dir: dir, salt: salt}
	var pkg = wpk.NewPackage()
	var wpt, wpf *os.File
	p.tags = filepath.Join(dir, "x.wpk")
	p.data = p.tags
	if split {
		p.tags, p.data = filepath.Join(dir, "x.wpt"), filepath.Join(dir, "x.wpf")
	}
	wpt, err = os.Create(p.tags)
	must(err)
	defer wpt.Close()
	var a, b io.WriteSeeker = wpt, nil
	var w io.WriteSeeker = wpt
	var base = 64
	if split {
		wpf, err = os.Create(p.data)
		must(err)
		defer wpf.Close()
		b, w, base = wpf, wpf, 0
	}
	must(pkg.Begin(a, b))
	var off = placeOffset(place, base, n)
	for off < base {
		off += 65536
	}
	if off > base {
		_, err = pkg.PackData(w, bytes.NewReader(bytes.Repeat([]byte{0xEE}, off-base)), "before")
		must(err)
	}
	_, err = pkg.PackData(w, bytes.NewReader(fcontent(salt, n)), "dir/file")
	must(err)
	if place != "last" {
		_, err = pkg.PackData(w, bytes.NewReader(bytes.Repeat([]byte{0xEE}, 100)), "z after")
		must(err)
	}
	must(pkg.Sync(a, b))
	return p
}

func errRead(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, io.EOF) && err == io.EOF:
		return "eof"
	}
	return "err"
}

func rdResult(b []byte, content []byte, err error) J {
	var m = len(b)
	if m > 8 {
		m = 8
	}
	var at = -1
	if len(b) > 16 {
		at = bytes.Index(content, b)
		if at < 0 {
			at = -2
		}
	}
	return J{"crash": "", "err": errRead(err), "k": len(b), "b": ints(b[:m]), "e": ints(b[len(b)-m:]), "at": at, "v": 0}
}

func runReader(h *H) {
	var cache = map[string]*rdPkg{}
	var get = func(n int, place string, split bool) *rdPkg {
		var k = fmt.Sprint(n, place, split)
		if p, ok := cache[k]; ok {
			return p
		}
		var p = buildReader(h, n, place, split, len(cache)%200)
		cache[k] = p
		return p
	}
	var i = 0
	for ti, t := range h.Tests {
		var rt rdTest
		must(json.Unmarshal(t, &rt))
		for mode := 0; mode < 3; mode++ {
			var place = places[(ti+mode*3+ti/8)%len(places)]
			var split = (ti+mode)%2 == 0
			var p = get(rt.N, place, split)
			i++
			readerScript(h, fmt.Sprintf("t%d/%d/%s/%v", ti, mode, place, split), p, mode, rt, ti)
		}
	}
	// every size and place through every mode, whole
	for _, n := range []int{0, 1, 2, 63, 64, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 200001} {
		for _, place := range places {
			for _, split := range []bool{false, true} {
				var p = get(n, place, split)
				for mode := 0; mode < 3; mode++ {
					readerScript(h, fmt.Sprintf("w%d/%d/%s/%v", n, mode, place, split), p, mode, rdTest{N: n, Ops: []rdop{
						{Op: "whole", H: 1}, {Op: "stat", H: 1}, {Op: "rest", H: 1}, {Op: "read", H: 1, N: 1}, {Op: "seek", H: 1, Off: -1, Wh: 2},
						{Op: "rest", H: 1}, {Op: "read", H: 2, N: n + 100}, {Op: "readat", H: 1, N: n + 1, Off: 0}, {Op: "readat", H: 1, N: n, Off: 0}}}, n+mode)
				}
			}
		}
	}
	for _, p := range cache {
		os.RemoveAll(p.dir)
	}
	readerTruncated(h)
}

func readerScript(h *H, id string, p *rdPkg, mode int, rt rdTest, flavour int) {
	h.Reset(id, J{"n": rt.N, "salt": p.salt, "present": true})
	var content = fcontent(p.salt, rt.N)
	var pkg = wpk.NewPackage()
	var hs [3]fs.File
	var open = func(k int) (err error) {
		switch flavour % 4 {
		case 0:
			hs[k], err = pkg.Open("dir/file")
		case 1:
			var ts, _ = pkg.GetTagset("dir/file")
			hs[k], err = pkg.Tagger.OpenTagset(ts)
		case 2:
			var sub fs.FS
			if sub, err = pkg.Sub("dir"); err == nil {
				hs[k], err = sub.Open("file")
			}
		case 3:
			var u = &wpk.Union{List: []*wpk.Package{pkg}}
			hs[k], err = u.Open("dir/file")
		}
		flavour++
		return
	}
	var ferr error
	var crash = guard(func() {
		if ferr = pkg.OpenFile(p.tags); ferr != nil {
			return
		}
		if pkg.Tagger, ferr = openTagger(p.data, mode); ferr != nil {
			return
		}
		if ferr = open(1); ferr == nil {
			ferr = open(2)
		}
	})
	if crash != "" || ferr != nil {
		var r = rdResult(nil, nil, ferr)
		r["crash"] = crash
		h.Emit(J{"op": "open", "h": 1, "n": 0, "off": 0, "wh": 0, "r": r})
		return
	}
	defer func() {
		guard(func() {
			hs[1].Close()
			hs[2].Close()
			pkg.Tagger.Close()
		})
	}()
	for _, o := range rt.Ops {
		var r J
		var crash = guard(func() {
			var rf = hs[o.H].(wpk.RFile)
			switch o.Op {
			case "read":
				var b = bytes.Repeat([]byte{0xAA}, o.N)
				var n, err = rf.Read(b)
				r = rdResult(b[:n], content, err)
			case "readat":
				var b = bytes.Repeat([]byte{0xAA}, o.N)
				var n, err = rf.ReadAt(b, int64(o.Off))
				r = rdResult(b[:n], content, err)
			case "seek":
				var n, err = rf.Seek(int64(o.Off), o.Wh)
				r = rdResult(nil, nil, err)
				if err == nil {
					r["v"] = n
				}
			case "rest":
				var src io.Reader = rf
				if flavour%2 == 1 && len(content) < 100 {
					src = iotest.OneByteReader(rf)
				}
				flavour++
				var b, err = io.ReadAll(src)
				r = rdResult(b, content, err)
			case "stat":
				var fi, err = rf.Stat()
				r = rdResult(nil, nil, err)
				if err == nil {
					r["v"] = fi.Size()
				}
			case "close":
				var err = rf.Close()
				if err == nil {
					err = open(o.H)
				}
				r = rdResult(nil, nil, err)
			case "whole":
				var b []byte
				var err error
				switch flavour % 3 {
				case 0:
					b, err = pkg.ReadFile("dir/file")
				case 1:
					b, err = (&wpk.Union{List: []*wpk.Package{pkg}}).ReadFile("dir/file")
				case 2:
					var sub, _ = pkg.Sub("dir")
					b, err = fs.ReadFile(sub, "file")
				}
				flavour++
				r = rdResult(b, content, err)
				for i := range b { // what is read whole belongs to the caller
					b[i] ^= 0x5a
				}
			default:
				bug("reader op")
			}
		})
		if crash != "" {
			r = rdResult(nil, nil, nil)
			r["crash"] = crash
		}
		h.Emit(J{"op": o.Op, "h": o.H, "n": o.N, "off": o.Off, "wh": o.Wh, "r": r})
		if crash != "" {
			return
		}
	}
}

// readerTruncated reads entries whose data is not fully present in the data file.
func readerTruncated(h *H) {
	const n = 5000
	var id = 0
	for _, place := range []string{"page-1", "page", "small", "last", "start"} {
		for _, cut := range []int{1, 100, 4096, n - 1, n, n + 1000} {
			var p = buildReader(h, n, place, true, 7)
			var pkg = wpk.NewPackage()
			must(pkg.OpenFile(p.tags))
			var ts, _ = pkg.GetTagset("dir/file")
			var off, size = ts.Pos()
			var to = int64(off+size) - int64(cut)
			if to < 0 {
				to = 0
			}
			must(os.Truncate(p.data, to))
			for mode := 0; mode < 3; mode++ {
				absent(h, &id, p, pkg, mode)
			}
			os.RemoveAll(p.dir)
		}
	}
	// tags that point outside
	var p = buildReader(h, n, "small", false, 9)
	var fi, err = os.Stat(p.data)
	must(err)
	var fl = uint(fi.Size())
	for _, x := range [][2]uint{{fl, 1}, {fl + 1, 1}, {fl + 70000, 10}, {0, fl + 1}, {^uint(0) - 3, 10}, {10, ^uint(0) - 5}, {^uint(0), 1},
		{1 << 63, 5}, {1<<63 - 1, 5}, {5, 1 << 63}, {fl - 1, 2}, {65536 * 4, 65536}, {1 << 40, 1}, {8, 1<<63 - 8}} {
		var pkg = wpk.NewPackage()
		must(pkg.OpenFile(p.tags))
		var ts, _ = pkg.GetTagset("dir/file")
		ts = wpk.CopyTagset(ts).Set(wpk.TIDoffset, wpk.UintTag(x[0]))
		ts = ts.Set(wpk.TIDsize, wpk.UintTag(x[1]))
		pkg.SetTagset("dir/file", ts)
		for mode := 0; mode < 3; mode++ {
			absent(h, &id, p, pkg, mode)
		}
	}
	os.RemoveAll(p.dir)
}

func absent(h *H, id *int, p *rdPkg, pkg *wpk.Package, mode int) {
	*id++
	h.Reset(fmt.Sprintf("absent%d/%d", *id, mode), J{"n": 5000, "salt": 0, "present": false})
	for way := 0; way < 4; way++ {
		var err error
		var b []byte
		var crash = guard(func() {
			if pkg.Tagger, err = openTagger(p.data, mode); err != nil {
				return
			}
			defer pkg.Tagger.Close()
			switch way {
			case 0:
				b, err = pkg.ReadFile("dir/file")
			case 1:
				b, err = (&wpk.Union{List: []*wpk.Package{pkg}}).ReadFile("dir/file")
			default:
				var f fs.File
				if f, err = pkg.Open("dir/file"); err != nil {
					return
				}
				defer f.Close()
				if way == 2 {
					// reads what the file says it has
					var fi, _ = f.Stat()
					var n = fi.Size()
					if n < 0 || n > 1<<20 {
						n = 1 << 20
					}
					b = make([]byte, n)
					_, err = io.ReadFull(f, b)
					if err == io.EOF {
						err = io.ErrUnexpectedEOF
					}
				} else {
					b = make([]byte, 5000)
					_, err = f.(wpk.RFile).ReadAt(b, 4999)
				}
			}
		})
		var r = rdResult(nil, nil, err)
		r["crash"] = crash
		h.Emit(J{"op": "whole", "h": 1, "n": 0, "off": 0, "wh": 0, "r": r})
	}
}
