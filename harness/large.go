package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

func init() { areas["large"] = runLarge }

const limb = 1 << 24

func limbs24(u uint64) []int { return []int{int(u / limb % (1 << 31)), int(u % limb)} }

func unlimbs24(v []int) int64 { return int64(v[0])*limb + int64(v[1]) }

// sparse is a real file where zeros are never written.
type sparse struct{ f *os.File }

var zeros = make([]byte, 1<<20)

func (s sparse) Write(p []byte) (int, error) {
	var zero = len(p) > 4096
	for q := p; zero && len(q) > 0; {
		var n = imin(len(q), len(zeros))
		zero = bytes.Equal(q[:n], zeros[:n])
		q = q[n:]
	}
	if zero {
		s.clear()
		var _, err = s.f.Seek(int64(len(p)), io.SeekCurrent)
		return len(p), err
	}
	return s.f.Write(p)
}

func (s sparse) Seek(off int64, wh int) (int64, error) { return s.f.Seek(off, wh) }

// clear removes what is in the file at the position of the writer and after it.
func (s sparse) clear() {
	var pos, err = s.f.Seek(0, io.SeekCurrent)
	must(err)
	fi, err := s.f.Stat()
	must(err)
	if fi.Size() > pos {
		must(s.f.Truncate(pos))
	}
}

func (s sparse) extend() {
	var pos, err = s.f.Seek(0, io.SeekCurrent)
	must(err)
	fi, err := s.f.Stat()
	must(err)
	if fi.Size() < pos {
		must(s.f.Truncate(pos))
	}
}

// marked is a long source of zeros with marks.
type marked struct {
	n, pos int64
	marks  map[int64][]byte
	fast   bool
}

func markPlaces(n int64) (r []int64) {
	const g2, g4 = 1 << 31, 1 << 32
	if n < 16 {
		if n >= 8 {
			r = append(r, 0)
		}
		return
	}
	for _, p := range []int64{0, g2 - 4096, g2 - 8, g2, g4 - 8, g4, g4 + 4096} {
		if p+16 <= n {
			r = append(r, p)
		}
	}
	return append(r, n-8)
}

func newMarked(n int64, salt int, fast bool) *marked {
	var m = &marked{n: n, marks: map[int64][]byte{}, fast: fast}
	for i, p := range markPlaces(n) {
		m.marks[p] = toBytes([]int{salt + 1, i + 1, 170, 187, 204, 221, 238, i + 1 + salt})
	}
	return m
}

func (m *marked) Read(p []byte) (int, error) {
	if m.pos >= m.n {
		return 0, io.EOF
	}
	if int64(len(p)) > m.n-m.pos {
		p = p[:m.n-m.pos]
	}
	for i := 0; i < len(p); i += len(zeros) {
		copy(p[i:], zeros)
	}
	for at, b := range m.marks {
		for i, x := range b {
			if k := at + int64(i) - m.pos; k >= 0 && k < int64(len(p)) {
				p[k] = x
			}
		}
	}
	m.pos += int64(len(p))
	return len(p), nil
}

// markedFast hands its zeros over by moving the writer, as io.WriterTo.
type markedFast struct{ *marked }

func (m markedFast) WriteTo(w io.Writer) (int64, error) {
	var s, ok = w.(io.Seeker)
	if !ok { // somebody's wrapper
		return io.Copy(w, struct{ io.Reader }{m.marked})
	}
	if sp, ok := w.(sparse); ok {
		sp.clear()
	}
	for _, p := range markPlaces(m.n) {
		if _, err := s.Seek(p-m.pos, io.SeekCurrent); err != nil {
			return m.pos, err
		}
		m.pos = p
		if _, err := w.Write(m.marks[p]); err != nil {
			return m.pos, err
		}
		m.pos += int64(len(m.marks[p]))
	}
	if m.pos < m.n {
		if _, err := s.Seek(m.n-m.pos, io.SeekCurrent); err != nil {
			return m.pos, err
		}
		m.pos = m.n
	}
	return m.n, nil
}

type lgOp struct {
	Op   string `json:"op"`
	Mode string `json:"mode"`
	N    []int  `json:"n"`
	K    string `json:"k"`
	Salt int    `json:"salt"`
}

type lgTest struct {
	Ops []lgOp `json:"ops"`
}

func largeTab(ftt *wpk.FTT) []J {
	var r = []J{}
	var pkg = &wpk.Package{FTT: ftt, Workspace: "."}
	pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
		var o, n = ts.Pos()
		r = append(r, J{"k": k, "off": limbs24(uint64(o)), "n": limbs24(uint64(n))})
		return true
	})
	return r
}

func runLarge(h *H) {
	for ti, raw := range h.Tests {
		var t lgTest
		must(json.Unmarshal(raw, &t))
		h.largeRun(ti, t)
	}
}

func (h *H) largeRun(ti int, t lgTest) {
	var dir = filepath.Join(h.Scratch, "large")
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	var mode = t.Ops[0].Mode
	h.Reset(fmt.Sprintf("l%d", ti), J{"mode": mode})
	var split = mode == "split"
	var tpath, dpath = filepath.Join(dir, "p.wpk"), filepath.Join(dir, "p.wpk")
	if split {
		tpath, dpath = filepath.Join(dir, "p.wpt"), filepath.Join(dir, "p.wpf")
	}
	var tf, err = os.Create(tpath)
	must(err)
	defer func() { tf.Close() }()
	var df = tf
	if split {
		df, err = os.Create(dpath)
		must(err)
		defer func() { df.Close() }()
	}
	var wpt, wpf io.WriteSeeker = sparse{tf}, nil
	if split {
		wpf = sparse{df}
	}
	var pkg = wpk.NewPackage()
	var dw = wpt
	if split {
		dw = wpf
	}
	for i, o := range t.Ops {
		var r = J{"err": "", "tab": []J{}, "ds": limbs24(0), "disk": J{"err": "none"}}
		r["crash"] = guard120(func() {
			var err error
			switch o.Op {
			case "begin":
				err = pkg.Begin(wpt, wpf)
			case "jump":
				_, err = dw.Seek(unlimbs24(o.N), io.SeekCurrent)
			case "pack":
				var m = newMarked(unlimbs24(o.N), o.Salt, true)
				// long sources mostly move the writer, some are really copied
				if m.n > 1<<27 && (m.n > 6<<30 || (ti+i)%6 != 0) {
					_, err = pkg.PackData(dw, markedFast{m}, o.K)
				} else {
					_, err = pkg.PackData(dw, bufio.NewReaderSize(struct{ io.Reader }{m}, 1<<20), o.K)
				}
				sparse{df}.extend()
			case "sync":
				err = pkg.Sync(wpt, wpf)
				sparse{df}.extend()
			case "append":
				pkg = wpk.NewPackage()
				if err = pkg.OpenFile(tpath); err == nil {
					err = pkg.Append(wpt, wpf)
				}
			}
			r["err"] = errc(err)
			r["tab"], r["ds"] = largeTab(pkg.FTT), limbs24(uint64(pkg.DataSize()))
			if o.Op == "sync" && err == nil {
				r["disk"] = largeDisk(tpath, dpath, ti+i)
			}
		})
		if o.Op == "begin" && r["crash"] == "" && r["err"] == "" {
			continue
		}
		h.Emit(J{"op": o.Op, "n": o.N, "k": o.K, "salt": o.Salt, "r": r})
		if r["crash"] != "" {
			return
		}
	}
}

func guard120(f func()) string { return guardT(120e9, f) }

func largeDisk(tpath, dpath string, turn int) J {
	var d = J{"err": "", "tab": []J{}, "ds": limbs24(0), "qds": limbs24(0), "off": limbs24(0), "hds": limbs24(0), "fo": limbs24(0), "files": []J{}}
	var f, err = os.Open(tpath)
	must(err)
	defer f.Close()
	var buf [64]byte
	_, err = io.ReadFull(f, buf[:])
	must(err)
	d["fo"], d["off"], d["hds"] = limbs24(util.GetU64(buf[32:])), limbs24(util.GetU64(buf[48:])), limbs24(util.GetU64(buf[56:]))
	if hdr, _, err := wpk.GetPackageInfo(f); err == nil {
		d["qds"] = limbs24(uint64(hdr.DataSize()))
	}
	var pkg = wpk.NewPackage()
	if turn%2 == 0 {
		err = pkg.OpenFile(tpath)
	} else {
		err = pkg.OpenStream(f)
	}
	if err != nil {
		d["err"] = errc(err)
		return d
	}
	d["tab"], d["ds"] = largeTab(pkg.FTT), limbs24(uint64(pkg.DataSize()))
	var kind = 1 + turn%2
	fi, err := os.Stat(dpath)
	must(err)
	if fi.Size() < 1<<24 {
		kind = turn % 3
	}
	tgr, err := openTagger(dpath, kind)
	must(err)
	defer tgr.Close()
	pkg.Tagger = tgr
	var files = []J{}
	var i = 0
	pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
		i++
		files = append(files, largeFile(pkg, k, i))
		return true
	})
	d["files"] = files
	return d
}

func largeFile(pkg *wpk.Package, k string, i int) J {
	var r = J{"i": i, "err": "", "size": limbs24(0), "seekend": limbs24(0), "reads": []J{}}
	var f, err = pkg.Open(k)
	if err != nil {
		r["err"] = errc(err)
		return r
	}
	defer f.Close()
	var rf = f.(wpk.RFile)
	fi, err := rf.Stat()
	if err != nil {
		r["err"] = errc(err)
		return r
	}
	r["size"] = limbs24(uint64(fi.Size()))
	end, err := rf.Seek(0, io.SeekEnd)
	if err != nil {
		r["err"] = errc(err)
		return r
	}
	r["seekend"] = limbs24(uint64(end))
	var n = fi.Size()
	var ps = markPlaces(n)
	for _, p := range []int64{16, 1 << 20, 1<<31 - 1<<20, 1<<31 + 4096, 1<<32 - 1<<20, 1<<32 + 1<<20, n - 1<<20} {
		if p >= 16 && p+32 <= n && p%64 == 16%64 || p >= 1<<20 && p+1<<19 <= n {
			ps = append(ps, p)
		}
	}
	ps = append(ps, n, n+8)
	var reads = []J{}
	for j, p := range ps {
		var b [8]byte
		var k int
		if (i+j)%2 == 0 {
			k, _ = rf.ReadAt(b[:], p)
		} else {
			if _, err := rf.Seek(p, io.SeekStart); err != nil {
				continue
			}
			k, _ = io.ReadFull(rf, b[:])
		}
		reads = append(reads, J{"p": limbs24(uint64(p)), "k": k, "b": ints(b[:k])})
	}
	r["reads"] = reads
	return r
}
