package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"syscall"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

func init() { areas["format"] = runFormat }

const big = 1 << 24

func clampBig(u uint64) int {
	if u >= big {
		return big
	}
	return int(u)
}

// splitReader delivers at most piece(i) bytes by each read, the last ones together with EOF if asked.
type splitReader struct {
	b     []byte
	pos   int64
	piece func() int
	eof   bool // EOF comes with the last bytes
}

func (s *splitReader) Read(p []byte) (int, error) {
	if s.pos >= int64(len(s.b)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	if n := s.piece(); n < len(p) {
		p = p[:n]
	}
	var n = copy(p, s.b[s.pos:])
	s.pos += int64(n)
	if s.eof && s.pos == int64(len(s.b)) {
		return n, io.EOF
	}
	return n, nil
}

func (s *splitReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.b))
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	s.pos = off
	return off, nil
}

func (h *H) ways(b []byte) []io.ReadSeeker {
	var huge = func() int { return 1 << 30 }
	var rnd = func() int { return 1 + h.Rng.Intn(40) }
	return []io.ReadSeeker{
		bytes.NewReader(b),
		&splitReader{b: b, piece: func() int { return 1 }},
		&splitReader{b: b, piece: rnd},
		&splitReader{b: b, piece: huge, eof: true},
		&splitReader{b: b, piece: rnd, eof: true},
	}
}

func openResult(ftt *wpk.FTT, err error, crash string) J {
	var r = J{"crash": crash, "st": "err", "tab": []J{}, "info": []int{}, "cnt": 0, "ds": 0, "split": false, "n": 0}
	if crash != "" {
		return r
	}
	r["st"] = stc(err)
	if err != nil {
		return r
	}
	var tab = []J{}
	var pkg = &wpk.Package{FTT: ftt, Workspace: "."}
	pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
		var o, n = ts.Pos()
		tab = append(tab, J{"k": ints([]byte(k)), "o": clampBig(uint64(o)), "n": clampBig(uint64(n)), "raw": ints(ts)})
		return true
	})
	r["tab"] = tab
	r["info"] = ints(ftt.GetInfo())
	r["cnt"] = ftt.TagsetNum()
	r["ds"] = clampBig(uint64(ftt.DataSize()))
	r["split"] = ftt.IsSplitted()
	return r
}

func distinct(rs []J) []J {
	var seen = map[string]bool{}
	var res []J
	for _, r := range rs {
		var b, err = json.Marshal(r)
		must(err)
		if !seen[string(b)] {
			seen[string(b)] = true
			res = append(res, r)
		}
	}
	return res
}

func newFTT() *wpk.FTT {
	var ftt = &wpk.FTT{}
	ftt.Init(&wpk.Header{})
	return ftt
}

var usedImage []byte

// usedFTT returns table object which was used to open other package before.
func usedFTT() *wpk.FTT {
	if usedImage == nil {
		var w = vfile{rc: &recorder{}}
		var pkg = wpk.NewPackage()
		pkg.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag("used")))
		must(pkg.Begin(&w, nil))
		for _, k := range []string{"a", "b", "x/y"} {
			var _, err = pkg.PackData(&w, bytes.NewReader([]byte("content")), k)
			must(err)
		}
		must(pkg.Sync(&w, nil))
		usedImage = w.image()
	}
	var ftt = newFTT()
	must(ftt.OpenStream(bytes.NewReader(usedImage)))
	return ftt
}

// formatImage opens one image in all ways.
func formatImage(h *H, id *int, b []byte) {
	if *id%50 == 0 {
		h.Reset(fmt.Sprintf("img%d", *id), nil)
	}
	*id++
	var rs, qs []J
	var kb uint64
	for i, r := range h.ways(b) {
		var ftt = newFTT()
		if i == 2 {
			ftt = usedFTT()
		}
		var err error
		var m0, m1 runtime.MemStats
		if i == 0 {
			runtime.ReadMemStats(&m0)
		}
		var crash = inline(func() { err = ftt.OpenStream(r) })
		if i == 0 {
			runtime.ReadMemStats(&m1)
			kb = (m1.TotalAlloc - m0.TotalAlloc) >> 10
		}
		rs = append(rs, openResult(ftt, err, crash))
	}
	if *id%7 == 0 {
		var p = filepath.Join(h.Scratch, "img.wpk")
		must(os.WriteFile(p, b, 0644))
		var ftt = newFTT()
		var err error
		var crash = inline(func() { err = ftt.OpenFile(p) })
		rs = append(rs, openResult(ftt, err, crash))
	}
	for _, r := range h.ways(b) {
		var hdr wpk.Header
		var ts wpk.TagsetRaw
		var err error
		var crash = inline(func() { hdr, ts, err = wpk.GetPackageInfo(r) })
		var q = J{"crash": crash, "st": "err", "info": []int{}, "cnt": 0, "fs": 0, "ds": 0}
		if crash == "" {
			q["st"] = stc(err)
			if err == nil {
				q["info"] = ints(ts)
				q["cnt"] = clampBig(uint64(hdr.Count()))
				q["fs"] = clampBig(uint64(hdr.FttSize()))
				q["ds"] = clampBig(uint64(hdr.DataSize()))
			}
		}
		qs = append(qs, q)
	}
	if kb > 2000000000 {
		kb = 2000000000
	}
	h.Emit(J{"op": "open", "b": ints(b), "rs": distinct(rs), "qs": distinct(qs), "kb": kb})
	// the table alone, from a stream, also followed by other data
	if len(b) < 64 || *id%3 != 0 {
		return
	}
	var fo, do, ds = util.GetU64(b[32:]), util.GetU64(b[48:]), util.GetU64(b[56:])
	if fo > uint64(len(b)) || fo < 64 || do >= big || ds >= big {
		return
	}
	var tb = append([]byte{}, b[fo:]...)
	if *id%2 == 0 {
		tb = append(tb, 1, 2, 3)
	}
	rs = nil
	for _, r := range h.ways(tb) {
		var hdr wpk.Header
		var hb = append([]byte{}, b[:64]...)
		util.SetU64(hb[24:], 0)
		hdr.Parse(hb)
		var ftt = &wpk.FTT{}
		ftt.Init(&hdr)
		var n int64
		var err error
		var crash = inline(func() { n, err = ftt.ReadFrom(r) })
		var x = openResult(ftt, err, crash)
		x["cnt"], x["ds"], x["split"] = 0, 0, false
		if err == nil {
			x["n"] = n
		}
		rs = append(rs, x)
	}
	h.Emit(J{"op": "table", "b": ints(tb), "do": do, "ds": ds, "rs": distinct(rs)})
}

func runFormat(h *H) {
	// an excessive reservation ends the process instead of the machine
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	var id int
	var imgs [][]byte
	for _, t := range h.Tests {
		var l []int
		must(json.Unmarshal(t, &l))
		var b = make([]byte, len(l))
		for i, v := range l {
			b[i] = byte(v)
		}
		imgs = append(imgs, b)
		formatImage(h, &id, b)
	}
	// images written by the package writer
	for k := 0; k < 12; k++ {
		var b = writtenImage(h, k)
		imgs = append(imgs, b)
		formatImage(h, &id, b)
		for n := 0; n < len(b); n++ {
			if n > 60 && n < 66 || n > len(b)-60 || n%9 == k%9 {
				formatImage(h, &id, b[:n])
			}
		}
	}
	// mutations
	var rounds = 6000
	if h.Thorough {
		rounds = 60000
	}
	for i := 0; i < rounds; i++ {
		var b = append([]byte{}, imgs[h.Rng.Intn(len(imgs))]...)
		for k := 1 + h.Rng.Intn(3); k > 0; k-- {
			if len(b) == 0 {
				break
			}
			var at = h.Rng.Intn(len(b))
			if h.Rng.Intn(3) > 0 && len(b) > 64 { // mostly in the table and header fields
				at = 24 + h.Rng.Intn(len(b)-24)
			}
			switch h.Rng.Intn(9) {
			case 7, 8:
				// the end of the table is changed, and the header follows
				if len(b) >= 66 {
					var was = len(b)
					switch h.Rng.Intn(4) {
					case 0:
						b = b[:64+h.Rng.Intn(len(b)-64)]
					case 1:
						b = append(b, make([]byte, 1+h.Rng.Intn(4))...)
					case 2:
						b = append(b[:len(b)-2:len(b)-2], byte(h.Rng.Intn(20)), byte(h.Rng.Intn(2)))
						for n := h.Rng.Intn(24); n > 0; n-- {
							b = append(b, byte(h.Rng.Intn(5)))
						}
					case 3:
						b = append(b[:at:at], append([]byte{byte(h.Rng.Intn(4))}, b[at:]...)...)
					}
					util.SetU64(b[40:], util.GetU64(b[40:])+uint64(len(b)-was))
				}
			case 0:
				b[at] ^= 1 << h.Rng.Intn(8)
			case 1:
				b[at] = byte([]int{0, 1, 2, 3, 4, 127, 128, 255}[h.Rng.Intn(8)])
			case 2:
				b = b[:at]
			case 3:
				b = append(b[:at], b[at+1:]...)
			case 4:
				b = append(b[:at], append([]byte{byte(h.Rng.Intn(256))}, b[at:]...)...)
			case 5:
				b[at] += byte(1 + h.Rng.Intn(2)*254)
			case 6:
				if len(b) >= 64 {
					var f = 24 + 8*h.Rng.Intn(5)
					util.SetU64(b[f:], []uint64{0, 1, 63, 64, 65, uint64(len(b)), uint64(len(b)) + 1, 1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, ^uint64(0), ^uint64(0) - 63}[h.Rng.Intn(13)])
				}
			}
		}
		formatImage(h, &id, b)
	}
}

func writtenImage(h *H, k int) []byte {
	var wpt, wpf = &vfile{}, &vfile{}
	var pkg = wpk.NewPackage()
	var a, b io.WriteSeeker = wpt, nil
	var w io.WriteSeeker = wpt
	if k%2 == 1 {
		b, w = wpf, wpf
	}
	must(pkg.Begin(a, b))
	if k%3 > 0 {
		pkg.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag("lab")))
	}
	for i := 0; i < k/2; i++ {
		var ts, err = pkg.PackData(w, bytes.NewReader(make([]byte, i*5)), fmt.Sprintf("d%d/f%d", i%2, i))
		must(err)
		if i%2 == 0 {
			pkg.SetupTagset(wpk.CopyTagset(ts).Put(wpk.TIDmime, wpk.StrTag("x")))
		}
	}
	if k != 11 {
		must(pkg.Sync(a, b))
	}
	return wpt.image()
}
