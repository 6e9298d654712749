package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/bulk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
	"github.com/schwarzlichtbezirk/wpk/mmap"
	"github.com/schwarzlichtbezirk/wpk/util"
)

func init() {
	areas["store"] = runStore // histories, everything observed after each operation
	areas["crash"] = runCrash // histories, reader's views at every stop point and overlap
	areas["fault"] = runFault // histories with one injected fault at every position
}

type stop struct {
	Op string          `json:"op"`
	K  string          `json:"k"`
	K2 string          `json:"k2"`
	C  string          `json:"c"`
	T  int             `json:"t"`
	V  string          `json:"v"`
	L  []tagJ          `json:"L"`
	J  int             `json:"j"`
	In json.RawMessage `json:"in"`
	T0 string          `json:"t0"`
}

func (o stop) ev() J {
	var l = o.L
	if l == nil {
		l = []tagJ{}
	}
	return J{"op": o.Op, "k": o.K, "k2": o.K2, "c": o.C, "t": o.T, "v": o.V, "L": l, "t0": o.T0}
}

type storeTest struct {
	Mode string `json:"mode"`
	Ops  []stop `json:"ops"`
}

// contents maps content identifiers to bytes and back.
type contents struct {
	seed int64
	data map[string][]byte
	back map[string]string
}

func newContents(seed int64) *contents {
	return &contents{seed, map[string][]byte{}, map[string]string{}}
}

var contLens = map[string]int{"c0": 0, "c1": 1, "c2": 7, "c3": 300, "c4": 4096, "c5": 65536, "c6": 70001, "c7": 33000, "c8": 64, "c9": 131072}

func (c *contents) get(id string) []byte {
	if b, ok := c.data[id]; ok {
		return b
	}
	var n, ok = contLens[id]
	if !ok {
		n = 20
	}
	var s int64
	for _, x := range id {
		s = s*131 + int64(x)
	}
	var b = make([]byte, n)
	rand.New(rand.NewSource(s*7919 + c.seed)).Read(b)
	c.data[id] = b
	c.back[tok(b)] = id
	return b
}

func (c *contents) id(b []byte) string {
	if id, ok := c.back[tok(b)]; ok {
		return id
	}
	return "?" + tok(b)
}

type entJ struct {
	K    string `json:"k"`
	P    string `json:"p"`
	C    string `json:"c"`
	O    int    `json:"o"`
	N    int    `json:"n"`
	CN   int    `json:"cn"` // length the content should have, by its identifier
	Tags []tagJ `json:"tags"`
}

func clampInt(u uint) int {
	if u > 2000000000 {
		return 2000000000
	}
	return int(u)
}

// entries projects a table; img is the file with the data.
func entries(ftt *wpk.FTT, img []byte, cs *contents) []entJ {
	var pkg = &wpk.Package{FTT: ftt, Workspace: "."}
	var res = []entJ{}
	pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
		var e = entJ{K: k, P: ts.Path(), Tags: []tagJ{}}
		var o, n = ts.Pos()
		e.O, e.N = clampInt(o), clampInt(n)
		if o+n >= o && o+n <= uint(len(img)) {
			e.C = cs.id(img[o : o+n])
			if b, ok := cs.data[e.C]; ok {
				e.CN = len(b)
			}
		} else {
			e.C = "missing"
		}
		for _, t := range list(ts) {
			if t.T != int(wpk.TIDoffset) && t.T != int(wpk.TIDsize) && t.T != int(wpk.TIDpath) {
				e.Tags = append(e.Tags, t)
			}
		}
		res = append(res, e)
		return true
	})
	return res
}

// stc is the state class of an opening.
func stc(err error) string {
	switch c := errc(err); c {
	case "":
		return "ok"
	case "notready", "badsign":
		return c
	default:
		return "err"
	}
}

// diskView opens the images of a package and projects what is seen.
func diskView(h *H, tags, data []byte, split bool, cs *contents, way int) J {
	var v = J{"st": "err", "tab": []entJ{}, "info": []tagJ{}, "cnt": 0, "split": false, "hcnt": 0, "ds": 0, "hds": 0, "do": 0, "fo": 0, "tl": 0}
	var ftt = &wpk.FTT{}
	ftt.Init(&wpk.Header{})
	var err error
	switch way % 3 {
	case 0:
		err = ftt.OpenStream(bytes.NewReader(tags))
	case 1:
		var p = filepath.Join(h.Scratch, "view.wpk")
		must(os.WriteFile(p, tags, 0644))
		err = ftt.OpenFile(p)
	case 2: // header and table read from streams
		var hdr wpk.Header
		if _, err = hdr.ReadFrom(bytes.NewReader(tags)); err == nil {
			if err = hdr.IsReady(); err == nil {
				if hdr.FttSize() == 0 {
					err = ftt.OpenStream(bytes.NewReader(tags))
				} else {
					ftt.Init(&hdr)
					var fo = util.GetU64(tags[32:])
					if fo > uint64(len(tags)) {
						err = io.ErrUnexpectedEOF
					} else {
						_, err = ftt.ReadFrom(bytes.NewReader(tags[fo:]))
					}
				}
			}
		}
	}
	v["st"] = stc(err)
	if err != nil {
		return v
	}
	var img = tags
	if split {
		img = data
	}
	v["tab"] = entries(ftt, img, cs)
	v["info"] = list(ftt.GetInfo())
	v["cnt"] = ftt.TagsetNum()
	v["split"] = ftt.IsSplitted()
	v["ds"] = clampInt(ftt.DataSize())
	// header fields as the file format places them
	v["hcnt"] = clampInt(uint(util.GetU64(tags[24:])))
	v["fo"] = clampInt(uint(util.GetU64(tags[32:])))
	v["do"] = clampInt(uint(util.GetU64(tags[48:])))
	v["hds"] = clampInt(uint(util.GetU64(tags[56:])))
	if util.GetU64(tags[40:]) == 0 { // no table yet
		v["fo"] = 64
	}
	var n, _ = ftt.WriteTo(io.Discard)
	v["tl"] = int(n)
	return v
}

func quickView(tags []byte) J {
	var v = J{"st": "err", "info": []tagJ{}, "cnt": 0, "fs": 0, "ds": 0}
	var hdr, ts, err = wpk.GetPackageInfo(bytes.NewReader(tags))
	v["st"] = stc(err)
	if err == nil {
		v["info"] = list(ts)
		v["cnt"] = hdr.Count()
		v["fs"] = clampInt(hdr.FttSize())
		v["ds"] = clampInt(hdr.DataSize())
	}
	return v
}

type heldFile struct {
	f   wpk.RFile
	tgr wpk.Tagger
}

// session runs one history on the real code.
type session struct {
	h    *H
	mode string
	cs   *contents
	dir  string // real files, or "" for files in memory
	rc   *recorder
	wpt  *vfile
	wpf  *vfile
	pkg  *wpk.Package
	held []heldFile
	n    int // operation counter, selects flavours
	rnd  *rand.Rand
}

func newSession(h *H, mode string, cs *contents, dir string, rc *recorder, salt int64) *session {
	return &session{h: h, mode: mode, cs: cs, dir: dir, rc: rc, pkg: wpk.NewPackage(), rnd: rand.New(rand.NewSource(h.Seed*1000003 + salt))}
}

func (s *session) split() bool { return s.mode == "split" }

func (s *session) open(id int, trunc bool, data []byte) *vfile {
	if s.dir == "" {
		if trunc {
			data = nil
		}
		return &vfile{id: id, rc: s.rc, data: data}
	}
	var flags = os.O_WRONLY | os.O_CREATE
	if trunc {
		flags |= os.O_TRUNC
	}
	var f, err = os.OpenFile(s.path(id), flags, 0644)
	must(err)
	return &vfile{id: id, rc: s.rc, f: f}
}

func (s *session) path(id int) string {
	if id == 1 {
		return filepath.Join(s.dir, "pack.wpf")
	}
	if s.split() {
		return filepath.Join(s.dir, "pack.wpt")
	}
	return filepath.Join(s.dir, "pack.wpk")
}

func (s *session) closeFiles() {
	if s.wpt != nil {
		s.wpt.Close()
	}
	if s.wpf != nil {
		s.wpf.Close()
	}
}

func (s *session) dropHeld() {
	for _, x := range s.held {
		x.f.Close()
		x.tgr.Close()
	}
	s.held = nil
}

func (s *session) close() {
	s.dropHeld()
	s.closeFiles()
	if s.dir != "" {
		os.Remove(s.path(0))
		os.Remove(s.path(1))
	}
}

func (s *session) images() (tags, data []byte) {
	if s.wpt != nil {
		tags = s.wpt.image()
	}
	if s.wpf != nil {
		data = s.wpf.image()
	}
	return
}

// w is the data writer.
func (s *session) w() io.WriteSeeker {
	if s.split() {
		return s.wpf
	}
	return s.wpt
}

// files gives the arguments of begin, append and sync; a single-file package may be named twice.
func (s *session) files() (io.WriteSeeker, io.WriteSeeker) {
	if s.split() {
		return s.wpt, s.wpf
	}
	if s.n%2 == 1 {
		return s.wpt, s.wpt
	}
	return s.wpt, nil
}

func (s *session) exec(o *stop) (err error) {
	s.n++
	var pkg = s.pkg
	switch o.Op {
	case "new":
		s.pkg = wpk.NewPackage()
	case "begin":
		s.dropHeld()
		s.closeFiles()
		s.wpt = s.open(0, true, nil)
		if s.split() {
			s.wpf = s.open(1, true, nil)
		}
		var a, b = s.files()
		return pkg.Begin(a, b)
	case "put":
		var r io.Reader
		var b = s.cs.get(o.C)
		switch s.n % 4 {
		case 0:
			r = bytes.NewReader(b) // has WriteTo
		case 1:
			r = &faultReader{r: bytes.NewReader(b), rc: s.rc}
		case 2:
			r = &faultReader{r: bytes.NewReader(b), rc: s.rc, piece: 1 + len(b)/3}
		case 3:
			r = io.LimitReader(&faultReader{r: bytes.NewReader(b), rc: s.rc}, int64(len(b)))
		}
		if s.rc != nil && s.rc.kinds != "" {
			r = &faultReader{r: bytes.NewReader(b), rc: s.rc, piece: 1 + len(b)/2}
		}
		if s.rc != nil && s.rc.kinds != "" && s.n%3 == 0 {
			var ts wpk.TagsetRaw
			if ts, err = pkg.PackFile(s.w(), &faultFile{r, s.rc, s.h}, o.K); err != nil {
				return
			}
			ts = wpk.CopyTagset(ts)
			for t := wpk.TIDmtime; t <= wpk.TIDbtime; t++ { // the times are not of interest here
				ts = ts.Del(t)
			}
			pkg.SetTagset(o.K, ts)
			return
		}
		if _, err = pkg.PackData(s.w(), r, o.K); err != nil {
			return
		}
	case "settag", "deltag":
		var ts, ok = pkg.GetTagset(o.K)
		if !ok {
			return fs.ErrNotExist
		}
		if o.Op == "settag" {
			ts = wpk.CopyTagset(ts).Set(wpk.TID(o.T), unhex(o.V))
		} else {
			ts = wpk.CopyTagset(ts).Del(wpk.TID(o.T))
		}
		if s.n%2 == 0 {
			pkg.SetTagset(o.K, ts)
		} else {
			pkg.SetupTagset(ts)
		}
	case "setinfo":
		var ts wpk.TagsetRaw
		for _, t := range o.L {
			ts = ts.Put(wpk.TID(t.T), unhex(t.V))
		}
		pkg.SetInfo(ts)
	case "del":
		if _, ok := pkg.DelTagset(o.K); !ok {
			return fs.ErrNotExist
		}
	case "rename":
		return pkg.Rename(o.K, o.K2)
	case "alias":
		return pkg.PutAlias(o.K, o.K2)
	case "sync":
		var a, b = s.files()
		return pkg.Sync(a, b)
	case "append":
		// sometimes through fresh handles, as another run of a program would do
		if s.n%2 == 0 && s.dir != "" {
			s.closeFiles()
			s.wpt = s.open(0, false, nil)
			if s.split() {
				s.wpf = s.open(1, false, nil)
			}
		}
		var a, b = s.files()
		return pkg.Append(a, b)
	case "reopen":
		var np = wpk.NewPackage()
		var tags, _ = s.images()
		if s.dir != "" {
			err = np.OpenFile(s.path(0))
		} else {
			err = np.OpenStream(bytes.NewReader(tags))
		}
		if err != nil {
			return
		}
		s.pkg = np
		if s.dir != "" {
			s.closeFiles()
			s.wpt = s.open(0, false, nil)
			if s.split() {
				s.wpf = s.open(1, false, nil)
			}
		} else {
			s.wpt.pos = 0
			if s.wpf != nil {
				s.wpf.pos = 0
			}
		}
	case "hold":
		var np = wpk.NewPackage()
		if err = np.OpenFile(s.path(0)); err != nil {
			return
		}
		var ts, ok = np.GetTagset(o.K)
		if !ok {
			return fs.ErrNotExist
		}
		var p = s.path(0)
		if s.split() {
			p = s.path(1)
		}
		var hf heldFile
		if hf.tgr, err = openTagger(p, (s.n+len(s.held))%3); err != nil {
			return
		}
		if hf.f, err = hf.tgr.OpenTagset(ts); err != nil {
			hf.tgr.Close()
			return
		}
		s.held = append(s.held, hf)
		o.T0 = s.readHeld(hf)
	default:
		bug("store op " + o.Op)
	}
	return
}

func (s *session) readHeld(hf heldFile) string {
	if _, err := hf.f.Seek(0, io.SeekStart); err != nil {
		return "seek error"
	}
	var b, err = io.ReadAll(hf.f)
	if err != nil {
		return "read error"
	}
	return s.cs.id(b)
}

func openTagger(path string, kind int) (wpk.Tagger, error) {
	switch kind % 3 {
	case 0:
		return bulk.MakeTagger(path)
	case 1:
		return mmap.MakeTagger(path)
	default:
		return fsys.MakeTagger(path)
	}
}

// memView projects what the writer holds.
func (s *session) memView() J {
	var img []byte
	if s.split() {
		_, img = s.images()
	} else {
		img, _ = s.images()
	}
	var do = 64
	if s.split() {
		do = 0
	}
	return J{"tab": entries(s.pkg.FTT, img, s.cs), "info": list(s.pkg.GetInfo()), "num": s.pkg.TagsetNum(),
		"ds": clampInt(s.pkg.DataSize()), "do": do}
}

// opClass gives the outcome class of an operation.
func (s *session) opClass(err error) string {
	if s.rc != nil && s.rc.err != nil && errors.Is(err, s.rc.err) {
		return "fault"
	}
	return errc(err)
}

// step executes and observes one operation.
func (s *session) step(o stop) (ev J, dead bool) {
	var err error
	if s.rc != nil {
		s.rc.err = nil
	}
	var crash = guard(func() { err = s.exec(&o) })
	ev = o.ev()
	var r = J{"crash": crash, "err": s.opClass(err)}
	ev["r"] = r
	if crash == "" {
		crash = guard(func() {
			var tags, data = s.images()
			r["disk"] = diskView(s.h, tags, data, s.split(), s.cs, s.n)
			r["mem"] = s.memView()
			r["quick"] = quickView(tags)
			var held = []string{}
			for _, x := range s.held {
				held = append(held, s.readHeld(x))
			}
			r["held"] = held
		})
		r["crash"] = crash
	}
	if crash != "" {
		var dv = J{"st": "err", "tab": []entJ{}, "info": []tagJ{}, "cnt": 0, "split": false, "hcnt": 0, "ds": 0, "hds": 0, "do": 0, "fo": 0, "tl": 0}
		r["disk"], r["mem"], r["held"] = dv, J{"tab": []entJ{}, "info": []tagJ{}, "num": 0, "ds": 0, "do": 0}, []string{}
		r["quick"] = J{"st": "err", "info": []tagJ{}, "cnt": 0, "fs": 0, "ds": 0}
	}
	return ev, crash != ""
}

func runStore(h *H) {
	var dir = filepath.Join(h.Scratch, "p")
	must(os.MkdirAll(dir, 0755))
	for i, t := range h.Tests {
		var st storeTest
		must(json.Unmarshal(t, &st))
		var cs = newContents(h.Seed)
		var s = newSession(h, st.Mode, cs, dir, nil, int64(i))
		s.n = i % 12
		h.Reset(fmt.Sprintf("t%d", i), J{"mode": st.Mode})
		for _, o := range st.Ops {
			if o.Op == "stop" {
				break
			}
			var ev, dead = s.step(o)
			h.Emit(ev)
			if dead {
				break
			}
		}
		s.close()
	}
}

// ---- stop points and overlapping readers ----

// travel is a stream whose content moves on between reads.
type travel struct {
	imgs  [][]byte // content for each read
	sw    int      // reads before the switch
	reads int
	pos   int64
}

func (t *travel) cur() []byte {
	if t.reads < t.sw {
		return t.imgs[0]
	}
	return t.imgs[1]
}
func (t *travel) Read(p []byte) (int, error) {
	var b = t.cur()
	t.reads++
	if t.pos >= int64(len(b)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	var n = copy(p, b[t.pos:])
	t.pos += int64(n)
	return n, nil
}
func (t *travel) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += t.pos
	case io.SeekEnd:
		off += int64(len(t.cur()))
	}
	t.pos = off
	return off, nil
}

type snapshot struct{ tags, data []byte }

// snapshots gives the images after each recorded write; writes that cannot tear a header are also cut in half.
func snapshots(start snapshot, log []wrec) (res []snapshot, ends []int) {
	var cur = snapshot{append([]byte{}, start.tags...), append([]byte{}, start.data...)}
	var app = func(w wrec, b []byte) {
		if w.file == 0 {
			cur.tags = patch(append([]byte{}, cur.tags...), w.off, b)
		} else {
			cur.data = patch(append([]byte{}, cur.data...), w.off, b)
		}
		res = append(res, cur)
	}
	res = append(res, cur)
	ends = append(ends, 0)
	for _, w := range log {
		if (w.file == 1 || w.off >= 64) && len(w.b) > 1 {
			app(w, w.b[:len(w.b)/2])
		}
		app(w, w.b)
		ends = append(ends, len(res)-1) // snapshot index after this whole write
	}
	return
}

func runCrash(h *H) {
	var overlap = len(h.Args) > 0 && h.Args[0] == "overlap"
	for i, t := range h.Tests {
		var st storeTest
		must(json.Unmarshal(t, &st))
		var cs = newContents(h.Seed)
		var rc = &recorder{on: true}
		var s = newSession(h, st.Mode, cs, "", rc, int64(i))
		s.n = i % 12
		h.Reset(fmt.Sprintf("t%d", i), J{"mode": st.Mode})
		var base snapshot     // images at the start of the log
		var opEnd = []int{0}  // log length after each operation
		var events = []J{nil} // one per operation
		var kinds = []string{""}
		var flush = func() {
			emitViews(h, s, st.Mode == "split", cs, base, rc.log, opEnd, events, kinds, overlap)
			rc.log, opEnd, events, kinds = nil, []int{0}, []J{nil}, []string{""}
		}
		var dead bool
		for _, o := range st.Ops {
			if o.Op == "stop" {
				// run the inner operation, keep only a part of its writes, take over from the files
				var in stop
				must(json.Unmarshal(o.In, &in))
				flush()
				var t0, d0 = s.images()
				base = snapshot{t0, d0}
				var err error
				var crash = guard(func() { err = s.exec(&in) })
				var snaps, _ = snapshots(base, rc.log)
				var k = o.J % len(snaps)
				if o.J >= 3 {
					k = len(snaps) - 1 - (o.J-3)%len(snaps)
				}
				var cut = snaps[k]
				rc.log = nil
				s.wpt = &vfile{id: 0, rc: rc, data: append([]byte{}, cut.tags...)}
				s.wpf = &vfile{id: 1, rc: rc, data: append([]byte{}, cut.data...)}
				base = snapshot{append([]byte{}, cut.tags...), append([]byte{}, cut.data...)}
				_ = err
				var ev = J{"op": "stop", "in": in.ev(), "k": "", "cut": k}
				if crash == "" {
					var e2, d2 = s.step(stop{Op: "reopen"})
					ev["r"] = e2["r"]
					dead = d2
				} else {
					var e2, _ = s.step(stop{Op: "setinfo"})
					ev["r"] = e2["r"]
					ev["r"].(J)["crash"] = crash
					dead = true
				}
				rc.log = nil
				h.Emit(ev)
				if dead {
					break
				}
				continue
			}
			var ev, d = s.step(o)
			events = append(events, ev)
			opEnd = append(opEnd, len(rc.log))
			kinds = append(kinds, o.Op)
			if d {
				dead = true
				break
			}
		}
		flush()
		s.close()
	}
}

// emitViews emits the events of the operations and, after each, the reader's views whose window ends in it.
func emitViews(h *H, s *session, split bool, cs *contents, base snapshot, log []wrec, opEnd []int, events []J, kinds []string, overlap bool) {
	var snaps, ends = snapshots(base, log)
	// snapshot index after each operation
	var end = make([]int, len(opEnd))
	for i, n := range opEnd {
		end[i] = ends[n]
	}
	// the last image before the package is begun anew
	var final = func(t int) snapshot {
		for k := 1; k < len(end); k++ {
			if kinds[k] == "begin" && end[k-1] >= t {
				return snaps[end[k-1]]
			}
		}
		return snaps[len(snaps)-1]
	}
	var last = len(snaps) - 1
	// windows by the operation they end in
	type win struct{ t1, t2, back int }
	var byOp = map[int][]win{}
	for t2 := 0; t2 <= last; t2++ {
		var b = 0
		for end[b] < t2 {
			b++
		}
		for t1 := t2; t1 >= 0; t1-- {
			if !overlap && t1 < t2 {
				break
			}
			// last operation complete at t1
			var a = len(end) - 1
			for end[a] > t1 {
				a--
			}
			var back = b - a
			if back < 0 {
				back = 0
			}
			var syncs = 0
			for k := 1; k < len(end); k++ {
				if kinds[k] == "sync" && end[k-1] < t2 && end[k] > t1 {
					syncs++
				}
			}
			if syncs > 1 || back > 30 {
				break
			}
			if a > b {
				back = 0
			}
			byOp[imax(a, b)] = append(byOp[imax(a, b)], win{t1, t2, back})
		}
	}
	for k := range end {
		if events[k] != nil {
			h.Emit(events[k])
		}
		for _, w := range byOp[k] {
			var maxsw = 1
			if w.t1 != w.t2 {
				maxsw = 3
			}
			for sw := 1; sw <= maxsw; sw++ {
				if sw == 2 && w.t2-w.t1 > 4 {
					continue
				}
				h.Emit(viewEvent(split, cs, snaps, w.t1, w.t2, sw, w.back, final(w.t2)))
				if w.t1 == w.t2 {
					break
				}
			}
		}
	}
	_ = s
}

func viewEvent(split bool, cs *contents, snaps []snapshot, t1, t2, sw, back int, final snapshot) J {
	var r = J{"crash": "", "st": "err", "tab": []entJ{}, "info": []tagJ{}, "cnt": 0, "late": []string{}}
	r["crash"] = guard(func() {
		var ftt = &wpk.FTT{}
		ftt.Init(&wpk.Header{})
		var err = ftt.OpenStream(&travel{imgs: [][]byte{snaps[t1].tags, snaps[t2].tags}, sw: sw})
		r["st"] = stc(err)
		if err != nil {
			return
		}
		var img, late = snaps[t2].tags, final.tags
		if split {
			img, late = snaps[t2].data, final.data
		}
		r["tab"] = entries(ftt, img, cs)
		r["info"] = list(ftt.GetInfo())
		r["cnt"] = ftt.TagsetNum()
		var lc = []string{}
		for _, e := range entries(ftt, late, cs) {
			lc = append(lc, e.C)
		}
		r["late"] = lc
	})
	return J{"op": "view", "back": back, "t1": t1, "t2": t2, "sw": sw, "r": r}
}

// ---- faults ----

func runFault(h *H) {
	var lasting = len(h.Args) > 0 && h.Args[0] == "lasting"
	for i, t := range h.Tests {
		var st storeTest
		must(json.Unmarshal(t, &st))
		// count the calls of the fault-free run
		for _, kinds := range []string{"w", "r", "s"} {
			var cs = newContents(h.Seed)
			var total = faultRun(h, st, cs, kinds, 0, false, "", i, nil)
			for at := 1; at <= total; at++ {
				for _, short := range []bool{false, true} {
					if short && kinds != "w" || lasting {
						continue
					}
					h.Reset(fmt.Sprintf("t%d/%s%d", i, kinds, at), J{"mode": st.Mode})
					faultRun(h, st, cs, kinds, at, short, "", i, h.Emit)
				}
				// nothing more can be written at all, or the header can not
				if kinds == "w" && st.Mode == "split" {
					for _, sticky := range []string{"all", "head"} {
						h.Reset(fmt.Sprintf("t%d/%s%d%s", i, kinds, at, sticky), J{"mode": st.Mode})
						faultRun(h, st, cs, kinds, at, at%2 == 0, sticky, i, h.Emit)
					}
				}
			}
		}
	}
}

// faultRun executes a history with one fault, or with a lasting one; afterwards the history goes on.
func faultRun(h *H, st storeTest, cs *contents, kinds string, at int, short bool, sticky string, salt int, emit func(J)) int {
	var rc = &recorder{kinds: kinds, faultAt: at, short: short, sticky: sticky, salt: salt}
	var s = newSession(h, st.Mode, cs, "", rc, int64(salt))
	s.n = salt % 12
	defer s.close()
	for k := 0; k < len(st.Ops); k++ {
		var o = st.Ops[k]
		if o.Op == "stop" {
			break
		}
		rc.armed = sticky != "" || !rc.fired
		var was = sticky == "" && rc.fired
		if sticky != "" {
			rc.fired = false
		}
		var ev J
		var dead bool
		if emit == nil {
			if crash := guard(func() { s.exec(&o) }); crash != "" {
				break
			}
			rc.armed = false
			continue
		}
		// observation must not count as calls: step executes, then looks at the images only
		ev, dead = s.step(o)
		rc.armed = false
		if rc.fired && !was {
			var in = ev
			var r = ev["r"].(J)
			delete(in, "r")
			ev = J{"op": "fault", "in": in, "kind": kinds, "r": r}
			emit(ev)
			if dead {
				break
			}
			// a failed seek leaves the position of the files unknown: the history ends here
			if kinds == "s" || o.Op == "begin" {
				break
			}
			if o.Op == "append" || o.Op == "sync" {
				if r["err"].(string) != "" && sticky == "" {
					k-- // try again
				} else if o.Op == "append" && r["err"].(string) != "" {
					break // not opened for packing
				}
			}
			continue
		}
		emit(ev)
		if dead {
			break
		}
	}
	return rc.calls
}
