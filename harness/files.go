package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"syscall"
)

var errInjected = errors.New("injected fault")

// faults are the errors which failing calls give, whatever they mean elsewhere none of them is a success.
var faults = map[byte][]error{
	'r': {errInjected, io.ErrUnexpectedEOF, fmt.Errorf("broken: %w", io.EOF), os.ErrClosed, io.ErrNoProgress, fs.ErrExist, os.ErrDeadlineExceeded},
	'w': {errInjected, io.ErrShortWrite, syscall.ENOSPC, os.ErrClosed, io.EOF, fs.ErrExist, io.ErrUnexpectedEOF},
	's': {errInjected, os.ErrInvalid, syscall.ESPIPE, os.ErrClosed, io.EOF, fs.ErrNotExist, io.ErrClosedPipe},
}

// wrec is one recorded write.
type wrec struct {
	file int // 0 - tags part or single file, 1 - data part
	off  int64
	b    []byte
}

// recorder collects the writes of a history in order, for all files of a package.
type recorder struct {
	log []wrec
	on  bool
	// fault injection: calls are counted while armed, the faultAt-th one fails
	armed   bool
	calls   int
	faultAt int    // 0 - never
	kinds   string // which calls count: r, w, s
	fired   bool
	firedOp string
	salt    int
	err     error  // what the failing calls give
	short   bool   // a failing write stores half of its bytes, unless it touches a header
	sticky  string // "all": every later counted call fails too, "head": every later write into a header fails
}

// hit tells whether a call fails; head - it writes into a header.
func (rc *recorder) hit(kind byte, head bool) bool {
	if rc == nil || !rc.armed {
		return false
	}
	var counts = false
	for i := 0; i < len(rc.kinds); i++ {
		if rc.kinds[i] == kind {
			counts = true
		}
	}
	if !counts {
		return false
	}
	rc.calls++
	if rc.calls == rc.faultAt && (rc.sticky != "head" || head) ||
		rc.faultAt > 0 && rc.calls > rc.faultAt && (rc.sticky == "all" || rc.sticky == "head" && head) {
		rc.fired = true
		rc.firedOp = string(kind)
		rc.err = faults[kind][(rc.salt+rc.calls)%len(faults[kind])]
		return true
	}
	return false
}

// vfile is a file in memory, or a real one, whose writes are recorded and may be made to fail.
type vfile struct {
	id   int
	rc   *recorder
	data []byte
	pos  int64
	f    *os.File // real backend, if any
	// called before every operation of the file, for forced schedules
	gate func(kind string)
}

func (v *vfile) Write(p []byte) (int, error) {
	if v.gate != nil {
		v.gate("w")
	}
	var hdr = v.id == 0 && v.pos < 64
	if v.rc.hit('w', hdr) {
		var n = 0
		if v.rc.short && !hdr {
			n = len(p) / 2
			v.put(p[:n])
		}
		return n, v.rc.err
	}
	return v.put(p)
}

func (v *vfile) put(p []byte) (int, error) {
	if v.rc != nil && v.rc.on && len(p) > 0 {
		v.rc.log = append(v.rc.log, wrec{v.id, v.pos, append([]byte{}, p...)})
	}
	if v.f != nil {
		var n, err = v.f.Write(p)
		v.pos += int64(n)
		return n, err
	}
	v.data = patch(v.data, v.pos, p)
	v.pos += int64(len(p))
	return len(p), nil
}

func patch(data []byte, off int64, p []byte) []byte {
	if len(p) == 0 {
		return data
	}
	if need := int(off) + len(p); need > len(data) {
		var nd = make([]byte, need, need+need/4)
		copy(nd, data)
		data = nd
	}
	copy(data[off:], p)
	return data
}

func (v *vfile) Seek(off int64, whence int) (int64, error) {
	if v.gate != nil {
		v.gate("s")
	}
	if v.rc.hit('s', false) {
		return 0, v.rc.err
	}
	if v.f != nil {
		var n, err = v.f.Seek(off, whence)
		v.pos = n
		return n, err
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += v.pos
	case io.SeekEnd:
		off += int64(len(v.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	v.pos = off
	return off, nil
}

func (v *vfile) Close() error {
	if v.f != nil {
		return v.f.Close()
	}
	return nil
}

// image gives the whole current content.
func (v *vfile) image() []byte {
	if v == nil {
		return nil
	}
	if v.f != nil {
		var b, err = os.ReadFile(v.f.Name())
		must(err)
		return b
	}
	return append([]byte{}, v.data...)
}

// faultReader makes a source stream fail, or deliver its bytes in small pieces.
type faultReader struct {
	r     io.Reader
	rc    *recorder
	piece int
	gate  func(kind string)
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.gate != nil {
		f.gate("r")
	}
	if f.rc.hit('r', false) {
		if f.rc.short && len(p) > 1 { // some bytes come together with the error
			var n, _ = f.r.Read(p[:len(p)/2])
			return n, f.rc.err
		}
		return 0, f.rc.err
	}
	if f.piece > 0 && len(p) > f.piece {
		p = p[:f.piece]
	}
	return f.r.Read(p)
}

// faultFile is a disk file to pack whose calls can fail.
type faultFile struct {
	io.Reader
	rc *recorder
	h  *H
}

func (f *faultFile) Stat() (fs.FileInfo, error) {
	if f.rc.hit('r', false) {
		return nil, f.rc.err
	}
	var p = filepath.Join(f.h.Scratch, "any.bin")
	if fi, err := os.Stat(p); err == nil {
		return fi, nil
	}
	must(os.WriteFile(p, []byte("any"), 0o644))
	return os.Stat(p)
}
func (f *faultFile) Close() error { return nil }

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}
