// Command harness executes tests generated from the TLA+ specifications, and seeded random histories, on
// the real wpk code and records what it did. It judges nothing: the traces are validated by TLC.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

type J = map[string]any

// H is the environment of one harness run.
type H struct {
	Tests    []json.RawMessage
	Scratch  string
	Seed     int64
	Thorough bool
	Rng      *rand.Rand
	Args     []string
	mu       sync.Mutex
	concMu   sync.Mutex
	out      *bufio.Writer
	emitted  int // events
}

// hangs counts calls of the code under test that did not return. Some of them are enough, each costs much time.
var hangs atomic.Int64

const maxHangs = 4

// Stop ends the run with what was recorded so far.
func (h *H) Stop(detail string) {
	if detail != "" {
		h.Emit(J{"op": "fatal", "detail": detail})
	}
	h.mu.Lock()
	h.out.Flush()
	os.Exit(0)
}

// watch ends the run when nothing was recorded for a long time: the code under test hangs where nobody waits for it.
func (h *H) watch() {
	var last, idle = -1, 0
	for {
		time.Sleep(5 * time.Second)
		h.mu.Lock()
		var n = h.emitted
		h.mu.Unlock()
		if n != last {
			last, idle = n, 0
		} else if idle++; idle >= 30 {
			h.Stop("no progress")
		}
	}
}

// Emit writes one event of the trace. The "op" field always comes first.
func (h *H) Emit(e J) {
	h.mu.Lock()
	defer h.mu.Unlock()
	var op = e["op"].(string)
	var c = J{}
	for k, v := range e {
		if k != "op" {
			c[k] = v
		}
	}
	var b, err = json.Marshal(c)
	if err != nil {
		bug(err)
	}
	h.emitted++
	var o, _ = json.Marshal(op)
	fmt.Fprintf(h.out, `{"op":%s`, o)
	if len(c) > 0 {
		h.out.WriteByte(',')
		h.out.Write(b[1:])
	} else {
		h.out.WriteByte('}')
	}
	h.out.WriteByte('\n')
}

func (h *H) Flush() { h.mu.Lock(); h.out.Flush(); h.mu.Unlock() }

func (h *H) Reset(id string, e J) {
	if e == nil {
		e = J{}
	}
	e["op"], e["id"] = "reset", id
	h.Emit(e)
}

// bug ends the run on a fault of the harness itself.
func bug(err any) {
	fmt.Fprintf(os.Stderr, "HARNESS-BUG: %v\n%s\n", err, debug.Stack())
	os.Exit(70)
}

func must(err error) {
	if err != nil {
		bug(err)
	}
}

// guard runs code under test; returns "" or a description of how it went down.
func guard(f func()) (crash string) {
	return guardT(20*time.Second, f)
}

// inline runs f in the calling goroutine, catching panics only.
func inline(f func()) (crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprintf("panic: %v", r)
			if len(crash) > 300 {
				crash = crash[:300]
			}
		}
	}()
	f()
	return
}

func guardT(d time.Duration, f func()) (crash string) {
	if hangs.Load() >= maxHangs {
		theH.Stop("")
	}
	var done = make(chan string, 1)
	go func() {
		debug.SetPanicOnFault(true)
		done <- inline(f)
	}()
	var t = time.NewTimer(d)
	defer t.Stop()
	select {
	case c := <-done:
		return c
	case <-t.C:
		hangs.Add(1)
		return "hang"
	}
}

// long is the byte string of given length that stands for "@n" in tests.
func long(n int) []byte {
	var b = make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + n)
	}
	return b
}

// tok is the token of a byte string: hexadecimal when short, length and digest otherwise.
func tok(b []byte) string {
	if len(b) <= 12 {
		return hex.EncodeToString(b)
	}
	if len(b) < 70000 && b[1] == byte(7+len(b)) && bytes.Equal(b, long(len(b))) {
		return fmt.Sprintf("@%d", len(b))
	}
	var s = sha1.Sum(b)
	return fmt.Sprintf("%d:%s", len(b), hex.EncodeToString(s[:6]))
}

// tokHash is like tok, from a stream.
func tokStream(r io.Reader) (string, error) {
	var b, err = io.ReadAll(r)
	return tok(b), err
}

func unhex(s string) []byte {
	if strings.HasPrefix(s, "@") {
		var n, err = strconv.Atoi(s[1:])
		must(err)
		return long(n)
	}
	var b, err = hex.DecodeString(s)
	must(err)
	return b
}

// ints gives a byte string as numbers, never nil.
func ints(b []byte) []int {
	var r = make([]int, len(b))
	for i, v := range b {
		r[i] = int(v)
	}
	return r
}

// errc classifies an error, independently of its wording.
func errc(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, wpk.ErrSignPre):
		return "notready"
	case errors.Is(err, wpk.ErrSignBad):
		return "badsign"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	}
	return "err"
}

var theH *H

var areas = map[string]func(*H){}

func main() {
	if len(os.Args) < 2 {
		bug("no area")
	}
	var area = os.Args[1]
	var fl = flag.NewFlagSet("harness", flag.ExitOnError)
	var in = fl.String("in", "", "tests")
	var out = fl.String("out", "", "trace")
	var scratch = fl.String("scratch", "", "scratch directory")
	var seed = fl.Int64("seed", 1, "seed")
	var tier = fl.String("tier", "quick", "tier")
	fl.Parse(os.Args[2:])
	var f, err = os.Create(*out)
	must(err)
	var h = &H{
		Scratch:  *scratch,
		Seed:     *seed,
		Thorough: *tier == "thorough",
		Rng:      rand.New(rand.NewSource(*seed)),
		Args:     fl.Args(),
		out:      bufio.NewWriterSize(f, 1<<20),
	}
	if *in != "" {
		var b, err = os.ReadFile(*in)
		must(err)
		for _, l := range strings.Split(string(b), "\n") {
			if l != "" {
				h.Tests = append(h.Tests, json.RawMessage(l))
			}
		}
	}
	var fn = areas[area]
	if fn == nil {
		bug("unknown area " + area)
	}
	theH = h
	go h.watch()
	fn(h)
	h.Flush()
	must(f.Close())
}
