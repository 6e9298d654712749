package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() {
	areas["build"] = runBuild
}

type buildStmt struct {
	luaOp
	Try bool `json:"try"`
}

type buildScript struct {
	Kind string      `json:"kind"`
	At   string      `json:"at"`
	Q    []buildStmt `json:"q"`
}

var buildStamp = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

// render writes a script; scrdir, bindir and tmpdir are what it should find.
func (x *luaRun) render(s *buildScript, scrdir, bindir, tmpdir string) string {
	var b strings.Builder
	var q = strconv.Quote
	b.WriteString("pkg = wpk.new()\ncontents = {\n")
	for n, c := range luaContents {
		fmt.Fprintf(&b, "%s = hex2bin(%q),\n", n, fmt.Sprintf("%x", c))
	}
	b.WriteString("}\nlocal function is(n, v, w) if v == w then return n end return n..'='..tostring(v) end\n")
	for i := range s.Q {
		var st = &s.Q[i]
		var c string
		switch st.Op {
		case "log":
			c = "log(" + q("@"+st.A) + ")"
		case "where":
			c = fmt.Sprintf("log('@'..is('scrdir',scrdir,%s)..' '..is('bindir',bindir,%s)..' '..is('tmpdir',tmpdir,%s))", q(scrdir), q(bindir), q(tmpdir))
		case "set":
			c = "leaked = true\nwpk.leaked = true"
		case "get":
			c = "if leaked or wpk.leaked then log('@set') else log('@unset') end"
		case "fail":
			c = "error('on purpose')"
		default:
			c, _ = x.chunk(&st.luaOp)
			c = strings.TrimPrefix(c, "return ")
			if st.Try {
				c = "if pcall(function() " + c + " end) then log('@yes') else log('@no') end"
			}
		}
		b.WriteString(c + "\n")
	}
	if s.Kind == "syntax" {
		b.WriteString("end end (\n")
	}
	return b.String()
}

func runBuild(h *H) {
	var tool, err = filepath.EvalSymlinks(h.Args[0])
	must(err)
	var env = luaEnv()
	var mu sync.Mutex
	parallel(len(h.Tests), func(i int) {
		var t struct {
			Runs [][]buildScript `json:"runs"`
		}
		must(json.Unmarshal(h.Tests[i], &t))
		var rnd = rand.New(rand.NewSource(h.Seed*1000003 + int64(i)))
		var dir = filepath.Join(h.Scratch, fmt.Sprintf("b%d", i))
		var tmp = filepath.Join(dir, "t m p")
		must(os.MkdirAll(tmp, 0o755))
		defer os.RemoveAll(dir)
		var x = &luaRun{dir: dir}
		var evs []J
		for n, run := range t.Runs {
			var args []string
			for j := range run {
				var s = &run[j]
				var rel = fmt.Sprintf("run%d/s%d", n, j)
				must(os.MkdirAll(filepath.Join(dir, rel), 0o755))
				var at = []string{"abs", "rel", "env", "brace", "percent", "dot", "here"}[rnd.Intn(7)]
				s.At = at
				var full = filepath.Join(dir, rel)
				var scrdir, arg = full, full
				switch at {
				case "rel":
					scrdir, arg = rel, rel
				case "env":
					arg = "$WPKD/" + rel
				case "brace":
					arg = "${WPKD}/" + rel
				case "percent":
					arg = "%WPKD%/" + rel
				case "dot":
					scrdir, arg = rel, "./"+rel
				}
				var name, where = "s.lua", full
				if at == "here" { // in the current directory
					name, where, scrdir = fmt.Sprintf("r%ds%d.lua", n, j), dir, "."
					arg = name
				} else {
					arg += "/" + name
				}
				if s.Kind != "absent" {
					must(os.WriteFile(filepath.Join(where, name), []byte(x.render(s, scrdir, filepath.Dir(tool), tmp)), 0o644))
				}
				args = append(args, arg)
			}
			var ctx, cancel = context.WithTimeout(context.Background(), 60*time.Second)
			var cmd = exec.CommandContext(ctx, tool, args...)
			cmd.Dir = dir
			cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "WPKD=" + dir, "TMPDIR=" + tmp}
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			var err = cmd.Run()
			var o = out.String()
			var crash = ""
			switch {
			case ctx.Err() != nil:
				crash = "hang"
			case strings.Contains(o, "panic:") || strings.Contains(o, "fatal error:") || strings.Contains(o, "runtime error"):
				crash = "panic " + firstLine(o)
			}
			cancel()
			var ee *exec.ExitError
			if err != nil && !errors.As(err, &ee) {
				bug(err)
			}
			var log = []string{}
			for _, l := range strings.Split(strings.TrimSpace(o), "\n") {
				l = buildStamp.ReplaceAllString(l, "")
				switch {
				case strings.HasPrefix(l, "@"):
					log = append(log, l)
				case l != "" && (len(log) == 0 || log[len(log)-1] != "err"): // a message of any number of lines
					log = append(log, "err")
				}
			}
			var disk = J{}
			for _, p := range luaPaths {
				disk[p] = x.disk(p)
			}
			evs = append(evs, J{"op": "run", "scripts": scriptsOf(run), "r": J{"crash": crash, "log": log, "disk": disk, "out": o}})
		}
		mu.Lock()
		defer mu.Unlock()
		h.Reset(fmt.Sprint("b", i), J{"env": env, "paths": luaPaths})
		for _, e := range evs {
			h.Emit(e)
		}
	})
}

func scriptsOf(run []buildScript) (l []J) {
	for i := range run {
		var q = []J{}
		for j := range run[i].Q {
			var s = &run[i].Q[j]
			var T = s.T
			var e = J{"op": s.Op, "k": s.K, "c": s.C, "a": s.A, "b": s.B, "T": T, "mt": J{"v": "", "b": ""}, "try": s.Try}
			if T == nil {
				e["T"] = []J{}
			}
			q = append(q, e)
		}
		l = append(l, J{"kind": run[i].Kind, "at": run[i].At, "q": q})
	}
	return
}
