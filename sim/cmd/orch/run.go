package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"verifsim/plan"
)

// Outcome is what one execution of a plan amounted to.
type Outcome struct {
	Err    string // the harness failed
	Class  string // violation class, "" if the properties held
	Msg    string
	R      plan.Result
	Stderr string
	Race   bool
}

// deframe strips the playback headers a faketime program writes.
func deframe(b []byte) string {
	if !bytes.HasPrefix(b, []byte("\x00\x00PB")) {
		return string(b)
	}
	var o bytes.Buffer
	for len(b) >= 16 && bytes.HasPrefix(b, []byte("\x00\x00PB")) {
		n := int(binary.BigEndian.Uint32(b[12:16]))
		b = b[16:]
		if n > len(b) {
			n = len(b)
		}
		o.Write(b[:n])
		b = b[n:]
	}
	o.Write(b)
	return o.String()
}

var workDir string

func execPlan(worker string, p *plan.Plan, verbose bool, limit time.Duration) *Outcome {
	in, _ := json.Marshal(p)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	args := []string{}
	if verbose {
		args = append(args, "-v")
	}
	c := exec.CommandContext(ctx, worker, args...)
	c.Dir = workDir
	c.Env = []string{"GOGC=off", "GOMAXPROCS=1", "GORACE=atexit_sleep_ms=0 exitcode=0 history_size=4", "GOTRACEBACK=all", "PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=UTC"}
	c.Stdin = bytes.NewReader(in)
	var errb bytes.Buffer
	c.Stderr = &errb
	pr, pw, err := os.Pipe()
	if err != nil {
		return &Outcome{Err: err.Error()}
	}
	c.ExtraFiles = []*os.File{pw}
	if err := c.Start(); err != nil {
		pr.Close()
		pw.Close()
		return &Outcome{Err: err.Error()}
	}
	pw.Close()
	var out bytes.Buffer
	done := make(chan struct{})
	go func() { out.ReadFrom(pr); pr.Close(); close(done) }()
	werr := c.Wait()
	<-done
	o := &Outcome{Stderr: deframe(errb.Bytes())}
	if ctx.Err() != nil {
		o.Err = fmt.Sprintf("no result after %v", limit)
		return o
	}
	if out.Len() > 0 && werr == nil {
		if err := json.Unmarshal(out.Bytes(), &o.R); err != nil {
			o.Err = "bad result: " + err.Error()
			return o
		}
		switch o.R.Verdict {
		case "ok":
		case "violation":
			o.Class, o.Msg = o.R.Class, o.R.Msg
		default:
			o.Err = o.R.Msg
		}
		if o.Class == "" && p.Prop == "C21" {
			o.races()
		}
		return o
	}
	o.crash(werr)
	return o
}

func frames(s string) []string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") || l == "" || strings.HasPrefix(l, "goroutine ") || strings.HasPrefix(l, "created by") || strings.HasPrefix(l, "panic(") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 && strings.HasSuffix(strings.TrimSpace(l), ")") {
			r = append(r, l[:i])
		}
	}
	return r
}

// crash explains a worker that died.
func (o *Outcome) crash(werr error) {
	s := o.Stderr
	if strings.Contains(s, "harness:") || strings.Contains(s, "sim:") || strings.Contains(s, "out of memory") || strings.Contains(s, "SimStart") {
		o.Err = "worker: " + first(s, 600)
		return
	}
	i := strings.Index(s, "panic: ")
	if j := strings.Index(s, "fatal error: "); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		o.Err = fmt.Sprintf("worker died: %v: %s", werr, first(s, 600))
		return
	}
	head := s[i:]
	msg := head
	if k := strings.Index(head, "\n"); k > 0 {
		msg = head[:k]
	}
	g := strings.Index(head, "\ngoroutine ")
	if g < 0 {
		o.Err = "worker died: " + first(s, 600)
		return
	}
	tr := head[g+1:]
	if k := strings.Index(tr, "\n\n"); k > 0 {
		tr = tr[:k]
	}
	top, repo := "", ""
	for _, f := range frames(tr) {
		if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "internal/") {
			continue
		}
		if top == "" && (strings.HasPrefix(f, "verifsim/") || strings.HasPrefix(f, "trypo/") || strings.HasPrefix(f, "main.")) {
			top = f
		}
		if repo == "" && strings.HasPrefix(f, "trypo/") {
			repo = f
		}
	}
	if strings.HasPrefix(top, "verifsim/") && !strings.HasPrefix(top, "verifsim/svc.") || strings.HasPrefix(top, "main.") {
		o.Err = "worker: " + msg + " in " + top + "\n" + first(tr, 1500)
		return
	}
	o.Class = "crash"
	o.Msg = fmt.Sprintf("a node dies: %s (in %s)", msg, orStr(repo, orStr(top, "library code")))
	o.R.Log = strings.Split(first(head, 3000), "\n")
}

func orStr(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// races reads the race detector's reports, keeping those in the repository's
// own code.
func (o *Outcome) races() {
	for _, blk := range strings.Split(o.Stderr, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		var where []string
		repo, bad := false, false
		for _, st := range strings.Split(blk, "\n\n") {
			lines := strings.Split(strings.TrimSpace(st), "\n")
			hd := strings.TrimSpace(lines[0])
			if strings.HasPrefix(hd, "WARNING") && len(lines) > 1 {
				lines = lines[1:]
				hd = strings.TrimSpace(lines[0])
			}
			if !strings.HasPrefix(hd, "Read at") && !strings.HasPrefix(hd, "Write at") && !strings.HasPrefix(hd, "Previous ") && !strings.HasPrefix(hd, "Atomic") {
				continue
			}
			top := ""
			for _, l := range lines[1:] {
				f := strings.TrimSpace(l)
				if i := strings.LastIndex(f, "("); i > 0 && strings.HasSuffix(f, ")") {
					f = f[:i]
				} else {
					continue
				}
				if strings.HasPrefix(f, "trypo/") || strings.HasPrefix(f, "verifsim/") || strings.HasPrefix(f, "main.") {
					top = f
					break
				}
			}
			if strings.HasPrefix(top, "trypo/") || strings.HasPrefix(top, "verifsim/svc") {
				repo = true
			} else if top != "" {
				bad = true
			}
			where = append(where, strings.Fields(hd)[0]+" in "+orStr(top, "library code called by a node"))
		}
		if repo && !bad {
			o.Class = "race"
			o.Msg = "unsynchronised access: " + strings.Join(where, " against ")
			o.Race = true
			o.R.Log = append(strings.Split(strings.TrimSpace(blk), "\n"), o.R.Log...)
			return
		}
	}
}
