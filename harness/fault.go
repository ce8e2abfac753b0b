package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"syscall"

	gql "github.com/mmadfox/go-geoql-parser"
)

// ------------------------------------------------------- a writer that fails

type faultErr struct{ at int }

func (e *faultErr) Error() string { return fmt.Sprintf("fault at write %d", e.at) }

type valueErr string

func (e valueErr) Error() string { return string(e) }

// errWriters are errors that a writer may report; none stands for success.
var errWriters = []error{nil, nil, io.EOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrUnexpectedEOF, os.ErrClosed, syscall.ENOSPC, syscall.EPIPE,
	&os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}, errors.New(""), valueErr("full"), context.Canceled,
	fmt.Errorf("wrapped: %w", io.ErrShortWrite), fmt.Errorf("wrapped: %w", io.EOF),
	natured{true, false}, natured{false, true}, natured{true, true}, &natured{true, true}, syscall.EINTR, syscall.EAGAIN,
	os.ErrDeadlineExceeded, context.DeadlineExceeded, &net.OpError{Op: "write", Net: "tcp", Err: natured{true, true}},
	&os.PathError{Op: "write", Path: "x", Err: os.ErrDeadlineExceeded}, io.ErrNoProgress, bufio.ErrBufferFull,
	errors.Join(io.EOF, io.ErrShortWrite), isAll{}, &gql.Error{Msg: "an error of the package"}}

// natured is an error that says what kind it is.
type natured struct{ temporary, timeout bool }

func (natured) Error() string     { return "not now" }
func (e natured) Temporary() bool { return e.temporary }
func (e natured) Timeout() bool   { return e.timeout }

// isAll claims to be any error.
type isAll struct{}

func (isAll) Error() string   { return "any" }
func (isAll) Is(e error) bool { return e != nil }

type plan struct {
	N, K  int
	Kind  string
	Calls int
	Taken int
	Ret   string
}

type faultWriter struct {
	p      plan
	calls  int
	after  int // calls after the fault
	taken  strings.Builder
	chunks []string
	how    error // what it fails with, if not with an error of its own
	err    error
}

func (w *faultWriter) WriteString(s string) (int, error) {
	w.calls++
	if w.err != nil {
		w.after++
	}
	if w.p.K > 0 && (w.calls == w.p.K || w.p.Kind == "forever" && w.calls > w.p.K) {
		n := 0
		if w.p.Kind == "part" {
			n = len(s) / 2
		}
		if w.p.Kind == "full" {
			n = len(s)
		}
		w.taken.WriteString(s[:n])
		var e error = &faultErr{w.calls}
		if w.how != nil {
			e = w.how
		}
		if w.err == nil {
			w.err = e
		}
		return n, e
	}
	w.chunks = append(w.chunks, s)
	w.taken.WriteString(s)
	return len(s), nil
}

// writePlans are the specified behaviours for n writes.
func writePlans(max int) map[int][]plan {
	out := map[int][]plan{}
	runTLC("WriteFault", map[string]string{"GQL_MAX": fmt.Sprint(max)}, func(ln []byte) {
		var p plan
		must(json.Unmarshal(ln, &p))
		out[p.N] = append(out[p.N], p)
	})
	return out
}

func (c *Ctx) writeFaults(plans map[int][]plan, kind string, s *Spec, st gql.Statement) {
	free := &faultWriter{}
	var err error
	if pan := guarded("Format", s.Text, func() { err = gql.Format(free, st) }); pan != "" || err != nil {
		c.violate("outcome", s.Text, "Format fails without a fault", pan, fmt.Sprint(err))
	}
	full := free.taken.String()
	todo := plans[free.calls]
	if len(todo) == 0 {
		c.count(kind+", longer than specified", s.Text)
		todo = c.latePlans(free.calls)
	}
	for _, p := range todo {
		w := &faultWriter{p: p, how: errWriters[c.Intn(len(errWriters))]}
		var err error
		pan := guarded("Format", s.Text, func() { err = gql.Format(w, st) })
		c.count(kind+" "+p.Kind, fmt.Sprintf("%s: fault at write %d of %d", s.Text, p.K, p.N))
		say := func(what string) {
			c.violate("fault", s.Text, what, fmt.Sprintf("the writer fails at write %d of %d (%s), written %q", p.K, p.N, p.Kind, w.taken.String()),
				"its error: "+fmt.Sprintf("%T %v", w.err, w.err), "returned: "+fmt.Sprint(err), pan)
		}
		switch {
		case pan != "":
			say("Format panics")
		case p.Ret == "nil" && err != nil:
			say("Format reports an error of a writer that did not fail")
		case p.Ret == "fault" && err == nil:
			say("Format does not report that a write failed")
		case p.Ret == "fault" && !errors.Is(err, w.err):
			say("Format reports another error than the writer's")
		case w.after > 0:
			say("Format writes after a write failed")
		case p.Ret == "nil" && w.taken.String() != full:
			say("Format writes another text than before: " + full)
		case !strings.HasPrefix(full, w.taken.String()):
			say("the text before the fault is no part of the output " + full)
		case p.Kind != "part" && p.Kind != "full" && (w.calls != p.Calls || len(w.chunks) != p.Taken):
			say(fmt.Sprintf("%d calls of the writer, %d specified", w.calls, p.Calls))
		}
	}
}

// latePlans are behaviours for more writes than are specified one by one: they
// follow the same specification, which does not depend on the number.
func (c *Ctx) latePlans(n int) (out []plan) {
	at := []int{1, 2, n / 2, n - 1, n}
	for i := 0; i < 16; i++ {
		at = append(at, 1+c.Intn(n))
	}
	for _, k := range at {
		kind := []string{"once", "part", "full", "forever"}[c.Intn(4)]
		out = append(out, plan{N: n, K: k, Kind: kind, Calls: k, Taken: k - 1, Ret: "fault"})
	}
	return
}

// longOutputs have very many parts of each kind.
func longOutputs(rng *rand.Rand) (out []string) {
	point := func(i int) string { return fmt.Sprintf("[%d.5,-%d]", i%170, i%80) }
	for _, n := range []int{60, 130, 260, 300 + rng.Intn(100), 520, 1030} {
		ring := point(1) + "," + repeated(n, ",", point) + "," + point(1)
		out = append(out,
			"when line["+repeated(n, ",", point)+"]",
			"when polygon[["+ring+"]]",
			"when polygon[[[0,0],[1,1],[2,0],[0,0]],["+ring+"]]",
			"when multiline["+repeated(n, ",", func(i int) string { return "line[[1,2],[3," + fmt.Sprint(i%90) + "]]:2km" })+"]",
			"when multipoint["+repeated(n, ",", func(i int) string { return "point" + point(i) })+"]",
			"when collection["+repeated(n, ",", func(i int) string { return "point" + point(i) })+"]",
			"when ["+repeated(n, ",", func(i int) string { return fmt.Sprintf("%dkm", i) })+"]",
			"when weekday["+repeated(n, ",", func(i int) string { return []string{"mon", "tue", "sun"}[i%3] })+"]",
			"when date["+repeated(n, ",", func(i int) string { return fmt.Sprintf("2022-02-%02d", 1+i%28) })+"]",
			"when a{"+repeated(n, ",", func(i int) string { return fmt.Sprintf("\"k%d\"", i) })+"}:"+repeated(n, ",", func(i int) string { return "x" }),
			"when a"+repeated(n, "", func(i int) string { return fmt.Sprintf(" and b%d", i) }),
			"trigger set "+repeated(n, " ", func(i int) string { return fmt.Sprintf("v%d = %d;", i, i) })+" when a",
		)
	}
	return
}

func init() {
	checks["C11"] = func(c *Ctx) {
		max := c.n(120, 260)
		plans := writePlans(max)
		c.accepted(wide, "", "", 5000, 60000, func(kind string, s *Spec, r Result) {
			c.writeFaults(plans, kind, s, r.Stmt)
		})
		for _, t := range longOutputs(c.Rand) {
			if r := realParse(t); r.outcome() == "ok" {
				c.writeFaults(plans, "long", &Spec{Text: t}, r.Stmt)
			} else {
				must(fmt.Errorf("long text %q: %s", t, r.outcome()))
			}
		}
		for _, t := range corpus {
			s := &Spec{Text: t}
			if r := realParse(t); r.outcome() == "ok" {
				c.writeFaults(plans, "corpus", s, r.Stmt)
			} else {
				must(fmt.Errorf("corpus text %q: %s", t, r.outcome()))
			}
		}
	}
}
