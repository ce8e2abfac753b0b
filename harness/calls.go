package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	gql "github.com/mmadfox/go-geoql-parser"
)

// ------------------------------------------- calls that follow one another

type heapObj struct {
	T int
	V []string
	S bool
}

type heapCall struct {
	Op    string
	O     int
	N     string
	OK    bool
	After []heapObj
}

// scribble changes everything that the caller of Parse can change in a tree.
func scribble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Interface:
		scribble(v.Elem(), seen)
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scribble(v.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scribble(v.Field(i), seen)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
		if v.Kind() == reflect.Slice && v.Len() > 0 {
			// an append may not reach into another tree either
			n := reflect.Append(v, v.Index(0))
			_ = n
		}
	case reflect.Map:
		if !v.IsNil() && v.Type().Key().Kind() == reflect.String {
			for _, k := range v.MapKeys() {
				v.SetMapIndex(k, reflect.Value{})
			}
			v.SetMapIndex(reflect.ValueOf("scribble"), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() + 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() + 1)
	case reflect.Float64, reflect.Float32:
		v.SetFloat(v.Float() + 1.5)
	case reflect.String:
		v.SetString(v.String() + "!")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

// pair is a statement without variables, and the same with the variable x.
type pair struct{ plain, withX *Spec }

func pairs(c *Ctx, n int) (out []pair) {
	var texts []string
	for i, t := range append([]string{""}, themes...) {
		for _, s := range okSpecs(oracle(randomTexts(c.Seed*61+int64(i), t, n))) {
			if tr := s.tree(); len(tr.Kids) > 0 && tr.Kids[0].K == "assign" {
				continue
			}
			plain := s.Text
			if f := strings.Fields(plain); len(f) > 0 && strings.EqualFold(f[0], "trigger") {
				plain = plain[strings.Index(strings.ToLower(plain), "trigger")+len("trigger"):]
			}
			texts = append(texts, plain, []string{"set x = 7; ", "trigger set x = point[1,2]:3km;", "set x=[1,2] "}[c.Intn(3)]+plain)
		}
	}
	sp := oracle(texts)
	for i := 0; i+1 < len(sp); i += 2 {
		if sp[i].R.OK && sp[i+1].R.OK {
			out = append(out, pair{sp[i], sp[i+1]})
		}
	}
	return
}

// expected is the tree after SetVar calls, without positions.
func expected(s *Spec, vars []string) *N {
	t := s.tree()
	out := &N{K: t.K}
	n := 0
	for _, k := range t.Kids {
		if k.K == "assign" {
			n++
		}
	}
	out.Kids = append(out.Kids, t.Kids[:n]...)
	for _, v := range vars[n:] {
		out.Kids = append(out.Kids, &N{K: "assign", S: v, Kids: []*N{{K: "int", I: []int64{42}}}})
	}
	out.Kids = append(out.Kids, t.Kids[n:]...)
	return out
}

func diffValues(want, got *N) (out []Diff) {
	var all []Diff
	diffTrees(want, got, "", &all)
	for _, d := range all {
		if d.Class != "pos" {
			out = append(out, d)
		}
	}
	return
}

// replayHeap makes the calls of a history; deep also compares every tree after
// every call.
func replayHeap(c *Ctx, p pair, h []heapCall, onlyVars bool) {
	var heap []Result
	var kept []string // how scribbled trees look
	calls := ""
	fail := func(class string, detail ...string) {
		c.violate(class, p.withX.Text, append([]string{"calls:" + calls, "text 1: " + p.plain.Text}, detail...)...)
	}
	spec := func(o int, st []heapObj) *Spec {
		if st[o].T == 1 {
			return p.plain
		}
		return p.withX
	}
	for _, call := range h {
		calls += fmt.Sprintf(" %s(%d %s)", call.Op, call.O, call.N)
		o := call.O - 1
		switch call.Op {
		case "parse":
			s := p.plain
			if call.N == "2" {
				s = p.withX
			}
			r := realParse(s.Text)
			if r.outcome() != "ok" {
				fail("parse", s.Text, r.outcome(), r.Panic)
				return
			}
			heap = append(heap, r)
			kept = append(kept, "")
		case "setvar":
			tr := heap[o].Stmt.(*gql.Trigger)
			var err error
			a := &gql.Assign{Left: &gql.Ident{Val: call.N}, Right: &gql.IntTyp{Val: 42}}
			if pan := guarded("SetVar", p.withX.Text, func() { err = tr.SetVar(a) }); pan != "" {
				fail("panic", pan)
				return
			}
			if (err == nil) != call.OK {
				fail("SetVar", fmt.Sprintf("specified: accepted %v; SetVar returns %v", call.OK, err))
				return
			}
			if kept[o] != "" {
				kept[o] = heap[o].tree().String()
			}
		case "scribble":
			// variable names are kept: SetVar looks at them
			tr := heap[o].Stmt.(*gql.Trigger)
			var names []string
			for _, v := range tr.Vars {
				names = append(names, v.Left.Val)
			}
			if pan := guarded("scribble", p.withX.Text, func() { scribble(reflect.ValueOf(tr), map[uintptr]bool{}) }); pan != "" {
				must(fmt.Errorf("scribble: %s", pan))
			}
			for i, v := range tr.Vars {
				v.Left.Val = names[i]
			}
			kept[o] = heap[o].tree().String()
		case "read":
			out := ""
			pan := guarded("read", p.withX.Text, func() {
				var b strings.Builder
				_ = gql.Format(&b, heap[o].Stmt)
				out = b.String()
				_ = gql.CheckType(heap[o].Stmt, gql.Dictionary{"a": gql.Int})
				gql.Visit(heap[o].Stmt.(gql.Expr), func(gql.Expr) bool { return true })
			})
			if pan != "" && kept[o] == "" {
				fail("panic", pan)
				return
			}
			if kept[o] == "" {
				// what Format writes is the statement as it is now
				r := realParse(out)
				if r.outcome() != "ok" {
					fail("Format after these calls", out, r.outcome())
					return
				}
				if ds := diffValues(expected(spec(o, call.After), call.After[o].V), r.tree()); ds != nil {
					fail("Format after these calls", out, ds[0].String())
					return
				}
			}
		}
		// every tree is what it has to be
		for i, ob := range call.After {
			got := heap[i].tree()
			if ob.S {
				if k := got.String(); k != kept[i] {
					fail("a call changes another tree", kept[i], k)
					return
				}
				continue
			}
			if ds := diffValues(expected(spec(i, call.After), ob.V), got); ds != nil {
				class := "tree"
				if i != o {
					class = "a call changes another tree"
				}
				fail(class, fmt.Sprintf("tree %d: %s", i+1, ds[0].String()))
				return
			}
		}
	}
	c.count("history", fmt.Sprintf("%q:%s", p.withX.Text, calls))
}

func heapHistories(depth int) (hs [][]heapCall) {
	runTLC("GqlHeap", map[string]string{"GQL_DEPTH": fmt.Sprint(depth)}, func(ln []byte) {
		var v struct{ H []heapCall }
		must(json.Unmarshal(ln, &v))
		hs = append(hs, v.H)
	})
	return
}

// ------------------------------------------------------- overlapping calls

type callEvent struct {
	What string
	P    int
	Kind string
}

func (e *callEvent) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&e.What, &e.P, &e.Kind})
}

// job is a statement with what each call on it has to give.
type job struct {
	spec   *Spec
	toks   []Tok
	shared gql.Statement
	format string
	check  string
	walk   string
	dict   gql.Dictionary
	strict gql.Dictionary // what nothing fits
	refuse string
	writes int
	bad    []*Spec // rejected texts
	turn   int32
}

func errString(err error) string {
	if err == nil {
		return ""
	}
	return errText(err)
}

func walkString(e gql.Expr) string {
	var b strings.Builder
	gql.Visit(e, func(x gql.Expr) bool {
		if x != nil {
			b.WriteString(kindOf(x) + " ")
		}
		return true
	})
	return b.String()
}

func jobs(c *Ctx, n int) (out []*job) {
	d := gql.Dictionary{"a": gql.Int, "b": gql.String, "speed": gql.Float, "c": gql.ArrayInt}
	strict := gql.Dictionary{}
	var bad []*Spec
	for i, t := range append([]string{""}, themes...) {
		specs := oracle(randomTexts(c.Seed*71+int64(i), t, n))
		for _, s := range specs {
			if s.R.Lex || len(compare(s)) > 0 {
				continue // that is C02
			}
			j := &job{spec: s, toks: append([]Tok{}, s.Toks...), dict: d, strict: strict}
			fixBOM(s.Text, j.toks)
			if s.R.OK {
				r := realParse(s.Text)
				if r.outcome() != "ok" {
					continue // that is C02
				}
				j.shared = r.Stmt
				// the same calls, alone
				r2 := realParse(s.Text)
				var b strings.Builder
				if guarded("alone", s.Text, func() {
					_ = gql.Format(&b, r2.Stmt)
					j.format = b.String()
					j.check = errString(gql.CheckType(r2.Stmt, d))
					j.refuse = errString(gql.CheckType(r2.Stmt, strict))
					w := &faultWriter{}
					_ = gql.Format(w, r2.Stmt)
					j.writes = w.calls
					j.walk = walkString(r2.Stmt.(gql.Expr))
				}) != "" {
					continue
				}
			}
			out = append(out, j)
		}
		bad = append(bad, cutShort(c, specs)...)
	}
	c.Shuffle(len(bad), func(i, k int) { bad[i], bad[k] = bad[k], bad[i] })
	for i, j := range out {
		j.bad = bad[i*len(bad)/len(out) : (i+1)*len(bad)/len(out)]
		if len(j.bad) == 0 {
			j.bad = bad[:1]
		}
	}
	return
}

// cutShort are rejected texts: statements that end, or go wrong, after each of
// their words.
func cutShort(c *Ctx, specs []*Spec) (out []*Spec) {
	wrong := []string{"", "b", "-", "+", ")", "]", "}", ";", ",", "@", "1", "\"x\"", "and", "not", "..", ":", "when", "point", "%", "\"", "\x00"}
	var texts []string
	for _, s := range specs {
		if !s.R.OK || len(s.Toks) > 60 {
			continue
		}
		for _, t := range s.Toks {
			if c.Intn(3) == 0 {
				u := s.Text[:t.E] + " " + wrong[c.Intn(len(wrong))]
				if usable(u) {
					texts = append(texts, u)
				}
			}
		}
	}
	for _, s := range oracle(texts) {
		if !s.R.OK && len(compare(s)) == 0 {
			out = append(out, s)
		}
	}
	return
}

type burstWriter struct{ n int }

func (w *burstWriter) WriteString(s string) (int, error) {
	if w.n--; w.n < 0 {
		panic("the writer panics")
	}
	return len(s), nil
}

// run makes a call and says what is wrong with what it gives.
func (j *job) run(kind string) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("%s panics: %v", kind, r)
		}
	}()
	text := j.spec.Text
	if !j.spec.R.OK && kind != "scan" && kind != "abandon" && kind != "reject" {
		kind = "parse"
	}
	turn := int(atomic.AddInt32(&j.turn, 1))
	switch kind {
	case "reject":
		b := j.bad[turn%len(j.bad)]
		var r Result
		r.Stmt, r.Err = gql.Parse(b.Text)
		for _, d := range compareResult(b, r) {
			return fmt.Sprintf("Parse of %q: %s", b.Text, d)
		}
	case "fault":
		w := &faultWriter{p: plan{K: 1 + turn%j.writes, Kind: []string{"once", "forever", "part", "full"}[turn%4]}}
		if err := gql.Format(w, j.shared); !errors.Is(err, w.err) || w.after > 0 || !strings.HasPrefix(j.format, w.taken.String()) {
			return fmt.Sprintf("Format, when the writer fails: %v\n%s\nalone:\n%s", err, w.taken.String(), j.format)
		}
	case "burst":
		func() {
			defer func() { recover() }()
			_ = gql.Format(&burstWriter{turn % j.writes}, j.shared)
		}()
	case "refuse":
		if got := errString(gql.CheckType(j.shared, j.strict)); got != j.refuse {
			return fmt.Sprintf("CheckType without a dictionary: %q, alone %q", got, j.refuse)
		}
	case "abort":
		func() {
			defer func() { recover() }()
			n := turn % 7
			gql.Visit(j.shared.(gql.Expr), func(gql.Expr) bool {
				if n--; n < 0 {
					panic("the visitor panics")
				}
				return true
			})
		}()
	case "abandon":
		t := gql.NewTokenizer(strings.NewReader(text))
		for i, w := range j.toks {
			if i == turn%8 {
				break
			}
			if g, _ := oneToken(t); diffToken(w, g) != "" {
				return fmt.Sprintf("Scan, token %d: specified %s, got %s", i+1, tokStr(w), tokStr(g))
			}
		}
	case "parse":
		var r Result
		r.Stmt, r.Err = gql.Parse(text)
		for _, d := range compareResult(j.spec, r) {
			return "Parse: " + d.String()
		}
	case "format":
		var b strings.Builder
		if err := gql.Format(&b, j.shared); err != nil || b.String() != j.format {
			return fmt.Sprintf("Format: %v\n%s\nalone:\n%s", err, b.String(), j.format)
		}
	case "check":
		if got := errString(gql.CheckType(j.shared, j.dict)); got != j.check {
			return fmt.Sprintf("CheckType: %q, alone %q", got, j.check)
		}
	case "walk":
		if got := walkString(j.shared.(gql.Expr)); got != j.walk {
			return fmt.Sprintf("Visit: %q, alone %q", got, j.walk)
		}
	case "scan":
		t := gql.NewTokenizer(strings.NewReader(text))
		for i, w := range j.toks {
			if g, _ := oneToken(t); diffToken(w, g) != "" {
				return fmt.Sprintf("Scan, token %d: specified %s, got %s", i+1, tokStr(w), tokStr(g))
			}
		}
	}
	return ""
}

// overlapping enacts a history: each caller is a goroutine, which begins a call
// when the history says so, and whose end is waited for when the history says so.
func overlapping(js []*job, h []callEvent) (bad string) {
	type caller struct {
		begin chan string
		end   chan string
	}
	cs := map[int]*caller{}
	next := map[int]int{}
	for _, e := range h {
		p := cs[e.P]
		if p == nil {
			p = &caller{make(chan string), make(chan string, 1)}
			cs[e.P] = p
			go func() {
				for k := range p.begin {
					i := strings.IndexByte(k, ' ')
					var n int
					fmt.Sscan(k[:i], &n)
					p.end <- js[n].run(k[i+1:])
				}
			}()
		}
		if e.What == "begin" {
			// callers take the statements in different orders
			n := (next[e.P] * e.P) % len(js)
			next[e.P]++
			p.begin <- fmt.Sprint(n) + " " + e.Kind
		} else if b := <-p.end; b != "" && bad == "" {
			bad = b
		}
	}
	for _, p := range cs {
		close(p.begin)
	}
	return
}

// first makes calls that overlap, each about a text that this process has not
// seen yet: what is set up at the first use is used by several callers.
func first(c *Ctx) {
	var texts []string
	for _, t := range themes {
		// units, names, months, ...: every word of the vocabularies
		for _, f := range families(t, false, false) {
			for _, w := range f.Words {
				texts = append(texts, strings.Join(f.Prefix, " ")+" 1"+w, strings.Join(f.Prefix, " ")+" "+w+" ]")
			}
		}
		sw := c.sweepTexts(t, true)
		c.Shuffle(len(sw), func(i, k int) { sw[i], sw[k] = sw[k], sw[i] })
		if n := c.n(60, 600); len(sw) > n {
			sw = sw[:n]
		}
		texts = append(texts, sw...)
	}
	for _, u := range append(append([]string{}, unitWords...), badUnits...) {
		texts = append(texts, "when a == 1"+u, "when point[1,2]:3"+u, "when a reset after 5"+u)
	}
	texts = append(texts, allKeywords()...)
	var names []string
	for w := range wordLike {
		names = append(names, w)
	}
	sort.Strings(names)
	for _, w := range names {
		texts = append(texts, "when "+w, "when "+strings.ToUpper(w)+" a", "when weekday["+w+"]", "when month["+w+"]", "trigger set "+w+" = 1; when a "+w+" b")
	}
	c.Shuffle(len(texts), func(i, k int) { texts[i], texts[k] = texts[k], texts[i] })
	if n := c.n(1800, 12000); len(texts) > n {
		texts = texts[:n]
	}
	d := gql.Dictionary{"a": gql.Int, "b": gql.String, "speed": gql.Float, "c": gql.ArrayInt}
	const callers = 4
	together := func(text string, f func(k int) string) {
		var got [callers]string
		pan := guarded("overlapping calls", text, func() {
			var wg sync.WaitGroup
			start := make(chan bool)
			for k := 0; k < callers; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					<-start
					defer func() {
						if r := recover(); r != nil {
							got[k] = fmt.Sprintf("panic: %v", r)
						}
					}()
					got[k] = f(k)
				}(k)
			}
			close(start)
			wg.Wait()
		})
		if pan != "" {
			must(fmt.Errorf("first: %s", pan))
		}
		for k := range got {
			if got[k] != "" {
				c.violate("overlapping calls", text, fmt.Sprintf("%d callers at once, at the first call about this text", callers), got[k])
			}
		}
	}
	for _, s := range oracle(texts) {
		var rs [callers]Result
		together(s.Text, func(k int) string {
			rs[k].Stmt, rs[k].Err = gql.Parse(s.Text)
			return ""
		})
		c.count("the first calls about a text", s.describe())
		alone := fmt.Sprint(compareResult(s, realParse(s.Text)))
		for _, r := range rs {
			ds := compareResult(s, r)
			if fmt.Sprint(ds) == alone {
				continue // that is C02
			}
			for _, d := range ds {
				c.violate("overlapping calls", s.Text, "at the first call about this text", "Parse: "+d.String())
			}
		}
		if !s.R.OK {
			continue
		}
		var outs, errs [callers]string
		together(s.Text, func(k int) string {
			var b strings.Builder
			if err := gql.Format(&b, rs[0].Stmt); err != nil {
				return err.Error()
			}
			outs[k] = b.String()
			return ""
		})
		together(s.Text, func(k int) string {
			errs[k] = errString(gql.CheckType(rs[0].Stmt, d)) + walkString(rs[0].Stmt.(gql.Expr))
			return ""
		})
		for k := range outs {
			if outs[k] != outs[0] || errs[k] != errs[0] {
				c.violate("overlapping calls", s.Text, "callers get different results", outs[0], outs[k], errs[0], errs[k])
			}
		}
	}
}

// alikes makes calls about long texts of the same length that differ in one
// character, in turn.
func alikes(c *Ctx) {
	var groups [][]string
	var all []string
	for i := 0; i < c.n(14, 60); i++ {
		text := "when "
		var exprs []string
		for _, t := range append([]string{""}, themes...) {
			for _, r := range randomTexts(c.Seed*83+int64(i), t, 12) {
				if m := plainWhen.FindStringSubmatch(r); m != nil && len(m[1]) < 200 {
					exprs = append(exprs, m[1])
				}
			}
		}
		size := []int{70, 150, 250, 400, 700, 1200}[i%6]
		for len(text) < size && len(exprs) > 0 {
			e := exprs[c.Intn(len(exprs))]
			if realParse(text+"("+e+")").outcome() != "ok" {
				exprs = exprs[1:]
				continue
			}
			text += "(" + e + ") and "
		}
		text += "a == 1"
		group := []string{text}
		for k := 0; k < 7; k++ {
			b := []byte(text)
			at := 5 + c.Intn(len(b)-5)
			for ; at < len(b)-1 && (b[at] <= ' ' || b[at] >= 0x80); at++ {
			}
			switch ch := b[at]; {
			case c.Intn(3) == 0:
				b[at] = '?'
			case ch >= '0' && ch <= '9':
				b[at] = '0' + (ch-'0'+1+byte(c.Intn(8)))%10
			case ch >= 'a' && ch <= 'z':
				b[at] = 'a' + (ch-'a'+1+byte(c.Intn(24)))%26
			default:
				b[at] = "0a(\"?"[c.Intn(5)]
			}
			group = append(group, string(b))
		}
		groups = append(groups, group)
		all = append(all, group...)
	}
	by := map[string]*Spec{}
	for _, s := range oracle(all) {
		by[s.Text] = s
	}
	d := gql.Dictionary{"a": gql.Int, "b": gql.String, "speed": gql.Float, "c": gql.ArrayInt}
	for _, group := range groups {
		checked := map[string]string{}
		before := ""
		for n := 0; n < 60; n++ {
			s := by[group[c.Intn(len(group))]]
			if n%9 == 8 {
				s = by[all[c.Intn(len(all))]]
			}
			if s == nil {
				continue
			}
			r := realParse(s.Text)
			c.count("calls about texts that differ in one character", fmt.Sprintf("%q after %q", s.Text, before))
			ds := compareResult(s, r)
			if k, ok := checked["parse "+s.Text]; !ok {
				checked["parse "+s.Text] = fmt.Sprint(ds)
			} else if k != fmt.Sprint(ds) {
				c.violate("calls one after another", s.Text, "the call before was about "+before, "once: "+k, "now: "+fmt.Sprint(ds))
			}
			if len(ds) > 0 {
				if b := by[before]; b != nil && before != s.Text && len(compareResult(b, r)) == 0 {
					c.violate("calls one after another", s.Text, "the answer is the one about "+before, ds[0].String())
				}
				before = s.Text
				continue // or else that is C02
			}
			before = s.Text
			if r.outcome() != "ok" {
				continue
			}
			var out, chk string
			if guarded("calls", s.Text, func() {
				var b strings.Builder
				_ = gql.Format(&b, r.Stmt)
				out = b.String()
				chk = errString(gql.CheckType(r.Stmt, d)) + walkString(r.Stmt.(gql.Expr))
			}) != "" {
				continue
			}
			if r2 := realParse(out); r2.outcome() == "ok" {
				if ds := diffValues(s.tree(), r2.tree()); ds != nil {
					for _, o := range group {
						if b := by[o]; b != nil && o != s.Text && b.R.OK && diffValues(b.tree(), r2.tree()) == nil {
							c.violate("calls one after another", s.Text, "Format writes the statement "+o, ds[0].String())
						}
					}
				}
			}
			for k, v := range map[string]string{"format ": out, "check ": chk} {
				if w, ok := checked[k+s.Text]; !ok {
					checked[k+s.Text] = v
				} else if w != v {
					c.violate("calls one after another", s.Text, "the call before was about "+before, "once: "+w, "now: "+v)
				}
			}
		}
	}
}

func init() {
	checks["C18"] = func(c *Ctx) {
		first(c)
		apart(c)
		alikes(c)
		// one after another
		hs := heapHistories(c.n(4, 5))
		ps := pairs(c, c.n(30, 120))
		if len(ps) == 0 {
			must(fmt.Errorf("no statements"))
		}
		for i, h := range hs {
			for k := 0; k < c.n(2, 8); k++ {
				replayHeap(c, ps[(i*7+k*3+c.Intn(3))%len(ps)], h, false)
			}
		}
		partHistories(c, append(doubled(c, ps), ps...), c.n(3, 12))
		// overlapping
		js := jobs(c, c.n(40, 150))
		c.Shuffle(len(js), func(i, k int) { js[i], js[k] = js[k], js[i] })
		enact := func(p, k int, early string, each int) {
			var all [][]callEvent
			runTLC("GqlCalls", map[string]string{"GQL_P": fmt.Sprint(p), "GQL_K": fmt.Sprint(k), "GQL_EARLY": early}, func(ln []byte) {
				var v struct {
					H       []callEvent
					Overlap bool
				}
				must(json.Unmarshal(ln, &v))
				all = append(all, v.H)
			})
			for i := 0; i < len(all)*each; i++ {
				h := all[i%len(all)]
				a, b := js[i%len(js)], js[(i*5+1)%len(js)]
				desc := fmt.Sprintf("%v", h)
				bad := ""
				if pan := guarded("overlapping calls", a.spec.Text, func() { bad = overlapping([]*job{a, b}, h) }); pan != "" {
					must(fmt.Errorf("overlapping: %s", pan))
				}
				if p == 1 {
					c.count("calls one after another", desc)
				} else {
					c.count(fmt.Sprintf("overlapping calls of %d callers", p), desc)
				}
				if bad != "" {
					c.violate("overlapping calls", a.spec.Text, "other statement: "+b.spec.Text, "calls: "+desc, bad)
				}
			}
		}
		enact(3, 1, "0", 1)
		enact(2, 2, "0", 1)
		enact(1, c.n(3, 4), "1", c.n(6, 4))
		enact(2, 1, "1", c.n(6, 40))
		alternate(c, js, c.n(30000, 500000))
		// many callers at once
		stress(c, js, time.Duration(c.n(6, 60))*time.Second)
		c.assume = append(c.assume, "the race detector of Go observes the overlapping calls; it ends the run at the first data race")
	}
	checks["C22"] = func(c *Ctx) {
		hs := heapHistories(c.n(5, 6))
		ps := pairs(c, c.n(30, 120))
		if len(ps) == 0 {
			must(fmt.Errorf("no statements"))
		}
		for i, h := range hs {
			replayHeap(c, ps[i%len(ps)], h, true)
		}
		c.varHistories(c.n(400, 6000))
	}
}

// alternate is one long history of one caller: a call that ends early, or any
// other, and another call after it.
func alternate(c *Ctx, js []*job, n int) {
	for done := 0; done < n; done += 1000 {
		var last *job
		bad, kind, before := "", "", ""
		pan := guarded("calls one after another", js[0].spec.Text, func() {
			for i := 0; i < 1000 && bad == ""; i++ {
				j := js[c.Intn(len(js))]
				before, kind = kind, callKinds[c.Intn(len(callKinds))]
				if i%2 == 1 {
					kind = callKinds[c.Intn(2)]
				}
				bad, last = j.run(kind), j
			}
		})
		if pan != "" {
			must(fmt.Errorf("alternate: %s", pan))
		}
		c.traces += 1000
		c.notes["calls one after another, in one long history"] += 1000
		if bad != "" {
			c.violate("calls one after another", last.spec.Text, "after a call of kind "+before, bad)
		}
	}
}

var callKinds = []string{"parse", "format", "check", "walk", "scan", "reject", "fault", "burst", "refuse", "abort", "abandon"}

func stress(c *Ctx, js []*job, d time.Duration) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad, badText, calls := "", "", 0
	pan := guarded("overlapping calls", js[0].spec.Text, func() {
		deadline := time.Now().Add(d)
		for g := 0; g < 8; g++ {
			rng := rand.New(rand.NewSource(c.Seed*8 + int64(g)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				n := 0
				for time.Now().Before(deadline) {
					// callers often meet on one statement
					j := js[rng.Intn(len(js))]
					if rng.Intn(2) == 0 {
						j = js[rng.Intn(3)]
					}
					n++
					if b := j.run(callKinds[rng.Intn(len(callKinds))]); b != "" {
						mu.Lock()
						bad, badText = b, j.spec.Text
						mu.Unlock()
						break
					}
				}
				mu.Lock()
				calls += n
				mu.Unlock()
			}()
		}
		wg.Wait()
	})
	if pan != "" {
		must(fmt.Errorf("stress: %s", pan))
	}
	c.traces += calls
	c.notes["calls of eight callers at once"] += calls
	if bad != "" {
		c.violate("overlapping calls", badText, "eight callers at once", bad)
	}
}

// raced reports the data race that ended the child.
func raced(prop, log string) int {
	th, seed := tierSeed()
	c := newCtx(prop, th, seed)
	_, text := current(scratch)
	func() {
		defer func() {
			c.evidence(1)
			recover()
		}()
		c.count("overlapping calls", text)
		c.violate("data race", text, clip(log, 6000))
	}()
	return 1
}

const raceExit = 66

func init() { os.Setenv("GORACE", "halt_on_error=1 exitcode=66") }
