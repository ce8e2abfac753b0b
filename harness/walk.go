package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"

	gql "github.com/mmadfox/go-geoql-parser"
)

// call is a call of Visit: visitor, kind, first and last byte.
type call struct {
	W    int
	K    string
	P, E int
}

func (e call) String() string {
	if e.K == "nil" {
		return fmt.Sprintf("%d:nil", e.W)
	}
	return fmt.Sprintf("%d:%s[%d..%d]", e.W, e.K, e.P, e.E)
}

func kindOf(e gql.Expr) (k string) {
	switch t := e.(type) {
	case nil:
		return "nil"
	case *gql.Assign:
		return "assign"
	case *gql.Ident:
		return "ident"
	default:
		if isNil(t) {
			return "typed nil"
		}
		return proj(e).K
	}
}

// recorder makes the given choices and records the calls.
type recorder struct {
	dec   []int
	used  int
	calls []call
	extra bool // more calls than choices
	blind bool // positions say nothing
}

type recVisitor struct {
	r  *recorder
	id int
}

func (r *recorder) record(id int, e gql.Expr) (choice int) {
	if len(r.calls) > 100000 {
		panic("Walk does not end")
	}
	k := kindOf(e)
	c := call{W: id, K: k}
	if k != "nil" && k != "typed nil" && !r.blind {
		c.P, c.E = int(e.Pos()), int(e.End())
	}
	r.calls = append(r.calls, c)
	if e == nil {
		return 0
	}
	if r.used >= len(r.dec) {
		r.extra = true
		return 0
	}
	r.used++
	return r.dec[r.used-1]
}

func (v *recVisitor) Visit(e gql.Expr) gql.Visitor {
	n := len(v.r.calls) + 1
	switch v.r.record(v.id, e) {
	case 1:
		return v
	case 2:
		return &recVisitor{v.r, n}
	}
	return nil
}

// parts are the parts of a node in the order of the text.
func parts(e gql.Expr) (out []gql.Expr) {
	switch t := e.(type) {
	case *gql.Selector:
		return t.Props
	case *gql.Range:
		return []gql.Expr{t.Low, t.High}
	case *gql.ParenExpr:
		return []gql.Expr{t.Expr}
	case *gql.BinaryExpr:
		return []gql.Expr{t.Left, t.Right}
	case *gql.ArrayTyp:
		return t.List
	case *gql.GeometryPointTyp:
		if t.Radius != nil {
			return []gql.Expr{t.Radius}
		}
	case *gql.GeometryLineTyp:
		if t.Margin != nil {
			return []gql.Expr{t.Margin}
		}
	case *gql.GeometryMultiObjectTyp:
		return t.Val
	case *gql.GeometryCollectionTyp:
		return t.Objects
	case *gql.Assign:
		return []gql.Expr{t.Left, t.Right}
	case *gql.Trigger:
		for _, v := range t.Vars {
			out = append(out, v)
		}
		for _, x := range []gql.Expr{t.When, t.RepeatCount, t.RepeatInterval, t.ResetAfter} {
			if !isNil(x) {
				out = append(out, x)
			}
		}
	}
	return
}

// share puts one node in the places of two parts of the same kind, next to each
// other and without parts of their own.
func share(e gql.Expr) (done bool) {
	alike := func(a, b gql.Expr) bool {
		return !isNil(a) && !isNil(b) && reflect.TypeOf(a) == reflect.TypeOf(b) && len(parts(a)) == 0 && len(parts(b)) == 0
	}
	list := func(l []gql.Expr) {
		for i := 1; i < len(l); i++ {
			if alike(l[i-1], l[i]) {
				l[i] = l[i-1]
				done = true
			}
		}
	}
	switch t := e.(type) {
	case *gql.Range:
		if alike(t.Low, t.High) {
			t.High, done = t.Low, true
		}
	case *gql.BinaryExpr:
		if alike(t.Left, t.Right) {
			t.Right, done = t.Left, true
		}
	case *gql.Trigger:
		for i := 1; i < len(t.Vars); i++ {
			if alike(t.Vars[i-1].Right, t.Vars[i].Right) {
				t.Vars[i], done = t.Vars[i-1], true
			}
		}
		if alike(t.RepeatInterval, t.ResetAfter) {
			t.ResetAfter, done = t.RepeatInterval, true
		}
	case *gql.Selector:
		list(t.Props)
	case *gql.ArrayTyp:
		list(t.List)
	case *gql.GeometryMultiObjectTyp:
		list(t.Val)
	case *gql.GeometryCollectionTyp:
		list(t.Objects)
	}
	for _, x := range parts(e) {
		done = share(x) || done
	}
	return
}

func (c *Ctx) walkTexts(kind string, texts []string, decs, paths [][]int) {
	if len(texts) == 0 {
		return
	}
	shared := kind == "one node in two places"
	vals := make([]interface{}, len(texts))
	stmts := make([]gql.Statement, len(texts))
	for i, t := range texts {
		if decs[i] == nil {
			decs[i] = []int{}
		}
		if len(paths) <= i {
			paths = append(paths, []int{})
		}
		vals[i] = map[string]interface{}{"c": chars(t), "d": decs[i], "p": paths[i]}
	}
	specs := oracle(texts)
	for i, s := range specs {
		r := realParse(s.Text)
		if r.outcome() == "ok" && s.R.OK && len(compare(s)) == 0 {
			if !shared || share(r.Stmt.(gql.Expr)) {
				stmts[i] = r.Stmt
			}
		}
	}
	in := writeJSON("walks.json", vals)
	runTLC("GqlWalk", map[string]string{"GQL_IN": in}, func(ln []byte) {
		var v struct {
			I int
			D []int
			E [][4]interface{}
		}
		must(json.Unmarshal(ln, &v))
		s := specs[v.I-1]
		if stmts[v.I-1] == nil {
			return // Parse is not what is checked here
		}
		st := stmts[v.I-1].(gql.Expr)
		for _, j := range paths[v.I-1] {
			if ps := parts(st); len(ps) > 0 {
				st = ps[j%len(ps)]
			}
		}
		var want []call
		two := true
		for _, e := range v.E {
			w := call{W: int(e[0].(float64)), K: e[1].(string)}
			if w.K != "nil" && !shared {
				w.P, w.E = s.at(int(e[2].(float64)), false), s.at(int(e[3].(float64)), true)
			}
			want = append(want, w)
		}
		for _, d := range v.D {
			two = two && d < 2
		}
		c.count(kind, fmt.Sprintf("%s: choices %v, calls %v", s.Text, v.D, want))
		c.oneWalk("Walk", s.Text, v.D, want, shared, func(r *recorder) { gql.Walk(&recVisitor{r, 0}, st) })
		if two {
			c.count(kind+", Visit", s.Text)
			c.oneWalk("Visit", s.Text, v.D, want, shared, func(r *recorder) {
				gql.Visit(st, func(e gql.Expr) bool { return r.record(0, e) == 1 })
			})
		}
	})
}

func (c *Ctx) oneWalk(what, text string, dec []int, want []call, blind bool, run func(*recorder)) {
	r := &recorder{dec: dec, blind: blind}
	pan := guarded(what, text, func() { run(r) })
	if pan == "" && !r.extra && fmt.Sprint(r.calls) == fmt.Sprint(want) {
		return
	}
	c.violate("calls", text, what+" makes other calls than specified", fmt.Sprintf("choices %v (0 nil, 1 itself, 2 a new visitor)", dec),
		fmt.Sprintf("specified: %v", want), fmt.Sprintf("made:      %v", r.calls), pan)
}

// small statements, for all choices
var smallTexts = []string{
	"when a", "when a:1", "when a:1,2", "when 1 .. 1", "when a > a", "when a:b,b", "when [@x,@x,@x]", "when collection[point[1,2],point[1,2]]", "when a repeat 3 every 4s reset after 4s", "trigger set x=1; y=1; when a", "when 1 .. 2", "when (a)", "when a+b", "when [1,2]", "when point[1,2]:3km",
	"when point[1,2]", "when line[[1,2],[3,4]]:2km", "when line[[1,2],[3,4]]", "when polygon[[[1,2]]]", "when multipoint[point[1,2]]",
	"when multipoint[point[1,2]:1km]", "when collection[point[1,2],line[[1,2]]]", "when a repeat 3", "when a repeat 3 every 10s",
	"when a reset after 1h", "when a repeat 1 every 2s reset after 3s", "trigger set x=1; when a", "trigger set x=1; y=2; when a",
	"when a{*}", "when *", "when @x", "when date[2022-02-03,2022-02-04]", "when date[2022-02-03 .. 2022-02-04]",
	"when weekday[mon]", "when \"s\"", "when true", "when 1kph", "when 1s", "when -1C", "when 2bar", "when 20%", "when 2.5", "when month[jan]", "when time[1:02]",
	"when not_a", "when [@x,@y]", "when [a:1]", "when a and b or c", "when a and (b)",
}

func init() {
	checks["C13"] = func(c *Ctx) {
		rng := rand.New(rand.NewSource(c.Seed * 17))
		small := append([]string{}, smallTexts...)
		if c.Thorough {
			small = append(small, "when a and b or c < d", "trigger set x=[1,2]; when a repeat 1 every 2s reset after 3s",
				"when collection[point[1,2]:1km, multiline[line[[1,2]]:2km]]", "when a:b:1,c in [1 .. 2, 3 .. 4]", "when ((a+b)*c) nearby @x")
		}
		c.walkTexts("all choices", small, make([][]int, len(small)), nil)
		// the same from every node
		var part []string
		var paths [][]int
		for _, t := range small {
			if r := realParse(t); r.outcome() == "ok" {
				var all func(e gql.Expr, path []int)
				all = func(e gql.Expr, path []int) {
					for i, x := range parts(e) {
						p := append(append([]int{}, path...), i)
						part, paths = append(part, t), append(paths, p)
						all(x, p)
					}
				}
				all(r.Stmt.(gql.Expr), nil)
			}
		}
		c.walkTexts("all choices, from a part", part, make([][]int, len(part)), paths)
		c.walkTexts("one node in two places", small, make([][]int, len(small)), nil)
		// big trees
		var big []string
		for _, t := range themes {
			n := 0
			for _, x := range c.sweepTexts(t, false) {
				if len(x) < c.n(700, 3000) && c.Intn(c.n(100, 40)) == 0 || len(x) < 4000 && len(x) > 700 && n < c.n(8, 60) {
					big = append(big, x)
					if len(x) > 700 {
						n++
					}
				}
			}
		}
		decs := make([][]int, len(big))
		paths = make([][]int, len(big))
		for i := range decs {
			decs[i] = [][]int{{1}, {1}, {2}, {1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 0, 1}, {2, 2, 2, 2, 1, 2, 2, 0}}[rng.Intn(5)]
			paths[i] = []int{}
		}
		c.walkTexts("big", big, decs, paths)
		n := c.n(3500, 120000)
		for done := 0; done < n; done += 20000 {
			k := n - done
			if k > 20000 {
				k = 20000
			}
			var texts []string
			for i, t := range append([]string{""}, themes...) {
				texts = append(texts, randomTexts(c.Seed*32452843+int64(done*7+i), t, k/7)...)
			}
			if done == 0 {
				for i := 0; i < 8; i++ {
					texts = append(texts, corpus...)
				}
			}
			decs := make([][]int, len(texts))
			for i := range decs {
				m := 1 + rng.Intn(12)
				for j := 0; j < m; j++ {
					d := 1 + rng.Intn(2)
					if rng.Intn(6) == 0 {
						d = 0
					}
					decs[i] = append(decs[i], d)
				}
				switch rng.Intn(4) {
				case 0:
					decs[i] = []int{1}
				case 1:
					decs[i] = []int{2}
				}
			}
			paths := make([][]int, len(texts))
			for i := range paths {
				paths[i] = []int{}
				for rng.Intn(3) == 0 {
					paths[i] = append(paths[i], rng.Intn(4))
				}
			}
			c.walkTexts("chosen", texts, decs, paths)
			few := len(texts) / 3
			c.walkTexts("one node in two places", texts[:few], decs[:few], paths[:few])
		}
	}
}
