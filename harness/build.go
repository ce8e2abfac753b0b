package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	gql "github.com/mmadfox/go-geoql-parser"
)

// Statements that a caller builds or changes field by field (GqlBuild.tla).

type change struct {
	O string `json:"o"`
	P []int  `json:"p"`
	X int    `json:"x"`
}

func (e change) String() string { return fmt.Sprintf("%s %v %d", e.O, e.P, e.X) }

type buildScript struct {
	C []string `json:"c"`
	E []change `json:"e"`
}

// slot is a place for an expression in a node.
type slot struct {
	get func() gql.Expr
	set func(gql.Expr)
}

func exprSlot(p *gql.Expr) slot {
	return slot{func() gql.Expr { return *p }, func(e gql.Expr) { *p = e }}
}

func slots(e gql.Expr) (out []slot) {
	list := func(l []gql.Expr) {
		for i := range l {
			out = append(out, exprSlot(&l[i]))
		}
	}
	switch t := e.(type) {
	case *gql.Selector:
		list(t.Props)
	case *gql.Range:
		out = []slot{exprSlot(&t.Low), exprSlot(&t.High)}
	case *gql.ParenExpr:
		out = []slot{exprSlot(&t.Expr)}
	case *gql.BinaryExpr:
		out = []slot{exprSlot(&t.Left), exprSlot(&t.Right)}
	case *gql.ArrayTyp:
		list(t.List)
	case *gql.GeometryMultiObjectTyp:
		list(t.Val)
	case *gql.GeometryCollectionTyp:
		list(t.Objects)
	case *gql.Trigger:
		for _, v := range t.Vars {
			out = append(out, exprSlot(&v.Right))
		}
		for _, p := range []*gql.Expr{&t.When, &t.RepeatCount, &t.RepeatInterval, &t.ResetAfter} {
			if !isNil(*p) {
				out = append(out, exprSlot(p))
			}
		}
	}
	return
}

func slotAt(tr *gql.Trigger, path []int) (s slot) {
	s.get = func() gql.Expr { return tr }
	for _, i := range path {
		s = slots(s.get())[i-1]
	}
	return
}

var buildOps = []gql.Token{gql.OR, gql.EQL, gql.MUL, gql.AND, gql.LSS, gql.LEQ, gql.GTR, gql.GEQ, gql.LEQL, gql.LNEQ,
	gql.NOT_EQ, gql.IN, gql.NOT_IN, gql.INTERSECTS, gql.NOT_INTERSECTS, gql.NEARBY, gql.NOT_NEARBY, gql.ADD, gql.SUB,
	gql.QUO, gql.REM}

var precOf = map[gql.Token]int{gql.OR: 1, gql.AND: 2, gql.ADD: 4, gql.SUB: 4, gql.MUL: 5, gql.QUO: 5, gql.REM: 5}

var otherUnit = map[gql.Unit]gql.Unit{gql.Kph: gql.Mph, gql.Mph: gql.Kph, gql.Celsius: gql.Fahrenheit,
	gql.Fahrenheit: gql.Celsius, gql.Kilometer: gql.Meter, gql.Meter: gql.Kilometer, gql.Bar: gql.Psi,
	gql.Psi: gql.Bar, gql.AM: gql.PM, gql.PM: gql.AM}

var buildNames = []string{"x", "X", "n_9", "wert_1"}

type builder struct {
	c     *Ctx
	nops  int
	frags []string
	how   int    // variants of how an edit is made
	said  string // an unspecified refusal
	// Parse does not give the specified operands to build with
	unsure bool
}

func (b *builder) frag(x int) gql.Expr {
	r := realParse("when " + b.frags[x%len(b.frags)])
	if r.outcome() != "ok" {
		return nil
	}
	return r.Stmt.(*gql.Trigger).When
}

func (b *builder) paren(e gql.Expr) gql.Expr { return &gql.ParenExpr{Expr: e} }

func without(l []gql.Expr, i int, fresh bool) []gql.Expr {
	if fresh {
		l = append([]gql.Expr{}, l...)
	}
	return append(l[:i], l[i+1:]...)
}

func reverse(l []gql.Expr) {
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
}

// do makes the edit in the tree.
func (b *builder) do(tr *gql.Trigger, e change, last bool) {
	// a part that stands twice in the tree must not be changed afterwards
	again := func(x gql.Expr) gql.Expr {
		if last && b.how == 0 {
			return x
		}
		return rebuilt(reflect.ValueOf(x), false).Interface().(gql.Expr)
	}
	s := slotAt(tr, e.P)
	x := e.X
	fresh := b.how%2 == 0
	switch e.O {
	case "put":
		s.set(b.frag(x))
	case "same":
		switch t := s.get().(type) {
		case *gql.Range:
			t.High = again(t.Low)
		case *gql.BinaryExpr:
			t.Right = again(t.Left)
		}
	case "wrap":
		s.set(b.paren(s.get()))
	case "join":
		tr.When = &gql.BinaryExpr{Left: b.paren(tr.When), Op: buildOps[x%b.nops], Right: b.frag(x / b.nops)}
	case "before":
		tr.When = &gql.BinaryExpr{Left: b.frag(x / b.nops), Op: buildOps[x%b.nops], Right: b.paren(tr.When)}
	case "twice":
		l, r := b.paren(tr.When), b.paren(again(tr.When))
		tr.When = &gql.BinaryExpr{Left: l, Op: buildOps[x%b.nops], Right: r}
	case "count":
		tr.RepeatCount = nil
		if x != 0 {
			tr.RepeatCount = b.frag(x)
		}
	case "every":
		tr.RepeatInterval = nil
		if x != 0 {
			tr.RepeatInterval = b.frag(x)
		}
	case "after":
		tr.ResetAfter = nil
		if x != 0 {
			tr.ResetAfter = b.frag(x)
		}
	case "setvar":
		a := &gql.Assign{Left: &gql.Ident{Val: buildNames[x%4]}, Right: b.frag(x)}
		if fresh {
			if err := tr.SetVar(a); err != nil {
				b.said = fmt.Sprintf("SetVar(%s): %v", a.Left.Val, err)
			}
		} else {
			tr.Vars = append(tr.Vars, a)
		}
	case "unset":
		i := x % len(tr.Vars)
		l := tr.Vars
		if fresh {
			l = append([]*gql.Assign{}, l...)
		}
		tr.Vars = append(l[:i], l[i+1:]...)
	case "rename":
		tr.Vars[x%len(tr.Vars)].Left.Val = buildNames[x%4]
	case "more":
		switch t := s.get().(type) {
		case *gql.ArrayTyp:
			t.List = append(t.List, again(t.List[x%len(t.List)]))
		case *gql.GeometryMultiObjectTyp:
			t.Val = append(t.Val, again(t.Val[x%len(t.Val)]))
		case *gql.GeometryCollectionTyp:
			t.Objects = append(t.Objects, again(t.Objects[x%len(t.Objects)]))
		case *gql.Selector:
			t.Args[[]string{"zz", "d 1", "A"}[x%3]] = struct{}{}
		case *gql.GeometryPointTyp:
			t.Radius = b.frag(x).(*gql.DistanceTyp)
		case *gql.GeometryLineTyp:
			t.Margin = b.frag(x).(*gql.DistanceTyp)
		}
	case "less":
		switch t := s.get().(type) {
		case *gql.ArrayTyp:
			t.List = without(t.List, x%len(t.List), fresh)
		case *gql.GeometryMultiObjectTyp:
			t.Val = without(t.Val, x%len(t.Val), fresh)
		case *gql.GeometryCollectionTyp:
			t.Objects = without(t.Objects, x%len(t.Objects), fresh)
		case *gql.Selector:
			t.Props = nil
			if fresh {
				t.Props = []gql.Expr{}
			}
		case *gql.GeometryLineTyp:
			i := x % len(t.Val)
			t.Val = append(t.Val[:i], t.Val[i+1:]...)
		case *gql.GeometryPolygonTyp:
			i := x % len(t.Val)
			t.Val = append(t.Val[:i], t.Val[i+1:]...)
		}
	case "turn":
		switch t := s.get().(type) {
		case *gql.ArrayTyp:
			reverse(t.List)
		case *gql.GeometryMultiObjectTyp:
			reverse(t.Val)
		case *gql.GeometryCollectionTyp:
			reverse(t.Objects)
		case *gql.BinaryExpr:
			t.Left, t.Right = t.Right, t.Left
		case *gql.Trigger:
			for i, j := 0, len(t.Vars)-1; i < j; i, j = i+1, j-1 {
				t.Vars[i], t.Vars[j] = t.Vars[j], t.Vars[i]
			}
		case *gql.GeometryLineTyp:
			for i, j := 0, len(t.Val)-1; i < j; i, j = i+1, j-1 {
				t.Val[i], t.Val[j] = t.Val[j], t.Val[i]
			}
		}
	case "change":
		b.change(s.get(), x)
	default:
		must(fmt.Errorf("edit %v", e))
	}
}

var amounts = []float64{40, 2.5, 7, 0.125}

func (b *builder) change(e gql.Expr, x int) {
	measure := func(v *float64, u *gql.Unit) {
		if x%2 == 0 {
			*u = otherUnit[*u]
		} else {
			*v = amounts[x%4]
		}
	}
	switch t := e.(type) {
	case *gql.IntTyp:
		t.Val = []int{7, 0, 9223372036854775807, 12}[x%4]
	case *gql.StringTyp:
		t.Val = []string{"", "s t", "q", "x"}[x%4]
	case *gql.BooleanTyp:
		t.Val = !t.Val
	case *gql.FloatTyp:
		t.Val = []float64{0.25, -3.75, 12, 100.5}[x%4]
	case *gql.PercentTyp:
		t.Val = amounts[x%4]
	case *gql.DurationTyp:
		t.Val = []time.Duration{1500 * time.Millisecond, 90 * time.Minute, 90 * time.Second, 1}[x%4]
	case *gql.PressureTyp:
		measure(&t.Val, &t.U)
	case *gql.DistanceTyp:
		measure(&t.Val, &t.U)
	case *gql.SpeedTyp:
		measure(&t.Val, &t.U)
	case *gql.TemperatureTyp:
		measure(&t.Val, &t.U)
	case *gql.TimeTyp:
		if t.U == gql.Unknown {
			t.Seconds = x % 60
		} else {
			t.U = otherUnit[t.U]
		}
	case *gql.DateTyp:
		t.Year, t.Day = 2022+x%100, 1+x%28
	case *gql.WeekdayTyp:
		t.Val = x % 7
	case *gql.MonthTyp:
		t.Val = 1 + x%12
	case *gql.Selector:
		if len(t.Args) == 0 || x%2 == 0 {
			t.Ident = []string{"si", "renamed", "ss"}[x%3]
		} else {
			t.Wildcard = !t.Wildcard
		}
	case *gql.Ref:
		t.ID = buildNames[x%4]
	case *gql.GeometryPointTyp:
		if t.Radius != nil {
			t.Radius = nil
		} else {
			t.Val[0], t.Val[1] = t.Val[1], t.Val[0]
		}
	case *gql.GeometryLineTyp:
		if t.Margin != nil {
			t.Margin = nil
		} else {
			t.Val = append(t.Val, [2]float64{0.5, -12})
		}
	case *gql.GeometryPolygonTyp:
		if x%2 == 0 {
			t.Val = append(t.Val, [][2]float64{{0.5, -12}, {3, 4}})
		} else {
			t.Val[0] = append(t.Val[0], [2]float64{-0.5, 12})
		}
	case *gql.BinaryExpr:
		prec := func(o gql.Token) int {
			if p, ok := precOf[o]; ok {
				return p
			}
			return 3
		}
		var q []gql.Token
		for _, o := range buildOps {
			if prec(o) == prec(t.Op) {
				q = append(q, o)
			}
		}
		t.Op = q[x%len(q)]
	}
}

// rebuilt copies the exported fields, and nothing else. What is empty is nil
// in the copy, or the other way round.
func rebuilt(v reflect.Value, flip bool) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		for i := 0; i < v.Elem().NumField(); i++ {
			f := v.Type().Elem().Field(i)
			if f.PkgPath != "" || f.Type == reflect.TypeOf(gql.Pos(0)) {
				continue
			}
			n.Elem().Field(i).Set(rebuilt(v.Elem().Field(i), flip))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		return rebuilt(v.Elem(), flip)
	case reflect.Slice:
		if v.Len() == 0 {
			if flip == v.IsNil() {
				return reflect.MakeSlice(v.Type(), 0, 3)
			}
			return reflect.Zero(v.Type())
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+1)
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(rebuilt(v.Index(i), flip))
		}
		return n
	case reflect.Map:
		if v.Len() == 0 {
			if flip == v.IsNil() {
				return reflect.MakeMap(v.Type())
			}
			return reflect.Zero(v.Type())
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, v.MapIndex(k))
		}
		return n
	}
	return v
}

// seen is what the calls give for a statement.
type seen struct {
	out, ferr, terr, pan string
	pre                  []string
}

func observe(text string, st gql.Statement, d map[string]string) (o seen) {
	var ferr, terr error
	o.out, ferr, o.pan = realFormat(text, st)
	o.ferr = fmt.Sprint(ferr)
	dict := goDict(d)
	o.pan += guarded("CheckType", text, func() { terr = gql.CheckType(st, dict) })
	o.terr = fmt.Sprint(terr)
	o.pan += guarded("Visit", text, func() {
		gql.Visit(st.(gql.Expr), func(e gql.Expr) bool {
			if e == nil {
				o.pre = append(o.pre, ".")
				return false
			}
			o.pre = append(o.pre, kindOf(e))
			return true
		})
	})
	return
}

var buildDict = map[string]string{"si": "Int", "sf": "Float", "ss": "String", "sb": "Boolean",
	"ai": "ArrayInt", "af": "ArrayFloat", "as": "ArrayString", "bad": "Other"}

func renderWords(ws []string) string {
	var b strings.Builder
	for _, w := range ws {
		if w[0] == '#' {
			w = w[1:]
			if len(w) <= 9 {
				w = strings.Repeat("0", 10-len(w)) + w
			}
			w = w[:len(w)-9] + "." + w[len(w)-9:] + "s"
		}
		b.WriteString(w + " ")
	}
	return b.String()
}

// built replays the edits and compares the results.
func (b *builder) built(kind, text string, es []change, want *N, words []string, bad string, pre []string) {
	c := b.c
	plain := renderWords(words)
	c.count(kind, fmt.Sprintf("%s: %v => %s", text, es, plain))
	like := realParse(plain)
	if like.outcome() != "ok" || len(valueDiffs(want, like.tree())) > 0 {
		return // Parse is not what is checked here
	}
	exp := observe(plain, like.Stmt, buildDict)
	say := func(class string, detail ...string) {
		c.violate(class, text, append([]string{fmt.Sprintf("changed by the caller: %v", es), "to the statement " + plain}, detail...)...)
	}
	verdict := func(how string, o seen) {
		if o.pan != "" {
			say("panic", how, o.pan)
		}
		if o.out != exp.out || o.ferr != exp.ferr {
			say("Format", how, "written: "+o.out+" "+o.ferr, "written of the same statement, parsed: "+exp.out+" "+exp.ferr)
		}
		if (o.terr == "<nil>") != (bad == "") || bad != "" && !strings.Contains(o.terr, " "+opText[bad]+" ") {
			say("CheckType", how, "specified: "+bad, "reported: "+o.terr)
		}
		if strings.Join(o.pre, " ") != strings.Join(pre, " ") {
			say("Walk", how, fmt.Sprintf("specified: %v", pre), fmt.Sprintf("visited: %v", o.pre))
		}
	}
	for v := 0; v < 3; v++ { // observed on the way, or not; or in a walk
		b.how, b.said = v, ""
		r := realParse(text)
		if r.outcome() != "ok" {
			return
		}
		tr := r.Stmt.(*gql.Trigger)
		var pan string
		for i, e := range es {
			if v == 1 {
				observe(text, tr, buildDict)
			}
			e, last := e, i == len(es)-1
			if v == 2 && last {
				var got []string
				pan = guarded("an edit in a walk", text, func() { got = b.whileWalking(tr, e) })
				if pan == "" && b.said == "" && len(valueDiffs(want, proj(tr))) == 0 && strings.Join(got, " ") != strings.Join(pre, " ") {
					say("Walk", "(changed by the visitor, when it is called for the part that is changed)",
						fmt.Sprintf("specified: %v", pre), fmt.Sprintf("visited: %v", got))
				}
				break
			}
			pan = guarded("an edit", text, func() { b.do(tr, e, last) })
			if pan != "" {
				break
			}
		}
		var ds []Diff
		if pan == "" {
			ds = valueDiffs(want, proj(tr))
		}
		if pan != "" || len(ds) > 0 {
			if b.unsure {
				return
			}
			say("fields", pan, b.said, fmt.Sprint(ds))
		}
		how := []string{"(the fields of the parsed statement were changed)", "(the same, with calls between the changes)",
			"(the same, the last one by a visitor)"}[v]
		verdict(how, observe(plain, tr, buildDict))
		st := rebuilt(reflect.ValueOf(tr), v == 1).Interface().(gql.Statement)
		verdict("(built from nothing but the exported fields)", observe(plain, st, buildDict))
		verdict(how+", again", observe(plain, tr, buildDict))
	}
}

// whileWalking makes an edit in a walk, before the parts that it is about are
// looked at: when the visitor is called for the node that is changed, or, if
// another takes its place, for its parent.
func (b *builder) whileWalking(tr *gql.Trigger, e change) (pre []string) {
	p := e.P
	if e.O == "put" || e.O == "wrap" {
		p = p[:len(p)-1]
	}
	at := slotAt(tr, p).get()
	done := false
	gql.Visit(tr, func(x gql.Expr) bool {
		if x == nil {
			pre = append(pre, ".")
			return false
		}
		if x == at && !done {
			done = true
			b.do(tr, e, true)
		}
		pre = append(pre, kindOf(x))
		return true
	})
	return
}

func (c *Ctx) builds(kind string, scripts []buildScript, frags []string, edits int) {
	if len(scripts) == 0 {
		return
	}
	b := &builder{c: c, nops: 3, frags: frags}
	if edits == 1 {
		b.nops = len(buildOps)
	}
	var vals, fs []interface{}
	var texts []string
	for _, x := range scripts {
		texts = append(texts, unchars(x.C))
	}
	var right []buildScript
	for i, s := range oracle(texts) {
		if s.R.OK && len(compare(s)) == 0 {
			right = append(right, scripts[i])
		}
	}
	scripts = right
	texts = nil
	for _, f := range frags {
		texts = append(texts, "when "+f)
	}
	for _, s := range oracle(texts) {
		b.unsure = b.unsure || len(compare(s)) > 0
	}
	for i := range scripts {
		if scripts[i].E == nil {
			scripts[i].E = []change{}
		}
		vals = append(vals, scripts[i])
	}
	for _, f := range frags {
		fs = append(fs, map[string]interface{}{"c": chars("when " + f)})
	}
	env := map[string]string{"GQL_BUILD": writeJSON("build.json", vals), "GQL_FRAG": writeJSON("frag.json", fs),
		"GQL_EDITS": fmt.Sprint(edits)}
	runTLC("GqlBuild", env, func(ln []byte) {
		var v struct {
			H   int
			Es  []change
			T   json.RawMessage
			W   []string
			Bad string
			Pre []string
		}
		must(json.Unmarshal(ln, &v))
		want := specTree(v.T, func(int, bool) int { return 0 })
		b.built(kind, unchars(scripts[v.H-1].C), v.Es, want, v.W, v.Bad, v.Pre)
	})
}

var buildFrags = []string{"1", "-2.5", `"s"`, "true", "20%", "-2Bar", "3km", "4kph", "-5C", "+7F", "10s", "1h30m", "*", "si",
	`sf{"x","y"}:1km`, `b{*,"q"}`, "ss:1,2", "point[1,2]:3km", "point[-1.5,2]", "line[[1,2],[3,4]]", "line[[1,2],[3,4]]:2M",
	"polygon[[[1,2],[3,4]],[[5,6]]]", "multipoint[point[1,2],point[3,4]]", "multiline[line[[1,2]]]",
	"multipolygon[polygon[[[1,2]]]]", "collection[point[1,2], multipoint[point[3,4]]]", "[1,2]", "[1.5]", `["s","t"]`,
	"[si,ai:1]", "[@vi,@vf]", "[1 .. 2, 3 .. 4]", "1 .. 2", "si .. 5kph", "@vi", "date[2022-02-03]",
	"time[1:02am .. 3:04PM]", "time[11:22]", "weekday[sun,mon]", "month[jan .. feb]", "(si)", "(a and b or c)"}

var buildBases = []string{
	"when a", "when a == 1 and b in [1,2]", "when (a or b) and c", "when -5C < t + 7F",
	"trigger set vi = 1; vf=[1.5]; when @vi + si*2 > 3 repeat 2 every 5s reset after 1h",
	`trigger set p = point[1,2]:3km; c = collection[line[[1,2],[3,4],[5,6]]:1M, polygon[[[1,2],[3,4]],[[5,6]]]]; when a{*,"d"}:1,2 nearby @p`,
	"when date[2022-02-03,2022-02-04] == d or w in weekday[sun .. fri] and t in time[11:22, 1:02PM]",
	`when "s" + ss == [ "t", "u" ] or [si:1, ai] in 1kph .. 2kph repeat 3`, "when x{\"a\",\"b\"} and not_b reset after 10s",
	"when multipoint[point[1,2]:1km, point[3,4]] intersects @vg",
}

func init() {
	checks["C24"] = func(c *Ctx) {
		all := func(texts []string) (out []buildScript) {
			for _, t := range texts {
				out = append(out, buildScript{C: chars(t)})
			}
			return
		}
		c.builds("one edit", all(buildBases), buildFrags, 1)
		two := []string{"when a", "trigger set x = 1; when a + 2", `when a{"x"} in [1,2] repeat 1`}
		few := []string{"1", "(a or @x)", "10s"}
		if c.Thorough {
			two = append(two, buildBases...)
			few = append(few, "point[1,2]:3km", "[1,2]", "@vi", "ss:1")
		}
		c.builds("two edits", all(two), few, 2)
		// many edits of any statements
		n := c.n(4000, 100000)
		what := ww("put put change change change more less turn same wrap join before twice count every after setvar unset rename")
		for done := 0; done < n; done += 20000 {
			k := n - done
			if k > 20000 {
				k = 20000
			}
			var texts []string
			for i, t := range append([]string{""}, themes...) {
				texts = append(texts, randomTexts(c.Seed*49979687+int64(done*7+i), t, k/7)...)
			}
			texts = append(texts, corpus...)
			var sc []buildScript
			for _, t := range texts {
				if len(t) > 2000 {
					continue
				}
				x := buildScript{C: chars(t)}
				m := 1 + c.Intn(4)
				if c.Intn(4) == 0 {
					m = 1 + c.Intn(25)
				}
				for i := 0; i < m; i++ {
					e := change{O: what[c.Intn(len(what))], X: c.Intn(21 * len(buildFrags)), P: []int{}}
					if c.Intn(5) == 0 {
						e.X = c.Intn(2)
					}
					if e.O == "twice" && c.Intn(3) > 0 {
						continue
					}
					for c.Intn(4) > 0 {
						e.P = append(e.P, c.Intn(12))
					}
					x.E = append(x.E, e)
				}
				if len(x.E) > 0 {
					sc = append(sc, x)
				}
			}
			c.builds("many edits", sc, buildFrags, 1)
		}
		oddValues(c)
	}
}
