package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
)

// Every part of a statement is a variable of its own (GqlParts.tla):
// what is assigned to one is found there, and there only.

// parter assigns different values to all parts of a value, and looks whether
// they are there.
type parter struct {
	n     int64
	look  bool
	bad   string
	depth int
}

func (p *parter) walk(v reflect.Value, path string) {
	if p.bad != "" {
		return
	}
	if p.depth++; p.depth > 5000 {
		p.bad = path + ": the parts have no end"
	}
	defer func() { p.depth-- }()
	differs := func(is bool) {
		if p.look && !is {
			p.bad = fmt.Sprintf("%s is %v, which was not assigned to it", path, v)
		}
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			p.walk(v.Elem(), path)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				p.walk(v.Field(i), path+"."+v.Type().Field(i).Name)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			p.walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
		}
		if v.Kind() == reflect.Slice && !p.look {
			// what the caller appends does not get into another part
			reflect.Append(v, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Map:
		if v.IsNil() || v.Type().Key().Kind() != reflect.String {
			return
		}
		p.n++
		k := fmt.Sprint("part", p.n)
		if !p.look {
			v.SetMapIndex(reflect.ValueOf(k).Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
			return
		}
		n := 0
		for _, x := range v.MapKeys() {
			if strings.HasPrefix(x.String(), "part") {
				n++
			}
		}
		differs(n == 1 && v.MapIndex(reflect.ValueOf(k).Convert(v.Type().Key())).IsValid())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		p.n++
		if !p.look {
			v.SetInt(p.n)
		}
		differs(v.OverflowInt(p.n) || v.Int() == p.n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		p.n++
		if !p.look && !v.OverflowUint(uint64(p.n)) {
			v.SetUint(uint64(p.n))
		}
		differs(v.OverflowUint(uint64(p.n)) || v.Uint() == uint64(p.n))
	case reflect.Float64, reflect.Float32:
		p.n++
		if !p.look {
			v.SetFloat(float64(p.n) + 0.5)
		}
		differs(v.Float() == float64(p.n)+0.5)
	case reflect.String:
		p.n++
		if !p.look {
			v.SetString(fmt.Sprint("s", p.n))
		}
		differs(v.String() == fmt.Sprint("s", p.n))
	case reflect.Bool:
		// both values: whether it is assigned to twice is seen by others
		p.n++
		if !p.look {
			v.SetBool(p.n%2 == 0)
		}
		differs(v.Bool() == (p.n%2 == 0))
	}
}

var plainWhen = regexp.MustCompile(`(?is)^\s*when\s+(.*?)\s*;*\s*$`)

// apart: the parts of statements that are parsed one after the other are apart.
func apart(c *Ctx) {
	var texts []string
	for i, t := range append([]string{""}, themes...) {
		texts = append(texts, randomTexts(c.Seed*67+int64(i), t, c.n(300, 5000))...)
		if t != "" {
			sw := c.sweepTexts(t, true)
			c.Shuffle(len(sw), func(i, k int) { sw[i], sw[k] = sw[k], sw[i] })
			if n := c.n(800, 8000); len(sw) > n {
				sw = sw[:n]
			}
			texts = append(texts, sw...)
		}
		for _, s := range sentencesOf(t) {
			texts = append(texts, strings.ReplaceAll(s, "~", ""))
		}
	}
	for _, t := range texts[:len(texts):len(texts)] {
		m := plainWhen.FindStringSubmatch(t)
		if m == nil || len(t) > 3000 {
			continue
		}
		e := m[1]
		// the same part twice
		texts = append(texts, "when ("+e+") and ("+e+")", "trigger set x = "+e+"; y = "+e+" when @x", "when ["+e+","+e+"]", "trigger set x = "+e+" when "+e)
	}
	for i := 0; i < len(texts); {
		// some statements at once
		n := []int{1, 1, 2, 3}[c.Intn(4)]
		var stmts []gql.Statement
		first := i
		for ; i < len(texts) && len(stmts) < n; i++ {
			for k := []int{1, 1, 2}[c.Intn(3)]; k > 0; k-- {
				if r := realParse(texts[i]); r.outcome() == "ok" {
					stmts = append(stmts, r.Stmt)
				}
			}
		}
		if len(stmts) == 0 {
			continue
		}
		all := strings.Join(texts[first:i], "\n")
		c.count("parts of statements", fmt.Sprintf("%q", all))
		bad := ""
		pan := guarded("parts", all, func() {
			v := reflect.ValueOf(stmts)
			(&parter{}).walk(v, "")
			p := &parter{look: true}
			p.walk(v, "")
			bad = p.bad
		})
		if pan != "" {
			must(fmt.Errorf("parts: %s", pan))
		}
		if bad != "" {
			c.violate("shared parts", all, "after assigning a different value to every part of the statements", bad)
		}
	}
}

// doubled are pairs whose condition stands in the text twice.
func doubled(c *Ctx, ps []pair) (out []pair) {
	var texts []string
	for _, p := range ps {
		if m := plainWhen.FindStringSubmatch(p.plain.Text); m != nil && len(m[1]) < 1000 {
			texts = append(texts, "when ("+m[1]+") and ("+m[1]+")", "trigger set x = 1 when ["+m[1]+","+m[1]+"]", "trigger set x = "+m[1]+" when "+m[1])
		}
	}
	sp := okSpecs(oracle(texts))
	for i := 0; i+1 < len(sp); i += 2 {
		out = append(out, pair{sp[i], sp[i+1]})
	}
	return
}

type partCall struct {
	Op    string
	O, K  int
	After []struct {
		T int
		P []int
	}
}

type leaf struct {
	path string
	v    reflect.Value
}

// leavesOf are all parts of a value that can be assigned to.
func leavesOf(v reflect.Value, path string, out []leaf) []leaf {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			return leavesOf(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				out = leavesOf(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out = leavesOf(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
		if v.Kind() == reflect.Slice {
			out = append(out, leaf{path + " (length)", v})
		}
	case reflect.Map:
		out = append(out, leaf{path + " (keys)", v})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
		reflect.Float64, reflect.Float32, reflect.String, reflect.Bool:
		out = append(out, leaf{path, v})
	}
	return out
}

func (l leaf) show() string {
	switch l.v.Kind() {
	case reflect.Slice:
		return fmt.Sprint(l.v.Len())
	}
	return fmt.Sprint(l.v) // maps in the order of their keys
}

// put assigns something else.
func (l leaf) put(n int) {
	v := l.v
	switch v.Kind() {
	case reflect.Slice: // one element less: those that are there stay the parts of others
		if v.Len() > 0 && n%2 == 0 {
			v.Set(v.Slice(0, v.Len()-1))
		} else {
			v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
		}
	case reflect.Map:
		if !v.IsNil() && v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf(fmt.Sprint("k", n)).Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() + 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() + 1)
	case reflect.Float64, reflect.Float32:
		v.SetFloat(v.Float() + 1.5)
	case reflect.String:
		v.SetString(v.String() + "!")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

// partHistories replays the histories of GqlParts on pairs of texts.
func partHistories(c *Ctx, ps []pair, per int) {
	var hs [][]partCall
	runTLC("GqlParts", map[string]string{"GQL_DEPTH": fmt.Sprint(c.n(4, 5))}, func(ln []byte) {
		var v struct{ H []partCall }
		must(json.Unmarshal(ln, &v))
		hs = append(hs, v.H)
	})
	for i, h := range hs {
		for k := 0; k < per; k++ {
			replayParts(c, ps[(i*per+k)%len(ps)], h)
		}
	}
}

func replayParts(c *Ctx, p pair, h []partCall) {
	var stmts []gql.Statement
	var shown [][]string // of each statement's leaves
	chosen := map[[2]int]int{}
	calls := ""
	c.count("history of parts", p.withX.Text)
	pan := guarded("parts", p.withX.Text, func() {
		for _, call := range h {
			calls += fmt.Sprintf(" %s(%d %d)", call.Op, call.O, call.K)
			o := call.O - 1
			resized := false
			switch call.Op {
			case "parse":
				s := p.plain
				if call.K == 2 {
					s = p.withX
				}
				r := realParse(s.Text)
				if r.outcome() != "ok" {
					return // that is C02
				}
				stmts = append(stmts, r.Stmt)
				var q []string
				for _, l := range leavesOf(reflect.ValueOf(r.Stmt), "", nil) {
					q = append(q, l.show())
				}
				shown = append(shown, q)
				if k := len(stmts) - 1; len(compareResult(s, r)) > 0 && k > 0 {
					c.violate("shared parts", s.Text, "calls:"+calls, fmt.Sprint(compareResult(s, r)))
					return
				}
			case "put":
				ls := leavesOf(reflect.ValueOf(stmts[o]), "", nil)
				at, ok := chosen[[2]int{o, call.K}]
				if !ok || at >= len(ls) {
					at = c.Intn(len(ls))
					chosen[[2]int{o, call.K}] = at
				}
				l := ls[at]
				calls += "=" + l.path
				l.put(len(calls))
				resized = l.v.Kind() == reflect.Slice
				if !resized {
					shown[o][at] = l.show()
				}
			case "read":
				var b strings.Builder
				guarded("read", p.withX.Text, func() { // parts may be out of their range now
					defer func() { recover() }()
					_ = gql.Format(&b, stmts[o])
					_ = gql.CheckType(stmts[o], gql.Dictionary{"a": gql.Int})
					gql.Visit(stmts[o].(gql.Expr), func(gql.Expr) bool { return true })
				})
			}
			for i := range stmts {
				ls := leavesOf(reflect.ValueOf(stmts[i]), "", nil)
				if i == o && resized {
					shown[i] = shown[i][:0]
					for _, l := range ls {
						shown[i] = append(shown[i], l.show())
					}
					chosen = map[[2]int]int{}
					continue
				}
				for k, l := range ls {
					if k >= len(shown[i]) || shown[i][k] != l.show() {
						was := "nothing"
						if k < len(shown[i]) {
							was = shown[i][k]
						}
						c.violate("shared parts", p.withX.Text, "calls:"+calls, "text 1: "+p.plain.Text,
							fmt.Sprintf("the part %s of statement %d was %s and is %s", l.path, i+1, clip(was, 200), clip(l.show(), 200)))
						return
					}
				}
			}
		}
	})
	if pan != "" {
		must(fmt.Errorf("parts: %s", pan))
	}
}
