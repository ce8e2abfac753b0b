package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Very long texts: what the specification says of 3, 10 and 17 repetitions of
// a part that is not nested, it says of any number of them.

var rows = []nesting{
	{"conditions in parentheses", "(a) and ", "b", "", "when ", ""},
	{"properties in conditions", "a{\"x\"}:1,2 and ", "b", "", "when ", ""},
	{"arrays in conditions", "[1,2] and ", "b", "", "when ", ""},
	{"ranges in conditions", "1 .. 2 and ", "b", "", "when ", ""},
	{"geometries in conditions", "point[1,2]:3km and polygon[[[1,2]]] and collection[line[[1,2]]:2m] and ", "b", "", "when ", ""},
	{"calendar values in conditions", "date[2022-01-02, 2022-01-03] and time[11:22] and weekday[mon .. tue] and month[jan] and ", "b", "", "when ", ""},
	{"values in conditions", "-1 and +2km and \"s\" and true and 5% and 3h and @x and * and -3C and ", "b", "", "when ", ""},
	{"negated operators", "a not in b and c not nearby d or ", "b", "", "when ", ""},
	{"sums in parentheses", "(1 + 2 * a) - ", "b", "", "when ", ""},
	{"selectors in an array", "a{\"x\", *} , ", "b", "", "when [", "]"},
	{"selectors with properties in an array", "a:1km, 2 : ", "b", "", "when [", "]"},
	{"variables with arrays", "x = [1, @y .. 2]; ", "", "", "trigger set ", "when a"},
	{"points with radius", "point[-1, 2.5]:3km, ", "point[1,2]", "", "when multipoint[", "]"},
	{"multi objects", "multipoint[point[1,2], point[3,4]], multiline[line[[1,2],[3,4]]:5km], ", "point[1,2]", "", "when collection[", "]"},
	{"ranges of points", "1 .. 2 : ", "3 .. 4", "", "when [", "]"},
	{"conditions, resetting", "a > 1 or ", "b", "", "trigger when ", " repeat 5 every 10s reset after 1h"},
	{"unknown signs", "a ! ", "b", "", "when ", ""},
	{"two operators", "a and ", "or b", "", "when ", ""},
	{"two values", "a and ", "b c", "", "when ", ""},
	{"two numbers in a ring", "[1,2], ", "[3 4 5]", "", "when line[", "]"},
	{"wrong day", "2022-01-02, ", "2022-13-02", "", "when date[", "]"},
	{"mixed elements", "1, ", "2.5", "", "when [", "]"},
	{"mixed objects", "point[1,2], ", "line[[1,2]]", "", "when multipoint[", "]"},
	{"two clauses", "a and ", "b", "", "when ", " repeat 5 every 10s repeat 5"},
}

// profile counts the nodes of a tree by what they are.
func (n *N) profile(out map[string]int) {
	if n == nil {
		return
	}
	flat := *n
	flat.Kids = nil
	flat.P, flat.E, flat.X, flat.Y, flat.deep = 0, 0, 0, 0, 0
	key := flat.String()
	if len(key) > 300 {
		key = n.K
	}
	out[key]++
	for _, k := range n.Kids {
		k.profile(out)
	}
}

func linear(a, b, c, k int) (int, bool) {
	// values at 3, 10 and 17
	if b-a != c-b || (b-a)%7 != 0 {
		return 0, false
	}
	return a + (b-a)/7*(k-3), true
}

func (c *Ctx) longRuns(relevant func(Diff) bool) {
	var ns []nesting
	for _, n := range nestings {
		switch n.name {
		case "selectors", "digits", "fraction", "letters", "duration units":
			continue
		}
		if n.shut == "" {
			ns = append(ns, n)
		}
	}
	var texts []string
	for _, n := range append(ns, rows...) {
		variants := []nesting{n}
		for _, m := range []string{")", "]", ",", "1 2", "?", "when", "..", "-", "not", "and"} {
			v := n
			v.mid += " " + m + " "
			variants = append(variants, v)
		}
		if !c.Thorough {
			c.Shuffle(len(variants)-1, func(i, k int) { variants[i+1], variants[k+1] = variants[k+1], variants[i+1] })
			variants = variants[:4]
		}
		for _, v := range variants {
			for _, k := range []int{3, 10, 17} {
				texts = append(texts, v.text(k, true))
			}
			ns = append(ns, v)
		}
	}
	ns = ns[len(ns)-len(texts)/3:]
	spec := oracle(texts)
	for i := range ns {
		n := &ns[i]
		a, b, z := spec[3*i], spec[3*i+1], spec[3*i+2]
		if a.R.Lex || b.R.Lex || z.R.Lex || a.R.OK != b.R.OK || b.R.OK != z.R.OK || a.Cut || b.Cut || z.Cut {
			continue
		}
		var pa, pb, pz map[string]int
		if a.R.OK {
			pa, pb, pz = map[string]int{}, map[string]int{}, map[string]int{}
			a.tree().profile(pa)
			b.tree().profile(pb)
			z.tree().profile(pz)
		}
		counts := []int{[]int{100, 257, 1000, 4096}[c.Intn(4)], 10001 + c.Intn(3000)}
		if c.Intn(4) == 0 {
			counts = append(counts, 33000)
		}
		if c.Thorough {
			counts = append(counts, 66000, 140000)
		}
		for _, k := range counts {
			s := &Spec{Text: n.text(k, true)}
			s.R.OK = a.R.OK
			r := realParse(s.Text)
			what := fmt.Sprintf("%s and %d more of %q", clip(s.Text, 80), k, n.open)
			c.count("very long texts", what)
			if !s.R.OK {
				lo, ok := linear(a.R.Lo, b.R.Lo, z.R.Lo, k)
				hi, ok2 := linear(a.R.Hi, b.R.Hi, z.R.Hi, k)
				if !ok || !ok2 {
					continue
				}
				s.R.Lo, s.R.Hi = lo, hi
				s.Toks = scanAll(s.Text, strings.NewReader(s.Text), 0).Toks
				for _, d := range compareResult(s, r) {
					if relevant(d) {
						c.violate(d.Class+" "+d.Kind, s.Text, clip(d.String(), 400), "specified: "+clip(a.describe(), 300), "here with "+strconv.Itoa(k)+" of "+n.open)
					}
				}
				continue
			}
			if r.outcome() != "ok" {
				d := Diff{"accept", "", "", "ok, as with 3, 10 and 17 of " + n.open, r.outcome()}
				if relevant(d) {
					c.violate("accept", s.Text, what, d.String())
				}
				continue
			}
			d := Diff{Class: "accept"}
			if !relevant(d) {
				continue
			}
			got := map[string]int{}
			r.tree().profile(got)
			for key := range pz {
				if w, ok := linear(pa[key], pb[key], pz[key], k); ok && got[key] != w {
					c.violate("parts", s.Text, what, fmt.Sprintf("specified: %d of %s", w, key), fmt.Sprintf("got: %d", got[key]))
				}
			}
			for key := range got {
				if pz[key] == 0 && len(pa) == len(pb) && len(pb) == len(pz) && sameKeys(pa, pb) && sameKeys(pb, pz) {
					c.violate("parts", s.Text, what, "not specified: "+key)
				}
			}
		}
	}
}

func sameKeys(a, b map[string]int) bool {
	for k := range a {
		if b[k] == 0 {
			return false
		}
	}
	return true
}
