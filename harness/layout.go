package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// The same tokens in other layouts and with keywords in other cases: the
// outcome that the specification gives to the tokens does not change.

func init() {
	checks["C20"] = func(c *Ctx) {
		rng := rand.New(rand.NewSource(c.Seed * 5))
		any := func(Diff) bool { return true }
		vary := func(kind string, s *Spec, n int) {
			if s.R.Lex {
				return
			}
			for i := 0; i < n; i++ {
				v := &Spec{R: s.R}
				v.Text, v.Toks = relayout(rng, s, true)
				k := kind
				if s.R.OK {
					k += ", accepted"
				}
				c.count(k, v.Text)
				c.report(v, compare(v), any)
			}
		}
		var fams []Family
		for _, t := range themes {
			fams = append(fams, families(t, false, !c.Thorough)...)
		}
		enumerate(fams, func(f *Family, s *Spec) {
			n := 1
			if s.R.OK {
				n = c.n(2, 6)
			}
			vary("enumerated "+f.Name, s, n)
		})
		per := c.n(1500, 20000)
		for i, t := range themes {
			sp := oracle(randomTexts(c.Seed*101+int64(i), t, per))
			for _, s := range sp {
				vary("random "+t, s, c.n(3, 8))
			}
		}
		// keywords in every single case
		var texts []string
		var base []int
		specs := oracle(allKeywords())
		for i, s := range specs {
			ws := strings.Fields(s.Text)
			for k := range ws {
				if !wordLike[ws[k]] {
					continue
				}
				for _, f := range []func(string) string{strings.ToUpper, title, rtitle, strings.ToLower} {
					w := append([]string{}, ws...)
					w[k] = f(w[k])
					texts = append(texts, strings.Join(w, " "))
					base = append(base, i)
				}
			}
		}
		for i, v := range oracle(texts) {
			c.count("keyword in another case", v.Text)
			b := specs[base[i]]
			if b.R.OK != v.R.OK || b.R.OK && b.tree().String() != v.tree().String() {
				must(fmt.Errorf("the specification distinguishes %q from %q", b.Text, v.Text))
			}
			c.report(v, compare(v), any)
		}
	}
}

func title(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
func rtitle(s string) string {
	return s[:len(s)-1] + strings.ToUpper(s[len(s)-1:])
}

var wordLike = anyOf("trigger set when repeat reset rem mod or and eq in range nearby intersects time date weekday month not point multipoint line " +
	"multiline polygon multipolygon collection true false up down am pm jan feb mar apr may jun jul aug sep oct nov dec sun mon tue wed thu fri sat " +
	"sunday monday tuesday wednesday thursday friday saturday january february march april june july august september october november december")

func allKeywords() (out []string) {
	for _, op := range strings.Fields("rem mod or and eq in nearby intersects not~eq not~in not~nearby not~intersects") {
		out = append(out, "when a "+strings.ReplaceAll(op, "~", " ")+" b")
	}
	for _, b := range strings.Fields("true false up down") {
		out = append(out, "when a == "+b)
	}
	out = append(out, "when a in 1 range 2", "trigger set x = 1 when a repeat 1 every 2 h reset after 3 s",
		"when time [ 11 : 22 am ]", "when time [ 11 : 22 pm , 10 : 10 am ]", "when date [ 2022 - 01 - 02 ]",
		"when point [ 1 , 2 ]", "when multipoint [ point [ 1 , 2 ] ]", "when line [ [ 1 , 2 ] ]", "when multiline [ line [ [ 1 , 2 ] ] ]",
		"when polygon [ [ [ 1 , 2 ] ] ]", "when multipolygon [ polygon [ [ [ 1 , 2 ] ] ] ]", "when collection [ point [ 1 , 2 ] ]")
	for _, m := range strings.Fields("jan feb mar apr may jun jul aug sep oct nov dec january february march april june july august september october november december") {
		out = append(out, "when month [ "+m+" ]", "when month [ jan .. "+m+" ]")
	}
	for _, d := range strings.Fields("sun mon tue wed thu fri sat sunday monday tuesday wednesday thursday friday saturday") {
		out = append(out, "when weekday [ "+d+" ]", "when weekday [ mon , "+d+" ]")
	}
	return
}
