package main

import (
	"fmt"
	"math/rand"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
)

// discard is the writer of everything.
type discard struct{ n int }

func (d *discard) WriteString(s string) (int, error) { d.n += len(s); return len(s), nil }

var totalDicts = []gql.Dictionary{{"a": gql.Int, "b": gql.Boolean, "si": gql.Int}, nil, {"a": gql.ArrayInt, "b": gql.ArrayString, "c": gql.SelectorType(99), "x": gql.Float},
	{"a": gql.Boolean, "b": gql.Boolean, "c": gql.Boolean}}

// everything calls every part of the implementation on a text.
func everything(text string) string {
	r := realParse(text)
	if o := r.outcome(); o != "ok" && o != "error" {
		return "Parse: " + o + "\n" + r.Panic
	}
	if r.Err != nil {
		if p := guarded("Error", text, func() { _ = r.Err.Error() }); p != "" {
			return "Error: " + p
		}
	} else {
		var err error
		if p := guarded("Format", text, func() { err = gql.Format(&discard{}, r.Stmt) }); p != "" {
			return "Format: " + p
		}
		if err != nil {
			return "Format: " + err.Error()
		}
		for _, d := range totalDicts {
			if p := guarded("CheckType", text, func() { _ = gql.CheckType(r.Stmt, d) }); p != "" {
				return "CheckType: " + p
			}
			if len(text) > 2000 {
				break
			}
		}
		if e, ok := r.Stmt.(gql.Expr); ok {
			if p := guarded("Visit", text, func() { gql.Visit(e, func(gql.Expr) bool { return true }) }); p != "" {
				return "Visit: " + p
			}
		}
	}
	n := 0
	if p := guarded("Scan", text, func() {
		t := gql.NewTokenizer(strings.NewReader(text))
		for {
			tok, _ := t.Scan()
			n++
			if tok == gql.EOF || n > len(text)+10 {
				return
			}
		}
	}); p != "" {
		return "Scan: " + p
	}
	if n > len(text)+10 {
		return "Scan: the end of the text is not reached"
	}
	return ""
}

// parseCheck compares Parse with the specification on the enumerated and the
// random texts of some themes; relevant picks the differences that concern
// the property.
func parseCheck(c *Ctx, themes []string, quick, thorough int, relevant func(Diff) bool) {
	c.parseRun(themes, quick, thorough, relevant, nil)
}

func (c *Ctx) report(s *Spec, ds []Diff, relevant func(Diff) bool) {
	for _, d := range ds {
		if relevant(d) {
			c.violate(d.Class+" "+d.Kind, s.Text, d.String(), "specified: "+s.describe())
		}
	}
}

func (c *Ctx) parseRun(themes []string, quick, thorough int, relevant func(Diff) bool, each func(*Spec)) {
	var fams []Family
	for _, t := range themes {
		if t != "" {
			fams = append(fams, families(t, c.Thorough, len(themes) > 2)...)
		}
	}
	rng := rand.New(rand.NewSource(c.Seed))
	one := func(kind string, s *Spec) {
		c.count(kind, s.describe())
		c.report(s, compare(s), relevant)
		if rng.Intn(50) == 0 {
			if v := far(rng, s); v != nil {
				c.count("many blanks in "+strings.TrimSuffix(kind, ", accepted"), s.describe())
				c.report(v, compare(v), relevant)
			}
		}
		if each != nil {
			each(s)
		}
	}
	if len(fams) > 0 {
		enumerate(fams, func(f *Family, s *Spec) {
			kind := "enumerated " + f.Name
			if s.R.OK {
				kind += ", accepted"
			}
			one(kind, s)
			if s.Dead && !s.R.Lex && rng.Intn(8) == 0 {
				// nothing repairs a text that is not viable
				t := *s
				t.Text += strings.Join([]string{f.Words[rng.Intn(len(f.Words))], f.Words[rng.Intn(len(f.Words))],
					[]string{"", "]", ")", "when a", "}"}[rng.Intn(5)]}, " ")
				r := realParse(t.Text)
				c.count("continued "+f.Name, t.Text)
				if r.outcome() == "ok" {
					c.report(&t, []Diff{{"accept", "", "", "rejected, as no continuation repairs token " + fmt.Sprint(s.R.Lo), "ok"}}, relevant)
				}
			}
			// the same tokens in another layout
			if s.R.OK || rng.Intn(4) == 0 {
				v := &Spec{R: s.R}
				v.Text, v.Toks = relayout(rng, s, false)
				one("laid out "+f.Name, v)
			}
		})
	}
	if len(fams) > 0 && each == nil {
		var named []string
		for _, t := range themes {
			if t != "" {
				named = append(named, t)
			}
		}
		c.editRun(named, relevant)
	}
	c.drawn(themes, c.n(quick, thorough), 7919, one)
}

// drawn visits the sweeps of the themes and n random texts.
func (c *Ctx) drawn(themes []string, n int, salt int64, visit func(kind string, s *Spec)) {
	var kinds, texts []string
	flush := func() {
		for i, s := range oracle(texts) {
			kind := kinds[i]
			if s.R.OK {
				kind += ", accepted"
			}
			visit(kind, s)
		}
		kinds, texts = nil, nil
	}
	add := func(kind string, ts []string) {
		for _, t := range ts {
			kinds, texts = append(kinds, kind), append(texts, t)
			if len(texts) == 20000 {
				flush()
			}
		}
	}
	for _, t := range themes {
		add("sweep "+t, c.sweepTexts(t, len(themes) > 2))
	}
	if c.Thorough {
		flush() // they have many characters
	}
	for i, t := range themes {
		add("random "+t, randomTexts(c.Seed*salt+int64(i*131), t, n/len(themes)))
	}
	flush()
}

func anyOf(s string) map[string]bool {
	m := map[string]bool{}
	for _, k := range strings.Fields(s) {
		m[k] = true
	}
	return m
}

// about picks differences of acceptance, and of the value, kind or arity of
// nodes of the given kinds; kinds ending in a differing kind count as well.
func about(kinds string) func(Diff) bool {
	m := anyOf(kinds)
	return func(d Diff) bool {
		switch d.Class {
		case "outcome", "accept":
			return true
		case "kind", "value", "arity":
			return m[d.Kind] || m[d.Got]
		}
		return false
	}
}

func init() {
	checks["C02"] = func(c *Ctx) {
		c.parseRun(append([]string{""}, themes...), 14000, 300000, func(d Diff) bool {
			return d.Class == "accept" || d.Class == "outcome"
		}, nil)
		c.longRuns(func(d Diff) bool { return d.Class == "accept" || d.Class == "outcome" })
	}
	checks["C03"] = func(c *Ctx) {
		parseCheck(c, []string{"ops"}, 8000, 200000, func(d Diff) bool {
			switch d.Class {
			case "accept", "outcome", "kind", "arity":
				return true
			case "value":
				return d.Kind == "bin" || d.Kind == "sel"
			}
			return false
		})
	}
	checks["C04"] = func(c *Ctx) {
		parseCheck(c, []string{"num"}, 12000, 300000, about("int float pct press dist speed temp dur string bool"))
	}
	checks["C05"] = func(c *Ctx) {
		parseCheck(c, []string{"cal"}, 12000, 300000, about("date time weekday month arr range"))
	}
	checks["C06"] = func(c *Ctx) {
		parseCheck(c, []string{"geo"}, 9000, 300000, about("point line polygon multi collection dist"))
	}
	checks["C07"] = func(c *Ctx) {
		parseCheck(c, []string{"sel"}, 10000, 300000, about("sel ref arr range wild string"))
	}
	checks["C08"] = func(c *Ctx) {
		parseCheck(c, []string{"stmt"}, 10000, 300000, func(d Diff) bool {
			switch d.Class {
			case "accept", "outcome":
				return true
			case "kind", "value", "arity":
				return d.Kind == "trigger" || d.Kind == "assign" || strings.HasPrefix(d.Path, "/trigger") && strings.Count(d.Path, "/") <= 2
			}
			return false
		})
	}
	checks["C19"] = func(c *Ctx) {
		c.parseRun(append([]string{""}, themes...), 10000, 300000, func(d Diff) bool {
			return d.Class == "pos"
		}, nil)
	}
	checks["C21"] = func(c *Ctx) {
		relevant := func(d Diff) bool {
			return d.Class == "errpos" || d.Class == "errmsg" || d.Class == "errlit" || d.Class == "errtype" || d.Class == "errtext"
		}
		c.parseRun(append([]string{""}, themes...), 12000, 300000, relevant, nil)
		c.longRuns(relevant)
	}
}
