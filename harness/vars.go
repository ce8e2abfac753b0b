package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode"

	gql "github.com/mmadfox/go-geoql-parser"
)

// Long histories of SetVar (GqlVars.tla): many variables, whose names come in
// some order, and names that were assigned at any time before.

type varHistory struct {
	Text  []string `json:"text"`
	Calls []string `json:"calls"`
}

// nameStyle gives the k-th different name.
func nameStyle(c *Ctx) func(k int) string {
	base := []string{"v", "x_", "ж", "name", strings.Repeat("long", 40), "a"}[c.Intn(6)]
	style := c.Intn(6)
	odd := map[int]bool{}
	for i := c.Intn(4); i > 0; i-- {
		odd[c.Intn(40)] = true
	}
	return func(k int) string {
		n := k
		switch style {
		case 1: // backwards
			n = 900 - k
		case 2: // in no order
			n = k * 389 % 907
		case 3: // in order, but for a few
			if odd[k] {
				n = 0 - k
				return fmt.Sprintf("a%s%03d", base, -n)
			}
		case 4: // two series
			n = k/2 + k%2*500
		case 5: // of different lengths
			return base + fmt.Sprint(k)
		}
		return fmt.Sprintf("%s%03d", base, n)
	}
}

func (c *Ctx) varHistories(n int) {
	var hs []varHistory
	var vals []interface{}
	for i := 0; i < n; i++ {
		name := nameStyle(c)
		h := varHistory{Text: []string{}, Calls: []string{}}
		known := 0
		big := 12
		if c.Intn(3) == 0 {
			big = 160
		}
		if c.Intn(2) == 0 {
			for k := c.Intn(big); k > 0; k-- {
				h.Text = append(h.Text, name(known))
				known++
			}
		}
		for k := 1 + c.Intn(big); k > 0; k-- {
			switch x := c.Intn(10); {
			case known == 0 || x < 6:
				h.Calls = append(h.Calls, name(known))
				known++
			case x == 6:
				h.Calls = append(h.Calls, name(known-1))
			case x == 7:
				h.Calls = append(h.Calls, name(0))
			default:
				h.Calls = append(h.Calls, name(c.Intn(known)))
			}
			if c.Intn(10) == 0 { // another name, in spite of its case
				x := h.Calls[len(h.Calls)-1]
				if c.Intn(2) == 0 && len(h.Text) > 0 {
					x = h.Text[c.Intn(len(h.Text))]
				}
				rs := []rune(x)
				switch k := c.Intn(len(rs)); c.Intn(4) {
				case 0:
					x = strings.ToUpper(x)
				case 1:
					rs[0] = unicode.ToUpper(rs[0])
					x = string(rs)
				case 2:
					rs[k] = unicode.ToUpper(rs[k])
					x = string(rs)
				case 3:
					x += []string{"_", "1", x, "é"}[c.Intn(4)]
				}
				h.Calls = append(h.Calls, x)
			}
		}
		// and each of them again
		for k := 0; k < known; k++ {
			if known < 30 || c.Intn(6) == 0 || k > known-4 {
				h.Calls = append(h.Calls, name(k))
			}
		}
		hs = append(hs, h)
		vals = append(vals, h)
	}
	in := writeJSON("vars.json", vals)
	runTLC("GqlVars", map[string]string{"GQL_IN": in}, func(ln []byte) {
		var v struct {
			H  int
			OK []bool
			Vs []string
		}
		must(json.Unmarshal(ln, &v))
		c.replayVars(hs[v.H-1], v.OK, v.Vs)
	})
}

func (c *Ctx) replayVars(h varHistory, ok []bool, end []string) {
	tail := []string{"", "", " repeat 5 every 10s", " reset after 1h", " repeat 5", " repeat 3 every 1h reset after 2h"}[c.Intn(6)]
	text := "trigger when a" + tail
	if len(h.Text) > 0 {
		text = "trigger set " + strings.Join(h.Text, " = 1;\n") + " = 1 when a" + tail
	}
	desc := fmt.Sprintf("%d variables in the text, then SetVar %v", len(h.Text), h.Calls)
	var tr *gql.Trigger
	if len(h.Text) == 0 && c.Intn(2) == 0 {
		tr = &gql.Trigger{When: &gql.BooleanTyp{Val: true}}
	} else {
		r := realParse(text)
		if r.outcome() != "ok" {
			return // that is C08
		}
		tr = r.Stmt.(*gql.Trigger)
	}
	c.count("long history", desc)
	names := append([]string{}, h.Text...)
	was := append([]*gql.Assign{}, tr.Vars...)
	values := map[*gql.Assign]int{}
	for i, n := range h.Calls {
		a := &gql.Assign{Left: &gql.Ident{Val: n}, Right: &gql.IntTyp{Val: 1000 + i}}
		values[a] = 1000 + i
		var err error
		if pan := guarded("SetVar", text, func() { err = tr.SetVar(a) }); pan != "" {
			c.violate("panic", text, desc, pan)
		}
		if (err == nil) != ok[i] {
			c.violate("SetVar", text, desc, fmt.Sprintf("call %d, %q, with the variables %v", i+1, n, names),
				fmt.Sprintf("specified: accepted %v; SetVar returns %v", ok[i], err))
		}
		if ok[i] {
			names = append(names, n)
			was = append(was, a)
		}
		bad := len(tr.Vars) != len(names)
		for k := 0; !bad && k < len(names); k++ {
			v := tr.Vars[k]
			bad = v != was[k] || v.Left.Val != names[k]
			if w, mine := values[v]; mine && !bad {
				x, is := v.Right.(*gql.IntTyp)
				bad = !is || x.Val != w
			}
		}
		if bad {
			var got []string
			for _, v := range tr.Vars {
				got = append(got, v.Left.Val)
			}
			c.violate("variables", text, desc, fmt.Sprintf("after call %d, %q", i+1, n), fmt.Sprintf("specified: %v", names), fmt.Sprintf("the statement has: %v", got))
		}
	}
	if fmt.Sprint(names) != fmt.Sprint(end) {
		must(fmt.Errorf("the model ends with %v, the replay with %v", end, names))
	}
	// all of them are written
	out, err, pan := realFormat(text, tr)
	if err != nil || pan != "" {
		c.violate("Format after these calls", text, desc, pan, errString(err))
	}
	r := realParse(out)
	if r.outcome() != "ok" || strings.ToLower(strings.Join(end, " ")) != strings.Join(end, " ") {
		return // names of Format are read without their case
	}
	var got []string
	for _, k := range r.tree().Kids {
		if k.K == "assign" {
			got = append(got, k.S)
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(end) {
		c.violate("Format after these calls", text, desc, fmt.Sprintf("specified: %v", end), fmt.Sprintf("written: %v", got))
	}
}
