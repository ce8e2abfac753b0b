package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// Sentences with a few edits (GqlEdit.tla): a word more, less, other, or two
// exchanged, and everything behind as it was.

type sentence struct {
	S    []string `json:"s"`
	V    int      `json:"v"`    // the vocabulary of the edits
	From int      `json:"from"` // words that are left alone
}

type edit struct {
	What string
	At   int
	V    int
}

func (e *edit) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&e.What, &e.At, &e.V})
}

var editWords = ww("trigger set when repeat reset after every , ; : ( ) [ ] { } @ = == . .. - + * % not in and or < a x 1 2.5 " +
	"\"s\" 2~km 3~h 7~bar true date[ time[ weekday[ month[ mon may point[ [[1,2]] 2022-02-03 11:12 AM range #")

// sentences of a theme that have every construct once
func sentencesOf(theme string) (out []string) {
	switch theme {
	case "stmt":
		return []string{
			"trigger set x = 1 ; y = [ 2 , 3 ] when a > @ x repeat 5 every 10~s reset after 1~h",
			"trigger set x = \"s\" Y = a when @ x == @ Y repeat 1",
			"when a repeat reset after 5~m",
			"trigger when a reset after 1.5 h",
			"trigger set g = point[1,2] : 3~km ; d = date[2022-02-03] ; when a in @ g ;",
		}
	case "ops":
		return []string{
			"when a + b * c - d / e < f and g == h or not~in",
			"when a or b and c not in d not nearby e",
			"when ( a + ( b - c ) ) * d rem ( e )",
			"when a >= - 1 and ( b <= + 2.5 or c != d )",
			"when a not eq b not intersects c intersects d eq e mod f",
		}
	case "num":
		return []string{
			"when 1 + 2.5 - - 3 C + + 4.5 F",
			"when 5 % < 1.5 PCT and 7 Bar > - 2 psi",
			"when 1 Km .. 2 Rm == 3 kph .. 4 Mph",
			"when 1 h30m10s + 10 s - 1.5 h",
			"when true and FALSE or up == down and \"a\" != \"\"",
		}
	case "cal":
		return []string{
			"when date [ 2022 - 02 - 03 , 2200 - 12 - 31 ]",
			"when date [ 2022 - 02 - 03 .. 2022 - 02 - 05 ] in a",
			"when time [ 11 : 22 , 9 : 05 : 59 AM , 0 : 00 ]",
			"when time [ 11 : 22 PM .. 24 : 59 : 01 ]",
			"when weekday [ mon , Tue , sun ] and weekday [ fri .. sat ]",
			"when month [ jan , Dec ] or month [ feb .. may ]",
			"when date [ 2022 - 02 - 03 ] .. time [ 1 : 02 ]",
		}
	case "geo":
		return []string{
			"when a in point [ 1 , - 2.5 ] : 3 km",
			"when line [ [ 1 , 2 ] , [ - 3 , 4 ] ] : 1.5 M nearby b",
			"when polygon [ [ [ 1 , 2 ] , [ 3 , 4 ] ] , [ [ 5 , 6 ] ] ]",
			"when multipoint [ point [ 1 , 2 ] , point [ 3 , 4 ] : 5 km ]",
			"when multiline [ line [ [ 1 , 2 ] ] , line [ [ 3 , 4 ] , [ 5 , 6 ] ] ]",
			"when multipolygon [ polygon [ [ [ 1 , 2 ] ] ] , polygon [ [ [ 3 , 4 ] ] ] ]",
			"when collection [ point [ 1 , 2 ] , multiline [ line [ [ 1 , 2 ] ] ] , line [ [ 3 , 4 ] ] , polygon [ [ [ 5 , 6 ] ] ] ]",
		}
	case "sel":
		return []string{
			"when a { \"x\" , * , \"y\" } : 1 km , 2 == b",
			"when [ a , b { \"x\" } , c : 1 ] in d { } : [ 1 , 2 ]",
			"when [ 1 , 2 , - 3 ] in [ 1.5 , 2.5 ] not in [ \"s\" , \"t\" ]",
			"when a in 1 .. 2 and b in @ x .. @ y or c range 5",
			"when [ @ x , @ y ] == [ 1 km , 2 km ] and * .. *",
			"when [ 1 .. 2 , 3 .. 4 ] in a : b : 1",
		}
	}
	return
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// wordsOf are the words of a text that the specification reads.
func wordsOf(s *Spec) (out []string) {
	for _, t := range s.Toks {
		if t.E >= t.O {
			out = append(out, s.Text[t.O:t.E+1])
		}
	}
	return
}

// edited visits every text that differs by at most n edits from one of the
// sentences of the themes, or of random short ones.
func edited(c *Ctx, themes []string, n, random, maxLen int, visit func(s *Spec)) {
	var fams []Family
	var ss []sentence
	for i, t := range themes {
		voc := map[string]bool{}
		f := Family{Name: t, Prefix: []string{}}
		word := func(w string) {
			if !voc[w] {
				voc[w] = true
				f.Words = append(f.Words, w)
			}
		}
		for _, w := range editWords {
			word(w)
		}
		list := sentencesOf(t)
		for _, x := range list {
			q := ww(x)
			ss = append(ss, sentence{q, i + 1, 1})
			for _, w := range q {
				word(w)
			}
		}
		fams = append(fams, f)
		got := 0
		for _, s := range okSpecs(oracle(randomTexts(c.Seed*31+int64(i), t, random*12))) {
			q := wordsOf(s)
			if len(q) > 0 && len(q) <= maxLen && isASCII(s.Text) && got < random {
				got++
				ss = append(ss, sentence{q, i + 1, 0})
			}
		}
	}
	vals := make([]interface{}, len(ss))
	for i := range ss {
		vals[i] = ss[i]
	}
	fv := make([]interface{}, len(fams))
	for i := range fams {
		fv[i] = fams[i]
	}
	env := map[string]string{"GQL_ENUM": writeJSON("families.json", fv), "GQL_EDIT": writeJSON("sentences.json", vals), "GQL_EDITS": fmt.Sprint(n)}
	seen := map[string]bool{}
	decoded("GqlEdit", "GqlEdit", env, func(ln []byte) famSpec { return decodeEdit(fams, ss, ln) }, func(f *Family, s *Spec) {
		if s != nil && !seen[s.Text] {
			seen[s.Text] = true
			visit(s)
		}
	})
}

func decodeEdit(fams []Family, ss []sentence, ln []byte) famSpec {
	var v struct {
		F int
		W [2]json.RawMessage
		O [][3]interface{}
		R Outcome
		D bool
	}
	must(json.Unmarshal(ln, &v))
	var next int
	var es []edit
	must(json.Unmarshal(v.W[0], &next))
	must(json.Unmarshal(v.W[1], &es))
	q := ss[v.F-1]
	f := &fams[q.V-1]
	var b strings.Builder
	at := 1
	upto := func(k int) {
		for ; at < k; at++ {
			b.WriteString(q.S[at-1] + " ")
		}
	}
	for _, e := range es {
		upto(e.At)
		switch e.What {
		case "del":
			at++
		case "ins":
			b.WriteString(f.Words[e.V-1] + " ")
		case "rep":
			b.WriteString(f.Words[e.V-1] + " ")
			at++
		case "echo":
			for k := e.V; k > 0; k-- {
				b.WriteString(q.S[at-1-k] + " ")
			}
		case "swap":
			b.WriteString(q.S[at] + " " + q.S[at-1] + " ")
			at += 2
		}
	}
	upto(len(q.S) + 1)
	s := &Spec{Text: b.String(), R: v.R, Dead: v.D}
	for _, o := range v.O {
		t := Tok{O: int(o[0].(float64)), E: int(o[1].(float64)), T: o[2].(string)}
		if t.E >= t.O {
			t.X = tokenX(t.T, s.Text[t.O:t.E+1])
		}
		s.Toks = append(s.Toks, t)
	}
	if next <= len(q.S) {
		// the tokens after the dead one are not read
		s.Cut = true
	}
	return famSpec{f, s}
}

// editRun compares Parse with the specification on edited sentences.
func (c *Ctx) editRun(themes []string, relevant func(Diff) bool) {
	n := 1
	visit := func(s *Spec) {
		kind := fmt.Sprintf("up to %d edits", n)
		if s.R.OK {
			kind += ", accepted"
		}
		c.count(kind, s.describe())
		if s.Cut && (s.R.Lex || s.R.Hi >= len(s.Toks)) {
			// only whether it is rejected
			if r := realParse(s.Text); r.outcome() != "error" {
				c.report(s, []Diff{{"accept", "", "", "error", r.outcome() + " " + r.Panic}}, relevant)
			}
			return
		}
		c.report(s, compare(s), relevant)
	}
	k := c.n(24, 240) / len(themes)
	edited(c, themes, 1, k, 24, visit)
	if c.Thorough {
		n = 2
		edited(c, themes, 2, 30/len(themes), 8, visit)
	}
}
