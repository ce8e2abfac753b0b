package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
)

// -------------------------------------------------- enumerated texts (TLC)

type Family struct {
	Name   string   `json:"name"`
	Prefix []string `json:"prefix"`
	Words  []string `json:"words"`
	Depth  int      `json:"depth"`
}

func (f *Family) text(ws []int) string {
	var b strings.Builder
	for _, p := range f.Prefix {
		b.WriteString(p + " ")
	}
	for _, w := range ws {
		b.WriteString(f.Words[w-1] + " ")
	}
	return b.String()
}

// enumerate visits every text of the families with its specified outcome.
func enumerate(fams []Family, visit func(f *Family, s *Spec)) {
	enumerateWith("GqlEnum", "GqlEnum", fams, visit)
}

func enumerateWith(model, cfg string, fams []Family, visit func(f *Family, s *Spec)) {
	vals := make([]interface{}, len(fams))
	for i := range fams {
		if fams[i].Prefix == nil {
			fams[i].Prefix = []string{}
		}
		vals[i] = fams[i]
	}
	env := map[string]string{"GQL_ENUM": writeJSON("families.json", vals)}
	decoded(model, cfg, env, func(ln []byte) famSpec { return decodeEnum(fams, ln) }, visit)
}

// decoded runs TLC, decodes what it prints, and visits the results.
func decoded(model, cfg string, env map[string]string, decode func([]byte) famSpec, visit func(f *Family, s *Spec)) {
	// the lines are decoded in parallel and visited one after another
	lines := make(chan [][]byte, 64)
	specs := make(chan []famSpec, 64)
	var wg sync.WaitGroup
	var failed atomic.Value
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					failed.Store(fmt.Sprint(r))
					for range lines {
					}
				}
			}()
			for lns := range lines {
				out := make([]famSpec, len(lns))
				for i, ln := range lns {
					out[i] = decode(ln)
				}
				specs <- out
			}
		}()
	}
	go func() { wg.Wait(); close(specs) }()
	var tlcErr interface{}
	go func() {
		defer close(lines)
		defer func() { tlcErr = recover() }()
		var batch [][]byte
		runTLCcfg(model, cfg, env, func(ln []byte) {
			batch = append(batch, ln)
			if len(batch) == 256 {
				lines <- batch
				batch = nil
			}
		})
		lines <- batch
	}()
	for q := range specs {
		for i := range q {
			visit(q[i].f, q[i].s)
		}
	}
	if tlcErr != nil {
		panic(tlcErr)
	}
	if f := failed.Load(); f != nil {
		must(fmt.Errorf("%v", f))
	}
}

type famSpec struct {
	f *Family
	s *Spec
}

func decodeEnum(fams []Family, ln []byte) famSpec {
	var v struct {
		F int
		W []int
		O [][3]interface{}
		R Outcome
		D bool
	}
	must(json.Unmarshal(ln, &v))
	f := &fams[v.F-1]
	s := &Spec{Text: f.text(v.W), R: v.R, Dead: v.D}
	for _, o := range v.O {
		t := Tok{O: int(o[0].(float64)), E: int(o[1].(float64)), T: o[2].(string)}
		if t.E >= t.O {
			t.X = s.Text[t.O : t.E+1]
			t.X = tokenX(t.T, t.X)
		}
		s.Toks = append(s.Toks, t)
	}
	return famSpec{f, s}
}

// tokenX is the text of a token that is written as x.
func tokenX(kind, x string) string {
	if kind == "ILLEGAL" && len(x) >= 3 && strings.EqualFold(x[:3], "not") {
		return x[:3] + " " + strings.TrimLeft(x[3:], " \t\r\n") // "not" and anything
	}
	return joinWords(x)
}

// joinWords is the text of a token of two words or signs.
func joinWords(x string) string {
	if x == "" || x[0] == '"' || !strings.ContainsAny(x, " \t\r\n") {
		return x
	}
	fs := strings.Fields(x)
	if strings.EqualFold(fs[0], "not") {
		return strings.Join(fs, " ")
	}
	return strings.Join(fs, "")
}

// ------------------------------------------------------------ random texts

func usable(t string) bool {
	// the name BOM of a character must not get into a string
	i := strings.LastIndex(t, "\uFEFF")
	return i <= 0 || !strings.Contains(t, `"`)
}

func randomTexts(seed int64, focus string, n int) []string {
	g := newG(seed, focus)
	var out []string
	for len(out) < n {
		if t := g.make(); usable(t) {
			out = append(out, t)
		}
	}
	return out
}

// okTexts keeps the texts that are specified to be statements.
func okSpecs(sp []*Spec) (out []*Spec) {
	for _, s := range sp {
		if s.R.OK {
			out = append(out, s)
		}
	}
	return
}

// --------------------------------------------------------------- variants

var wordTok = map[string]bool{"TRIGGER": true, "SET": true, "WHEN": true, "REPEAT": true, "RESET": true, "REM": true,
	"OR": true, "AND": true, "EQL": true, "IN": true, "NEARBY": true, "INTERSECTS": true, "TIME": true, "DATE": true,
	"WEEKDAY": true, "MONTH": true, "POINT": true, "MULTIPOINT": true, "LINE": true, "MULTILINE": true, "POLYGON": true,
	"MULTIPOLYGON": true, "COLLECTION": true, "BOOLEAN": true, "NOT_EQ": true, "NOT_IN": true, "NOT_NEARBY": true,
	"NOT_INTERSECTS": true}

// relayout writes the tokens of a text with other blanks between them, and
// with keywords in another case if recase is set. The offsets are those of
// the tokens in the new text.
func relayout(r *rand.Rand, s *Spec, recase bool) (string, []Tok) {
	var b strings.Builder
	blank := func() string {
		b := blanks[r.Intn(len(blanks))]
		if r.Intn(600) == 0 {
			n := 1<<uint(r.Intn(15)) + r.Intn(3)
			if r.Intn(2) == 0 {
				return strings.Repeat(b, n)
			}
			for len(b) < n {
				b += blanks[r.Intn(len(blanks))]
			}
		}
		return b
	}
	if r.Intn(4) == 0 {
		b.WriteString(blank())
	}
	out := make([]Tok, len(s.Toks))
	for i, t := range s.Toks {
		n := t
		x := s.Text[t.O : t.E+1]
		// the blanks inside of "not in" and "> ="
		if len(joinWords(x)) != len(x) || strings.HasPrefix(strings.ToLower(x), "not ") && t.T != "STRING" {
			if fs := strings.Fields(x); len(fs) == 2 {
				x = fs[0] + blank() + fs[1]
			}
		}
		if recase && wordTok[t.T] {
			c := []byte(x)
			for j := range c {
				if c[j] >= 'a' && c[j] <= 'z' && r.Intn(2) == 0 {
					c[j] -= 32
				} else if c[j] >= 'A' && c[j] <= 'Z' && r.Intn(2) == 0 {
					c[j] += 32
				}
			}
			x = string(c)
		}
		if i > 0 && t.E >= t.O {
			p := s.Toks[i-1]
			tight := strings.ContainsAny(s.Text[p.E:p.E+1]+x[:1], "()[]{},;@")
			was := p.E+1 == t.O
			switch {
			case p.T == "ILLEGAL" && p.X == ".": // because a digit follows
			case (tight || was) && r.Intn(2) == 0:
			case was && !tight && r.Intn(4) != 0:
			default:
				b.WriteString(blank())
			}
		}
		n.O, n.X = b.Len(), tokenX(t.T, x)
		b.WriteString(x)
		n.E = b.Len() - 1
		out[i] = n
	}
	if r.Intn(4) == 0 {
		b.WriteString(blank())
		if k := len(out); k > 0 && out[k-1].T == "EOF" {
			out[k-1].O, out[k-1].E = b.Len(), b.Len()-1
		}
	}
	return b.String(), out
}

// far is the same text with many blanks somewhere between its tokens.
func far(r *rand.Rand, s *Spec) *Spec {
	if s.R.Lex || s.Cut || len(s.Toks) == 0 || strings.Contains(s.Text, "\uFEFF") {
		return nil
	}
	k, at := 0, 0
	for try := 0; try < 6; try++ {
		k = r.Intn(len(s.Toks))
		if k == 0 {
			break
		}
		if o := s.Toks[k].O; strings.IndexByte(" \n\t\r", s.Text[o-1]) >= 0 {
			at = o
			break
		}
		k = 0
	}
	n := 1 << uint(8+r.Intn(9))
	if r.Intn(60) == 0 {
		n = 1 << uint(17+r.Intn(6))
	}
	n += r.Intn(40) - 20
	if r.Intn(3) == 0 {
		n = r.Intn(n)
	}
	if r.Intn(2) == 0 && n > at {
		n -= at
	}
	v := &Spec{R: s.R, Text: s.Text[:at] + strings.Repeat(blanks[r.Intn(3)], n) + s.Text[at:]}
	v.Toks = append(v.Toks, s.Toks...)
	for i := k; i < len(v.Toks); i++ {
		v.Toks[i].O += n
		v.Toks[i].E += n
	}
	return v
}

func (s *Spec) describe() string {
	if s.R.OK {
		return s.Text + " => " + s.tree().String()
	}
	if s.R.Lex {
		return s.Text + " => lexical error"
	}
	return fmt.Sprintf("%s => rejected at token %d", s.Text, s.R.Lo)
}
