package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
)

func realFormat(text string, st gql.Statement) (out string, err error, pan string) {
	var b strings.Builder
	pan = guarded("Format", text, func() { err = gql.Format(&b, st) })
	return b.String(), err, pan
}

// accepted visits specified statements that the implementation accepts with
// the specified tree; other differences are not the concern of the caller.
func (c *Ctx) accepted(ths []string, model, cfg string, quick, thorough int, visit func(kind string, s *Spec, r Result)) {
	one := func(kind string, s *Spec) {
		r := realParse(s.Text)
		if r.outcome() != "ok" || !s.R.OK {
			return
		}
		visit(kind, s, r)
	}
	rng := rand.New(rand.NewSource(c.Seed))
	var fams []Family
	for _, t := range ths {
		if t != "" {
			fams = append(fams, families(t, c.Thorough, len(ths) > 2)...)
		}
	}
	if model != "" {
		enumerateWith(model, cfg, fams, func(f *Family, s *Spec) {
			if !s.R.OK {
				return
			}
			one("enumerated "+f.Name, s)
			v := &Spec{R: s.R}
			v.Text, v.Toks = relayout(rng, s, true)
			one("laid out "+f.Name, v)
		})
	}
	c.drawn(ths, c.n(quick, thorough), 104729, one)
}

var wide = append([]string{""}, themes...)

type written struct {
	kind, src, out string
	tree           *N // of the statement that was written
}

// valueDiffs are the differences of two trees besides positions.
func valueDiffs(want, got *N) (out []Diff) {
	var ds []Diff
	diffTrees(want, got, "", &ds)
	for _, d := range ds {
		if d.Class != "pos" {
			out = append(out, d)
		}
	}
	return
}

// checkWritten reads the texts that Format wrote as specified.
func (c *Ctx) checkWritten(batch []written, check func(w written, s *Spec, words []string)) {
	vals := make([]interface{}, len(batch))
	for i, w := range batch {
		vals[i] = map[string]interface{}{"c": chars(w.out)}
	}
	if len(vals) == 0 {
		return
	}
	seen := 0
	in := writeJSON("written.json", vals)
	runTLC("GqlFormatOracle", map[string]string{"GQL_IN": in}, func(ln []byte) {
		var v struct {
			I    int
			R    Outcome
			Toks []Tok
			W    []string
		}
		must(json.Unmarshal(ln, &v))
		w := batch[v.I-1]
		seen++
		check(w, &Spec{Text: w.out, R: v.R, Toks: v.Toks}, v.W)
	})
	if seen != len(batch) {
		must(fmt.Errorf("%d of %d texts read", seen, len(batch)))
	}
}

// sameWords compares the words of a text with the canonical ones.
func sameWords(toks []Tok, words []string) string {
	i := 0
	next := func() Tok {
		i++
		if i > len(toks) {
			return Tok{T: "end"}
		}
		return toks[i-1]
	}
	isNum := func(s string) bool { return s != "" && s[0] >= '0' && s[0] <= '9' }
	value := func(s string) (float64, bool) {
		v, err := strconv.ParseFloat(s, 64)
		return v, err == nil
	}
	for k := 0; k < len(words); k++ {
		w := words[k]
		if w == "{" { // the order of the names is not specified
			t := next()
			if t.X != "{" {
				return fmt.Sprintf("%q instead of {", t.X)
			}
			want, got := map[string]int{}, map[string]int{}
			for ; k < len(words) && words[k] != "}"; k++ {
				want[words[k]]++
			}
			for t.T != "RBRACE" && t.T != "end" {
				got[t.X]++
				t = next()
			}
			if fmt.Sprint(want) != fmt.Sprint(got) {
				return fmt.Sprintf("arguments %v instead of %v", got, want)
			}
			continue
		}
		t := next()
		switch {
		case w[0] == '#':
			u := next()
			if !isNum(t.X) || u.T != "SELECTOR" {
				return fmt.Sprintf("%q %q instead of a duration", t.X, u.X)
			}
		case isNum(w):
			a, ok := value(w)
			b, ok2 := value(t.X)
			if !ok || !ok2 || a != b {
				return fmt.Sprintf("%q instead of %q", t.X, w)
			}
			// the digits of dates and times
			if len(w) > 1 && w[0] == '0' && w[1] != '.' && t.X != w {
				return fmt.Sprintf("%q instead of %q", t.X, w)
			}
		case t.X != w:
			return fmt.Sprintf("%q instead of %q", t.X, w)
		}
	}
	if t := next(); t.T != "EOF" {
		return fmt.Sprintf("superfluous %q", t.X)
	}
	return ""
}

// formatFile writes how each text of the file is formatted.
func formatFile(file string) {
	b, err := os.ReadFile(file)
	must(err)
	var texts []string
	must(json.Unmarshal(b, &texts))
	var outs []string
	for _, t := range texts {
		r := realParse(t)
		if r.outcome() != "ok" {
			outs = append(outs, "")
			continue
		}
		out, _, _ := realFormat(t, r.Stmt)
		outs = append(outs, out)
	}
	must(json.NewEncoder(os.Stdout).Encode(outs))
}

// environment is what the p-th process finds around it.
func environment(p int) (env []string) {
	if p == 0 {
		return nil
	}
	locale := []string{"C", "de_DE.UTF-8", "tr_TR.UTF-8", "en_US.UTF-8", "ja_JP.SJIS"}[p%5]
	if p%3 == 0 { // nothing but the locale
		return []string{"LC_ALL=" + locale}
	}
	env = append(os.Environ(), "TZ="+[]string{"UTC", "Pacific/Apia", "Asia/Kolkata"}[p%3])
	for _, k := range []string{"LANG", "LANGUAGE", "LC_TIME", "LC_NUMERIC", "LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MEASUREMENT", "LC_MONETARY"} {
		env = append(env, k+"="+locale)
	}
	for _, k := range []string{"DEBUG", "VERBOSE", "CI", "NO_COLOR", "GEOQL", "GEOQL_DEBUG", "TEST", "GO_TEST"} {
		env = append(env, k+"=1")
	}
	return append(env, "HOME=/nonexistent", "USER=nobody", "COLUMNS="+[]string{"10", "200"}[p%2], "LINES=5", "TERM=dumb",
		"GOMAXPROCS="+[]string{"1", "3"}[p%2], "GODEBUG=madvdontneed=1", "GOGC="+[]string{"5", "off"}[p%2])
}

// otherProcesses formats the texts in processes of their own.
func (c *Ctx) otherProcesses(texts, outs []string, n int) {
	b, err := json.Marshal(texts)
	must(err)
	file := filepath.Join(scratch, "format.json")
	must(os.WriteFile(file, b, 0o600))
	for p := 0; p < n; p++ {
		cmd := exec.Command(os.Args[0], file)
		cmd.Env = append(environment(p), "GQL_FORMAT=1", "GQL_CHILD=")
		if p%2 == 1 {
			cmd.Dir = scratch
		}
		b, err := cmd.Output()
		must(err)
		var got []string
		must(json.Unmarshal(b, &got))
		for i, t := range texts {
			c.count("in another process", t)
			if got[i] != outs[i] {
				c.violate("deterministic", t, "one process writes", outs[i], "and another", got[i])
			}
		}
	}
}

func init() {
	checks["C09"] = func(c *Ctx) {
		var batch []written
		seen := map[string]bool{}
		flush := func() {
			c.checkWritten(batch, func(w written, s *Spec, _ []string) {
				c.count(w.kind, w.src+" => "+w.out)
				if !s.R.OK {
					c.violate("accept", w.src, "Format writes a text that is no statement:", w.out, s.describe())
				}
				for _, d := range valueDiffs(w.tree, s.tree()) {
					c.violate(d.Class+" "+d.Kind, w.src, "Format writes another statement:", w.out,
						"at "+d.Path+": written "+d.Got+", in the syntax tree "+d.Want)
				}
				// and Parse reads it back
				r := realParse(w.out)
				if r.outcome() != "ok" {
					c.violate("outcome", w.src, "Parse rejects what Format writes:", w.out, errText(r.Err))
				}
				for _, d := range valueDiffs(w.tree, r.tree()) {
					c.violate(d.Class+" "+d.Kind, w.src, "Parse reads back another statement:", w.out, d.String())
				}
			})
			batch = nil
		}
		c.accepted(wide, "GqlFormatEnum", "GqlEnumOk", 9000, 200000, func(kind string, s *Spec, r Result) {
			out, err, pan := realFormat(s.Text, r.Stmt)
			if pan != "" || err != nil {
				c.violate("outcome", s.Text, "Format fails", pan, fmt.Sprint(err))
			}
			// the same output twice is one behaviour, if it stands for the same tree
			t := r.tree()
			key := out + "\x00" + t.String()
			if seen[key] {
				c.count(kind+", written before", s.Text)
				return
			}
			seen[key] = true
			batch = append(batch, written{kind, s.Text, out, t})
		})
		for len(batch) > 0 {
			rest := batch
			if len(batch) > 20000 {
				rest, batch = batch[20000:], batch[:20000]
				flush()
				batch = rest
				continue
			}
			flush()
		}
	}
	checks["C10"] = func(c *Ctx) {
		var batch []written
		texts := map[string][2]string{} // by tree: the text, a source
		c.accepted(wide, "GqlFormatEnum", "GqlFormatEnum", 9000, 200000, func(kind string, s *Spec, r Result) {
			before := r.tree()
			out, err, pan := realFormat(s.Text, r.Stmt)
			if pan != "" || err != nil {
				c.violate("outcome", s.Text, "Format fails", pan, fmt.Sprint(err))
			}
			for i := 0; i < 3; i++ {
				if again, _, _ := realFormat(s.Text, r.Stmt); again != out {
					c.violate("deterministic", s.Text, "Format writes", out, "and then", again)
				}
			}
			var ds []Diff
			diffTrees(before, r.tree(), "", &ds)
			for _, d := range ds {
				c.violate("mutation", s.Text, "Format changes the tree", d.String())
			}
			c.count(kind, s.Text+" => "+out)
			key := before.String()
			if was, ok := texts[key]; ok {
				if was[0] != out {
					c.violate("canonical", s.Text, "the same statement is written", was[0], "when it is read from", was[1], "and", out)
				}
				return
			}
			texts[key] = [2]string{out, s.Text}
			r2 := realParse(out)
			if r2.outcome() == "ok" && len(valueDiffs(before, r2.tree())) == 0 {
				if again, _, _ := realFormat(out, r2.Stmt); again != out {
					c.violate("idempotent", s.Text, "Format writes", out, "and of that", again)
				}
			}
			batch = append(batch, written{kind, s.Text, out, before})
		})
		var srcs, outs []string
		for _, w := range batch {
			if k := c.n(600, 4000); len(batch) <= k || c.Intn(len(batch)/k) == 0 {
				srcs, outs = append(srcs, w.src), append(outs, w.out)
			}
		}
		for _, t := range corpus {
			if r := realParse(t); r.outcome() == "ok" {
				out, _, _ := realFormat(t, r.Stmt)
				srcs, outs = append(srcs, t), append(outs, out)
			}
		}
		c.otherProcesses(srcs, outs, c.n(16, 40))
		for i := 0; i < len(batch); i += 20000 {
			j := i + 20000
			if j > len(batch) {
				j = len(batch)
			}
			c.checkWritten(batch[i:j], func(w written, s *Spec, words []string) {
				if !s.R.OK {
					return // that is C09
				}
				c.count("words of "+w.kind, strings.Join(words, " "))
				if d := sameWords(s.Toks, words); d != "" {
					c.violate("words", w.src, d, "written:", w.out, "canonical:", strings.Join(words, " "))
				}
			})
		}
	}
}
