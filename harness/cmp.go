package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
)

// compare lists how the implementation's treatment of a text differs from the
// specified outcome. Classes: outcome, accept, kind, value, arity, pos, errpos.
func compare(s *Spec) (out []Diff) {
	r := realParse(s.Text)
	return compareResult(s, r)
}

func compareResult(s *Spec, r Result) (out []Diff) {
	o := r.outcome()
	if o != "ok" && o != "error" {
		return []Diff{{"outcome", "", "", "a statement or an error", o + " " + r.Panic}}
	}
	want := "error"
	if s.R.OK {
		want = "ok"
	}
	if want != o {
		got := o
		if r.Err != nil {
			got += " " + errText(r.Err)
		}
		kind := ""
		if s.R.Lex {
			kind = "lex"
		}
		return []Diff{{"accept", kind, "", want, got}}
	}
	if o == "ok" {
		diffTrees(s.tree(), r.tree(), "", &out)
		return out
	}
	return compareError(s, r.Err)
}

func errText(err error) (t string) {
	defer func() {
		if r := recover(); r != nil {
			t = fmt.Sprintf("panic in Error(): %v", r)
		}
	}()
	return err.Error()
}

// compareError checks where a rejection is reported: at the start of a token
// between the first that no continuation can repair and the last at which a
// parser may notice; the text before it and the token itself are quoted.
func compareError(s *Spec, err error) (out []Diff) {
	add := func(class, w, g string) { out = append(out, Diff{class, "error", "", w, g}) }
	var e *gql.Error
	if !errors.As(err, &e) {
		add("errtype", "*Error", fmt.Sprintf("%T", err))
		return
	}
	if e.Offset < 0 || e.Offset > len(s.Text) {
		add("errpos", fmt.Sprintf("0..%d", len(s.Text)), fmt.Sprint(e.Offset))
		return
	}
	if e.Msg != s.Text[:e.Offset] {
		add("errmsg", fmt.Sprintf("%q", s.Text[:e.Offset]), fmt.Sprintf("%q", e.Msg))
	}
	// what Error says has the place, the text before it and the token
	t := errText(err)
	for _, part := range []string{strconv.Itoa(e.Offset), e.Lit, strings.TrimSpace(e.Msg)} {
		if !strings.Contains(t, part) {
			add("errtext", fmt.Sprintf("containing %q", part), fmt.Sprintf("%q", t))
		}
	}
	if strings.Contains(t, "%!") && !strings.Contains(s.Text, "%!") {
		add("errtext", "what the text says, as it is", fmt.Sprintf("%q", t))
	}
	if s.R.Lex {
		return
	}
	var at *Tok
	idx := 0
	for i := range s.Toks {
		if s.Toks[i].O == e.Offset {
			at, idx = &s.Toks[i], i+1
			break
		}
	}
	switch {
	case at == nil:
		add("errpos", "the start of a token", fmt.Sprint(e.Offset))
	case idx < s.R.Lo:
		add("errpos", fmt.Sprintf("not before token %d at %d", s.R.Lo, s.at(s.R.Lo, false)), fmt.Sprint(e.Offset))
	case idx > s.R.Hi:
		add("errpos", fmt.Sprintf("not after token %d at %d", s.R.Hi, s.at(s.R.Hi, false)), fmt.Sprint(e.Offset))
	case e.Lit != tokText(at):
		add("errlit", fmt.Sprintf("%q", tokText(at)), fmt.Sprintf("%q", e.Lit))
	}
	return
}

// tokText is the source text of a token of the specification.
func tokText(t *Tok) string {
	if t.T == "ILLEGAL" { // the name of a character
		return strings.ReplaceAll(t.X, "BOM", "\uFEFF")
	}
	return t.X
}
