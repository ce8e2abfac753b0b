package main

import (
	"encoding/json"
	"fmt"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
)

type hopCall struct {
	Op  string
	Tok int
}

func (h *hopCall) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&h.Op, &h.Tok})
}

// replayHistory makes the calls and compares what each shows.
func replayHistory(c *Ctx, s *lexSpec, h []hopCall, text string) {
	at := func(n int) Tok {
		if n == 0 {
			return Tok{}
		}
		if n > len(s.Toks) {
			n = len(s.Toks)
		}
		return s.Toks[n-1]
	}
	var bad []string
	calls := ""
	p := guarded("Scan", text, func() {
		t := gql.NewTokenizer(strings.NewReader(text))
		for _, call := range h {
			w := at(call.Tok)
			if len(h) < 100 {
				calls += " " + call.Op
			}
			switch call.Op {
			case "scan":
				g, _ := oneToken(t)
				if d := diffToken(w, g); d != "" {
					bad = []string{d + " of the token", "specified: " + tokStr(w), "scanned: " + tokStr(g)}
					return
				}
			case "reset":
				t.Reset()
			case "unwind":
				t.Unwind()
			}
			if o := int(t.Offset()); o != w.O {
				bad = []string{"Offset", fmt.Sprintf("specified %d, got %d", w.O, o)}
				return
			}
			if x := t.TokenText(); x != w.X {
				bad = []string{"TokenText", fmt.Sprintf("specified %q, got %q", w.X, x)}
				return
			}
		}
		// the rest of the text is still there
		n := h[len(h)-1].Tok + 1
		if k := len(h); h[k-1].Op == "reset" && h[k-1].Tok > 0 {
			n--
		}
		for ; n <= len(s.Toks)+1; n++ {
			g, _ := oneToken(t)
			if d := diffToken(at(n), g); d != "" {
				bad = []string{d + " of a later token", "specified: " + tokStr(at(n)), "scanned: " + tokStr(g)}
				return
			}
		}
		if t.Err() != nil && !s.Err {
			bad = []string{"Err", t.Err().Error()}
		}
	})
	if len(h) >= 100 {
		calls = fmt.Sprintf(" %d calls, a pushback now and then", len(h))
	}
	c.count("history", fmt.Sprintf("%q:%s", clip(text, 200), calls))
	if p != "" {
		c.violate("panic", text, "calls:"+calls, p)
	} else if bad != nil {
		c.violate(bad[0], text, append([]string{"calls:" + calls}, bad[1:]...)...)
	}
}

var hopTexts = []string{
	"", "a", "when speed > 10", "a>b", "not in", "not in a", "a not intersects b", "NOT", "not > 1", "1..2", "1 .. 2 . 3", "= = = !", "== != >= <= > < = ! .",
	">", ".", "=", "!", "a.", "..", "...", "....", ">=>==", "@ X 1.5 \"s\\\"t\" [ ] { } ( ) , ; : + - * / Mod rem", "é日 Ж 😀 x",
	"when point[1,2]:3Km and a not nearby @b", "\n\n a \t\n b\r\nc", "not not in", "not = in", ">\n=", ". .", "!a", "! =", "not",
	"trigger set x = 1; when a repeat 5 every 10s reset after 1h",
	"\"\\q\" b", "a \"\\x1\" > = b", "\"a", "\"a\nb", "a \x00 not in b", "\xff . . \xc3", "not \"\\8\" >\x00=", "\"\\u12\" \"ok\" \"\\777\"",
}

func init() {
	checks["C16"] = func(c *Ctx) {
		var hs [][]hopCall
		depth := c.n(8, 10)
		runTLC("GqlHop", map[string]string{"GQL_DEPTH": fmt.Sprint(depth)}, func(ln []byte) {
			var v struct{ H []hopCall }
			must(json.Unmarshal(ln, &v))
			hs = append(hs, v.H)
		})
		texts := append([]string{}, hopTexts...)
		for i, t := range themes {
			texts = append(texts, randomTexts(c.Seed*13+int64(i), t, c.n(6, 10))...)
		}
		for len(texts) < c.n(100, 150) {
			texts = append(texts, garbage(c.Rand))
		}
		// the same in other cases
		few := len(texts)
		var words []string
		for i, t := range themes {
			words = append(words, randomTexts(c.Seed*29+int64(i), t, c.n(50, 400))...)
		}
		words = append(append(words, allKeywords()...), hopTexts...)
		for _, s := range oracle(words) {
			if !s.R.Lex && len(s.Text) < 400 {
				for k := c.n(1, 3); k > 0; k-- {
					t, _ := relayout(c.Rand, s, true)
					if len(t) < 1000 {
						texts = append(texts, t)
					}
				}
			}
		}
		for n, s := range lexOracle(texts) {
			if s.Err {
				// the tokens around an error are whatever scanning gives
				r := scanAll(s.Text, strings.NewReader(s.Text), 1)
				if s.Toks = r.Toks; len(s.Toks) < 2 || s.Toks[len(s.Toks)-2] != s.Toks[len(s.Toks)-1] {
					continue
				}
				s.Toks = s.Toks[:len(s.Toks)-1]
			}
			for i, h := range hs {
				if n >= few && c.Intn(60) != 0 {
					continue
				}
				if !c.Thorough && i%3 != 0 && len(s.Text) > 12 && c.Intn(3) != 0 {
					continue
				}
				replayHistory(c, s, h, s.Text)
			}
			// longer histories at random
			for i := 0; i < c.n(100, 1000); i++ {
				var h []hopCall
				next, hop := 0, false
				for n := 5 + c.Intn(60); n > 0; n-- {
					switch c.Intn(5) {
					case 0:
						hop = next > 0
						h = append(h, hopCall{"reset", next})
					case 1:
						hop = false
						h = append(h, hopCall{"unwind", next})
					default:
						if !hop {
							next++
						}
						hop = false
						h = append(h, hopCall{"scan", next})
					}
				}
				replayHistory(c, s, h, s.Text)
			}
		}
		// very long texts: a pushback at every token, or at few of them
		for i, n := range []int{300, 3000, c.n(70000, 140000)} {
			words := []string{"a", "not in", "not", ">", ">=", "1.5", "\"s\"", ".", "..", "é"}
			if i == 0 {
				words = words[:1]
			}
			var b strings.Builder
			for k := 0; k < n; k++ {
				b.WriteString(words[c.Intn(len(words))] + " ")
			}
			text := b.String()
			toks := scanAll(text, strings.NewReader(text), 1).Toks
			s := &lexSpec{Text: text, Toks: toks[:len(toks)-1]}
			for _, every := range []int{1, 1000} {
				var h []hopCall
				for k := 1; k <= len(s.Toks); k++ {
					h = append(h, hopCall{"scan", k})
					if k%every == 0 || k%256 == 0 || k%1000 == 255 {
						h = append(h, hopCall{"reset", k}, hopCall{"scan", k})
					}
				}
				replayHistory(c, s, append(h, hopCall{"reset", len(s.Toks)}), text)
			}
		}
		c.exhaust = c.Thorough
	}
}
