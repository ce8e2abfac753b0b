package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"unicode/utf8"

	gql "github.com/mmadfox/go-geoql-parser"
)

// tokens of a text, as the Tokenizer delivers them

// lexSpec is the specified token sequence of a text.
type lexSpec struct {
	Text string
	Toks []Tok
	Prec []int
	Err  bool
	Dead bool // the error is in the text, not at its end
}

type scanned struct {
	Toks  []Tok
	Prec  []int
	Err   error
	Count int
	Panic string
}

func tokenName(t gql.Token) string {
	if n, ok := tokName[t]; ok {
		return n
	}
	return fmt.Sprintf("Token(%d)", t)
}

func oneToken(t *gql.Tokenizer) (k Tok, prec int) {
	tok, lit := t.Scan()
	k = Tok{T: tokenName(tok), L: lit, X: t.TokenText(), O: int(t.Offset())}
	return k, tok.Precedence()
}

// scanAll reads all tokens and, after the end, more times.
func scanAll(text string, src io.Reader, more int) (r scanned) {
	r.Panic = guarded("Scan", text, func() {
		t := gql.NewTokenizer(src)
		for n := 0; ; n++ {
			k, p := oneToken(t)
			r.Toks = append(r.Toks, k)
			r.Prec = append(r.Prec, p)
			if k.T == "EOF" {
				if more == 0 {
					break
				}
				more--
			}
			if n > len(text)+20 {
				break
			}
		}
		r.Err, r.Count = t.Err(), t.ErrorCount()
	})
	return
}

func tokStr(k Tok) string { return fmt.Sprintf("%s %q text %q at %d", k.T, k.L, k.X, k.O) }

// fixBOM puts the byte order mark in where the specification names it.
func fixBOM(text string, ts []Tok) {
	if strings.Contains(text, "\uFEFF") {
		for i := range ts {
			ts[i].L = strings.ReplaceAll(ts[i].L, "BOM", "\uFEFF")
			ts[i].X = strings.ReplaceAll(ts[i].X, "BOM", "\uFEFF")
		}
	}
}

// diffToken compares what can be seen of a token.
func diffToken(w, g Tok) string {
	switch {
	case w.T != g.T:
		return "kind"
	case w.L != g.L:
		return "literal"
	case w.X != g.X:
		return "text"
	case w.O != g.O:
		return "offset"
	}
	return ""
}

// checkTokens compares a scan with the specified tokens.
func checkTokens(c *Ctx, s *lexSpec, r scanned, more int) {
	if r.Panic != "" {
		c.violate("panic", s.Text, r.Panic)
		return
	}
	if (r.Err != nil) != s.Err {
		c.violate("error", s.Text, fmt.Sprintf("specified: lexical error %v; Err() is %v", s.Err, r.Err))
		return
	}
	if (r.Count > 0) != s.Err {
		c.violate("error count", s.Text, fmt.Sprintf("specified: lexical error %v; ErrorCount() is %v", s.Err, r.Count))
		return
	}
	want := s.Toks
	if !s.Err {
		for i := 0; i < more; i++ {
			want = append(want[:len(want):len(want)], s.Toks[len(s.Toks)-1])
		}
		if len(r.Toks) != len(want) {
			c.violate("number of tokens", s.Text, fmt.Sprintf("specified: %d; scanned: %d %v", len(want), len(r.Toks), r.Toks))
			return
		}
	} else if len(r.Toks) < len(want) {
		c.violate("number of tokens", s.Text, fmt.Sprintf("specified before the error: %d; scanned: %d %v", len(want), len(r.Toks), r.Toks))
		return
	}
	for i, w := range want {
		if d := diffToken(w, r.Toks[i]); d != "" {
			c.violate("token "+d, s.Text, fmt.Sprintf("token %d", i+1), "specified: "+tokStr(w), "scanned: "+tokStr(r.Toks[i]))
			return
		}
		if i < len(s.Prec) && r.Prec[i] != s.Prec[i] {
			c.violate("precedence", s.Text, fmt.Sprintf("%s: specified %d, got %d", tokStr(w), s.Prec[i], r.Prec[i]))
			return
		}
	}
	if r.Toks[len(r.Toks)-1].T != "EOF" {
		c.violate("no end", s.Text, fmt.Sprint(len(r.Toks), " tokens and no EOF"))
	}
}

// CFamily is a family of texts over characters.
type CFamily struct {
	Name   string     `json:"name"`
	Prefix []string   `json:"prefix"`
	Words  [][]string `json:"words"`
	Depth  int        `json:"depth"`
}

func (f *CFamily) text(ws []int) string {
	t := unchars(f.Prefix)
	for _, w := range ws {
		t += unchars(f.Words[w-1])
	}
	return t
}

func each(s string) (out [][]string) {
	for _, c := range chars(s) {
		out = append(out, []string{c})
	}
	return
}

func words(ws ...string) (out [][]string) {
	for _, w := range ws {
		out = append(out, chars(w))
	}
	return
}

func charFamilies(thorough bool) (out []CFamily) {
	add := func(name, prefix string, ws [][]string, d, t int) {
		if thorough {
			d = t
		}
		out = append(out, CFamily{name, append([]string{}, chars(prefix)...), ws, d})
	}
	var ascii string
	for b := byte(1); b < 128; b++ {
		ascii += string(rune(b))
	}
	uni := "éÉжЖµ·٣日本€…😀\uFEFF\x00\xff"
	add("any", "", each(ascii+uni), 2, 3)
	add("number", "", each("09._ex-1a '"), 4, 6)
	add("signs", "", each(".=!<> a1"), 5, 7)
	add("not", "not", append(each(" \nx1_!"), words("in", "IN", "not", "eq", "Nearby", "intersects", "and", " in", " eq")...), 3, 4)
	add("string", "\"", each("\"\\nxuU07afg\n '"), 4, 5)
	add("hex", "\"\\u00", each("0aFg\"\\\n"), 5, 6)
	add("hex8", "\"\\U0000", each("0Fg\""), 6, 7)
	add("unicode", "", each("éжµ日😀€\uFEFF٣·…\x00\xffa1\" "), 4, 5)
	add("identifier", "", each("aZ_9é٣Ж. -@"), 4, 6)
	var kws []string
	for _, k := range strings.Fields("trigger set when repeat reset rem mod or and eq in range nearby intersects time date weekday month " +
		"point multipoint line multiline polygon multipolygon collection true false up down not Point OR mOd WHEN trUe") {
		kws = append(kws, k)
	}
	add("keyword", "", append(words(kws...), each(" x1_.\n-([")...), 2, 3)
	add("not keyword", "Not ", append(words(kws...), each(" x=\n")...), 2, 2)
	return
}

func enumChars(fams []CFamily, visit func(f *CFamily, s *lexSpec)) {
	vals := make([]interface{}, len(fams))
	for i := range fams {
		vals[i] = fams[i]
	}
	in := writeJSON("chars.json", vals)
	runTLC("LexEnum", map[string]string{"GQL_ENUM": in}, func(ln []byte) {
		var v struct {
			F    int
			W    []int
			Err  bool
			Dead bool
			Toks []Tok
			Prec []int
		}
		must(json.Unmarshal(ln, &v))
		f := &fams[v.F-1]
		s := &lexSpec{Text: f.text(v.W), Toks: v.Toks, Prec: v.Prec, Err: v.Err, Dead: v.Dead}
		fixBOM(s.Text, s.Toks)
		visit(f, s)
	})
}

// garbage is text that may be anything.
func garbage(r *rand.Rand) string {
	parts := []string{"a", "not", "In", "not in", "1", "2.5", "1_0", ".", "..", "...", ".5", "=", "==", "!", "!=", ">", ">=", "<", "\"s\"", "\"\\\"\"",
		"\"\\u00e9\"", "\"日\"", "(", ")", "[", "]", "{", "}", ",", ":", ";", "@", "+", "-", "*", "/", "//", "/*", "'", "`", "#", "$", "é", "µs", "日本", "😀",
		"WHEN", "trigger", "point", "Mod", "REM", "range", "up", "%", "٣", "·", "&", "|", "^", "~", "?", "\\"}
	var b strings.Builder
	for i, n := 0, r.Intn(30); i < n; i++ {
		b.WriteString(parts[r.Intn(len(parts))])
		if r.Intn(3) == 0 {
			b.WriteString(blanks[r.Intn(len(blanks))])
		}
	}
	if r.Intn(12) == 0 {
		b.WriteString([]string{"\x00", "\xff", "\"", "\"\n", "\"\\q\"", "\xc3"}[r.Intn(6)])
		b.WriteString(parts[r.Intn(len(parts))])
	}
	t := b.String()
	if !usable(t) {
		return "a"
	}
	return t
}

// lexOracle gives the specified tokens of texts.
func lexOracle(texts []string) (out []*lexSpec) {
	for _, s := range oracle(texts) {
		l := &lexSpec{Text: s.Text, Toks: s.Toks, Err: s.R.Lex}
		if l.Err {
			// tokens formed after an error are not specified
			l.Toks = nil
		}
		fixBOM(l.Text, l.Toks)
		out = append(out, l)
	}
	return
}

// wideTexts have characters whose code is, in its lower or upper bits, that of
// an ASCII character that means something.
func wideTexts(c *Ctx) (out []string) {
	ascii := " \t\n\r\v\f\"'`\\/*.,:;@()[]{}+-<>=!%_019azAZnNTt\x1f\x7f"
	var rs []rune
	for _, a := range ascii {
		for _, d := range []rune{0x80, 0x100, 0x120, 0x140, 0x180, 0x200, 0x300, 0x400, 0x500, 0x600, 0x700, 0x800, 0x1000, 0x1f00, 0x2000, 0x2100, 0x3000, 0x4000, 0x8000,
			0xa000, 0xc000, 0xe000, 0xff00, 0xfee0, 0x10000, 0x20000, 0x30000, 0x40000, 0x80000, 0x100000, 0x10f000} {
			rs = append(rs, a+d)
		}
	}
	for r := rune(0x80); r < 0x3100; r++ { // all of the scripts of letters, blanks and marks
		if c.Thorough || c.Intn(12) == 0 || r < 0x180 || 0x2000 <= r && r < 0x2070 {
			rs = append(rs, r)
		}
	}
	for i := 0; i < c.n(300, 20000); i++ {
		rs = append(rs, rune(c.Intn(0x110000)))
	}
	for ch := ' '; ch < 127; ch++ { // all escapes, whether they exist or not
		e := "\\" + string(ch)
		out = append(out, "\""+e+"\"", "\"a"+e+"b\" c", "\"\\n"+e+"41 \"")
	}
	before := []string{"", "", "a", " ", "1", "1.", "\"", "not ", ".", "=", "/"}
	after := []string{"", "a", " b", "1", "\"", "=", ".", "\n", "in"}
	for _, r := range rs {
		if !utf8.ValidRune(r) || r < 0x80 || r == 0x130 || r == 0xFEFF || r == utf8.RuneError {
			continue
		}
		k := 1
		if c.Thorough {
			k = 4
		}
		for ; k > 0; k-- {
			b, a := before[c.Intn(len(before))], after[c.Intn(len(after))]
			if b == "\"" {
				a = "\" "
			}
			out = append(out, b+string(r)+a, string(r)+[]string{" 1", "a", ""}[c.Intn(3)])
		}
	}
	return
}

// keywordStrings: the word of a kind of token is scanned as that kind.
func keywordStrings(c *Ctx) {
	var ks []gql.Token
	var texts []string
	for k := gql.Token(0); k < 300; k++ {
		word := ""
		p := guarded("KeywordString", fmt.Sprint(k), func() { word = gql.KeywordString(k) })
		if p != "" {
			c.violate("panic", fmt.Sprint(k), p)
		}
		if word != "" && usable(word) {
			ks, texts = append(ks, k), append(texts, word)
		}
	}
	for i, s := range oracle(texts) {
		c.count("word of a kind", s.Text)
		if s.R.Lex || len(s.Toks) != 2 || s.Toks[0].T != tokName[ks[i]] {
			c.violate("KeywordString", s.Text, "this is given for the kind "+tokName[ks[i]], fmt.Sprintf("which it is scanned as: %v", s.Toks))
		}
	}
}

func init() {
	checks["C14"] = func(c *Ctx) {
		one := func(kind string, s *lexSpec) {
			if s.Err {
				kind += ", lexical error"
			}
			c.count(kind, fmt.Sprintf("%q => %v", s.Text, s.Toks))
			checkTokens(c, s, scanAll(s.Text, strings.NewReader(s.Text), 2), 2)
		}
		enumChars(charFamilies(c.Thorough), func(f *CFamily, s *lexSpec) {
			one("enumerated "+f.Name, s)
			if s.Dead && c.Intn(4) == 0 {
				// the error stays, whatever follows
				t := *s
				t.Text += []string{"", " a", "\"", "\n1 2", "\"\"\n(", " when a > 1"}[c.Intn(6)]
				one("continued "+f.Name, &t)
			}
		})
		n := c.n(4000, 60000)
		var texts []string
		for len(texts) < n {
			texts = append(texts, garbage(c.Rand))
		}
		for i, t := range themes {
			texts = append(texts, randomTexts(c.Seed*31+int64(i), t, n/6)...)
		}
		batch := func(kind string, texts []string, size int) {
			for len(texts) > 0 {
				k := len(texts)
				if k > size {
					k = size
				}
				for _, s := range lexOracle(texts[:k]) {
					one(kind, s)
				}
				texts = texts[k:]
			}
		}
		batch("random", texts, 20000)
		texts = nil
		for i := c.n(50, 500); i > 0; i-- {
			texts = append(texts, longText(c.Rand))
		}
		batch("long", texts, 2000)
		keywordStrings(c)
		batch("words like keywords", likeKeywords(c), c.n(4000, 20000))
		batch("characters like ASCII ones", wideTexts(c), c.n(1600, 6000)) // a table of characters is large
	}
}

// likeKeywords are words that might be taken for a keyword, and are not, and
// the same after not.
func likeKeywords(c *Ctx) (out []string) {
	ours := strings.Fields("trigger set when repeat reset or and rem mod eq in range nearby intersects not time date weekday month " +
		"point multipoint line multiline polygon multipolygon collection true false up down")
	var ws []string
	for _, w := range ours {
		for _, x := range strings.Fields("s es ed ing ulo ainder ainer er al ly not in a e x _ 1 0 2d ² Ⅷ ٣ é ſ ı µ \u212a \u0301 - ' :") {
			ws = append(ws, w+x, x+w)
		}
		for i := range w {
			ws = append(ws, w[:i]+w[i+1:], w[:i]+w[i:i+1]+w[i:], w[:i]+string('a'+rune(c.Intn(26)))+w[i+1:],
				w[:i]+"_"+w[i:], w[:i]+" "+w[i:], w[:i]+"-"+w[i:])
			if i > 0 {
				ws = append(ws, w[:i], w[:i-1]+w[i:i+1]+w[i-1:i]+w[i+1:])
			}
		}
		// letters with the same upper or lower case
		for _, p := range []string{"s\u017f", "i\u0131", "i\u0130", "k\u212a", "m\u00b5", "a\uff41", "e\u0435", "o\u043e", "p\u0440"} {
			ws = append(ws, strings.ReplaceAll(w, p[:1], p[1:]))
		}
		for _, v := range ours {
			ws = append(ws, w+v, w+"_"+v)
		}
	}
	for _, w := range foreign {
		ws = append(ws, strings.ReplaceAll(w, "~", " "))
	}
	ws = append(ws, strings.Fields("modulo remainder modulus equals equal eqs neq ne ge le gt lt intersect intersected nearly near within inside contains ranges between on off yes no null none variable var let where if as every after each \u00b5 \u00b5x \u017fet \u212am K\u212a")...)
	for _, w := range ws {
		switch c.Intn(4) {
		case 0:
			w = strings.ToUpper(w)
		case 1:
			w = strings.Title(w)
		}
		out = append(out, w)
		if c.Intn(3) == 0 {
			out = append(out, "not "+w)
		}
	}
	return
}
