package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
)

// How a reader delivers a text (ScanBuf.tla), replayed on the Tokenizer.

type readStep struct {
	N    int
	What string // ok, end, fail
}

func (s *readStep) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&s.N, &s.What})
}

// errors that a reader may fail with
var errReaders = []error{errors.New("the reader failed"), io.ErrUnexpectedEOF, io.ErrNoProgress, errors.New("EOF"),
	&os.PathError{Op: "read", Path: "x", Err: os.ErrClosed}, errors.New(""), io.ErrShortBuffer}

func init() {
	for _, e := range errWriters {
		if e != nil && e != io.EOF { // which is how a reader ends
			errReaders = append(errReaders, e)
		}
	}
}

// script is a reader that follows a schedule, and then ends as it ended.
type script struct {
	text   string
	pos    int
	steps  []readStep
	last   string
	calls  int
	rest   int   // bytes of the step that did not fit
	how    error // what it fails with
	broken bool  // it has failed
}

func (s *script) Read(p []byte) (int, error) {
	if len(s.steps) == 0 {
		if s.calls++; s.calls > 1000000 {
			panic("the reader is read without end")
		}
	}
	report := func(n int, what string) (int, error) {
		s.last = what
		switch what {
		case "end":
			return n, io.EOF
		case "fail":
			s.broken = true
			return n, s.failure()
		}
		return n, nil
	}
	if len(p) == 0 {
		panic("Read with an empty buffer")
	}
	if len(s.steps) == 0 {
		if s.last == "fail" {
			return 0, s.failure()
		}
		if s.broken {
			return 0, io.EOF
		}
		n := copy(p, s.text[s.pos:])
		s.pos += n
		if n == 0 {
			return 0, io.EOF
		}
		return n, nil
	}
	st := &s.steps[0]
	n := st.N
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.text)-s.pos {
		n = len(s.text) - s.pos
	}
	copy(p, s.text[s.pos:s.pos+n])
	s.pos += n
	if n < st.N && s.pos < len(s.text) {
		st.N -= n // the remainder with the next call
		return n, nil
	}
	what := st.What
	s.steps = s.steps[1:]
	return report(n, what)
}

func (s *script) failure() error {
	if s.how == nil {
		return errReaders[0]
	}
	return s.how
}

func (s *script) describe() string {
	var b strings.Builder
	for i, st := range s.steps {
		if i > 12 {
			b.WriteString(" …")
			break
		}
		fmt.Fprintf(&b, " %d/%s", st.N, st.What)
	}
	return b.String()
}

type schedule struct {
	Text  string // without padding
	Reads []readStep
	Fail  bool
}

func anyErr(c *Ctx) error { return errReaders[c.Intn(len(errReaders))] }

func (s *schedule) delivered() int {
	n := 0
	for _, r := range s.Reads {
		n += r.N
	}
	return n
}

// schedules are the behaviours of ScanBuf.
func schedules(faults bool, length int, visit func(s *schedule)) {
	f := "0"
	if faults {
		f = "1"
	}
	runTLC("ScanBuf", map[string]string{"GQL_FAULTS": f, "GQL_LEN": fmt.Sprint(length)}, func(ln []byte) {
		var v struct {
			P     []string
			Reads []readStep
			Fail  bool
		}
		must(json.Unmarshal(ln, &v))
		s := &schedule{Reads: v.Reads, Fail: v.Fail}
		for _, p := range v.P {
			if p == "CUT" {
				s.Text += "😀"[:2]
			} else {
				s.Text += p
			}
		}
		visit(s)
	})
}

// the text before a schedule puts it at the end of the buffer of 1024 bytes
var padLens = []int{0, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2046, 2047}

func padding(kind, n int) string {
	switch kind {
	case 0:
		return strings.Repeat(" ", n)
	case 1:
		return strings.Repeat("a", n)
	case 2:
		if n == 0 {
			return ""
		}
		return "\"" + strings.Repeat("b", n-1)
	case 3:
		return strings.Repeat("1", n)
	case 4:
		return strings.Repeat("é", n/2) + strings.Repeat("a", n%2)
	}
	return strings.Repeat("a \n> ", n/5) + strings.Repeat("=", n%5)
}

const padKinds = 6

// cutReads splits n bytes at random.
func cutReads(r *rand.Rand, n int) (out []readStep) {
	style := r.Intn(6)
	for n > 0 {
		k := n
		switch style {
		case 0:
			k = 1
		case 1:
			k = 1 + r.Intn(4)
		case 2:
			k = 1 + r.Intn(1500)
		case 3:
			k = []int{1, 1023, 1024, 1025, 511, 2}[r.Intn(6)]
		case 4:
			k = 1 + r.Intn(100)
		}
		if k > n {
			k = n
		}
		if r.Intn(20) == 0 {
			out = append(out, nothing(r)...)
		}
		out = append(out, readStep{k, "ok"})
		n -= k
	}
	if len(out) > 0 && r.Intn(2) == 0 {
		out[len(out)-1].What = "end"
	}
	return
}

// nothing is delivered by some reads; however many, they change nothing
// (Stutter of ScanBuf.tla).
func nothing(r *rand.Rand) []readStep {
	k := 1
	if r.Intn(8) == 0 {
		k = []int{2, 3, 10, 16, 32, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 5000}[r.Intn(20)]
	}
	out := make([]readStep, k)
	for i := range out {
		out[i].What = "ok"
	}
	return out
}

type reading struct {
	kind string
	text string // what is delivered
	rd   *script
	fail bool
}

// runReadings compares the tokens of each reading with those of its text.
func runReadings(c *Ctx, rs []reading) {
	texts := map[string]int{}
	var list []string
	for _, r := range rs {
		if _, ok := texts[r.text]; !ok {
			texts[r.text] = len(list)
			list = append(list, r.text)
		}
	}
	var specs []*lexSpec
	for len(list) > 0 {
		k := len(list)
		if k > 20000 {
			k = 20000
		}
		specs = append(specs, lexOracle(list[:k])...)
		list = list[k:]
	}
	for _, r := range rs {
		s := specs[texts[r.text]]
		desc := r.rd.describe()
		c.count(r.kind, fmt.Sprintf("%q read as%s", r.text, desc))
		got := scanAll(r.text, r.rd, 2)
		w := *s
		if r.fail {
			// the tokens are those of the text before the failure, and
			// the failure is reported
			if got.Panic == "" && got.Err == nil {
				c.violate("failure of the reader not reported", r.text, "read as"+desc)
			}
			if got.Panic == "" && got.Count == 0 {
				c.violate("failure of the reader not counted", r.text, "read as"+desc)
			}
			if !w.Err && len(got.Toks) != len(w.Toks)+2 {
				c.violate("number of tokens", r.text, "read as"+desc, fmt.Sprintf("specified: %d and two more ends; scanned: %v", len(w.Toks), got.Toks))
			}
			w.Err = true
		}
		checkTokens(c, &w, got, 2)
	}
}

func init() {
	checks["C15"] = func(c *Ctx) {
		var rs []reading
		length := c.n(2, 3)
		schedules(false, length, func(s *schedule) {
			one := func(kind, n, i int) {
				p := padding(kind, n)
				steps := append([]readStep{}, s.Reads...)
				end := ""
				if strings.HasPrefix(p, "\"") && c.Intn(2) == 0 {
					end = "\""
				}
				for j := len(steps) - 1; j >= 0; j-- {
					if steps[j] == (readStep{0, "ok"}) && c.Intn(3) == 0 {
						steps = append(steps[:j], append(nothing(c.Rand), steps[j:]...)...)
					}
				}
				if len(p) > 0 {
					if i == 0 && steps[0].What == "ok" {
						steps[0].N += len(p) // in one read
					} else {
						steps = append([]readStep{{len(p), "ok"}}, steps...)
					}
				}
				if end != "" {
					steps[len(steps)-1].What = "ok"
				}
				t := p + s.Text + end
				rs = append(rs, reading{"schedule of the model", t, &script{text: t, steps: steps}, false})
			}
			if length > 2 && len([]rune(s.Text)) > 2 {
				if c.Intn(2) == 0 {
					one(c.Intn(padKinds), padLens[c.Intn(len(padLens))], c.Intn(2))
				}
				return
			}
			for _, n := range padLens {
				one(c.Intn(padKinds), n, c.Intn(3))
				one(c.Intn(padKinds), n, 0)
			}
		})
		runReadings(c, rs)
		rs = nil
		n := c.n(700, 12000)
		for i := 0; i < n; i++ {
			t := longText(c.Rand)
			for j := 0; j < 4; j++ {
				rs = append(rs, reading{"long text", t, &script{text: t, steps: cutReads(c.Rand, len(t))}, false})
			}
		}
		runReadings(c, rs)
		hugeTexts(c)
	}
	checks["C17"] = func(c *Ctx) {
		var rs []reading
		length := c.n(2, 3)
		schedules(true, length, func(s *schedule) {
			if !s.Fail {
				return
			}
			if length > 2 && len([]rune(s.Text)) > 2 && c.Intn(4) != 0 {
				return
			}
			for i := 0; i < 2; i++ {
				p := padding(c.Intn(padKinds), padLens[c.Intn(len(padLens))])
				steps := append([]readStep{}, s.Reads...)
				if len(p) > 0 {
					if i == 0 && steps[0].What == "ok" {
						steps[0].N += len(p)
					} else {
						steps = append([]readStep{{len(p), "ok"}}, steps...)
					}
				}
				t := (p + s.Text)[:len(p)+s.delivered()]
				rs = append(rs, reading{"failure of the model", t, &script{text: p + s.Text, steps: steps, how: anyErr(c)}, true})
			}
		})
		runReadings(c, rs)
		// a failure at each byte of a statement
		rs = nil
		n := c.n(60, 600)
		for _, t := range randomTexts(c.Seed, "", n) {
			for k := 0; k <= len(t); k++ {
				steps := cutReads(c.Rand, k)
				if len(steps) > 0 && c.Intn(2) == 0 {
					steps[len(steps)-1].What = "fail"
				} else {
					if len(steps) > 0 {
						steps[len(steps)-1].What = "ok"
					}
					steps = append(steps, readStep{0, "fail"})
				}
				if c.Intn(2) == 0 {
					steps = append(steps, readStep{0, "end"}) // it fails only once
				}
				rs = append(rs, reading{"failure at a byte", t[:k], &script{text: t, steps: steps, how: anyErr(c)}, true})
			}
		}
		runReadings(c, rs)
		lexErrors(c)
	}
}

// hugeTexts: blanks before a token and further letters of a word are many; they
// move the tokens behind them, and nothing else.
func hugeTexts(c *Ctx) {
	var texts []string
	for len(texts) < c.n(60, 600) {
		if t := garbage(c.Rand); !strings.ContainsAny(t, "\x00\xff\xc3\uFEFF") {
			texts = append(texts, t)
		}
	}
	for i, s := range lexOracle(texts) {
		if s.Err {
			continue
		}
		n := 1<<uint(10+c.Intn(9)) + c.Intn(9) - 4
		if i%8 == 0 {
			n = 1<<uint(19+c.Intn(5)) + c.Intn(2000)
		}
		w := &lexSpec{}
		switch i % 3 {
		case 0:
			w.Text = strings.Repeat(blanks[c.Intn(3)], n)
		case 1:
			word := strings.Repeat("w", n-1)
			w.Text = word + " "
			w.Toks = []Tok{{T: "SELECTOR", L: word, X: word}}
		case 2:
			word := "\"" + strings.Repeat("s", n-3) + "\""
			w.Text = word + " "
			w.Toks = []Tok{{T: "STRING", L: word, X: word}}
		}
		for _, k := range s.Toks {
			k.O += n
			w.Toks = append(w.Toks, k)
		}
		w.Text += s.Text
		c.count("huge text", fmt.Sprintf("%d bytes before %q", n, s.Text))
		steps := cutReads(c.Rand, len(w.Text))
		checkTokens(c, w, scanAll(w.Text, &script{text: w.Text, steps: steps}, 2), 2)
	}
}

// longText has several buffers of tokens.
func longText(r *rand.Rand) string {
	var b strings.Builder
	n := r.Intn(5000)
	for b.Len() < n {
		switch r.Intn(8) {
		case 0:
			b.WriteString(strings.Repeat([]string{" ", "a", "é", "日", "1", "\n"}[r.Intn(6)], r.Intn(1100)))
		case 1:
			b.WriteString("\"" + strings.Repeat([]string{"x", "日", "\\n", "\\u00e9"}[r.Intn(4)], r.Intn(600)) + "\"")
		default:
			if t := garbage(r); !strings.ContainsAny(t, "\x00\xff\xc3") {
				b.WriteString(t)
			}
		}
	}
	t := b.String()
	if r.Intn(3) == 0 {
		// an end near the end of the buffer
		k := 1024*(1+r.Intn(3)) + r.Intn(5) - 2
		if k < len(t) {
			t = t[:k]
		}
	}
	if !usable(t) {
		return "a"
	}
	return t
}

// lexErrors: a lexical error anywhere in a statement is a rejection.
func lexErrors(c *Ctx) {
	broken := []string{"\x00", "\xff", "\"", "\"a\n\"", "\"\\q\"", "\"\\x1\"", "\"\\400z\"", "\"\\u12\"", "\xe6\x97", "\xc3"}
	var texts []string
	n := c.n(150, 2000)
	// every escape, whole and cut short by every character
	before, after := []string{"when a == \"", "when a in [\"x\", \"y", "when a{\"", "trigger set v = \"\\n"}, []string{"\"", "x\"", "\"]", "\"} == 1"}
	put := func(esc string) {
		k := c.Intn(len(before))
		for _, u := range []string{before[0] + esc + after[0], before[k] + esc + after[c.Intn(len(after))]} {
			if usable(u) {
				texts = append(texts, u)
			}
		}
	}
	for ch := 0; ch < 128; ch++ {
		for _, e := range []string{"\\", "\\0", "\\7", "\\12", "\\x", "\\xA", "\\u00", "\\uAb9", "\\U0000", "\\U0010fff", "\\123", "\\x41", "\\u00e9"} {
			if c.Thorough || ch >= '0' && ch <= '9' || len(e) < 3 || c.Intn(4) == 0 {
				put(e + string(rune(ch)))
			}
		}
	}
	for _, e := range []string{"\\1234567", "\\x4142", "\\u00e900", "\\U000000e9", "\\U000000e", "\\é", "\\x日", "\\777", "\\400", "\\ud800", "\\U00110000"} {
		put(e)
	}
	// malformed at the end of long strings, behind long names and blanks
	for i := 0; i < c.n(120, 1200); i++ {
		k := 1<<uint(5+c.Intn(8)) + c.Intn(5)
		fill := strings.Repeat([]string{"x", " ", "é", "\\n", "9"}[c.Intn(5)], k)
		s := []string{"\"" + fill, "\"" + fill + "\n", "\"" + fill + "\\q\"", "\"" + fill + "\x00\"", "\"" + fill + "\xff\"", "\"" + fill + "\\\"", "\"" + fill + "\"",
			strings.Repeat(" ", k) + "\x00", "a" + strings.Repeat("b", k) + "\xff", strings.Repeat("9", k%300+1) + "\x00", strings.Repeat("\"s\" ", k/8) + "\"\\q\""}[i%11]
		texts = append(texts, []string{"when a == ", "when ", "trigger set v = ", "when b in ["}[c.Intn(4)]+s)
	}
	for i, t := range themes {
		for _, s := range okSpecs(oracle(randomTexts(c.Seed*17+int64(i), t, n))) {
			for j := 0; j < 6; j++ {
				k := c.Intn(len(s.Text) + 1)
				if j == 0 {
					k = len(s.Text) // after the last expression
				}
				x := broken[c.Intn(len(broken))]
				u := s.Text[:k] + x + s.Text[k:]
				if j == 5 {
					u = s.Text[:k] + " " + x
				}
				if usable(u) {
					texts = append(texts, u)
				}
			}
		}
	}
	for len(texts) > 0 {
		k := len(texts)
		if k > 20000 {
			k = 20000
		}
		for _, s := range oracle(texts[:k]) {
			kind := "damaged statement"
			if s.R.Lex {
				kind = "lexical error in a statement"
			}
			r := realParse(s.Text)
			c.count(kind, fmt.Sprintf("%q", s.Text))
			if o := r.outcome(); s.R.Lex && o != "error" {
				c.violate("lexical error accepted", s.Text, "Parse: "+o+" "+r.Panic)
			}
			t := scanAll(s.Text, strings.NewReader(s.Text), 0)
			if t.Panic != "" || s.R.Lex != (t.Err != nil) || s.R.Lex != (t.Count > 0) {
				c.violate("lexical error of the tokenizer", s.Text, fmt.Sprintf("specified: %v; Err() is %v, ErrorCount() is %d %s", s.R.Lex, t.Err, t.Count, t.Panic))
			}
		}
		texts = texts[k:]
	}
}
