package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/mmadfox/go-geoql-parser/scanner"
)

// The scanner package on its own (ScanModes.tla).

type scanConfig struct {
	Std    bool       `json:"std"` // identifiers of the package
	Modes  []string   `json:"modes"`
	Blanks []string   `json:"blanks"`
	Start  []string   `json:"start"`
	Later  [][]string `json:"later"` // by index, from 1; the last for all further ones
}

type scanFamily struct {
	Name    string       `json:"name"`
	Prefix  []string     `json:"prefix"`
	Words   [][]string   `json:"words"`
	Depth   int          `json:"depth"`
	Ops     []string     `json:"ops"`
	Calls   int          `json:"calls"`
	Configs []scanConfig `json:"configs"`
}

// seenCall is what a call has to show.
type seenCall struct {
	T          string // kind of token, or character
	X          []string
	O, L, C    int // where it begins
	PO, PL, PC int // where reading stands
	M          []string
	Dead       bool
}

var modeBits = map[string]uint{"ident": scanner.ScanIdents, "int": scanner.ScanInts, "float": scanner.ScanFloats, "char": scanner.ScanChars,
	"string": scanner.ScanStrings, "raw": scanner.ScanRawStrings, "comment": scanner.ScanComments, "skip": scanner.SkipComments}

var modeNames = []string{"ident", "int", "float", "char", "string", "raw", "comment", "skip"}

var tokenClass = map[string]rune{"EOF": scanner.EOF, "Ident": scanner.Ident, "Int": scanner.Int, "Float": scanner.Float,
	"Char": scanner.Char, "String": scanner.String, "RawString": scanner.RawString, "Comment": scanner.Comment}

func in(s []string, ch rune) bool {
	for _, x := range s {
		if x == string(ch) {
			return true
		}
	}
	return false
}

func (c *scanConfig) apply(s *scanner.Scanner) {
	s.Mode, s.Whitespace = 0, 0
	for _, m := range c.Modes {
		s.Mode |= modeBits[m]
	}
	for _, b := range c.Blanks {
		s.Whitespace |= 1 << b[0]
	}
	s.IsIdentRune = nil
	if !c.Std {
		s.IsIdentRune = func(ch rune, i int) bool {
			if ch < 0 {
				return false
			}
			if i == 0 {
				return in(c.Start, ch)
			}
			if i > len(c.Later) {
				i = len(c.Later)
			}
			return in(c.Later[i-1], ch)
		}
	}
}

// ahead is text that is skipped before the first token.
type ahead struct {
	text string
	o    int
	l, c int // lines, and columns on the last of them
}

func blankText(r *rand.Rand, c *scanConfig) ahead {
	n := padLens[r.Intn(len(padLens))] + r.Intn(3)
	var a ahead
	put := func(s string) {
		a.text += s
		a.o += len(s)
		for _, ch := range s {
			if ch == '\n' {
				a.l++
				a.c = 0
			} else {
				a.c++
			}
		}
	}
	sp, nl := in(c.Blanks, ' '), in(c.Blanks, '\n')
	has := func(m string) bool {
		for _, x := range c.Modes {
			if x == m {
				return true
			}
		}
		return false
	}
	com := has("comment") && has("skip") && !in(c.Start, '/')
	if !c.Std && in(c.Start, '/') {
		com = false
	}
	switch k := r.Intn(5); {
	case k == 0 && sp:
		put(strings.Repeat(" ", n))
	case k == 1 && nl:
		put(strings.Repeat("\n", n))
	case k == 2 && com && n > 4:
		put("/*" + strings.Repeat("*", n-4) + "*/")
	case k == 3 && com && n > 6:
		put("/*" + strings.Repeat("é\n", (n-4)/3) + "*/")
	case k == 4 && sp && nl:
		for a.o < n {
			put([]string{" ", "\n", "  "}[r.Intn(3)])
		}
	}
	return a
}

func firstRune(s string) rune {
	r, _ := utf8.DecodeRuneInString(s)
	return r
}

// errLog stands for the standard error output.
type errLog struct {
	f   *os.File
	at  int64
	was *os.File
}

func newErrLog() *errLog {
	f, err := os.CreateTemp(scratch, "stderr")
	must(err)
	os.Remove(f.Name())
	l := &errLog{f: f, was: os.Stderr}
	os.Stderr = f
	return l
}

func (l *errLog) close() {
	os.Stderr = l.was
	l.f.Close()
}

// lines are those written since the last call.
func (l *errLog) lines() (out []string) {
	b, err := io.ReadAll(io.NewSectionReader(l.f, l.at, 1<<20))
	must(err)
	l.at += int64(len(b))
	if len(b) > 0 {
		out = strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	}
	return
}

type scanReport struct {
	msg   string
	valid bool
	off   int
}

// replayScanner makes the calls and compares what each shows.
func replayScanner(c *Ctx, f *scanFamily, ws []int, ops []string, seen []seenCall) {
	text := unchars(f.Prefix)
	for _, w := range ws {
		text += unchars(f.Words[w-1])
	}
	var pre ahead
	if ops[0] == "S" && !strings.Contains(strings.Join(ops, ""), "I") && !strings.HasPrefix(text, "\uFEFF") && c.Intn(3) == 0 {
		pre = blankText(c.Rand, &f.Configs[0])
	}
	src := pre.text + text
	style := c.Intn(4)
	reader := func() *script {
		if style == 0 {
			return &script{text: src}
		}
		return &script{text: src, steps: cutReads(c.Rand, len(src))}
	}
	file := []string{"", "", "x.gql"}[c.Intn(3)]
	extra := c.Intn(2) == 0
	// without a callback, errors are written to the standard error output
	var stderr *errLog
	if c.Intn(3) == 0 {
		for _, w := range seen {
			if len(w.M) > 0 {
				stderr = newErrLog()
				defer stderr.close()
				break
			}
		}
	}
	var bad []string
	trace := ""
	p := guarded("scanner", src, func() {
		var s scanner.Scanner
		var reports []scanReport
		textIn := ""
		setErr := func() {
			if stderr != nil {
				return
			}
			s.Error = func(t *scanner.Scanner, msg string) {
				if t != &s {
					msg = "another scanner"
				}
				reports = append(reports, scanReport{msg, s.Position.IsValid(), s.Position.Offset})
				if extra && s.Position.IsValid() && textIn == "" {
					// the text of the token so far
					if x := s.TokenText(); !strings.HasPrefix(src[s.Position.Offset:], x) {
						textIn = fmt.Sprintf("%q at %d", x, s.Position.Offset)
					}
				}
			}
		}
		if s.Init(reader()) != &s {
			bad = []string{"Init", "another scanner is returned"}
			return
		}
		if x := s.TokenText(); x != "" || s.Position.IsValid() {
			bad = []string{"TokenText before the first token", x}
			return
		}
		s.Filename = file
		cfg := 0
		f.Configs[cfg].apply(&s)
		setErr()
		var want []string // messages since Init
		dead := false
		for i, op := range ops {
			w := seen[i]
			x := unchars(w.X)
			trace += " " + op
			fail := func(what string, specified, got interface{}) {
				bad = []string{what, fmt.Sprintf("call %d of%s", i+1, trace), fmt.Sprintf("specified: %v", specified), fmt.Sprintf("got: %v", got)}
			}
			o, l, col := w.O+pre.o, w.L+pre.l, w.C
			if w.L == 1 {
				col += pre.c
			}
			po, pl, pc := w.PO+pre.o, w.PL+pre.l, w.PC
			if w.PL == 1 {
				pc += pre.c
			}
			peeked := rune(-2)
			if extra && op == "N" {
				peeked = s.Peek()
			} else if extra && op == "S" && i > 0 {
				s.Peek()
				s.Pos()
			}
			from := len(reports)
			switch op {
			case "S", "N":
				var tok rune
				if op == "S" {
					tok = s.Scan()
				} else {
					tok = s.Next()
					if extra && peeked != tok {
						fail("Peek", tok, peeked)
						return
					}
				}
				dead = w.Dead
				if wt, ok := tokenClass[w.T]; !dead || w.T != "Comment" {
					if !ok {
						wt = firstRune(x)
					}
					if w.T != "?" && tok != wt {
						fail("token", fmt.Sprintf("%d %q", wt, x), fmt.Sprintf("%d %q", tok, s.TokenText()))
						return
					}
					if w.T != "?" {
						ts := w.T
						if !ok {
							ts = strconv.Quote(string(wt))
						}
						if g := scanner.TokenString(tok); g != ts {
							fail("TokenString", ts, g)
							return
						}
					}
					if op == "S" && src != "" {
						if s.Position.Offset != o || s.Position.Line != l || s.Position.Column != col || !s.Position.IsValid() || s.Filename != file {
							fail("Position", fmt.Sprintf("%d %d:%d", o, l, col), fmt.Sprintf("%d %s", s.Position.Offset, s.Position))
							return
						}
						name := file
						if name == "" {
							name = "<input>"
						}
						if g, ws := s.Position.String(), fmt.Sprintf("%s:%d:%d", name, l, col); g != ws {
							fail("Position.String", ws, g)
							return
						}
					}
				}
				if op == "N" && (s.Position.IsValid() || s.Filename != file) {
					fail("Position after Next", "invalid", s.Position)
					return
				}
				if op == "N" {
					name := file
					if name == "" {
						name = "<input>"
					}
					if g := s.Position.String(); g != name {
						fail("Position.String after Next", name, g)
						return
					}
				}
				if !dead {
					if op == "S" {
						if g := s.TokenText(); g != x {
							fail("TokenText", strconv.Quote(x), strconv.Quote(g))
							return
						}
						if extra {
							if g := s.TokenText(); g != x {
								fail("TokenText again", strconv.Quote(x), strconv.Quote(g))
								return
							}
						}
					}
					if g := s.Pos(); g.Offset != po || g.Line != pl || g.Column != pc || g.Filename != file {
						fail("Pos", fmt.Sprintf("%d %d:%d", po, pl, pc), fmt.Sprintf("%d %s", g.Offset, g))
						return
					}
				}
			case "C":
				cfg = (cfg + 1) % len(f.Configs)
				f.Configs[cfg].apply(&s)
			case "I":
				if s.Init(reader()) != &s {
					fail("Init", "the scanner itself", "another one")
					return
				}
				if s.Error != nil || s.ErrorCount != 0 || s.Mode != scanner.GoTokens || s.Whitespace != scanner.GoWhitespace || s.Position.IsValid() || s.Filename != file {
					fail("state after Init", "as new", fmt.Sprintf("Error set: %v, ErrorCount %d, Mode %b, Whitespace %x, Position %s", s.Error != nil, s.ErrorCount, s.Mode, s.Whitespace, s.Position))
					return
				}
				if g := s.Pos(); g.Offset != 0 || g.Line != 1 || g.Column != 1 {
					fail("Pos after Init", "0 1:1", fmt.Sprintf("%d %s", g.Offset, g))
					return
				}
				reports, want, dead, from = nil, nil, false, 0
				setErr()
			}
			if textIn != "" {
				fail("TokenText in the error callback", "the source at this offset", textIn)
				return
			}
			if stderr != nil {
				name := file
				if name == "" {
					name = "<input>"
				}
				for _, line := range stderr.lines() {
					k := strings.LastIndex(line, ": ")
					if k < 0 {
						fail("error output", "position: message", line)
						return
					}
					r := scanReport{msg: line[k+2:], off: -1}
					if line[:k] == fmt.Sprintf("%s:%d:%d", name, l, col) {
						r.valid, r.off = true, o
					}
					reports = append(reports, r)
				}
			}
			// errors: those of what was read, and perhaps of the character after it
			want = append(want, w.M...)
			if s.ErrorCount != len(reports) {
				fail("ErrorCount", len(reports), s.ErrorCount)
				return
			}
			if len(reports) < len(want) || !dead && len(reports) > len(want)+1 {
				fail("errors", want, reports)
				return
			}
			for j, r := range reports {
				switch {
				case j < len(want) && r.msg != want[j], j >= len(want) && !dead && !strings.HasPrefix(r.msg, "invalid "):
					fail("errors", want, reports)
					return
				case j < len(want) && j >= from && (strings.Contains(r.msg, "literal") || strings.Contains(r.msg, "escape") || strings.Contains(r.msg, "comment")):
					if !r.valid || r.off != o {
						fail("Position in the error callback", o, fmt.Sprintf("%d, valid: %v", r.off, r.valid))
						return
					}
				}
			}
			if i == len(ops)-1 && !dead && len(reports) != len(want) && w.T == "EOF" {
				fail("errors at the end", want, reports)
				return
			}
		}
	})
	c.count("calls of "+f.Name, fmt.Sprintf("%q:%s", clip(src, 60), " "+strings.Join(ops, " ")))
	if p != "" {
		c.violate("panic", src, p)
	} else if bad != nil {
		b, _ := json.Marshal(f.Configs)
		c.violate(bad[0], src, append(bad[1:], "configurations "+string(b))...)
	}
}

var goConfig = scanConfig{Std: true, Modes: modeNames, Blanks: []string{" ", "\t", "\n", "\r"}}

func scanFamilies(c *Ctx) (out []scanFamily) {
	std := func(modes ...string) scanConfig {
		return scanConfig{Std: true, Modes: append([]string{}, modes...), Blanks: goConfig.Blanks}
	}
	add := func(name, prefix string, ws [][]string, d, t int, ops string, calls int, cfgs ...scanConfig) {
		f := scanFamily{Name: name, Prefix: append([]string{}, chars(prefix)...), Words: ws, Depth: c.n(d, t), Ops: strings.Split(ops, ""), Calls: calls, Configs: cfgs}
		for i := range f.Configs {
			g := &f.Configs[i]
			g.Modes, g.Blanks = append([]string{}, g.Modes...), append([]string{}, g.Blanks...)
			g.Start, g.Later = append([]string{}, g.Start...), append([][]string{}, g.Later...)
			for j := range g.Later {
				g.Later[j] = append([]string{}, g.Later[j]...)
			}
		}
		out = append(out, f)
	}
	gql := std("ident", "float", "string")
	add("Go tokens", "", each("a1.\"'`/*\\\n é_"), 3, 5, "S", 0, goConfig)
	add("comments skipped", "", each("a/*\n "), 6, 8, "S", 0, goConfig)
	add("comments", "", each("a/*\n"), 5, 7, "S", 0, std("ident", "comment"))
	add("line comments", "//", each("\\\n/*\"a'\x00\r"), 3, 4, "S", 0, std("ident", "comment"))
	add("line comments skipped", "//", each("\\\n/*\"a'\x00\r"), 3, 4, "S", 0, goConfig)
	add("long comments", "/*", each("\\\n/*\"a'\xff"), 4, 5, "S", 0, std("ident", "comment"))
	add("no comments", "", each("a/*\n "), 4, 5, "S", 0, std("ident"))
	add("skip without comments", "", each("/*\n "), 4, 5, "S", 0, std("skip"))
	pieces := words("a", "1", ".", "\"x\"", "'y'", "`z`", "//c\n", "/*c*/", " ", "b2", "3.4", "''")
	for m := 0; m < 256; m++ {
		var modes []string
		for i, n := range modeNames {
			if m>>i&1 == 1 {
				modes = append(modes, n)
			}
		}
		d := 1
		if m%8 == int(c.Seed&7) {
			d = 2
		}
		add("modes", "", pieces, d, 2, "S", 0, std(modes...))
	}
	add("strings", "\"", each("\"\\nx07fu\n 'é"), 3, 5, "S", 0, gql)
	add("chars", "'", each("'\\nx07au\n\"é"), 3, 5, "S", 0, goConfig)
	for i, q := range []string{"\"", "'", "`", "/*", "//", ""} {
		if c.Thorough || i == 0 || i == 1+int(c.Seed)%5 || i == 1+int(c.Seed+2)%5 {
			add("wide characters", q, each("😀日é\"'`\n/* a"), 3, 4, "S", 0, goConfig)
		}
	}
	add("raw strings", "`", each("`\n\\a\xff\x00"), 4, 6, "S", 0, goConfig)
	add("long escapes", "'\\u00", each("0aG'\\\n"), 4, 5, "S", 0, goConfig)
	add("long escapes", "\"\\U0000", each("0f\"z"), 5, 7, "S", 0, goConfig)
	add("numbers", "", each("09._ex-a"), 4, 6, "S", 0, std("int"))
	add("numbers", "", each("09._ex-a"), 4, 6, "S", 0, std("ident", "float"))
	add("lines", "", append(each("\n \ra\x00\xffé😀"), []string{"BOM"}), 3, 5, "S", 0, gql)
	add("lines and characters", "", append(each("\na\xffé"), []string{"BOM"}), 3, 4, "SN", 5, std("ident", "raw"))
	add("one or the other", "", each("a1\"\n /"), 3, 4, "SN", 4, goConfig)
	custom := scanConfig{Modes: []string{"ident", "float", "string"}, Blanks: goConfig.Blanks, Start: []string{"a", "%", "é"}, Later: [][]string{{"a", "-", "1", "."}}}
	add("identifiers of the caller", "", each("a%é-1.\" "), 4, 5, "S", 0, custom)
	odd := scanConfig{Modes: []string{"ident", "float", "string", "comment"}, Blanks: []string{" "}, Start: []string{"1", "\"", "/", "."}, Later: [][]string{{"\"", "*"}}}
	add("identifiers of other characters", "", each("1\"/.*a\n"), 3, 5, "S", 0, odd)
	// what is allowed depends on where in the identifier a character is
	short := scanConfig{Modes: []string{"ident", "int"}, Blanks: []string{" "}, Start: []string{"a", "é"}, Later: [][]string{{"a", "1"}, {"1", "é"}, {}}}
	add("identifiers of three characters at most", "", each("a1é "), 5, 7, "S", 0, short)
	sigil := scanConfig{Modes: []string{"ident", "float"}, Blanks: []string{" ", "\n"}, Start: []string{"$"}, Later: [][]string{{"$", "a"}, {"a"}, {"a", "1"}, {"a", "1", "-"}}}
	add("identifiers by position", "", each("$a1-"), 6, 7, "S", 0, sigil)
	add("identifiers of one character", "", each("ab1 "), 4, 5, "S", 0, scanConfig{Modes: []string{"ident"}, Blanks: []string{" "}, Start: []string{"a", "b"}, Later: [][]string{{}}})
	long := scanConfig{Modes: []string{"ident"}, Blanks: []string{" "}, Start: []string{"a"}}
	for i := 1; i < 300; i++ {
		long.Later = append(long.Later, []string{"a", "b"}[i%2:][:1])
	}
	add("long identifiers by position", strings.Repeat("ab", 40), words("abab", "a", "b", strings.Repeat("ab", 70)), 2, 3, "S", 0, long)
	none := scanConfig{Std: true, Modes: modeNames}
	add("no blanks", "", each("a1 \n\t/"), 3, 5, "S", 0, none)
	add("other blanks", "", each("a \n\t\r\x01\x00"), 4, 5, "S", 0, scanConfig{Std: true, Modes: []string{"ident"}, Blanks: []string{"\t", "\n", "\x01"}})
	add("switching", "", each("a1\n \"/."), 3, 4, "SNC", 3, gql, none)
	add("switching", "", each("a%-1/*"), 3, 4, "SC", 4, custom, goConfig)
	add("starting over", "", append(each("a\n\"\x00 1"), []string{"BOM"}), 2, 3, "SNCI", 4, custom, gql)
	add("starting over", "", words("a", "'", "/*", "\"\\q", "1 ", "\n"), 2, 3, "SI", 4, goConfig)
	// many of the same, and many malformed ones
	for i, w := range []string{"\x00", "\xff", "''", "a ", "1.", "\n", "/**/", "\xe6\x97", "\"\"", "''\n", "\x00a", "é"} {
		if c.Thorough || (i+int(c.Seed))%3 == 0 || i == 0 {
			add("many", strings.Repeat(w, 130), words("a", "''"), 1, 1, "S", 0, goConfig)
		}
	}
	// longer texts
	for i, n := 0, c.n(150, 1500); i < n; i++ {
		var b strings.Builder
		for k := 2 + c.Intn(12); k > 0; k-- {
			b.WriteString(unchars(pieces[c.Intn(len(pieces))]))
			b.WriteString([]string{"", " ", "\n", "a", "é", "/*\n*/", "//\n", "\"s\\n\"", "1_2.5", "'x'", "`\n\n`", "日本", ".", "😀"}[c.Intn(14)])
		}
		cfg := goConfig
		if c.Intn(2) == 0 {
			cfg = std()
			for _, m := range modeNames {
				if c.Intn(3) != 0 {
					cfg.Modes = append(cfg.Modes, m)
				}
			}
		}
		ops, calls := "S", 0
		if c.Intn(3) == 0 {
			ops, calls = "SN", 6
		}
		add("longer texts", b.String(), nil, 0, 0, ops, calls, cfg)
	}
	return
}

func init() {
	checks["C23"] = func(c *Ctx) {
		fams := scanFamilies(c)
		vals := make([]interface{}, len(fams))
		for i := range fams {
			if fams[i].Words == nil {
				fams[i].Words = [][]string{}
			}
			vals[i] = fams[i]
		}
		path := writeJSON("scan.json", vals)
		runTLC("ScanModes", map[string]string{"GQL_SCAN": path}, func(ln []byte) {
			var v struct {
				F    int
				W    []int
				O    []string
				Seen []seenCall
			}
			must(json.Unmarshal(ln, &v))
			replayScanner(c, &fams[v.F-1], v.W, v.O, v.Seen)
		})
		c.exhaust = true
	}
}
