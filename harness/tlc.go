package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

const (
	tlaJar = "/opt/veriftools/tla/tla2tools.jar"
	cmJar  = "/opt/veriftools/tla/CommunityModules-deps.jar"
)

// verifDir is /verif: the directory above the harness.
var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

// scratch is removed at the end of the run.
var scratch string

type tlcStats struct {
	States, Distinct int
	Lines            int
}

var totals struct {
	sync.Mutex
	states, distinct, runs int
	models                 []string
}

var reStates = regexp.MustCompile(`(\d+) states generated, (\d+) distinct states found`)

// runTLC checks the model with the configuration of the same name and calls
// line with every JSON value that the model prints.
func runTLC(model string, env map[string]string, line func([]byte)) tlcStats {
	return runTLCcfg(model, model, env, line)
}

func runTLCcfg(model, cfg string, env map[string]string, line func([]byte)) tlcStats {
	meta, err := os.MkdirTemp(scratch, "meta")
	must(err)
	args := []string{"-Xss256m", "-Xmx10g", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8",
		"-Dstdout.encoding=UTF-8", "-cp", tlaJar + ":" + cmJar, "tlc2.TLC", "-workers", "8",
		"-deadlock", "-noGenerateSpecTE", "-metadir", meta, "-config", cfg + ".cfg", model + ".tla"}
	cmd := exec.Command("java", args...)
	cmd.Dir = filepath.Join(verifDir, "spec")
	cmd.Env = append(os.Environ(), "GQL_UNI="+unicodeTable())
	for k, v := range env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	out, err := cmd.StdoutPipe()
	must(err)
	cmd.Stderr = cmd.Stdout
	must(cmd.Start())
	rd := bufio.NewReaderSize(out, 1<<20)
	var st tlcStats
	var log bytes.Buffer
	done := false
	for {
		ln, err := rd.ReadBytes('\n')
		if len(ln) > 1 && ln[0] == '"' && (ln[1] == '{' || ln[1] == '[') {
			st.Lines++
			line(unTLA(ln))
		} else if len(ln) > 0 {
			if log.Len() < 1<<16 {
				log.Write(ln)
			}
			if m := reStates.FindSubmatch(ln); m != nil {
				st.States, _ = strconv.Atoi(string(m[1]))
				st.Distinct, _ = strconv.Atoi(string(m[2]))
			}
			if bytes.Contains(ln, []byte("Model checking completed. No error has been found.")) {
				done = true
			}
		}
		if err == io.EOF {
			break
		}
		must(err)
	}
	err = cmd.Wait()
	if err != nil || !done {
		txt := log.String()
		if len(txt) > 6000 {
			txt = txt[len(txt)-6000:]
		}
		must(fmt.Errorf("TLC on %s: %v\n%s", model, err, txt))
	}
	totals.Lock()
	totals.states += st.States
	totals.distinct += st.Distinct
	totals.runs++
	totals.models = append(totals.models, fmt.Sprintf("%s/%s: %d states, %d distinct", model, cfg, st.States, st.Distinct))
	totals.Unlock()
	os.RemoveAll(meta)
	return st
}

// unTLA removes the quoting of a TLA+ string.
func unTLA(ln []byte) []byte {
	ln = bytes.TrimRight(ln, "\r\n")
	ln = ln[1 : len(ln)-1]
	out := make([]byte, 0, len(ln))
	for i := 0; i < len(ln); i++ {
		if ln[i] == '\\' && i+1 < len(ln) {
			i++
			switch ln[i] {
			case 'n':
				out = append(out, '\n')
			case 't':
				out = append(out, '\t')
			case 'r':
				out = append(out, '\r')
			case 'f':
				out = append(out, '\f')
			default:
				out = append(out, ln[i])
			}
			continue
		}
		out = append(out, ln[i])
	}
	return out
}

// met are the characters beyond ASCII that the specification has to know.
var met = struct {
	sync.Mutex
	m map[rune]bool
}{m: map[rune]bool{}}

type meeter struct{}

func (meeter) Write(p []byte) (int, error) {
	meet(string(p))
	return len(p), nil
}

func meet(text string) {
	for i := 0; i < len(text); i++ {
		if text[i] >= utf8.RuneSelf {
			met.Lock()
			for _, r := range text[i:] {
				if r >= utf8.RuneSelf && r != 0xFEFF {
					met.m[r] = true
				}
			}
			met.Unlock()
			return
		}
	}
}

// unicodeTable writes what Unicode says about the characters met since the
// last run of TLC.
func unicodeTable() string {
	var rs []int
	met.Lock()
	for r := range met.m {
		rs = append(rs, int(r), int(unicode.ToLower(r)))
	}
	met.m = map[rune]bool{}
	met.Unlock()
	for _, r := range "éÉжЖµ·٣日本€…😀\u2028\u2029" {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	var vals []interface{}
	for i, n := range rs {
		r := rune(n)
		if i > 0 && rs[i-1] == n || r < utf8.RuneSelf {
			continue
		}
		k := "O"
		switch {
		case unicode.IsLetter(r):
			k = "L"
		case unicode.IsDigit(r):
			k = "N"
		}
		vals = append(vals, map[string]interface{}{"c": string(r), "l": string(unicode.ToLower(r)), "k": k, "w": utf8.RuneLen(r)})
	}
	f, err := os.CreateTemp(scratch, "unicode")
	must(err)
	f.Close()
	return writeJSON(filepath.Base(f.Name()), vals)
}

// chars is the text as the specification reads it.
func chars(text string) []string {
	out := make([]string, 0, len(text))
	for len(text) > 0 {
		r, n := utf8.DecodeRuneInString(text)
		switch {
		case r == utf8.RuneError && n == 1:
			out = append(out, "BAD")
		case r == 0:
			out = append(out, "NUL")
		case r == 0xFEFF:
			out = append(out, "BOM")
		default:
			out = append(out, text[:n])
		}
		text = text[n:]
	}
	return out
}

func unchars(cs []string) string {
	var b strings.Builder
	for _, c := range cs {
		switch c {
		case "BAD":
			b.WriteByte(0xff)
		case "NUL":
			b.WriteByte(0)
		case "BOM":
			b.WriteString("\uFEFF")
		default:
			b.WriteString(c)
		}
	}
	return b.String()
}

// writeJSON writes one value per line.
func writeJSON(name string, vals []interface{}) string {
	path := filepath.Join(scratch, name)
	f, err := os.Create(path)
	must(err)
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(io.MultiWriter(w, meeter{}))
	enc.SetEscapeHTML(false)
	for _, v := range vals {
		must(enc.Encode(v))
	}
	must(w.Flush())
	must(f.Close())
	return path
}

type Spec struct {
	Text string
	R    Outcome
	Toks []Tok
	Dead bool // no continuation is accepted
	Cut  bool // Toks ends before the text does
}

// at maps tokens, counted from 1, to offsets.
func (s *Spec) at(tok int, end bool) int {
	if tok < 1 || tok > len(s.Toks) {
		return -1
	}
	if end {
		return s.Toks[tok-1].E
	}
	return s.Toks[tok-1].O
}

func (s *Spec) tree() *N { return specTree(s.R.Tree, s.at) }

// oracle is the outcome that the specification prescribes for each text.
func oracle(texts []string) []*Spec {
	if len(texts) == 0 {
		return nil
	}
	vals := make([]interface{}, len(texts))
	for i, t := range texts {
		vals[i] = map[string]interface{}{"c": chars(t)}
	}
	in := writeJSON("texts.json", vals)
	out := make([]*Spec, len(texts))
	runTLC("GqlOracle", map[string]string{"GQL_IN": in}, func(ln []byte) {
		var v struct {
			I    int
			R    Outcome
			Toks []Tok
		}
		must(json.Unmarshal(ln, &v))
		out[v.I-1] = &Spec{Text: texts[v.I-1], R: v.R, Toks: v.Toks}
	})
	for i, o := range out {
		if o == nil {
			must(fmt.Errorf("no outcome for text %d %q", i, texts[i]))
		}
	}
	return out
}
