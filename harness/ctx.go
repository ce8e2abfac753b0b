package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// Ctx is one run of one check.
type Ctx struct {
	*rand.Rand
	Prop     string
	Thorough bool
	Seed     int64
	begin    time.Time

	traces  int                 // behaviours replayed on the implementation
	notes   map[string]int      // what they were
	samples map[string][]string // a few of each
	assume  []string
	known   []knownFinding
	hits    map[string]int // known findings met
	exhaust bool
}

type knownFinding struct {
	Property string `json:"property"`
	Text     string `json:"text"`  // the input that fails
	Class    string `json:"class"` // the difference it shows
	What     string `json:"what"`
}

func newCtx(prop string, thorough bool, seed int64) *Ctx {
	c := &Ctx{Rand: rand.New(rand.NewSource(seed*1000003 + int64(len(prop)))), Prop: prop, Thorough: thorough,
		Seed: seed, begin: time.Now(), notes: map[string]int{}, samples: map[string][]string{}, hits: map[string]int{}}
	f, err := os.Open(filepath.Join(verifDir, "known-findings.jsonl"))
	if err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			ln := strings.TrimSpace(sc.Text())
			if !strings.HasPrefix(ln, "{") {
				continue // comments and "fixed:" lines
			}
			var k knownFinding
			must(json.Unmarshal([]byte(ln), &k))
			if k.Property == prop {
				c.known = append(c.known, k)
			}
		}
		f.Close()
	}
	return c
}

// n chooses the size of a run.
func (c *Ctx) n(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// count records that a behaviour was replayed.
func (c *Ctx) count(kind, sample string) {
	c.traces++
	c.notes[kind]++
	if n := c.notes[kind]; n <= 2 || (n&(n-1) == 0 && n > 500 && len(c.samples[kind]) < 6) {
		c.samples[kind] = append(c.samples[kind], clip(sample, 400))
	}
}

type violation struct{ path string }

// violate reports that the implementation does not do what is specified.
func (c *Ctx) violate(class, input string, detail ...string) {
	for _, k := range c.known {
		if k.Text == input && k.Class == class {
			if c.hits[k.What] == 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, k.What)
			}
			c.hits[k.What]++
			return
		}
	}
	dir := filepath.Join(verifDir, "evidence", "replay")
	must(os.MkdirAll(dir, 0o755))
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Prop, c.Seed))
	b, err := json.MarshalIndent(map[string]interface{}{
		"property": c.Prop, "class": class, "input": input, "input_quoted": fmt.Sprintf("%+q", input),
		"detail": detail, "rerun": "sh /verif/check.sh replay " + path,
	}, "", " ")
	must(err)
	must(os.WriteFile(path, b, 0o644))
	fmt.Printf("%s: %s\n  input: %+q\n", c.Prop, class, clip(input, 600))
	for _, d := range detail {
		fmt.Println("  " + clip(d, 1500))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
	panic(violation{path})
}

func (c *Ctx) evidence(violations int) {
	var samples []string
	for k, v := range c.samples {
		for _, s := range v {
			samples = append(samples, k+": "+s)
		}
	}
	level := "model_checking"
	cov := map[string]interface{}{
		"states": totals.distinct, "transitions": totals.states,
		"traces_validated_against_impl": c.traces, "by_kind": c.notes, "samples": samples,
		"models": totals.models, "exhaustive": c.exhaust,
	}
	if len(samples) == 0 {
		cov["samples"] = []string{"none: the run ended early"}
	}
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	b, err := json.MarshalIndent(map[string]interface{}{
		"property": c.Prop, "tier": tier, "seed": c.Seed, "level": level, "coverage": cov,
		"assumptions": append([]string{
			"the TLA+ modules in /verif/spec say what the property means; TLC and the Go compiler are trusted",
			"strconv converts the specification's exact decimals to float64 and int64",
		}, c.assume...),
		"wall_s": time.Since(c.begin).Seconds(), "violations": violations,
	}, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(verifDir, "evidence", c.Prop+".json"), append(b, '\n'), 0o644))
}
