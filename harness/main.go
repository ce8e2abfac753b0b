// Command gqlcheck decides one property: gqlcheck C03 [quick|thorough].
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
)

var checks = map[string]func(*Ctx){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gqlcheck C01..|replay FILE [quick|thorough]")
		os.Exit(2)
	}
	switch {
	case os.Getenv("GQL_REPLAY") != "":
		replayText(os.Args[1])
	case os.Getenv("GQL_FORMAT") != "":
		formatFile(os.Args[1])
	case os.Getenv("GQL_CHILD") != "":
		child()
	case os.Args[1] == "replay":
		replayFile(os.Args[2])
	default:
		parent()
	}
}

func tierSeed() (bool, int64) {
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	return tier == "thorough", seed
}

// child runs the check.
func child() {
	code := 3
	defer func() { os.Exit(code) }()
	var err error
	scratch = os.Getenv("GQL_CHILD")
	curFile, err = os.OpenFile(filepath.Join(scratch, "current"), os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	go watchdog()
	prop := os.Args[1]
	f := checks[prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no check", prop)
		return
	}
	th, seed := tierSeed()
	c := newCtx(prop, th, seed)
	defer func() {
		switch r := recover().(type) {
		case nil:
			c.evidence(0)
			fmt.Printf("%s: held on %d replayed behaviours, %d model states\n", prop, c.traces, totals.distinct)
			code = 0
		case violation:
			c.evidence(1)
			code = 1
		case internal:
			fmt.Fprintln(os.Stderr, "error of the check:", r.error)
		default:
			panic(r)
		}
	}()
	f(c)
}

// current is the input that the child worked on.
func current(dir string) (what, text string) {
	b, err := os.ReadFile(filepath.Join(dir, "current"))
	if err != nil || len(b) < 8 {
		return
	}
	n, err := strconv.Atoi(string(b[:8]))
	if err != nil || len(b) < 8+n {
		return
	}
	s := string(b[8 : 8+n])
	i := strings.IndexByte(s, '\n')
	return s[:i], s[i+1:]
}

func parent() {
	var err error
	scratch, err = os.MkdirTemp("", "gqlverif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "GQL_CHILD="+scratch)
	var tail bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(&limited{&tail, 1 << 16}, &limited{os.Stderr, 1 << 14})
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	err = cmd.Start()
	if err == nil {
		go func() {
			<-sig
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}()
		err = cmd.Wait()
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // TLC, if it is left
	}
	code := cmd.ProcessState.ExitCode()
	if code == raceExit && strings.Contains(tail.String(), "WARNING: DATA RACE") {
		code = raced(os.Args[1], tail.String())
		os.RemoveAll(scratch)
		os.Exit(code)
	}
	if code != 0 && code != 1 && code != 3 {
		code = crashed(tail.String())
	}
	os.RemoveAll(scratch)
	os.Exit(code)
}

// crashed decides whether the code under test ended the child.
func crashed(log string) int {
	what, text := current(scratch)
	if what == "" {
		return 2
	}
	if ok, out := replayCrashes(text); ok {
		th, seed := tierSeed()
		c := newCtx(os.Args[1], th, seed)
		defer func() { recover() }()
		func() {
			defer func() {
				c.evidence(1)
				recover()
			}()
			c.count(what, text)
			c.violate("outcome", text, what+" does not return", clip(out, 3000))
		}()
		return 1
	}
	// it may depend on the calls before, or on calls at the same time
	if again, what2, text2, out := rerun(); again {
		th, seed := tierSeed()
		c := newCtx(os.Args[1], th, seed)
		func() {
			defer func() {
				c.evidence(1)
				recover()
			}()
			c.count(what2, text2)
			c.violate("outcome after other calls", text2, what2+" does not return, in two runs", clip(out, 3000))
		}()
		return 1
	}
	fmt.Fprintf(os.Stderr, "the child ended in %s of %q, which does not reproduce\n%s\n", what, text, log)
	return 2
}

// rerun runs the check once more, and says whether the code under test ends it
// again.
func rerun() (bool, string, string, string) {
	dir, err := os.MkdirTemp("", "gqlverif")
	if err != nil {
		return false, "", "", ""
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "GQL_CHILD="+dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	out, _ := cmd.CombinedOutput()
	if cmd.Process != nil {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	code := cmd.ProcessState.ExitCode()
	what, text := current(dir)
	return (code == 2 || code == 97) && what != "", what, text, string(out)
}

func replayCrashes(text string) (bool, string) {
	f := filepath.Join(scratch, "replay")
	if os.WriteFile(f, []byte(text), 0o600) != nil {
		return false, ""
	}
	cmd := exec.Command(os.Args[0], f)
	cmd.Env = append(os.Environ(), "GQL_REPLAY=1")
	out, err := cmd.CombinedOutput()
	return err != nil, string(out)
}

func replayText(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(0)
	}
	go watchdog()
	if msg := everything(string(b)); msg != "" {
		fmt.Println(msg)
		os.Exit(1)
	}
	os.Exit(0)
}

// replayFile shows what the implementation does with the input of a replay
// file, and what is specified.
func replayFile(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var v struct {
		Property, Class, Input string
		Detail                 []string
	}
	if json.Unmarshal(b, &v) != nil {
		os.Exit(2)
	}
	scratch, _ = os.MkdirTemp("", "gqlverif")
	defer os.RemoveAll(scratch)
	fmt.Printf("%s %s\n%s\n", v.Property, v.Class, v.Input)
	for _, d := range v.Detail {
		fmt.Println("recorded:", d)
	}
	s := oracle([]string{v.Input})[0]
	if s.R.OK {
		fmt.Println("specified:", s.tree())
	} else {
		fmt.Printf("specified: rejected (lexical %v) between tokens %d and %d\n", s.R.Lex, s.R.Lo, s.R.Hi)
	}
	r := realParse(v.Input)
	if r.outcome() == "ok" {
		fmt.Println("implemented:", r.tree())
	} else {
		fmt.Println("implemented:", r.outcome(), r.Err, r.Panic)
	}
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.n -= len(q)
		l.w.Write(q)
	}
	return len(p), nil
}
