package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"

	gql "github.com/mmadfox/go-geoql-parser"
)

// The real code runs in a child process: a fatal error or an endless loop of
// the code under test ends the child, and the parent names the input, which
// the child leaves in a file before each call.

var (
	curFile *os.File
	curSeq  int64
	busy    int64 // when the current call began, in ns; 0 if none
)

func note(what, text string) {
	if curFile != nil {
		b := []byte(fmt.Sprintf("%08d%s\n%s", len(what)+1+len(text), what, text))
		_, err := curFile.WriteAt(b, 0)
		must(err)
	}
}

// callLimit is far above what a call takes.
const callLimit = 20 * time.Second

func watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		b := atomic.LoadInt64(&busy)
		if b == 0 {
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if time.Since(time.Unix(0, b)) > callLimit || ms.HeapAlloc > 6<<30 {
			fmt.Fprintln(os.Stderr, "HANG: the call does not return")
			os.Exit(97)
		}
	}
}

type Result struct {
	Stmt  gql.Statement
	Err   error
	Panic string
}

func guarded(what, text string, f func()) (pan string) {
	note(what, text)
	atomic.StoreInt64(&busy, time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&busy, 0)
		if r := recover(); r != nil {
			if i, ok := r.(internal); ok {
				panic(i)
			}
			pan = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	f()
	return
}

func realParse(text string) (r Result) {
	r.Panic = guarded("Parse", text, func() { r.Stmt, r.Err = gql.Parse(text) })
	return
}

// outcome is "ok", "error" or "panic"; anything else is no outcome.
func (r Result) outcome() string {
	switch {
	case r.Panic != "":
		return "panic"
	case r.Err != nil && isNil(r.Stmt):
		return "error"
	case r.Err != nil:
		return "error and a statement"
	case isNil(r.Stmt):
		return "neither statement nor error"
	}
	return "ok"
}

func (r Result) tree() *N {
	e, ok := r.Stmt.(gql.Expr)
	if !ok {
		return &N{K: fmt.Sprintf("statement %T", r.Stmt)}
	}
	return proj(e)
}
