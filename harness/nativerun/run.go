// Package nativerun replays recorded inputs through the natively compiled harness.
package nativerun

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"log/slog"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

type caseJSON struct {
	ID      int         `json:"id"`
	Harness string      `json:"harness"`
	Args    []int       `json:"args"`
	Inputs  []sym.Input `json:"inputs"`
	Repeat  int         `json:"repeat"`
}

type result struct {
	ID    int      `json:"id"`
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	Obs   []sym.Ob `json:"obs"`
	Reach int      `json:"reach"`
	Known []string `json:"known"`
}

// Main reads cases from standard input and answers each with one line.
func Main(h map[string]func([]int)) {
	out := os.Stdout
	if f, err := os.CreateTemp("", "gosym-out-"); err == nil {
		os.Remove(f.Name())
		os.Stdout = f
	}
	log.SetOutput(io.Discard)
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	debug.SetMaxStack(64 << 20)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 64<<20)
	for in.Scan() {
		var c caseJSON
		if err := json.Unmarshal(in.Bytes(), &c); err != nil {
			continue
		}
		ch := make(chan result, 1)
		go func() {
			r := one(h[c.Harness], c)
			for t0 := time.Now(); c.Repeat > 1 && r.Kind == "ok" && time.Since(t0) < 8*time.Second; c.Repeat-- {
				r = one(h[c.Harness], c)
			}
			ch <- r
		}()
		var r result
		select {
		case r = <-ch:
		case <-time.After(10 * time.Second):
			r = result{ID: c.ID, Kind: "timeout", Msg: "no answer in 10 s"}
		}
		b, _ := json.Marshal(r)
		fmt.Fprintf(out, "@@NR %s\n", b)
		if r.Kind == "timeout" {
			os.Exit(0)
		}
	}
}

func one(f func([]int), c caseJSON) (r result) {
	r.ID = c.ID
	sym.Reset(c.Inputs)
	defer func() {
		r.Obs, r.Reach, r.Known = sym.Obs, sym.Reached, sym.KnownID
		switch p := recover().(type) {
		case nil:
			r.Kind = "ok"
		case sym.Failure:
			r.Kind, r.Msg = "assert", p.Msg
		case sym.Outside:
			r.Kind = "assume"
		case sym.Mismatch:
			r.Kind, r.Msg = "mismatch", p.Msg
		default:
			r.Kind, r.Msg = "panic", strings.SplitN(fmt.Sprint(p), "\n", 2)[0]
		}
	}()
	f(c.Args)
	return
}
