// Command replay runs recorded paths natively against the real code.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verifh/v"
)

type trace struct {
	Harness string   `json:"harness"`
	Tier    string   `json:"tier"`
	Vals    []uint64 `json:"vals"`
	Reach   []string `json:"reach"`
	Detail  string   `json:"detail,omitempty"`
}

var registry = map[string]func(){}

type outcome struct {
	Status string   `json:"status"` // ok diverged assert panic hang
	Msg    string   `json:"msg"`
	Reach  []string `json:"reach"`
	Vals   []uint64 `json:"vals,omitempty"`
	Line   int      `json:"line"`
}

func runOne(t trace, limit time.Duration) outcome { return run(t, limit, 0) }

// run replays t; values beyond the recorded ones are filled in if pad is not 0.
func run(t trace, limit time.Duration, pad uint64) outcome {
	fn := registry[t.Harness]
	if fn == nil {
		return outcome{Status: "diverged", Msg: "no such harness"}
	}
	done := make(chan outcome, 1)
	go func() {
		var o outcome
		ended := false
		defer func() {
			r := recover()
			o.Reach = v.Reached
			switch x := r.(type) {
			case nil:
				o.Status = "ok"
				if !ended {
					o.Status, o.Msg = "panic", "goexit"
				}
			case v.Stopped:
				o.Status = "ok"
			case v.Diverged:
				o.Status, o.Msg = "diverged", x.Why
			case v.Failed:
				o.Status, o.Msg = "assert", x.Msg
			default:
				o.Status, o.Msg = "panic", fmt.Sprint(x)
				if os.Getenv("REPLAY_STACK") != "" {
					o.Msg += "\n" + string(debug.Stack())
				}
			}
			done <- o
		}()
		v.Load(t.Tier, t.Vals)
		if pad != 0 {
			v.Pad(pad)
		}
		fn()
		ended = true
	}()
	select {
	case o := <-done:
		return o
	case <-time.After(limit):
		return outcome{Status: "hang", Msg: "no termination within " + limit.String()}
	}
}

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: replay one|batch|retry FILE")
		os.Exit(9)
	}
	data, err := ioutil.ReadFile(os.Args[2])
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	switch os.Args[1] {
	case "one", "retry":
		var t trace
		if err := json.Unmarshal(data, &t); err != nil {
			fmt.Println(err)
			os.Exit(9)
		}
		if t.Detail != "" {
			fmt.Println(t.Detail)
		}
		n := 1
		if os.Args[1] == "retry" {
			n = 5000
		}
		var o outcome
		end := time.Now().Add(20 * time.Second)
		for i := 0; i < n && time.Now().Before(end); i++ {
			if n > 1 {
				runtime.GOMAXPROCS(1 + i%8)
			}
			lim := 20 * time.Second
			if n > 1 {
				lim = 3 * time.Second
			}
			o = runOne(t, lim)
			if o.Status != "ok" && o.Status != "diverged" {
				break
			}
		}
		b, _ := json.Marshal(o)
		fmt.Println("OUTCOME " + string(b))
		if o.Status != "ok" && o.Status != "diverged" {
			os.Exit(1)
		}
	case "pad":
		// run every recorded beginning of a path to the end, in several ways; print the failures only
		end := time.Now().Add(60 * time.Second)
		seeds := uint64(4)
		if len(os.Args) > 3 {
			fmt.Sscan(os.Args[3], &seeds)
		}
		for i, line := range strings.Split(string(data), "\n") {
			var t trace
			if line == "" || json.Unmarshal([]byte(line), &t) != nil {
				continue
			}
			for seed := uint64(1); seed <= seeds && time.Now().Before(end); seed++ {
				o := run(t, 5*time.Second, seed)
				if o.Status == "hang" {
					return
				}
				if o.Status == "assert" || o.Status == "panic" {
					o.Vals, o.Line = v.Vals, i
					b, _ := json.Marshal(o)
					fmt.Println(string(b))
					break
				}
				if len(v.Vals) == len(t.Vals) {
					break
				}
			}
		}
	case "batch":
		w := bufio.NewWriter(os.Stdout)
		for _, line := range strings.Split(string(data), "\n") {
			if line == "" {
				continue
			}
			var t trace
			if err := json.Unmarshal([]byte(line), &t); err != nil {
				fmt.Println(err)
				os.Exit(9)
			}
			o := runOne(t, 10*time.Second)
			b, _ := json.Marshal(o)
			w.Write(b)
			w.WriteByte('\n')
			w.Flush()
		}
	}
}
