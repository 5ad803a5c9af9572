// Command runner replays recorded runs of the harnesses natively.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/henderiw/idxtable/verifx/h"
	"github.com/henderiw/idxtable/verifx/nd"
	"github.com/henderiw/idxtable/verifx/vsync"
)

type result struct {
	I       int        `json:"i"`
	Outcome string     `json:"outcome"`
	Msg     string     `json:"msg"`
	Obs     []nd.Input `json:"obs"`
}

func emit(r result) {
	b, _ := json.Marshal(r)
	fmt.Println(string(b))
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var runs []nd.Run
	if err := json.Unmarshal(b, &runs); err != nil {
		panic(err)
	}
	for i := range runs {
		i := i
		vsync.OnDeadlock = func(msg string) {
			out := "deadlock"
			if p := vsync.Panics(); len(p) > 0 {
				out, msg = "panic", fmt.Sprint(p[0])
			}
			emit(result{I: i, Outcome: out, Msg: msg})
			os.Exit(0)
		}
		r := result{I: i, Outcome: "ok"}
		func() {
			defer func() {
				e := recover()
				switch e := e.(type) {
				case nil:
				case nd.AssertFailed:
					r.Outcome, r.Msg = "assert", e.Msg
				case nd.AssumeFailed:
					r.Outcome = "assume"
				case nd.Mismatch:
					r.Outcome, r.Msg = "mismatch", e.Msg
				default:
					r.Outcome, r.Msg = "panic", fmt.Sprint(e)
				}
			}()
			f := h.All[runs[i].Harness]
			if f == nil {
				panic(nd.Mismatch{Msg: "no harness " + runs[i].Harness})
			}
			nd.Start(&runs[i])
			f()
		}()
		r.Obs = nd.Observed()
		emit(r)
	}
}
