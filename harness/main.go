// Command verifharness runs harnesses natively: one JSON job per input line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"log"
	"io"
	"os"
	"runtime/debug"

	"verifharness/h"
	"verifharness/sym"
)

type job struct {
	Fn     string            `json:"fn"`
	Params map[string]int    `json:"params"`
	Asg    map[string]uint64 `json:"asg"`
}

type result struct {
	Obs     [][2]string `json:"obs"`
	Fails   []string    `json:"fails"`
	Reached []string    `json:"reached"`
	Panic   string      `json:"panic"`
	Stopped string      `json:"stopped"`
	Input   [][2]string `json:"input"`
}

func main() {
	log.SetOutput(io.Discard)
	sym.Race = os.Getenv("VERIF_RACE") != ""
	debug.SetMaxStack(256 << 20)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if err := json.Unmarshal(line, &j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		b, _ := json.Marshal(run(j))
		os.Stdout.Write(append(b, '\n'))
	}
}

func run(j job) (r result) {
	c := &sym.Run{Asg: j.Asg, Params: j.Params}
	sym.Cur = c
	f := h.All[j.Fn]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", j.Fn)
		os.Exit(4)
	}
	defer func() {
		switch x := recover().(type) {
		case nil:
		case sym.Stop:
			r.Stopped = x.Why
		default:
			r.Panic = fmt.Sprintf("%v\n%s", x, debug.Stack())
		}
		r.Obs, r.Fails, r.Reached, r.Input = c.Obs, c.Fails, c.Reached, c.Input
	}()
	f()
	return
}
