// Command replay runs one harness natively on one assignment.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"

	"verifharness/h"
	"verifharness/sym"
)

func main() {
	debug.SetMaxStack(256 << 20)
	var b []byte
	var err error
	if len(os.Args) > 1 {
		b, err = os.ReadFile(os.Args[1])
	} else {
		b, err = io.ReadAll(os.Stdin)
	}
	var in sym.Input
	if err == nil {
		err = json.Unmarshal(b, &in)
	}
	f := h.Table[in.Harness]
	if err != nil || f == nil {
		fmt.Fprintln(os.Stderr, "replay: bad input", in.Harness, err)
		os.Exit(2)
	}
	sym.Load(&in)
	rounds := 1
	if in.Kind != "sample" {
		rounds = 60 // map iteration order and the scheduler vary
	}
	code := 0
	for i := 0; i < rounds; i++ {
		if i > 0 {
			sym.Again()
		}
		c, msg := once(f)
		if c == 10 {
			fmt.Println("FAIL", msg)
			os.Exit(10)
		}
		if i == 0 || c != 0 && code == 0 {
			code = c
		}
	}
	os.Exit(code)
}

func once(f func()) (code int, msg string) {
	defer func() {
		if r := recover(); r != nil {
			code, msg = sym.Verdict(r)
			if os.Getenv("REPLAY_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
	return sym.Verdict(nil)
}
