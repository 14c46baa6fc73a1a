//go:build go1.22

package main

import (
	"fmt"
	"os"
)

// subs are the entry points of child processes.
var subs = map[string]func(args []string){}

func subMain(name string, args []string) {
	f := subs[name]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown sub", name)
		os.Exit(2)
	}
	f(args)
}
