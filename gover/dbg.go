package main

import (
	"fmt"
	"os"
)

var mergeDbg = os.Getenv("GOVER_MERGE") != ""

func mdbg(f string, a ...interface{}) bool {
	if mergeDbg {
		fmt.Fprintf(os.Stderr, "nomerge: "+f+"\n", a...)
	}
	return false
}
