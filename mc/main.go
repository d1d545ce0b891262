// mc runs one check.
package main

import (
	"fmt"
	"os"
	"runtime"

	"verif.local/mc/instr"
	"verif.local/mc/kit"
	"verif.local/mc/props"
)

func init() {
	if len(os.Args) > 1 && os.Args[1] == "--handles" {
		runtime.LockOSThread() // system calls are counted per thread
	}
}

func main() {
	if len(os.Args) >= 4 && os.Args[1] == "--instrument" {
		if err := instr.Overlay(os.Args[2], os.Args[3], os.Args[4:]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if len(os.Args) >= 2 && os.Args[1] == "--library" {
		if err := props.Library(os.Args[2:]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		return
	}
	if len(os.Args) >= 4 && os.Args[1] == "--handles" {
		if err := props.Handles(os.Args[2:]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		return
	}
	kit.Main(props.All())
}
