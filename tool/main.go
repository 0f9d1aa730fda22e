package main

import (
	"fmt"
	"os"
	"runtime/pprof"
)

func main() {
	dir := "/repo"
	if d := os.Getenv("ZREPO"); d != "" {
		dir = d
	}
	if f := os.Getenv("ZPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		rc := checkMain(dir, os.Args[2], tier)
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	if len(os.Args) > 3 && os.Args[1] == "worker" {
		os.Exit(workerMain(dir, os.Args[2], os.Args[3]))
	}
	e, err := load(dir)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	st, err := e.base(os.Getenv("ZBE") == "")
	if err != nil {
		fmt.Println("base:", err)
		os.Exit(2)
	}
	fmt.Println("base ok", len(st.regs), e.steps)
	debugMain(e, st, os.Args[1:])
}
