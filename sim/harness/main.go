package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check|work|min|replay|one ...")
		os.Exit(2)
	}
	a := os.Args[2:]
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(a))
	case "work":
		os.Exit(cmdWork(a))
	case "min":
		os.Exit(cmdMin(a))
	case "replay":
		os.Exit(cmdReplay(a))
	case "fatal":
		os.Exit(cmdFatal(a))
	case "one":
		cmdOne(a)
	default:
		os.Exit(2)
	}
}

// cmdOne is the debugging entry point.
func cmdOne(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "P01", "")
	base := fs.Uint64("base", 1, "")
	n := fs.Uint64("n", 0, "")
	cnt := fs.Uint64("cnt", 1, "")
	log := fs.Bool("log", false, "")
	stop := fs.Bool("stop", false, "stop at the first violation")
	fs.Parse(args)
	t0 := time.Now()
	kinds := map[string]int{}
	checked := map[string]int64{}
	faults := map[string]int{}
	probes := map[string]int{}
	var y int64
	var sim time.Duration
	for i := *n; i < *n+*cnt; i++ {
		p := genPlan(*prop, *base, i)
		if *log {
			b, _ := json.MarshalIndent(p, "", " ")
			fmt.Println(string(b))
		}
		t1 := time.Now()
		r := runPlan(p, *log)
		if d := time.Since(t1); d > 3*time.Second {
			fmt.Println(i, "SLOW", d, r.Yields, r.Why)
		}
		y += r.Yields
		sim += r.Sim
		for k, v := range r.Checked {
			checked[k] += v
		}
		for k, v := range r.Faults {
			faults[k] += v
		}
		for k, v := range r.Probes {
			probes[k] += v
		}
		if *log {
			for _, l := range r.Log {
				fmt.Println(l)
			}
			fmt.Println("why", r.Why, "sim", r.Sim, "hash", r.Hash, "yields", r.Yields)
		}
		if r.Harness != "" {
			fmt.Println(i, "HARNESS", r.Harness)
			kinds["HARNESS"]++
			if *stop {
				break
			}
		}
		for _, v := range r.Viols {
			if kinds[v.Kind] == 0 {
				fmt.Println(i, v.Kind, v.Detail)
			}
			kinds[v.Kind]++
		}
		if *stop && len(r.Viols) > 0 {
			break
		}
	}
	fmt.Println(kinds, "runs", *cnt, "time", time.Since(t0), "yields", y, "sim", sim)
	fmt.Println("faults", faults, "probes", probes, "checked", checked)
}
