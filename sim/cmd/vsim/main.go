// vsim builds the simulator from the current /repo tree and drives it.
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"time"
)

var (
	verif = "/verif"
	repo  = "/repo"
)

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"vsim: error:"}, a...)...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vsim setup|check|replay|sweep|build ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	n := fs.Int("n", 0, "number of runs")
	from := fs.Int64("from", -1, "first seed (sweep)")
	secs := fs.Float64("secs", 0, "time limit")
	race := fs.Bool("race", false, "race build")
	fs.StringVar(&repo, "repo", "/repo", "tree under test")
	tier := fs.String("tier", "", "tier")
	noMin := fs.Bool("nomin", false, "do not minimise")
	fs.Parse(os.Args[2:])
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verif = d
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	switch cmd {
	case "setup":
		if _, err := build(false); err != nil {
			fatal(err)
		}
		if _, err := build(true); err != nil {
			fatal(err)
		}
		fmt.Println("vsim: built")
	case "build":
		w, err := build(*race)
		if err != nil {
			fatal(err)
		}
		fmt.Println(w)
	case "check":
		os.Exit(check(*prop, seed, *tier, *n, *secs))
	case "sweep":
		f := *from
		if f < 0 {
			f = seed * seedStride
		}
		k := *n
		if k == 0 {
			k = 500
		}
		sweep(*prop, f, k, *tier, *race || raceProp(*prop), !*noMin)
	case "replay":
		os.Exit(replay(fs.Arg(0)))
	default:
		fatal("unknown command", cmd)
	}
	_ = time.Now
}
