// The harness binary: run a check, serve as a worker, or replay an execution.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"

	"github.com/recolude/rap/zzverif/checks"
	"github.com/recolude/rap/zzverif/eng"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: run ID | worker ID CUR | replay FILE | extra ID")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	switch os.Args[1] {
	case "replay":
		os.Exit(eng.Replay(checks.All, os.Args[2]))
	case "golden":
		fmt.Print(checks.MakeGolden())
	case "race":
		os.Exit(checks.RaceMain(os.Args[2:]))
	case "fresh":
		fmt.Print(checks.Fresh(os.Args[2], os.Args[3]))
	case "worker":
		ck := checks.All[os.Args[2]]
		eng.Worker(ck, tier, os.Args[3])
	case "run":
		fs := flag.NewFlagSet("run", flag.ExitOnError)
		work := fs.String("work", os.TempDir(), "")
		ev := fs.String("evidence", "", "")
		rp := fs.String("replays", "", "")
		kn := fs.String("known", "", "")
		dl := fs.Duration("deadline", 60*time.Second, "")
		ph := fs.String("phase", "", "")
		j := fs.Int("j", runtime.NumCPU(), "")
		fs.Parse(os.Args[3:])
		ck := checks.All[os.Args[2]]
		if ck == nil {
			fmt.Fprintln(os.Stderr, "no check", os.Args[2])
			os.Exit(2)
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		os.Exit(eng.Run(ck, eng.Options{Tier: tier, Work: *work, Replays: *rp, Evidence: *ev, KnownFile: *kn, Seed: seed, Workers: *j, Deadline: *dl, PhaseFilter: *ph}))
	default:
		os.Exit(2)
	}
}
