// simdrv is the deterministic simulator's command.
//
//	simdrv check PROPERTY TIER VERIFDIR
//	simdrv replay FILE
package main

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"verifsim/core"
	_ "verifsim/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: simdrv check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		core.Worker()
	case "serve":
		core.Serve()
	case "record":
		core.Record()
	case "log":
		// simdrv log PROPERTY SEED INDEX...: the event log of the last
		// index, run after the others in one process.
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		var idx []int
		for _, a := range os.Args[4:] {
			i, _ := strconv.Atoi(a)
			idx = append(idx, i)
		}
		core.Log(core.Props[os.Args[2]], seed, idx)
	case "replay":
		os.Exit(core.Replay(os.Args[2]))
	case "check":
		p := core.Props[os.Args[2]]
		if p == nil {
			fmt.Println("ERROR no such property:", os.Args[2])
			os.Exit(2)
		}
		seed := uint64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			v, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				fmt.Println("ERROR bad VERIF_SEED:", s)
				os.Exit(2)
			}
			seed = uint64(v)
		}
		tier := os.Args[3]
		wall := 8 * time.Minute
		if tier == "thorough" {
			wall = 60 * time.Minute
		}
		if s := os.Getenv("VERIF_MAXWALL"); s != "" {
			if d, err := time.ParseDuration(s); err == nil {
				wall = d
			}
		}
		os.Exit(core.Check(os.Args[4], p, tier, seed, wall))
	default:
		os.Exit(2)
	}
}
