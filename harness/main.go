// Command stfsverif runs the runtime monitors which decide the properties of STFS.
//
//	stfsverif check <property>            run all cases of a property (tier from VERIF_TIER, seed from VERIF_SEED)
//	stfsverif worker <property> <i> <n>   run the share i of n of the cases (started by check)
//	stfsverif replay <file>               run the case which a violation was found in again
package main

import (
	"fmt"
	"os"
	"strconv"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: stfsverif check|worker|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(master(os.Args[2]))
	case "worker":
		i, _ := strconv.Atoi(os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		only := -1
		if len(os.Args) > 5 {
			only, _ = strconv.Atoi(os.Args[5])
		}
		os.Exit(worker(os.Args[2], i, n, only))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "dev":
		dev(os.Args[2:])
	default:
		os.Exit(2)
	}
}
