package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		die("usage: veriftool instrument|build|check|replay|determinism ...")
	}
	fl := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	repo := fl.String("repo", "/repo", "repository")
	verif := fl.String("verif", "/verif", "verification directory")
	out := fl.String("out", "", "output directory (instrument, build)")
	id := fl.String("id", "", "property (check, determinism)")
	tier := fl.String("tier", "quick", "quick or thorough (check)")
	file := fl.String("file", "", "replay file (replay)")
	count := fl.Int("count", 0, "number of runs, instead of that of the tier (check, determinism)")
	seed := fl.Int64("seed", 1, "seed")
	fl.Parse(os.Args[2:])
	c := &config{repo: *repo, verif: *verif, id: *id, tier: *tier, seed: *seed, count: *count}
	switch os.Args[1] {
	case "instrument":
		instrumentTree(*repo, *verif+"/sim", *out, nil)
	case "build":
		fmt.Println(c.build(*out))
	case "buildrace":
		c.build(*out)
		fmt.Println(c.buildRace(*out))
	case "check":
		os.Exit(c.check())
	case "replay":
		os.Exit(c.replay(*file))
	case "determinism":
		os.Exit(c.determinism())
	default:
		die("unknown command %s", os.Args[1])
	}
}
