package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"time"
)

// checks maps a property id to the workload and monitors that decide it.
var checks = map[string]func(c *Ctx){}

// assumptions per property, copied into the evidence.
var assumptions = map[string][]string{}

func main() {
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	seed := flag.String("seed", envOr("VERIF_SEED", "1"), "PRNG value")
	verif := flag.String("verif", "/verif", "verification folder")
	bin := flag.String("bin", "", "folder with the bbn and bbni binaries under test")
	replay := flag.String("replay", "", "replay file to run again")
	section := flag.String("section", "", "run only this section")
	caseNo := flag.Int("case", -1, "run only this case of -section")
	scale := flag.Float64("scale", 1, "fraction of the cases to run (for experiments with many planted changes)")
	flag.Parse()
	if flag.NArg() < 1 {
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("usage: harness [flags] PROPERTY; properties:", ids)
		os.Exit(2)
	}
	s, err := strconv.ParseUint(*seed, 10, 64)
	if err != nil {
		s = hashStr(*seed)
	}
	c := &Ctx{ID: flag.Arg(0), Tier: *tier, Seed: s, VerifDir: *verif, BinDir: *bin, onlySection: *section, onlyCase: *caseNo, scale: *scale,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, sampleOf: map[string]int{}, known: map[string]string{}}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		v := Violation{}
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.ID, c.Seed, c.Tier, c.onlySection, c.onlyCase = v.Property, v.Seed, v.Tier, v.Section, v.Case
	}
	fn, ok := checks[c.ID]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", c.ID)
		os.Exit(2)
	}
	start := time.Now()
	go c.watchdog()
	fn(c)
	os.Exit(c.finish(start))
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
