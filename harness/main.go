package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"sort"
	"strconv"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: dscheck list | needs ID | run ID | worker ... | replay FILE | case ID INDEX")
	os.Exit(2)
}

func main() {
	log.SetOutput(io.Discard)
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		ids := []string{}
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			p := registry[id]
			fmt.Println(id, "race", p.Race, "quick", p.count(false), "thorough", p.count(true))
		}
	case "needs":
		p := prop(os.Args[2])
		switch {
		case p.Race:
			fmt.Println("race")
		case p.Cover:
			fmt.Println("cover")
		default:
			fmt.Println("nothing")
		}
	case "run":
		os.Exit(supervise(prop(os.Args[2])))
	case "worker":
		worker(os.Args[2:])
	case "hashes":
		n, _ := strconv.Atoi(os.Args[2])
		fmt.Print(hashes(n))
	case "support-probe":
		seed, _ := strconv.Atoi(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		supportProbe(seed, n)
	case "rand-probe":
		randProbe(os.Args[2])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "case":
		p := prop(os.Args[2])
		i, _ := strconv.Atoi(os.Args[3])
		c := p.gen(envSeed(), i, envTier() == "thorough")
		b, _ := json.MarshalIndent(c, "", " ")
		fmt.Println(string(b))
		m, v := runCase(p, c)
		fmt.Println(m.feats)
		if v != nil {
			fmt.Println("VIOLATION:", v.Text)
			os.Exit(1)
		}
	default:
		usage()
	}
}

func prop(id string) *Property {
	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	return p
}

func envSeed() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return uint64(n)
	}
	return strHash(s)
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil || rf.Case == nil {
		fmt.Fprintln(os.Stderr, "not a replay file:", err)
		return 2
	}
	p := prop(rf.Case.Prop)
	n := maxi(1, p.Repeat)
	for i := 0; i < n; i++ {
		if _, v := runCase(p, rf.Case); v != nil {
			fmt.Println(rf.Case)
			fmt.Println(v.Text)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
			return 1
		}
	}
	fmt.Println("the case passes")
	return 0
}
