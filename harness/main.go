package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// A property: the sessions its check runs.
type property struct {
	cases func(g *G, tier string) []*Case
}

var properties = map[string]property{}

// Kinds of enumerated cases that are sessions once they are spelled out.
var expanders = map[string]func(c *Case){}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		workerMain("")
		return
	}
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "", "")
	casesFile := flag.String("cases", "", "cases to run (ndjson) in addition to the generated ones")
	only := flag.Bool("only", false, "run only -cases")
	budget := flag.Int("budget", 600, "seconds")
	flag.Parse()

	var cases []*Case
	if *casesFile != "" {
		f, err := os.Open(*casesFile)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 64<<20)
		for sc.Scan() {
			var c Case
			must(json.Unmarshal(fixNumbers(sc.Bytes()), &c))
			if c.Kind == "world" {
				must(os.MkdirAll(*out, 0o755))
				world := filepath.Join(*out, "world.json")
				must(os.WriteFile(world, c.Extra, 0o644))
				world, err = filepath.Abs(world)
				must(err)
				os.Setenv("VERIF_WORLD", world)
				continue
			}
			if x := expanders[c.Kind]; x != nil {
				x(&c)
				c.Kind, c.Extra = "", nil
			}
			cases = append(cases, &c)
		}
		must(sc.Err())
	}
	if !*only {
		if p, ok := properties[*prop]; ok {
			g := &G{Rand: rand.New(rand.NewSource(*seed*1000 + int64(len(*prop))))}
			cases = append(cases, p.cases(g, *tier)...)
		}
	}
	start := time.Now()
	results := runCases(cases, *seed, 8, start.Add(time.Duration(*budget)*time.Second))
	must(os.MkdirAll(*out, 0o755))
	traces := map[string]*bufio.Writer{}
	rf, err := os.Create(filepath.Join(*out, "results.ndjson"))
	must(err)
	cf, err := os.Create(filepath.Join(*out, "cases.ndjson"))
	must(err)
	rw, cw := bufio.NewWriter(rf), bufio.NewWriter(cf)
	byID := map[string]*Case{}
	for _, c := range cases {
		if byID[c.ID] != nil {
			panic("HARNESS: duplicate case " + c.ID)
		}
		byID[c.ID] = c
	}
	gens, reported, flagged, crashed := 0, 0, 0, 0
	for _, r := range results {
		if s, _ := r.Trace["crash"].(string); strings.Contains(s, "HARNESS") {
			fmt.Fprintln(os.Stderr, s, string(byID[r.ID].Schema))
			os.Exit(2)
		} else if s != "" {
			crashed++
		}
		gens += r.N
		if r.Trace["reported"] == true || r.Trace["parse"] == "error" {
			reported++
		}
		if r.Flag > 0 {
			flagged++
		}
		spec := r.Spec
		if spec == "" {
			spec = "SessionTrace"
		}
		tw := traces[spec]
		if tw == nil {
			tf, err := os.Create(filepath.Join(*out, "trace-"+spec+".ndjson"))
			must(err)
			tw = bufio.NewWriter(tf)
			traces[spec] = tw
		}
		r.Crash, _ = r.Trace["crash"].(string)
		tw.Write(raw(r.Trace))
		tw.WriteByte('\n')
		r.Trace = nil
		rw.Write(raw(r))
		rw.WriteByte('\n')
		cw.Write(raw(byID[r.ID]))
		cw.WriteByte('\n')
	}
	for _, tw := range traces {
		tw.Flush()
	}
	rw.Flush()
	cw.Flush()
	fmt.Printf("cases %d generations %d reported %d flagged %d crashed %d in %.1fs\n", len(results), gens, reported, flagged, crashed, time.Since(start).Seconds())
}

// Specifications write decimals as strings with a leading #.
func fixNumbers(line []byte) []byte {
	return hashNumber.ReplaceAll(line, []byte("$1"))
}

var hashNumber = regexp.MustCompile(`"#(-?[0-9][0-9.]*)"`)
