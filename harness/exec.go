package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"regexp/syntax"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	chaff "github.com/ryanolee/go-chaff"
	crand "github.com/ryanolee/go-chaff/rand"
	jsv "github.com/santhosh-tekuri/jsonschema/v6"
	"github.com/santhosh-tekuri/jsonschema/v6/kind"
)

// A session to run against the real code.
type Case struct {
	ID       string                     `json:"id"`
	Kind     string                     `json:"kind,omitempty"`
	Schema   json.RawMessage            `json:"schema,omitempty"`
	File     string                     `json:"file,omitempty"` // parsed through ParseSchemaFile
	URL      string                     `json:"url,omitempty"`  // base url of the root document
	Docs     map[string]json.RawMessage `json:"docs,omitempty"` // other documents, by url
	Parse    *chaff.ParserOptions       `json:"parse,omitempty"`
	Gen      map[string]any             `json:"gen,omitempty"`
	Samples  int                        `json:"samples,omitempty"`
	MaxOut   int                        `json:"maxOut,omitempty"`
	Wit      []json.RawMessage          `json:"wit,omitempty"`
	Unsat    bool                       `json:"unsat,omitempty"`
	Cover    []json.RawMessage          `json:"cover,omitempty"`
	Contract json.RawMessage            `json:"contract,omitempty"` // a schema the values have to satisfy besides
	MayFail  bool                       `json:"mayFail,omitempty"`
	Lib      bool                       `json:"lib,omitempty"`      // additionally sampled with all defaults
	Dangling bool                       `json:"dangling,omitempty"` // has references to nothing
	NoEdge   bool                       `json:"noEdge,omitempty"`   // no sources that return the extremes
	Par      int                        `json:"par,omitempty"`      // goroutines that generate at the same time
	Extra    json.RawMessage            `json:"extra,omitempty"`
}

// What the real code did. Trace is what the specification gets to see.
type Result struct {
	ID     string            `json:"id"`
	Trace  map[string]any    `json:"trace"`
	Raw    []json.RawMessage `json:"raw"`
	Errors []string          `json:"errors,omitempty"`
	N      int               `json:"n"`
	Flag   int               `json:"flag"`
	Note   string            `json:"note,omitempty"`
	Crash  string            `json:"crash,omitempty"`
	Spec   string            `json:"spec,omitempty"`
}

// Source that often returns the extremes, so the ends of ranges are hit.
type edgeSource struct{ r *rand.Rand }

func (s *edgeSource) Seed(int64) {}
func (s *edgeSource) Int63() int64 {
	switch s.r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1<<63 - 1
	}
	return s.r.Int63()
}

func randUtil(r *rand.Rand, sample int) *crand.RandUtil {
	if sample%4 == 3 {
		src := &edgeSource{r}
		return &crand.RandUtil{Source: src, Rand: rand.New(src)}
	}
	return crand.NewRandUtil(r.Int63())
}

func genOptions(m map[string]any) *chaff.GeneratorOptions {
	o := &chaff.GeneratorOptions{}
	if m != nil {
		b, _ := json.Marshal(m)
		if err := json.Unmarshal(b, o); err != nil {
			panic(err)
		}
	}
	return o
}

func parseCase(c *Case) (chaff.RootGenerator, error) {
	po := &chaff.ParserOptions{}
	if c.Parse != nil {
		po = c.Parse
		if po.RegexStringOptions != nil {
			po.RegexStringOptions.Flags = syntax.PerlX // not part of the JSON
		}
		if po.RegexPatternPropertyOptions != nil {
			po.RegexPatternPropertyOptions.Flags = syntax.PerlX
		}
	}
	if c.File != "" {
		return chaff.ParseSchemaFile(c.File, po)
	}
	return chaff.ParseSchema(c.Schema, po)
}

const failPrefix = "Failed to generate a valid value"

func runCase(c *Case, seed int64) (res *Result) {
	res = &Result{ID: c.ID, Raw: []json.RawMessage{}}
	tr := map[string]any{
		"id": c.ID, "crash": "", "parse": "ok", "reported": false, "unsat": c.Unsat,
		"wit": []any{}, "out": []any{}, "cover": []any{}, "root": "urn:root", "docs": map[string]any{}, "mayFail": c.MayFail, "bound": false, "contract": map[string]any{},
	}
	res.Trace = tr
	defer func() {
		if r := recover(); r != nil {
			tr["crash"] = fmt.Sprintf("panic: %v", r)
			res.Note = string(debug.Stack())
		}
	}()

	rootURL := c.URL
	if rootURL == "" {
		rootURL = "urn:root"
	}
	tr["root"] = rootURL
	root, err := decodeJSON(c.Schema)
	must(err)
	docs := map[string]any{}
	for k, d := range c.Docs {
		v, err := decodeJSON(d)
		must(err)
		docs[k] = v
	}
	besides := []any{}
	for _, s := range append(append([]json.RawMessage{}, c.Cover...), c.Contract) {
		if s != nil {
			v, err := decodeJSON(s)
			must(err)
			besides = append(besides, v)
		}
	}
	enc, err := newEncoder(root, rootURL, docs, besides...)
	if err != nil {
		panic(fmt.Sprintf("HARNESS: %v in %s", err, c.Schema))
	}
	enc.dangling = c.Dangling
	encDocs := map[string]any{}
	for k, d := range enc.docs {
		encDocs[k] = enc.schema(d, k)
	}
	tr["docs"] = encDocs
	wits := []any{}
	for _, w := range c.Wit {
		v, err := decodeJSON(w)
		must(err)
		wits = append(wits, enc.value(v))
	}
	tr["wit"] = wits
	covers := []any{}
	for _, s := range c.Cover {
		v, err := decodeJSON(s)
		must(err)
		covers = append(covers, enc.schema(v, rootURL))
	}
	tr["cover"] = covers

	oracle := prefilter(root, rootURL, docs)
	var contract *jsv.Schema
	if c.Contract != nil {
		v, err := decodeJSON(c.Contract)
		must(err)
		tr["bound"], tr["contract"] = true, enc.schema(v, rootURL)
		contract = prefilter(v, "urn:contract", nil)
	}

	gen, err := parseCase(c)
	if err != nil {
		tr["parse"] = "error"
		res.Errors = append(res.Errors, err.Error())
		return res
	}
	if gen.Metadata != nil && gen.Metadata.Errors.HasErrors() {
		tr["reported"] = true
		for k, e := range gen.Metadata.Errors.CollectErrors() {
			res.Errors = append(res.Errors, fmt.Sprintf("%s: %s", k, e))
		}
	}

	r := rand.New(rand.NewSource(seed))
	seen := map[string]bool{}
	maxOut := c.MaxOut
	if maxOut == 0 {
		maxOut = 12
	}
	type enced struct {
		v    any
		raw  json.RawMessage
		flag bool
	}
	flagged, plain := []enced{}, []enced{}
	coverHit := make([]bool, len(c.Cover))
	coverOracle := []*jsv.Schema{}
	for _, s := range c.Cover {
		v, _ := decodeJSON(s)
		within := map[string]any{"allOf": []any{v}} // references lead to the definitions of the root
		if m, ok := root.(map[string]any); ok {
			for _, k := range []string{"$schema", "$defs", "definitions"} {
				if m[k] != nil {
					within[k] = m[k]
				}
			}
		}
		coverOracle = append(coverOracle, prefilter(within, rootURL, docs))
	}
	must2 := []enced{}
	early := concurrently(c, gen, r)
	// What is rare gets a few more chances than what is common
	uncovered := func() bool {
		for _, h := range coverHit {
			if !h {
				return true
			}
		}
		return false
	}
	began := time.Now()
	patient := func(i int) bool {
		return early == nil && uncovered() && (i < 10*c.Samples || i < 60*c.Samples && time.Since(began) < 4*time.Second)
	}
	for i := 0; i < c.Samples || patient(i); i++ {
		opts := genOptions(c.Gen)
		if early == nil && !(c.Lib && i%2 == 0) {
			if c.NoEdge {
				opts.Rand = crand.NewRandUtil(r.Int63())
			} else {
				opts.Rand = randUtil(r, i)
			}
		}
		var val any
		if early != nil {
			val = early[i]
		} else if c.Gen == nil && c.Lib && i%4 == 0 {
			val = gen.GenerateWithDefaults()
		} else {
			val = gen.Generate(opts)
		}
		res.N++
		raw, err := json.Marshal(val)
		if err != nil {
			tr["crash"] = "not serialisable: " + err.Error()
			return res
		}
		if seen[string(raw)] {
			continue
		}
		seen[string(raw)] = true
		dec, err := decodeJSON(raw)
		must(err)
		bad := oracle != nil && oracle.Validate(dec) != nil || contract != nil && contract.Validate(dec) != nil
		hit := false
		for j, co := range coverOracle {
			if !coverHit[j] && co != nil && co.Validate(dec) == nil {
				coverHit[j], hit = true, true
			}
		}
		if len(raw) > 60000 {
			if !bad {
				continue // too large to hand over, and not suspicious
			}
		}
		switch {
		case hit: // whatever the validator says about the rest (which takes ["1", 1] for two equal items)
			must2 = append(must2, enced{dec, raw, bad})
		case bad && len(flagged) < 6:
			flagged = append(flagged, enced{dec, raw, true})
		case bad:
		case len(plain) < maxOut:
			plain = append(plain, enced{dec, raw, false})
		default: // reservoir
			if k := r.Intn(res.N); k < maxOut {
				plain[k] = enced{dec, raw, false}
			}
		}
		if bad {
			res.Flag++
		}
	}
	outs := []any{}
	for _, e := range append(append(flagged, must2...), plain...) {
		var v map[string]any
		if s, ok := e.v.(string); ok && strings.HasPrefix(s, failPrefix) && c.MayFail {
			v = map[string]any{"t": "fail", "c": "fail"}
		} else {
			v = enc.value(e.v)
		}
		outs = append(outs, v)
		res.Raw = append(res.Raw, e.raw)
	}
	tr["out"] = outs
	return res
}

// Values generated by several goroutines at the same time, each with options of its own or shared ones.
func concurrently(c *Case, gen chaff.RootGenerator, r *rand.Rand) []any {
	if c.Par == 0 {
		return nil
	}
	vals, seeds := make([]any, c.Samples), make([]int64, c.Samples)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	shared := genOptions(c.Gen)
	panics := make([]any, c.Par)
	var wg sync.WaitGroup
	for p := 0; p < c.Par; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[p] = recover() }()
			for i := p; i < c.Samples; i += c.Par {
				opts := shared
				if i%3 > 0 {
					opts = genOptions(c.Gen)
					opts.Rand = crand.NewRandUtil(seeds[i])
				}
				vals[i] = gen.Generate(opts)
				if i%5 == 0 {
					if other, err := parseCase(c); err == nil {
						vals[i] = other.Generate(opts)
					}
				}
			}
		}()
	}
	wg.Wait()
	for _, p := range panics {
		if p != nil {
			panic(p)
		}
	}
	return vals
}

func prefilter(root any, rootURL string, docs map[string]any) (s *jsv.Schema) {
	defer func() {
		if r := recover(); r != nil {
			s = nil
		}
	}()
	for _, draft := range []*jsv.Draft{jsv.Draft2020, jsv.Draft2019} {
		comp := jsv.NewCompiler()
		comp.DefaultDraft(draft)
		comp.AssertFormat()
		comp.RegisterVocabulary(&jsv.Vocabulary{URL: "urn:literals", Compile: compileLiterals})
		comp.AssertVocabs()
		comp.UseLoader(noLoader{})
		for k, d := range docs {
			comp.AddResource(k, d)
		}
		comp.AddResource(rootURL, root)
		if sch, err := comp.Compile(rootURL); err == nil {
			return sch
		}
	}
	return nil
}

// The validator takes numbers for equal to strings of their digits.
type literals struct{ lists [][]any }

func compileLiterals(_ *jsv.CompilerContext, s map[string]any) (jsv.SchemaExt, error) {
	l := literals{}
	if e, ok := s["enum"].([]any); ok {
		l.lists = append(l.lists, e)
	}
	if k, ok := s["const"]; ok {
		l.lists = append(l.lists, []any{k})
	}
	if l.lists == nil {
		return nil, nil
	}
	return l, nil
}

func (l literals) Validate(ctx *jsv.ValidatorContext, v any) {
	for _, list := range l.lists {
		if !slices.ContainsFunc(list, func(x any) bool { return sameValue(x, v) }) {
			ctx.AddError(&kind.Enum{Got: v, Want: list})
		}
	}
}

func sameValue(a, b any) bool {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if z, ok := y[k]; !ok || !sameValue(x[k], z) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		return ok && slices.EqualFunc(x, y, sameValue)
	case string, bool, nil:
		return a == b
	}
	switch b.(type) {
	case map[string]any, []any, string, bool, nil:
		return false
	}
	return numOf(a).Cmp(numOf(b)) == 0
}

type noLoader struct{}

func (noLoader) Load(url string) (any, error) { return nil, fmt.Errorf("no %s", url) }

func must(err error) {
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
}

// ---------------------------------------------------------------------------
// Workers: cases run in sub processes, so a crash or hang of the code under test costs one case.

const caseTimeout = 60 * time.Second

func workerMain(kind string) {
	seed := int64(0)
	fmt.Sscan(os.Getenv("VERIF_WORKER_SEED"), &seed)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	debug.SetMaxStack(256 << 20)
	var memBad atomic.Bool
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 2500<<20 {
				memBad.Store(true)
				fmt.Fprintln(os.Stderr, "out of memory budget")
				os.Exit(97)
			}
		}
	}()
	n := int64(0)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			var c Case
			must(json.Unmarshal(line, &c))
			n++
			var res *Result
			if k, ok := runners[c.Kind]; ok {
				res = k.start(&c, seed*1000003+n)
			} else {
				res = runCase(&c, seed*1000003+n)
			}
			if s := raceReport(); s != "" && res.Trace["crash"] == "" {
				res.Trace["crash"] = s
			}
			b, err := json.Marshal(res)
			must(err)
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		}
		if err == io.EOF {
			return
		}
		must(err)
	}
}

// A kind of case: how it runs, and the specification its histories are replayed in.
type runner struct {
	spec  string
	blank func(c *Case) map[string]any // history before anything happened
	run   func(c *Case, seed int64, res *Result, trace map[string]any)
}

var runners = map[string]runner{}

func (k runner) start(c *Case, seed int64) (res *Result) {
	res = k.result(c)
	defer func() {
		if r := recover(); r != nil {
			if s := fmt.Sprint(r); strings.HasPrefix(s, "HARNESS") {
				panic(r)
			}
			res.Trace["crash"] = fmt.Sprintf("panic: %v", r)
			res.Note = string(debug.Stack())
		}
	}()
	k.run(c, seed, res, res.Trace)
	return res
}

func (k runner) result(c *Case) *Result {
	tr := k.blank(c)
	tr["id"], tr["crash"] = c.ID, ""
	return &Result{ID: c.ID, Spec: k.spec, Raw: []json.RawMessage{}, Trace: tr}
}

// Cases that end or hang the process after which no further ones are run: the run has failed, and every one takes its time
const enoughDead = 40

// Runs the cases and returns the results in order.
func runCases(cases []*Case, seed int64, workers int, deadline time.Time) []*Result {
	results := make([]*Result, len(cases))
	next, dead := int64(-1), int64(0)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(cases) || time.Now().After(deadline) || atomic.LoadInt64(&dead) > enoughDead {
					return
				}
				if p == nil {
					p = startProc(seed*7919 + int64(i))
				}
				res, ended := p.run(cases[i])
				results[i] = res
				if ended {
					atomic.AddInt64(&dead, 1)
					p = nil
				}
			}
		}(w)
	}
	wg.Wait()
	out := []*Result{}
	for _, r := range results {
		if r != nil {
			out = append(out, r)
		}
	}
	return out
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tailBuffer
}

type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 8192 {
		t.b = append(t.b, p[:min(len(p), 8192-len(t.b))]...)
	}
	return len(p), nil
}

func startProc(seed int64) *proc {
	cmd := exec.Command(os.Args[0], "worker")
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_WORKER_SEED=%d", seed))
	in, err := cmd.StdinPipe()
	must(err)
	out, err := cmd.StdoutPipe()
	must(err)
	t := &tailBuffer{}
	cmd.Stderr = t
	must(cmd.Start())
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<20), t}
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (p *proc) run(c *Case) (*Result, bool) {
	b, err := json.Marshal(c)
	must(err)
	type answer struct {
		line []byte
		err  error
	}
	ch := make(chan answer, 1)
	go func() {
		p.in.Write(append(b, '\n'))
		line, err := p.out.ReadBytes('\n')
		ch <- answer{line, err}
	}()
	why := ""
	select {
	case a := <-ch:
		if a.err == nil {
			var r Result
			must(json.Unmarshal(a.line, &r))
			return &r, false
		}
		p.cmd.Wait()
		why = "the process ended"
		p.err.mu.Lock()
		why += ": " + firstLine(string(p.err.b))
		p.err.mu.Unlock()
	case <-time.After(caseTimeout):
		why = fmt.Sprintf("no end within %s", caseTimeout)
		p.stop()
	}
	p.stop()
	return crashResult(c, why), true
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func crashResult(c *Case, why string) *Result {
	if k, ok := runners[c.Kind]; ok {
		res := k.result(c)
		res.Trace["crash"] = why
		return res
	}
	return &Result{ID: c.ID, Trace: map[string]any{
		"id": c.ID, "crash": why, "parse": "ok", "reported": false, "unsat": false, "wit": []any{}, "out": []any{},
		"cover": []any{}, "root": "urn:root", "docs": map[string]any{"urn:root": map[string]any{}}, "mayFail": false, "bound": false, "contract": map[string]any{},
	}}
}
