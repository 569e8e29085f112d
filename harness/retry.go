package main

import (
	"encoding/json"
	"fmt"
	"math/rand"

	chaff "github.com/ryanolee/go-chaff"
	crand "github.com/ryanolee/go-chaff/rand"
)

// Retry loops: a source decides from which draw on candidates are accepted.
type retryExtra struct {
	What   string `json:"what"` // budget, oneOf, not, if or unique
	Base   int    `json:"base"`
	Soft   int    `json:"soft"`
	Hard   int    `json:"hard"`
	Before int    `json:"before"`
	Unit   int    `json:"unit"`
	Phase  int    `json:"phase"` // -1: never
	Upto   int    `json:"upto"`
	Nested bool   `json:"nested"`
}

type phaseSource struct {
	r     *rand.Rand
	n     int
	phase int
}

func (s *phaseSource) Seed(int64) {}
func (s *phaseSource) Int63() int64 {
	s.n++
	if s.phase < 0 || s.n <= s.phase {
		return 0
	}
	return s.r.Int63() | 1<<62 // the upper half
}

func (e *retryExtra) schema() (S, S) {
	items, zeros := []any{}, []any{}
	for i := 0; i < e.Unit; i++ {
		items = append(items, S{"type": "integer", "minimum": 0, "maximum": 1 << 40})
		zeros = append(zeros, 0)
	}
	tuple := func() S {
		return S{"type": "array", "prefixItems": items, "items": false, "minItems": e.Unit}
	}
	switch e.What {
	case "oneOf":
		if e.Phase == 0 { // always accepted
			return S{"oneOf": []any{tuple(), S{"const": "x"}}}, S{"anyOf": []any{tuple(), S{"const": "x"}}}
		}
		return S{"oneOf": []any{tuple(), S{"const": zeros}}}, S{"anyOf": []any{tuple(), S{"const": zeros}}}
	case "not":
		s := tuple()
		s["not"] = S{"const": zeros}
		return s, tuple()
	case "if":
		ones := []any{}
		for i := 0; i < e.Unit; i++ {
			ones = append(ones, S{"minimum": 1})
		}
		s := tuple()
		s["if"], s["then"] = S{"const": zeros}, S{"prefixItems": ones}
		return s, tuple()
	}
	return S{"type": "array", "items": tuple(), "minItems": 2, "maxItems": 2, "uniqueItems": true}, tuple()
}

func (e *retryExtra) accepts(v any) bool {
	x, ok := v.([]any)
	if !ok {
		return v == "x"
	}
	if e.What == "unique" {
		if len(x) != 2 {
			return false
		}
		a, oka := x[0].([]any)
		b, okb := x[1].([]any)
		return oka && okb && len(a) == e.Unit && len(b) == e.Unit && string(raw(a)) != string(raw(b))
	}
	return len(x) == e.Unit && nonZero(x)
}

func nonZero(x []any) bool {
	for _, e := range x {
		if n, ok := e.(int); !ok || n != 0 {
			return true
		}
	}
	return false
}

func init() {
	runners["retry"] = runner{"RetryTrace", func(c *Case) map[string]any {
		var e retryExtra
		must(json.Unmarshal(c.Extra, &e))
		return map[string]any{"what": e.What, "base": e.Base, "soft": e.Soft, "hard": e.Hard, "reported": false,
			"points": []any{}, "start": 0, "first": 0, "unit": 0, "per": 1, "draws": 0, "phase": -1, "found": false}
	}, runRetry}
	properties["C17"] = property{cases: retryCases}
}

func runRetry(c *Case, seed int64, res *Result, tr map[string]any) {
	var e retryExtra
	must(json.Unmarshal(c.Extra, &e))
	r := rand.New(rand.NewSource(seed))
	null, err := chaff.ParseSchemaStringWithDefaults(`{"type": "null"}`)
	must(err)
	src := &phaseSource{r: r, phase: e.Phase}
	opts := &chaff.GeneratorOptions{
		Rand:                 &crand.RandUtil{Source: src, Rand: rand.New(src)},
		DefaultArrayMaxItems: 3, DefaultObjectMaxProperties: 3, SuppressFallbackValues: true, MaximumReferenceDepth: 10,
		MaximumUniqueGeneratorAttempts: e.Base, MaximumIfAttempts: e.Base, MaximumOneOfAttempts: e.Base,
		MaximumGenerationSteps: e.Soft, CutoffGenerationSteps: e.Hard,
	}
	if e.What != "not" && e.What != "unique" { // an attempt option is of its own loop only
		opts.MaximumUniqueGeneratorAttempts = 1 + r.Intn(200)
	}
	if e.What != "if" {
		opts.MaximumIfAttempts = 1 + r.Intn(200)
	}
	if e.What != "oneOf" {
		opts.MaximumOneOfAttempts = 1 + r.Intn(200)
	}
	for i := 0; i < e.Before; i++ {
		null.Generator.Generate(opts)
	}
	at := func() int {
		if n := steps(opts); n > 1 || e.Before > 0 {
			return n
		}
		return 0
	}
	if e.What == "budget" {
		points := []any{}
		for i := 0; i < e.Upto; i++ {
			if n := at(); n > 1 || i > 0 {
				points = append(points, []any{n, opts.ScaledRetryBudget(e.Base)})
			} else {
				points = append(points, []any{i, opts.ScaledRetryBudget(e.Base)})
			}
			null.Generator.Generate(opts)
			res.N++
		}
		tr["points"] = points
		return
	}
	schema, plain := e.schema()
	if e.Nested {
		schema = S{"type": "object", "properties": S{"x": schema}, "required": []any{"x"}, "additionalProperties": false}
	}
	gen, err := chaff.ParseSchema(raw(schema), &chaff.ParserOptions{})
	if err != nil || gen.Metadata.Errors.HasErrors() {
		tr["reported"] = true
		if err != nil {
			res.Errors = append(res.Errors, err.Error())
		} else {
			for _, x := range gen.Metadata.Errors.CollectErrors() {
				res.Errors = append(res.Errors, x.Error())
			}
		}
		return
	}
	// what a candidate takes
	first, err := chaff.ParseSchema(raw(plain), &chaff.ParserOptions{})
	must(err)
	csrc := &phaseSource{r: r, phase: -1}
	copts := &chaff.GeneratorOptions{Rand: &crand.RandUtil{Source: csrc, Rand: rand.New(csrc)}, DefaultArrayMaxItems: 3, MaximumReferenceDepth: 10}
	null.Generator.Generate(copts)
	before := steps(copts)
	first.Generator.Generate(copts)
	tr["first"] = steps(copts) - before + 4
	tr["unit"], tr["start"] = csrc.n, at()
	tr["phase"] = e.Phase
	if e.What == "if" {
		tr["per"] = 2
	}
	v := gen.Generator.Generate(opts)
	res.N++
	plainV, err := json.Marshal(v)
	must(err)
	if len(plainV) > 300 {
		plainV = raw(string(plainV[:300]))
	}
	res.Raw = append(res.Raw, plainV)
	if e.Nested {
		m, _ := v.(map[string]any)
		v = m["x"]
	}
	tr["draws"], tr["found"] = src.n, e.accepts(v)
}

func retryCases(g *G, tier string) []*Case {
	var cs []*Case
	add := func(e retryExtra) { cs = append(cs, &Case{ID: fmt.Sprintf("retry-%d", len(cs)), Kind: "retry", Extra: raw(e)}) }
	limits := func(e *retryExtra) {
		e.Soft = pick(g, 0, 1, 5, 20, 100)
		e.Hard = e.Soft + pick(g, 0, 1, 2, 7, 20, 100)
		if g.p(10) {
			e.Hard = g.Intn(e.Soft + 1)
		}
	}
	for i := 0; i < scale(tier, 600, 6000); i++ {
		e := retryExtra{What: "budget", Base: pick(g, -1, 0, 1, 2, 3, 5, 10, 100, 1000)}
		limits(&e)
		e.Upto = max(e.Soft, e.Hard) + 10
		add(e)
	}
	for i := 0; i < scale(tier, 4000, 40000); i++ {
		e := retryExtra{What: pick(g, "oneOf", "not", "if", "unique"), Base: pick(g, 1, 2, 3, 4, 7, 20, 60, 100, 150), Unit: pick(g, 4, 10, 20)}
		switch g.Intn(5) {
		case 0: // far from any limit
			e.Soft, e.Hard = 1<<30, 1<<31
		case 1:
			e.Soft, e.Hard = 0, 0
		case 2: // between them, with room
			e.Soft, e.Hard = 1+g.Intn(20), 20000
			e.Before = e.Soft + g.Intn(12000)
		case 3:
			limits(&e)
			e.Before = g.Intn(e.Hard + 5)
		case 4: // past the cutoff soon
			e.Soft, e.Hard = 1+g.Intn(20), 20+g.Intn(1000)
			e.Before = g.Intn(e.Hard)
		}
		full := e.Base * e.Unit
		e.Phase = pick(g, -1, 0, 0, g.Intn(full+1), full/2, max(0, full-e.Unit), max(0, (e.Base-1)*e.Unit))
		if e.What == "if" && g.p(70) && e.Phase > 0 {
			e.Phase = pick(g, (e.Base-1)*2*e.Unit, g.Intn(2*full))
		}
		if e.Soft > 0 && e.Before > e.Soft && e.Phase > 0 && e.Hard > e.Before && g.p(80) { // around what is left of them
			e.Phase = e.Phase * (e.Hard - e.Before) / (e.Hard - e.Soft)
			e.Phase = max(0, e.Phase-g.Intn(3)*e.Unit)
		}
		e.Nested = g.p(30)
		add(e)
	}
	return cs
}
