package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"

	chaff "github.com/ryanolee/go-chaff"
	crand "github.com/ryanolee/go-chaff/rand"
)

// Generations under step limits. Schemas contain clocks: integers of a range so large that the
// value tells which draw it came from, and with it how many steps had been made by then.
type bnode struct {
	K     string   `json:"k"`           // clock, null, lit, arr, obj, alt or ref
	Tuple []*bnode `json:"t,omitempty"` // arr
	Item  *bnode   `json:"i,omitempty"` // arr: further items, obj: additional properties
	Only  bool     `json:"o,omitempty"` // without Item: no further parts
	Min   int      `json:"min,omitempty"`
	Max   int      `json:"max,omitempty"`
	Req   int      `json:"r,omitempty"` // obj: the first Req of Tuple are required
	Uniq  bool     `json:"u,omitempty"`
	Not   bool     `json:"n,omitempty"` // constrained by a negation it never meets
	If    bool     `json:"c,omitempty"` // or a condition
	Alt   string   `json:"a,omitempty"` // anyOf or oneOf
	Def   string   `json:"d,omitempty"`
}

type budgetExtra struct {
	Root   *bnode            `json:"root"`
	Defs   map[string]*bnode `json:"defs"`
	Soft   int               `json:"soft"`
	Hard   int               `json:"hard"`
	Before int               `json:"before"` // steps before the first generation
	Gens   int               `json:"gens"`   // generations with the same options
	Runs   int               `json:"runs"`
	Depth  int               `json:"depth"`
	ArrMax int               `json:"arrMax"`
	ArrMin int               `json:"arrMin"`
	ObjMax int               `json:"objMax"`
	ObjMin int               `json:"objMin"`
	Vary   bool              `json:"vary"`
	Text   string            `json:"text,omitempty"` // just has to end
}

const clockMax = 1 << 53

func (n *bnode) schema() S {
	s := S{}
	switch n.K {
	case "clock":
		return S{"type": "integer", "minimum": 0, "maximum": clockMax}
	case "null":
		return S{"type": "null"}
	case "lit":
		return S{"enum": []any{true, false}}
	case "ref":
		return S{"$ref": "#/$defs/" + n.Def}
	case "alt":
		l := []any{}
		for _, t := range n.Tuple {
			l = append(l, t.schema())
		}
		return S{n.Alt: l}
	case "arr":
		s["type"] = "array"
		if len(n.Tuple) > 0 {
			l := []any{}
			for _, t := range n.Tuple {
				l = append(l, t.schema())
			}
			s["prefixItems"] = l
		}
		if n.Item != nil {
			s["items"] = n.Item.schema()
		} else if n.Only {
			s["items"] = false
		}
		if n.Min > 0 {
			s["minItems"] = n.Min
		}
		if n.Max > 0 {
			s["maxItems"] = n.Max
		}
		if n.Uniq {
			s["uniqueItems"] = true
		}
	case "obj":
		s["type"] = "object"
		props, req := S{}, []any{}
		for i, t := range n.Tuple {
			props[fmt.Sprintf("p%d", i)] = t.schema()
			if i < n.Req {
				req = append(req, fmt.Sprintf("p%d", i))
			}
		}
		s["properties"], s["required"] = props, req
		if n.Item != nil {
			s["additionalProperties"] = n.Item.schema()
		} else if n.Only {
			s["additionalProperties"] = false
		}
		if n.Min > 0 {
			s["minProperties"] = n.Min
		}
		if n.Max > 0 {
			s["maxProperties"] = n.Max
		}
	}
	if n.Not {
		s["not"] = S{"const": "x"}
	}
	if n.If {
		s["if"], s["else"] = S{"const": "x"}, S{"not": S{"const": "y"}}
	}
	return s
}

func (e *budgetExtra) schema() S {
	s := e.Root.schema()
	if len(e.Defs) > 0 {
		defs := S{}
		for k, d := range e.Defs {
			defs[k] = d.schema()
		}
		s["$defs"] = defs
	}
	return s
}

// The parts an array or object demands.
func (n *bnode) demand(e *budgetExtra) int {
	least, tuple, def := n.Min, len(n.Tuple), e.ArrMin
	if n.K == "obj" {
		tuple, def = n.Req, e.ObjMin
	}
	if least == 0 {
		least = def
		if n.Max > 0 {
			least = min(least, n.Max)
		}
	}
	if n.Only && n.Item == nil && n.K == "obj" {
		least = min(least, len(n.Tuple))
	}
	if n.Only && n.Item == nil && n.K == "arr" {
		least = tuple
	}
	return max(least, tuple)
}

// Steps made so far, as seen by the hard limit and by the soft one.
func steps(o *chaff.GeneratorOptions) int {
	saved := o.CutoffGenerationSteps
	defer func() { o.CutoffGenerationSteps = saved }()
	return measure(func(n int) bool { o.CutoffGenerationSteps = n; return o.ShouldCutoff() })
}

func stepsSoft(o *chaff.GeneratorOptions) int {
	saved := o.MaximumGenerationSteps
	defer func() { o.MaximumGenerationSteps = saved }()
	return measure(func(n int) bool { o.MaximumGenerationSteps = n; return o.ShouldMinimize() })
}

// The least n >= 1 that is not exceeded (1 if there were no steps at all).
func measure(exceeds func(int) bool) int {
	hi := 1
	for exceeds(hi) && hi < 1<<40 {
		hi *= 2
	}
	lo := hi / 2 // exceeds(lo) or 0
	for hi-lo > 1 {
		mid := (hi + lo) / 2
		if exceeds(mid) {
			lo = mid
		} else {
			hi = mid
		}
	}
	return hi
}

// Remembers at which step each draw was made.
type clockSource struct {
	r     *rand.Rand
	opts  *chaff.GeneratorOptions
	draws map[int64]int
	n     int
}

func (s *clockSource) Seed(int64) {}
func (s *clockSource) Int63() int64 {
	v := s.r.Int63()
	s.n++
	if s.n < 200000 {
		n := steps(s.opts)
		s.draws[int64(float64(v)/(1<<63)*clockMax)] = n // how Float64 uses it
		s.draws[v&(clockMax-1)] = n                     // and Int63n
	}
	return v
}

type budgetEvent struct {
	E string `json:"e"`
	A int    `json:"a"`
	B int    `json:"b"`
}

type flattener struct {
	e   *budgetExtra
	src *clockSource
	evs []budgetEvent
}

func (f *flattener) add(e string, a, b int) { f.evs = append(f.evs, budgetEvent{e, a, b}) }

func (f *flattener) tick(v any) (int, bool) {
	n, ok := v.(int)
	if !ok {
		return 0, false
	}
	for _, d := range []int64{0, -1, 1} {
		if c, ok := f.src.draws[int64(n)+d]; ok {
			return c, true
		}
	}
	return 0, false
}

func (f *flattener) firstTick(v any) int {
	best := 1 << 50
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			best = min(best, f.firstTick(e))
		}
	case map[string]any:
		for _, e := range x {
			best = min(best, f.firstTick(e))
		}
	default:
		if c, ok := f.tick(v); ok {
			return c
		}
	}
	return best
}

func containsNull(v any) bool { return contains(v, func(x any) bool { return x == nil }) }
func containsText(v any) bool {
	return contains(v, func(x any) bool { _, ok := x.(string); return ok })
}

func contains(v any, is func(any) bool) bool {
	found := is(v)
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			found = found || contains(e, is)
		}
	case map[string]any:
		for _, e := range x {
			found = found || contains(e, is)
		}
	}
	return found
}

func (f *flattener) flatten(n *bnode, v any) {
	for n.K == "ref" {
		n = f.e.Defs[n.Def]
		if n.K == "ref" && v == nil {
			break
		}
		if _, ok := v.(string); !ok && v != nil {
			f.add("follow", 0, 0)
		}
	}
	if _, ok := v.(string); ok && n.K != "alt" { // past the reference depth
		return
	}
	if n.K == "null" {
		return
	}
	if _, ok := v.(bool); ok && n.K == "lit" { // made at some step
		f.add("leaf", 0, 0)
		return
	}
	if v == nil {
		f.add("cut", 0, 0)
		return
	}
	switch n.K {
	case "clock":
		if c, ok := f.tick(v); ok {
			f.add("tick", c, 0)
		}
	case "alt":
		if _, is := v.(string); !is && f.firstTick(v) < 1<<50 {
			f.add("choose", 0, 0)
		}
		for _, t := range n.Tuple {
			r := t
			for r.K == "ref" {
				r = f.e.Defs[r.Def]
			}
			_, isArr := v.([]any)
			_, isObj := v.(map[string]any)
			_, isText := v.(string)
			if isText {
				return
			}
			if (r.K == "arr") == isArr && (r.K == "obj") == isObj {
				f.flatten(r, v)
				return
			}
		}
	case "arr":
		x, ok := v.([]any)
		if !ok {
			f.add("no array", 0, 0)
			return
		}
		d := n.demand(f.e)
		f.add("open", len(x), d)
		for i, e := range x {
			f.add("part", i+1, d)
			if i < len(n.Tuple) {
				f.flatten(n.Tuple[i], e)
			} else if n.Item != nil {
				f.flatten(n.Item, e)
			}
		}
	case "obj":
		x, ok := v.(map[string]any)
		if !ok {
			f.add("no object", 0, 0)
			return
		}
		d := n.demand(f.e)
		f.add("open", len(x), d)
		keys := sortedKeys(x)
		first := map[string]int{}
		for _, k := range keys {
			first[k] = f.firstTick(x[k])
		}
		sort.SliceStable(keys, func(i, j int) bool { return first[keys[i]] < first[keys[j]] })
		for i, k := range keys {
			if first[k] == 1<<50 { // somewhere among the others
				if containsNull(x[k]) {
					f.add("cut", 1, 0)
				}
				continue
			}
			f.add("part", i+1, d)
			var j int
			if _, err := fmt.Sscanf(k, "p%d", &j); err == nil && j < len(n.Tuple) {
				f.flatten(n.Tuple[j], x[k])
			} else if n.Item != nil {
				f.flatten(n.Item, x[k])
			}
		}
	}
}

func init() {
	runners["budget"] = runner{"BudgetTrace", func(c *Case) map[string]any {
		return map[string]any{"soft": 0, "hard": 0, "vary": false, "events": []any{}, "vals": []any{}, "reported": false, "root": "r", "docs": map[string]any{"r": map[string]any{}}}
	}, runBudget}
}

func runBudget(c *Case, seed int64, res *Result, tr map[string]any) {
	var e budgetExtra
	must(json.Unmarshal(c.Extra, &e))
	r := rand.New(rand.NewSource(seed))
	tr["soft"], tr["hard"], tr["vary"] = e.Soft, e.Hard, e.Vary
	if e.Text != "" {
		runEnding(c, &e, r, res)
		return
	}
	schema := e.schema()
	text := raw(schema)
	root, err := decodeJSON(text)
	must(err)
	enc, err := newEncoder(root, "r", nil)
	must(err)
	tr["docs"] = map[string]any{"r": enc.schema(root, "r")}
	oracle := prefilter(root, "http://r.example/", nil)
	gen, err := chaff.ParseSchema(text, &chaff.ParserOptions{})
	if err != nil || gen.Metadata.Errors.HasErrors() {
		tr["reported"] = true
		if err != nil {
			res.Errors = append(res.Errors, err.Error())
		}
		return
	}
	null, err := chaff.ParseSchemaStringWithDefaults(`{"type": "null"}`)
	must(err)
	events := []budgetEvent{}
	vals := []any{}
	for run := 0; run < e.Runs; run++ {
		src := &clockSource{r: r, draws: map[int64]int{}}
		opts := &chaff.GeneratorOptions{
			DefaultArrayMinItems: e.ArrMin, DefaultArrayMaxItems: e.ArrMax, DefaultObjectMinProperties: e.ObjMin, DefaultObjectMaxProperties: e.ObjMax,
			MaximumReferenceDepth: e.Depth, BypassCyclicReferenceCheck: true, SuppressFallbackValues: true,
			MaximumUniqueGeneratorAttempts: 20, MaximumIfAttempts: 20, MaximumOneOfAttempts: 20,
			MaximumGenerationSteps: e.Soft, CutoffGenerationSteps: e.Hard,
		}
		opts.Rand = &crand.RandUtil{Source: src, Rand: rand.New(src)}
		src.opts = opts
		for i := 0; i < e.Before; i++ {
			null.Generator.Generate(opts)
		}
		f := &flattener{e: &e, src: src}
		for i := 0; i < max(1, e.Gens); i++ {
			at := steps(opts)
			if at == 1 && i == 0 {
				at = 0 // or none
			}
			f.add("start", at, 0)
			v := gen.Generator.Generate(opts)
			res.N++
			plain, err := json.Marshal(v)
			must(err)
			f.flatten(e.Root, v)
			end := steps(opts)
			f.add("end", end, stepsSoft(opts))
			if !containsText(v) && end <= e.Hard && len(plain) < 4000 {
				d, err := decodeJSON(plain)
				must(err)
				if (oracle != nil && oracle.Validate(d) != nil && len(vals) < 5) || (len(vals) < 3 && r.Intn(8) == 0) {
					vals = append(vals, map[string]any{"at": end, "v": enc.value(d)})
					res.Raw = append(res.Raw, plain)
				}
			}
		}
		if run > 0 {
			f.evs[0].A = max(f.evs[0].A, 0)
		}
		if run == 0 || e.Vary || len(events)+len(f.evs) < 1200 {
			events = append(events, budgetEvent{"fresh", 0, 0})
			events = append(events, f.evs...)
		}
	}
	tr["events"], tr["vals"] = events, vals
}

// Schemas that grow without end, with everything that is public.
func runEnding(c *Case, e *budgetExtra, r *rand.Rand, res *Result) {
	gen, err := chaff.ParseSchemaStringWithDefaults(e.Text)
	if err != nil {
		res.Errors = append(res.Errors, err.Error())
	}
	for run := 0; run < e.Runs; run++ {
		opts := &chaff.GeneratorOptions{
			Rand: crand.NewRandUtil(r.Int63()), BypassCyclicReferenceCheck: true, MaximumReferenceDepth: e.Depth,
			MaximumGenerationSteps: e.Soft, CutoffGenerationSteps: e.Hard,
		}
		v := gen.Generate(opts)
		_, err := json.Marshal(v)
		must(err)
		res.N++
	}
}

// ---------------------------------------------------------------------------

func (g *G) budgetNode(depth int, defs []string, lead bool) *bnode {
	if !lead && g.p(8) {
		return &bnode{K: "lit"}
	}
	if depth <= 0 {
		return &bnode{K: "clock"}
	}
	sub := func(l bool) *bnode { return g.budgetNode(depth-1, defs, l) }
	k := g.Intn(100)
	switch {
	case k < 18:
		return &bnode{K: "clock"}
	case k < 32 && len(defs) > 0:
		return &bnode{K: "ref", Def: pick(g, defs...)}
	case k < 42:
		n := &bnode{K: "alt", Alt: pick(g, "anyOf", "anyOf", "oneOf")}
		n.Tuple = []*bnode{g.budgetArr(depth, defs, true), g.budgetObj(depth, defs)}
		if g.p(40) {
			n.Tuple = append(n.Tuple, &bnode{K: "clock"})
		}
		g.Shuffle(len(n.Tuple), func(i, j int) { n.Tuple[i], n.Tuple[j] = n.Tuple[j], n.Tuple[i] })
		return n
	case k < 72:
		return g.budgetArr(depth, defs, lead)
	}
	_ = sub
	return g.budgetObj(depth, defs)
}

func (g *G) budgetArr(depth int, defs []string, lead bool) *bnode {
	n := &bnode{K: "arr"}
	n.Uniq = g.p(10)
	if lead || g.p(60) {
		n.Tuple = append(n.Tuple, &bnode{K: "clock"})
		for g.p(35) {
			n.Tuple = append(n.Tuple, g.budgetNode(depth-1, defs, lead || n.Uniq))
		}
		if g.p(60) {
			n.Tuple = append(n.Tuple, &bnode{K: "clock"})
		}
	}
	if g.p(15) && len(n.Tuple) > 0 {
		n.Only = true
		return g.constrained(n)
	}
	n.Item = g.budgetNode(depth-1, defs, lead || n.Uniq)
	if g.p(50) {
		n.Min = 1 + g.Intn(len(n.Tuple)+4)
	}
	if g.p(40) {
		n.Max = max(n.Min, len(n.Tuple)) + 1 + g.Intn(8)
	}
	return g.constrained(n)
}

func (g *G) constrained(n *bnode) *bnode {
	switch g.Intn(12) {
	case 0:
		n.Not = true
	case 1:
		n.If = true
	}
	return n
}

func (g *G) budgetObj(depth int, defs []string) *bnode {
	n := &bnode{K: "obj", Req: 1}
	n.Tuple = []*bnode{{K: "clock"}}
	for g.p(45) {
		n.Tuple = append(n.Tuple, g.budgetNode(depth-1, defs, true))
		if g.p(50) {
			n.Req++
		}
	}
	for g.p(50) {
		n.Tuple = append(n.Tuple, g.budgetNode(depth-1, defs, true))
	}
	if g.p(50) {
		n.Only = true
		if g.p(50) {
			n.Min = 1 + g.Intn(len(n.Tuple))
		}
	} else {
		n.Item = g.budgetNode(depth-1, defs, true)
		if g.p(50) {
			n.Min = 1 + g.Intn(len(n.Tuple)+2)
		}
		if g.p(40) {
			n.Max = max(n.Min, len(n.Tuple)) + g.Intn(4)
		}
	}
	return g.constrained(n)
}

func (g *G) budgetCase(id string, quick bool) *Case {
	e := budgetExtra{Defs: map[string]*bnode{}}
	names := []string{"a", "b", "c"}[:g.Intn(4)]
	e.Root = g.budgetNode(3, names, false)
	for e.Root.K == "clock" {
		e.Root = g.budgetNode(3, names, false)
	}
	for _, n := range names {
		if g.p(30) { // what a bare reference leads to tells whether it was followed
			e.Defs[n] = &bnode{K: "clock"}
		} else if g.p(50) {
			e.Defs[n] = g.budgetArr(2, names, true)
		} else {
			e.Defs[n] = g.budgetObj(2, names)
		}
	}
	e.Hard = pick(g, 1, 2, 3, 5, 8, 13, 20, 30, 50, 80)
	e.Soft = 1 + g.Intn(e.Hard)
	if g.p(15) {
		e.Soft = pick(g, 0, e.Hard, e.Hard+5)
	}
	e.Before = pick(g, 0, 0, 0, e.Soft-1, e.Soft, e.Soft+1, e.Hard-1, e.Hard, e.Hard+1, g.Intn(e.Hard+1))
	e.Before = max(0, e.Before)
	e.Gens = 1 + g.Intn(3)
	e.Runs = 30
	e.Depth = pick(g, 100000, 100000, 3)
	e.ArrMax, e.ObjMax = 1+g.Intn(6), 1+g.Intn(6)
	if g.p(30) {
		e.ArrMin, e.ObjMin = g.Intn(3), g.Intn(3)
	}
	return &Case{ID: id, Kind: "budget", Extra: raw(e)}
}

// A free size at the root, right below, at and past the limits.
func (g *G) edgeCase(id string) *Case {
	e := budgetExtra{Defs: map[string]*bnode{}, Gens: 1, Runs: 60, Depth: 10}
	n := &bnode{K: "arr", Item: &bnode{K: "clock"}}
	if g.p(50) {
		n = &bnode{K: "obj", Tuple: []*bnode{}, Only: true}
		for i := 0; i < 6; i++ {
			n.Tuple = append(n.Tuple, &bnode{K: "clock"})
		}
		n.Req, n.Min = g.Intn(3), g.Intn(3)
		if g.p(40) {
			n.Item, n.Only = &bnode{K: "clock"}, false
		}
	} else {
		for i := g.Intn(3); i > 0; i-- {
			n.Tuple = append(n.Tuple, &bnode{K: "clock"})
		}
		n.Min = g.Intn(4)
	}
	e.Root = n
	e.ArrMax, e.ObjMax = 8, 8
	if n.K == "arr" && n.Min < len(n.Tuple) {
		n.Min = 0
	}
	e.Soft = pick(g, 1, 2, 5, 10, 100)
	e.Hard = e.Soft + pick(g, 0, 1, 10, 100)
	d := g.Intn(6) - 3
	e.Before = max(0, e.Soft+d)
	// steps of the tuple and of required properties precede the choice of a size
	own := 1 + len(n.Tuple)
	if n.K == "obj" {
		own = 1 + n.Req
	}
	// and the parts that it demands precede those that it doesn't
	room := e.Before + max(own, 1+n.demand(&e))
	e.Vary = e.Before+own <= e.Soft && room <= e.Hard
	if g.p(20) {
		e.Before = max(0, e.Hard+d)
		room = e.Before + max(own, 1+n.demand(&e))
		e.Vary = e.Before+own <= e.Soft && room <= e.Hard
	}
	return &Case{ID: id, Kind: "budget", Extra: raw(e)}
}

// Recursion that never ends by itself.
func (g *G) explosive() string {
	self := S{"$ref": "#/$defs/a"}
	other := S{"$ref": "#/$defs/b"}
	def := func(r, q S) S {
		switch g.Intn(9) {
		case 0:
			return S{"type": "array", "items": r, "minItems": 1 + g.Intn(4)}
		case 1:
			return S{"type": "object", "properties": S{"x": r, "y": q, "z": r}, "required": []any{"x", "y", "z"}}
		case 2:
			return S{"type": "array", "prefixItems": []any{r, q, r}}
		case 3:
			return S{"type": "object", "additionalProperties": r, "minProperties": 2 + g.Intn(3)}
		case 4:
			return S{"type": "array", "items": r, "minItems": 2, "uniqueItems": true}
		case 5:
			return S{"anyOf": []any{S{"type": "array", "items": r, "minItems": 2}, S{"type": "object", "properties": S{"x": q}, "required": []any{"x"}}}}
		case 6:
			return S{"oneOf": []any{S{"type": "array", "items": r, "minItems": 2}, S{"type": "array", "items": q, "minItems": 1}}}
		case 7:
			return S{"type": "array", "contains": r, "minContains": 2, "items": q}
		}
		return S{"type": "object", "patternProperties": S{"^x[0-9]*$": r}, "minProperties": 2, "additionalProperties": false}
	}
	s := S{"$ref": "#/$defs/a", "$defs": S{"a": def(self, other), "b": def(other, self)}}
	if g.p(50) {
		s["$defs"].(S)["b"] = def(self, self)
	}
	return string(raw(s))
}

func init() {
	for i, prop := range []string{"C14", "C16"} {
		properties[prop] = property{cases: func(g *G, tier string) []*Case {
			var cs []*Case
			for j := 0; j < scale(tier, 1500, 16000); j++ {
				cs = append(cs, g.budgetCase(fmt.Sprintf("budget-%d", j), true))
			}
			if i == 0 {
				for j := 0; j < scale(tier, 500, 6000); j++ {
					e := budgetExtra{Text: g.explosive(), Runs: 4, Depth: pick(g, 5, 50, 100000), Soft: pick(g, 1, 50, 100, 500), Hard: pick(g, 1, 100, 500, 2000)}
					cs = append(cs, &Case{ID: fmt.Sprintf("explosive-%d", j), Kind: "budget", Extra: raw(e)})
				}
				return cs
			}
			for j := 0; j < scale(tier, 1200, 8000); j++ {
				cs = append(cs, g.edgeCase(fmt.Sprintf("edge-%d", j)))
			}
			return cs
		}}
	}
}
