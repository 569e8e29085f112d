package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
	"sync"

	chaff "github.com/ryanolee/go-chaff"
	crand "github.com/ryanolee/go-chaff/rand"
)

// Schemas whose values depend on the random source alone (ShareCases).
var shareSchemas = []string{
	`{"type": "integer", "minimum": -1000, "maximum": 100000}`,
	`{"type": "number", "minimum": 0, "maximum": 1}`,
	`{"enum": [1, "a", null, [1, 2], {"a": 1}, true]}`,
	`{"type": "array", "items": {"type": "integer", "minimum": 0, "maximum": 12}, "uniqueItems": true, "maxItems": 8}`,
	`{"anyOf": [{"type": "integer"}, {"type": "boolean"}, {"enum": ["a", "b"]}]}`,
	`{"oneOf": [{"type": "integer", "minimum": 0, "maximum": 10}, {"type": "integer", "minimum": 5, "maximum": 15}, {"type": "null"}]}`,
	`{"type": "integer", "minimum": 0, "maximum": 50, "if": {"maximum": 20}, "then": {"multipleOf": 5}, "else": {"multipleOf": 7}}`,
	`{"type": "integer", "minimum": 0, "maximum": 9, "not": {"enum": [1, 2, 3]}}`,
	`{"$defs": {"a": {"type": "array", "minItems": 1, "maxItems": 4, "items": {"anyOf": [{"type": "integer"}, {"$ref": "#/$defs/a"}]}}}, "$ref": "#/$defs/a"}`,
	`{"type": "array", "prefixItems": [{"type": "boolean"}, {"type": "integer"}], "items": {"type": "null"}, "minItems": 4}`,
	`{"type": "array", "items": {"type": "integer", "minimum": 0, "maximum": 20}, "contains": {"type": "integer", "minimum": 18, "maximum": 20}, "minContains": 2, "maxContains": 3, "minItems": 5}`,
	`{"allOf": [{"type": "integer", "minimum": 0}, {"maximum": 1000}, {"multipleOf": 3}]}`,
	`{"type": ["integer", "boolean", "null"], "minimum": 3, "maximum": 900}`,
	`{"type": "array", "minItems": 3, "items": {"type": "array", "minItems": 1, "maxItems": 5, "items": {"type": "integer"}}}`,
	`{"$defs": {"a": {"$ref": "#/$defs/b"}, "b": {"type": "array", "prefixItems": [{"$ref": "#/$defs/c"}, {"$ref": "#/$defs/c"}], "items": false, "minItems": 1}, "c": {"type": "integer"}}, "type": "array", "minItems": 1, "items": {"$ref": "#/$defs/a"}}`,
	`{"type": "array", "minItems": 2, "items": {"oneOf": [{"type": "integer", "minimum": 0, "maximum": 6}, {"type": "integer", "minimum": 4, "maximum": 9}]}}`,
	`{"type": "array", "minItems": 2, "items": {"$ref": "#/definitions/n"}, "uniqueItems": true, "definitions": {"n": {"type": "integer", "minimum": 1, "maximum": 5}}}`,
	`{"type": "array", "prefixItems": [{"$ref": "#"}], "items": false}`,
	`{"type": "boolean"}`,
	`{"type": "array", "items": {"enum": [0, 1, 2, 3]}, "uniqueItems": true, "minItems": 4}`,
	`{"not": {"type": ["string", "object", "array", "number"]}}`,
	`{"type": "number", "minimum": 0, "maximum": 100, "not": {"multipleOf": 4}, "multipleOf": 2}`,
	`{"type": "array", "minItems": 1, "items": {"type": "integer", "minimum": 0, "maximum": 9, "if": {"const": 3}, "then": {"const": 3}, "else": {"not": {"const": 4}}}}`,
	`{"anyOf": [{"type": "array", "minItems": 2, "maxItems": 3, "items": {"$ref": "#/$defs/x"}}, {"$ref": "#/$defs/x"}], "$defs": {"x": {"oneOf": [{"type": "integer"}, {"type": "null"}]}}}`,
}

var shareKeys = map[string]chaff.GeneratorOptions{
	"plain":   {},
	"other":   {DefaultArrayMaxItems: 4, MaximumOneOfAttempts: 7},
	"tight":   {MaximumGenerationSteps: 1, MaximumOneOfAttempts: 1, MaximumIfAttempts: 1, MaximumUniqueGeneratorAttempts: 1},
	"cut":     {MaximumGenerationSteps: 1, CutoffGenerationSteps: 3},
	"shallow": {MaximumReferenceDepth: 1, BypassCyclicReferenceCheck: true},
	"cyclic":  {BypassCyclicReferenceCheck: true},
}

func init() {
	runners["share"] = runner{"ShareTrace", func(c *Case) map[string]any { return map[string]any{"events": []any{}} }, runShare}
	properties["C20"] = property{cases: func(g *G, tier string) []*Case {
		var cs []*Case
		for i := 0; i < scale(tier, 120, 3000); i++ {
			s, w, cover, noEdge, ok := g.anySchema()
			if !ok {
				continue
			}
			c := one(fmt.Sprintf("par-%d", i), s, 24, w)
			c.NoEdge, c.Par, c.MaxOut = noEdge, 8, 4
			_ = cover
			cs = append(cs, c)
		}
		return cs
	}}
}

func runShare(c *Case, seed int64, res *Result, tr map[string]any) {
	var e struct {
		Schema int
		Ops    []string
	}
	must(json.Unmarshal(c.Extra, &e))
	text := []byte(shareSchemas[e.Schema-1])
	c.Schema = text
	var mu sync.Mutex
	events := []any{}
	defer func() { tr["events"] = events }()
	event := func(op, key, out string) {
		mu.Lock()
		defer mu.Unlock()
		events = append(events, map[string]any{"op": op, "key": key, "out": out})
	}
	po := &chaff.ParserOptions{}
	parse := func() chaff.RootGenerator {
		before := *po
		g, err := chaff.ParseSchema(text, po)
		if err != nil {
			panic("a schema was refused: " + err.Error())
		}
		out := "same"
		if !reflect.DeepEqual(before, *po) {
			out = "changed"
		}
		event("kept", "parser", out)
		return g
	}
	same := func(a, b chaff.GeneratorOptions) string {
		if a.Rand != b.Rand || (a.Rand == nil && !reflect.DeepEqual(a, b)) {
			return "changed"
		}
		a.Rand, b.Rand = nil, nil
		if !reflect.DeepEqual(a, b) {
			return "changed"
		}
		return "same"
	}
	generate := func(g chaff.RootGenerator, o *chaff.GeneratorOptions, key string, n int64) {
		before := *o
		v := g.Generate(o)
		event("kept", "generator", same(before, *o))
		out := string(raw(v))
		if s, ok := v.(string); ok && strings.HasPrefix(s, failPrefix) {
			out = failPrefix // which values were excluded is told in any order
		}
		event("value", fmt.Sprintf("%s/%d", key, n), out)
	}
	run := func(g chaff.RootGenerator, key string, n int64) {
		o := shareKeys[key]
		o.Rand = crand.NewRandUtil(n)
		generate(g, &o, key, n)
	}
	keys := append([]string{}, e.Ops...)
	keys = append(keys, "plain")
	fresh := parse()
	all := func(g chaff.RootGenerator) {
		done := map[string]bool{}
		for _, k := range keys {
			if _, is := shareKeys[k]; is && !done[k] {
				done[k] = true
				for n := int64(1); n <= 2; n++ {
					run(g, k, n)
				}
			}
		}
	}
	for n := int64(1); n <= 2; n++ { // each with a generator that was not used before
		for _, k := range keys {
			if _, is := shareKeys[k]; is {
				run(parse(), k, n)
			}
		}
	}
	g := fresh
	for _, op := range e.Ops {
		switch op {
		case "print":
			_ = g.String()
		case "parse":
			g = parse()
		case "par":
			var wg sync.WaitGroup
			shared := chaff.GeneratorOptions{} // without a source, so that all can use it at once
			before := shared
			for i := 0; i < 8; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					switch {
					case i == 6:
						g.Generate(&shared)
					case i == 7:
						x, err := chaff.ParseSchema(text, po)
						if err == nil {
							x.Generate(&shared)
						}
					default:
						run(g, "plain", int64(1+i%2))
					}
				}()
			}
			wg.Wait()
			event("kept", "shared", same(before, shared))
		default:
			run(g, op, 1)
			run(g, op, 2)
		}
	}
	all(g)
	all(fresh)
	res.N = len(events)
	res.Raw = append(res.Raw, raw(events[len(events)-1]))
}

// What the race detector wrote since the last call.
var raceRead int64

func raceReport() string {
	p := os.Getenv("VERIF_RACE_LOG")
	if p == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	if err != nil || int64(len(b)) <= raceRead {
		return ""
	}
	s := string(b[raceRead:])
	raceRead = int64(len(b))
	return "data race: " + s[:min(len(s), 1500)]
}
