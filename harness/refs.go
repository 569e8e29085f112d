package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	crand "github.com/ryanolee/go-chaff/rand"
)

// Graphs of references (RefGraphCases), generated with every depth limit, with and without
// permission for cycles, several times with the same options and after a cutoff.
type refBody struct {
	K string   `json:"k"`
	C []string `json:"c"`
}

func refChild(c string, in string) S {
	switch c {
	case "leaf":
		return S{"type": "null"}
	case "#":
		if strings.HasPrefix(in, "other") {
			return S{"$ref": "root.json"}
		}
		return S{"$ref": "#"}
	}
	base := "#/$defs/"
	switch {
	case c == "b" && in == "root": // b is a document of its own
		return S{"$ref": "other.json#"}
	case c == "b" && in == "root+": // b is where a is, but in a document of its own
		return S{"$ref": "other.json#/$defs/a"}
	case c == "b" && in == "other":
		return S{"$ref": "#"}
	case c == "b" && in == "other+":
		return S{"$ref": "#/$defs/a"}
	case strings.HasPrefix(in, "other"):
		base = "root.json#/$defs/"
	}
	return S{"$ref": base + c}
}

func (b refBody) schema(in string) S {
	all := []any{}
	for _, c := range b.C {
		all = append(all, refChild(c, in))
	}
	switch b.K {
	case "ref":
		return all[0].(S)
	case "tuple":
		return S{"type": "array", "prefixItems": all, "items": false}
	case "if":
		return S{"type": "array", "prefixItems": all, "items": false, "if": S{"const": "x"}, "else": S{"not": S{"const": "y"}}}
	case "fixed":
		return S{"type": "array", "items": all[0], "minItems": 2, "maxItems": 2}
	case "any":
		l := []any{}
		for _, c := range all {
			l = append(l, S{"type": "array", "prefixItems": []any{c}, "items": false})
		}
		return S{"anyOf": l}
	case "map":
		return S{"type": "object", "patternProperties": S{"^p$": all[0]}, "minProperties": 1, "maxProperties": 1, "additionalProperties": false}
	case "all":
		return S{"allOf": []any{S{"type": "array", "prefixItems": all, "items": false}, S{"minItems": 1}}}
	case "obj":
		props, req := S{}, []any{}
		for i, c := range all {
			props[string(rune('x'+i))] = c
			req = append(req, string(rune('x'+i)))
		}
		return S{"type": "object", "properties": props, "required": req, "additionalProperties": false}
	}
	return S{"type": "null"}
}

// Values nested deeper than this are cut off: no graph of the cases means one
const refNesting = 90

func refValue(v any) map[string]any { return refNested(v, 0) }

func refNested(v any, depth int) map[string]any {
	if depth > refNesting {
		return map[string]any{"k": "deep"}
	}
	switch x := v.(type) {
	case nil:
		return map[string]any{"k": "null"}
	case []any:
		c := []any{}
		for _, e := range x {
			c = append(c, refNested(e, depth+1))
		}
		return map[string]any{"k": "arr", "c": c}
	case map[string]any:
		c := []any{}
		for _, k := range sortedKeys(x) {
			c = append(c, refNested(x[k], depth+1))
		}
		return map[string]any{"k": "arr", "c": c}
	case string:
		w := []string{}
		for _, s := range []string{"cyclic", "depth"} {
			if strings.Contains(strings.ToLower(strings.SplitN(x, "#", 2)[0]), s) {
				w = append(w, s)
			}
		}
		return map[string]any{"k": "text", "w": w}
	}
	return map[string]any{"k": "other"}
}

func init() {
	runners["refs"] = runner{"RefTrace", func(c *Case) map[string]any {
		return map[string]any{"graph": map[string]any{}, "depth": 0, "bypass": false, "cut": false, "gens": []any{}, "left": []any{}, "reported": false}
	}, runRefs}
	properties["C15"] = property{cases: func(g *G, tier string) []*Case { return nil }}
}

func runRefs(c *Case, seed int64, res *Result, tr map[string]any) {
	var e struct {
		Root, A, B refBody
	}
	must(json.Unmarshal(c.Extra, &e))
	r := rand.New(rand.NewSource(seed))
	tr["graph"] = map[string]any{"#": e.Root, "a": e.A, "b": e.B}
	schema := e.Root.schema("")
	schema["$defs"] = S{"a": e.A.schema(""), "b": e.B.schema("")}
	po := &chaff.ParserOptions{}
	if r.Intn(5) == 0 { // b is in a document of its own
		dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "refs-")
		must(err)
		defer os.RemoveAll(dir)
		variant := pick(&G{Rand: r}, "", "+")
		other := e.B.schema("other" + variant)
		if variant == "+" {
			other = S{"$defs": S{"a": other}}
		}
		must(os.WriteFile(filepath.Join(dir, "other.json"), raw(other), 0o644))
		schema = e.Root.schema("root" + variant)
		schema["$defs"] = S{"a": e.A.schema("root" + variant)}
		must(os.WriteFile(filepath.Join(dir, "root.json"), raw(schema), 0o644))
		po.RelativeTo = "file://" + filepath.Join(dir, "root.json")
		po.DocumentFetchOptions.FileSystemFetchOptions = chaff.FileSystemFetchOptions{Enabled: true, AllowOutsideCwd: true, AllowedPaths: []string{dir}}
	}
	gen, err := chaff.ParseSchema(raw(schema), po)
	if err != nil || gen.Metadata.Errors.HasErrors() {
		tr["reported"] = true
		if err != nil {
			res.Errors = append(res.Errors, err.Error())
		} else {
			for _, x := range gen.Metadata.Errors.CollectErrors() {
				res.Errors = append(res.Errors, x.Error())
			}
		}
		return
	}
	bypass := r.Intn(2) == 0
	depth := []int{0, 1, 2, 3}[r.Intn(4)]
	if !bypass && r.Intn(2) == 0 {
		depth = 10
	}
	hard := 0
	if r.Intn(4) == 0 {
		hard = 1 + r.Intn(12)
	}
	tr["depth"], tr["bypass"], tr["cut"] = depth, bypass, hard > 0
	options := func() *chaff.GeneratorOptions {
		return &chaff.GeneratorOptions{
			Rand: crand.NewRandUtil(r.Int63()), DefaultArrayMaxItems: 3, DefaultObjectMaxProperties: 3, SuppressFallbackValues: true,
			MaximumUniqueGeneratorAttempts: 3, MaximumIfAttempts: 3, MaximumOneOfAttempts: 3,
			MaximumReferenceDepth: depth, BypassCyclicReferenceCheck: bypass, CutoffGenerationSteps: hard,
		}
	}
	opts := options()
	gens, left := []any{}, []any{}
	for i := 0; i < 3; i++ {
		v := gen.Generator.Generate(opts)
		plain, err := json.Marshal(v)
		must(err)
		res.N++
		if i == 0 {
			res.Raw = append(res.Raw, plain)
		}
		gens = append(gens, refValue(v))
		left = append(left, len(opts.ReferenceResolver.GetResolutions()))
		if r.Intn(2) == 0 { // the same resolver with fresh limits
			next := options()
			next.ReferenceResolver = opts.ReferenceResolver
			opts = next
		}
	}
	tr["gens"], tr["left"] = gens, left
}
