package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// Groups of keywords (ContradictionCases), at places of a schema.
type clashGroup struct {
	Kind, Type, How, As, Text  string
	Lo, Hi, M, Tuple, Clo, Chi int
	Xlo, Xhi, Closed           bool
	Required, Properties       int
	Values, No                 []string
}

var literalOf = map[string]any{"null": nil, "boolean": true, "integer": 1, "number": 1.5, "string": "a", "array": []any{}, "object": S{}}

const clashNone = 99

func (g clashGroup) schema() S {
	s := S{}
	set := func(k string, n int) {
		if n != clashNone {
			s[k] = n
		}
	}
	literals := func(l []string) []any {
		r := []any{}
		for _, k := range l {
			r = append(r, literalOf[k])
		}
		return r
	}
	switch g.Kind {
	case "number":
		s["type"] = g.Type
		lo, hi := "minimum", "maximum"
		if g.Xlo {
			lo = "exclusiveMinimum"
		}
		if g.Xhi {
			hi = "exclusiveMaximum"
		}
		set(lo, g.Lo)
		set(hi, g.Hi)
		set("multipleOf", g.M)
	case "string":
		s["type"] = "string"
		set("minLength", g.Lo)
		set("maxLength", g.Hi)
	case "array":
		s["type"] = "array"
		set("minItems", g.Lo)
		set("maxItems", g.Hi)
		if g.Tuple != clashNone {
			l := []any{}
			for i := 0; i < g.Tuple; i++ {
				l = append(l, S{"type": "null"})
			}
			switch {
			case !g.Closed:
				s["prefixItems"] = l
			case g.How == "legacy":
				s["items"], s["additionalItems"] = l, false
			case g.How == "unevaluated":
				s["prefixItems"], s["unevaluatedItems"] = l, false
			default:
				s["prefixItems"], s["items"] = l, false
			}
		}
		if g.Clo != clashNone || g.Chi != clashNone {
			s["contains"] = S{"type": "null"}
			set("minContains", g.Clo)
			set("maxContains", g.Chi)
		}
	case "object":
		s["type"] = "object"
		set("minProperties", g.Lo)
		set("maxProperties", g.Hi)
		names := []string{"x", "y", "z"}
		if g.Required > 0 {
			s["required"] = names[:g.Required]
		}
		p := S{}
		for i := 0; i < g.Properties; i++ {
			p[names[i]] = S{"type": "null"}
		}
		s["properties"] = p
		if g.Closed {
			s["additionalProperties"] = false
		}
	case "literal":
		s["type"] = g.Type
		if g.As == "const" {
			s["const"] = literalOf[g.Values[0]]
		} else {
			s["enum"] = literals(g.Values)
		}
	case "negated":
		switch g.As {
		case "const":
			s["const"], s["not"] = literalOf[g.Values[0]], S{"const": literalOf[g.No[0]]}
		case "type":
			s["type"], s["not"] = g.Values[0], S{"type": g.No[0]}
		default:
			s["enum"], s["not"] = literals(g.Values), S{"enum": literals(g.No)}
		}
	case "written":
		v, err := decodeJSON([]byte(g.Text))
		must(err)
		s = v.(map[string]any)
	}
	return s
}

// The schema that has x at a place.
func clashAt(p string, x any) S {
	null := S{"type": "null"}
	switch p {
	case "property":
		return S{"type": "object", "properties": S{"a": x, "k": null}}
	case "escaped":
		return S{"type": "object", "properties": S{"b/c~d": x}, "required": []string{"b/c~d"}}
	case "pattern":
		return S{"type": "object", "patternProperties": S{"^a": x}}
	case "additional":
		return S{"type": "object", "properties": S{"k": null}, "additionalProperties": x}
	case "items":
		return S{"type": "array", "items": x}
	case "prefix":
		return S{"type": "array", "prefixItems": []any{null, x}}
	case "legacy":
		return S{"type": "array", "items": []any{null, x}}
	case "rest":
		return S{"type": "array", "items": []any{null}, "additionalItems": x}
	case "unevaluated":
		return S{"type": "array", "prefixItems": []any{null}, "unevaluatedItems": x}
	case "contains":
		return S{"type": "array", "contains": x}
	case "defs":
		return S{"type": "object", "properties": S{"k": null}, "$defs": S{"a": x}}
	case "definitions":
		return S{"type": "array", "items": S{"$ref": "#/definitions/a"}, "definitions": S{"a": x}}
	case "any":
		return S{"anyOf": []any{null, x}}
	case "one":
		return S{"oneOf": []any{S{"const": "only this"}, x}}
	case "all":
		return S{"allOf": []any{S{"title": "t"}, x}}
	case "then":
		return S{"if": S{"const": "x"}, "then": x, "else": S{"title": "t"}}
	case "else":
		return S{"if": S{"const": "x"}, "else": x}
	}
	panic("HARNESS: place " + p)
}

func init() {
	runners["clash"] = runner{"ReportTrace", func(c *Case) map[string]any {
		return map[string]any{"group": map[string]any{"kind": "written", "clash": false}, "at": []any{}, "second": []any{}, "reported": false, "noticed": false, "pathless": false, "keys": []any{}}
	}, runClash}
	properties["C19"] = property{cases: func(g *G, tier string) []*Case { return nil }}
}

func runClash(c *Case, seed int64, res *Result, tr map[string]any) {
	var e struct {
		Group      json.RawMessage
		At, Second []string
		Split      bool
	}
	must(json.Unmarshal(c.Extra, &e))
	var g clashGroup
	must(json.Unmarshal(e.Group, &g))
	tr["group"], tr["at"], tr["second"] = e.Group, e.At, e.Second
	whole := g.schema()
	if e.Split { // the ends of ranges come from branches
		lo, hi := S{}, S{}
		for _, k := range sortedKeys(whole) {
			switch {
			case k == "type" || k == "properties" || k == "additionalProperties" || k == "contains":
				continue
			case strings.HasPrefix(strings.ToLower(k), "min") || k == "exclusiveMinimum" || k == "required":
				lo[k] = whole[k]
			default:
				hi[k] = whole[k]
			}
			delete(whole, k)
		}
		whole["allOf"] = []any{lo, hi}
	}
	x := any(whole)
	for i := len(e.At) - 1; i >= 0; i-- {
		x = clashAt(e.At[i], x)
	}
	if len(e.Second) > 0 { // the same group once more, next to the first
		y := clashAt(e.Second[0], g.schema())
		m := x.(S)
		for k, v := range y {
			if k == "type" {
				continue
			}
			if old, is := m[k].(S); is && k != "items" {
				for n, p := range v.(S) {
					old[n] = p
				}
				continue
			}
			m[k] = v
		}
	}
	// Documents: this one alone, with another next to it, or as the other one.
	options := &chaff.ParserOptions{}
	if m, is := x.(S); is && len(e.At) > 0 {
		h := fnv.New32()
		h.Write([]byte(c.ID))
		if how := h.Sum32() % 4; how < 2 {
			dir := scratch("clash")
			options.DocumentFetchOptions.FileSystemFetchOptions = chaff.FileSystemFetchOptions{Enabled: true, AllowOutsideCwd: true, AllowedPaths: []string{dir}}
			write := func(name string, s any) S {
				must(os.WriteFile(filepath.Join(dir, name), raw(s), 0o644))
				return S{"$ref": "file://" + filepath.Join(dir, name)}
			}
			if how == 1 {
				x = S{"type": "object", "properties": S{"zz": write("whole.json", m)}}
			} else if defs, is := m["$defs"].(S); is {
				defs["zz"] = write("other.json", S{"type": "null"})
			} else {
				m["$defs"] = S{"zz": write("other.json", S{"type": "null"})}
			}
		}
	}
	c.Schema = raw(x)
	gen, err := chaff.ParseSchema(c.Schema, options)
	tr["noticed"] = err != nil || gen.Metadata.Errors.HasErrors()
	keys := [][]string{}
	if err != nil {
		tr["reported"], tr["pathless"] = true, true
		res.Errors = append(res.Errors, err.Error())
	} else {
		for k, x := range gen.Metadata.Errors.CollectErrors() {
			tr["reported"] = true
			res.Errors = append(res.Errors, fmt.Sprintf("%s: %s", k, x))
			if i := strings.LastIndex(k, " -> "); i >= 0 {
				k = k[i+4:]
			}
			if k == "#document_parse_error" { // all of the other document
				tr["pathless"] = true
				continue
			}
			tokens := []string{}
			for _, t := range strings.Split(strings.TrimPrefix(k, "#"), "/") {
				if t != "" && !strings.HasPrefix(t, "config_") {
					tokens = append(tokens, t)
				}
			}
			keys = append(keys, tokens)
		}
		for i := 0; i < 2; i++ {
			res.Raw = append(res.Raw, raw(gen.Generate(&chaff.GeneratorOptions{})))
			res.N++
		}
	}
	tr["keys"] = keys
}
