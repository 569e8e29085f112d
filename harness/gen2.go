package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// ---------------------------------------------------------------- values

func (g *G) jsonValue(depth int) any {
	n := 7
	if depth > 0 {
		n = 9
	}
	switch g.Intn(n) {
	case 0:
		return nil
	case 1:
		return g.p(50)
	case 2, 3:
		return json.Number(pick(g, "0", "1", "-1", "7", "0.5", "-2.25", "1000000", "12345678901", "3.125", "1e3", "-0", "1.0"))
	case 4, 5, 6:
		return pick(g, "", "a", "b", "null", "0", "x y", "ünï", "日本", "a/b", "\"q\"", "<&>", "Failed", "line\nbreak", strings.Repeat("z", 30))
	case 7:
		l := []any{}
		for i := g.Intn(3); i > 0; i-- {
			l = append(l, g.jsonValue(depth-1))
		}
		return l
	default:
		o := S{}
		for i := g.Intn(3); i > 0; i-- {
			o[pick(g, "k", "l", "m/n", "ü")] = g.jsonValue(depth - 1)
		}
		return o
	}
}

// Distinct values (by their JSON text).
func (g *G) values(n, depth int) []any {
	out, seen := []any{}, map[string]bool{}
	for try := 0; len(out) < n && try < 200; try++ {
		v := g.jsonValue(depth)
		v2, err := decodeJSON(raw(v))
		must(err)
		if c := canon(v2); !seen[c] {
			seen[c] = true
			out = append(out, v)
		}
	}
	return out
}

func (g *G) enumSchema() (S, any) {
	vs := g.values(1+g.Intn(6), 2)
	s := S{"enum": vs}
	return s, vs[g.Intn(len(vs))]
}

func (g *G) constSchema() (S, any) {
	v := g.jsonValue(2)
	return S{"const": v}, v
}

var allTypes = []string{"object", "array", "number", "integer", "string", "boolean", "null"}

func witnessOfType(t string) any {
	switch t {
	case "object":
		return S{}
	case "array":
		return []any{}
	case "number":
		return json.Number("0.5")
	case "integer":
		return 3
	case "string":
		return "s"
	case "boolean":
		return true
	}
	return nil
}

func (g *G) typeSchema() (S, any) {
	t := pick(g, allTypes...)
	return S{"type": t}, witnessOfType(t)
}

// Several types, with keywords that only concern some of them.
func (g *G) multiTypeSchema() (S, any) {
	n := 1 + g.Intn(4)
	perm := g.Perm(len(allTypes))[:n]
	ts := []any{}
	var wits []any
	s := S{}
	num := false
	for _, i := range perm {
		t := allTypes[i]
		ts = append(ts, t)
		w := witnessOfType(t)
		if g.p(60) {
			var sub S
			switch t {
			case "string":
				sub, w = g.stringSchema()
			case "number", "integer":
				if num {
					continue
				}
				num = true
				sub, w = S{"minimum": 5, "maximum": 9}, 7
				if g.p(50) {
					sub, w = S{"multipleOf": 3, "minimum": -20, "exclusiveMaximum": 40}, 6
				}
			case "object":
				sub, w = S{"required": []any{"r"}, "properties": S{"r": S{"type": "boolean"}}}, S{"r": true}
			case "array":
				sub, w = S{"items": S{"type": "null"}, "minItems": 2}, []any{nil, nil}
			}
			for k, v := range sub {
				if k != "type" {
					s[k] = v
				}
			}
		}
		wits = append(wits, w)
	}
	s["type"] = ts
	return s, wits[0]
}

// ---------------------------------------------------------------- any small schema

func (g *G) small(depth int) (S, any) {
	n := 9
	if depth > 0 {
		n = 12
	}
	switch g.Intn(n) {
	case 0:
		return S{"type": "boolean"}, true
	case 1:
		return S{"type": "null"}, nil
	case 2:
		return g.enumSchema()
	case 3:
		return g.constSchema()
	case 4, 5:
		return g.numberSchema()
	case 6, 7:
		return g.stringSchema()
	case 8:
		return g.typeSchema()
	case 9, 10:
		return g.objectSchema(depth - 1)
	default:
		return g.arraySchema(depth - 1)
	}
}

// ---------------------------------------------------------------- objects

var propNames = []string{"a", "b", "c", "name", "id", "a/b", "til~de", "%4a", "ünï", "with space", "type", "items", "properties", "$x", "0", "additional_0", "min_filler_0", "fallback_0", "required"}

type patternGroup struct {
	pattern string
	names   []string
}

// Patterns no property name above matches, and no name matches two of.
var patternGroups = []patternGroup{
	{"^x_[a-z]{2}$", []string{"x_ab", "x_zz"}},
	{"^S[0-9]+$", []string{"S1", "S22"}},
	{"^p/[a-c]{3}$", []string{"p/abc", "p/aaa"}},
	{"^~[A-Z]{2,4}$", []string{"~AB", "~XYZ"}},
	{"^(foo|bar)-\\d\\d$", []string{"foo-12", "bar-00"}},
	{"^%[0-9]{2}$", []string{"%42", "%77"}},
}

func (g *G) objectSchema(depth int) (S, any) {
	s := S{}
	if g.p(85) {
		s["type"] = "object"
	}
	wit := S{}
	props := S{}
	propWit := S{}
	for _, i := range g.Perm(len(propNames))[:g.Intn(5)] {
		sub, w := g.small(depth)
		props[propNames[i]] = sub
		propWit[propNames[i]] = w
	}
	if len(props) > 0 || g.p(20) {
		s["properties"] = props
	}
	required := []any{}
	for k, w := range propWit {
		if g.p(40) {
			required = append(required, k)
			wit[k] = w
		} else if g.p(30) {
			wit[k] = w
		}
	}
	pats := S{}
	patWit := map[string]any{}
	var groups []patternGroup
	if g.p(35) {
		for _, i := range g.Perm(len(patternGroups))[:1+g.Intn(2)] {
			gr := patternGroups[i]
			if gr.pattern[1] == '%' && g.p(70) {
				continue
			}
			sub, w := g.small(depth)
			pats[gr.pattern] = sub
			patWit[gr.pattern] = w
			groups = append(groups, gr)
			if g.p(20) {
				required = append(required, gr.names[0])
				wit[gr.names[0]] = w
			}
		}
		if len(pats) > 0 {
			s["patternProperties"] = pats
		}
	}
	closed := false
	var addWit any
	open := true
	switch g.Intn(5) {
	case 0:
		s["additionalProperties"] = false
		closed, open = true, false
	case 1:
		s["additionalProperties"] = true
	case 2:
		sub, w := g.small(depth)
		s["additionalProperties"], addWit = sub, w
		if g.p(30) {
			required = append(required, "extra")
			wit["extra"] = w
		}
	default:
		if g.p(20) {
			required = append(required, "extra")
			wit["extra"] = "x"
		}
	}
	if len(required) > 0 || g.p(10) {
		s["required"] = required
	}
	if g.p(40) {
		// more properties than the witness has so far
		want := len(wit) + g.Intn(4)
		for k, w := range propWit {
			if len(wit) < want {
				wit[k] = w
			}
		}
		for _, gr := range groups {
			for _, n := range gr.names {
				if len(wit) < want {
					wit[n] = patWit[gr.pattern]
				}
			}
		}
		for i := 0; open && len(wit) < want; i++ {
			wit[fmt.Sprintf("w%d", i)] = addWit
		}
		s["minProperties"] = len(wit)
		if closed && len(groups) > 0 {
			// reaching the minimum is only certain if the properties suffice
			if len(wit) > len(props) {
				delete(s, "minProperties")
			}
		}
	}
	if g.p(35) {
		s["maxProperties"] = len(wit) + pick(g, 0, 0, 1, 2, 5)
	}
	if len(s) == 0 || (s["type"] == nil && s["properties"] == nil && s["patternProperties"] == nil && s["required"] == nil && s["minProperties"] == nil && s["maxProperties"] == nil) {
		s["type"] = "object"
	}
	return s, wit
}

// ---------------------------------------------------------------- arrays

// Item schemas with more values than any array here needs.
func (g *G) richItem() (S, func(i int) any) {
	switch g.Intn(5) {
	case 0:
		return S{"type": "integer", "minimum": 0, "maximum": 100000}, func(i int) any { return i }
	case 1:
		return S{"type": "string"}, func(i int) any { return fmt.Sprint(i) }
	case 2:
		return S{"type": "string", "pattern": "^[a-z]{8}$"}, func(i int) any { return "aaaaaaa" + string(rune('a'+i)) }
	case 3:
		pool := []any{json.Number("-0"), json.Number("0"), json.Number("0.0")}
		for i := 1; i < 40; i++ {
			pool = append(pool, i)
		}
		return S{"enum": pool}, func(i int) any { return i }
	default:
		return S{"type": "number", "minimum": 0, "maximum": 1}, func(i int) any { return json.Number(fmt.Sprintf("0.%d", i+1)) }
	}
}

func (g *G) arraySchema(depth int) (S, any) {
	s := S{}
	if g.p(85) {
		s["type"] = "array"
	}
	wit := []any{}
	unique := false
	if g.p(20) {
		s["uniqueItems"] = true
		unique = true
	} else if g.p(10) {
		s["uniqueItems"] = false
	}
	var itemWit func(i int) any
	setItems := func() any {
		if unique {
			sub, w := g.richItem()
			itemWit = w
			return sub
		}
		sub, w := g.small(depth)
		itemWit = func(int) any { return w }
		return sub
	}
	tuple := func(n int) []any {
		l := []any{}
		for i := 0; i < n; i++ {
			if unique {
				sub, w := g.richItem()
				l = append(l, sub)
				wit = append(wit, w(i))
				continue
			}
			sub, w := g.small(depth)
			l = append(l, sub)
			wit = append(wit, w)
		}
		return l
	}
	openEnd := true
	shape := g.Intn(9)
	switch shape {
	case 0, 1, 2: // homogeneous
		s["items"] = setItems()
	case 3: // open tuple
		s["prefixItems"] = tuple(1 + g.Intn(4))
		if g.p(50) {
			s["items"] = setItems()
		}
	case 4: // closed tuple
		s["prefixItems"] = tuple(1 + g.Intn(4))
		s["items"] = false
		openEnd = false
	case 5: // legacy tuple
		s["items"] = tuple(1 + g.Intn(3))
		switch g.Intn(3) {
		case 0:
			s["additionalItems"] = false
			openEnd = false
		case 1:
			s["additionalItems"] = setItems()
		}
	case 6: // unevaluatedItems
		s["prefixItems"] = tuple(1 + g.Intn(3))
		if g.p(50) {
			s["unevaluatedItems"] = false
			openEnd = false
		} else {
			s["unevaluatedItems"] = setItems()
		}
	case 7, 8: // contains
		if unique {
			delete(s, "uniqueItems")
			unique = false
		}
		var cw any
		switch g.Intn(4) {
		case 0:
			s["items"] = S{"type": "integer", "minimum": 0, "maximum": 50}
			s["contains"] = S{"minimum": 40}
			cw = 45
			itemWit = func(int) any { return 1 }
		case 1:
			s["items"] = S{"type": "string"}
			s["contains"] = S{"pattern": "^[0-9]{3}$"}
			cw = "123"
			itemWit = func(int) any { return "x" }
		case 2:
			sub, w := g.small(0)
			s["contains"] = sub
			cw = w
			itemWit = func(int) any { return S{"other": 1} }
		case 3:
			s["contains"] = S{"type": "boolean"}
			cw = true
			itemWit = func(int) any { return nil }
		}
		if g.p(30) && s["items"] == nil {
			s["prefixItems"] = tuple(1 + g.Intn(2))
		}
		n := 1
		if g.p(50) {
			n = g.Intn(4)
			s["minContains"] = n
		}
		for i := 0; i < n; i++ {
			wit = append(wit, cw)
		}
		if g.p(40) && s["prefixItems"] == nil {
			c, _ := json.Marshal(s["contains"])
			// the item schema must allow for items that do not match
			if s["items"] != nil || strings.Contains(string(c), "boolean") && !strings.Contains(string(c), "enum") {
				if m := n + g.Intn(3); m > 0 {
					s["maxContains"] = m
				}
			}
		}
	}
	if g.p(45) && openEnd {
		want := len(wit) + g.Intn(4)
		for i := len(wit); i < want; i++ {
			if itemWit != nil {
				wit = append(wit, itemWit(i))
			} else if unique {
				wit = append(wit, fmt.Sprintf("extra %d", i))
			} else {
				wit = append(wit, nil)
			}
		}
		s["minItems"] = len(wit) - pick(g, 0, 0, 1)
		if s["minItems"].(int) < 0 {
			s["minItems"] = 0
		}
	} else if g.p(20) && !openEnd {
		s["minItems"] = g.Intn(len(wit) + 1)
	}
	if g.p(45) {
		s["maxItems"] = len(wit) + pick(g, 0, 0, 1, 2, 6)
	}
	if s["type"] == nil && len(s) == 1 && s["uniqueItems"] != nil {
		s["type"] = "array"
	}
	if s["type"] == nil && s["items"] == false && len(s) == 1 {
		s["type"] = "array"
	}
	return s, wit
}

// Options that must not matter for whether values satisfy the schema.
func (g *G) options() map[string]any {
	o := map[string]any{}
	if g.p(30) {
		o["defaultArrayMinItems"] = g.Intn(6)
	}
	if g.p(30) {
		o["defaultArrayMaxItems"] = 1 + g.Intn(12)
	}
	if g.p(30) {
		o["defaultObjectMinProperties"] = g.Intn(6)
	}
	if g.p(30) {
		o["defaultObjectMaxProperties"] = 1 + g.Intn(12)
	}
	if g.p(20) {
		o["maximumGenerationSteps"] = pick(g, 1, 2, 5, 20, 1000)
	}
	if g.p(10) {
		o["suppressFallbackValues"] = true
	}
	if g.p(10) {
		o["maximumReferenceDepth"] = 5 + g.Intn(20)
	}
	if len(o) == 0 {
		return nil
	}
	return o
}
