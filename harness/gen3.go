package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
)

// ---------------------------------------------------------------- parts
//
// A part is a schema all of the given values satisfy, parts of the same values are
// satisfied together. Parts are what combinators are made of here.

func kindOf(v any) string {
	switch v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case json.Number, int:
		return "number"
	case []any:
		return "array"
	default:
		return "object"
	}
}

func numOf(v any) *big.Rat {
	return ratOf(fmt.Sprint(v))
}

type parts struct {
	*G
	pattern bool // a part with a pattern exists (patterns do not merge)
	depth   int
	mixed   bool // no fractional multiples (they do not merge with integers)
	tuples  bool // arrays are described by position (items next to the tuples of other branches do not merge)
}

func (g *G) typeFor(vs []any) any {
	kinds, integers := map[string]bool{}, true
	for _, v := range vs {
		k := kindOf(v)
		kinds[k] = true
		if k == "number" && !numOf(v).IsInt() {
			integers = false
		}
	}
	var ts []any
	for _, t := range allTypes {
		switch {
		case t == "integer":
		case t == "number" && kinds[t] && integers && g.p(60):
			ts = append(ts, "integer")
		case kinds[t] || g.p(15):
			ts = append(ts, t)
		}
	}
	g.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	if len(ts) == 1 && g.p(80) {
		return ts[0]
	}
	return ts
}

func sameKind(vs []any) string {
	k := kindOf(vs[0])
	for _, v := range vs {
		if kindOf(v) != k {
			return ""
		}
	}
	return k
}

func distinct(vs []any) []any {
	seen, out := map[string]bool{}, []any{}
	for _, v := range vs {
		if k := string(raw(v)); !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	return out
}

// A schema every one of the values satisfies.
func (p *parts) part(vs []any) S {
	g := p.G
	vs = distinct(vs)
	if g.p(12) { // enumerate
		l := append([]any{}, vs...)
		if len(l) == 1 && g.p(50) {
			return S{"const": l[0]}
		}
		for _, v := range g.values(g.Intn(3), 1) {
			l = append(l, v)
		}
		l = distinct(l)
		g.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		return S{"enum": l}
	}
	s := S{}
	if g.p(75) {
		s["type"] = g.typeFor(vs)
	}
	switch sameKind(vs) {
	case "number":
		p.numberPart(s, vs)
	case "string":
		p.stringPart(s, vs)
	case "object":
		p.objectPart(s, vs)
	case "array":
		p.arrayPart(s, vs)
	default:
		if len(s) == 0 {
			s["type"] = g.typeFor(vs)
		}
	}
	return s
}

func (p *parts) numberPart(s S, vs []any) {
	g := p.G
	lo, hi := numOf(vs[0]), numOf(vs[0])
	integers := true
	for _, v := range vs {
		r := numOf(v)
		if r.Cmp(lo) < 0 {
			lo = r
		}
		if r.Cmp(hi) > 0 {
			hi = r
		}
		integers = integers && r.IsInt()
	}
	gap := func(min int64) *big.Rat { return new(big.Rat).SetInt64(min + pick(g, int64(0), 0, 1, 2, 5, 20, 100)) }
	switch g.Intn(4) {
	case 0, 1:
		s["minimum"] = dec(new(big.Rat).Sub(lo, gap(0)))
	case 2:
		s["exclusiveMinimum"] = dec(new(big.Rat).Sub(lo, gap(1)))
	}
	switch g.Intn(4) {
	case 0, 1:
		s["maximum"] = dec(new(big.Rat).Add(hi, gap(0)))
	case 2:
		s["exclusiveMaximum"] = dec(new(big.Rat).Add(hi, gap(1)))
	}
	if g.p(30) {
		multiples := []string{"1", "2", "3", "4", "5", "6", "7", "10", "12", "15"}
		if p.mixed && !integers {
			multiples = nil
		} else if !integers {
			multiples = []string{"0.1", "0.2", "0.3", "0.5", "0.25", "0.75", "1.5", "0.05", "0.01", "0.001", "0.000001", "0.0000002", "0.0000005"}
		}
		var fit []json.Number
		for _, m := range multiples {
			ok := true
			for _, v := range vs {
				ok = ok && new(big.Rat).Quo(numOf(v), ratOf(m)).IsInt()
			}
			if ok {
				fit = append(fit, json.Number(m))
			}
		}
		if len(fit) > 0 {
			s["multipleOf"] = fit[g.Intn(len(fit))]
		}
	}
}

func (p *parts) stringPart(s S, vs []any) {
	g := p.G
	lo, hi := 1<<30, 0
	for _, v := range vs {
		n := len([]rune(v.(string)))
		lo, hi = min(lo, n), max(hi, n)
	}
	if g.p(60) {
		s["minLength"] = max(0, lo-pick(g, 0, 0, 1, 3, 10))
	}
	if g.p(60) {
		s["maxLength"] = hi + pick(g, 0, 0, 1, 3, 10, 50)
	}
}

func (p *parts) objectPart(s S, vs []any) {
	g := p.G
	always, some := map[string]int{}, map[string][]any{}
	lo, hi := 1<<30, 0
	for _, v := range vs {
		o := v.(S)
		lo, hi = min(lo, len(o)), max(hi, len(o))
		for k, x := range o {
			always[k]++
			some[k] = append(some[k], x)
		}
	}
	props := S{}
	required := []any{}
	for _, k := range sortedKeys(some) {
		if g.p(70) {
			sub := &parts{G: g, depth: p.depth - 1, mixed: p.mixed, tuples: p.tuples}
			props[k] = sub.part(some[k])
		}
		if always[k] == len(vs) && g.p(60) {
			required = append(required, k)
		}
	}
	if len(props) > 0 {
		s["properties"] = props
	}
	if len(required) > 0 {
		s["required"] = required
	}
	if g.p(15) {
		s["minProperties"] = max(0, lo-g.Intn(2))
	}
	if g.p(25) {
		s["maxProperties"] = hi + pick(g, 0, 1, 2, 5)
	}
	if g.p(15) {
		s["additionalProperties"] = true
	}
}

func (p *parts) arrayPart(s S, vs []any) {
	g := p.G
	var items []any
	lo, hi := 1<<30, 0
	for _, v := range vs {
		l := v.([]any)
		items = append(items, l...)
		lo, hi = min(lo, len(l)), max(hi, len(l))
	}
	if p.tuples && hi > 0 {
		if n := g.Intn(hi + 1); n > 0 {
			tuple := []any{}
			for i := 0; i < n; i++ {
				var at []any
				for _, v := range vs {
					if l := v.([]any); i < len(l) {
						at = append(at, l[i])
					}
				}
				tuple = append(tuple, (&parts{G: g, tuples: true}).part(at))
			}
			s["prefixItems"] = tuple
		}
	} else if len(items) > 0 && g.p(70) {
		s["items"] = (&parts{G: g, mixed: p.mixed}).part(items)
	}
	if g.p(50) {
		s["minItems"] = max(0, lo-g.Intn(3))
	}
	if g.p(50) {
		s["maxItems"] = max(1, hi+g.Intn(4))
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// A value for parts: with some depth, and different from the ones of other seeds.
func (g *G) partValue(kind string, depth int) any {
	if kind == "" {
		kind = pick(g, "number", "number", "string", "object", "object", "array", "boolean", "null")
	}
	switch kind {
	case "number":
		if g.p(25) {
			return json.Number(pick(g, "0.5", "1.25", "-2.5", "10.75"))
		}
		return json.Number(fmt.Sprint(pick(g, 0, 1, 2, 6, 12, 30, 60, 84, -6, -30, 420, 1000)))
	case "string":
		return strings.Repeat(pick(g, "a", "b", "xyz"), g.Intn(8))
	case "boolean":
		return g.p(50)
	case "null":
		return nil
	case "array":
		l := []any{}
		k := pick(g, "number", "string", "boolean")
		for i := g.Intn(5); i > 0; i-- {
			l = append(l, g.partValue(k, 0))
		}
		return l
	default:
		o := S{}
		for i := g.Intn(4); i > 0; i-- {
			k := ""
			if depth <= 0 {
				k = pick(g, "number", "string", "boolean", "null")
			}
			o[pick(g, "a", "b", "c", "d", "kind", "x/y", "til~de")] = g.partValue(k, depth-1)
		}
		return o
	}
}

// ---------------------------------------------------------------- allOf

func (g *G) allOfSchema() (S, any) {
	w := g.partValue("", 1)
	ps := &parts{G: g, depth: 2, tuples: g.p(40)}
	n := 1 + g.Intn(4)
	var list []any
	var typed bool
	defs := S{}
	for i := 0; i < n; i++ {
		sub := ps.part([]any{w})
		if sub["type"] != nil {
			typed = true
		}
		switch g.Intn(6) {
		case 0:
			sub = S{"allOf": []any{sub, ps.part([]any{w})}}
		case 1:
			name := fmt.Sprintf("d%d", i)
			defs[name] = sub
			sub = S{"$ref": "#/$defs/" + name}
		}
		list = append(list, sub)
	}
	s := S{"allOf": list}
	if g.p(40) || !typed {
		for k, v := range ps.part([]any{w}) {
			s[k] = v
		}
	}
	if g.p(15) { // a pattern, in one place
		if str, ok := w.(string); ok {
			list[0] = S{"type": "string", "pattern": "^[a-z]{" + fmt.Sprint(len(str)) + "}$"}
			s = S{"allOf": list[:1], "description": "pattern"}
			if n > 1 {
				s["allOf"] = []any{list[0], S{"type": []any{"string", "null"}}}
			}
		}
	}
	if len(defs) > 0 {
		s["$defs"] = defs
	}
	return s, w
}

// ---------------------------------------------------------------- anyOf, oneOf

type branch struct {
	schema S
	wit    any
}

// Branches that accept different values, and a base all of the witnesses satisfy.
func (g *G) anyOfSchema() (S, []any, []any) {
	ps := &parts{G: g, depth: 2, mixed: true}
	kind := pick(g, "", "number", "string", "object", "array")
	n := 1 + g.Intn(4)
	var wits, list, cover []any
	defs := S{}
	for i := 0; i < n; i++ {
		w := g.partValue(kind, 1)
		sub := ps.part([]any{w})
		if sub["type"] == nil && sub["const"] == nil && sub["enum"] == nil {
			sub["type"] = g.typeFor([]any{w})
		}
		wits = append(wits, w)
		cover = append(cover, sub)
		switch g.Intn(8) {
		case 0:
			name := fmt.Sprintf("d%d", i)
			defs[name] = sub
			sub = S{"$ref": "#/$defs/" + name}
		case 1:
			sub = S{"allOf": []any{sub}}
		case 2:
			w2 := g.partValue(kind, 0)
			sub2 := ps.part([]any{w2})
			if sub2["type"] == nil && sub2["const"] == nil && sub2["enum"] == nil {
				sub2["type"] = g.typeFor([]any{w2})
			}
			sub = S{"anyOf": []any{sub, sub2}}
			wits = append(wits, w2)
		}
		list = append(list, sub)
	}
	s := S{"anyOf": list}
	if g.p(50) {
		for k, v := range ps.part(wits) {
			s[k] = v
		}
	}
	if len(defs) > 0 {
		s["$defs"] = defs
	}
	return s, wits, cover
}

// Alternatives no value satisfies two of.
func (g *G) disjoint(n int) ([]S, []any) {
	var out []S
	var wits []any
	switch g.Intn(5) {
	case 0: // types
		ts := []string{"object", "array", "integer", "string", "boolean", "null"}
		for _, i := range g.Perm(len(ts))[:n] {
			s, w := S{"type": ts[i]}, witnessOfType(ts[i])
			switch {
			case ts[i] == "string" && g.p(60):
				s, w = g.stringSchema()
				s["type"] = "string"
			case ts[i] == "integer" && g.p(60):
				s, w = S{"type": "integer", "minimum": -5, "maximum": 40, "multipleOf": 3}, 6
			case ts[i] == "object" && g.p(60):
				s, w = g.objectSchema(0)
				s["type"] = "object"
			case ts[i] == "array" && g.p(60):
				s, w = g.arraySchema(0)
				if _, legacy := s["items"].([]any); legacy { // not allowed in alternatives
					s, w = S{}, []any{}
				}
				s["type"] = "array"
			}
			out, wits = append(out, s), append(wits, w)
		}
	case 1: // ranges
		at := g.Intn(100) - 50
		typ := pick(g, "integer", "number")
		for i := 0; i < n; i++ {
			s := S{"type": typ, "minimum": at, "maximum": at + 10}
			if g.p(30) {
				s = S{"type": typ, "minimum": at, "exclusiveMaximum": at + 11}
			}
			out, wits = append(out, s), append(wits, at+3)
			at += 11
		}
	case 2: // discriminator
		for i := 0; i < n; i++ {
			sub, w := g.small(0)
			k := fmt.Sprintf("k%d", i)
			disc := S{"const": k}
			if g.p(30) {
				disc = S{"enum": []any{k, k + "'"}}
			}
			s := S{"type": "object", "properties": S{"kind": disc, "val": sub}, "required": []any{"kind"}}
			o := S{"kind": k, "val": w}
			if g.p(50) {
				s["required"] = []any{"kind", "val"}
			}
			if g.p(20) {
				s["additionalProperties"] = false
			}
			out, wits = append(out, s), append(wits, o)
		}
	case 3: // lengths
		at := 0
		for i := 0; i < n; i++ {
			out = append(out, S{"type": "string", "minLength": at + 1, "maxLength": at + 4})
			wits = append(wits, strings.Repeat("x", at+2))
			at += 4
		}
	case 4: // literals
		vs := g.values(n*2, 1)
		for i := 0; i < n; i++ {
			s := S{"enum": []any{vs[2*i], vs[2*i+1]}}
			if g.p(40) {
				s = S{"const": vs[2*i]}
			}
			out, wits = append(out, s), append(wits, vs[2*i])
		}
	}
	return out, wits
}

func (g *G) oneOfSchema() (S, []any, []any) {
	n := 1 + g.Intn(4)
	ss, wits := g.disjoint(n)
	var list, cover []any
	defs := S{}
	for i, sub := range ss {
		cover = append(cover, sub)
		switch g.Intn(8) {
		case 0:
			name := fmt.Sprintf("d%d", i)
			defs[name] = sub
			sub = S{"$ref": "#/$defs/" + name}
		case 1:
			sub = S{"allOf": []any{sub}}
		}
		list = append(list, sub)
	}
	g.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	s := S{"oneOf": list}
	if g.p(35) {
		s["type"] = g.typeFor(wits)
	}
	if len(defs) > 0 {
		s["$defs"] = defs
	}
	return s, wits, cover
}

// Overlapping alternatives: values of the overlap are not allowed.
func (g *G) overlapSchema() (S, []any, []any) {
	switch g.Intn(5) {
	case 0:
		a, b := g.Intn(20), 20+g.Intn(20)
		c := b + 5 + g.Intn(20)
		typ := pick(g, "integer", "number")
		d := min(pick(g, 1, 3, 5, 10), b-a-1)
		return S{"type": typ, "oneOf": []any{S{"minimum": a, "maximum": b}, S{"minimum": b - d, "maximum": c}}}, []any{a, c},
			[]any{S{"exclusiveMaximum": b}, S{"exclusiveMinimum": b}}
	case 1:
		m, n := pick(g, 2, 3, 4), pick(g, 5, 7, 11)
		return S{"type": "integer", "minimum": 0, "maximum": 200, "oneOf": []any{S{"multipleOf": m}, S{"multipleOf": n}}}, []any{m, n},
			[]any{S{"multipleOf": m}, S{"multipleOf": n}}
	case 2:
		return S{"oneOf": []any{S{"enum": []any{"a", "b", "c", "d"}}, S{"enum": []any{"c", "d", "e", "f"}}, S{"enum": []any{"f", "g"}}}}, []any{"a", "e", "g"},
			[]any{S{"const": "a"}, S{"const": "b"}, S{"const": "e"}, S{"const": "g"}}
	case 3:
		return S{"type": "object", "properties": S{"a": S{"type": "boolean"}, "b": S{"type": "integer"}}, "oneOf": []any{S{"required": []any{"a"}}, S{"required": []any{"b"}}}},
			[]any{S{"a": true}, S{"b": 1}}, []any{S{"required": []any{"a"}}, S{"required": []any{"b"}}}
	default:
		return S{"oneOf": []any{S{"type": "string", "maxLength": 30}, S{"type": "string", "minLength": 20, "maxLength": 60}, S{"type": []any{"null", "boolean"}}}},
			[]any{"x", strings.Repeat("x", 55), nil, true}, []any{S{"type": "null"}, S{"type": "boolean"}, S{"type": "string"}}
	}
}

// ---------------------------------------------------------------- if / then / else

// A discriminated object (or literal) whose branches differ.
func (g *G) ifSchema() (S, []any, []any) {
	and := func(kind any, extra ...any) S {
		o := S{"kind": kind}
		for i := 0; i < len(extra); i += 2 {
			o[extra[i].(string)] = extra[i+1]
		}
		return o
	}
	s := S{}
	var wits, cover []any
	var ifs, then, els S
	switch g.Intn(5) {
	case 0, 1: // on a literal property
		then1, w1 := g.small(0)
		els1, w2 := g.small(0)
		s = S{"type": "object", "properties": S{"kind": S{"enum": []any{"x", "y"}}}, "required": []any{"kind"}}
		ifs = S{"properties": S{"kind": S{"const": "x"}}, "required": []any{"kind"}}
		then = S{"properties": S{"t": then1}, "required": []any{"t"}}
		els = S{"properties": S{"e": els1}, "required": []any{"e"}}
		if g.p(50) {
			ifs = S{"properties": S{"kind": S{"enum": []any{"x", "z"}}}}
		}
		wits = []any{and("x", "t", w1, "e", w2), and("y", "e", w2, "t", w1)}
		cover = []any{S{"properties": S{"kind": S{"const": "x"}}}, S{"properties": S{"kind": S{"const": "y"}}}}
	case 2: // on a boolean, on the same property
		s = S{"type": "object", "properties": S{"on": S{"type": "boolean"}, "n": S{"type": "integer", "minimum": 0, "maximum": 100}}, "required": []any{"on", "n"}}
		ifs = S{"properties": S{"on": S{"const": true}}}
		then = S{"properties": S{"n": S{"minimum": 50}}}
		els = S{"properties": S{"n": S{"maximum": 49}}}
		wits = []any{S{"on": true, "n": 70}, S{"on": false, "n": 3}}
		cover = []any{S{"properties": S{"on": S{"const": true}}}, S{"properties": S{"on": S{"const": false}}}}
	case 3: // numbers
		typ := pick(g, "integer", "number")
		c := 20 + g.Intn(60)
		s = S{"type": typ, "minimum": 0, "maximum": 100}
		ifs = S{"maximum": c}
		if typ == "integer" {
			then = S{"multipleOf": 2}
			els = S{"multipleOf": 5}
			wits = []any{2, 100}
		} else {
			then = S{"minimum": 10}
			els = S{"maximum": 98}
			wits = []any{15, 97}
		}
		cover = []any{S{"maximum": c}, S{"exclusiveMinimum": c}}
	case 4: // strings and types
		s = S{"type": []any{"string", "integer", "boolean"}}
		ifs = S{"type": "string"}
		then = S{"minLength": 3, "maxLength": 5}
		els = S{"type": []any{"integer", "boolean"}, "minimum": 3, "maximum": 9}
		wits = []any{"abcd", 5, true}
		cover = []any{S{"type": "string"}, S{"type": "integer"}, S{"type": "boolean"}}
	}
	s["if"] = ifs
	switch g.Intn(4) {
	case 0:
		s["then"] = then
	case 1:
		s["else"] = els
	default:
		s["then"], s["else"] = then, els
	}
	if g.p(25) { // inside of an allOf
		inner := S{"if": s["if"]}
		for _, k := range []string{"then", "else"} {
			if v, ok := s[k]; ok {
				inner[k] = v
				delete(s, k)
			}
		}
		delete(s, "if")
		s["allOf"] = []any{inner}
	} else if g.p(25) {
		defs := S{"cond": s["if"]}
		s["if"] = S{"$ref": "#/$defs/cond"}
		if t, ok := s["then"]; ok {
			defs["yes"] = t
			s["then"] = S{"$ref": "#/$defs/yes"}
		}
		s["$defs"] = defs
	}
	return s, wits, cover
}

// ---------------------------------------------------------------- not

func (g *G) notSchema() (S, any) {
	var s, n S
	var w any
	switch g.Intn(16) {
	case 0: // types
		perm := g.Perm(len(allTypes))
		t := allTypes[perm[0]]
		other := allTypes[perm[1]]
		if t == "number" && other == "integer" {
			other = "string"
		}
		s, n, w = S{}, S{"type": t}, witnessOfType(other)
		if g.p(40) {
			s["type"] = []any{t, other}
		} else if g.p(40) {
			n = S{"type": []any{t, pick(g, "null", t)}}
			if other == "null" {
				w = pick(g, any("s"), any(true), any(S{}))
				if kindOf(w) == t {
					w = []any{}
				}
			}
			n["type"] = distinct(n["type"].([]any))
		}
		if t == "integer" && w == any(3) {
			w = "s"
		}
	case 1, 2: // one bound of a range
		typ := pick(g, "integer", "number")
		a := g.Intn(50)
		b := a + 10 + g.Intn(50)
		c := a + 3 + g.Intn(b-a-5)
		s = S{"type": typ, "minimum": a, "maximum": b}
		switch g.Intn(4) {
		case 0:
			n, w = S{"minimum": c}, a
		case 1:
			n, w = S{"maximum": c}, b
		case 2:
			n, w = S{"exclusiveMinimum": c}, a
		case 3:
			n, w = S{"exclusiveMaximum": c}, b
		}
		if g.p(30) {
			delete(s, pick(g, "minimum", "maximum"))
		}
	case 3: // multiples
		m := pick(g, 2, 3, 5, 10)
		s, n, w = S{"type": "integer", "minimum": 0, "maximum": 60}, S{"multipleOf": m}, m+1
	case 4: // lengths
		a := g.Intn(10)
		b := a + 10 + g.Intn(20)
		c := a + 3 + g.Intn(5)
		s = S{"type": "string", "minLength": a, "maxLength": b}
		if g.p(50) {
			n, w = S{"minLength": c}, strings.Repeat("x", a)
		} else {
			n, w = S{"maxLength": c}, strings.Repeat("x", b)
		}
	case 5: // pattern
		s = S{"type": "string", "pattern": "^[a-c]{2,4}$"}
		n, w = S{"pattern": pick(g, "a", "^a", "b$", "^[ab]+$", "cc")}, "ccac"
		if n["pattern"] == "a" || n["pattern"] == "cc" {
			w = "bcb"
		}
	case 6:
		f := pick(g, "email", "ipv4", "date", "uuid", "ipv6", "date-time", "duration")
		s, n, w = S{"type": "string", "maxLength": 30}, S{"format": f}, "hello world"
	case 7, 8: // literals
		vs := g.values(2+g.Intn(5), 1)
		s, n, w = S{"enum": vs}, S{"const": vs[0]}, vs[1]
		if len(vs) > 3 && g.p(50) {
			n, w = S{"enum": []any{vs[0], vs[2]}}, vs[1]
		}
	case 9:
		s, n, w = S{"type": "integer", "minimum": 1, "maximum": 4}, S{"enum": []any{2, 3}}, 4
		if g.p(50) {
			n = S{"const": pick(g, 1, 2, 3)}
		}
	case 10:
		s, n, w = S{"type": "boolean"}, S{"const": true}, false
	case 11: // absent property
		s = S{"type": "object", "properties": S{"a": S{"type": "boolean"}, "b": S{"type": "integer"}, "c": S{"type": "null"}}}
		n, w = S{"required": []any{pick(g, "a", "b", "c")}}, S{}
	case 12: // counts
		a := 1 + g.Intn(4)
		s, n = S{"type": "array", "items": S{"type": "integer"}, "minItems": a, "maxItems": a + 6}, S{"minItems": a + 3}
		w = make([]any, a)
		for i := range w.([]any) {
			w.([]any)[i] = i
		}
		if g.p(50) {
			n = S{"maxItems": a + 2}
			w = []any{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}[:a+5]
		}
	case 13:
		s, n, w = S{"type": "object", "additionalProperties": S{"type": "integer"}, "minProperties": 1, "maxProperties": 8}, S{"minProperties": 4}, S{"a": 1}
		if g.p(50) {
			n, w = S{"maxProperties": 3}, S{"a": 1, "b": 1, "c": 1, "d": 1}
		}
	case 14: // double negation
		typ := pick(g, "integer", "string", "boolean", "null", "object", "array")
		s, n, w = S{}, S{"not": S{"type": typ}}, witnessOfType(typ)
	case 15: // the value of a required property
		s = S{"type": "object", "properties": S{"k": S{"enum": []any{"a", "b", "c"}}}, "required": []any{"k"}}
		n, w = S{"properties": S{"k": S{"const": "a"}}}, S{"k": "b"}
		if g.p(50) {
			n = S{"properties": S{"k": S{"const": "a"}}, "required": []any{"k"}}
		}
	}
	s["not"] = n
	if g.p(15) {
		delete(s, "not")
		s["allOf"] = []any{S{"not": n}}
	} else if g.p(15) {
		s["not"] = S{"$ref": "#/$defs/n"}
		s["$defs"] = S{"n": n}
	}
	return s, w
}
