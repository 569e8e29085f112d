package main

import (
	"encoding/json"

	"github.com/ryanolee/go-chaff"
)

// Schemas without a type (UntypedCases).
func init() {
	expanders["untyped"] = expandUntyped
	expanders["choice"] = expandChoice
	properties["C24"] = property{cases: func(g *G, tier string) []*Case { return nil }}
	properties["C25"] = property{cases: func(g *G, tier string) []*Case { return nil }}
	properties["C23"] = property{cases: func(g *G, tier string) []*Case { return nil }}
}

// A schema only values that took the place satisfy, with what x says there (nil if no value shows it).
func offeredAt(p string, x any) S {
	n := S{"type": "null"}
	switch p {
	case "root", "any", "one", "all", "else":
		return x.(S)
	case "property":
		return S{"properties": S{"a": x}, "required": []string{"a"}}
	case "escaped":
		return S{"properties": S{"b/c~d": x}, "required": []string{"b/c~d"}}
	case "pattern":
		return S{"not": S{"patternProperties": S{"^a": S{"not": x}}}}
	case "additional":
		return S{"not": S{"properties": S{"k": n}, "additionalProperties": S{"not": x}}}
	case "items", "definitions":
		return S{"not": S{"items": S{"not": x}}}
	case "prefix":
		return S{"prefixItems": []any{n, x}, "minItems": 2}
	case "rest", "unevaluated":
		return S{"not": S{"prefixItems": []any{n}, "items": S{"not": x}}}
	}
	return nil
}

// What values satisfy if whatever took the place satisfies x (nil if that cannot be told).
func promisedAt(p string, x any) S {
	switch p {
	case "root", "all":
		return x.(S)
	case "one":
		return S{"anyOf": []any{S{"const": "only this"}, x}}
	case "then":
		return nil // what it says is merged with a constant
	case "definitions":
		return S{"items": x}
	}
	return clashAt(p, x)
}

func expandUntyped(c *Case) {
	var e struct {
		At, Type string
		Keys     []struct{ Key, Text string }
		Offers   []string
	}
	must(json.Unmarshal(c.Extra, &e))
	x := S{}
	for _, k := range e.Keys {
		v, err := decodeJSON([]byte(k.Text))
		must(err)
		x[k.Key] = v
	}
	at := clashAt
	if e.At == "root" {
		at = func(_ string, x any) S { return x.(S) }
	}
	c.Schema = raw(at(e.At, x))
	if e.Type != "" {
		if p := promisedAt(e.At, S{"type": e.Type}); p != nil {
			c.Contract = raw(p)
		}
	}
	for _, t := range e.Offers {
		if t == "number" { // one that is no integer
			if o := offeredAt(e.At, S{"type": "number", "not": S{"type": "integer"}}); o != nil {
				c.Cover = append(c.Cover, raw(o))
			}
		} else if o := offeredAt(e.At, S{"type": t}); o != nil {
			c.Cover = append(c.Cover, raw(o))
		}
	}
	for _, w := range []string{"null", "{}", "[]", `{"a":null}`, `{"b/c~d":null}`, "[null]"} {
		c.Wit = append(c.Wit, json.RawMessage(w))
	}
	c.Samples = 40
	if len(c.Cover) > 0 {
		c.Samples = 300
	}
}

// Schemas that leave a choice (ChoiceCases).
func expandChoice(c *Case) {
	var e struct {
		At, Schema string
		Contract   string
		Covers     []string
		Den        int
		Gen        map[string]any
		Parse      *chaff.ParserOptions
	}
	must(json.Unmarshal(c.Extra, &e))
	read := func(text string) any {
		v, err := decodeJSON([]byte(text))
		must(err)
		return S(v.(map[string]any))
	}
	x := read(e.Schema)
	c.Schema = raw(x)
	c.Samples = 24 * e.Den
	if e.At != "root" {
		m, defs := x.(S), x.(S)["$defs"] // references lead to the root
		delete(m, "$defs")
		whole := clashAt(e.At, m)
		if defs != nil {
			whole["$defs"] = defs
		}
		c.Schema = raw(whole)
		c.Samples *= 3
	}
	c.Gen = e.Gen
	c.Parse = e.Parse
	if e.Contract != "" {
		y := read(e.Contract)
		if e.At != "root" {
			y = promisedAt(e.At, y)
		}
		c.Contract = raw(y)
	}
	for _, s := range e.Covers {
		y := read(s)
		if e.At != "root" {
			y = offeredAt(e.At, y)
		}
		c.Cover = append(c.Cover, raw(y))
	}
	c.NoEdge = true // every draw as likely as any other
}
