package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
)

// Replaces sub schemas of a schema with references to where they were moved to.
type factoring struct {
	g     *G
	root  S
	names []string // definitions so far, as references
	rate  int
	docs  map[string]S // other documents to move to
}

var strangeNames = []string{"foo", "bar", "a/b", "a~b", "~1", "a b", "50%", "%2f", "items", "1", "properties", "ä", "x.y", "a-b", "$defs", "a\"b", "^[a]{2}$", "ref", "a~1b", ""}

func escapeToken(name string) string {
	return url.PathEscape(strings.ReplaceAll(strings.ReplaceAll(name, "~", "~0"), "/", "~1"))
}

// Moves a schema to a definition and returns the reference to it.
func (f *factoring) move(s any) S {
	g := f.g
	where := pick(g, "$defs", "definitions")
	doc, in := f.root, "#/"
	if f.docs != nil {
		name := pick(g, append(sortedKeys(f.docs), rootDoc)...)
		in = "@" + name + "#/"
		if name != rootDoc {
			doc = f.docs[name]
		}
	}
	defs, _ := doc[where].(S)
	if defs == nil {
		defs = S{}
		doc[where] = defs
	}
	name := pick(g, strangeNames...)
	for i := 0; ; i++ {
		if _, taken := defs[name]; !taken && name != "" {
			break
		}
		name = fmt.Sprintf("%s%d", pick(g, strangeNames...), i)
	}
	ref := in + where + "/" + escapeToken(name)
	switch {
	case g.p(15): // below something
		defs[name] = S{"type": "object", "properties": S{"in": s, "other": S{"const": "wrong"}}}
		ref += "/properties/in"
	case g.p(10):
		defs[name] = S{"type": "array", "prefixItems": []any{S{"const": "wrong"}, s}}
		ref += "/prefixItems/1"
	case g.p(10):
		defs[name] = S{"type": "array", "items": s}
		ref += "/items"
	default:
		defs[name] = s
	}
	for g.p(20) { // chained
		link := fmt.Sprintf("l%d", len(defs))
		if _, taken := defs[link]; taken {
			break
		}
		defs[link] = S{"$ref": ref}
		ref = in + where + "/" + link
	}
	return S{"$ref": ref}
}

func (f *factoring) sub(s any) any {
	m, ok := s.(S)
	if !ok {
		return s
	}
	f.inside(m)
	if f.g.p(f.rate) {
		return f.move(m)
	}
	return m
}

func (f *factoring) inside(s S) {
	for _, k := range sortedKeys(s) {
		switch k {
		case "properties", "patternProperties":
			m := s[k].(S)
			for _, n := range sortedKeys(m) {
				m[n] = f.sub(m[n])
			}
		case "items", "prefixItems", "allOf", "anyOf", "oneOf":
			if l, ok := s[k].([]any); ok {
				for i := range l {
					l[i] = f.sub(l[i])
				}
				break
			}
			s[k] = f.sub(s[k])
		case "additionalProperties", "contains", "if", "then", "else":
			s[k] = f.sub(s[k])
		case "not": // (references further inside of it are not looked into)
			if m, ok := s[k].(S); ok && f.g.p(f.rate) {
				s[k] = f.move(m)
			}
		}
	}
}

// A random schema of any kind, factored. ok is false if it makes use of something that is not supported together.
func (g *G) anySchema() (S, any, []any, bool, bool) {
	g.flat = true
	defer func() { g.flat = false }()
	var s S
	var w any
	var cover []any
	noEdge := false
	first := func(s S, ws []any, c []any) {
		if len(ws) > 0 {
			w = ws[0]
		}
		cover = c
	}
	switch g.Intn(9) {
	case 0:
		s, w = g.objectSchema(2)
	case 1:
		s, w = g.arraySchema(2)
	case 2, 3:
		s, w = g.allOfSchema()
	case 4:
		var ws []any
		s, ws, cover = g.anyOfSchema()
		first(s, ws, cover)
	case 5:
		var ws []any
		s, ws, cover = g.oneOfSchema()
		first(s, ws, cover)
	case 6:
		var ws []any
		s, ws, cover = g.ifSchema()
		first(s, ws, cover)
	case 7:
		s, w = g.notSchema()
		noEdge = strings.Contains(string(raw(s)), `"integer"`)
	case 8:
		s, w = g.multiTypeSchema()
		s = S{"type": "object", "properties": S{"a": s}, "required": []any{"a"}}
		w = S{"a": w}
	}
	return s, w, cover, noEdge, true
}

func (g *G) factoredSchema() (S, any, []any, bool, bool) {
	s, w, cover, noEdge, _ := g.anySchema()
	if !g.factor(s) {
		return nil, nil, nil, false, false
	}
	if len(s) > 0 && g.p(10) && s["$defs"] == nil && s["definitions"] == nil {
		inner := s
		s = S{"$ref": "#/$defs/all", "$defs": S{"all": inner}}
	}
	return s, w, cover, noEdge, true
}

// Factors a schema in place.
func (g *G) factor(s S) bool {
	text := string(raw(s))
	if strings.Contains(text, "$ref") || strings.Contains(text, `"items":[`) {
		return false
	}
	f := &factoring{g: g, root: s, rate: pick(g, 30, 60, 90)}
	f.inside(s)
	return true
}

// Factors some of the cases.
func (g *G) factorSome(cs []*Case, percent int) []*Case {
	for _, c := range cs {
		if !g.p(percent) {
			continue
		}
		v, err := decodeJSON(c.Schema)
		must(err)
		if s := v.(S); g.factor(s) {
			c.Schema = raw(s)
		}
	}
	return cs
}

const rootDoc = "d/root.json"

// Spreads a schema over several documents.
func (g *G) spread(id string, s S) *Case {
	text := string(raw(s))
	if strings.Contains(text, "$ref") || strings.Contains(text, `"items":[`) {
		return nil
	}
	f := &factoring{g: g, root: s, rate: pick(g, 40, 70, 95), docs: map[string]S{}}
	for _, n := range []string{"d/a.json", "d/sub/b.json", "c.json"} {
		f.docs[n] = S{}
	}
	f.inside(s)
	c := one(id, s, 60)
	c.Kind = "docs"
	c.Docs = map[string]json.RawMessage{}
	for n, d := range f.docs {
		if g.p(30) { // a whole document that is referred to
			for _, where := range []string{"properties"} {
				d[where] = S{"x": S{"const": "wrong"}}
			}
		}
		c.Docs[n] = raw(d)
	}
	store := pick(g, "file", "http", "mixed")
	entry := "text"
	if store != "http" {
		entry = pick(g, "file", "text", "cwd")
	}
	c.Extra = raw(docsExtra{Store: store, Entry: entry, Form: pick(g, "rel", "abs"), Root: rootDoc})
	return c
}
