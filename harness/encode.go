package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	jsv "github.com/santhosh-tekuri/jsonschema/v6"
)

type place struct {
	doc  string
	path []string
}

// Projection of JSON schemas and JSON values onto the abstract ones JsonSchema.tla is about.
// It settles the facts about single numbers and strings (order, divisibility, length, pattern
// and format membership); everything a schema means is decided by the specification.
type encoder struct {
	bounds   []*big.Rat // sorted, distinct
	mults    map[string]*big.Rat
	patterns map[string]*regexp.Regexp
	formats  map[string]*jsv.Schema
	ids      map[string]string
	docs     map[string]any    // absolute url (no fragment) -> document
	alias    map[string]place  // $id -> where it is
	base     map[string]string // key of docs -> base url
	lost     map[string]bool   // documents that can not be had
	dangling bool              // texts about dangling references are told apart
}

func decodeJSON(data []byte) (any, error) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	return v, nil
}

func rat(n json.Number) *big.Rat {
	r, ok := new(big.Rat).SetString(string(n))
	if !ok {
		panic("bad number " + string(n))
	}
	return r
}

// Numbers are compared as the doubles JSON implementations read them as (the decimals of large ones are not exact).
func double(n json.Number) *big.Rat {
	f, err := strconv.ParseFloat(string(n), 64)
	if err != nil {
		return rat(n)
	}
	return new(big.Rat).SetFloat64(f)
}

func canon(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return fmt.Sprint(x)
	case json.Number:
		return rat(x).RatString()
	case string:
		b, _ := json.Marshal(x)
		return string(b)
	case []any:
		parts := make([]string, len(x))
		for i, e := range x {
			parts[i] = canon(e)
		}
		return "[" + strings.Join(parts, ",") + "]"
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		parts := make([]string, len(keys))
		for i, k := range keys {
			b, _ := json.Marshal(k)
			parts[i] = string(b) + ":" + canon(x[k])
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	panic(fmt.Sprintf("canon: %T", v))
}

func (e *encoder) id(v any) string {
	c := canon(v)
	if s, ok := e.ids[c]; ok {
		return s
	}
	s := fmt.Sprintf("c%d", len(e.ids))
	e.ids[c] = s
	return s
}

func newEncoder(root any, rootURL string, docs map[string]any, besides ...any) (*encoder, error) {
	e := &encoder{
		mults: map[string]*big.Rat{}, patterns: map[string]*regexp.Regexp{}, formats: map[string]*jsv.Schema{},
		ids: map[string]string{}, docs: map[string]any{rootURL: root}, alias: map[string]place{}, base: map[string]string{},
	}
	for k, d := range docs {
		e.docs[k] = d
	}
	bounds := map[string]*big.Rat{}
	var err error
	for k, d := range e.docs {
		e.base[k] = k
		e.identify(d, k, k, []string{})
		e.collect(d, bounds, &err)
	}
	for _, d := range besides {
		e.collect(d, bounds, &err)
	}
	for _, r := range bounds {
		e.bounds = append(e.bounds, r)
	}
	sort.Slice(e.bounds, func(i, j int) bool { return e.bounds[i].Cmp(e.bounds[j]) < 0 })
	return e, err
}

// Names every sub schema with an $id.
func (e *encoder) identify(v any, doc, base string, path []string) {
	at := func(tok ...string) []string { return append(append([]string{}, path...), tok...) }
	switch x := v.(type) {
	case []any:
		for i, sub := range x {
			e.identify(sub, doc, base, at(fmt.Sprint(i)))
		}
	case map[string]any:
		if s, ok := x["$id"].(string); ok {
			b, perr := url.Parse(base)
			i, ierr := url.Parse(s)
			if perr == nil && ierr == nil {
				abs := b.ResolveReference(i)
				abs.Fragment = ""
				base = abs.String()
				if _, taken := e.alias[base]; !taken {
					e.alias[base] = place{doc, path}
				}
				if len(path) == 0 {
					e.base[doc] = base
				}
			}
		}
		for k, sub := range x {
			if k != "const" && k != "enum" {
				e.identify(sub, doc, base, at(k))
			}
		}
	}
}

func (e *encoder) collect(v any, bounds map[string]*big.Rat, err *error) {
	switch x := v.(type) {
	case []any:
		for _, i := range x {
			e.collect(i, bounds, err)
		}
	case map[string]any:
		for _, k := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
			if n, ok := x[k].(json.Number); ok {
				bounds[double(n).RatString()] = double(n)
			}
		}
		if n, ok := x["multipleOf"].(json.Number); ok {
			e.mults[rat(n).RatString()] = rat(n)
		}
		addPattern := func(p string) {
			if e.patterns[p] == nil {
				re, rerr := regexp.Compile(p)
				if rerr != nil {
					*err = rerr
					return
				}
				e.patterns[p] = re
			}
		}
		if p, ok := x["pattern"].(string); ok {
			addPattern(p)
		}
		if m, ok := x["patternProperties"].(map[string]any); ok {
			for p := range m {
				addPattern(p)
			}
		}
		if f, ok := x["format"].(string); ok && e.formats[f] == nil {
			c := jsv.NewCompiler()
			c.AssertFormat()
			c.AddResource("urn:f", map[string]any{"format": f})
			sch, cerr := c.Compile("urn:f")
			if cerr != nil {
				*err = cerr
			} else {
				e.formats[f] = sch
			}
		}
		for _, i := range x {
			e.collect(i, bounds, err)
		}
	}
}

func (e *encoder) rank(r *big.Rat) int {
	i := sort.Search(len(e.bounds), func(i int) bool { return e.bounds[i].Cmp(r) >= 0 })
	if i < len(e.bounds) && e.bounds[i].Cmp(r) == 0 {
		return 2*i + 1
	}
	return 2 * i
}

func (e *encoder) matching(s string) []string {
	out := []string{}
	for p, re := range e.patterns {
		if re.MatchString(s) {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// Values nested deeper than this are cut off: no schema of the cases means one
const valueNesting = 50

func (e *encoder) value(v any) map[string]any { return e.nested(v, 0) }

func (e *encoder) nested(v any, depth int) map[string]any {
	if depth > valueNesting {
		return map[string]any{"c": "deep", "t": "deep"}
	}
	m := map[string]any{"c": e.id(v)}
	switch x := v.(type) {
	case nil:
		m["t"] = "null"
	case bool:
		m["t"] = "bool"
	case json.Number:
		r := rat(x)
		ms := []string{}
		for c, d := range e.mults {
			if d.Sign() > 0 && new(big.Rat).Quo(r, d).IsInt() {
				ms = append(ms, c)
			}
		}
		sort.Strings(ms)
		m["t"], m["r"], m["i"], m["m"] = "num", e.rank(double(x)), r.IsInt(), ms
	case string:
		if e.dangling && strings.HasPrefix(x, "Unresolvable reference") {
			m["t"] = "nothing"
			break
		}
		fs := []string{}
		for f, sch := range e.formats {
			if sch.Validate(x) == nil {
				fs = append(fs, f)
			}
		}
		sort.Strings(fs)
		m["t"], m["n"], m["p"], m["f"] = "str", utf8.RuneCountInString(x), e.matching(x), fs
	case []any:
		vs := make([]any, len(x))
		for i, el := range x {
			vs[i] = e.nested(el, depth+1)
		}
		m["t"], m["v"] = "arr", vs
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		vs := make([]any, len(keys))
		for i, k := range keys {
			vs[i] = map[string]any{"k": k, "p": e.matching(k), "v": e.nested(x[k], depth+1)}
		}
		m["t"], m["v"] = "obj", vs
	default:
		panic(fmt.Sprintf("value: %T", v))
	}
	return m
}

func num(v any) (int64, bool) {
	n, ok := v.(json.Number)
	if !ok {
		return 0, false
	}
	r := rat(n)
	if !r.IsInt() {
		return 0, false
	}
	return r.Num().Int64(), true
}

func (e *encoder) schema(s any, doc string) any {
	switch x := s.(type) {
	case bool:
		if x {
			return map[string]any{}
		}
		return map[string]any{"never": true}
	case map[string]any:
		out := map[string]any{}
		for k, v := range x {
			switch k {
			case "type":
				if t, ok := v.(string); ok {
					out[k] = []any{t}
				} else {
					out[k] = v
				}
			case "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum":
				out[k] = e.rank(double(v.(json.Number)))
			case "multipleOf":
				out[k] = rat(v.(json.Number)).RatString()
			case "const":
				out[k] = e.id(v)
			case "enum":
				ids := []any{}
				for _, i := range v.([]any) {
					ids = append(ids, e.id(i))
				}
				out[k] = ids
			case "minLength", "maxLength", "minItems", "maxItems", "minContains", "maxContains", "minProperties", "maxProperties":
				n, _ := num(v)
				out[k] = n
			case "pattern", "format", "uniqueItems", "required":
				out[k] = v
			case "properties", "patternProperties", "$defs", "definitions":
				m := map[string]any{}
				for name, sub := range v.(map[string]any) {
					m[name] = e.schema(sub, doc)
				}
				out[k] = m
			case "additionalProperties", "contains", "additionalItems", "unevaluatedItems", "not", "if", "then", "else":
				out[k] = e.schema(v, doc)
			case "items":
				if a, ok := v.([]any); ok {
					l := make([]any, len(a))
					for i, sub := range a {
						l[i] = e.schema(sub, doc)
					}
					out["itemsTuple"] = l
				} else {
					out[k] = e.schema(v, doc)
				}
			case "allOf", "anyOf", "oneOf", "prefixItems":
				l := []any{}
				for _, sub := range v.([]any) {
					l = append(l, e.schema(sub, doc))
				}
				out[k] = l
			case "$ref":
				if r := e.ref(v.(string), doc); r != nil {
					out[k] = r
				}
			}
		}
		return out
	}
	panic(fmt.Sprintf("schema: %T", s))
}

func (e *encoder) ref(ref, doc string) any {
	b, err := url.Parse(e.base[doc])
	if err != nil {
		panic(err)
	}
	u, err := url.Parse(ref)
	if err != nil {
		panic(err)
	}
	fragment := u.Fragment
	target := place{doc: doc}
	if u.Scheme != "" || u.Host != "" || u.Path != "" || u.Opaque != "" {
		abs := b.ResolveReference(u)
		abs.Fragment = ""
		target = place{doc: abs.String()}
		if a, ok := e.alias[target.doc]; ok {
			target = a
		}
	}
	if e.lost[target.doc] {
		return nil
	}
	if _, ok := e.docs[target.doc]; !ok {
		if e.dangling {
			return map[string]any{"doc": doc, "path": []string{"nothing"}}
		}
		panic(fmt.Sprintf("no document %q for %q in %q", target, ref, doc))
	}
	path := append([]string{}, target.path...)
	if fragment != "" {
		for _, tok := range strings.Split(strings.TrimPrefix(fragment, "/"), "/") {
			path = append(path, strings.ReplaceAll(strings.ReplaceAll(tok, "~1", "/"), "~0", "~"))
		}
	}
	return map[string]any{"doc": target.doc, "path": path}
}
