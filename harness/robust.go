package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	crand "github.com/ryanolee/go-chaff/rand"
)

// Whatever bytes are given to the library, it parses or refuses them, and generates JSON.
type robustExtra struct {
	K    []string `json:"k,omitempty"` // keywords
	V    []string `json:"v,omitempty"` // their values, as text
	At   string   `json:"at,omitempty"`
	Text string   `json:"text,omitempty"`
	B64  string   `json:"b64,omitempty"`
	API  string   `json:"api,omitempty"` // how it is parsed
}

func (e robustExtra) bytes() []byte {
	if e.B64 != "" {
		b, err := base64.StdEncoding.DecodeString(e.B64)
		must(err)
		return b
	}
	if e.K == nil {
		return []byte(e.Text)
	}
	members := []string{}
	for i, k := range e.K {
		members = append(members, fmt.Sprintf("%q: %s", k, e.V[i]))
	}
	inner := strings.Join(members, ", ")
	s := "{" + inner + "}"
	switch e.At {
	case "root":
		return []byte(s)
	case "branches": // every keyword in a branch of its own
		for i, m := range members {
			members[i] = "{" + m + "}"
		}
		s = `"allOf": [` + strings.Join(members, ", ") + `]`
	case "property":
		s = `"type": "object", "properties": {"k": ` + s + `, "l": {"type": "null"}}, "required": ["k"]`
	case "items", "contains", "additionalItems", "unevaluatedItems":
		s = `"type": "array", "minItems": 1, "` + e.At + `": ` + s
	case "prefixItems":
		s = `"type": "array", "prefixItems": [` + s + `]`
	case "legacy":
		s = `"type": "array", "items": [` + s + `]`
	case "additionalProperties":
		s = `"type": "object", "minProperties": 1, "additionalProperties": ` + s
	case "patternProperties":
		s = `"type": "object", "minProperties": 1, "patternProperties": {"^[a-z]+$": ` + s + `}`
	case "allOf", "anyOf", "oneOf":
		s = `"` + e.At + `": [{"type": ["string", "null", "object", "integer"]}, ` + s + `]`
	case "not":
		s = `"not": ` + s
	case "if", "then", "else":
		parts := map[string]string{"if": `{"type": "string"}`, "then": `{"minLength": 2}`, "else": `{"type": "null"}`}
		parts[e.At] = s
		s = `"if": ` + parts["if"] + `, "then": ` + parts["then"] + `, "else": ` + parts["else"]
	case "defs":
		s = `"$defs": {"a": ` + s + `}, "allOf": [{"$ref": "#/$defs/a"}]`
	default:
		panic("HARNESS: place " + e.At)
	}
	return []byte("{" + s + "}")
}

func init() {
	runners["robust"] = runner{"RobustTrace", func(c *Case) map[string]any {
		return map[string]any{"events": []any{}}
	}, runRobust}
}

func runRobust(c *Case, seed int64, res *Result, tr map[string]any) {
	var e robustExtra
	must(json.Unmarshal(c.Extra, &e))
	text := e.bytes()
	events := []any{}
	defer func() {
		tr["events"] = events
		res.Note += "\ninput: " + string(text)
	}()
	attempt := func(what string, f func() string) {
		defer func() {
			if r := recover(); r != nil {
				events = append(events, "panic")
				res.Errors = append(res.Errors, fmt.Sprintf("%s: %v", what, r))
				res.Note = string(debug.Stack())
			}
		}()
		events = append(events, f())
	}
	po := &chaff.ParserOptions{}
	if c.Parse != nil {
		po = c.Parse
	}
	var gen chaff.RootGenerator
	attempt("parse", func() string {
		var err error
		switch e.API {
		case "string":
			gen, err = chaff.ParseSchemaStringWithDefaults(string(text))
		case "file":
			name := filepath.Join(scratch("robust"), fmt.Sprintf("s%d.json", os.Getpid()))
			must(os.WriteFile(name, text, 0o644))
			gen, err = chaff.ParseSchemaFile(name, po)
		default:
			gen, err = chaff.ParseSchema(text, po)
		}
		if err != nil {
			return "refused"
		}
		return "parsed"
	})
	if len(events) == 1 && events[0] == "panic" {
		return
	}
	if gen.Generator == nil {
		return
	}
	if events[0] == "parsed" {
		attempt("print", func() string { _ = gen.String(); return "described" })
	}
	r := rand.New(rand.NewSource(seed))
	n := c.Samples
	if n == 0 {
		n = 6
	}
	for i := 0; i < n; i++ {
		opts := &chaff.GeneratorOptions{Rand: crand.NewRandUtil(r.Int63())}
		switch i % 6 {
		case 1:
			opts.Rand = randUtil(r, 3)
		case 2:
			opts.BypassCyclicReferenceCheck = true
			opts.MaximumReferenceDepth = 1 + r.Intn(4)
		case 3:
			opts.CutoffGenerationSteps, opts.MaximumGenerationSteps = 1+r.Intn(30), 1+r.Intn(30)
		case 4:
			opts.DefaultArrayMinItems, opts.DefaultArrayMaxItems = r.Intn(4), r.Intn(4)
			opts.DefaultObjectMinProperties, opts.DefaultObjectMaxProperties = r.Intn(4), r.Intn(4)
			opts.MaximumUniqueGeneratorAttempts, opts.MaximumIfAttempts, opts.MaximumOneOfAttempts = 1, 1+r.Intn(2), 1+r.Intn(2)
		}
		attempt("generate", func() string {
			v := gen.Generate(opts)
			if _, err := json.Marshal(v); err != nil {
				res.Errors = append(res.Errors, err.Error())
				return "not serialisable"
			}
			res.N++
			return "value"
		})
	}
}

// ---------------------------------------------------------------------------

var keywords = []string{"type", "length", "properties", "additionalProperties", "patternProperties", "minProperties", "maxProperties", "required",
	"pattern", "format", "minLength", "maxLength", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf",
	"items", "minItems", "maxItems", "contains", "minContains", "maxContains", "prefixItems", "additionalItems", "unevaluatedItems", "uniqueItems",
	"enum", "const", "not", "allOf", "anyOf", "oneOf", "$ref", "$id", "$defs", "definitions", "if", "then", "else"}

// A schema of keywords that need not fit each other, with values that mostly have the right kind.
func (g *G) soup(depth int) any {
	if g.p(4) {
		return g.jsonValue(1)
	}
	s := S{}
	for n := 1 + g.Intn(4); n > 0; n-- {
		k := pick(g, keywords...)
		if depth <= 0 && g.p(70) {
			k = pick(g, "type", "minimum", "maximum", "const", "enum", "minLength", "required", "$ref", "multipleOf")
		}
		s[k] = g.keywordValue(k, depth-1)
	}
	return s
}

func (g *G) soupList(depth, n int) []any {
	l := []any{}
	for i := 0; i < n; i++ {
		l = append(l, g.soup(depth))
	}
	return l
}

func (g *G) soupMap(depth, n int, names ...string) S {
	m := S{}
	for i := 0; i < n; i++ {
		m[pick(g, names...)] = g.soup(depth)
	}
	return m
}

func (g *G) keywordValue(k string, depth int) any {
	if g.p(3) {
		return g.jsonValue(1)
	}
	types := []any{"string", "integer", "number", "object", "array", "boolean", "null"}
	switch k {
	case "type":
		if g.p(25) {
			l := []any{}
			for i := g.Intn(4); i > 0; i-- {
				l = append(l, pick(g, types...))
			}
			return l
		}
		return pick(g, types...)
	case "properties", "$defs", "definitions":
		return g.soupMap(depth, g.Intn(4), "a", "b", "c", "d/e", "")
	case "patternProperties":
		return g.soupMap(depth, 1+g.Intn(2), "^[a-c]$", "^x", "y$", "(", "", ".*", "[0-9]{3}")
	case "additionalProperties", "additionalItems", "unevaluatedItems":
		if g.p(40) {
			return g.p(50)
		}
		return g.soup(depth)
	case "minProperties", "maxProperties", "minLength", "maxLength", "minItems", "maxItems", "minContains", "maxContains", "length":
		return pick(g, 0, 1, 2, 3, 5, -1, 12)
	case "required":
		l := []any{}
		for i := g.Intn(3); i > 0; i-- {
			l = append(l, pick(g, "a", "b", "c", "z", ""))
		}
		return l
	case "pattern":
		return pick(g, "^[a-b]{2}$", "x*", "(a|b)+", "(", "", "^$", "\\d{4}-\\d", "[^a]", "a{1000}", "\\p{L}", ".")
	case "format":
		return pick(g, "date", "date-time", "uuid", "email", "ipv4", "uri", "regex", "json-pointer", "nonsense", "", "hostname", "duration", "time")
	case "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum":
		return pick[any](g, 0, 1, -1, 10, 0.5, -7.25, json.Number("1e300"), json.Number("-1e308"), json.Number("9007199254740993"))
	case "multipleOf":
		return pick[any](g, 0, 1, 2, 0.1, -1, 3, json.Number("1e300"), json.Number("1e-300"), 7.5)
	case "items":
		if g.p(25) {
			return g.soupList(depth, g.Intn(3))
		}
		if g.p(10) {
			return g.p(50)
		}
		return g.soup(depth)
	case "prefixItems", "allOf", "anyOf", "oneOf":
		return g.soupList(depth, g.Intn(4))
	case "uniqueItems":
		return g.p(70)
	case "enum":
		return g.values(g.Intn(4), 1)
	case "const":
		return g.jsonValue(1)
	case "$ref":
		return pick(g, "#", "#/$defs/a", "#/$defs/b", "#/$defs/c", "#/definitions/a", "#/definitions/b", "#/properties/a", "#/properties/b", "#/items", "#/allOf/0", "#/anyOf/1", "#/oneOf/0", "#/not", "#/if", "#/nope", "", "#a", "x.json", "x.json#/a",
			"http://127.0.0.1:1/x.json", "#/$defs/a/properties/a", "#/$defs/b/anyOf/0", "#/prefixItems/0", "#/%", "##", "a/../b", "#/$defs/a/items")
	case "$id":
		return pick(g, "http://example.com/a.json", "#a", "a", "", "urn:x:y", "#/$defs/a", "%")
	}
	return g.soup(depth)
}

// Definitions that refer to each other and to themselves in all ways.
func (g *G) tangle() S {
	names := []string{"a", "b", "c"}
	defs := S{}
	for _, n := range names {
		s := S{}
		ref := func() any {
			r := S{"$ref": "#/$defs/" + pick(g, names...)}
			switch {
			case g.p(70):
				return r
			case g.p(20):
				return S{"$ref": "#"}
			}
			return S{pick(g, "allOf", "anyOf", "oneOf"): []any{r, g.soup(0)}}
		}
		for k := 1 + g.Intn(3); k > 0; k-- {
			switch g.Intn(13) {
			case 0:
				s["properties"] = S{"p": ref(), "q": ref()}
			case 1:
				s["items"] = ref()
			case 2:
				s["allOf"] = []any{ref(), ref()}
			case 3:
				s["anyOf"] = []any{ref(), S{"type": "null"}}
			case 4:
				s["oneOf"] = []any{ref(), S{"type": "null"}}
			case 5:
				s["not"] = ref()
			case 6:
				s["if"], s["then"], s["else"] = ref(), ref(), ref()
			case 7:
				s["additionalProperties"] = ref()
			case 8:
				s["prefixItems"] = []any{ref(), ref()}
			case 9:
				s["$ref"] = ref().(S)["$ref"]
				if s["$ref"] == nil {
					delete(s, "$ref")
				}
			case 10:
				s["contains"] = ref()
			case 11:
				s["patternProperties"] = S{"^x": ref()}
			case 12:
				s["required"], s["minItems"] = []any{"p"}, 1
			}
		}
		defs[n] = s
	}
	root := g.soup(1)
	m, ok := root.(S)
	if !ok || g.p(60) {
		m = S{}
		m[pick(g, "allOf", "anyOf", "oneOf")] = []any{S{"$ref": "#/$defs/a"}, S{"$ref": "#/$defs/b"}}
		if g.p(50) {
			m = S{"$ref": "#/$defs/a"}
		}
	}
	m["$defs"] = defs
	return m
}

var hugeCount = regexp.MustCompile(`"(min|max)(Items|Contains|Properties|Length)"\s*:\s*(\d{7}|[0-9.]+[eE])`)

// Changes a value somewhere.
func (g *G) mutate(v any) any {
	switch x := v.(type) {
	case map[string]any:
		if len(x) > 0 && g.p(75) {
			out := S{}
			target := pick(g, sortedKeys(x)...)
			for k, e := range x {
				if k == target {
					switch {
					case g.p(8):
						continue
					case g.p(8):
						k = pick(g, keywords...)
					}
					e = g.mutate(e)
				}
				out[k] = e
			}
			if g.p(10) {
				k := pick(g, keywords...)
				out[k] = g.keywordValue(k, 1)
			}
			return out
		}
		switch g.Intn(6) {
		case 0:
			return S{"$ref": pick(g, "#", "#/properties/a", "#/$defs/foo", "#/items")}
		case 1:
			return g.soup(1)
		case 2:
			return S{pick(g, "not", "if", "items", "contains"): x}
		case 3:
			return S{pick(g, "allOf", "anyOf", "oneOf"): []any{x, x}}
		}
		return g.jsonValue(1)
	case []any:
		if len(x) > 0 && g.p(70) {
			out := append([]any{}, x...)
			i := g.Intn(len(out))
			switch {
			case g.p(10):
				return append(out[:i], out[i+1:]...)
			case g.p(10):
				return append(out, out[i])
			}
			out[i] = g.mutate(out[i])
			return out
		}
		return g.jsonValue(1)
	case string:
		return pick[any](g, "", x+x, strings.ToUpper(x), g.jsonValue(0), "string", "object")
	}
	return pick[any](g, nil, true, false, 0, -1, 1, 1.5, json.Number("1e20"), "x", []any{}, S{})
}

func (g *G) garble(b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + g.Intn(3); n > 0 && len(b) > 0; n-- {
		i := g.Intn(len(b))
		switch g.Intn(5) {
		case 0:
			b = b[:i]
		case 1:
			b[i] = byte(g.Intn(256))
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			j := i + g.Intn(min(len(b)-i, 20)+1)
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 4:
			c := pick(g, `"`, `{`, `}`, `[`, `]`, `,`, `:`, `null`, `\u0000`, "\xff", `-`, `e9`)
			b = append(append(append([]byte{}, b[:i]...), c...), b[i:]...)
		}
	}
	return b
}

func init() {
	properties["C18"] = property{cases: func(g *G, tier string) []*Case {
		var cs []*Case
		add := func(kind string, e robustExtra) {
			text := e.Text
			if e.B64 != "" {
				text = string(e.bytes())
			}
			if hugeCount.MatchString(text) {
				return // demands more than fits in memory
			}
			if g.p(15) {
				e.API = pick(g, "string", "file")
			}
			c := &Case{ID: fmt.Sprintf("%s-%d", kind, len(cs)), Kind: "robust", Extra: raw(e)}
			if g.p(10) && e.API != "string" {
				c.Parse = &chaff.ParserOptions{MaxParseDepth: 1 + g.Intn(30)}
			}
			cs = append(cs, c)
		}
		n := scale(tier, 1, 12)
		for i := 0; i < 5000*n; i++ {
			add("soup", robustExtra{Text: string(raw(g.soup(2 + g.Intn(2))))})
		}
		for i := 0; i < 4000*n; i++ {
			add("tangle", robustExtra{Text: string(raw(g.tangle()))})
		}
		for i := 0; i < 5000*n; i++ {
			s, _, _, _, _ := g.anySchema()
			g.factor(s)
			var v any = g.mutate(S(s))
			for g.p(40) {
				v = g.mutate(v)
			}
			add("mutant", robustExtra{Text: string(raw(v))})
		}
		for i := 0; i < 3000*n; i++ {
			s, _, _, _, _ := g.anySchema()
			add("garbled", robustExtra{B64: base64.StdEncoding.EncodeToString(g.garble(raw(s)))})
		}
		for i := 0; i < 200*n; i++ {
			b := make([]byte, g.Intn(40))
			g.Read(b)
			add("bytes", robustExtra{B64: base64.StdEncoding.EncodeToString(b)})
		}
		for _, open := range []string{`{"not":`, `{"items":`, `{"allOf":[`, `{"anyOf":[`, `{"properties":{"a":`, `[`, `{"if":`, `{"type":"array","minItems":1,"items":`, `{"type":"object","required":["a"],"properties":{"a":`} {
			for _, depth := range []int{10, 60, 99, 100, 101, 300, 1000, 20000} {
				for _, inner := range []string{`{}`, `{"type":"null"}`, ``} {
					text := strings.Repeat(open, depth) + inner
					if inner != "" {
						text += strings.Repeat(balanced(open), depth)
					}
					if (open == `{"anyOf":[` || open == `{"allOf":[`) && depth > 300 && tier != "thorough" {
						continue
					}
					add("deep", robustExtra{Text: text})
				}
			}
		}
		return cs
	}}
}

// What closes the brackets a text opens.
func balanced(open string) string {
	stack := []byte{}
	inString := false
	for i := 0; i < len(open); i++ {
		switch c := open[i]; {
		case c == '"':
			inString = !inString
		case inString:
		case c == '{':
			stack = append(stack, '}')
		case c == '[':
			stack = append(stack, ']')
		case c == '}' || c == ']':
			stack = stack[:len(stack)-1]
		}
	}
	out := ""
	for i := len(stack) - 1; i >= 0; i-- {
		out += string(stack[i])
	}
	return out
}
