package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
)

// Random schemas together with a value that satisfies them (their witness).
type S = map[string]any

type G struct {
	*rand.Rand
	depth int
	flat  bool // never wrap
}

func pick[T any](g *G, xs ...T) T { return xs[g.Intn(len(xs))] }
func (g *G) p(percent int) bool   { return g.Intn(100) < percent }
func raw(v any) json.RawMessage {
	b, err := json.Marshal(v)
	must(err)
	return b
}

func dec(r *big.Rat) json.Number {
	if r.IsInt() {
		return json.Number(r.Num().String())
	}
	s := r.FloatString(12)
	s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
	return json.Number(s)
}

func ratOf(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("HARNESS: " + s)
	}
	return r
}

// ---------------------------------------------------------------- numbers

func (g *G) numberSchema() (S, any) {
	s := S{}
	typ := pick(g, "number", "number", "integer", "integer", "")
	if typ != "" {
		s["type"] = typ
	}
	integer := typ == "integer"

	// magnitude of the witness and granularity of the constants
	unit := ratOf("1")
	if !integer || g.p(25) {
		unit = ratOf(pick(g, "1", "1", "0.5", "0.1", "0.01", "0.25", "0.001"))
	}
	mag := pick(g, int64(3), 20, 20, 1000, 1000, 1000000, 1000000000)
	if unit.IsInt() && g.p(15) {
		mag = pick(g, int64(1000000000000), 1000000000000000, 4000000000000000)
	}
	k := g.Int63n(mag+1) - mag/2
	if g.p(20) {
		k = pick(g, int64(0), 1, -1)
	}
	wit := new(big.Rat).Mul(new(big.Rat).SetInt64(k), unit)

	if g.p(40) { // multipleOf
		m := ratOf(pick(g, "1", "2", "3", "4", "5", "6", "7", "10", "12", "25", "100", "1000", "65536"))
		if !integer {
			m = ratOf(pick(g, "0.1", "0.01", "0.25", "0.5", "1.5", "2.5", "0.2", "0.3", "0.05", "1", "2", "3", "7", "10", "0.75", "12.5", "100", "0.125", "0.001", "0.0001", "0.00025", "0.0000001", "0.0000003"))
		}
		q := g.Int63n(2000) - 1000
		if g.p(30) {
			q = pick(g, int64(0), 1, -1, 2, 3)
		}
		if m.IsInt() && g.p(15) {
			q = g.Int63n(2000000000) - 1000000000
		}
		wit = new(big.Rat).Mul(m, new(big.Rat).SetInt64(q))
		if most := 100000000000000 / m.Denom().Int64(); !m.IsInt() && mag > min(most, 1000000000) {
			mag = min(most, 1000000000) // multiples have to be exact decimals of doubles
		}
		s["multipleOf"] = dec(m)
	} else if integer && !wit.IsInt() {
		wit = new(big.Rat).SetInt64(k)
	}

	gap := func() *big.Rat {
		n := pick(g, int64(1), 1, 1, 2, 3, 7, 15, 100, 1000, mag)
		return new(big.Rat).Mul(unit, new(big.Rat).SetInt64(n))
	}
	switch g.Intn(5) { // lower
	case 0, 1:
		d := gap()
		if g.p(30) {
			d = new(big.Rat)
		}
		s["minimum"] = dec(new(big.Rat).Sub(wit, d))
	case 2:
		s["exclusiveMinimum"] = dec(new(big.Rat).Sub(wit, gap()))
	case 3:
		if g.p(40) {
			s["minimum"] = dec(new(big.Rat).Sub(wit, gap()))
			s["exclusiveMinimum"] = dec(new(big.Rat).Sub(wit, gap()))
		}
	}
	switch g.Intn(5) { // upper
	case 0, 1:
		d := gap()
		if g.p(30) {
			d = new(big.Rat)
		}
		s["maximum"] = dec(new(big.Rat).Add(wit, d))
	case 2:
		s["exclusiveMaximum"] = dec(new(big.Rat).Add(wit, gap()))
	case 3:
		if g.p(40) {
			s["maximum"] = dec(new(big.Rat).Add(wit, gap()))
			s["exclusiveMaximum"] = dec(new(big.Rat).Add(wit, gap()))
		}
	}
	if typ == "" && len(s) == 0 {
		s["type"] = "number"
	}
	return s, dec(wit)
}

// Bounds that are far away from what fits in 64 bits, or closer together than most decimals.
func (g *G) extremeNumberSchema() (S, any) {
	s := S{"type": pick(g, "number", "integer")}
	f := math.Ldexp(1+float64(g.Intn(1000))/1024, g.Intn(1000))
	if g.p(50) {
		f = math.Ldexp(1, 40+g.Intn(40))
	}
	if s["type"] == "integer" {
		f = math.Ceil(f)
	}
	if g.p(50) {
		f = -f
	}
	if f > 1e300 || f < -1e300 {
		f = math.Copysign(1e300, f)
	}
	lo, hi := f, f
	steps := pick(g, 1, 2, 5, 1000)
	for i := 0; i < steps; i++ {
		lo, hi = math.Nextafter(lo, math.Inf(-1)), math.Nextafter(hi, math.Inf(1))
	}
	if s["type"] == "integer" {
		lo, hi = math.Floor(lo), math.Ceil(hi)
		if lo == f {
			lo--
		}
		if hi == f {
			hi++
		}
	}
	// (Exact, as the shortest decimal of a large float is not the integer it stands for)
	n := func(f float64) json.Number {
		if math.Abs(f) < 1e22 {
			return json.Number(ratInt(f))
		}
		return json.Number(strconv.FormatFloat(f, 'e', -1, 64))
	}
	if g.p(70) {
		s[pick(g, "minimum", "exclusiveMinimum")] = n(lo)
	}
	if g.p(70) {
		s[pick(g, "maximum", "exclusiveMaximum")] = n(hi)
	}
	return s, n(f)
}

// ---------------------------------------------------------------- strings

var stringFormats = []string{"date-time", "time", "date", "duration", "email", "idn-email", "hostname", "idn-hostname",
	"ipv4", "ipv6", "uuid", "uri", "uri-reference", "iri", "iri-reference"}

var formatWitness = map[string]string{
	"date-time": "2020-01-02T03:04:05Z", "time": "03:04:05Z", "date": "2020-01-02", "duration": "P1D", "email": "a@b.co", "idn-email": "a@b.co",
	"hostname": "b.co", "idn-hostname": "b.co", "ipv4": "1.2.3.4", "ipv6": "::1", "uuid": "2eb8aa08-aa98-11ea-b4aa-73b441d16380",
	"uri": "http://b.co/", "uri-reference": "http://b.co/", "iri": "http://b.co/", "iri-reference": "http://b.co/",
}

func (g *G) lengthSchema() (S, any) {
	s := S{}
	if g.p(80) {
		s["type"] = "string"
	}
	n := pick(g, 0, 1, 2, 3, 5, 10, 20, 40, 80, 150, 300)
	if g.p(4) {
		n = 1000 + g.Intn(3000)
	}
	lo := n - pick(g, 0, 0, 1, 2, 5, 20)
	hi := n + pick(g, 0, 0, 1, 2, 5, 20)
	if lo < 0 {
		lo = 0
	}
	switch g.Intn(4) {
	case 0:
		s["minLength"] = lo
	case 1:
		s["maxLength"] = hi
	default:
		s["minLength"], s["maxLength"] = lo, hi
	}
	return s, strings.Repeat("x", n)
}

func (g *G) stringSchema() (S, any) {
	switch g.Intn(7) {
	case 0, 1, 2:
		return g.lengthSchema()
	case 3, 4, 5:
		p, w := g.pattern()
		s := S{"pattern": p}
		if g.p(80) {
			s["type"] = "string"
		}
		return s, w
	default:
		if g.p(15) {
			return S{"type": "string"}, "x"
		}
		f := pick(g, stringFormats...)
		s := S{"format": f}
		if g.p(80) {
			s["type"] = "string"
		}
		return s, formatWitness[f]
	}
}

// A regular expression and a string it matches.
func (g *G) pattern() (string, string) {
	var parts, wits []string
	for i := 0; i < 1+g.Intn(4); i++ {
		p, w := g.regexPiece(2)
		parts, wits = append(parts, p), append(wits, w)
	}
	p, w := strings.Join(parts, ""), strings.Join(wits, "")
	switch g.Intn(5) {
	case 0:
		return p, w
	case 1:
		return "^" + p, w
	case 2:
		return p + "$", w
	}
	return "^" + p + "$", w
}

func (g *G) regexAtom(depth int) (string, string) {
	type pw struct{ p, w string }
	choices := []pw{
		{"a", "a"}, {"b", "b"}, {"xyz", "xyz"}, {"Q", "Q"}, {"7", "7"}, {"_", "_"}, {"-", "-"}, {" ", " "}, {"@", "@"}, {"/", "/"}, {":", ":"},
		{`\.`, "."}, {`\\`, `\`}, {`\+`, "+"}, {`\$`, "$"}, {`\^`, "^"}, {`\(`, "("}, {`\[`, "["}, {`\|`, "|"}, {`\?`, "?"}, {`\*`, "*"},
		{`\d`, "4"}, {`\w`, "w"}, {`\s`, " "}, {`\D`, "x"}, {`\W`, "-"}, {`\S`, "s"}, {".", "d"},
		{"[abc]", "b"}, {"[a-z]", "k"}, {"[A-Z]", "K"}, {"[0-9]", "5"}, {"[a-zA-Z0-9_]", "_"}, {"[a-f0-9]", "c"}, {"[.]", "."}, {"[+.-]", "."},
		{"[^a]", "b"}, {"[^a-z]", "0"}, {"[^0-9]", "x"}, {`[\d]`, "3"}, {`[\w.]`, "."}, {`[^\s]`, "n"}, {`[a\]b]`, "]"}, {`[]a]`, "]"}, {`[é-ü]`, "é"}, {"é", "é"}, {"日本", "日本"},
		{`\t`, "\t"}, {`\x41`, "A"}, {"[[:alpha:]]", "q"},
	}
	if depth > 0 && g.p(30) {
		var alts []string
		wit := ""
		n := 1 + g.Intn(3)
		at := g.Intn(n)
		for i := 0; i < n; i++ {
			p, w := g.regexPiece(depth - 1)
			if g.p(40) {
				p2, w2 := g.regexPiece(depth - 1)
				p, w = p+p2, w+w2
			}
			alts = append(alts, p)
			if i == at {
				wit = w
			}
		}
		return pick(g, "(", "(?:") + strings.Join(alts, "|") + ")", wit
	}
	c := choices[g.Intn(len(choices))]
	return c.p, c.w
}

func (g *G) regexPiece(depth int) (string, string) {
	p, w := g.regexAtom(depth)
	if len([]rune(w)) > 1 && !strings.HasPrefix(p, "(") {
		return p, w // quantifiers bind to the last character
	}
	switch g.Intn(9) {
	case 0:
		return p + "?", pick(g, "", w)
	case 1:
		return p + "*", strings.Repeat(w, g.Intn(3))
	case 2:
		return p + "+", strings.Repeat(w, 1+g.Intn(3))
	case 3:
		n := g.Intn(5)
		return fmt.Sprintf("%s{%d}", p, n), strings.Repeat(w, n)
	case 4:
		n := g.Intn(4)
		m := n + g.Intn(5)
		return fmt.Sprintf("%s{%d,%d}", p, n, m), strings.Repeat(w, n+g.Intn(m-n+1))
	case 5:
		n := g.Intn(4)
		return fmt.Sprintf("%s{%d,}", p, n), strings.Repeat(w, n)
	}
	return p, w
}

// ---------------------------------------------------------------- wrapping

// Puts a schema into a place of a larger one, the guarantees of the schema have to hold there all the same.
func (g *G) wrap(s S, w any) (S, any) {
	if g.flat {
		return s, w
	}
	n := pick(g, 0, 0, 0, 1, 1, 2)
	for i := 0; i < n; i++ {
		switch g.Intn(9) {
		case 0:
			s, w = S{"type": "object", "properties": S{"a": s}, "required": []any{"a"}}, S{"a": w}
		case 1:
			s, w = S{"type": "object", "properties": S{"a": s, "b": S{"type": "boolean"}}}, S{"a": w}
		case 2:
			s, w = S{"type": "array", "items": s, "minItems": 1 + g.Intn(2), "maxItems": 2 + g.Intn(4)}, []any{w, w}
		case 3:
			s, w = S{"type": "array", "prefixItems": []any{s, S{"type": "null"}}, "items": false}, []any{w, nil}
		case 4:
			s, w = S{"type": "object", "additionalProperties": s, "minProperties": 1}, S{"x": w}
		case 5:
			s, w = S{"type": "object", "patternProperties": S{"^p[0-9]$": s}, "minProperties": 1}, S{"p1": w}
		case 6:
			s, w = S{"anyOf": []any{s, S{"const": nil}}}, w
		case 7:
			s, w = S{"allOf": []any{s}}, w
		case 8:
			if i == n-1 { // definitions live in the root
				s, w = S{"$ref": "#/$defs/it", "$defs": S{"it": s}}, w
			}
		}
	}
	return s, w
}

func one(id string, s S, samples int, wit ...any) *Case {
	c := &Case{ID: id, Schema: raw(s), Samples: samples}
	for _, w := range wit {
		c.Wit = append(c.Wit, raw(w))
	}
	return c
}

func ratInt(f float64) string {
	return dec(new(big.Rat).SetFloat64(f)).String()
}
