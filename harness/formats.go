package main

import (
	"fmt"
	"regexp"

	jsv "github.com/santhosh-tekuri/jsonschema/v6"
)

// Texts around the edges of every format. Which of them are of a format is what the encoder says they are.
var formatTexts = map[string][]string{
	"date-time":             {"2020-02-29T23:59:59Z", "2019-02-29T00:00:00Z", "2020-01-01t00:00:00z", "2020-01-01T00:00:00+01:30", "2020-01-01T24:00:00Z", "2020-01-01T00:60:00Z", "2020-01-01 00:00:00Z", "2020-01-01T00:00:00", "1998-12-31T23:59:60Z", "1998-12-31T22:59:60Z", "1998-12-31T15:59:60.123-08:00", "2020-13-01T00:00:00Z", "2020-01-01T00:00:00.1Z", "2020-01-01T00:00:00.Z", "x"},
	"date":                  {"2020-02-29", "2021-02-29", "2020-00-10", "2020-1-01", "2020-12-31", "2020-04-31", "20200101", ""},
	"time":                  {"00:00:00Z", "23:59:59Z", "24:00:00Z", "12:60:00Z", "12:00:61Z", "12:00:00", "12:00:00+23:59", "12:00:00+24:00", "12:00:00-00:60", "23:59:60Z", "22:59:60Z", "01:29:60+01:30", "12:00:00.52Z", "12:00:00.Z", "1:00:00Z", "12-00-00Z"},
	"duration":              {"P4DT12H30M5S", "PT1D", "P", "PT", "P1Y", "P1Y2W", "P2W", "P1M1Y", "PT0S", "PT36H", "P1DT", "4D", "P1", "P2D1Y", "PT1M1H"},
	"hostname":              {"example.com", "a", "-a.com", "a-.com", "a..b", "a_b.com", "xn--nxasmq6b", "a.", "1.2.3", "ex ample.com", "abcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabc.x", "abcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcd.x"},
	"email":                 {"joe@example.com", "joe", "joe@", "a@b@c.com", "\"joe bloggs\"@example.com", "joe@[127.0.0.1]", "joe@[1.2.3]", "joe@[IPv6:::1]", "joe@-x.com", "jo..e@example.com", ".joe@example.com"},
	"ipv4":                  {"127.0.0.1", "256.0.0.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "0.0.0.0", "1.2.3.a", "1.2.3.", "255.255.255.255"},
	"ipv6":                  {"::1", "::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "12345::", "::ffff:1.2.3.4", "1::2::3", "fe80::1%eth0", "127.0.0.1", ":1"},
	"uri":                   {"http://example.com/a?b#c", "http://[::1]/x", "http://[::1/x", "http://[:::]/", "//example.com", "a:b", "/abc", "http:// x.com", "\\\\x", "mailto:a@b.c", ":a", "http://a b"},
	"uri-reference":         {"http://example.com", "/abc", "#frag", "", "\\\\x\\y", "http://[::1]/x", "a b", "#a\\b"},
	"uri-template":          {"http://example.com/{a}", "http://example.com/{a", "a}", "/{a}/{b}", "x"},
	"json-pointer":          {"", "/", "/a/b", "a", "/a~0b~1", "/a~2", "/a~", "#/a", "//"},
	"relative-json-pointer": {"0", "1/a", "0#", "01", "-1", "/a", "2/~1", "0##", "10/a~", ""},
	"uuid":                  {"2eb8aa08-aa98-11ea-b4aa-73b441d16380", "2EB8AA08-AA98-11EA-B4AA-73B441D16380", "2eb8aa08-aa98-11ea-b4aa-73b441d1638", "2eb8aa08aa9811eab4aa73b441d16380", "2eb8aa08-aa98-11ea-b4aa-73b441d1638g", "2eb8-aa08-aa98-11ea-b4aa73b44-1d16380"},
	"regex":                 {"a+", "(", "[a-z]", "[", "a**", "\\d", "^$"},
}

func ofFormat(f, text string) (is, known bool) {
	c := jsv.NewCompiler()
	c.AssertFormat()
	c.AddResource("urn:f", map[string]any{"format": f})
	c.AddResource("urn:no", map[string]any{"format": f, "type": "number"})
	sch, err := c.Compile("urn:f")
	if err != nil {
		return false, false
	}
	return sch.Validate(text) == nil, true
}

// Negations of formats next to a pattern or literal that leaves one text.
func formatCases(prefix string) []*Case {
	var cs []*Case
	for _, f := range sortedKeys(formatTexts) {
		for i, text := range formatTexts[f] {
			is, _ := ofFormat(f, text)
			n := 0
			add := func(s S) {
				c := one(fmt.Sprintf("%s-%s-%d-%d", prefix, f, i, n), s, 6, text)
				c.MayFail = is
				cs = append(cs, c)
				n++
			}
			if _, err := regexp.Compile(text); text != "" && err == nil {
				add(S{"type": "string", "pattern": "^" + regexp.QuoteMeta(text) + "$", "not": S{"format": f}})
			}
			add(S{"type": "string", "enum": []any{text}, "not": S{"format": f}})
			other := S{"type": "string", "not": S{"format": f}}
			if is {
				other = S{"type": "string", "format": f}
			}
			add(S{"enum": []any{text, 5}, "oneOf": []any{S{"type": "integer"}, other}})
			cs[len(cs)-1].MayFail = false
			cs[len(cs)-1].Cover = append(cs[len(cs)-1].Cover, raw(S{"type": "string"}))
		}
	}
	return cs
}

// Formats no two of which share a text.
var disjointFormats = []string{"date", "time", "date-time", "email", "ipv4", "ipv6", "uuid", "uri", "duration"}

func formatPairs(prefix string, build func(a, b, textA, textB string) (S, []any, []any)) []*Case {
	var cs []*Case
	for _, a := range disjointFormats {
		for _, b := range disjointFormats {
			if a == b {
				continue
			}
			s, wits, covers := build(a, b, formatTexts[a][0], formatTexts[b][0])
			c := one(prefix+"-"+a+"-"+b, s, 30, wits...)
			for _, x := range covers {
				c.Cover = append(c.Cover, raw(x))
			}
			cs = append(cs, c)
		}
	}
	return cs
}

func alternativeFormats(a, b, x, y string) (S, []any, []any) {
	alternatives := []any{S{"type": "string", "format": a}, S{"type": "string", "format": b}}
	return S{"oneOf": alternatives}, []any{x, y}, alternatives
}

func conditionalFormats(a, b, x, y string) (S, []any, []any) {
	f := func(f string) S { return S{"type": "string", "format": f} }
	at := func(f string) S { return S{"properties": S{"a": S{"format": f}}} }
	is := func(n int) S { return S{"properties": S{"n": S{"const": n}}, "required": []any{"n"}} }
	return S{"type": "object", "properties": S{"a": S{"anyOf": []any{f(a), f(b)}}}, "required": []any{"a"}, "if": at(a), "then": is(1), "else": is(2)},
		[]any{S{"a": x, "n": 1}, S{"a": y, "n": 2}}, []any{at(a), at(b)}
}
