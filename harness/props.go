package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

func scale(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// Cases with several witnesses, and schemas that have to accept one of the values each.
func combined(g *G, tier, name string, quick, samples int, cover, mayFail bool, gen func() (S, []any, []any)) []*Case {
	var cs []*Case
	for i := 0; i < scale(tier, quick, quick*12); i++ {
		s, wits, cov := gen()
		c := one(fmt.Sprintf("%s-%d", name, i), s, samples, wits...)
		for _, x := range cov {
			if cover {
				c.Cover = append(c.Cover, raw(x))
			}
		}
		c.MayFail = mayFail
		if !hasRef(s) && g.p(30) {
			w := any(nil)
			s, w = g.wrap(s, wits[0])
			c = one(c.ID, s, samples, w)
			c.MayFail = false
			if mayFail {
				continue
			}
		}
		cs = append(cs, c)
	}
	return cs
}

func hasRef(s any) bool {
	return strings.Contains(string(raw(s)), "$ref")
}

// n random cases of a generator, wrapped into other schemas.
func random(g *G, tier, name string, quick, samples int, gen func() (S, any), opts bool) []*Case {
	var cs []*Case
	for i := 0; i < scale(tier, quick, quick*12); i++ {
		s, w := gen()
		if s["$defs"] == nil {
			s, w = g.wrap(s, w)
		}
		c := one(fmt.Sprintf("%s-%d", name, i), s, samples, w)
		if opts && g.p(60) {
			c.Gen = g.options()
		}
		cs = append(cs, c)
	}
	return cs
}

func init() {
	properties["C01"] = property{cases: func(g *G, tier string) []*Case {
		return g.factorSome(append(random(g, tier, "num", 1500, 200, g.numberSchema, false),
			random(g, tier, "xnum", 150, 200, g.extremeNumberSchema, false)...), 15)
	}}
	properties["C02"] = property{cases: func(g *G, tier string) []*Case {
		return g.factorSome(random(g, tier, "str", 1500, 100, g.stringSchema, false), 25)
	}}
	properties["C03"] = property{cases: func(g *G, tier string) []*Case {
		return g.factorSome(random(g, tier, "obj", 2500, 80, func() (S, any) { return g.objectSchema(g.Intn(3)) }, true), 25)
	}}
	properties["C04"] = property{cases: func(g *G, tier string) []*Case {
		return g.factorSome(random(g, tier, "arr", 2500, 80, func() (S, any) { return g.arraySchema(g.Intn(3)) }, true), 25)
	}}
	properties["C05"] = property{cases: func(g *G, tier string) []*Case {
		return g.factorSome(append(append(random(g, tier, "enum", 500, 80, g.enumSchema, true), random(g, tier, "const", 300, 30, g.constSchema, true)...),
			random(g, tier, "types", 800, 80, g.multiTypeSchema, true)...), 25)
	}}
	properties["C06"] = property{cases: func(g *G, tier string) []*Case {
		cs := combined(g, tier, "any", 1200, 120, true, false, g.anyOfSchema)
		cs = append(cs, combined(g, tier, "one", 1200, 120, true, false, g.oneOfSchema)...)
		cs = append(cs, formatPairs("formats", alternativeFormats)...)
		return g.factorSome(append(cs, combined(g, tier, "overlap", 200, 200, true, true, g.overlapSchema)...), 25)
	}}
	properties["C07"] = property{cases: func(g *G, tier string) []*Case {
		return g.factorSome(random(g, tier, "all", 2500, 80, g.allOfSchema, false), 25)
	}}
	properties["C08"] = property{cases: func(g *G, tier string) []*Case {
		return g.factorSome(append(combined(g, tier, "if", 1500, 120, true, false, g.ifSchema), formatPairs("formats", conditionalFormats)...), 25)
	}}
	properties["C09"] = property{cases: func(g *G, tier string) []*Case {
		cs := append(g.factorSome(random(g, tier, "not", 2000, 100, g.notSchema, false), 25), formatCases("format")...)
		for _, c := range cs { // a random fraction is an integer with a probability of 2^-50, but not with the extremes
			c.NoEdge = strings.Contains(string(c.Schema), `"integer"`)
		}
		return cs
	}}
	properties["C10"] = property{cases: func(g *G, tier string) []*Case {
		var cs []*Case
		for len(cs) < scale(tier, 2000, 24000) {
			s, w, cover, noEdge, ok := g.factoredSchema()
			if !ok {
				continue
			}
			c := one(fmt.Sprintf("factored-%d", len(cs)), s, 100, w)
			c.NoEdge = noEdge
			for _, x := range cover {
				c.Cover = append(c.Cover, raw(x))
			}
			cs = append(cs, c)
		}
		return cs
	}}
	properties["C11"] = property{cases: func(g *G, tier string) []*Case {
		var cs []*Case
		for len(cs) < scale(tier, 1500, 20000) {
			s, w, cover, noEdge, _ := g.anySchema()
			c := g.spread(fmt.Sprintf("spread-%d", len(cs)), s)
			if c == nil {
				continue
			}
			c.NoEdge = noEdge
			c.Wit = []json.RawMessage{raw(w)}
			for _, x := range cover {
				c.Cover = append(c.Cover, raw(x))
			}
			cs = append(cs, c)
		}
		return cs
	}}
}
