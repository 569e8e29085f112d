package main

import "encoding/json"

// Cases of the small worlds (spec/Worlds.tla): a schema, a value that satisfies it, and schemas each of
// which has to accept one of the values generated. Whether every generation succeeds depends on draws.
func expandWorld(c *Case) {
	var e struct {
		Schema  string
		Wit     []string
		Covers  []string
		Samples int
		Steps   int // of a generation until it is cut off
	}
	must(json.Unmarshal(c.Extra, &e))
	c.Schema, c.Samples, c.MaxOut, c.MayFail = json.RawMessage(e.Schema), e.Samples, 10, true
	if e.Steps > 0 {
		c.Gen = map[string]any{"CutoffGenerationSteps": e.Steps}
	}
	for _, w := range e.Wit {
		c.Wit = append(c.Wit, json.RawMessage(w))
	}
	for _, s := range e.Covers {
		c.Cover = append(c.Cover, json.RawMessage(s))
	}
}

func init() { expanders["small"] = expandWorld }
