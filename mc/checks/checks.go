// Package checks holds one model-checking check per property.
package checks

import (
	"sort"

	"verif/mc/engine"
)

// Check decides one property.
type Check struct {
	ID          string
	Title       string
	Level       string
	Rule        string
	Assumptions []string
	Scenarios   func(tier string) []engine.Scenario
}

// FirstCalls runs two operations of C27 as the first calls of the process. It
// is set in builds for the controlled scheduler.
var FirstCalls func(spec string) int

var registry = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "model_checking"
	}
	registry[c.ID] = c
}

// Get returns the check for a property id.
func Get(id string) *Check { return registry[id] }

// All returns all checks in order.
func All() []*Check {
	var out []*Check
	for _, c := range registry {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func sel[T any](tier string, quick, thorough T) T {
	if tier == "thorough" {
		return thorough
	}
	return quick
}
