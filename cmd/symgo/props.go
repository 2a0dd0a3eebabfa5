package main

import "time"

// H is one harness of a property.
type H struct {
	Name         string
	Reach        []string // vacuity witnesses which must be reached ("end" when nil)
	Quick        int      // seconds
	Thorough     int      // seconds
	ThoroughOnly bool
	MaxValues    int
	EnumBits     int
}

func (h H) budget(tier int) time.Duration {
	s := h.Quick
	if s == 0 {
		s = 60
	}
	if tier > 0 {
		s = h.Thorough
		if s == 0 {
			s = 400
		}
	}
	return time.Duration(s) * time.Second
}

func (h H) witnesses() []string {
	if h.Reach == nil {
		return []string{"end"}
	}
	return h.Reach
}

// Prop is a property and the harnesses which decide it.
type Prop struct {
	ID       string
	Hs       []H
	Quick    string // bounds of the quick check
	Thorough string // bounds of the thorough check
	Outside  string // what the claim does not cover
	Assume   []string
}

func (p *Prop) bounds(tier int) string {
	if tier > 0 && p.Thorough != "" {
		return p.Thorough
	}
	return p.Quick
}

func findProp(id string) *Prop {
	for i := range props {
		if props[i].ID == id {
			return &props[i]
		}
	}
	return nil
}

func findH(name string) H {
	for _, p := range props {
		for _, h := range p.Hs {
			if h.Name == name {
				return h
			}
		}
	}
	return H{Name: name, Reach: []string{}}
}

var commonAssumptions = []string{
	"the SSA form built by golang.org/x/tools/go/ssa from the working tree is the program; the engine's transfer functions and the models of the library functions listed under library_models are trusted, and sampled paths are validated against the compiled code",
	"logging is discarded; memory allocation does not fail; time zone UTC",
	"solver verdicts of z3 (z3-new) and, where z3 gives none, cvc5 are trusted",
}
