package main

import (
	"os"
	"strings"
)

// knownFinding is one line of the committed list:
//
//	finding: property=<id> harness=<name> message="<assertion>" <what fails>
type knownFinding struct {
	prop, harness, msg, text string
	hit                      bool
}

func readKnown(file string) []*knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []*knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		k := &knownFinding{}
		k.prop, rest, _ = strings.Cut(rest, " harness=")
		k.harness, rest, _ = strings.Cut(rest, " message=\"")
		k.msg, k.text, ok = strings.Cut(rest, "\" ")
		if ok && k.msg != "" {
			out = append(out, k)
		}
	}
	return out
}

func matchKnown(ks []*knownFinding, prop, harness, msg string) *knownFinding {
	for _, k := range ks {
		if k.prop == prop && k.harness == harness && k.msg == msg {
			return k
		}
	}
	return nil
}
