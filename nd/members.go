package nd

import (
	"encoding/json"
	"sort"
	"strings"
)

// Misspelt gives a member name of the JSON document which differs from one of
// the known names (separated by blanks) in its letter case only, if any.
func Misspelt(doc []byte, known string) string {
	var v any
	if json.Unmarshal(doc, &v) != nil {
		return "document"
	}
	return misspelt(v, strings.Fields(known))
}

func misspelt(v any, known []string) string {
	switch x := v.(type) {
	case map[string]any:
		var names []string
		for k := range x {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if OtherCase(k, known) {
				return k
			}
		}
		for _, k := range names {
			if m := misspelt(x[k], known); m != "" {
				return m
			}
		}
	case []any:
		for _, e := range x {
			if m := misspelt(e, known); m != "" {
				return m
			}
		}
	}
	return ""
}

// OtherCase tells whether name is a known name in other letters.
func OtherCase(name string, known []string) bool {
	other := false
	for _, k := range known {
		if k == name {
			return false
		}
		other = other || strings.EqualFold(k, name)
	}
	return other
}
