package nd

import "strings"

// Rows are the lines of a text which hold ": ", without the blanks before them.
func Rows(text string) []string {
	var rows []string
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimLeft(l, "\t ")
		if strings.Contains(l, ": ") {
			rows = append(rows, l)
		}
	}
	return rows
}

// Labels are the lines of a text up to the first ": ", if any.
func Labels(text string) []string {
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		lines[i], _, _ = strings.Cut(l, ": ")
	}
	return lines
}
