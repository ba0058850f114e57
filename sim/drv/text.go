package main

import "strings"

// shrinkText proposes versions of a text with lines removed.
func shrinkText(c *Case, ti int) (out []*Case) {
	l := strings.SplitAfter(c.Text[ti], "\n")
	for n := len(l) / 2; n >= 1; n /= 2 {
		for i := 0; i < len(l); i += n {
			if len(out) > 16 && len(out)*len(c.Text[ti]) > 1<<26 {
				// A huge text: the large pieces first.
				return out
			}
			q := c.clone()
			q.Text[ti] = strings.Join(l[:i], "") + strings.Join(l[min(i+n, len(l)):], "")
			out = append(out, q)
		}
	}
	return out
}
