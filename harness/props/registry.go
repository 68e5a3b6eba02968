package props

// H describes one harness function.
type H struct {
	Name  string
	F     func()
	Parts int  // workers of the quick tier
	Deep  int  // workers of the thorough tier (0: as quick)
	Only  bool // thorough tier only
	Race  bool // candidates are confirmed by the race detector
}

// All lists the harnesses; the property is the part of the name before '_'.
var All []H

func reg(h H) bool {
	if h.Parts == 0 {
		h.Parts = 1
	}
	if h.Deep == 0 {
		h.Deep = h.Parts
	}
	All = append(All, h)
	return true
}
