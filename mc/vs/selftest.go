package zzvs

// Outcomes explores a scenario in this process, within the bound, and counts the outcomes (for the
// engine's own tests).
func Outcomes(sc *Scenario, bound int) (map[string]int, int) {
	ex := &Explorer{racy: map[int32]bool{}, local: map[uint64]bool{}}
	out := map[string]int{}
	n := 0
	level := [][]Dev{nil}
	for d := 0; d <= bound && len(level) > 0; d++ {
		var next [][]Dev
		for _, nd := range level {
			w := ex.run(sc, nd, false, true)
			n++
			if len(w.Races) > 0 {
				out["race"]++
			}
			switch w.reason {
			case "pruned":
			case "quiescent":
				o := w.Outcome
				if w.Crash != "" {
					o = "crash " + w.Crash
				}
				out[o]++
			default:
				out[w.reason]++
			}
			base := int32(0)
			if k := len(nd); k > 0 {
				base = nd[k-1].Pos + 1
			}
			for p, k := range w.nalts {
				for a := int32(1); a < k; a++ {
					next = append(next, append(append([]Dev(nil), nd...), Dev{base + int32(p), a}))
				}
			}
		}
		level = next
	}
	return out, n
}
