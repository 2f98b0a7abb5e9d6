package rpki

import (
	"fmt"
	"sort"
)

// NotW gives the reasons that are properties
func NotW(rs []string) (ps []string) {
	for _, r := range rs {
		if r != "W" {
			ps = append(ps, r)
		}
	}
	sort.Strings(ps)
	return
}

// SoundProps gives the properties to blame when something sound is dropped
func SoundProps(w *World) []string {
	ps := []string{"V06"}
	if len(w.Fp) == 1 && w.Fp[0] != "V06" {
		ps = append(ps, w.Fp[0])
	}
	return ps
}

// JudgeVRPs compares the VRPs of a run (by origin AS, the first of the world being base) with the world
func JudgeVRPs(w *World, b *Built, base int64, got map[int64]map[VRP]int, bad func(what string, props ...string)) {
	soundProps := SoundProps(w)
	known := map[int64]bool{}
	for r, why := range w.Roas {
		asn := base + RoaIndex(r)
		known[asn] = true
		ps := NotW(why)
		if len(ps) > 0 && len(got[asn]) > 0 {
			bad(fmt.Sprintf("ROA %s must not be used but is", r), ps...)
			continue
		}
		if len(why) == 0 && len(got[asn]) == 0 {
			bad(fmt.Sprintf("sound ROA %s is not used", r), soundProps...)
			continue
		}
		if len(got[asn]) > 0 {
			want := map[VRP]bool{}
			for _, x := range b.Vrps[r] {
				want[x] = true
				if got[asn][x] == 0 {
					bad(fmt.Sprintf("VRP %v of ROA %s is missing", x, r), append([]string{"V07"}, soundProps...)...)
				}
			}
			for x := range got[asn] {
				if !want[x] {
					p := "V07"
					for _, f := range w.Faults {
						if f[0] == r && f[1] == "entryout" {
							p = "V04"
						}
					}
					bad(fmt.Sprintf("VRP %v is not stated by ROA %s (or not covered)", x, r), p)
				}
			}
		}
	}
	for asn, m := range got {
		if !known[asn] {
			p := b.Extra[asn]
			if p == "ok" {
				continue
			}
			if p == "" {
				p = "V07"
			}
			bad(fmt.Sprintf("VRPs %v from an object that must not be used", m), p)
		}
	}
}
