package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// parseMetrics reads the text format of Prometheus: name -> labels -> value
func parseMetrics(body string) map[string]map[string]float64 {
	out := map[string]map[string]float64{}
	for _, l := range strings.Split(body, "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		i := strings.LastIndex(l, " ")
		if i < 0 {
			continue
		}
		v, err := strconv.ParseFloat(l[i+1:], 64)
		if err != nil {
			continue
		}
		name, labels := l[:i], ""
		if j := strings.Index(name, "{"); j >= 0 {
			name, labels = name[:j], strings.Trim(name[j:], "{}")
		}
		if out[name] == nil {
			out[name] = map[string]float64{}
		}
		out[name][labels] = v
	}
	return out
}

// checkMetrics compares the metrics with the attempts and results of this run before the round
func (s *scen) checkMetrics(round int, list []byte) {
	prev := s.result(round - 1)
	if prev == nil || round == 1 {
		return
	}
	r, err := s.get("/metrics")
	if s.isStopped() {
		return
	}
	if err != nil || r.code != 200 {
		s.fail("metrics endpoint", "metrics", "O07")
		return
	}
	m := parseMetrics(string(r.body))
	// attempts of this round, other than the one that waits, may be over already
	next := s.result(round)
	among := func(name, labels string, want, then float64) {
		got := m[name][labels]
		if next == nil && (got > want || name == "rrdp_serial" && got > 0) {
			return
		}
		if got < want && got < then || got > want && got > then {
			s.fail(fmt.Sprintf("metrics: %s{%s} is %v instead of %v to %v in round %d", name, labels, got, want, then, round), "metrics "+name, "O07")
		}
	}
	is := func(name, labels string, want float64) {
		if got := m[name][labels]; got != want {
			s.fail(fmt.Sprintf("metrics: %s{%s} is %v instead of %v before round %d", name, labels, got, want, round), "metrics "+name, "O07")
		}
	}
	then := prev.Met
	if next != nil {
		then = next.Met
	}
	for i := range s.parent {
		u := s.notif(i + 1)
		if s.ann[i] {
			among("rrdp_errors", fmt.Sprintf("address=%q", u), prev.Met.Rrdp[i], then.Rrdp[i])
			among("rrdp_serial", fmt.Sprintf("address=%q", u), prev.Met.Serial[i], then.Serial[i])
		}
		among("rsync_errors", fmt.Sprintf("address=%q", moduleOf(i+1)), prev.Met.Rsync[i], then.Rsync[i])
	}
	for t := range s.b.Uris {
		among("rsync_errors", fmt.Sprintf("address=%q", taRsync(t+1)), prev.Met.Ta[t], then.Ta[t])
		if len(prev.Maybe) == 0 {
			is("roas", fmt.Sprintf("ta=%q", talName(t+1)), float64(s.count(prev.List, t+1)))
			if s.dup && t == 0 {
				is("roas", fmt.Sprintf("ta=%q", dupName), float64(s.count(prev.List, 1)))
			}
		}
	}
	// whatever was accepted: both tell of the same validation
	for ta, n := range s.told {
		is("roas", fmt.Sprintf("ta=%q", ta), float64(n))
	}
	before := false
	for _, x := range s.b.Results {
		before = before || x.Run == s.run && x.Round < round && x.Cycleend
	}
	is("state", "", prev.Met.State)
	last := m["last_validation"][""]
	if list != nil {
		var doc struct {
			Metadata struct{ Generated float64 }
		}
		if json.Unmarshal(list, &doc) == nil && doc.Metadata.Generated != last {
			s.fail(fmt.Sprintf("metrics: last_validation is %v, the list is of %v", last, doc.Metadata.Generated), "metrics last_validation", "O07")
		}
	}
	switch stable := m["last_stable_validation"][""]; {
	case !before && stable > 0:
		s.fail("metrics: last_stable_validation is set before any stable round", "metrics last_stable", "O07")
	case prev.Met.State == 1 && stable != last:
		s.fail(fmt.Sprintf("metrics: last_stable_validation is %v after the stable round of %v", stable, last), "metrics last_stable", "O07")
	}
	s.stats["metrics"]++
}
