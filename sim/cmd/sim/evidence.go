package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"

	"egtsverif/world"
)

func writeEvidence(path, prop, tier string, seed uint64, st *stats, searchS, built float64, procs, violations int, known map[string]string, final *report) {
	faults := map[string]int64{}
	other := map[string]int64{}
	for k, v := range st.faults {
		if f, ok := strings.CutPrefix(k, "fault."); ok {
			faults[f] = v
		} else {
			other[k] = v
		}
	}
	cov := map[string]interface{}{
		"evaluations":            st.runs,
		"distinct_nontrivial":    len(st.traces),
		"rule":                   "One evaluation is one simulated run, a pure function of its seed: the plan (terminals, packets, store behaviour, faults) and every scheduling, delay and fragmentation choice are drawn from it. A run is non-trivial when the code under test did the work the property speaks of (" + world.NontrivialRule(prop) + "); runs are distinct when the hash of their full event trace (every delivery, read, write, save, fault, with simulated time and content hash) differs.",
		"samples":                st.samples,
		"runs_per_hour":          int64(float64(st.runs) / searchS * 3600),
		"seeds":                  st.runs,
		"search_s":               searchS,
		"build_s":                built,
		"worker_processes":       procs,
		"simulated_s":            float64(st.simTime) / 1e9,
		"faults_injected":        faults,
		"other_counts":           other,
		"reached":                st.probes,
		"distinct_interleavings": len(st.ilv),
		"interleaving_measure":   "hash of the sequence (operation kind, task) of all scheduling decisions of a run",
		"scheduling_steps":       st.steps,
		"statements_executed":    st.yields,
		"preemptions":            st.preempts,
		"fragmented_reads":       st.frs,
		"runs_over_step_limit":   st.overruns,
		"real_components":        world.RealComponents(prop),
		"stubbed_components":     world.StubComponents(prop),
	}
	if len(known) > 0 {
		cov["known_findings_seen"] = known
	}
	if final != nil {
		cov["violation"] = map[string]interface{}{"class": final.Viol.Class, "message": final.Viol.Msg, "seed": final.Seed}
	}
	ev := map[string]interface{}{
		"property":    prop,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": world.Assumptions(prop),
		"wall_s":      searchS + built,
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
}
