package main

import (
	"runtime/debug"

	"pgregory.net/rapid"
)

var c01Kinds = expand([]weighted{{"put", 10}, {"embed", 8}, {"get", 5}, {"del", 5}, {"pwo", 4}, {"delr", 2}, {"check", 2}, {"gsz", 2}, {"gwo", 2},
	{"list", 1}, {"sync", 2}, {"flush", 1}, {"side", 3}, {"gc", 2}, {"autogc", 1}, {"rerec", 1}, {"usage", 1}, {"jsnap", 1}, {"snapc", 1}, {"snapd", 1}})

func runOps(w *World, ops []Op) error {
	for i, op := range ops {
		if err := w.Step(op); err != nil {
			if v, ok := err.(*Violation); ok {
				v.Msg = v.Msg + " [at operation " + itoa(i) + "]"
			}
			return err
		}
	}
	return nil
}

func init() {
	register(&PBT[OpsCase]{
		Id: "C01",
		RuleText: "rapid draws a geometry (2-40 journal sectors, 1-80 data blocks), a small id set and up to 120 operations (puts of aligned and misaligned buffers, embedded puts, offset puts, " +
			"deletes, range deletes, reads, sizes, syncs, side jobs, GC, record rewrites, snapshots; one case in 60 has a journal of up to 1500 sectors and tens of thousands of small operations, one in 200 has objects of up to 65535 blocks, the largest possible, one in 50 has a sparse store of up to 2 TB with blocks in use at both ends and around powers of two); every answer is compared with an in-memory map and the whole store is compared at the end. " +
			"Non-trivial: the history overwrites or deletes at least one object and checks at least one object that survived.",
		Gen: func(t *rapid.T, tier string) OpsCase {
			n := 120
			if tier == "thorough" {
				n = 300
			}
			if rare(t, 60) {
				return genBulk(t, c01Kinds, 30, 1500, 12000, 12000)
			}
			if rare(t, 200) {
				return genHuge(t, c01Kinds)
			}
			if rare(t, 50) {
				return genFar(t, c01Kinds, 60)
			}
			return genOps(t, c01Kinds, 40, 80, n)
		},
		Exec: func(r *Run, c OpsCase) error {
			w, err := newWorld(r, c.G, "s.lusf")
			if err != nil {
				return err
			}
			if c.G.D > 10000 && c.G.Place == nil {
				r.Label("huge-objects")
				defer debug.FreeOSMemory()
			}
			if err := runOps(w, c.Ops); err != nil {
				return err
			}
			if err := w.checkAll(); err != nil {
				return err
			}
			if (r.labels["overwrite"] > 0 || r.labels["delete"] > 0) && len(w.Model) > 0 {
				r.NonTrivial()
			}
			r.Count("operations", int64(len(c.Ops)))
			r.Count("objects_compared", int64(len(w.Model)))
			w.Close()
			return nil
		},
		Quick:    Budget{Cases: 5000, Seconds: 40},
		Thorough: Budget{Cases: 60000, Seconds: 600},
	})
}
