// Package core checks the directive controller (C01..C10).
package core

import (
	"os"
	"strings"
	"testing"

	"verifharness/eng"
	"verifharness/h"
)

// sigs lists the monitor signatures deciding each property.
var sigs = map[string]string{
	"C01": "dedup listing add-directive wrong-instance lifetime disposed-live offer-twice offers dispose-once dispose-removed",
	"C02": "view replay dup-added order-added removed-unknown value-id add-accept remove-found remove-twice clear count wrong-instance after-dispose nil-ref order",
	"C03": "lifetime close-if listing disposed-live leak-directive leak late-ref nil-ref dispose-once dispose-removed",
	"C04": "released-told dispose-once dispose-removed disposed-live disposed-twice disposed-before-removed disposed-ctx after-dispose after-release callback-once callback-early cb-twice idle-after-release late-ref removed-running removed-restarted leak-resolver leak lifetime listing nil-release",
	"C05": "hard-cap add-accept res-stopped res-running executions refill idle-state idle-initial count",
	"C06": "idle-state idle-initial idle-repeat idle-errs idle-nil-err idle-after-release errors order",
	"C07": "offers offer-twice offer-nil offer-removed add-handler executions res-running removed-running removed-restarted view callback-once disposed-live",
	"C08": "released-told serial overlap stale-add stale-child executions removed-running removed-restarted res-running res-stopped callback-once callback-early cb-twice add-accept nil-release view leak-resolver remove-found",
	"C09": "serial order order-added dup-added removed-unknown view dispose-once disposed-before-removed after-dispose callback-once callback-early cb-twice idle-repeat idle-state offers add-directive add-handler leak leak-directive listing",
	"C10": "serial leak leak-directive leak-resolver overlap dup-added removed-unknown disposed-twice dispose-once offer-twice listing dedup cb-twice",
}

var generic = "deadlock stuck-or-leak livelock panic fault"

func TestCheck(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	rep := map[string]bool{}
	for _, s := range strings.Fields(sigs[prop] + " " + generic) {
		rep[s] = true
	}
	all := prop == "" || os.Getenv("VERIF_ALLSIGS") != ""
	world := func(c *h.C) *eng.World {
		w := eng.NewWorld(c)
		if !all {
			w.Report = func(s string) bool { return rep[s] }
		}
		return w
	}
	seq := func(name string, q int, fn func(c *h.C) eng.Prof) h.Scenario {
		return h.Scenario{Name: name, Quick: q * 2, Thorough: q * 40, Fn: func(c *h.C) {
			w := world(c)
			eng.NewSeq(w, fn(c)).Run()
		}}
	}
	conc := func(name string, q int, fn func(c *h.C) eng.CProf) h.Scenario {
		return h.Scenario{Name: name, Quick: q * 2, Thorough: q * 40, Fn: func(c *h.C) {
			w := world(c)
			eng.NewConc(w, fn(c)).Run()
		}}
	}
	par := func(name string, q int, fn func(c *h.C) eng.CProf) h.Scenario {
		return h.Scenario{Name: name, Quick: q * 2, Thorough: q * 40, Parallel: true, Fn: func(c *h.C) {
			w := world(c)
			p := fn(c)
			p.Parallel = true
			eng.NewConc(w, p).Run()
		}}
	}
	base := func(c *h.C) eng.Prof {
		return eng.Prof{Steps: 60, Sup: true, Grace: true, MaxVals: true, MaxInst: 5, MaxHnd: 4, MaxResPer: 3, Panics: c.P(20), Weights: map[string]int{"child": 4, "stalechild": 1}}
	}
	cbase := func(c *h.C) eng.CProf {
		return eng.CProf{Clients: 2 + c.Int(4), HndActors: 1, Ops: 12, Classes: 1 + c.Int(4), Sup: c.P(30), MaxVals: c.P(30), Grace: c.P(30), Reenter: 15, DelayPct: 20 + c.Int(60), Panics: c.P(20), Closes: c.P(50), Children: c.P(50), Linger: c.P(50), HndRemove: 35, InitHnd: 2}
	}
	order := func(q int) h.Scenario {
		return h.Scenario{Name: "order", Quick: q * 2, Thorough: q * 40, Fn: func(c *h.C) { eng.RunOrder(world(c), 30) }}
	}
	midway := func(name string, q int, hnd bool) h.Scenario {
		return h.Scenario{Name: name, Quick: q * 2, Thorough: q * 40, Fn: func(c *h.C) { eng.RunMidway(world(c), hnd) }}
	}
	var l []h.Scenario
	switch prop {
	case "C01":
		l = append(l,
			seq("dedup-seq", 5000, func(c *h.C) eng.Prof {
				p := base(c)
				p.Weights = map[string]int{"dir": 40, "ref": 5, "relref": 20, "close": 5, "add": 8, "idle": 3, "exit": 2}
				p.MaxVals = false
				p.MaxInst = 7
				return p
			}),
			conc("dedup-conc", 4000, func(c *h.C) eng.CProf {
				p := cbase(c)
				p.Classes, p.Sup, p.MaxVals, p.Adds = 1+c.Int(2), c.P(70), false, 50
				return p
			}),
		)
	case "C02":
		l = append(l,
			seq("values-seq", 5000, func(c *h.C) eng.Prof {
				p := base(c)
				p.Weights = map[string]int{"add": 35, "rem": 16, "clear": 5, "ref": 14, "child": 3}
				p.MaxInst = 2
				return p
			}),
			conc("values-conc", 4000, func(c *h.C) eng.CProf {
				p := cbase(c)
				p.Classes, p.Closes = 1, c.P(20)
				return p
			}),
			order(1500),
		)
	case "C03":
		l = append(l,
			seq("lifetime-seq", 6000, func(c *h.C) eng.Prof {
				p := base(c)
				p.Weights = map[string]int{"ref": 20, "relref": 25, "closeif": 8, "close": 3, "adv": 14}
				p.Sup = c.P(20)
				p.MaxVals = c.P(20)
				p.MaxInst = 3
				return p
			}),
			conc("lifetime-conc", 4000, func(c *h.C) eng.CProf {
				p := cbase(c)
				p.Grace, p.Sup, p.Closes = c.P(70), c.P(10), c.P(40)
				return p
			}),
		)
	case "C04":
		l = append(l,
			seq("dispose-seq", 5000, func(c *h.C) eng.Prof {
				p := base(c)
				p.Weights = map[string]int{"close": 8, "closeif": 8, "relref": 20, "cbs": 30, "idlecb": 10, "ref": 14}
				p.MaxVals = c.P(30)
				return p
			}),
			conc("dispose-conc", 4000, func(c *h.C) eng.CProf {
				p := cbase(c)
				p.Closes, p.Sup = true, c.P(60)
				return p
			}),
			midway("dispose-midway", 2000, false),
		)
	case "C05":
		l = append(l,
			seq("limit-seq", 6000, func(c *h.C) eng.Prof {
				p := base(c)
				p.Weights = map[string]int{"add": 30, "rem": 18, "clear": 4, "child": 4, "remhnd": 4, "hnd": 6, "dir": 5, "close": 1}
				p.Sup, p.Grace, p.MaxInst = false, false, 2
				return p
			}),
			conc("limit-conc", 4000, func(c *h.C) eng.CProf {
				p := cbase(c)
				p.MaxVals, p.Classes, p.Closes, p.Sup = true, 1+c.Int(2), c.P(15), false
				return p
			}),
		)
	case "C06":
		l = append(l,
			seq("idle-seq", 5000, func(c *h.C) eng.Prof {
				p := base(c)
				p.Weights = map[string]int{"idle": 24, "exit": 12, "idlecb": 20, "hnd": 8, "remhnd": 5, "child": 5}
				p.MaxVals = c.P(50)
				p.MaxInst = 3
				if p.MaxVals {
					p.Weights["stale"], p.Weights["rem"], p.MaxInst = 10, 16, 2
				}
				return p
			}),
			conc("idle-conc", 4000, func(c *h.C) eng.CProf {
				p := cbase(c)
				p.MaxVals, p.Idles = false, 30
				return p
			}),
			order(1500),
		)
	case "C07":
		l = append(l,
			seq("offers-seq", 4000, func(c *h.C) eng.Prof {
				p := base(c)
				p.Weights = map[string]int{"dir": 20, "hnd": 18, "remhnd": 10, "child": 3}
				p.MaxVals, p.MaxHnd = c.P(20), 6
				return p
			}),
			conc("offers-conc", 5000, func(c *h.C) eng.CProf {
				p := cbase(c)
				p.HndActors, p.Classes, p.MaxVals = 3, 4, c.P(10)
				p.HndRemove = 20 + c.Int(40)
				p.Adds = 30
				return p
			}),
		)
	case "C08":
		l = append(l,
			seq("lifecycle-seq", 5000, func(c *h.C) eng.Prof {
				p := base(c)
				p.Weights = map[string]int{"child": 14, "stalechild": 5, "stale": 10, "exit": 10, "cbs": 24, "remhnd": 6, "hnd": 8, "add": 20, "rem": 12}
				return p
			}),
			conc("lifecycle-conc", 4000, func(c *h.C) eng.CProf {
				p := cbase(c)
				p.Children, p.Linger, p.MaxVals, p.ResOps = true, c.P(80), c.P(60), 30
				return p
			}),
			midway("remove-midway", 2000, true),
		)
	case "C09":
		l = append(l,
			order(3000),
			seq("panics-seq", 3000, func(c *h.C) eng.Prof {
				p := base(c)
				p.Panics = true
				return p
			}),
			conc("reenter-conc", 5000, func(c *h.C) eng.CProf {
				p := cbase(c)
				p.Reenter, p.Panics = 40, c.P(50)
				return p
			}),
		)
	case "C10":
		l = append(l,
			conc("mix-conc", 3000, cbase),
			par("mix-par", 5000, func(c *h.C) eng.CProf {
				p := cbase(c)
				p.DelayPct = 60
				return p
			}),
			par("hot-par", 2000, func(c *h.C) eng.CProf {
				p := cbase(c)
				p.Clients, p.Classes, p.Ops, p.DelayPct = 6, 1, 25, 20
				return p
			}),
		)
	default:
		l = append(l, seq("seq", 300, base), conc("conc", 300, cbase), par("par", 300, cbase), order(300))
	}
	h.Run(t, l)
}
