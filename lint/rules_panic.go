package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// exported lists the exported functions and methods of the library.
func (j *J) exported() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range j.c.in.allFuncs() {
		if f.Pkg != j.c.root || f.Object() == nil || !f.Object().Exported() || f.Parent() != nil || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			n, ok := r.Type().(*types.Named)
			if p, isp := r.Type().(*types.Pointer); isp {
				n, ok = p.Elem().(*types.Named)
			}
			if !ok || !n.Obj().Exported() {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

// withAtomic is the set of separately analysed functions to use for a function.
func (j *J) atomicFor(f *ssa.Function) map[string]string {
	if r := f.Signature.Recv(); r != nil && types.TypeString(r.Type(), nil) == "*"+modPath+".Server" {
		return serverAtomic()
	}
	return nil
}

// C27: panics.
func ruleC27(j *J) {
	j.expl = "every operation that can panic (nil dereference, nil function or interface call, index, slice bounds, type assertion, write to nil map, division, make length, slice conversion) on every path of every exported function and of the request handlers is discharged from the conditions established before it, given that the arguments themselves are not nil and stores hold no nil entries (which C11 and the seeding interface ensure); an explicit panic is only reached after the random source failed"
	for _, f := range j.exported() {
		short := fnShort(f)
		ts := j.tracesOf(f, paramsOf(f), j.atomicFor(f), short)
		j.class("entry point")
		for _, t := range ts {
			var walk func(es []*Event)
			walk = func(es []*Event) {
				for _, e := range es {
					switch e.Kind {
					case "safe":
						j.bump("discharged: "+e.Name, true)
					case "maypanic":
						n := short
						if e.Fn != nil {
							n = fnShort(e.Fn)
						}
						j.ob(false, "panic", n+": "+e.Name, e.Pos, t, "%s is possible in %s", e.Name, e.Chain)
					case "loop":
						for _, b := range e.Loop.Backs {
							walk(b.Events)
						}
					}
				}
			}
			walk(t.Events)
			if t.End == "panic" {
				j.class("panic")
				ok := false
				for _, fc := range t.Facts {
					// an error returned by the random source
					if fc.T.Op == "eq" && fc.T.Args[1].isNil() && !fc.Pol || fc.T.Op == "lt" || fc.T.Op == "eq" {
						if fc.T.contains(func(n *Term) bool {
							return n.Op == "call" && (callName(n) == "crypto/rand.Read" || callName(n) == "io.ReadFull" || callName(n) == "io.ReadAtLeast" || callName(n) == modPath+".GenerateHS256Token")
						}) {
							ok = true
						}
					}
				}
				j.ob(ok, "explicit panic", short, f.Pos(), t, "%s panics for another reason than a failure of the random source", short)
			}
		}
	}
	j.require("entry point", "panic")
}
