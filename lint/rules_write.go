package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func returnsError(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() > 0 && types.TypeString(r.At(r.Len()-1).Type(), nil) == "error"
}

// C33: failures to write are reported.
func ruleC33(j *J) {
	j.expl = "every path of every exported function that takes a response writer and returns an error: the error of every write of the body (Write of the response writer, Encode to it, also those of an intermediate encoding) is returned or known to be nil where nil is returned, and nil is never returned without a response having been written"
	for _, f := range j.writers() {
		if !returnsError(f) {
			continue
		}
		short := fnShort(f)
		for _, x := range j.entry(short) {
			if x.End != "return" {
				continue
			}
			r := x.St.resolve(x.Results[len(x.Results)-1])
			j.class("path of " + short)
			if x.isNil(r) == no {
				j.class("reported failure")
				continue // an error is returned
			}
			j.ob(x.resp.First >= 0, "response", short, x.pos(), x.Trace, "no error is returned although no response is written")
			var walk func(y *Tr, es []*Event)
			walk = func(y *Tr, es []*Event) {
				for _, e := range es {
					if e.Kind == "loop" {
						for i := range e.Loop.Backs {
							b := &e.Loop.Backs[i]
							walk(x.at(b), b.Events)
						}
					}
					if e.Kind == "wescape" {
						j.ob(false, "write error", short, e.Pos, x.Trace, "the response writer is handed to %s, whose failures are not known to be reported", e.Name)
					}
					if e.Kind != "body" && !(e.Kind == "call" && e.Res != nil && e.Name == "(*encoding/json.Encoder).Encode") {
						continue
					}
					j.class("write")
					if !j.ob(e.Res != nil, "write error", short, e.Pos, x.Trace, "the response is written by a function that does not report failures") {
						continue
					}
					j.ob(r == e.Res || y.isNil(e.Res) == yes, "write error", short, e.Pos, x.Trace, "no error may be returned although the response could not be written")
					for _, a := range e.Args {
						a.walk(func(n *Term) {
							if n.Op == "ret" && n.Name == "0" && n.Args[0].isCall("encoding/json.Marshal") {
								err := mkRet(n.Args[0], 1, nil)
								j.ob(y.isNil(err) == yes, "encoding error", short, e.Pos, x.Trace, "no error may be returned although the response could not be encoded")
							}
						})
					}
				}
			}
			walk(x, x.Events)
		}
	}
	j.require("path of Write", "path of WriteRedirect", "path of WriteError", "path of WriteTokenResponse", "path of WriteCodeResponse", "path of WriteIntrospectionResponse", "path of WriteBearerError", "write", "reported failure")
}

func (x *Tr) isNil(t *Term) int {
	if t.isNil() {
		return yes
	}
	return x.eq(t, tNil)
}
