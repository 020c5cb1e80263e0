package main

import (
	"fmt"
	"go/types"
)

func init() {
	props["C07"] = func(c *Check) {
		c.expl = "Every line of both encoders, for messages whose texts are arbitrary (line feeds included), is compared with itself after removing line feeds; the flattened payloads are compared with a reference flattening."
		c.rules = []string{"line-feed-free: an encoded line equals itself with line feeds replaced, for every text content", "flatten: payload of a profile / topology / message line equals the reference flattening of the input text"}
		in := c.need(modRoot, "InboundMessagesToRawPanelASCIIstrings")
		out := c.need(modRoot, "OutboundMessagesToRawPanelASCIIstrings")
		refIn, refOut := c.need("rpspec", "EncodeInbound"), c.need("rpspec", "EncodeOutbound")
		if in == nil || out == nil || refIn == nil || refOut == nil {
			return
		}
		for _, d := range []struct {
			name, skip string
			out        bool
			msgs       int
		}{
			{"inbound commands", `\.(States|Registers|FlowMessage)$`, false, 0},
			{"inbound registers", `\.(States|Command)$`, false, 0},
			{"inbound states", `\.(Command|Registers|FlowMessage|HWCGfx)$`, false, 0},
			{"outbound identity", `\]\.(Events|Registers|SysStat|EnvironmentalHealth|HWCavailability|RunTimeStats|.*Message|Connections|DimmedGain|HeartBeat.*|Sleep.*|.*Profile|NetworkConfig|PanelTopology)$`, true, 0},
			{"outbound status", `\]\.(Events|Registers|SysStat|PanelInfo|HWCavailability|DimmedGain|HeartBeat.*|Sleep.*|RunTimeStats)$`, true, 0},
			{"outbound events and registers", `\]\.(PanelInfo|EnvironmentalHealth|HWCavailability|RunTimeStats|.*Message|Connections|DimmedGain|HeartBeat.*|Sleep.*|.*Profile|NetworkConfig|PanelTopology)$`, true, 0},
			{"30 inbound registers", `\.(States|Command|FlowMessage|Reg)$`, false, 30},
			{"30 outbound registers", `\]\.([A-QS-Z][A-Za-z]*|RunTimeStats)$|\.Reg$`, true, 30},
			{"30 outbound names", `\]\.([A-OQ-Z][A-Za-z]*|PanelTopology)$|\.PanelInfo\.([A-MO-Z][A-Za-z]*)$`, true, 30},
		} {
			d := d
			enc, ref := in, refIn
			if d.out {
				enc, ref = out, refOut
			}
			c.scenario(d.name, func(s *Scenario) {
				s.listBound = 1
				s.splitBound = 5
				s.lazyHook = hooks(nilFields(s.Eng, d.skip), c.inputHook(s.Eng, inDomains, func(n string) *StrInfo {
					if d.msgs > 0 {
						return &StrInfo{min: 1, max: -1}
					}
					return &StrInfo{max: -1}
				}))
				mt := enc.Signature.Params().At(0).Type().Underlying().(*types.Slice)
				var arg *Term
				if d.msgs > 0 {
					s.lazyHook = hooks(nilFields(s.Eng, d.skip), exactly(s.Eng, `\.Registers$`, 1), present(s.Eng, `\.PanelInfo$`), s.lazyHook)
					arg = s.fixedSlice("msgs", mt, d.msgs)
				} else {
					arg = s.lazySlice("msgs", mt, 1)
				}
				r, o := s.runFn(enc, arg)
				l := s.deepResult(enc, r, o)
				s.lfFree(fnName(enc), l, o.g)
				// payload flattening: a reference without flattening differences would be equal
				r2, o2 := s.runFn(ref, arg)
				b := s.mapLines(s.keySorted(s.deepResult(ref, r2, o2)), func(v *Term) *Term { return s.ReplaceAll(v, s.Str("\n"), s.Str(" ")) })
				s.equalTerms("flatten", d.name, s.keySorted(l), b, s.And(o.g, o2.g), anyDiffer)
			})
		}
	}
}

func (s *Scenario) mapLines(l *Term, f func(*Term) *Term) *Term {
	if l.k != KOp || l.s != "list" {
		return l
	}
	args := append([]*Term(nil), l.args...)
	for i := 1; i < len(args); i += 2 {
		args[i] = f(args[i])
	}
	return s.Op("list", SAny, 0, false, args...)
}

// lfFree: no line may contain a line feed.
func (s *Scenario) lfFree(where string, l, g *Term) {
	if l.k != KOp || l.s != "list" {
		s.undecided("result is not a list: " + s.show(l))
		return
	}
	nl, sp := s.Str("\n"), s.Str(" ")
	for i := 0; i < len(l.args); i += 2 {
		gi := s.And(g, l.args[i])
		v := s.constrain(l.args[i+1], gi)
		clean := s.ReplaceAll(v, nl, sp)
		if v == clean {
			s.ok()
			continue
		}
		w := s.findWitness2(gi, v, clean, v, clean, anyDiffer)
		if w == nil {
			s.undecided(fmt.Sprintf("line feed not excluded in %.200s", s.show(v)))
			continue
		}
		s.violate("line-feed-free", where, fmt.Sprintf("%s returns the line %s, which contains a line feed, for input {%s}", where, s.show(w.a), s.showWitness(w)))
		return
	}
}

func fnName(f interface{ Name() string }) string { return f.Name() }
