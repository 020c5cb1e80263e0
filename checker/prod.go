package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// productions: the functions of the grammar specification whose name starts with prefix.
func (c *Check) productions(prefix string) []*ssa.Function {
	p := c.pkg("rpspec")
	if p == nil {
		return nil
	}
	var out []*ssa.Function
	for n, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix) && len(n) > len(prefix) && n[len(prefix)] >= 'A' && n[len(prefix)] <= 'Z' {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

var rangeRe = regexp.MustCompile(`_(n?)([0-9]+)_([0-9]+)$`)
var eachRe = regexp.MustCompile(`_each_([0-9]+)_([0-9]+)$`)

const upperDigits = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

// prodArgs builds the symbolic arguments of a production; each fixes an enumerated parameter.
func (s *Scenario) prodArgs(fn *ssa.Function, each int64) []*Term {
	var out []*Term
	e := s.Eng
	for _, p := range fn.Params {
		n := p.Name()
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			w, sg, isInt := intType(u)
			switch {
			case isInt && eachRe.MatchString(n):
				out = append(out, e.IntT(each, w, sg))
			case isInt:
				if m := rangeRe.FindStringSubmatch(n); m != nil {
					lo, _ := strconv.ParseInt(m[2], 10, 64)
					hi, _ := strconv.ParseInt(m[3], 10, 64)
					if m[1] == "n" {
						lo = -lo
					}
					out = append(out, e.SymIntR(n, w, sg, lo, hi))
				} else {
					out = append(out, e.SymInt(n, w, sg))
				}
			case u.Info()&types.IsBoolean != 0:
				out = append(out, e.SymBool(n))
			case u.Info()&types.IsString != 0:
				si := &StrInfo{max: -1, noNL: true}
				if s.noSpace {
					si.chars = "^ \n\r\t\v\f"
				}
				switch {
				case strings.HasPrefix(n, "field"):
					si.chars = "^|\n\r"
					if s.noSpace {
						si.chars = "^| \n\r\t\v\f"
					}
				case strings.HasPrefix(n, "item"):
					si.chars = "^;\n\r \t\v\f"
					si.min = 1
				case strings.HasPrefix(n, "reg"):
					si.chars = upperDigits
				case strings.HasPrefix(n, "num"):
					si.chars = "0123456789"
					si.min, si.max = 1, 9
				case strings.HasPrefix(n, "text"):
					si.min = 1
				}
				out = append(out, e.SymStr(n, si))
			default:
				out = append(out, e.Sym(n, SFloat, 64, true))
			}
		case *types.Pointer:
			out = append(out, e.lazyPtr(n, u.Elem()))
		case *types.Slice:
			out = append(out, e.lazySlice(n, u, s.listBound))
		default:
			s.undecided("parameter " + n + " of " + fn.Name() + " has an unsupported type")
			out = append(out, e.Sym(n, SAny, 0, false))
		}
	}
	return out
}

// proj: component of a tuple result.
func (s *Scenario) proj(t *Term, i int) *Term {
	if t.k == KTup && i < len(t.args) {
		return t.args[i]
	}
	if t.k == KIte {
		return s.ite(s.atom(t.args[0]), s.proj(t.args[1], i), s.proj(t.args[2], i))
	}
	panic("not a tuple: " + s.show(t))
}

// decodeProductions: every production's lines, decoded, give the production's messages.
// within, batch: the same inside a batch of other lines, results without empty messages.
func (c *Check) decodeProductions(rule, prefix string, min int, dec *ssa.Function) {
	within, batch := c.need("rpspec", "Within"+prefix), c.need("rpspec", map[string]string{"In": "Batch", "Out": "BatchOut"}[prefix])
	if within == nil || batch == nil {
		return
	}
	ps := c.productions(prefix)
	if len(ps) < min {
		c.violate("grammar", prefix, fmt.Sprintf("only %d productions of the grammar specification found, expected at least %d", len(ps), min))
	}
	for _, p := range ps {
		p := p
		lo, hi := int64(0), int64(0)
		for _, q := range p.Params {
			if m := eachRe.FindStringSubmatch(q.Name()); m != nil {
				lo, _ = strconv.ParseInt(m[1], 10, 64)
				hi, _ = strconv.ParseInt(m[2], 10, 64)
			}
		}
		for k := lo; k <= hi; k++ {
			k := k
			name := p.Name()
			if hi > lo {
				name += "/" + strconv.FormatInt(k, 10)
			}
			c.scenario(name, func(s *Scenario) {
				s.listBound = 2
				s.lazyHook = c.inputHook(s.Eng, inDomains, func(string) *StrInfo { return &StrInfo{max: -1, noNL: true} })
				s.Eng.InitPkg(dec.Pkg)
				r, o := s.runFn(p, s.prodArgs(p, k)...)
				if o == nil {
					s.undecided("specification did not return")
					return
				}
				want := s.deep(s.proj(r, 1), o, p.Signature.Results().At(1).Type())
				ret, o2 := s.callFn(dec, []*Term{s.proj(r, 0)}, nil, o, nil, dec.Pos())
				if o2 == nil {
					s.undecided("decoder did not return")
					return
				}
				got := s.deepResult(dec, ret, o2)
				if os.Getenv("RPSHOW") != "" {
					fmt.Println("A:", s.show(got))
					fmt.Println("B:", s.show(want))
				}
				s.equalTerms(rule, p.Name(), got, want, o2.g, anyDiffer)
			})
			if strings.Contains(p.Name(), "Many") {
				continue
			}
			c.scenario(name+" among other lines", func(s *Scenario) {
				s.listBound = 2
				s.lazyHook = c.inputHook(s.Eng, inDomains, func(string) *StrInfo { return &StrInfo{max: -1, noNL: true} })
				s.Eng.InitPkg(dec.Pkg)
				r, o := s.runFn(p, s.prodArgs(p, k)...)
				if o == nil {
					s.undecided("specification did not return")
					return
				}
				w, o1 := s.callFn(within, []*Term{s.proj(r, 0), s.proj(r, 1)}, nil, o, nil, p.Pos())
				if o1 == nil {
					s.undecided("specification did not return")
					return
				}
				want := s.deep(s.proj(w, 1), o1, within.Signature.Results().At(1).Type())
				ret, o2 := s.callFn(batch, []*Term{s.proj(w, 0)}, nil, o1, nil, dec.Pos())
				if o2 == nil {
					s.undecided("decoder did not return")
					return
				}
				s.equalTerms(rule, p.Name()+" among other lines", s.deepResult(batch, ret, o2), want, o2.g, anyDiffer)
			})
		}
	}
}
