package rpspec

import (
	"strings"

	"github.com/SKAARHOJ/rawpanel-lib/topology"
)

// Resolve is the reference overlay: every attribute of the indexed type, replaced when the component's
// override supplies a non-empty value.
func Resolve(t *topology.Topology, c *topology.TopologyHWcomponent) (r topology.TopologyHWcTypeDef) {
	b := t.TypeIndex[c.Type]
	r.W, r.H, r.Out, r.In, r.Desc, r.Ext = b.W, b.H, b.Out, b.In, b.Desc, b.Ext
	r.Subidx, r.Rotate, r.Disp, r.Sub, r.Render = b.Subidx, b.Rotate, b.Disp, b.Sub, b.Render
	o := c.TypeOverride
	if o == nil {
		return r
	}
	if o.W > 0 {
		r.W = o.W
	}
	if o.H > 0 {
		r.H = o.H
	}
	r.Out = pick(o.Out, r.Out)
	r.In = pick(o.In, r.In)
	r.Desc = pick(o.Desc, r.Desc)
	r.Ext = pick(o.Ext, r.Ext)
	r.Render = pick(o.Render, r.Render)
	if o.Subidx > 0 {
		r.Subidx = o.Subidx
	}
	if o.Rotate != 0 {
		r.Rotate = o.Rotate
	}
	if o.Disp != nil {
		r.Disp = o.Disp
	}
	if len(o.Sub) > 0 {
		r.Sub = o.Sub
	}
	return r
}

func pick(over, base string) string {
	if over != "" {
		return over
	}
	return base
}

// first: the first component with the id.
func first(t *topology.Topology, id uint32) *topology.TopologyHWcomponent {
	for i := range t.HWc {
		if t.HWc[i].Id == id {
			return &t.HWc[i]
		}
	}
	return nil
}

func TopoGetHWCs(t *topology.Topology) []uint32 {
	out := []uint32{}
	for i := range t.HWc {
		out = append(out, t.HWc[i].Id)
	}
	return out
}

func TopoGetHWCxy(t *topology.Topology, hwc uint32) (int, int) {
	if c := first(t, hwc); c != nil {
		return c.X, c.Y
	}
	return -1, -1
}

func TopoGetHWCtext(t *topology.Topology, hwc uint32) string {
	if c := first(t, hwc); c != nil {
		return c.Txt
	}
	return ""
}

func TopoGetHWCtype(t *topology.Topology, hwc uint32) (*topology.TopologyHWcTypeDef, bool) {
	if c := first(t, hwc); c != nil {
		r := Resolve(t, c)
		return &r, false
	}
	return nil, true
}

func TopoGetHWCsWithDisplay(t *topology.Topology) []uint32 {
	out := []uint32{}
	for i := range t.HWc {
		if r := Resolve(t, &t.HWc[i]); r.Disp != nil {
			out = append(out, t.HWc[i].Id)
		}
	}
	return out
}

// The second resolver: description and render hints are not among the attributes it shares.
func TopoGetHWCTypeDefinition(t *topology.Topology, k int) *topology.TopologyHWcTypeDef {
	if k < len(t.HWc) {
		if _, indexed := t.TypeIndex[t.HWc[k].Type]; indexed {
			r := Resolve(t, &t.HWc[k])
			return &r
		}
	}
	return &topology.TopologyHWcTypeDef{}
}

func TopoGetHWCTypeDefinitionFromHWCid(t *topology.Topology, id int) *topology.TopologyHWcTypeDef {
	for k := range t.HWc {
		if t.HWc[k].Id == uint32(id) {
			return TopoGetHWCTypeDefinition(t, k)
		}
	}
	return &topology.TopologyHWcTypeDef{}
}

func TopoGetHWCDefinitionFromHWCid(t *topology.Topology, id int) *topology.TopologyHWcomponent {
	if c := first(t, uint32(id)); c != nil {
		return c
	}
	return &topology.TopologyHWcomponent{}
}

func kind(d *topology.TopologyHWcTypeDef) string {
	if i := strings.IndexByte(d.In, ','); i >= 0 {
		return d.In[:i]
	}
	return d.In
}

func oneOf(s string, list ...string) bool {
	for _, x := range list {
		if s == x {
			return true
		}
	}
	return false
}

func DefGetInputType(d *topology.TopologyHWcTypeDef) string { return kind(d) }
func DefIsButton(d *topology.TopologyHWcTypeDef) bool {
	return oneOf(kind(d), "b", "b4", "b2h", "b2v", "pb")
}
func DefIsBinary(d *topology.TopologyHWcTypeDef) bool {
	return oneOf(kind(d), "b", "b4", "b2h", "b2v", "pb", "gpi")
}
func DefIsPulsed(d *topology.TopologyHWcTypeDef) bool { return oneOf(kind(d), "pb", "p") }
func DefIsAbsolute(d *topology.TopologyHWcTypeDef) bool {
	return oneOf(kind(d), "av", "ah", "ar", "a")
}
func DefIsIntensity(d *topology.TopologyHWcTypeDef) bool {
	return oneOf(kind(d), "iv", "ih", "ir", "i")
}
func DefHasDisplay(d *topology.TopologyHWcTypeDef) bool { return d.Disp != nil }
func DefDisplayInfo(d *topology.TopologyHWcTypeDef) *topology.TopologyHWcTypeDef_Display {
	return d.Disp
}
func DefIsMotorized(d *topology.TopologyHWcTypeDef) bool { return d.Ext == "pos" }
func DefHasLED(d *topology.TopologyHWcTypeDef) bool {
	return d.Out == "rgb" || oneOf(d.In, "rg", "rb", "mono")
}
func DefLedBarSteps(d *topology.TopologyHWcTypeDef) int {
	if strings.Contains(d.Ext, "steps") {
		return len(d.Sub)
	}
	return 0
}

// DefHasSteps: the span of the step numbers of the sub-elements (with none: the documented extremes).
func DefHasSteps(d *topology.TopologyHWcTypeDef) int {
	if d.Ext != "steps" {
		return 0
	}
	lo, hi := 10000, -10000
	for i := range d.Sub {
		if d.Sub[i].Idx < lo {
			lo = d.Sub[i].Idx
		}
		if d.Sub[i].Idx > hi {
			hi = d.Sub[i].Idx
		}
	}
	return hi - lo + 1
}

// Shared is the part of a definition both resolvers supply.
func Shared(d *topology.TopologyHWcTypeDef) *topology.TopologyHWcTypeDef {
	if d == nil {
		return nil
	}
	return &topology.TopologyHWcTypeDef{W: d.W, H: d.H, Out: d.Out, In: d.In, Ext: d.Ext, Subidx: d.Subidx, Rotate: d.Rotate, Disp: d.Disp, Sub: d.Sub}
}

// Meaning is what a topology says about its components, leaving the choice of type numbers out.
func Meaning(t *topology.Topology) (title string, defs []topology.TopologyHWcTypeDef, comps []topology.TopologyHWcomponent, types int) {
	for i := range t.HWc {
		c := t.HWc[i]
		defs = append(defs, Resolve(t, &c))
		c.Type = 0
		comps = append(comps, c)
	}
	return t.Title, defs, comps, len(t.TypeIndex)
}

// SequentialIds: the type numbers are exactly 1..n.
func SequentialIds(t *topology.Topology) bool {
	for i := 1; i <= len(t.TypeIndex); i++ {
		if _, ok := t.TypeIndex[uint32(i)]; !ok {
			return false
		}
	}
	return true
}

// WithoutSections: the topology with the section markers taken out.
func WithoutSections(t *topology.Topology) (title string, comps []topology.TopologyHWcomponent, index map[uint32]topology.TopologyHWcTypeDef) {
	for i := range t.HWc {
		if t.HWc[i].Type != 250 {
			comps = append(comps, t.HWc[i])
		}
	}
	return t.Title, comps, t.TypeIndex
}

// Content is everything a topology serialises to.
func Content(t *topology.Topology) (title string, comps []topology.TopologyHWcomponent, index map[uint32]topology.TopologyHWcTypeDef) {
	return t.Title, t.HWc, t.TypeIndex
}
