package rpspec

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/SKAARHOJ/rawpanel-lib/topology"
	xml "github.com/subchen/go-xmldom"
)

// Shape is what the property says about one element of the composite document.
type Shape struct {
	Name, Id, Transform, Text string
	X, Y, W, H, Cx, Cy, R     string
}

// SvgShapes lists the elements added for the components, in order.
func SvgShapes(t *topology.Topology, theMap map[uint32]uint32, labels, ids, types, sizes bool) (out []Shape) {
	for i := range t.HWc {
		c := &t.HWc[i]
		if theMap != nil && theMap[c.Id] == 0 {
			continue
		}
		d := Resolve(t, c)
		turn := ""
		if d.Rotate != 0 {
			turn = fmt.Sprintf("rotate(%03f %d %d)", d.Rotate, c.X, c.Y)
		}
		n := strconv.Itoa
		if d.H > 0 {
			out = append(out, Shape{Name: "rect", Id: "HWc" + n(int(c.Id)), X: n(c.X - d.W/2), Y: n(c.Y - d.H/2), W: n(d.W), H: n(d.H), Transform: turn})
		} else {
			out = append(out, Shape{Name: "circle", Id: "HWc" + n(int(c.Id)), Cx: n(c.X), Cy: n(c.Y), R: n(d.W / 2), Transform: turn})
		}
		for k := range d.Sub {
			s := &d.Sub[k]
			switch s.ObjType {
			case "r":
				out = append(out, Shape{Name: "rect", X: n(c.X + s.X), Y: n(c.Y + s.Y), W: n(s.W), H: n(s.H), Transform: turn})
			case "c":
				out = append(out, Shape{Name: "circle", Cx: n(c.X + s.X), Cy: n(c.Y + s.Y), R: n(s.R), Transform: turn})
			}
		}
		opts := strings.Split(d.Render, ",")
		if labels || has(opts, "txt") {
			parts := strings.Split(c.Txt, "|")
			out = append(out, Shape{Name: "text", Text: parts[0]})
			if len(parts) > 1 && len(parts[1]) > 0 {
				out = append(out, Shape{Name: "text", Text: parts[1]})
			}
		}
		if types {
			out = append(out, Shape{Name: "text", Text: "[TYPE=" + n(int(c.Type)) + "]"})
		}
		if sizes && d.Disp != nil {
			txt := n(d.Disp.W) + "x" + n(d.Disp.H)
			if d.Disp.Type != "" {
				txt += " " + d.Disp.Type
			}
			out = append(out, Shape{Name: "text", Text: txt})
		}
		if ids || has(opts, "hwcid") {
			out = append(out, Shape{Name: "text", Text: n(int(c.Id))})
		}
	}
	return out
}

func has(l []string, s string) bool {
	for i := range l {
		if l[i] == s {
			return true
		}
	}
	return false
}

// SvgView lists the elements of a document after the first base ones.
func SvgView(doc *xml.Document, base int) (out []Shape) {
	for _, c := range doc.Root.Children[base:] {
		a := func(k string) string { return c.GetAttributeValue(k) }
		s := Shape{Name: c.Name, Id: a("id"), Text: c.Text}
		switch c.Name {
		case "rect":
			s.Transform = a("transform")
			s.X, s.Y, s.W, s.H = a("x"), a("y"), a("width"), a("height")
		case "circle":
			s.Transform = a("transform")
			s.Cx, s.Cy, s.R = a("cx"), a("cy"), a("r")
		}
		out = append(out, s)
	}
	return out
}

// SvgBase is what a document holds before components are added.
func SvgBase(doc *xml.Document, base int) (proc string, dirs []string, name, text string, attrs []string, kids []string) {
	for _, a := range doc.Root.Attributes {
		attrs = append(attrs, a.Name, a.Value)
	}
	for _, c := range doc.Root.Children[:base] {
		kids = append(kids, c.Name, c.Text)
		for _, a := range c.Attributes {
			kids = append(kids, a.Name, a.Value)
		}
		for _, k := range c.Children {
			kids = append(kids, k.Name, k.Text)
		}
	}
	return doc.ProcInst, doc.Directives, doc.Root.Name, doc.Root.Text, attrs, kids
}

// SvgNames lists every element and attribute name after the first base elements.
func SvgNames(doc *xml.Document, base int) (out []string) {
	for _, c := range doc.Root.Children[base:] {
		out = append(out, c.Name)
		for _, a := range c.Attributes {
			out = append(out, a.Name)
		}
	}
	return out
}
