package rpspec

import (
	"encoding/base64"
	"encoding/json"
	"strings"

	rawpanellib "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// chunk is one graphics line: index, last index in its header (-1: no header), target list and format.
type chunk struct {
	idx, max     int
	target, kind int
	data         []byte
	wide, off    bool // another size, with an offset
}

func targets(n int) []uint32 {
	switch n {
	case 1:
		return []uint32{7, 8}
	case 2:
		return []uint32{70}
	}
	return []uint32{7}
}

func (c chunk) line() string {
	s := gfxKey(c.kind)
	for i, id := range targets(c.target) {
		if i > 0 {
			s += ","
		}
		s += u(id)
	}
	s += "=" + u(uint32(c.idx))
	if c.max >= 0 {
		s += "/" + u(uint32(c.max)) + ","
		if c.wide {
			s += "64x256"
		} else {
			s += "128x64"
		}
		if c.off {
			s += ",5,9"
		}
	}
	return s + ":" + B64(c.data)
}

// assembler is the reference: chunk 0 starts a transfer (of three lines when it has no header), only
// the next chunk of the same target and format continues it, a wrong index ends it, the last chunk
// delivers and ends it. Chunks of another target or format do not touch it.
type assembler struct {
	active       bool
	next, max    int
	w, h         uint32
	off          bool
	target, kind int
	data         []byte
}

func (a *assembler) take(c chunk) *rwp.InboundMessage {
	if c.idx == 0 {
		a.active, a.next, a.max, a.target, a.kind, a.data, a.w, a.h = true, 0, c.max, c.target, c.kind, nil, 128, 64
		if c.max < 0 {
			a.max, a.w, a.h = 2, 64, 32
		} else if c.wide {
			a.w, a.h = 64, 256
		}
		a.off = c.max >= 0 && c.off
	}
	if !a.active || a.target != c.target || a.kind != c.kind {
		return nil
	}
	if c.idx != a.next {
		a.active = false
		return nil
	}
	a.data = join(a.data, c.data)
	a.next++
	if c.idx != a.max {
		return nil
	}
	a.active = false
	g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(a.kind), W: a.w, H: a.h, ImageData: a.data}
	if a.off {
		g.XYoffset, g.X, g.Y = true, 5, 9
	}
	return &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: targets(a.target), HWCGfx: g}}}
}

// between is an unrelated line fed after every chunk and its effect; 0 is no line at all.
func between(n int) ([]string, inbound) {
	switch n {
	case 1:
		return []string{"ping"}, inbound{{FlowMessage: 1}}
	case 2:
		return []string{""}, nil
	case 3:
		return []string{"HWC#7=4"}, inState(&rwp.HWCState{HWCIDs: []uint32{7}, HWCMode: &rwp.HWCMode{State: 4}})
	case 4:
		return []string{"NoSuchThing#7=0:AAAA", "HWCg#7", "HWCg#x=0/0,8x8:AAAA"}, nil
	case 5:
		return []string{"HWCt#7=|||1|", "MemA=5"}, inbound{
			inState(&rwp.HWCState{HWCIDs: []uint32{7}, HWCText: titleText("1")})[0],
			{Registers: []*rwp.Register{{Reg: 0, Id: "A", Value: 5}}}}
	case 6:
		return []string{"Clear", "HWCc#7=65"}, inbound{
			{Command: &rwp.Command{ClearAll: true}},
			inState(&rwp.HWCState{HWCIDs: []uint32{7}, HWCColor: &rwp.HWCColor{ColorRGB: &rwp.ColorRGB{Blue: 85}}})[0]}
	}
	return nil, nil
}

func titleText(s string) *rwp.HWCText {
	t := blankText()
	t.Formatting = 7
	t.Title = s
	t.SolidHeaderBar = true
	return t
}

func history(cs []chunk, mark int) ([]string, inbound) {
	var a assembler
	lines := []string{}
	out := inbound{}
	for _, c := range cs {
		lines = append(lines, c.line())
		if m := a.take(c); m != nil {
			out = append(out, m)
		}
		bl, bm := between(mark)
		lines = append(lines, bl...)
		out = append(out, bm...)
	}
	return lines, out
}

// Hist is the history of n chunks (n <= 5), the k-th with index ik, last index mk, target tk, format fk.
func Hist(mark, n, i0, m0, t0, f0, i1, m1, t1, f1, i2, m2, t2, f2, i3, m3, t3, f3, i4, m4, t4, f4 int, b64a, b64b, b64c, b64d, b64e []byte) ([]string, inbound) {
	return history([]chunk{{i0, m0, t0, f0, b64a, false, false}, {i1, m1, t1, f1, b64b, false, false}, {i2, m2, t2, f2, b64c, false, false}, {i3, m3, t3, f3, b64d, false, false}, {i4, m4, t4, f4, b64e, false, false}}[:n], mark)
}

// Clean is one complete transfer of n chunks.
func Clean(mark, n, target, kind int, b64a, b64b []byte) ([]string, inbound) {
	var cs []chunk
	for k := 0; k < n; k++ {
		c := chunk{k, -1, target, kind, join(b64a, []byte{byte(k)}), false, false}
		if k == 0 {
			c.max = n - 1
		}
		if k == n-1 {
			c.data = b64b
		}
		cs = append(cs, c)
	}
	return history(cs, mark)
}

// Two is the first k of the n chunks of one transfer, then a complete transfer of m chunks: n, m 0 is the
// three-line format without a header.
func Two(n, k, target, kind int, wide, off bool, m, target2, kind2 int, wide2, off2 bool, b64a, b64b []byte) ([]string, inbound) {
	return history(append(transfer(n, target, kind, wide, off, b64a)[:k], transfer(m, target2, kind2, wide2, off2, b64b)...), 0)
}

func transfer(n, target, kind int, wide, off bool, data []byte) []chunk {
	max := n - 1
	if n == 0 {
		n = 3
	}
	var cs []chunk
	for k := 0; k < n; k++ {
		cs = append(cs, chunk{k, -1, target, kind, join(data, []byte{byte(k)}), wide, off})
	}
	cs[0].max = max
	return cs
}

// Sent is an image written by the library's encoder for one component, then for another.
func Sent(kind, times int, off bool, id1, id2, w, h, x, y uint32, ImageData []byte) ([]string, inbound) {
	var lines []string
	var out inbound
	for _, id := range []uint32{id1, id2}[:times] {
		g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(kind), W: w, H: h, ImageData: ImageData}
		if off {
			g.XYoffset, g.X, g.Y = true, x, y
		}
		m := inState(&rwp.HWCState{HWCIDs: []uint32{id}, HWCGfx: g})
		lines = append(lines, rawpanellib.InboundMessagesToRawPanelASCIIstrings(m)...)
		out = append(out, m...)
	}
	return lines, out
}

// Within170: every line the encoder writes for an image carries at most 170 payload bytes.
func Within170(kind int, id, w, h uint32, ImageData []byte) bool {
	g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(kind), W: w, H: h, ImageData: ImageData}
	for _, l := range rawpanellib.InboundMessagesToRawPanelASCIIstrings(inState(&rwp.HWCState{HWCIDs: []uint32{id}, HWCGfx: g})) {
		parts := strings.Split(l, ":")
		b, err := base64.StdEncoding.DecodeString(parts[len(parts)-1])
		if err != nil || len(b) > 170 {
			return false
		}
	}
	return true
}

// effective leaves out messages that say nothing (what the library makes of unknown lines).
func effective(ms []*rwp.InboundMessage) []*rwp.InboundMessage {
	var out []*rwp.InboundMessage
	for _, m := range ms {
		if m != nil && m.FlowMessage == 0 && m.Command == nil && len(m.States) == 0 && len(m.Registers) == 0 {
			continue
		}
		out = append(out, m)
	}
	return out
}

// Batch feeds all lines at once.
func Batch(lines []string) []*rwp.InboundMessage {
	return effective(rawpanellib.RawPanelASCIIstringsToInboundMessages(lines))
}

// StreamAll feeds the lines to the streaming reader one at a time.
func StreamAll(lines []string) []*rwp.InboundMessage {
	var out []*rwp.InboundMessage
	r := &rawpanellib.ASCIIreader{}
	for _, l := range lines {
		out = append(out, effective(r.Parse(l))...)
	}
	return out
}

// StreamSaved does the same and saves and restores the reader's state as JSON between any two lines.
func StreamSaved(lines []string) []*rwp.InboundMessage {
	var out []*rwp.InboundMessage
	var state []byte
	for i, l := range lines {
		r := &rawpanellib.ASCIIreader{}
		if i > 0 {
			json.Unmarshal(state, r)
		}
		out = append(out, effective(r.Parse(l))...)
		state, _ = json.Marshal(r)
	}
	return out
}

// ReadWith feeds the lines to an idle reader.
func ReadWith(lines []string) []*rwp.InboundMessage {
	var out []*rwp.InboundMessage
	r := &rawpanellib.ASCIIreader{}
	for _, l := range lines {
		out = append(out, r.Parse(l)...)
	}
	return out
}

// DecodeTrimmed decodes each line by itself, without surrounding white space.
func DecodeTrimmed(lines []string) []*rwp.InboundMessage {
	var out []*rwp.InboundMessage
	for _, l := range lines {
		out = append(out, rawpanellib.RawPanelASCIIstringsToInboundMessages([]string{strings.TrimSpace(l)})...)
	}
	return out
}
