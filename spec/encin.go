// Package rpspec is the checker's independent reading of the Raw Panel ASCII grammar. Nothing in
// it is ever executed: the checker loads it next to the library and compares the value graphs of
// both sides.
package rpspec

import (
	"encoding/base64"
	"encoding/json"
	"strconv"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// TrimJoin joins the fields after dropping trailing empty ones (modelled by the checker).
func TrimJoin(fields []string, sep string) string {
	n := len(fields)
	for n > 0 && fields[n-1] == "" {
		n--
	}
	return strings.Join(fields[:n], sep)
}

func boolDigit(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func u(v uint32) string { return strconv.FormatUint(uint64(v), 10) }
func d(v int32) string  { return strconv.FormatInt(int64(v), 10) }

// twoBit scales a colour component 0..255 to 0..3, rounding down.
func twoBit(v uint32) uint32 {
	return v * 3 / 255
}

// wireColor is the 7-bit integer of a text colour: bit 6 marks rrggbb, otherwise a palette index.
func wireColor(c *rwp.Color) uint32 {
	switch {
	case c.ColorRGB != nil:
		return 64 + twoBit(c.ColorRGB.Red)*16 + twoBit(c.ColorRGB.Green)*4 + twoBit(c.ColorRGB.Blue)
	case c.ColorIndex != nil:
		return uint32(c.ColorIndex.Index)
	}
	return 0
}

// OneLine puts text with line breaks on one line (surrounding white space of each line is not content).
func OneLine(s string) string {
	var b strings.Builder
	for _, l := range strings.Split(s, "\n") {
		b.WriteString(strings.TrimSpace(l))
	}
	return b.String()
}

func cmdLines(c *rwp.Command) []string {
	var out []string
	flag := func(on bool, word string) {
		if on {
			out = append(out, word)
		}
	}
	flag(c.ActivatePanel, "ActivePanel=1")
	flag(c.SendPanelInfo, "list")
	flag(c.ReportHWCavailability, "map")
	flag(c.SendPanelTopology, "PanelTopology?")
	flag(c.SendBurninProfile, "BurninProfile?")
	flag(c.SendCalibrationProfile, "CalibrationProfile?")
	flag(c.SendNetworkConfig, "NetworkConfig?")
	flag(c.SendRegisters, "Registers?")
	flag(c.GetConnections, "Connections?")
	flag(c.GetRunTimeStats, "RunTimeStats?")
	flag(c.ClearAll, "Clear")
	flag(c.ClearLEDs, "ClearLEDs")
	flag(c.ClearDisplays, "ClearDisplays")
	flag(c.GetSleepTimeout, "SleepTimer?")
	flag(c.WakeUp, "WakeUp!")
	flag(c.Reboot, "Reboot")
	if b := c.PanelBrightness; b != nil {
		out = append(out, "PanelBrightness="+u(b.LEDs)+","+u(b.OLEDs))
	}
	if p := c.SetCalibrationProfile; p != nil {
		out = append(out, "SetCalibrationProfile="+OneLine(p.Json))
	}
	if n := c.SetNetworkConfig; n != nil {
		j, _ := json.Marshal(n)
		out = append(out, "SetNetworkConfig="+string(j))
	}
	if s := c.SimulateEnvironmentalHealth; s != nil {
		switch int32(s.RunMode) {
		case 0:
			out = append(out, "SimulateEnvironmentalHealth=Normal")
		case 1:
			out = append(out, "SimulateEnvironmentalHealth=Safemode")
		case 2:
			out = append(out, "SimulateEnvironmentalHealth=Blocked")
		}
	}
	if v := c.SetSleepTimeout; v != nil {
		out = append(out, "SleepTimer="+u(v.Value))
	}
	if v := c.SetSleepMode; v != nil {
		out = append(out, "SleepMode="+d(int32(v.Mode)))
	}
	if v := c.SetSleepScreenSaver; v != nil {
		out = append(out, "SleepScreenSaver="+d(int32(v.Type)))
	}
	if v := c.SetDimmedGain; v != nil {
		out = append(out, "DimmedGain="+u(v.Value))
	}
	if v := c.SetHeartBeatTimer; v != nil {
		out = append(out, "HeartBeatTimer="+u(v.Value))
	}
	if v := c.PublishSystemStat; v != nil {
		out = append(out, "PublishSystemStat="+u(v.PeriodSec))
	}
	if v := c.LoadCPU; v != nil {
		out = append(out, "LoadCPU="+d(int32(v.Level)))
	}
	if v := c.SetWebserverEnabled; v != nil {
		out = append(out, "Webserver="+boolDigit(v.Enabled))
	}
	if v := c.JSONconfig; v != nil {
		out = append(out, "JSONonOutbound="+boolDigit(v.Outbound))
	}
	return out
}

func nonZero(v uint32) string {
	if v == 0 {
		return ""
	}
	return u(v)
}

// textFields are the 21 fields of an HWCt# line.
func textFields(t *rwp.HWCText) []string {
	f := make([]string, 21)
	// 0: value (or font size for the unformatted modes), 1: format; both empty: value hidden (mode 7)
	switch int32(t.Formatting) {
	case 7:
	case 10, 11:
		f[1] = d(int32(t.Formatting))
		f[0] = u(t.GetTextStyling().GetUnformattedFontSize())
	default:
		if t.Formatting != 0 {
			f[1] = d(int32(t.Formatting))
		}
		f[0] = d(t.IntegerValue)
	}
	// 2: icons
	f[2] = nonZero(uint32(t.StateIcon) + uint32(t.ModifierIcon)*8)
	f[3] = t.Title
	if !t.SolidHeaderBar {
		f[4] = "1"
	}
	f[5] = t.Textline1
	f[6] = t.Textline2
	if t.IntegerValue2 != 0 {
		f[7] = d(t.IntegerValue2)
	}
	if t.PairMode != 0 {
		f[8] = d(int32(t.PairMode))
	}
	if s := t.Scale; s != nil && s.ScaleType != 0 {
		f[9] = d(int32(s.ScaleType))
		f[10] = d(s.RangeLow)
		f[11] = d(s.RangeHigh)
		f[12] = d(s.LimitLow)
		f[13] = d(s.LimitHigh)
	}
	if s := t.TextStyling; s != nil {
		var face, size uint32
		if a := s.TextFont; a != nil {
			face += uint32(a.FontFace)
			size += a.TextWidth + 4*a.TextHeight
		}
		if a := s.TitleFont; a != nil {
			face += 8 * uint32(a.FontFace)
			size += 16*a.TextWidth + 64*a.TextHeight
		}
		if s.FixedWidth {
			face += 64
		}
		f[15] = nonZero(face)
		f[16] = nonZero(size)
		f[17] = nonZero(s.TitleBarPadding + 4*s.ExtraCharacterSpacing)
	}
	if t.Inverted {
		f[18] = "1"
	}
	if t.PixelColor != nil {
		f[19] = u(wireColor(t.PixelColor))
	}
	if t.BackgroundColor != nil {
		f[20] = u(wireColor(t.BackgroundColor))
	}
	return f
}

// GfxLines are the numbered lines of at most 170 payload bytes each.
func GfxLines(id uint32, g *rwp.HWCGfx) []string {
	var out []string
	key := "HWCg"
	switch int32(g.ImageType) {
	case 1:
		key = "HWCgRGB"
	case 2:
		key = "HWCgGray"
	}
	key += "#" + u(id) + "="
	data := g.ImageData
	last := (len(data) - 1) / 170
	for i := 0; i*170 < len(data); i++ {
		line := key + strconv.Itoa(i)
		if i == 0 {
			line += "/" + strconv.Itoa(last) + "," + u(g.W) + "x" + u(g.H)
			if g.XYoffset {
				line += "," + u(g.X) + "," + u(g.Y)
			}
		}
		end := i*170 + 170
		if end > len(data) {
			end = len(data)
		}
		out = append(out, line+":"+base64.StdEncoding.EncodeToString(data[i*170:end]))
	}
	return out
}

func textIsDefault(t *rwp.HWCText) bool {
	return t.Formatting == 0 && t.IntegerValue == 0 && t.StateIcon == 0 && t.ModifierIcon == 0 && t.Title == "" && !t.SolidHeaderBar &&
		t.Textline1 == "" && t.Textline2 == "" && t.IntegerValue2 == 0 && t.PairMode == 0 && t.Scale == nil && t.TextStyling == nil && !t.Inverted &&
		t.PixelColor == nil && t.BackgroundColor == nil
}

// StateLines describes one state for one component.
func StateLines(id uint32, s *rwp.HWCState) []string {
	var out []string
	on := func(key string) string { return key + "#" + u(id) + "=" }
	if m := s.HWCMode; m != nil {
		v := uint32(m.State) + 256*m.BlinkPattern
		if m.Output {
			v += 32
		}
		out = append(out, on("HWC")+u(v))
	}
	if c := s.HWCColor; c != nil {
		if c.ColorRGB != nil {
			out = append(out, on("HWCc")+u(0xC0+twoBit(c.ColorRGB.Red)*16+twoBit(c.ColorRGB.Green)*4+twoBit(c.ColorRGB.Blue)))
		} else if c.ColorIndex != nil {
			out = append(out, on("HWCc")+u(0x80+uint32(c.ColorIndex.Index)))
		}
	}
	if x := s.HWCExtended; x != nil {
		out = append(out, on("HWCx")+u(uint32(x.Interpretation)*4096+x.Value))
	}
	if t := s.HWCText; t != nil && !textIsDefault(t) {
		out = append(out, on("HWCt")+TrimJoin(textFields(t), "|"))
	}
	if g := s.HWCGfx; g != nil {
		out = append(out, GfxLines(id, g)...)
	}
	if r := s.PublishRawADCValues; r != nil {
		out = append(out, on("HWCrawADCValues")+boolDigit(r.Enabled))
	}
	if s.Processors != nil {
		j, _ := json.Marshal(s)
		out = append(out, string(j))
	}
	return out
}

// EncodeInbound is the canonical ASCII form of system-to-panel messages.
func EncodeInbound(msgs []*rwp.InboundMessage) []string {
	var out []string
	for _, m := range msgs {
		switch int32(m.FlowMessage) {
		case 1:
			out = append(out, "ping")
		case 2:
			out = append(out, "ack")
		case 3:
			out = append(out, "nack")
		}
		if m.Command != nil {
			out = append(out, cmdLines(m.Command)...)
		}
		for _, s := range m.States {
			for _, id := range s.HWCIDs {
				out = append(out, StateLines(id, s)...)
			}
		}
		out = append(out, regLines(m.Registers)...)
	}
	return out
}

func regLines(regs []*rwp.Register) []string {
	var out []string
	for _, r := range regs {
		key := ""
		switch int32(r.Reg) {
		case 0:
			key = "Mem"
		case 1:
			key = "Flag#"
		case 2:
			key = "Shift"
		case 3:
			key = "State"
		default:
			continue
		}
		out = append(out, key+r.Id+"="+u(r.Value))
	}
	return out
}

// B64 is the payload spelling of a graphics line.
func B64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func join(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}
