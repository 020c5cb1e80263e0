package rpspec

import (
	"encoding/json"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// Each function In… is one production of the system-to-panel grammar: the lines it writes for its
// parameters and the messages these lines denote. Parameter names carry the domain: v_LO_HI is an
// integer in that range, k_each_LO_HI is taken value by value.

type inbound = []*rwp.InboundMessage

func inCmd(c *rwp.Command) inbound { return inbound{{Command: c}} }

func InFlow(k_each_0_2 int) ([]string, inbound) {
	switch k_each_0_2 {
	case 0:
		return []string{"ping"}, inbound{{FlowMessage: 1}}
	case 1:
		return []string{"ack"}, inbound{{FlowMessage: 2}}
	}
	return []string{"nack"}, inbound{{FlowMessage: 3}}
}

func InBlank() ([]string, inbound) {
	return []string{"", "ack"}, inbound{{FlowMessage: 2}}
}

func InSimpleCommands() ([]string, inbound) {
	return []string{"ActivePanel=1", "list", "map", "PanelTopology?", "BurninProfile?", "CalibrationProfile?", "NetworkConfig?", "Registers?", "Connections?",
			"RunTimeStats?", "Clear", "ClearLEDs", "ClearDisplays", "SleepTimer?", "WakeUp!", "Reboot"},
		inbound{
			{Command: &rwp.Command{ActivatePanel: true}},
			{Command: &rwp.Command{SendPanelInfo: true}},
			{Command: &rwp.Command{ReportHWCavailability: true}},
			{Command: &rwp.Command{SendPanelTopology: true}},
			{Command: &rwp.Command{SendBurninProfile: true}},
			{Command: &rwp.Command{SendCalibrationProfile: true}},
			{Command: &rwp.Command{SendNetworkConfig: true}},
			{Command: &rwp.Command{SendRegisters: true}},
			{Command: &rwp.Command{GetConnections: true}},
			{Command: &rwp.Command{GetRunTimeStats: true}},
			{Command: &rwp.Command{ClearAll: true}},
			{Command: &rwp.Command{ClearLEDs: true}},
			{Command: &rwp.Command{ClearDisplays: true}},
			{Command: &rwp.Command{GetSleepTimeout: true}},
			{Command: &rwp.Command{WakeUp: true}},
			{Command: &rwp.Command{Reboot: true}},
		}
}

func InHeartBeat(v uint32) ([]string, inbound) {
	return []string{"HeartBeatTimer=" + u(v)}, inCmd(&rwp.Command{SetHeartBeatTimer: &rwp.HeartBeatTimer{Value: v}})
}
func InDimmedGain(v uint32) ([]string, inbound) {
	return []string{"DimmedGain=" + u(v)}, inCmd(&rwp.Command{SetDimmedGain: &rwp.DimmedGain{Value: v}})
}
func InPublishSystemStat(v uint32) ([]string, inbound) {
	return []string{"PublishSystemStat=" + u(v)}, inCmd(&rwp.Command{PublishSystemStat: &rwp.PublishSystemStat{PeriodSec: v}})
}
func InLoadCPU(v_0_3 uint32) ([]string, inbound) {
	return []string{"LoadCPU=" + u(v_0_3)}, inCmd(&rwp.Command{LoadCPU: &rwp.LoadCPU{Level: rwp.LoadCPU_LevelE(v_0_3)}})
}
func InSleepTimer(v uint32) ([]string, inbound) {
	return []string{"SleepTimer=" + u(v)}, inCmd(&rwp.Command{SetSleepTimeout: &rwp.SleepTimeout{Value: v}})
}
func InSleepMode(v_0_2 uint32) ([]string, inbound) {
	return []string{"SleepMode=" + u(v_0_2)}, inCmd(&rwp.Command{SetSleepMode: &rwp.SleepMode{Mode: rwp.SleepMode_SlpMode(v_0_2)}})
}
func InSleepScreenSaver(v_0_3 uint32) ([]string, inbound) {
	return []string{"SleepScreenSaver=" + u(v_0_3)}, inCmd(&rwp.Command{SetSleepScreenSaver: &rwp.SleepScreenSaver{Type: rwp.SleepScreenSaver_SlpScrSaver(v_0_3)}})
}
func InWebserver(v_0_1 uint32) ([]string, inbound) {
	return []string{"Webserver=" + u(v_0_1)}, inCmd(&rwp.Command{SetWebserverEnabled: &rwp.WebserverState{Enabled: v_0_1 == 1}})
}
func InJSONonOutbound(v_0_1 uint32) ([]string, inbound) {
	return []string{"JSONonOutbound=" + u(v_0_1)}, inCmd(&rwp.Command{JSONconfig: &rwp.JSONconfig{Outbound: v_0_1 == 1}})
}
func InBrightness1(v uint32) ([]string, inbound) {
	return []string{"PanelBrightness=" + u(v)}, inCmd(&rwp.Command{PanelBrightness: &rwp.Brightness{LEDs: v, OLEDs: v}})
}
func InBrightness2(v, w uint32) ([]string, inbound) {
	return []string{"PanelBrightness=" + u(v) + "," + u(w)}, inCmd(&rwp.Command{PanelBrightness: &rwp.Brightness{LEDs: v, OLEDs: w}})
}
func InCalibrationProfile(text string) ([]string, inbound) {
	return []string{"SetCalibrationProfile=" + text}, inCmd(&rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: text}})
}
func InNetworkConfig(c *rwp.NetworkConfig) ([]string, inbound) {
	j, _ := json.Marshal(c)
	return []string{"SetNetworkConfig=" + string(j)}, inCmd(&rwp.Command{SetNetworkConfig: c})
}
func InEnvHealth() ([]string, inbound) {
	return []string{"SimulateEnvironmentalHealth=Normal", "SimulateEnvironmentalHealth=Safemode", "SimulateEnvironmentalHealth=Blocked"}, inbound{
		{Command: &rwp.Command{SimulateEnvironmentalHealth: &rwp.Environment{RunMode: 0}}},
		{Command: &rwp.Command{SimulateEnvironmentalHealth: &rwp.Environment{RunMode: 1}}},
		{Command: &rwp.Command{SimulateEnvironmentalHealth: &rwp.Environment{RunMode: 2}}},
	}
}

func inState(s *rwp.HWCState) inbound { return inbound{{States: []*rwp.HWCState{s}}} }

// scale3 expands a two-bit colour component.
func scale3(v uint32) uint32 { return v * 85 }

func InMode(id uint32, state_0_15, blink_0_15 uint32, out bool) ([]string, inbound) {
	v := state_0_15 + 256*blink_0_15
	if out {
		v += 32
	}
	return []string{"HWC#" + u(id) + "=" + u(v)}, inState(&rwp.HWCState{HWCIDs: []uint32{id},
		HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(state_0_15), BlinkPattern: blink_0_15, Output: out}})
}

func InModeMulti(a, b, c uint32, state_0_15 uint32) ([]string, inbound) {
	return []string{"HWC#" + u(a) + "," + u(b) + "," + u(c) + "=" + u(state_0_15)}, inState(&rwp.HWCState{HWCIDs: []uint32{a, b, c},
		HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(state_0_15)}})
}

func InExtended(id uint32, kind_0_15, v_0_4095 uint32) ([]string, inbound) {
	return []string{"HWCx#" + u(id) + "=" + u(kind_0_15*4096+v_0_4095)}, inState(&rwp.HWCState{HWCIDs: []uint32{id},
		HWCExtended: &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(kind_0_15), Value: v_0_4095}})
}

func InExtendedMulti(a, b uint32, v_0_4095 uint32) ([]string, inbound) {
	return []string{"HWCx#" + u(a) + "," + u(b) + "=" + u(v_0_4095)}, inState(&rwp.HWCState{HWCIDs: []uint32{a, b},
		HWCExtended: &rwp.HWCExtended{Value: v_0_4095}})
}

// colours: bit 7 is the readability bit and carries no meaning of its own
func InColorRGB(id uint32, r_0_3, g_0_3, b_0_3 uint32, readable bool) ([]string, inbound) {
	v := 64 + r_0_3*16 + g_0_3*4 + b_0_3
	if readable {
		v += 128
	}
	return []string{"HWCc#" + u(id) + "=" + u(v)}, inState(&rwp.HWCState{HWCIDs: []uint32{id},
		HWCColor: &rwp.HWCColor{ColorRGB: &rwp.ColorRGB{Red: scale3(r_0_3), Green: scale3(g_0_3), Blue: scale3(b_0_3)}}})
}

func InColorIndex(id uint32, i_0_31 uint32, readable bool) ([]string, inbound) {
	v := i_0_31
	if readable {
		v += 128
	}
	return []string{"HWCc#" + u(id) + "=" + u(v)}, inState(&rwp.HWCState{HWCIDs: []uint32{id},
		HWCColor: &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(i_0_31)}}})
}

func InColorMulti(a, b uint32, i_0_31 uint32) ([]string, inbound) {
	return []string{"HWCc#" + u(a) + "," + u(b) + "=" + u(i_0_31)}, inState(&rwp.HWCState{HWCIDs: []uint32{a, b},
		HWCColor: &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(i_0_31)}}})
}

func InRawADC(id uint32, on bool) ([]string, inbound) {
	return []string{"HWCrawADCValues#" + u(id) + "=" + boolDigit(on)}, inState(&rwp.HWCState{HWCIDs: []uint32{id},
		PublishRawADCValues: &rwp.PublishRawADCValues{Enabled: on}})
}

func InRawADCMulti(a, b uint32, on bool) ([]string, inbound) {
	return []string{"HWCrawADCValues#" + u(a) + "," + u(b) + "=" + boolDigit(on)}, inState(&rwp.HWCState{HWCIDs: []uint32{a, b},
		PublishRawADCValues: &rwp.PublishRawADCValues{Enabled: on}})
}

func optU(given bool, v uint32) string {
	if given {
		return u(v)
	}
	return ""
}

func optD(given bool, v int32) string {
	if given {
		return d(v)
	}
	return ""
}

// InTextHead: text lines cut after 1 … 9 fields; a field may also be present but empty.
func InTextHead(k_each_1_9 int, id uint32, h0 bool, v0 int32, h1 bool, fmt_0_10 uint32, h2 bool, state_0_3, mod_0_7 uint32, field3 string, h4 bool, nobar_0_1 uint32, field5, field6 string, h7 bool, v7 int32, h8 bool, pair_0_4 uint32) ([]string, inbound) {
	k, form := k_each_1_9, fmt_0_10
	if form == 10 {
		form = 12
	}
	has := func(i int, p bool) bool { return i < k && p }
	f := make([]string, k)
	set := func(i int, s string) {
		if i < k {
			f[i] = s
		}
	}
	set(0, optD(h0, v0))
	set(1, optU(h1, form))
	set(2, optU(h2, state_0_3+8*mod_0_7))
	set(3, field3)
	set(4, optU(h4, nobar_0_1))
	set(5, field5)
	set(6, field6)
	set(7, optD(h7, v7))
	set(8, optU(h8, pair_0_4))
	line := "HWCt#" + u(id) + "=" + strings.Join(f, "|")

	t := blankText()
	if has(1, h1) {
		t.Formatting = rwp.HWCText_FormattingE(form)
	}
	if !h0 && t.Formatting == 0 {
		t.Formatting = 7
	}
	if h0 && t.Formatting != 7 {
		t.IntegerValue = v0
	}
	if has(2, h2) {
		t.StateIcon = rwp.HWCText_StateIconE(state_0_3)
		t.ModifierIcon = rwp.HWCText_ModifierIconE(mod_0_7)
	}
	if k > 3 {
		t.Title = field3
	}
	if t.Title != "" && !(has(4, h4) && nobar_0_1 == 1) {
		t.SolidHeaderBar = true
	}
	if k > 5 {
		t.Textline1 = field5
	}
	if k > 6 {
		t.Textline2 = field6
	}
	if has(7, h7) {
		t.IntegerValue2 = v7
	}
	if has(8, h8) {
		t.PairMode = rwp.HWCText_PairModeE(pair_0_4)
	}
	// a second value or a second text line makes it at least a plain pair
	if (has(7, h7) || t.Textline2 != "") && t.PairMode == 0 {
		t.PairMode = 1
	}
	return []string{line}, inState(&rwp.HWCState{HWCIDs: []uint32{id}, HWCText: t})
}

func blankText() *rwp.HWCText {
	return &rwp.HWCText{
		Scale:       &rwp.HWCText_ScaleM{},
		TextStyling: &rwp.HWCText_TextStyle{TextFont: &rwp.HWCText_TextStyle_Font{}, TitleFont: &rwp.HWCText_TextStyle_Font{}},
	}
}

// InTextTail: text lines of 10 … 21 fields with styling.
func InTextTail(k_each_10_21 int, id uint32, v0 int32, field3 string, h9 bool, scale_0_3 uint32, h10 bool, v10 int32, h11 bool, v11 int32, h12 bool, v12 int32, h13 bool, v13 int32,
	h15 bool, face_0_7, tface_0_7 uint32, fixed bool, h16 bool, w_0_3, h_0_3, tw_0_3, th_0_3 uint32, h17 bool, pad_0_3, spacing_0_7 uint32, h18 bool, inv_0_1 uint32, h19 bool, fg_0_31 uint32, fgrgb bool, r_0_3 uint32, g_0_3 uint32, b_0_3 uint32, h20 bool, bg_0_31 uint32, bgrgb bool, br_0_3 uint32) ([]string, inbound) {
	k := k_each_10_21
	has := func(i int, p bool) bool { return i < k && p }
	f := make([]string, k)
	set := func(i int, s string) {
		if i < k {
			f[i] = s
		}
	}
	set(0, d(v0))
	set(3, field3)
	set(9, optU(h9, scale_0_3))
	set(10, optD(h10, v10))
	set(11, optD(h11, v11))
	set(12, optD(h12, v12))
	set(13, optD(h13, v13))
	faces := face_0_7 + 8*tface_0_7
	if fixed {
		faces += 64
	}
	set(15, optU(h15, faces))
	set(16, optU(h16, w_0_3+4*h_0_3+16*tw_0_3+64*th_0_3))
	set(17, optU(h17, pad_0_3+4*spacing_0_7))
	set(18, optU(h18, inv_0_1))
	fg, bg := fg_0_31, bg_0_31
	if fgrgb {
		fg = 64 + 16*r_0_3 + 4*g_0_3 + b_0_3
	}
	if bgrgb {
		bg = 64 + 16*br_0_3 + 1
	}
	set(19, optU(h19, fg))
	set(20, optU(h20, bg))
	line := "HWCt#" + u(id) + "=" + strings.Join(f, "|")

	t := blankText()
	t.IntegerValue = v0
	t.Title = field3
	t.SolidHeaderBar = field3 != ""
	if has(9, h9) {
		t.Scale.ScaleType = rwp.HWCText_ScaleM_ScaleTypeE(scale_0_3)
	}
	if has(10, h10) {
		t.Scale.RangeLow = v10
	}
	if has(11, h11) {
		t.Scale.RangeHigh = v11
	}
	if has(12, h12) {
		t.Scale.LimitLow = v12
	}
	if has(13, h13) {
		t.Scale.LimitHigh = v13
	}
	if has(15, h15) {
		t.TextStyling.TextFont.FontFace = rwp.HWCText_TextStyle_Font_FontFaceE(face_0_7)
		t.TextStyling.TitleFont.FontFace = rwp.HWCText_TextStyle_Font_FontFaceE(tface_0_7)
		t.TextStyling.FixedWidth = fixed
	}
	if has(16, h16) {
		t.TextStyling.TextFont.TextWidth = w_0_3
		t.TextStyling.TextFont.TextHeight = h_0_3
		t.TextStyling.TitleFont.TextWidth = tw_0_3
		t.TextStyling.TitleFont.TextHeight = th_0_3
	}
	if has(17, h17) {
		t.TextStyling.TitleBarPadding = pad_0_3
		t.TextStyling.ExtraCharacterSpacing = spacing_0_7
	}
	if has(18, h18) {
		t.Inverted = inv_0_1 == 1
	}
	if has(19, h19) {
		if fgrgb {
			t.PixelColor = &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: scale3(r_0_3), Green: scale3(g_0_3), Blue: scale3(b_0_3)}}
		} else if fg_0_31 != 0 {
			t.PixelColor = &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(fg_0_31)}}
		}
	}
	if has(20, h20) {
		if bgrgb {
			t.BackgroundColor = &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: scale3(br_0_3), Green: 0, Blue: 85}}
		} else if bg_0_31 != 0 {
			t.BackgroundColor = &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(bg_0_31)}}
		}
	}
	return []string{line}, inState(&rwp.HWCState{HWCIDs: []uint32{id}, HWCText: t})
}

// InTextUnformatted: formats 10 and 11 take the font size from the first field; no title bar, no pair.
func InTextUnformatted(id uint32, size uint32, fmt_10_11 uint32, field3, field5, field6 string) ([]string, inbound) {
	t := blankText()
	t.Formatting = rwp.HWCText_FormattingE(fmt_10_11)
	t.TextStyling.UnformattedFontSize = size
	t.Title, t.Textline1, t.Textline2 = field3, field5, field6
	return []string{"HWCt#" + u(id) + "=" + u(size) + "|" + u(fmt_10_11) + "||" + field3 + "||" + field5 + "|" + field6},
		inState(&rwp.HWCState{HWCIDs: []uint32{id}, HWCText: t})
}

func InTextMulti(a, b uint32, v int32) ([]string, inbound) {
	t := blankText()
	t.IntegerValue = v
	return []string{"HWCt#" + u(a) + "," + u(b) + "=" + d(v)}, inState(&rwp.HWCState{HWCIDs: []uint32{a, b}, HWCText: t})
}

func gfxKey(kind int) string {
	switch kind {
	case 1:
		return "HWCgRGB#"
	case 2:
		return "HWCgGray#"
	}
	return "HWCg#"
}

// InGfxSimple: three lines, 64x32 pixels.
func InGfxSimple(kind_each_0_2 int, id uint32, b64a, b64b, b64c []byte) ([]string, inbound) {
	h := gfxKey(kind_each_0_2) + u(id) + "="
	return []string{h + "0:" + B64(b64a), h + "1:" + B64(b64b), h + "2:" + B64(b64c)},
		inState(&rwp.HWCState{HWCIDs: []uint32{id}, HWCGfx: &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(kind_each_0_2), W: 64, H: 32, ImageData: join(b64a, b64b, b64c)}})
}

// InGfxOne / InGfxTwo / InGfxFour: the advanced format with 1, 2 and 4 lines.
func InGfxOne(kind_each_0_2 int, id, w, h uint32, b64a []byte) ([]string, inbound) {
	return []string{gfxKey(kind_each_0_2) + u(id) + "=0/0," + u(w) + "x" + u(h) + ":" + B64(b64a)},
		inState(&rwp.HWCState{HWCIDs: []uint32{id}, HWCGfx: &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(kind_each_0_2), W: w, H: h, ImageData: join(b64a)}})
}

func InGfxTwo(kind_each_0_2 int, a, b, w, h, x, y uint32, b64a, b64b []byte) ([]string, inbound) {
	key := gfxKey(kind_each_0_2) + u(a) + "," + u(b) + "="
	return []string{key + "0/1," + u(w) + "x" + u(h) + "," + u(x) + "," + u(y) + ":" + B64(b64a), key + "1:" + B64(b64b)},
		inState(&rwp.HWCState{HWCIDs: []uint32{a, b}, HWCGfx: &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(kind_each_0_2), W: w, H: h, XYoffset: true, X: x, Y: y, ImageData: join(b64a, b64b)}})
}

func InGfxFour(kind_each_0_2 int, id, w, h uint32, b64a, b64b, b64c, b64d []byte) ([]string, inbound) {
	key := gfxKey(kind_each_0_2) + u(id) + "="
	return []string{key + "0/3," + u(w) + "x" + u(h) + ":" + B64(b64a), key + "1:" + B64(b64b), key + "2:" + B64(b64c), key + "3:" + B64(b64d)},
		inState(&rwp.HWCState{HWCIDs: []uint32{id}, HWCGfx: &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(kind_each_0_2), W: w, H: h, ImageData: join(b64a, b64b, b64c, b64d)}})
}

func InRegisters(reg string, v uint32, flag uint32, on_0_1 uint32) ([]string, inbound) {
	return []string{"Mem" + reg + "=" + u(v), "Flag#" + u(flag) + "=" + u(on_0_1), "Shift" + reg + "=" + u(v), "State" + reg + "=" + u(v)}, inbound{
		{Registers: []*rwp.Register{{Reg: 0, Id: reg, Value: v}}},
		{Registers: []*rwp.Register{{Reg: 1, Id: u(flag), Value: on_0_1}}},
		{Registers: []*rwp.Register{{Reg: 2, Id: reg, Value: v}}},
		{Registers: []*rwp.Register{{Reg: 3, Id: reg, Value: v}}},
	}
}

// InJSONState: a JSON object is one state.
func InJSONState(st *rwp.HWCState) ([]string, inbound) {
	j, _ := json.Marshal(st)
	return []string{string(j)}, inState(st)
}

// InJSONMessages: a JSON array is a list of complete messages.
func InJSONMessages(st *rwp.InboundMessage) ([]string, inbound) {
	j, _ := json.Marshal([]*rwp.InboundMessage{st, st})
	return []string{string(j)}, inbound{st, st}
}

// InSequence: effects appear in line order.
func InSequence(id, v, w uint32, text string, state_0_15 uint32) ([]string, inbound) {
	return []string{"HWC#" + u(id) + "=" + u(state_0_15), "ping", "HeartBeatTimer=" + u(v), "HWC#" + u(id) + "=" + u(state_0_15), "SetCalibrationProfile=" + text, "DimmedGain=" + u(w), "Clear"}, inbound{
		{States: []*rwp.HWCState{{HWCIDs: []uint32{id}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(state_0_15)}}}},
		{FlowMessage: 1},
		{Command: &rwp.Command{SetHeartBeatTimer: &rwp.HeartBeatTimer{Value: v}}},
		{States: []*rwp.HWCState{{HWCIDs: []uint32{id}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(state_0_15)}}}},
		{Command: &rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: text}}},
		{Command: &rwp.Command{SetDimmedGain: &rwp.DimmedGain{Value: w}}},
		{Command: &rwp.Command{ClearAll: true}},
	}
}

// many is a list of 40 component numbers, the first, one in the middle and the last arbitrary.
func many(a, b, c uint32) (string, []uint32) {
	var ids []uint32
	t := ""
	for k := uint32(0); k < 40; k++ {
		v := 100 + k
		switch k {
		case 0:
			v = a
		case 17:
			v = b
		case 39:
			v = c
		}
		if k > 0 {
			t += ","
		}
		t += u(v)
		ids = append(ids, v)
	}
	return t, ids
}

// InManyTargets: a state addressed to many components.
func InManyTargets(kind_each_0_5 int, a, b, c uint32, b64a, b64b []byte) ([]string, inbound) {
	t, ids := many(a, b, c)
	switch kind_each_0_5 {
	case 0:
		return []string{"HWC#" + t + "=4"}, inState(&rwp.HWCState{HWCIDs: ids, HWCMode: &rwp.HWCMode{State: 4}})
	case 1:
		return []string{"HWCx#" + t + "=8197"}, inState(&rwp.HWCState{HWCIDs: ids, HWCExtended: &rwp.HWCExtended{Interpretation: 2, Value: 5}})
	case 2:
		return []string{"HWCc#" + t + "=131"}, inState(&rwp.HWCState{HWCIDs: ids, HWCColor: &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: 3}}})
	case 3:
		x := blankText()
		x.IntegerValue = 12
		return []string{"HWCt#" + t + "=12"}, inState(&rwp.HWCState{HWCIDs: ids, HWCText: x})
	case 4:
		return []string{"HWCrawADCValues#" + t + "=1"}, inState(&rwp.HWCState{HWCIDs: ids, PublishRawADCValues: &rwp.PublishRawADCValues{Enabled: true}})
	}
	return []string{"HWCg#" + t + "=0/1,8x8:" + B64(b64a), "HWCg#" + t + "=1:" + B64(b64b)}, inState(&rwp.HWCState{HWCIDs: ids, HWCGfx: &rwp.HWCGfx{W: 8, H: 8, ImageData: join(b64a, b64b)}})
}

// InManyLines: many lines in one batch.
func InManyLines(id, v uint32, text string) (lines []string, out inbound) {
	for k := uint32(0); k < 60; k++ {
		lines = append(lines, "HWC#"+u(id)+"="+u(k%6), "DimmedGain="+u(v), "SetCalibrationProfile="+text, "ping")
		out = append(out, &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{id}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(k % 6)}}}},
			&rwp.InboundMessage{Command: &rwp.Command{SetDimmedGain: &rwp.DimmedGain{Value: v}}},
			&rwp.InboundMessage{Command: &rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: text}}}, &rwp.InboundMessage{FlowMessage: 1})
	}
	return
}

// WithinIn puts the lines of a production, twice, between lines of every other kind, each followed by a blank
// line and by a line that is not part of the grammar.
func WithinIn(ls []string, ms []*rwp.InboundMessage) (lines []string, out []*rwp.InboundMessage) {
	add := func(l string, m *rwp.InboundMessage) {
		lines = append(lines, l, "", "NoSuchThing=1")
		out = append(out, m)
	}
	t := blankText()
	t.IntegerValue, t.Formatting, t.Title, t.SolidHeaderBar, t.Textline1, t.Textline2, t.IntegerValue2, t.PairMode, t.Inverted = 5, 2, "A", true, "B", "C", 6, 3, true
	t.StateIcon, t.ModifierIcon = 1, 2
	t.PixelColor = &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: 3}}
	t.BackgroundColor = &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: 4}}
	around := func() {
		add("ack", &rwp.InboundMessage{FlowMessage: 2})
		add("HWC#9,10=1316", inState(&rwp.HWCState{HWCIDs: []uint32{9, 10}, HWCMode: &rwp.HWCMode{State: 4, BlinkPattern: 5, Output: true}})[0])
		add("HWCx#9=8197", inState(&rwp.HWCState{HWCIDs: []uint32{9}, HWCExtended: &rwp.HWCExtended{Interpretation: 2, Value: 5}})[0])
		add("HWCc#9=131", inState(&rwp.HWCState{HWCIDs: []uint32{9}, HWCColor: &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: 3}}})[0])
		add("HWCt#9=5|2|17|A||B|C|6|3||||||||||1|3|4", inState(&rwp.HWCState{HWCIDs: []uint32{9}, HWCText: t})[0])
		add("HWCrawADCValues#9=1", inState(&rwp.HWCState{HWCIDs: []uint32{9}, PublishRawADCValues: &rwp.PublishRawADCValues{Enabled: true}})[0])
		add("PanelBrightness=3,4", inCmd(&rwp.Command{PanelBrightness: &rwp.Brightness{LEDs: 3, OLEDs: 4}})[0])
		add("SleepTimer=77", inCmd(&rwp.Command{SetSleepTimeout: &rwp.SleepTimeout{Value: 77}})[0])
		add("SetCalibrationProfile=Z", inCmd(&rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: "Z"}})[0])
		add("MemA=4", &rwp.InboundMessage{Registers: []*rwp.Register{{Reg: 0, Id: "A", Value: 4}}})
		add("Clear", inCmd(&rwp.Command{ClearAll: true})[0])
		for _, l := range []string{"0/3,32x32,1,2:AAAA", "1:BBBB", "2:CCCC"} {
			lines = append(lines, "HWCgRGB#9="+l)
		}
		add("HWCgRGB#9=3:DDDD", inState(&rwp.HWCState{HWCIDs: []uint32{9}, HWCGfx: &rwp.HWCGfx{ImageType: 1, W: 32, H: 32, XYoffset: true, X: 1, Y: 2, ImageData: []byte{0, 0, 0, 4, 16, 65, 8, 32, 130, 12, 48, 195}}})[0])
		lines = append(lines, "HWCgGray#9=0/7,16x16:AAAA", "") // never completed
	}
	around()
	lines, out = append(lines, ls...), append(out, ms...)
	lines = append(lines, "", "NoSuchThing=1")
	lines, out = append(lines, ls...), append(out, ms...)
	around()
	return lines, effective(out)
}
