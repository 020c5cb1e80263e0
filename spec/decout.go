package rpspec

import (
	"encoding/json"
	"strconv"
	"strings"

	rawpanellib "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// Each function Out… is one production of the panel-to-system grammar (conventions as in decin.go).

type outbound = []*rwp.OutboundMessage

func outEv(e ...*rwp.HWCEvent) outbound { return outbound{{Events: e}} }

func OutFlow() ([]string, outbound) {
	return []string{"ping", "ack", "nack", "BSY", "RDY", "list"}, outbound{{FlowMessage: 1}, {FlowMessage: 2}, {FlowMessage: 3}, {FlowMessage: 4}, {FlowMessage: 5}, {FlowMessage: 100}}
}

func OutBlank() ([]string, outbound) {
	return []string{"", "RDY"}, outbound{{FlowMessage: 5}}
}

func button(id uint32, edge int32, down bool) *rwp.HWCEvent {
	return &rwp.HWCEvent{HWCID: id, Binary: &rwp.BinaryEvent{Pressed: down, Edge: rwp.BinaryEvent_EdgeID(edge)}}
}

func OutButton(id uint32) ([]string, outbound) {
	return []string{"HWC#" + u(id) + "=Down", "HWC#" + u(id) + "=Up"}, outbound{{Events: []*rwp.HWCEvent{button(id, 0, true)}}, {Events: []*rwp.HWCEvent{button(id, 0, false)}}}
}
func OutButtonEdge(id uint32, edge_0_255 int32) ([]string, outbound) {
	h := "HWC#" + u(id) + "." + d(edge_0_255)
	return []string{h + "=Down", h + "=Up"}, outbound{{Events: []*rwp.HWCEvent{button(id, edge_0_255, true)}}, {Events: []*rwp.HWCEvent{button(id, edge_0_255, false)}}}
}
func OutPress(id uint32) ([]string, outbound) {
	return []string{"HWC#" + u(id) + "=Press"}, outEv(button(id, 0, true), button(id, 0, false))
}
func OutPressEdge(id uint32, edge_0_255 int32) ([]string, outbound) {
	return []string{"HWC#" + u(id) + "." + d(edge_0_255) + "=Press"}, outEv(button(id, edge_0_255, true), button(id, edge_0_255, false))
}
func OutEnc(id uint32, v int32) ([]string, outbound) {
	return []string{"HWC#" + u(id) + "=Enc:" + d(v)}, outEv(&rwp.HWCEvent{HWCID: id, Pulsed: &rwp.PulsedEvent{Value: v}})
}
func OutAbs(id uint32, v uint32) ([]string, outbound) {
	return []string{"HWC#" + u(id) + "=Abs:" + u(v)}, outEv(&rwp.HWCEvent{HWCID: id, Absolute: &rwp.AbsoluteEvent{Value: v}})
}
func OutSpeed(id uint32, v int32) ([]string, outbound) {
	return []string{"HWC#" + u(id) + "=Speed:" + d(v)}, outEv(&rwp.HWCEvent{HWCID: id, Speed: &rwp.SpeedEvent{Value: v}})
}
func OutRaw(id uint32, v uint32) ([]string, outbound) {
	return []string{"HWC#" + u(id) + "=Raw:" + u(v)}, outEv(&rwp.HWCEvent{HWCID: id, RawAnalog: &rwp.RawAnalogEvent{Value: v}})
}

func OutMap(id, v uint32) ([]string, outbound) {
	return []string{"map=" + u(id) + ":" + u(v)}, outbound{{HWCavailability: map[uint32]uint32{id: v}}}
}
func OutMapTwo(v, w uint32) ([]string, outbound) {
	return []string{"map=4:" + u(v), "map=4:" + u(w), "map=17:" + u(w)}, outbound{{HWCavailability: map[uint32]uint32{4: v}}, {HWCavailability: map[uint32]uint32{4: w}}, {HWCavailability: map[uint32]uint32{17: w}}}
}

func outInfo(p *rwp.PanelInfo) outbound { return outbound{{PanelInfo: p}} }

func OutModel(text string) ([]string, outbound) {
	return []string{"_model=" + text}, outInfo(&rwp.PanelInfo{Model: text})
}
func OutSerial(text string) ([]string, outbound) {
	return []string{"_serial=" + text}, outInfo(&rwp.PanelInfo{Serial: text})
}
func OutVersion(text string) ([]string, outbound) {
	return []string{"_version=" + text}, outInfo(&rwp.PanelInfo{SoftwareVersion: text})
}
func OutPlatform(text string) ([]string, outbound) {
	return []string{"_platform=" + text}, outInfo(&rwp.PanelInfo{Platform: text})
}
func OutName(text string) ([]string, outbound) {
	return []string{"_name=" + text}, outInfo(&rwp.PanelInfo{Name: text})
}
func OutBluePill(on_0_1 uint32) ([]string, outbound) {
	return []string{"_bluePillReady=" + u(on_0_1)}, outInfo(&rwp.PanelInfo{BluePillReady: on_0_1 == 1})
}
func OutPanelType() ([]string, outbound) {
	return []string{"_panelType=BPI", "_panelType=Physical", "_panelType=Emulation", "_panelType=Touch", "_panelType=Composite"}, outbound{
		{PanelInfo: &rwp.PanelInfo{PanelType: 1}}, {PanelInfo: &rwp.PanelInfo{PanelType: 2}}, {PanelInfo: &rwp.PanelInfo{PanelType: 3}},
		{PanelInfo: &rwp.PanelInfo{PanelType: 4}}, {PanelInfo: &rwp.PanelInfo{PanelType: 5}}}
}
func OutMaxClients(v uint32) ([]string, outbound) {
	return []string{"_serverModeMaxClients=" + u(v)}, outInfo(&rwp.PanelInfo{MaxClients: v})
}
func OutLockOne(item string) ([]string, outbound) {
	return []string{"_serverModeLockToIP=" + item}, outInfo(&rwp.PanelInfo{LockedToIPs: []string{item}})
}
func OutLockThree(itema, itemb, itemc string) ([]string, outbound) {
	return []string{"_serverModeLockToIP=" + itema + ";" + itemb + ";" + itemc}, outInfo(&rwp.PanelInfo{LockedToIPs: []string{itema, itemb, itemc}})
}
func OutConnections(itema, itemb string) ([]string, outbound) {
	return []string{"_connections=" + itema + ";" + itemb, "_connections=" + itema}, outbound{{Connections: &rwp.Connections{Connection: []string{itema, itemb}}}, {Connections: &rwp.Connections{Connection: []string{itema}}}}
}

func supportSet(s *rwp.RawPanelSupport, k int) {
	switch k {
	case 0:
		s.ASCII = true
	case 1:
		s.Binary = true
	case 2:
		s.ASCII_JSONfeedback = true
	case 3:
		s.ASCII_Inbound = true
	case 4:
		s.ASCII_Outbound = true
	case 5:
		s.System = true
	case 6:
		s.RawADCValues = true
	case 7:
		s.BurninProfile = true
	case 8:
		s.EnvHealth = true
	case 9:
		s.Registers = true
	case 10:
		s.Calibration = true
	case 11:
		s.Processors = true
	case 12:
		s.NetworkSettings = true
	}
}

func supportWord(k int) string {
	switch k {
	case 0:
		return "ASCII"
	case 1:
		return "Binary"
	case 2:
		return "JSONFeedback"
	case 3:
		return "JSONonInbound"
	case 4:
		return "JSONonOutbound"
	case 5:
		return "System"
	case 6:
		return "RawADCValues"
	case 7:
		return "BurninProfile"
	case 8:
		return "EnvHealth"
	case 9:
		return "Registers"
	case 10:
		return "Calibration"
	case 11:
		return "Processors"
	}
	return "NetworkSettings"
}

// OutSupportOne: a single capability.
func OutSupportOne(k_each_0_12 int) ([]string, outbound) {
	s := &rwp.RawPanelSupport{}
	supportSet(s, k_each_0_12)
	return []string{"_support=" + supportWord(k_each_0_12)}, outInfo(&rwp.PanelInfo{RawPanelSupport: s})
}

// OutSupportPair: two capabilities, in either order.
func OutSupportPair(k_each_0_12 int) ([]string, outbound) {
	o := (k_each_0_12 + 1) % 13
	s := &rwp.RawPanelSupport{}
	supportSet(s, k_each_0_12)
	supportSet(s, o)
	return []string{"_support=" + supportWord(k_each_0_12) + "," + supportWord(o), "_support=" + supportWord(o) + "," + supportWord(k_each_0_12)}, outbound{{PanelInfo: &rwp.PanelInfo{RawPanelSupport: s}}, {PanelInfo: &rwp.PanelInfo{RawPanelSupport: s}}}
}

// OutSupportAny: any subset that contains ASCII.
func OutSupportAny(h1, h2, h3, h4, h5, h6, h7, h8, h9, h10, h11, h12 bool) ([]string, outbound) {
	s := &rwp.RawPanelSupport{ASCII: true}
	line := "_support=ASCII"
	add := func(k int, on bool) {
		if on {
			line += "," + supportWord(k)
			supportSet(s, k)
		}
	}
	add(1, h1)
	add(2, h2)
	add(3, h3)
	add(4, h4)
	add(5, h5)
	add(6, h6)
	add(7, h7)
	add(8, h8)
	add(9, h9)
	add(10, h10)
	add(11, h11)
	add(12, h12)
	return []string{line}, outInfo(&rwp.PanelInfo{RawPanelSupport: s})
}

func OutSleeping(on_0_1 uint32) ([]string, outbound) {
	return []string{"_isSleeping=" + u(on_0_1)}, outbound{{SleepState: &rwp.SleepState{IsSleeping: on_0_1 == 1}}}
}
func OutSleepTimer(v uint32) ([]string, outbound) {
	return []string{"_sleepTimer=" + u(v)}, outbound{{SleepTimeout: &rwp.SleepTimeout{Value: v}}}
}
func OutHeartBeat(v uint32) ([]string, outbound) {
	return []string{"_heartBeatTimer=" + u(v)}, outbound{{HeartBeatTimer: &rwp.HeartBeatTimer{Value: v}}}
}
func OutDimmedGain(v uint32) ([]string, outbound) {
	return []string{"DimmedGain=" + u(v)}, outbound{{DimmedGain: &rwp.DimmedGain{Value: v}}}
}
func OutTopologySvg(text string) ([]string, outbound) {
	return []string{"_panelTopology_svgbase=" + text}, outbound{{PanelTopology: &rwp.PanelTopology{Svgbase: text}}}
}
func OutTopologyJson(text string) ([]string, outbound) {
	return []string{"_panelTopology_HWC=" + text}, outbound{{PanelTopology: &rwp.PanelTopology{Json: text}}}
}
func OutBurnin(text string) ([]string, outbound) {
	return []string{"_burninProfile=" + text}, outbound{{BurninProfile: &rwp.BurninProfile{Json: text}}}
}
func OutCalibration(text string) ([]string, outbound) {
	return []string{"_calibrationProfile=" + text}, outbound{{CalibrationProfile: &rwp.CalibrationProfile{Json: text}}}
}
func OutDefaultCalibration(text string) ([]string, outbound) {
	return []string{"_defaultCalibrationProfile=" + text}, outbound{{DefaultCalibrationProfile: &rwp.CalibrationProfile{Json: text}}}
}
func OutNetworkConfig(c *rwp.NetworkConfig) ([]string, outbound) {
	j, _ := json.Marshal(c)
	return []string{"_networkConfig=" + string(j)}, outbound{{NetworkConfig: c}}
}
func OutRunTime(v, w, x, y uint32) ([]string, outbound) {
	return []string{"_bootsCount=" + u(v), "_totalUptimeMin=" + u(w), "_sessionUptimeMin=" + u(x), "_screenSaverOnMin=" + u(y)}, outbound{
		{RunTimeStats: &rwp.RunTimeStats{BootsCount: v}}, {RunTimeStats: &rwp.RunTimeStats{TotalUptime: w}},
		{RunTimeStats: &rwp.RunTimeStats{SessionUptime: x}}, {RunTimeStats: &rwp.RunTimeStats{ScreenSaveOnTime: y}}}
}
func OutMessages(text, textb string) ([]string, outbound) {
	return []string{"ErrorMsg=" + text, "Msg=" + textb}, outbound{{ErrorMessage: &rwp.Message{Message: text}}, {Message: &rwp.Message{Message: textb}}}
}
func OutHealth() ([]string, outbound) {
	return []string{"EnvironmentalHealth=Normal", "EnvironmentalHealth=Safemode", "EnvironmentalHealth=Blocked"}, outbound{
		{EnvironmentalHealth: &rwp.Environment{RunMode: 0}}, {EnvironmentalHealth: &rwp.Environment{RunMode: 1}}, {EnvironmentalHealth: &rwp.Environment{RunMode: 2}}}
}

func f32(s string) float32 {
	f, _ := strconv.ParseFloat(s, 32)
	return float32(f)
}

func decimal(neg bool, numa, numb string) string {
	s := numa + "." + numb
	if neg {
		s = "-" + s
	}
	return s
}

// OutSysStatOne: one statistic; with and without the closing colon.
func OutSysStatOne(k_each_0_19 int, v uint32, w int32, b bool, neg bool, numa, numb string) ([]string, outbound) {
	s := &rwp.SystemStat{}
	t := ""
	f := decimal(neg, numa, numb)
	switch k_each_0_19 {
	case 0:
		t, s.CPUUsage = "CPUUsage:"+u(v), v
	case 1:
		t, s.CPUTemp = "CPUTemp:"+f, f32(f)
	case 2:
		t, s.ExtTemp = "ExtTemp:"+f, f32(f)
	case 3:
		t, s.CPUVoltage = "CPUVoltage:"+f, f32(f)
	case 4:
		t, s.CPUFreqCurrent = "CPUFreqCurrent:"+d(w), w
	case 5:
		t, s.CPUFreqMin = "CPUFreqMin:"+d(w), w
	case 6:
		t, s.CPUFreqMax = "CPUFreqMax:"+d(w), w
	case 7:
		t, s.MemTotal = "MemTotal:"+d(w), w
	case 8:
		t, s.MemFree = "MemFree:"+d(w), w
	case 9:
		t, s.MemAvailable = "MemAvailable:"+d(w), w
	case 10:
		t, s.MemBuffers = "MemBuffers:"+d(w), w
	case 11:
		t, s.MemCached = "MemCached:"+d(w), w
	case 12:
		t, s.UnderVoltageNow = "UnderVoltageNow:"+boolDigit(b), b
	case 13:
		t, s.UnderVoltage = "UnderVoltage:"+boolDigit(b), b
	case 14:
		t, s.FreqCapNow = "FreqCapNow:"+boolDigit(b), b
	case 15:
		t, s.FreqCap = "FreqCap:"+boolDigit(b), b
	case 16:
		t, s.ThrottledNow = "ThrottledNow:"+boolDigit(b), b
	case 17:
		t, s.Throttled = "Throttled:"+boolDigit(b), b
	case 18:
		t, s.SoftTempLimitNow = "SoftTempLimitNow:"+boolDigit(b), b
	case 19:
		t, s.SoftTempLimit = "SoftTempLimit:"+boolDigit(b), b
	}
	return []string{"SysStat=" + t + ":", "SysStat=" + t}, outbound{{SysStat: s}, {SysStat: s}}
}

// OutSysStatAll: the complete line a panel sends.
func OutSysStatAll(usage uint32, nega, negb bool, num1, num2, num3, num4, num5, num6 string, a, b, c, e, f, g, h, i int32, p0, p1, p2, p3, p4, p5, p6, p7 bool) ([]string, outbound) {
	t1, t2, t3 := decimal(nega, num1, num2), decimal(negb, num3, num4), num5+"."+num6
	parts := []string{
		"CPUUsage", u(usage), "CPUTemp", t1, "ExtTemp", t2, "CPUVoltage", t3,
		"CPUFreqCurrent", d(a), "CPUFreqMin", d(b), "CPUFreqMax", d(c),
		"MemTotal", d(e), "MemFree", d(f), "MemAvailable", d(g), "MemBuffers", d(h), "MemCached", d(i),
		"UnderVoltageNow", boolDigit(p0), "UnderVoltage", boolDigit(p1), "FreqCapNow", boolDigit(p2), "FreqCap", boolDigit(p3),
		"ThrottledNow", boolDigit(p4), "Throttled", boolDigit(p5), "SoftTempLimitNow", boolDigit(p6), "SoftTempLimit", boolDigit(p7), "",
	}
	return []string{"SysStat=" + strings.Join(parts, ":")}, outbound{{SysStat: &rwp.SystemStat{
		CPUUsage: usage, CPUTemp: f32(t1), ExtTemp: f32(t2), CPUVoltage: f32(t3), CPUFreqCurrent: a, CPUFreqMin: b, CPUFreqMax: c,
		MemTotal: e, MemFree: f, MemAvailable: g, MemBuffers: h, MemCached: i,
		UnderVoltageNow: p0, UnderVoltage: p1, FreqCapNow: p2, FreqCap: p3, ThrottledNow: p4, Throttled: p5, SoftTempLimitNow: p6, SoftTempLimit: p7}}}
}

func OutRegisters(reg string, v uint32, flag uint32, on_0_1 uint32) ([]string, outbound) {
	return []string{"Mem" + reg + "=" + u(v), "Flag#" + u(flag) + "=" + u(on_0_1), "Shift" + reg + "=" + u(v), "State" + reg + "=" + u(v)}, outbound{
		{Registers: []*rwp.Register{{Reg: 0, Id: reg, Value: v}}},
		{Registers: []*rwp.Register{{Reg: 1, Id: u(flag), Value: on_0_1}}},
		{Registers: []*rwp.Register{{Reg: 2, Id: reg, Value: v}}},
		{Registers: []*rwp.Register{{Reg: 3, Id: reg, Value: v}}},
	}
}

// OutSequence: events and reports appear in line order, repeated ones included.
func OutSequence(id, v uint32, w int32, text string) ([]string, outbound) {
	return []string{"HWC#" + u(id) + "=Enc:" + d(w), "HWC#" + u(id) + "=Enc:" + d(w), "map=" + u(id) + ":" + u(v), "HWC#" + u(id) + ".4=Down", "ping", "_name=" + text, "HWC#" + u(id) + ".4=Press", "HWC#" + u(id) + ".4=Up", "HWC#" + u(id) + "=Abs:" + u(v), "BSY"}, outbound{
		{Events: []*rwp.HWCEvent{{HWCID: id, Pulsed: &rwp.PulsedEvent{Value: w}}}},
		{Events: []*rwp.HWCEvent{{HWCID: id, Pulsed: &rwp.PulsedEvent{Value: w}}}},
		{HWCavailability: map[uint32]uint32{id: v}},
		{Events: []*rwp.HWCEvent{button(id, 4, true)}},
		{FlowMessage: 1},
		{PanelInfo: &rwp.PanelInfo{Name: text}},
		{Events: []*rwp.HWCEvent{button(id, 4, true), button(id, 4, false)}},
		{Events: []*rwp.HWCEvent{button(id, 4, false)}},
		{Events: []*rwp.HWCEvent{{HWCID: id, Absolute: &rwp.AbsoluteEvent{Value: v}}}},
		{FlowMessage: 4},
	}
}

// OutManyItems: long lists of addresses.
func OutManyItems(itema, itemb, itemc string) ([]string, outbound) {
	var l []string
	for k := 0; k < 24; k++ {
		switch k {
		case 0:
			l = append(l, itema)
		case 7:
			l = append(l, itemb)
		case 23:
			l = append(l, itemc)
		default:
			l = append(l, "10.0.0."+u(uint32(k)))
		}
	}
	j := strings.Join(l, ";")
	return []string{"_connections=" + j, "_serverModeLockToIP=" + j}, outbound{{Connections: &rwp.Connections{Connection: l}}, {PanelInfo: &rwp.PanelInfo{LockedToIPs: l}}}
}

// OutManyLines: many lines in one batch.
func OutManyLines(id, v uint32, text string) (lines []string, out outbound) {
	for k := uint32(0); k < 60; k++ {
		lines = append(lines, "HWC#"+u(id)+"=Down", "HWC#"+u(id)+"=Raw:"+u(v), "Msg="+text, "map="+u(k)+":"+u(v), "BSY", "HWC#"+u(id)+"=Press")
		out = append(out, outEv(button(id, 0, true))[0], outEv(&rwp.HWCEvent{HWCID: id, RawAnalog: &rwp.RawAnalogEvent{Value: v}})[0], &rwp.OutboundMessage{Message: &rwp.Message{Message: text}},
			&rwp.OutboundMessage{HWCavailability: map[uint32]uint32{k: v}}, &rwp.OutboundMessage{FlowMessage: 4}, outEv(button(id, 0, true), button(id, 0, false))[0])
	}
	return
}

// WithinOut is WithinIn for the other direction.
func WithinOut(ls []string, ms []*rwp.OutboundMessage) (lines []string, out []*rwp.OutboundMessage) {
	add := func(l string, m *rwp.OutboundMessage) {
		lines = append(lines, l, "", "NoSuchThing=1")
		out = append(out, m)
	}
	around := func() {
		add("BSY", &rwp.OutboundMessage{FlowMessage: 4})
		add("HWC#9.4=Press", outEv(button(9, 4, true), button(9, 4, false))[0])
		add("HWC#9=Enc:-3", outEv(&rwp.HWCEvent{HWCID: 9, Pulsed: &rwp.PulsedEvent{Value: -3}})[0])
		add("HWC#9=Abs:300", outEv(&rwp.HWCEvent{HWCID: 9, Absolute: &rwp.AbsoluteEvent{Value: 300}})[0])
		add("HWC#9=Speed:-30", outEv(&rwp.HWCEvent{HWCID: 9, Speed: &rwp.SpeedEvent{Value: -30}})[0])
		add("HWC#9=Raw:40", outEv(&rwp.HWCEvent{HWCID: 9, RawAnalog: &rwp.RawAnalogEvent{Value: 40}})[0])
		add("map=9:10", &rwp.OutboundMessage{HWCavailability: map[uint32]uint32{9: 10}})
		add("_model=M", outInfo(&rwp.PanelInfo{Model: "M"})[0])
		add("_support=ASCII,System", outInfo(&rwp.PanelInfo{RawPanelSupport: &rwp.RawPanelSupport{ASCII: true, System: true}})[0])
		add("_panelType=Touch", outInfo(&rwp.PanelInfo{PanelType: rwp.PanelInfo_TOUCH})[0])
		add("_connections=A;B", &rwp.OutboundMessage{Connections: &rwp.Connections{Connection: []string{"A", "B"}}})
		add("_bootsCount=8", &rwp.OutboundMessage{RunTimeStats: &rwp.RunTimeStats{BootsCount: 8}})
		add("Msg=Z", &rwp.OutboundMessage{Message: &rwp.Message{Message: "Z"}})
		add("EnvironmentalHealth=Safemode", &rwp.OutboundMessage{EnvironmentalHealth: &rwp.Environment{RunMode: rwp.Environment_SAFEMODE}})
		add("SysStat=CPUUsage:7:MemFree:9:FreqCap:1:", &rwp.OutboundMessage{SysStat: &rwp.SystemStat{CPUUsage: 7, MemFree: 9, FreqCap: true}})
		add("StateA=4", &rwp.OutboundMessage{Registers: []*rwp.Register{{Reg: 3, Id: "A", Value: 4}}})
	}
	around()
	lines, out = append(lines, ls...), append(out, ms...)
	lines = append(lines, "", "NoSuchThing=1")
	lines, out = append(lines, ls...), append(out, ms...)
	around()
	return lines, effectiveOut(out)
}

// effectiveOut leaves out messages that say nothing.
func effectiveOut(ms []*rwp.OutboundMessage) []*rwp.OutboundMessage {
	var out []*rwp.OutboundMessage
	for _, m := range ms {
		if m != nil && m.FlowMessage == 0 && m.PanelInfo == nil && m.PanelTopology == nil && m.BurninProfile == nil && m.NetworkConfig == nil && m.CalibrationProfile == nil && m.DefaultCalibrationProfile == nil &&
			m.SleepTimeout == nil && m.SleepState == nil && m.HeartBeatTimer == nil && m.DimmedGain == nil && m.Connections == nil && m.RunTimeStats == nil && m.ErrorMessage == nil && m.Message == nil &&
			len(m.HWCavailability) == 0 && m.EnvironmentalHealth == nil && m.SysStat == nil && len(m.Events) == 0 && len(m.Registers) == 0 {
			continue
		}
		out = append(out, m)
	}
	return out
}

// BatchOut feeds all lines at once.
func BatchOut(lines []string) []*rwp.OutboundMessage {
	return effectiveOut(rawpanellib.RawPanelASCIIstringsToOutboundMessages(lines))
}
