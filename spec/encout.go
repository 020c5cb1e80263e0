package rpspec

import (
	"encoding/json"
	"fmt"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// OneLineSvg puts an SVG document on one line: a line that ends in a tag needs no separator, any
// other line break separates (path data may run over several lines).
func OneLineSvg(s string) string {
	var b strings.Builder
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		b.WriteString(t)
		if !strings.HasSuffix(t, ">") {
			b.WriteString(" ")
		}
	}
	return b.String()
}

func infoLines(p *rwp.PanelInfo) []string {
	var out []string
	text := func(key, v string) {
		if v != "" {
			out = append(out, key+"="+v)
		}
	}
	text("_model", p.Model)
	text("_serial", p.Serial)
	text("_version", p.SoftwareVersion)
	text("_name", p.Name)
	text("_platform", p.Platform)
	if p.BluePillReady {
		out = append(out, "_bluePillReady=1")
	}
	if p.MaxClients != 0 {
		out = append(out, "_serverModeMaxClients="+u(p.MaxClients))
	}
	if len(p.LockedToIPs) != 0 {
		out = append(out, "_serverModeLockToIP="+strings.Join(p.LockedToIPs, ";"))
	}
	switch int32(p.PanelType) {
	case 1:
		out = append(out, "_panelType=BPI")
	case 2:
		out = append(out, "_panelType=Physical")
	case 3:
		out = append(out, "_panelType=Emulation")
	case 4:
		out = append(out, "_panelType=Touch")
	case 5:
		out = append(out, "_panelType=Composite")
	}
	if r := p.RawPanelSupport; r != nil {
		var caps []string
		capa := func(on bool, word string) {
			if on {
				caps = append(caps, word)
			}
		}
		capa(r.ASCII, "ASCII")
		capa(r.Binary, "Binary")
		capa(r.ASCII_JSONfeedback, "JSONFeedback")
		capa(r.ASCII_Inbound, "JSONonInbound")
		capa(r.ASCII_Outbound, "JSONonOutbound")
		capa(r.System, "System")
		capa(r.RawADCValues, "RawADCValues")
		capa(r.BurninProfile, "BurninProfile")
		capa(r.EnvHealth, "EnvHealth")
		capa(r.Registers, "Registers")
		capa(r.Calibration, "Calibration")
		capa(r.Processors, "Processors")
		capa(r.NetworkSettings, "NetworkSettings")
		out = append(out, "_support="+strings.Join(caps, ","))
	}
	return out
}

func sysStat(s *rwp.SystemStat) string {
	var b strings.Builder
	put := func(k, v string) { b.WriteString(k + ":" + v + ":") }
	put("CPUUsage", u(s.CPUUsage))
	put("CPUTemp", fmt.Sprintf("%.1f", s.CPUTemp))
	put("ExtTemp", fmt.Sprintf("%.1f", s.ExtTemp))
	put("CPUVoltage", fmt.Sprintf("%.2f", s.CPUVoltage))
	put("CPUFreqCurrent", d(s.CPUFreqCurrent))
	put("CPUFreqMin", d(s.CPUFreqMin))
	put("CPUFreqMax", d(s.CPUFreqMax))
	put("MemTotal", d(s.MemTotal))
	put("MemFree", d(s.MemFree))
	put("MemAvailable", d(s.MemAvailable))
	put("MemBuffers", d(s.MemBuffers))
	put("MemCached", d(s.MemCached))
	put("UnderVoltageNow", boolDigit(s.UnderVoltageNow))
	put("UnderVoltage", boolDigit(s.UnderVoltage))
	put("FreqCapNow", boolDigit(s.FreqCapNow))
	put("FreqCap", boolDigit(s.FreqCap))
	put("ThrottledNow", boolDigit(s.ThrottledNow))
	put("Throttled", boolDigit(s.Throttled))
	put("SoftTempLimitNow", boolDigit(s.SoftTempLimitNow))
	put("SoftTempLimit", boolDigit(s.SoftTempLimit))
	return "SysStat=" + b.String()
}

// EncodeOutbound is the reference writer for panel-to-system messages.
func EncodeOutbound(msgs []*rwp.OutboundMessage) []string {
	var out []string
	add := func(s string) { out = append(out, s) }
	for _, m := range msgs {
		switch int32(m.FlowMessage) {
		case 1:
			add("ping")
		case 2:
			add("ack")
		case 3:
			add("nack")
		case 4:
			add("BSY")
		case 5:
			add("RDY")
		case 100:
			add("list")
		}
		if m.PanelInfo != nil {
			out = append(out, infoLines(m.PanelInfo)...)
		}
		if t := m.PanelTopology; t != nil {
			add("_panelTopology_svgbase=" + OneLineSvg(t.Svgbase))
			add("_panelTopology_HWC=" + OneLine(t.Json))
		}
		if p := m.BurninProfile; p != nil {
			add("_burninProfile=" + OneLine(p.Json))
		}
		if n := m.NetworkConfig; n != nil {
			j, _ := json.Marshal(n)
			add("_networkConfig=" + string(j))
		}
		if p := m.CalibrationProfile; p != nil {
			add("_calibrationProfile=" + OneLine(p.Json))
		}
		if p := m.DefaultCalibrationProfile; p != nil {
			add("_defaultCalibrationProfile=" + OneLine(p.Json))
		}
		if v := m.SleepTimeout; v != nil {
			add("_sleepTimer=" + u(v.Value))
		}
		if v := m.SleepState; v != nil {
			add("_isSleeping=" + boolDigit(v.IsSleeping))
		}
		if v := m.HeartBeatTimer; v != nil {
			add("_heartBeatTimer=" + u(v.Value))
		}
		if v := m.DimmedGain; v != nil {
			add("DimmedGain=" + u(v.Value))
		}
		if v := m.Connections; v != nil {
			add("_connections=" + strings.Join(v.Connection, ";"))
		}
		if r := m.RunTimeStats; r != nil {
			stat := func(key string, v uint32) {
				if v != 0 {
					add(key + "=" + u(v))
				}
			}
			stat("_bootsCount", r.BootsCount)
			stat("_totalUptimeMin", r.TotalUptime)
			stat("_sessionUptimeMin", r.SessionUptime)
			stat("_screenSaverOnMin", r.ScreenSaveOnTime)
		}
		if e := m.ErrorMessage; e != nil {
			add("ErrorMsg=" + OneLine(e.Message))
		}
		if e := m.Message; e != nil {
			add("Msg=" + OneLine(e.Message))
		}
		for id, v := range m.HWCavailability {
			add("map=" + u(id) + ":" + u(v))
		}
		if h := m.EnvironmentalHealth; h != nil {
			switch int32(h.RunMode) {
			case 0:
				add("EnvironmentalHealth=Normal")
			case 1:
				add("EnvironmentalHealth=Safemode")
			case 2:
				add("EnvironmentalHealth=Blocked")
			}
		}
		if s := m.SysStat; s != nil {
			add(sysStat(s))
		}
		for _, ev := range m.Events {
			id := "HWC#" + u(ev.HWCID)
			if b := ev.Binary; b != nil {
				l := id
				if b.Edge != 0 {
					l += "." + u(uint32(b.Edge))
				}
				if b.Pressed {
					add(l + "=Down")
				} else {
					add(l + "=Up")
				}
			}
			if v := ev.Pulsed; v != nil {
				add(id + "=Enc:" + d(v.Value))
			}
			if v := ev.Absolute; v != nil {
				add(id + "=Abs:" + u(v.Value))
			}
			if v := ev.Speed; v != nil {
				add(id + "=Speed:" + d(v.Value))
			}
			if v := ev.RawAnalog; v != nil {
				add(id + "=Raw:" + u(v.Value))
			}
		}
		out = append(out, regLines(m.Registers)...)
	}
	return out
}
