package main

const outboundGrammar = `^(ping|ack|nack|BSY|RDY|list)$` +
	`|^HWC#[0-9]+(\.[0-9]+)?=(Down|Up|Press|Abs|Speed|Enc|Raw)` +
	`|^map=[0-9]+:[0-9]+$` +
	`|^(_model|_serial|_version|_platform|_bluePillReady|_name|_panelType|_support|_isSleeping|_sleepTimer|_panelTopology_svgbase|_panelTopology_HWC|_burninProfile|_networkConfig|_calibrationProfile|_defaultCalibrationProfile|_serverModeLockToIP|_serverModeMaxClients|_heartBeatTimer|DimmedGain|_connections|_bootsCount|_totalUptimeMin|_sessionUptimeMin|_screenSaverOnMin|ErrorMsg|Msg|EnvironmentalHealth|SysStat)=` +
	`|^(Mem|Shift|State)[A-Z0-9]*=|^Flag#[A-Z0-9]*=`

func init() {
	props["C04"] = func(c *Check) {
		dec := c.need(modRoot, "RawPanelASCIIstringsToOutboundMessages")
		if dec == nil {
			return
		}
		c.decodeProductions("decode-outbound", "Out", 30, dec)
		c.unknownLines("unknown-line", outboundGrammar, dec, []string{"FlowMessage", "HWCavailability", "PanelInfo", "PanelTopology", "BurninProfile", "NetworkConfig", "CalibrationProfile", "DefaultCalibrationProfile",
			"SleepTimeout", "SleepState", "HeartBeatTimer", "DimmedGain", "Connections", "RunTimeStats", "ErrorMessage", "Message", "EnvironmentalHealth", "SysStat", "Events", "Registers"})
	}
}
