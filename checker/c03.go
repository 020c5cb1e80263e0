package main

import (
	"go/types"
	"strings"
)

func init() {
	props["C03"] = func(c *Check) {
		enc := c.need(modRoot, "OutboundMessagesToRawPanelASCIIstrings")
		ref := c.need("rpspec", "EncodeOutbound")
		if enc == nil || ref == nil {
			return
		}
		run := c.encodeRunner("encode-outbound", enc, ref, func(n string) *StrInfo {
			return &StrInfo{max: -1, noNL: !strings.HasSuffix(n, ".Json") && !strings.HasSuffix(n, ".Svgbase") && !strings.HasSuffix(n, "Message")}
		})
		nf := func(re string) func(s *Scenario) func(string, types.Type) Node {
			return func(s *Scenario) func(string, types.Type) Node { return nilFields(s.Eng, re) }
		}
		run("flow and identity", 1, true, nf(`\]\.(Events|Registers|SysStat|EnvironmentalHealth|HWCavailability|RunTimeStats|.*Message|Connections|DimmedGain|HeartBeat.*|Sleep.*|.*Profile|NetworkConfig|PanelTopology)$`))
		run("profiles and status", 1, true, nf(`\]\.(Events|Registers|SysStat|PanelInfo|HWCavailability)$`))
		run("availability and health", 1, true, nf(`\]\.(Events|Registers|PanelInfo|RunTimeStats|.*Message|Connections|DimmedGain|HeartBeat.*|Sleep.*|.*Profile|NetworkConfig|PanelTopology)$`))
		run("events and registers", 2, false, nf(`\]\.(SysStat|PanelInfo|HWCavailability|RunTimeStats|.*Message|Connections|DimmedGain|HeartBeat.*|Sleep.*|.*Profile|NetworkConfig|PanelTopology)$`))
		rest := `\]\.(SysStat|PanelInfo|HWCavailability|EnvironmentalHealth|RunTimeStats|.*Message|Connections|DimmedGain|HeartBeat.*|Sleep.*|.*Profile|NetworkConfig|PanelTopology`
		kinds := []string{"Binary", "Pulsed", "Absolute", "Speed", "RawAnalog"}
		for _, k := range kinds {
			others := rest + `|Registers`
			for _, o := range kinds {
				if o != k {
					others += "|" + o
				}
			}
			others += `)$`
			for n, name := range []string{" event in two messages", " event twice in one message"} {
				run(k+name, n-2, false, func(s *Scenario) func(string, types.Type) Node {
					return hooks(nilFields(s.Eng, others), present(s.Eng, `\.`+k+`$`), exactly(s.Eng, `\.Events$`, n+1))
				})
			}
		}
		for n, name := range map[int]string{3: "3 addresses", 24: "24 addresses"} {
			run(name, -1, false, func(s *Scenario) func(string, types.Type) Node {
				return hooks(nilFields(s.Eng, `\]\.(Events|Registers|SysStat|EnvironmentalHealth|HWCavailability|RunTimeStats|.*Message|DimmedGain|HeartBeat.*|Sleep.*|.*Profile|NetworkConfig|PanelTopology)$`),
					nilFields(s.Eng, `\.PanelInfo\.(Model|Serial|Name|SoftwareVersion|Platform|RawPanelSupport)$`), exactly(s.Eng, `\.(LockedToIPs|Connection)$`, n))
			})
		}
		for _, k := range kinds {
			others := rest + `|Registers`
			for _, o := range kinds {
				if o != k {
					others += "|" + o
				}
			}
			others += `)$`
			long := func(name string, msgs, events int) {
				run(k+name, -msgs, false, func(s *Scenario) func(string, types.Type) Node {
					return hooks(nilFields(s.Eng, others), present(s.Eng, `\.`+k+`$`), exactly(s.Eng, `\.Events$`, events))
				})
			}
			long(" events, 40 in one message", 1, 40)
			long(" event in 40 messages", 40, 1)
		}
		run("40 registers", -1, false, func(s *Scenario) func(string, types.Type) Node {
			return hooks(nilFields(s.Eng, rest+`|Events)$`), exactly(s.Eng, `\.Registers$`, 40))
		})
		run("12 flow messages", -12, false, func(s *Scenario) func(string, types.Type) Node {
			return nilFields(s.Eng, `\]\.([A-EG-Z][A-Za-z]*)$`)
		})
		for n, name := range []string{"register in two messages", "two registers in one message"} {
			run(name, n-2, false, func(s *Scenario) func(string, types.Type) Node {
				return hooks(nilFields(s.Eng, rest+`|Events)$`), exactly(s.Eng, `\.Registers$`, n+1))
			})
		}
	}
}
