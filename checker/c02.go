package main

import "strings"

const inboundGrammar = `^(ping|ack|nack|ActivePanel=1|list|map|PanelTopology\?|BurninProfile\?|CalibrationProfile\?|NetworkConfig\?|Registers\?|Connections\?|RunTimeStats\?|Clear|ClearLEDs|ClearDisplays|SleepTimer\?|WakeUp!|Reboot)$` +
	`|^[\{\[]` +
	`|^(HWC|HWCx|HWCc|HWCt|HWCrawADCValues|HWCg|HWCgRGB|HWCgGray)#[0-9,]+=` +
	`|^(HeartBeatTimer|DimmedGain|PublishSystemStat|LoadCPU|SleepTimer|SleepMode|SleepScreenSaver|Webserver|JSONonOutbound|PanelBrightness|SetCalibrationProfile|SimulateEnvironmentalHealth|SetNetworkConfig)=` +
	`|^(Mem|Shift|State)[A-Z0-9]*=|^Flag#[A-Z0-9]*=`

func init() {
	props["C02"] = func(c *Check) {
		dec := c.need(modRoot, "RawPanelASCIIstringsToInboundMessages")
		if dec == nil {
			return
		}
		c.decodeProductions("decode-inbound", "In", 30, dec)
		c.readerProductions("reader", "In")
		c.unknownLines("unknown-line", inboundGrammar, dec, []string{"Command", "States", "Registers"})
	}
}

// readerProductions: a line that is no graphics chunk means the same to an idle streaming reader as to the
// decoder.
func (c *Check) readerProductions(rule, prefix string) {
	read, dec := c.need("rpspec", "ReadWith"), c.need("rpspec", "DecodeTrimmed")
	if read == nil || dec == nil {
		return
	}
	for _, p := range c.productions(prefix) {
		if strings.HasPrefix(p.Name(), "InGfx") {
			continue // chunks are assembled (C05)
		}
		c.scenario("reader: "+p.Name(), func(s *Scenario) {
			s.listBound = 2
			s.noSpace = true
			s.lazyHook = c.inputHook(s.Eng, inDomains, func(string) *StrInfo { return &StrInfo{max: -1, noNL: true} })
			s.Eng.InitPkg(c.pkg(modRoot))
			r, o := s.runFn(p, s.prodArgs(p, 0)...)
			if o == nil {
				s.undecided("specification did not return")
				return
			}
			lines := s.proj(r, 0)
			w, o1 := s.callFn(dec, []*Term{lines}, nil, o, nil, dec.Pos())
			if o1 == nil {
				s.undecided("decoder did not return")
				return
			}
			want := s.deepResult(dec, w, o1)
			g, o2 := s.callFn(read, []*Term{lines}, nil, o1, nil, read.Pos())
			if o2 == nil {
				s.undecided("reader did not return")
				return
			}
			s.equalTerms(rule, p.Name(), s.deepResult(read, g, o2), want, o2.g, anyDiffer)
		})
	}
}
