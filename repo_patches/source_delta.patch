From ac2a66f7d20e5d7fe588ed294cbefc049c295689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 01/25] fix: keep SVG lines that do not end in a tag when
 flattening the topology SVG

stripLineBreaksSvg replaced every line not ending in ">" by a single space, so
path data (or text) spread over several lines vanished from
_panelTopology_svgbase. Append the separating space instead.
---
 converterFunctions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 3c4d2d6..a267c49 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -1827,7 +1827,7 @@ func stripLineBreaksSvg(svg string) string {
 	for i := range parts {
 		parts[i] = strings.TrimSpace(parts[i])
 		if !strings.HasSuffix(parts[i], ">") {
-			parts[i] = " " // Add a single space at the end if it's not tags. This is to secure integrity of such as a SVG path defined over multiple lines which is sometimes the case....
+			parts[i] += " " // Add a single space at the end if it's not tags. This is to secure integrity of such as a SVG path defined over multiple lines which is sometimes the case....
 		}
 	}
 	return strings.Join(parts, "")
-- 
2.43.0


From e7b549e301cd30a3e715067ae3cf49795d4d1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 02/25] fix: never let a line feed in a text field split an
 encoded ASCII line

Texts such as titles, model names, serials, connection names or register ids
were written as they are; a line feed in one of them made the panel (or the
system) read two lines. Both encoders now replace line feeds by spaces in
every line they return.
---
 converterFunctions.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/converterFunctions.go b/converterFunctions.go
index a267c49..ba9fb3d 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -932,6 +932,8 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 		}
 	}
 
+	keepOneLine(returnStrings)
+
 	if DebugRWPhelpers {
 		DebugRWPhelpersMU.Lock()
 		fmt.Println("\n-------------------------------------------------------------------------------")
@@ -1749,6 +1751,8 @@ func OutboundMessagesToRawPanelASCIIstrings(outboundMsgs []*rwp.OutboundMessage)
 		}
 	}
 
+	keepOneLine(returnStrings)
+
 	if DebugRWPhelpers {
 		DebugRWPhelpersMU.Lock()
 		fmt.Println("\n-------------------------------------------------------------------------------")
@@ -1841,6 +1845,13 @@ func stripLineBreaks(in string) string {
 	return strings.Join(parts, "")
 }
 
+// keepOneLine replaces any line feed a text field brought along by a space: each string is one line on the wire
+func keepOneLine(lines []string) {
+	for i := range lines {
+		lines[i] = strings.ReplaceAll(lines[i], "\n", " ")
+	}
+}
+
 func networkConfigFromString(str string) *rwp.NetworkConfig {
 
 	networkConfig := &rwp.NetworkConfig{}
-- 
2.43.0


From e17f1d2c99a6d6e244caf6c91cc92fc8b5052dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:26 +0000
Subject: [PATCH 03/25] fix: decode raw analog event lines (HWC#n=Raw:v)

---
 converterFunctions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index ba9fb3d..086ce72 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -966,7 +966,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 
 var regex_map = regexp.MustCompile("^map=([0-9]+):([0-9]+)$")
 var regex_genericSingle_inbound = regexp.MustCompile("^(_model|_serial|_version|_platform|_bluePillReady|_name|_panelType|_support|_isSleeping|_sleepTimer|_panelTopology_svgbase|_panelTopology_HWC|_burninProfile|_networkConfig|_calibrationProfile|_defaultCalibrationProfile|_serverModeLockToIP|_serverModeMaxClients|_heartBeatTimer|DimmedGain|_connections|_bootsCount|_totalUptimeMin|_sessionUptimeMin|_screenSaverOnMin|ErrorMsg|Msg|EnvironmentalHealth|SysStat)=(.+)$")
-var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc)(|:([-0-9]+))$")
+var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc|Raw)(|:([-0-9]+))$")
 var regex_registersOut = regexp.MustCompile("^(Flag#|Mem|Shift|State)([A-Z0-9]*)=([0-9]+)$")
 
 // Converts Raw Panel 1.0 ASCII Strings into proto OutboundMessage structs
@@ -1089,7 +1089,7 @@ func RawPanelASCIIstringsToOutboundMessages(rp20_ascii []string) []*rwp.Outbound
 						},
 					}
 				case "Raw":
-					value := su.Intval(regex_cmd.FindStringSubmatch(inputString)[6])
+					value := su.Intval(regex_cmd_inbound.FindStringSubmatch(inputString)[6])
 					msg = &rwp.OutboundMessage{
 						Events: []*rwp.HWCEvent{
 							&rwp.HWCEvent{
-- 
2.43.0


From 5bf9c9467f12d0587c936f74f63e916e703388a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:26 +0000
Subject: [PATCH 04/25] fix: only a dot separates the edge from the component
 id in an event line

---
 converterFunctions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 086ce72..182c315 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -966,7 +966,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 
 var regex_map = regexp.MustCompile("^map=([0-9]+):([0-9]+)$")
 var regex_genericSingle_inbound = regexp.MustCompile("^(_model|_serial|_version|_platform|_bluePillReady|_name|_panelType|_support|_isSleeping|_sleepTimer|_panelTopology_svgbase|_panelTopology_HWC|_burninProfile|_networkConfig|_calibrationProfile|_defaultCalibrationProfile|_serverModeLockToIP|_serverModeMaxClients|_heartBeatTimer|DimmedGain|_connections|_bootsCount|_totalUptimeMin|_sessionUptimeMin|_screenSaverOnMin|ErrorMsg|Msg|EnvironmentalHealth|SysStat)=(.+)$")
-var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc|Raw)(|:([-0-9]+))$")
+var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|\\.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc|Raw)(|:([-0-9]+))$")
 var regex_registersOut = regexp.MustCompile("^(Flag#|Mem|Shift|State)([A-Z0-9]*)=([0-9]+)$")
 
 // Converts Raw Panel 1.0 ASCII Strings into proto OutboundMessage structs
-- 
2.43.0


From 0be8954d428216733240dcfdd8ef4a623b0d19c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 05/25] fix: batch decoder delivers an image only from
 consecutive chunks and closes the transfer after delivery

---
 converterFunctions.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converterFunctions.go b/converterFunctions.go
index 182c315..9dfa7b3 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -389,9 +389,11 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 										},
 									},
 								}
+								temp_HWCGfx_HWClist = "" // Transfer is complete: the image is handed over and takes no further chunks
 								//fmt.Println("DID IT! ", submatches)
 							}
 						} else {
+							temp_HWCGfx_HWClist = "" // A chunk was lost or repeated: drop the transfer, only a new chunk 0 can start over
 							//fmt.Println("gPartIndex didn't match expected")
 						}
 					} else {
-- 
2.43.0


From c30dd9f9e0cc8d2ca29f3931cb4937f935997e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 06/25] fix: streaming reader forgets a transfer once it is
 delivered or broken

---
 rawpanelhelpers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 6f7f0c6..01543ee 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -657,11 +657,15 @@ func (ar *ASCIIreader) Parse(inputString string) []*rwp.InboundMessage {
 				if gPartIndex == ar.HWCGfx_count { // Make sure index is the next in line
 					ar.HWCGfx = append(ar.HWCGfx, inputString)
 					if gPartIndex == ar.HWCGfx_max { // If we have reached the final one, wrap it up:
+						lines := ar.HWCGfx
 						ar.HWCGfx_count = -1 // Reset
-						return RawPanelASCIIstringsToInboundMessages(ar.HWCGfx)
+						ar.HWCGfx_HWClist, ar.HWCGfx_ImageType, ar.HWCGfx = "", "", []string{}
+						return RawPanelASCIIstringsToInboundMessages(lines)
 					}
 				} else {
 					log.Warnf("gPartIndex %d didn't match expected %d\n", gPartIndex, ar.HWCGfx_count)
+					ar.HWCGfx_count = -1 // A chunk was lost or repeated: drop the transfer, only a new chunk 0 can start over
+					ar.HWCGfx_HWClist, ar.HWCGfx_ImageType, ar.HWCGfx = "", "", []string{}
 				}
 			} else {
 				log.Warnf("Wrong HWC %s addressed! Should be %s\n", submatches[2], ar.HWCGfx_HWClist)
-- 
2.43.0


From e546accef89889321e3a6de18c759d35cf87177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:44 +0000
Subject: [PATCH 07/25] fix: encode unformatted text without a text styling
 instead of panicking

---
 converterFunctions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 9dfa7b3..6cf1da9 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -872,7 +872,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 							if !su.IsIntIn(int(stateRec.HWCText.Formatting), []int{7, 10, 11}) {
 								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.IntegerValue))
 							} else if su.IsIntIn(int(stateRec.HWCText.Formatting), []int{10, 11}) {
-								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.TextStyling.UnformattedFontSize))
+								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.GetTextStyling().GetUnformattedFontSize()))
 							} else { // Formatting == 7
 								stringSlice[1] = ""
 								stringSlice[0] = ""
-- 
2.43.0


From 3b86d316d4b7e139d8c26fcc30a46be8ab3a57c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:44 +0000
Subject: [PATCH 08/25] fix: a null in a JSON message array never becomes a nil
 message

---
 converterFunctions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 6cf1da9..930a6f5 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -173,7 +173,11 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 				myStateMsgs := []*rwp.InboundMessage{}
 				json.Unmarshal([]byte(inputString), &myStateMsgs)
 				msg = nil
-				returnMsgs = append(returnMsgs, myStateMsgs...)
+				for _, myStateMsg := range myStateMsgs {
+					if myStateMsg != nil { // A JSON null is not a message
+						returnMsgs = append(returnMsgs, myStateMsg)
+					}
+				}
 			} else if regex_cmd.MatchString(inputString) {
 				HWCidArray := su.IntExplode(regex_cmd.FindStringSubmatch(inputString)[2], ",")
 				switch regex_cmd.FindStringSubmatch(inputString)[1] {
-- 
2.43.0


From c6f4946f0608eace89261216d5a9f11ad7b4c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 09/25] fix: random type numbers never become 0, which means
 disabled

---
 topology/topology.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topology/topology.go b/topology/topology.go
index 6d7ce7e..06c946c 100644
--- a/topology/topology.go
+++ b/topology/topology.go
@@ -277,7 +277,7 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 	seq := uint32(1)
 	for typeNum, typeStruct := range topology.TypeIndex {
 		// Find new random index not used:
-		typeMapping[typeNum] = uint32(r1.Intn(1000000))
+		typeMapping[typeNum] = uint32(1 + r1.Intn(999999)) // 0 means disabled
 		if sequence {
 			typeMapping[typeNum] = seq
 		}
@@ -289,7 +289,7 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 					//fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
 				} else {
 					fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
-					typeMapping[typeNum] = uint32(r1.Intn(1000000))
+					typeMapping[typeNum] = uint32(1 + r1.Intn(999999))
 				}
 			} else {
 				break
-- 
2.43.0


From 420aea790f27c2f1193c6478089ca74e2412a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 10/25] fix: renumbering also follows components of an indexed
 type 0

---
 topology/topology.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/topology/topology.go b/topology/topology.go
index 06c946c..3b608fa 100644
--- a/topology/topology.go
+++ b/topology/topology.go
@@ -302,12 +302,10 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 
 	// Map it in HWc:
 	for i, HWc := range topology.HWc {
-		if HWc.Type != 0 { // If not disabled.
-			if newType, ok := typeMapping[HWc.Type]; !ok {
-				fmt.Printf("ERROR: Type %d not found in type index\n", HWc.Type)
-			} else {
-				topology.HWc[i].Type = newType
-			}
+		if newType, ok := typeMapping[HWc.Type]; ok {
+			topology.HWc[i].Type = newType
+		} else if HWc.Type != 0 { // If not disabled.
+			fmt.Printf("ERROR: Type %d not found in type index\n", HWc.Type)
 		}
 	}
 }
-- 
2.43.0


From 64de5da914a38dfba1b6438825b03bdb959469e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 11/25] fix: a frame that stalls inside its header is dropped
 after 2 s like one that stalls in its payload

---
 connecttopanel.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index e471b34..97b051c 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -179,7 +179,11 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				for {
 					conn.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 					headerArray := make([]byte, 4)
-					_, err := io.ReadFull(conn, headerArray) // Read 4 header bytes
+					_, err := io.ReadFull(conn, headerArray[:1]) // Wait for the first header byte, however long it takes
+					if err == nil {
+						conn.SetReadDeadline(time.Now().Add(2 * time.Second)) // A frame has begun, so the rest of its header must follow
+						_, err = io.ReadFull(conn, headerArray[1:])           // Read the other 3 header bytes
+					}
 					if err != nil {
 						log.Debugln("Binary: ", err)
 						break
-- 
2.43.0


From c0cdaaf5b9029e8545a45ce98a84123ee4da207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 12/25] fix: a message submitted while unconnected no longer
 cuts the retry period short

---
 connecttopanel.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 97b051c..640280f 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -58,13 +58,16 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 		if err != nil {
 			//fmt.Println(err)
 			timer1 := time.NewTimer(time.Duration(noConnectionRetryPeriod) * time.Second)
-			select {
-			case <-ctx.Done():
-				log.Debugln("Stop trying to connect to " + panelIPAndPort)
-				return
-			case <-msgsToPanel:
-				// Ignore incoming if we are unconnected. But it's important to read the channel to not pile up stuff there.
-			case <-timer1.C:
+			for waiting := true; waiting; {
+				select {
+				case <-ctx.Done():
+					log.Debugln("Stop trying to connect to " + panelIPAndPort)
+					return
+				case <-msgsToPanel:
+					// Ignore incoming if we are unconnected. But it's important to read the channel to not pile up stuff there.
+				case <-timer1.C:
+					waiting = false
+				}
 			}
 		} else {
 			log.Debugln("TCP Connection established...")
-- 
2.43.0


From 2c99bf614ecbebf985cde878116511a3436e8457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 13/25] fix: cancellation closes the connection also while a
 write to the panel is blocked

---
 connecttopanel.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 640280f..1cbda40 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -135,17 +135,16 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			// This goroutine is reading the msgsToPanel channel and sending over the panel in the proper encoding (binary or ASCII)
 			var exit atomic.Bool
 			quit := make(chan bool)
+			if wg != nil {
+				wg.Add(1)
+			}
 			go func() {
 				if wg != nil {
-					wg.Add(1)
 					defer wg.Done()
 				}
 				for {
 					select {
-					case <-ctx.Done(): // Context shutdown.
-						log.Debugln("Closing network connection because context was done, ", panelIPAndPort)
-						exit.Store(true)
-						conn.Close() // The implications of closing the connection should be that the listening code below will also fail and exit - but it might not happen if the msgsFromPanel channel reader outside this function has been stopped prematurely, so watch out for that.
+					case <-ctx.Done(): // Context shutdown, the goroutine below closes the connection
 						return
 					case <-quit:
 						return
@@ -172,6 +171,23 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				}
 			}()
 
+			// This goroutine closes the connection on context shutdown, also while the one above is blocked in a write to a panel that doesn't read anymore
+			if wg != nil {
+				wg.Add(1)
+			}
+			go func() {
+				if wg != nil {
+					defer wg.Done()
+				}
+				select {
+				case <-ctx.Done(): // Context shutdown.
+					log.Debugln("Closing network connection because context was done, ", panelIPAndPort)
+					exit.Store(true)
+					conn.Close() // The implications of closing the connection should be that the listening code below will also fail and exit - but it might not happen if the msgsFromPanel channel reader outside this function has been stopped prematurely, so watch out for that.
+				case <-quit:
+				}
+			}()
+
 			// At this point we should be connected and know what prototol to use. We may also have received an errormessage and been disconnected, but in that case we will figure it out later.
 			if onconnect != nil {
 				onconnect(errorMsg, binaryPanel, conn)
-- 
2.43.0


From 4af35aec5b7f677664988a50542b4245a3c2288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 14/25] fix: cancellation ends the wait before a reconnect, so
 that a panel that drops every connection at once cannot keep the call running

---
 connecttopanel.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 1cbda40..7bdd505 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -258,7 +258,11 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			}
 
 			log.Debugf("Retrying in %d seconds for %s\n", reConnectionRetryPeriod, panelIPAndPort)
-			time.Sleep(time.Duration(reConnectionRetryPeriod) * time.Second)
+			select {
+			case <-ctx.Done(): // Cancelled meanwhile, don't connect again
+				return
+			case <-time.After(time.Duration(reConnectionRetryPeriod) * time.Second):
+			}
 		}
 	}
 }
-- 
2.43.0


From 886fe4b73e595430f4ec4d3229d28ea27d9b59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:36 +0000
Subject: [PATCH 15/25] fix: the detector recognises the ready word also when
 its line ends in CRLF

---
 rawpanelhelpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 01543ee..3594ee3 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -711,7 +711,7 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 		return false
 	}
 
-	if byteCount >= 4 && (string(byteArray[0:4]) == "RDY\n" || string(byteArray[0:4]) == "map=") {
+	if byteCount >= 4 && (string(byteArray[0:4]) == "RDY\n" || string(byteArray[0:4]) == "RDY\r" || string(byteArray[0:4]) == "map=") {
 		log.Debugln("Detected map or RDY message issued by UniSketch ASCII panels - we conclude ASCII")
 		_, err = c.Write([]byte("\n")) // Clearing an ASCII panels buffer with a newline since we sent it binary stuff
 		log.Should(err)
-- 
2.43.0


From dfb61af387559a22d0744e30df154793870740f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 16/25] fix: messages from the panel are processed apart from
 the writer, so that feedback sent by handlers cannot block the client

---
 gorwp/rawpanel.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 079674a..1c49007 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -176,9 +176,22 @@ func (rp *RawPanel) listen(ctx context.Context) {
 					}
 				}
 			case <-ticker.C: // Sending a ping periodically to the panel to make sure TCP will close connection if it doesn't get through. Strictly, the panel should answer back with ACK, but we don't check for that (seems this is enough)
-				rp.toPanel <- []*rwp.InboundMessage{{
+				select {
+				case rp.toPanel <- []*rwp.InboundMessage{{
 					FlowMessage: rwp.InboundMessage_PING,
-				}}
+				}}:
+				default: // Nobody but us empties the queue. When it is full, there is traffic to the panel anyway
+				}
+			}
+		}
+	}()
+
+	// Processing messages from the panel has a goroutine of its own, so that handlers can always hand over feedback:
+	go func() {
+		for {
+			select {
+			case <-ctx.Done():
+				return
 			case messagesFromPanel := <-rp.fromPanel:
 				rp.procesMessagesFromPanel(messagesFromPanel)
 			}
-- 
2.43.0


From 99e93e9f46e0fc7799aea10eaadc6ccf1d5c66c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 17/25] fix: a frame that is too long or stalls ends the
 connection instead of leaving the reader out of step with the stream

---
 gorwp/rawpanel.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 1c49007..b1639a7 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -212,7 +212,11 @@ func (rp *RawPanel) readFromPanel() error {
 		for {
 			rp.connection.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 			headerArray := make([]byte, 4)
-			_, err := io.ReadFull(rp.connection, headerArray) // Read 4 header bytes
+			_, err := io.ReadFull(rp.connection, headerArray[:1]) // Wait for the first header byte, however long it takes
+			if err == nil {
+				rp.connection.SetReadDeadline(time.Now().Add(2 * time.Second)) // A frame has begun, so the rest of its header must follow
+				_, err = io.ReadFull(rp.connection, headerArray[1:])           // Read the other 3 header bytes
+			}
 			if err != nil {
 				if err == io.EOF {
 					log.Errorln("Panel: " + rp.connection.RemoteAddr().String() + " disconnected")
@@ -228,7 +232,7 @@ func (rp *RawPanel) readFromPanel() error {
 					_, err := io.ReadFull(rp.connection, payload)
 					if err != nil {
 						log.Errorln(err)
-						break
+						return err
 					} else {
 						outgoingMessage := &rwp.OutboundMessage{}
 						proto.Unmarshal(payload, outgoingMessage)
@@ -238,6 +242,7 @@ func (rp *RawPanel) readFromPanel() error {
 					}
 				} else {
 					log.Println("Error: Payload", currentPayloadLength, "exceed limit")
+					return fmt.Errorf("payload exceeds limit") // What follows can't be read as frames
 				}
 			}
 		}
@@ -267,8 +272,6 @@ func (rp *RawPanel) readFromPanel() error {
 			}
 		}
 	}
-
-	return nil
 }
 
 func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMessage) {
-- 
2.43.0


From 4c885ab97ea5d9d0c178822f03518ca7bf656f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 18/25] fix: handlers can be bound while events are being
 dispatched

---
 gorwp/inputs.go   | 10 ++++++++++
 gorwp/rawpanel.go | 31 +++++++++++++++++++++----------
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/gorwp/inputs.go b/gorwp/inputs.go
index 4de80cd..b79e42b 100644
--- a/gorwp/inputs.go
+++ b/gorwp/inputs.go
@@ -44,6 +44,8 @@ type BinaryFunc func(uint32, BinaryStatus, BinaryEdge)
 // binary trigger.  When the binary trigger is pushed down, then the provided
 // BinaryFunc is called.
 func (rp *RawPanel) BindBinary(hwc uint32, f BinaryFunc) {
+	rp.bindings.Lock()
+	defer rp.bindings.Unlock()
 	rp.binaryBindings[hwc] = f
 }
 
@@ -56,6 +58,8 @@ type PulsedFunc func(uint32, int)
 // encoder. When the encoder is turned then the provided
 // PulsedFunc is called.
 func (rp *RawPanel) BindPulsed(hwc uint32, f PulsedFunc) {
+	rp.bindings.Lock()
+	defer rp.bindings.Unlock()
 	rp.pulsedBindings[hwc] = f
 }
 
@@ -67,6 +71,8 @@ type AbsoluteFunc func(uint32, int)
 // fader.  When the fader is moved then the provided
 // AbsoluteFunc is called.
 func (rp *RawPanel) BindAbsolute(hwc uint32, f AbsoluteFunc) {
+	rp.bindings.Lock()
+	defer rp.bindings.Unlock()
 	rp.absoluteBindings[hwc] = f
 }
 
@@ -79,6 +85,8 @@ type IntensityFunc func(uint32, int)
 // joystick. When the joystick axis is manipulated then the provided
 // IntensityFunc is called.
 func (rp *RawPanel) BindIntensity(hwc uint32, f IntensityFunc) {
+	rp.bindings.Lock()
+	defer rp.bindings.Unlock()
 	rp.intensityBindings[hwc] = f
 }
 
@@ -90,5 +98,7 @@ type TriggerFunc func(uint32, *rwp.HWCEvent)
 // Function BindTrigger sets a general callback for actions on a specific
 // hardware component.
 func (rp *RawPanel) BindTrigger(hwc uint32, f TriggerFunc) {
+	rp.bindings.Lock()
+	defer rp.bindings.Unlock()
 	rp.triggerBindings[hwc] = f
 }
diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index b1639a7..20ee5fb 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -23,6 +23,7 @@ import (
 	"io"
 	"net"
 	"strings"
+	"sync"
 	"time"
 
 	"google.golang.org/protobuf/proto"
@@ -47,6 +48,7 @@ type RawPanel struct {
 	fromPanel chan []*rwp.OutboundMessage
 
 	// Trigger Bindings
+	bindings          sync.RWMutex // Handlers are registered while events are dispatched
 	binaryBindings    map[uint32]BinaryFunc
 	pulsedBindings    map[uint32]PulsedFunc
 	absoluteBindings  map[uint32]AbsoluteFunc
@@ -335,20 +337,29 @@ func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMes
 		// Events:
 		if len(msg.Events) > 0 {
 			for _, event := range msg.Events {
-				if receiverFunc, exists := rp.triggerBindings[event.HWCID]; exists {
-					receiverFunc(event.HWCID, event)
+				// The lock is not held while handlers run, they may bind others:
+				rp.bindings.RLock()
+				triggerFunc, isTrigger := rp.triggerBindings[event.HWCID]
+				binaryFunc, isBinary := rp.binaryBindings[event.HWCID]
+				pulsedFunc, isPulsed := rp.pulsedBindings[event.HWCID]
+				absoluteFunc, isAbsolute := rp.absoluteBindings[event.HWCID]
+				intensityFunc, isIntensity := rp.intensityBindings[event.HWCID]
+				rp.bindings.RUnlock()
+
+				if isTrigger {
+					triggerFunc(event.HWCID, event)
 				}
-				if receiverFunc, exists := rp.binaryBindings[event.HWCID]; exists && event.Binary != nil {
-					receiverFunc(event.HWCID, BinaryStatus(su.Qint(event.Binary.Pressed, 1, 0)), BinaryEdge(event.Binary.Edge))
+				if isBinary && event.Binary != nil {
+					binaryFunc(event.HWCID, BinaryStatus(su.Qint(event.Binary.Pressed, 1, 0)), BinaryEdge(event.Binary.Edge))
 				}
-				if receiverFunc, exists := rp.pulsedBindings[event.HWCID]; exists && event.Pulsed != nil {
-					receiverFunc(event.HWCID, int(event.Pulsed.Value))
+				if isPulsed && event.Pulsed != nil {
+					pulsedFunc(event.HWCID, int(event.Pulsed.Value))
 				}
-				if receiverFunc, exists := rp.absoluteBindings[event.HWCID]; exists && event.Absolute != nil {
-					receiverFunc(event.HWCID, int(event.Absolute.Value))
+				if isAbsolute && event.Absolute != nil {
+					absoluteFunc(event.HWCID, int(event.Absolute.Value))
 				}
-				if receiverFunc, exists := rp.intensityBindings[event.HWCID]; exists && event.Speed != nil {
-					receiverFunc(event.HWCID, int(event.Speed.Value))
+				if isIntensity && event.Speed != nil {
+					intensityFunc(event.HWCID, int(event.Speed.Value))
 				}
 			}
 		}
-- 
2.43.0


From d71097d8f99eb3f8afda3f1610aa0d177349992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 19/25] fix: Connect fails when the connection ends before the
 panel has identified itself, and its polling ends with it

---
 gorwp/rawpanel.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 20ee5fb..2d61ad4 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -128,12 +128,19 @@ func (rp *RawPanel) init(ctx context.Context) error {
 
 	// Check for initialization, if we get it, return in channel:
 	initialized := make(chan bool, 1)
+	stop := make(chan struct{})
+	defer close(stop)
 	go func() {
 		for {
 			if rp.IsInitialized() {
 				initialized <- true
 				return
 			}
+			select {
+			case <-stop:
+				return
+			default:
+			}
 			time.Sleep(time.Millisecond * 10)
 		}
 	}()
@@ -141,10 +148,16 @@ func (rp *RawPanel) init(ctx context.Context) error {
 	// Wait for either signal that init was OK - or return after two seconds where it did not happen
 	select {
 	case <-ctx.Done():
-		return nil
+		if rp.IsInitialized() {
+			return nil
+		}
+		return ctx.Err() // Cancelled, or the panel closed the connection
 	case <-initialized:
 		return nil
 	case <-time.After(2 * time.Second):
+		if rp.IsInitialized() { // Just in time
+			return nil
+		}
 		return fmt.Errorf("panel did not respond to initialization timely")
 	}
 }
-- 
2.43.0


From 0d61c4b561b04231130e51b5fafd4951b209c265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 20/25] fix: messages read before the connection ends are
 processed, and sending afterwards does not block for ever

---
 gorwp/rawpanel.go | 63 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 2d61ad4..2fe386a 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -44,6 +44,7 @@ type RawPanel struct {
 	binaryPanel bool
 
 	// Message channels:
+	done      <-chan struct{} // Closed when the connection ends
 	toPanel   chan []*rwp.InboundMessage
 	fromPanel chan []*rwp.OutboundMessage
 
@@ -80,6 +81,7 @@ func Connect(panelIPAndPort string, ctx context.Context, cancel context.CancelFu
 	newRawPanel := &RawPanel{
 		connection: c,
 		cancel:     &cancel,
+		done:       ctx.Done(),
 		toPanel:    make(chan []*rwp.InboundMessage, 10),
 		fromPanel:  make(chan []*rwp.OutboundMessage, 10),
 
@@ -111,11 +113,19 @@ func (rp *RawPanel) Close() {
 	(*rp.cancel)()
 }
 
+// Queues messages for the panel. When the connection has ended nobody empties the queue any more and they are dropped:
+func (rp *RawPanel) send(messagesToPanel []*rwp.InboundMessage) {
+	select {
+	case rp.toPanel <- messagesToPanel:
+	case <-rp.done:
+	}
+}
+
 // Asking a panel for initial information:
 func (rp *RawPanel) init(ctx context.Context) error {
 
 	// Sending request for various standard information from panel, all things we consider mandatory for initialization:
-	rp.toPanel <- []*rwp.InboundMessage{{
+	rp.send([]*rwp.InboundMessage{{
 		Command: &rwp.Command{
 			SendPanelInfo:         true,
 			SendPanelTopology:     true,
@@ -124,7 +134,7 @@ func (rp *RawPanel) init(ctx context.Context) error {
 				Value: 3000,
 			},
 		},
-	}}
+	}})
 
 	// Check for initialization, if we get it, return in channel:
 	initialized := make(chan bool, 1)
@@ -206,7 +216,14 @@ func (rp *RawPanel) listen(ctx context.Context) {
 		for {
 			select {
 			case <-ctx.Done():
-				return
+				for { // What was read before the end is still processed
+					select {
+					case messagesFromPanel := <-rp.fromPanel:
+						rp.procesMessagesFromPanel(messagesFromPanel)
+					default:
+						return
+					}
+				}
 			case messagesFromPanel := <-rp.fromPanel:
 				rp.procesMessagesFromPanel(messagesFromPanel)
 			}
@@ -252,7 +269,11 @@ func (rp *RawPanel) readFromPanel() error {
 						outgoingMessage := &rwp.OutboundMessage{}
 						proto.Unmarshal(payload, outgoingMessage)
 						if outgoingMessage.FlowMessage != 2 { // ack
-							rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}
+							select {
+							case rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}:
+							case <-rp.done:
+								return fmt.Errorf("connection ended")
+							}
 						}
 					}
 				} else {
@@ -282,7 +303,11 @@ func (rp *RawPanel) readFromPanel() error {
 				switch netDataStr {
 				case "ack":
 				default:
-					rp.fromPanel <- helpers.RawPanelASCIIstringsToOutboundMessages([]string{netDataStr})
+					select {
+					case rp.fromPanel <- helpers.RawPanelASCIIstringsToOutboundMessages([]string{netDataStr}):
+					case <-rp.done:
+						return fmt.Errorf("connection ended")
+					}
 				}
 			}
 		}
@@ -295,9 +320,9 @@ func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMes
 
 		// Respond to ping:
 		if msg.FlowMessage == rwp.OutboundMessage_PING {
-			rp.toPanel <- []*rwp.InboundMessage{{
+			rp.send([]*rwp.InboundMessage{{
 				FlowMessage: rwp.InboundMessage_ACK,
-			}}
+			}})
 		}
 
 		// Store panel info:
@@ -394,7 +419,7 @@ func (rp *RawPanel) IsInitialized() bool {
 
 // Sets the panel brightness (same for OLED and LEDs in this case)
 func (rp *RawPanel) SetBrightness(brightness int) {
-	rp.toPanel <- []*rwp.InboundMessage{
+	rp.send([]*rwp.InboundMessage{
 		{
 			Command: &rwp.Command{
 				PanelBrightness: &rwp.Brightness{
@@ -403,13 +428,13 @@ func (rp *RawPanel) SetBrightness(brightness int) {
 				},
 			},
 		},
-	}
+	})
 }
 
 // Sets the color of a specific LED.
 func (rp *RawPanel) SetLEDColor(hwc uint32, c color.RGBA, intensity rwp.HWCMode_StateE) {
 	r, g, b, _ := c.RGBA()
-	rp.toPanel <- []*rwp.InboundMessage{
+	rp.send([]*rwp.InboundMessage{
 		{
 			States: []*rwp.HWCState{
 				{
@@ -427,12 +452,12 @@ func (rp *RawPanel) SetLEDColor(hwc uint32, c color.RGBA, intensity rwp.HWCMode_
 				},
 			},
 		},
-	}
+	})
 }
 
 // Sets the color of a specific LED by index
 func (rp *RawPanel) SetLEDColorByIndex(hwc uint32, colorIndex rwp.ColorIndex_Colors, intensity rwp.HWCMode_StateE) {
-	rp.toPanel <- []*rwp.InboundMessage{
+	rp.send([]*rwp.InboundMessage{
 		{
 			States: []*rwp.HWCState{
 				{
@@ -448,7 +473,7 @@ func (rp *RawPanel) SetLEDColorByIndex(hwc uint32, colorIndex rwp.ColorIndex_Col
 				},
 			},
 		},
-	}
+	})
 }
 
 // Sets the raw panel ASCII text of a display (text lines and header type)
@@ -466,7 +491,7 @@ func (rp *RawPanel) SetRWPText(hwc uint32, title string, text1 string, text2 str
 
 // Sets the raw panel ASCII text of a display by forwarding a full text struct
 func (rp *RawPanel) SetRWPTextByStruct(hwc uint32, txtStruct *rwp.HWCText) {
-	rp.toPanel <- []*rwp.InboundMessage{
+	rp.send([]*rwp.InboundMessage{
 		{
 			States: []*rwp.HWCState{
 				{
@@ -475,7 +500,7 @@ func (rp *RawPanel) SetRWPTextByStruct(hwc uint32, txtStruct *rwp.HWCText) {
 				},
 			},
 		},
-	}
+	})
 }
 
 // Type DrawFitting represents how the image is scaled
@@ -562,7 +587,7 @@ func (rp *RawPanel) DrawImageOptions(hwc uint32, inImg image.Image, displayInfo
 	// Map the image onto the canvas
 	rawpanelproc.RenderImageOnCanvas(&img, newImage, imgBounds, "", "", "")
 
-	rp.toPanel <- []*rwp.InboundMessage{
+	rp.send([]*rwp.InboundMessage{
 		{
 			States: []*rwp.HWCState{
 				{
@@ -571,7 +596,7 @@ func (rp *RawPanel) DrawImageOptions(hwc uint32, inImg image.Image, displayInfo
 				},
 			},
 		},
-	}
+	})
 
 	return nil
 }
@@ -579,9 +604,9 @@ func (rp *RawPanel) DrawImageOptions(hwc uint32, inImg image.Image, displayInfo
 // Function SendRawState just forwards a state struct
 // to the panel
 func (rp *RawPanel) SendRawState(state *rwp.HWCState) {
-	rp.toPanel <- []*rwp.InboundMessage{
+	rp.send([]*rwp.InboundMessage{
 		{
 			States: []*rwp.HWCState{state},
 		},
-	}
+	})
 }
-- 
2.43.0


From 78397ad5b83720fa8dae89aac846dcb6c490adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:49 +0000
Subject: [PATCH 21/25] fix: pixels left of or above the bounding box are
 dropped instead of wrapping onto another row or escaping the box

---
 ibeam_lib_monogfx/monogfx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index d734fdd..265cde3 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -238,7 +238,9 @@ func (img *MonoImg) DrawPixel(x int, y int, color bool) {
 	y += img.bbox_y
 	widthMax := su.Qint(img.bbox_width+img.bbox_x > img.Width, img.Width, img.bbox_width+img.bbox_x)
 	heightMax := su.Qint(img.bbox_height+img.bbox_y > img.Height, img.Height, img.bbox_height+img.bbox_y)
-	if x < widthMax && y < heightMax {
+	widthMin := su.Qint(img.bbox_x < 0, 0, img.bbox_x)
+	heightMin := su.Qint(img.bbox_y < 0, 0, img.bbox_y)
+	if x >= widthMin && x < widthMax && y >= heightMin && y < heightMax {
 		index := y*img.widthInBytes + x/8
 		if index >= 0 && index < len(img.imgBytes) { // Check we are not writing out of bounds
 			if color != img.invertPixels { // XOR of the two...
-- 
2.43.0


From fdf1f834dd0964b0179f01ba0e7056b96d5bc798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:56 +0000
Subject: [PATCH 22/25] fix: rounded rectangles stay inside their bounds also
 when they are empty or smaller than their corners

---
 ibeam_lib_monogfx/monogfx.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index 265cde3..10db79d 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -259,8 +259,18 @@ func (img *MonoImg) FillRect(x int, y int, w int, h int, color bool) {
 	}
 }
 
+// The radius of the corners of a rectangle, limited to what fits inside of it
+func cornerRadius(w int, h int, r int) int {
+	return su.ConstrainValue(r, 0, su.Qint(w < h, w, h)/2)
+}
+
 // Draws a filled rectangle with rounded corners
 func (img *MonoImg) DrawRoundRect(x int, y int, w int, h int, r int, color bool) {
+	if w <= 0 || h <= 0 { // Nothing to draw
+		return
+	}
+	r = cornerRadius(w, h, r)
+
 	// smarter version
 	img.DrawFastHLine(x+r, y, w-2*r, color)     // Top
 	img.DrawFastHLine(x+r, y+h-1, w-2*r, color) // Bottom
@@ -276,6 +286,11 @@ func (img *MonoImg) DrawRoundRect(x int, y int, w int, h int, r int, color bool)
 
 // Draws a filled rectangle with rounded corners
 func (img *MonoImg) FillRoundRect(x int, y int, w int, h int, r int, color bool) {
+	if w <= 0 || h <= 0 { // Nothing to draw
+		return
+	}
+	r = cornerRadius(w, h, r)
+
 	// smarter version
 	img.FillRect(x+r, y, w-2*r, h, color) // Top
 
-- 
2.43.0


From d8e058998295851e8ae6d10a8bbfe52fcd4a5fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:39 +0000
Subject: [PATCH 23/25] fix: the PNG of a monochrome image with less data than
 its dimensions need shows the data there is, like for the other types

---
 rawpanelhelpers.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 3594ee3..76585e8 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -791,10 +791,15 @@ func ConvertGfxStateToPngBytes(hwcState *rwp.HWCState) ([]byte, error) {
 		switch hwcState.HWCGfx.ImageType { // Copied from Reactor code base.... (KS)
 		case rwp.HWCGfx_MONO:
 			monoImg := monogfx.MonoImg{}
+			imageData := hwcState.HWCGfx.ImageData
+			if size := (int(hwcState.HWCGfx.W) + 7) / 8 * int(hwcState.HWCGfx.H); len(imageData) < size { // Like for the other types, pixels without data are off
+				imageData = make([]byte, size)
+				copy(imageData, hwcState.HWCGfx.ImageData)
+			}
 			err := monoImg.CreateFromBytes(
 				int(hwcState.HWCGfx.W),
 				int(hwcState.HWCGfx.H),
-				hwcState.HWCGfx.ImageData)
+				imageData)
 			log.Should(err)
 			// TODO: Images with offsets!!
 
-- 
2.43.0


From 4f124925691d812a72f37ce78af86fb159b115e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:47 +0000
Subject: [PATCH 24/25] fix: a colour index without an entry in the table gives
 the default colour instead of a panic

---
 rawpanelhelpers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 76585e8..b37cfd8 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -218,7 +218,10 @@ func convertToColorRGB16bit(colorObj rwp.Color) int {
 			uint32((su.MapAndConstrainValue(int(colorObj.ColorRGB.Blue), 0, 0xFF, 0, 0x3)&0x3)<<0))
 	} else if colorObj.ColorIndex != nil {
 		outputInteger := uint32(colorObj.ColorIndex.Index & 0x1F)
-		output = su.Qint(len(buttonColors) > int(outputInteger), int(buttonColors[outputInteger]), int(buttonColors[0]))
+		output = int(buttonColors[0])
+		if int(outputInteger) < len(buttonColors) {
+			output = int(buttonColors[outputInteger])
+		}
 	}
 	return output
 }
-- 
2.43.0


From 81828d05c46aa1e1015517b2e9ae56dcae9f8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:59 +0000
Subject: [PATCH 25/25] fix: the scale bar of a range wider than 32 bits
 follows the value instead of overflowing

---
 rawpanelhelpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index b37cfd8..c90a44e 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -560,7 +560,7 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 
 				// Render scale line in bottom of tile
 				if a == 0 {
-					rangeDiff := int(textStruct.Scale.RangeHigh - textStruct.Scale.RangeLow)
+					rangeDiff := int(textStruct.Scale.RangeHigh) - int(textStruct.Scale.RangeLow)
 					if textStruct.Scale != nil && textStruct.Scale.ScaleType > 0 && rangeDiff != 0 {
 						disp.DrawRoundRect(0, activeHeight-1, int(width), 1, 0, WHITE) // Base rectangle
 
@@ -580,11 +580,11 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 						}
 
 						if textStruct.Scale.RangeHigh > textStruct.Scale.LimitHigh {
-							wBar = su.ConstrainValue(int(float64(textStruct.Scale.LimitHigh-textStruct.Scale.RangeLow)/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+							wBar = su.ConstrainValue(int(float64(int(textStruct.Scale.LimitHigh)-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 						if textStruct.Scale.RangeLow < textStruct.Scale.LimitLow {
-							wBar = su.ConstrainValue(int(float64(textStruct.Scale.LimitLow-textStruct.Scale.RangeLow)/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+							wBar = su.ConstrainValue(int(float64(int(textStruct.Scale.LimitLow)-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 					}
-- 
2.43.0

