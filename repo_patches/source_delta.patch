From ae2a9463930036215ae4756d620bd07ee9455566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 01/24] fix: encode unformatted text (formatting 10/11) without
 text styling instead of panicking

---
 converterFunctions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 3c4d2d6..b58949a 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -870,7 +870,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 							if !su.IsIntIn(int(stateRec.HWCText.Formatting), []int{7, 10, 11}) {
 								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.IntegerValue))
 							} else if su.IsIntIn(int(stateRec.HWCText.Formatting), []int{10, 11}) {
-								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.TextStyling.UnformattedFontSize))
+								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.TextStyling.GetUnformattedFontSize()))
 							} else { // Formatting == 7
 								stringSlice[1] = ""
 								stringSlice[0] = ""
-- 
2.43.0


From defe039b8c3ea8d748559c8570de79e507d1b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 02/24] fix: keep SVG lines that do not end a tag when
 flattening the topology SVG

---
 converterFunctions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index b58949a..0e41e5e 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -1826,8 +1826,8 @@ func stripLineBreaksSvg(svg string) string {
 	parts := strings.Split(svg, "\n")
 	for i := range parts {
 		parts[i] = strings.TrimSpace(parts[i])
-		if !strings.HasSuffix(parts[i], ">") {
-			parts[i] = " " // Add a single space at the end if it's not tags. This is to secure integrity of such as a SVG path defined over multiple lines which is sometimes the case....
+		if i < len(parts)-1 && !strings.HasSuffix(parts[i], ">") {
+			parts[i] += " " // Add a single space at the end if it's not tags. This is to secure integrity of such as a SVG path defined over multiple lines which is sometimes the case....
 		}
 	}
 	return strings.Join(parts, "")
-- 
2.43.0


From 8be4604a7a7ea40ea7f3e91663ef8dd1e24084a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 03/24] fix: decode Raw analog events from ASCII lines

---
 converterFunctions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 0e41e5e..57505e4 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -964,7 +964,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 
 var regex_map = regexp.MustCompile("^map=([0-9]+):([0-9]+)$")
 var regex_genericSingle_inbound = regexp.MustCompile("^(_model|_serial|_version|_platform|_bluePillReady|_name|_panelType|_support|_isSleeping|_sleepTimer|_panelTopology_svgbase|_panelTopology_HWC|_burninProfile|_networkConfig|_calibrationProfile|_defaultCalibrationProfile|_serverModeLockToIP|_serverModeMaxClients|_heartBeatTimer|DimmedGain|_connections|_bootsCount|_totalUptimeMin|_sessionUptimeMin|_screenSaverOnMin|ErrorMsg|Msg|EnvironmentalHealth|SysStat)=(.+)$")
-var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc)(|:([-0-9]+))$")
+var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc|Raw)(|:([-0-9]+))$")
 var regex_registersOut = regexp.MustCompile("^(Flag#|Mem|Shift|State)([A-Z0-9]*)=([0-9]+)$")
 
 // Converts Raw Panel 1.0 ASCII Strings into proto OutboundMessage structs
@@ -1087,7 +1087,7 @@ func RawPanelASCIIstringsToOutboundMessages(rp20_ascii []string) []*rwp.Outbound
 						},
 					}
 				case "Raw":
-					value := su.Intval(regex_cmd.FindStringSubmatch(inputString)[6])
+					value := su.Intval(regex_cmd_inbound.FindStringSubmatch(inputString)[6])
 					msg = &rwp.OutboundMessage{
 						Events: []*rwp.HWCEvent{
 							&rwp.HWCEvent{
-- 
2.43.0


From 5b6a62fbd7b82c3c88162efbb40114c67af2f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 04/24] fix: only a dot separates component id and edge in
 ASCII events

---
 converterFunctions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 57505e4..6dab833 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -964,7 +964,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 
 var regex_map = regexp.MustCompile("^map=([0-9]+):([0-9]+)$")
 var regex_genericSingle_inbound = regexp.MustCompile("^(_model|_serial|_version|_platform|_bluePillReady|_name|_panelType|_support|_isSleeping|_sleepTimer|_panelTopology_svgbase|_panelTopology_HWC|_burninProfile|_networkConfig|_calibrationProfile|_defaultCalibrationProfile|_serverModeLockToIP|_serverModeMaxClients|_heartBeatTimer|DimmedGain|_connections|_bootsCount|_totalUptimeMin|_sessionUptimeMin|_screenSaverOnMin|ErrorMsg|Msg|EnvironmentalHealth|SysStat)=(.+)$")
-var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc|Raw)(|:([-0-9]+))$")
+var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|\\.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc|Raw)(|:([-0-9]+))$")
 var regex_registersOut = regexp.MustCompile("^(Flag#|Mem|Shift|State)([A-Z0-9]*)=([0-9]+)$")
 
 // Converts Raw Panel 1.0 ASCII Strings into proto OutboundMessage structs
-- 
2.43.0


From 157440811283653a3b830c0f8641da7f4c58f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 05/24] fix: end a graphics transfer at its last part or at a
 wrong part, so that no stray part can corrupt or repeat an image

---
 converterFunctions.go |  2 ++
 rawpanelhelpers.go    | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 6dab833..65ca270 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -390,8 +390,10 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 									},
 								}
 								//fmt.Println("DID IT! ", submatches)
+								temp_HWCGfx_HWClist = "" // Transfer is complete, only a new part 0 can start another one
 							}
 						} else {
+							temp_HWCGfx_HWClist = "" // Transfer is broken, only a new part 0 can start another one
 							//fmt.Println("gPartIndex didn't match expected")
 						}
 					} else {
diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 6f7f0c6..8c0e489 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -657,11 +657,12 @@ func (ar *ASCIIreader) Parse(inputString string) []*rwp.InboundMessage {
 				if gPartIndex == ar.HWCGfx_count { // Make sure index is the next in line
 					ar.HWCGfx = append(ar.HWCGfx, inputString)
 					if gPartIndex == ar.HWCGfx_max { // If we have reached the final one, wrap it up:
-						ar.HWCGfx_count = -1 // Reset
+						ar.endGfx() // Reset
 						return RawPanelASCIIstringsToInboundMessages(ar.HWCGfx)
 					}
 				} else {
 					log.Warnf("gPartIndex %d didn't match expected %d\n", gPartIndex, ar.HWCGfx_count)
+					ar.endGfx()
 				}
 			} else {
 				log.Warnf("Wrong HWC %s addressed! Should be %s\n", submatches[2], ar.HWCGfx_HWClist)
@@ -675,6 +676,13 @@ func (ar *ASCIIreader) Parse(inputString string) []*rwp.InboundMessage {
 	return nil
 }
 
+// Ends an image transfer: Only a new part 0 can start another one
+func (ar *ASCIIreader) endGfx() {
+	ar.HWCGfx_count = -1
+	ar.HWCGfx_ImageType = ""
+	ar.HWCGfx_HWClist = ""
+}
+
 // Is server mode panel ASCII or Binary? Test by sending a binary ping to the panel.
 // Background: Since it's possible that a panel auto detects binary or ascii protocol mode itself, it's best to probe with a binary package since otherwise a binary capable panel/system pair in auto mode would negotiate to use ASCII which is not as efficient and complete an encoding.
 // Returns true if binary panel. May hang for a few seconds waiting for reply
-- 
2.43.0


From 96974e9f926be0f2db96b67e58d13f82d4602032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 06/24] fix: no ASCII string contains a line feed, whatever
 text a message carries

---
 converterFunctions.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/converterFunctions.go b/converterFunctions.go
index 65ca270..79c7a0e 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -934,6 +934,8 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 		}
 	}
 
+	oneLineEach(returnStrings)
+
 	if DebugRWPhelpers {
 		DebugRWPhelpersMU.Lock()
 		fmt.Println("\n-------------------------------------------------------------------------------")
@@ -1751,6 +1753,8 @@ func OutboundMessagesToRawPanelASCIIstrings(outboundMsgs []*rwp.OutboundMessage)
 		}
 	}
 
+	oneLineEach(returnStrings)
+
 	if DebugRWPhelpers {
 		DebugRWPhelpersMU.Lock()
 		fmt.Println("\n-------------------------------------------------------------------------------")
@@ -1824,6 +1828,13 @@ func convertToColorStruct(colorValue int) *rwp.Color {
 	return outputObject
 }
 
+// Line feeds separate the strings on the wire, so no string can contain one
+func oneLineEach(lines []string) {
+	for i := range lines {
+		lines[i] = strings.ReplaceAll(lines[i], "\n", " ")
+	}
+}
+
 func stripLineBreaksSvg(svg string) string {
 	parts := strings.Split(svg, "\n")
 	for i := range parts {
-- 
2.43.0


From 5d7a72924a03f83c9d082ae78b13cd6a0c832aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 07/24] fix: random type renumbering never hands out id 0,
 which means disabled

---
 topology/topology.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/topology/topology.go b/topology/topology.go
index 6d7ce7e..9547185 100644
--- a/topology/topology.go
+++ b/topology/topology.go
@@ -276,8 +276,8 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 	r1 := rand.New(s1)
 	seq := uint32(1)
 	for typeNum, typeStruct := range topology.TypeIndex {
-		// Find new random index not used:
-		typeMapping[typeNum] = uint32(r1.Intn(1000000))
+		// Find new random index not used (and never 0, which means disabled):
+		typeMapping[typeNum] = uint32(1 + r1.Intn(999999))
 		if sequence {
 			typeMapping[typeNum] = seq
 		}
@@ -289,7 +289,7 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 					//fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
 				} else {
 					fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
-					typeMapping[typeNum] = uint32(r1.Intn(1000000))
+					typeMapping[typeNum] = uint32(1 + r1.Intn(999999))
 				}
 			} else {
 				break
-- 
2.43.0


From be7b9fba900f30bbe7205d0657d99a06c4032d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 08/24] fix: composite SVG keeps namespace prefixes and all
 text of the base document

---
 topology/svgicon.go | 53 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/topology/svgicon.go b/topology/svgicon.go
index 2bf9df2..f03541e 100644
--- a/topology/svgicon.go
+++ b/topology/svgicon.go
@@ -6,6 +6,7 @@ package topology
 
 import (
 	"encoding/json"
+	stdxml "encoding/xml"
 	"fmt"
 	"strconv"
 	"strings"
@@ -45,6 +46,7 @@ func GenerateCompositeSVGdoc(topologyJSON string, topologySVG string, theMap map
 		log.Error("svgDoc.Root was nil")
 		return nil
 	}
+	restoreNamesAndText(svgDoc.Root, topologySVG)
 
 	// Reading JSON topology:
 	var topology Topology
@@ -216,6 +218,57 @@ func GenerateCompositeSVGdoc(topologyJSON string, topologySVG string, theMap map
 	return svgDoc
 }
 
+// restoreNamesAndText puts back what the xmldom parser drops from the source document: namespace prefixes
+// of elements and attributes, and text which is not in the last piece of character data of its element.
+func restoreNamesAndText(root *xml.Node, source string) {
+	qualified := func(name stdxml.Name) string {
+		if name.Space != "" {
+			return name.Space + ":" + name.Local
+		}
+		return name.Local
+	}
+
+	decoder := stdxml.NewDecoder(strings.NewReader(source))
+	pending := []*xml.Node{root} // Nodes not seen yet, the next one in document order is the last
+	var open []*xml.Node
+	for {
+		token, err := decoder.RawToken()
+		if err != nil {
+			return
+		}
+		switch token := token.(type) {
+		case stdxml.StartElement:
+			if len(pending) == 0 {
+				return
+			}
+			node := pending[len(pending)-1]
+			pending = pending[:len(pending)-1]
+			for i := len(node.Children) - 1; i >= 0; i-- {
+				pending = append(pending, node.Children[i])
+			}
+			node.Name = qualified(token.Name)
+			for i, attr := range token.Attr {
+				if i < len(node.Attributes) {
+					node.Attributes[i].Name = qualified(attr.Name)
+				}
+			}
+			node.Text = ""
+			open = append(open, node)
+		case stdxml.EndElement:
+			if len(open) == 0 {
+				return
+			}
+			node := open[len(open)-1]
+			open = open[:len(open)-1]
+			node.Text = strings.TrimSpace(node.Text)
+		case stdxml.CharData:
+			if len(open) > 0 {
+				open[len(open)-1].Text += string(token)
+			}
+		}
+	}
+}
+
 func addFormatting(newHWc *xml.Node, id int) {
 	// There is some common conventional formatting regardless of rectangle / circle: Like fill and stroke color and stroke width.
 	newHWc.SetAttributeValue("fill", "#dddddd")
-- 
2.43.0


From 8f5c973bc287aabe445587ded12baa755a77d083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 09/24] fix: drawing is clipped to the bounding box on all
 sides, never wraps to another row and ends for huge sizes

---
 ibeam_lib_monogfx/monogfx.go | 56 ++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index d734fdd..1c7f272 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -234,25 +234,49 @@ func (img *MonoImg) SetOLEDPixelColor(color int) {
 
 // Draws pixel in a given position
 func (img *MonoImg) DrawPixel(x int, y int, color bool) {
+	if x < 0 || y < 0 || x >= img.bbox_width || y >= img.bbox_height { // Clip to bounding box
+		return
+	}
 	x += img.bbox_x
 	y += img.bbox_y
-	widthMax := su.Qint(img.bbox_width+img.bbox_x > img.Width, img.Width, img.bbox_width+img.bbox_x)
-	heightMax := su.Qint(img.bbox_height+img.bbox_y > img.Height, img.Height, img.bbox_height+img.bbox_y)
-	if x < widthMax && y < heightMax {
-		index := y*img.widthInBytes + x/8
-		if index >= 0 && index < len(img.imgBytes) { // Check we are not writing out of bounds
-			if color != img.invertPixels { // XOR of the two...
-				img.imgBytes[index] |= byte(0b1 << (7 - x%8))
-			} else {
-				img.imgBytes[index] &= (0b1 << (7 - x%8)) ^ 0xFF
-			}
+	if x < 0 || y < 0 || x >= img.Width || y >= img.Height { // Clip to canvas
+		return
+	}
+	index := y*img.widthInBytes + x/8
+	if index < len(img.imgBytes) { // Check we are not writing out of bounds
+		if color != img.invertPixels { // XOR of the two...
+			img.imgBytes[index] |= byte(0b1 << (7 - x%8))
+		} else {
+			img.imgBytes[index] &= (0b1 << (7 - x%8)) ^ 0xFF
 		}
 	}
 }
 
+// Returns the start and end of the part of pos..pos+size (along one axis, relative to the bounding box) that can be visible
+func clipSpan(pos int, size int, bboxStart int, bboxSize int, canvasSize int) (int, int) {
+	first := su.Qint(bboxStart < 0, -bboxStart, 0)
+	last := su.Qint(canvasSize-bboxStart < bboxSize, canvasSize-bboxStart, bboxSize)
+	if size <= 0 || pos >= last {
+		return 0, 0
+	}
+	if pos < first {
+		skipped := uint(first) - uint(pos) // Unsigned, so that it doesn't overflow
+		if skipped >= uint(size) {
+			return 0, 0
+		}
+		size -= int(skipped)
+		pos = first
+	}
+	if size < last-pos {
+		last = pos + size
+	}
+	return pos, last
+}
+
 // Draws a filled rectangle
 func (img *MonoImg) FillRect(x int, y int, w int, h int, color bool) {
-	for i := x; i < x+w; i++ {
+	first, last := clipSpan(x, w, img.bbox_x, img.bbox_width, img.Width)
+	for i := first; i < last; i++ {
 		img.DrawFastVLine(i, y, h, color)
 	}
 }
@@ -348,15 +372,17 @@ func (img *MonoImg) FillCircleHelper(x0 int, y0 int, r int, cornername int, delt
 
 // Draws a vertical line:
 func (img *MonoImg) DrawFastVLine(x int, y int, h int, color bool) {
-	for i := 0; i < h; i++ {
-		img.DrawPixel(x, y+i, color)
+	first, last := clipSpan(y, h, img.bbox_y, img.bbox_height, img.Height)
+	for i := first; i < last; i++ {
+		img.DrawPixel(x, i, color)
 	}
 }
 
 // Draws a horizontal line:
 func (img *MonoImg) DrawFastHLine(x int, y int, w int, color bool) {
-	for i := 0; i < w; i++ {
-		img.DrawPixel(x+i, y, color)
+	first, last := clipSpan(x, w, img.bbox_x, img.bbox_width, img.Width)
+	for i := first; i < last; i++ {
+		img.DrawPixel(i, y, color)
 	}
 }
 
-- 
2.43.0


From 7d880ba78444849c58c2505801712d5901a7abc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 10/24] fix: rounded rectangles and bitmaps of degenerate or
 huge size stay in their footprint and end

---
 ibeam_lib_monogfx/monogfx.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index 1c7f272..feb15c5 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -283,6 +283,11 @@ func (img *MonoImg) FillRect(x int, y int, w int, h int, color bool) {
 
 // Draws a filled rectangle with rounded corners
 func (img *MonoImg) DrawRoundRect(x int, y int, w int, h int, r int, color bool) {
+	if w <= 0 || h <= 0 {
+		return
+	}
+	r = su.ConstrainValue(r, 0, su.Qint(w < h, w, h)/2) // Radius can't exceed half of the shortest side
+
 	// smarter version
 	img.DrawFastHLine(x+r, y, w-2*r, color)     // Top
 	img.DrawFastHLine(x+r, y+h-1, w-2*r, color) // Bottom
@@ -298,6 +303,11 @@ func (img *MonoImg) DrawRoundRect(x int, y int, w int, h int, r int, color bool)
 
 // Draws a filled rectangle with rounded corners
 func (img *MonoImg) FillRoundRect(x int, y int, w int, h int, r int, color bool) {
+	if w <= 0 || h <= 0 {
+		return
+	}
+	r = su.ConstrainValue(r, 0, su.Qint(w < h, w, h)/2) // Radius can't exceed half of the shortest side
+
 	// smarter version
 	img.FillRect(x+r, y, w-2*r, h, color) // Top
 
@@ -609,7 +619,12 @@ func (img *MonoImg) SetTextWrap(wrap bool) {
 
 func (img *MonoImg) DrawBitmap(x int, y int, bitmap []byte, w int, h int, color bool, inverted bool, drawAllPixels bool) {
 	var i, j int = 0, 0
-	byteWidth := (w + 7) / 8
+	if w <= 0 || len(bitmap) == 0 {
+		return
+	}
+	byteWidth := w/8 + su.Qint(w%8 > 0, 1, 0)
+	h = su.Qint(h > (len(bitmap)-1)/byteWidth+1, (len(bitmap)-1)/byteWidth+1, h) // Rows with data
+	w = su.Qint(w/8 > len(bitmap), len(bitmap)*8, w)                             // Columns with data
 
 	for j = 0; j < h; j++ {
 		for i = 0; i < w; i++ {
-- 
2.43.0


From a578688f5aedb5691b7bc95ac3a7b74aa5186e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:58 +0000
Subject: [PATCH 11/24] fix: a mono image of less data than declared keeps the
 pixels its data covers

---
 ibeam_lib_monogfx/monogfx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index feb15c5..8c661a9 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -90,6 +90,7 @@ func (img *MonoImg) CreateFromImage(src image.Image) {
 func (img *MonoImg) CreateFromBytes(width int, height int, bytes []byte) error {
 	img.NewImage(width, height)
 	if img.widthInBytes*height > len(bytes) {
+		copy(img.imgBytes, bytes) // Keep the pixels which are there
 		return fmt.Errorf("addressable dimensions larger than provided byte slice")
 	}
 	img.imgBytes = bytes
-- 
2.43.0


From 286e8be7f27e4940ba9e6dba9be89e5b8e226c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 12/24] fix: colour indices above the colour table render as
 the default colour instead of panicking

---
 rawpanelhelpers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 8c0e489..676b3e3 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -218,7 +218,10 @@ func convertToColorRGB16bit(colorObj rwp.Color) int {
 			uint32((su.MapAndConstrainValue(int(colorObj.ColorRGB.Blue), 0, 0xFF, 0, 0x3)&0x3)<<0))
 	} else if colorObj.ColorIndex != nil {
 		outputInteger := uint32(colorObj.ColorIndex.Index & 0x1F)
-		output = su.Qint(len(buttonColors) > int(outputInteger), int(buttonColors[outputInteger]), int(buttonColors[0]))
+		output = int(buttonColors[0])
+		if len(buttonColors) > int(outputInteger) {
+			output = int(buttonColors[outputInteger])
+		}
 	}
 	return output
 }
-- 
2.43.0


From 7beb0c966fdcccd8cbc2e6fb7de17568c8378b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 13/24] fix: no overflow in the scale bar for ranges wider than
 31 bits

---
 rawpanelhelpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 676b3e3..538bd28 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -560,7 +560,7 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 
 				// Render scale line in bottom of tile
 				if a == 0 {
-					rangeDiff := int(textStruct.Scale.RangeHigh - textStruct.Scale.RangeLow)
+					rangeDiff := int(textStruct.Scale.RangeHigh) - int(textStruct.Scale.RangeLow)
 					if textStruct.Scale != nil && textStruct.Scale.ScaleType > 0 && rangeDiff != 0 {
 						disp.DrawRoundRect(0, activeHeight-1, int(width), 1, 0, WHITE) // Base rectangle
 
@@ -580,11 +580,11 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 						}
 
 						if textStruct.Scale.RangeHigh > textStruct.Scale.LimitHigh {
-							wBar = su.ConstrainValue(int(float64(textStruct.Scale.LimitHigh-textStruct.Scale.RangeLow)/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+							wBar = su.ConstrainValue(int(float64(int(textStruct.Scale.LimitHigh)-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 						if textStruct.Scale.RangeLow < textStruct.Scale.LimitLow {
-							wBar = su.ConstrainValue(int(float64(textStruct.Scale.LimitLow-textStruct.Scale.RangeLow)/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+							wBar = su.ConstrainValue(int(float64(int(textStruct.Scale.LimitLow)-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 					}
-- 
2.43.0


From 3c4f613723f4bba65c0cf608ae1cd7be087b7558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 14/24] fix: drop a connection whose frame stalls inside the
 length prefix

---
 connecttopanel.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index e471b34..f5b3aa2 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -179,7 +179,11 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				for {
 					conn.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 					headerArray := make([]byte, 4)
-					_, err := io.ReadFull(conn, headerArray) // Read 4 header bytes
+					_, err := io.ReadFull(conn, headerArray[:1]) // Wait for the first header byte for as long as it takes
+					if err == nil {
+						conn.SetReadDeadline(time.Now().Add(2 * time.Second)) // A frame has begun, so the rest of the header must follow within 2 seconds
+						_, err = io.ReadFull(conn, headerArray[1:])           // Read the other 3 header bytes
+					}
 					if err != nil {
 						log.Debugln("Binary: ", err)
 						break
-- 
2.43.0


From f61f8c5014b4403f72db4be4c8902b13a2811110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 15/24] fix: account for the writer goroutine in the wait group
 before it starts

---
 connecttopanel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index f5b3aa2..33eec5e 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -132,9 +132,11 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			// This goroutine is reading the msgsToPanel channel and sending over the panel in the proper encoding (binary or ASCII)
 			var exit atomic.Bool
 			quit := make(chan bool)
+			if wg != nil {
+				wg.Add(1) // Before the goroutine starts, so the wait group can't drain with the goroutine yet to run
+			}
 			go func() {
 				if wg != nil {
-					wg.Add(1)
 					defer wg.Done()
 				}
 				for {
-- 
2.43.0


From aa125fddd5ae5d114ced567dca5dde98c4e3119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 16/24] fix: cancellation closes the connection also while a
 write to it is blocked

---
 connecttopanel.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 33eec5e..82b66e1 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -129,9 +129,27 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				binaryPanel = false
 			}
 
-			// This goroutine is reading the msgsToPanel channel and sending over the panel in the proper encoding (binary or ASCII)
 			var exit atomic.Bool
 			quit := make(chan bool)
+
+			// This goroutine closes the connection on context cancellation. It's separate from the writer below, which may be stuck in a write if the panel doesn't read.
+			if wg != nil {
+				wg.Add(1)
+			}
+			go func() {
+				if wg != nil {
+					defer wg.Done()
+				}
+				select {
+				case <-ctx.Done(): // Context shutdown.
+					log.Debugln("Closing network connection because context was done, ", panelIPAndPort)
+					exit.Store(true)
+					conn.Close() // The implications of closing the connection should be that the listening code below will also fail and exit - but it might not happen if the msgsFromPanel channel reader outside this function has been stopped prematurely, so watch out for that.
+				case <-quit:
+				}
+			}()
+
+			// This goroutine is reading the msgsToPanel channel and sending over the panel in the proper encoding (binary or ASCII)
 			if wg != nil {
 				wg.Add(1) // Before the goroutine starts, so the wait group can't drain with the goroutine yet to run
 			}
@@ -142,9 +160,6 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				for {
 					select {
 					case <-ctx.Done(): // Context shutdown.
-						log.Debugln("Closing network connection because context was done, ", panelIPAndPort)
-						exit.Store(true)
-						conn.Close() // The implications of closing the connection should be that the listening code below will also fail and exit - but it might not happen if the msgsFromPanel channel reader outside this function has been stopped prematurely, so watch out for that.
 						return
 					case <-quit:
 						return
-- 
2.43.0


From 502e63064ce58837998c54e171ef1af8af84d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 17/24] fix: the protocol detector recognises the ready word in
 a line ended by CR LF

---
 rawpanelhelpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 538bd28..4a32435 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -718,7 +718,7 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 		return false
 	}
 
-	if byteCount >= 4 && (string(byteArray[0:4]) == "RDY\n" || string(byteArray[0:4]) == "map=") {
+	if reply := string(byteArray[:byteCount]); strings.HasPrefix(reply, "RDY") || strings.HasPrefix(reply, "map=") { // Lines may end with CR LF as well
 		log.Debugln("Detected map or RDY message issued by UniSketch ASCII panels - we conclude ASCII")
 		_, err = c.Write([]byte("\n")) // Clearing an ASCII panels buffer with a newline since we sent it binary stuff
 		log.Should(err)
-- 
2.43.0


From 59be8a9a1f542c052f21aa1f35e6f053ac7d7f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 18/24] fix: a probe reply that arrives in several segments is
 classified as a whole

---
 connecttopanel.go  |  2 +-
 rawpanelhelpers.go | 28 +++++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 82b66e1..85129f7 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -87,7 +87,7 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			byteArray := make([]byte, 1000)
 			err = conn.SetReadDeadline(time.Now().Add(2000 * time.Millisecond))
 			log.Should(err)
-			byteCount, err := conn.Read(byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+			byteCount, err := readProbeReply(conn, byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
 			assumeASCII := false
 			binaryPanel := true
 			if err == nil {
diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 4a32435..a7cfee8 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -686,6 +686,32 @@ func (ar *ASCIIreader) endGfx() {
 	ar.HWCGfx_HWClist = ""
 }
 
+// Reads the reply to the binary ping. The reply may arrive in several pieces, so it keeps reading (until the read deadline of the connection) for as long as it has only the beginning of a frame, a ready word or a map line.
+func readProbeReply(c net.Conn, buf []byte) (int, error) {
+	n := 0
+	for {
+		k, err := c.Read(buf[n:])
+		n += k
+		if n == 0 && err != nil {
+			return 0, err
+		}
+		if err != nil || n == len(buf) {
+			return n, nil
+		}
+		if n < 4 {
+			header := make([]byte, 4)
+			copy(header, buf[:n])
+			text := string(buf[:n])
+			beginsFrame := int(binary.LittleEndian.Uint32(header))+4 <= len(buf) && text != "\n"
+			if !beginsFrame && !strings.HasPrefix("RDY\n", text) && !strings.HasPrefix("map=", text) {
+				return n, nil
+			}
+		} else if total := int(binary.LittleEndian.Uint32(buf[:4])) + 4; total <= n || total > len(buf) {
+			return n, nil
+		}
+	}
+}
+
 // Is server mode panel ASCII or Binary? Test by sending a binary ping to the panel.
 // Background: Since it's possible that a panel auto detects binary or ascii protocol mode itself, it's best to probe with a binary package since otherwise a binary capable panel/system pair in auto mode would negotiate to use ASCII which is not as efficient and complete an encoding.
 // Returns true if binary panel. May hang for a few seconds waiting for reply
@@ -709,7 +735,7 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 	err = c.SetReadDeadline(time.Now().Add(2000 * time.Millisecond))
 	log.Should(err)
 
-	byteCount, err := c.Read(byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+	byteCount, err := readProbeReply(c, byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
 	if err != nil {
 		log.WithError(err).Debug("tried to connected in binarymode failed, trying asciimode...")
 		log.Infoln("Using ASCII Protocol Mode for panel", panelIPAndPort)
-- 
2.43.0


From 31d395a3e35fc70b58664d5f5008c9b55dab456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 19/24] fix: gorwp reported success when the panel was lost
 during initialisation

init() returned nil when the context ended, whether or not the panel had
delivered model, serial and topology. The polling goroutine also went on
forever when a panel never initialised.
---
 gorwp/rawpanel.go | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 079674a..7d4bda9 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -124,27 +124,27 @@ func (rp *RawPanel) init(ctx context.Context) error {
 		},
 	}}
 
-	// Check for initialization, if we get it, return in channel:
-	initialized := make(chan bool, 1)
-	go func() {
-		for {
+	// Wait for the panel to deliver everything we need - or return after two seconds where it did not happen
+	timeout := time.NewTimer(2 * time.Second)
+	defer timeout.Stop()
+	ticker := time.NewTicker(10 * time.Millisecond)
+	defer ticker.Stop()
+	for !rp.IsInitialized() {
+		select {
+		case <-ctx.Done():
 			if rp.IsInitialized() {
-				initialized <- true
-				return
+				return nil
+			}
+			return fmt.Errorf("connection was closed before panel was initialized")
+		case <-timeout.C:
+			if rp.IsInitialized() {
+				return nil
 			}
-			time.Sleep(time.Millisecond * 10)
+			return fmt.Errorf("panel did not respond to initialization timely")
+		case <-ticker.C:
 		}
-	}()
-
-	// Wait for either signal that init was OK - or return after two seconds where it did not happen
-	select {
-	case <-ctx.Done():
-		return nil
-	case <-initialized:
-		return nil
-	case <-time.After(2 * time.Second):
-		return fmt.Errorf("panel did not respond to initialization timely")
 	}
+	return nil
 }
 
 func (rp *RawPanel) listen(ctx context.Context) {
-- 
2.43.0


From 3d7bddf26da084927b1aa3b24aa5527def0bb754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 20/24] fix: gorwp went on reading after a frame beyond the
 payload limit

The payload was left in the stream and its bytes were taken for headers, so
whatever it contained was dispatched.
---
 gorwp/rawpanel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 7d4bda9..e68de39 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -224,7 +224,7 @@ func (rp *RawPanel) readFromPanel() error {
 						}
 					}
 				} else {
-					log.Println("Error: Payload", currentPayloadLength, "exceed limit")
+					return fmt.Errorf("payload of %d bytes exceeds limit", currentPayloadLength) // The stream can't be followed any further
 				}
 			}
 		}
-- 
2.43.0


From 42296be2e6fa6c9e82dadbb5a73fa1f90039134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 21/24] fix: gorwp dropped events and updates in a message that
 is also an ACK

---
 gorwp/rawpanel.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index e68de39..d03d3fd 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -219,9 +219,7 @@ func (rp *RawPanel) readFromPanel() error {
 					} else {
 						outgoingMessage := &rwp.OutboundMessage{}
 						proto.Unmarshal(payload, outgoingMessage)
-						if outgoingMessage.FlowMessage != 2 { // ack
-							rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}
-						}
+						rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}
 					}
 				} else {
 					return fmt.Errorf("payload of %d bytes exceeds limit", currentPayloadLength) // The stream can't be followed any further
-- 
2.43.0


From 0819981eb489fcfc39f995240ff7c80aa3a3546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 22/24] fix: gorwp's Bind functions raced with the dispatch of
 events

---
 gorwp/inputs.go   | 10 ++++++++++
 gorwp/rawpanel.go | 20 +++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/gorwp/inputs.go b/gorwp/inputs.go
index 4de80cd..53230bc 100644
--- a/gorwp/inputs.go
+++ b/gorwp/inputs.go
@@ -44,6 +44,8 @@ type BinaryFunc func(uint32, BinaryStatus, BinaryEdge)
 // binary trigger.  When the binary trigger is pushed down, then the provided
 // BinaryFunc is called.
 func (rp *RawPanel) BindBinary(hwc uint32, f BinaryFunc) {
+	rp.bindingsMutex.Lock()
+	defer rp.bindingsMutex.Unlock()
 	rp.binaryBindings[hwc] = f
 }
 
@@ -56,6 +58,8 @@ type PulsedFunc func(uint32, int)
 // encoder. When the encoder is turned then the provided
 // PulsedFunc is called.
 func (rp *RawPanel) BindPulsed(hwc uint32, f PulsedFunc) {
+	rp.bindingsMutex.Lock()
+	defer rp.bindingsMutex.Unlock()
 	rp.pulsedBindings[hwc] = f
 }
 
@@ -67,6 +71,8 @@ type AbsoluteFunc func(uint32, int)
 // fader.  When the fader is moved then the provided
 // AbsoluteFunc is called.
 func (rp *RawPanel) BindAbsolute(hwc uint32, f AbsoluteFunc) {
+	rp.bindingsMutex.Lock()
+	defer rp.bindingsMutex.Unlock()
 	rp.absoluteBindings[hwc] = f
 }
 
@@ -79,6 +85,8 @@ type IntensityFunc func(uint32, int)
 // joystick. When the joystick axis is manipulated then the provided
 // IntensityFunc is called.
 func (rp *RawPanel) BindIntensity(hwc uint32, f IntensityFunc) {
+	rp.bindingsMutex.Lock()
+	defer rp.bindingsMutex.Unlock()
 	rp.intensityBindings[hwc] = f
 }
 
@@ -90,5 +98,7 @@ type TriggerFunc func(uint32, *rwp.HWCEvent)
 // Function BindTrigger sets a general callback for actions on a specific
 // hardware component.
 func (rp *RawPanel) BindTrigger(hwc uint32, f TriggerFunc) {
+	rp.bindingsMutex.Lock()
+	defer rp.bindingsMutex.Unlock()
 	rp.triggerBindings[hwc] = f
 }
diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index d03d3fd..a740b45 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -23,6 +23,7 @@ import (
 	"io"
 	"net"
 	"strings"
+	"sync"
 	"time"
 
 	"google.golang.org/protobuf/proto"
@@ -47,6 +48,7 @@ type RawPanel struct {
 	fromPanel chan []*rwp.OutboundMessage
 
 	// Trigger Bindings
+	bindingsMutex     sync.RWMutex // Handlers may be bound while events are dispatched
 	binaryBindings    map[uint32]BinaryFunc
 	pulsedBindings    map[uint32]PulsedFunc
 	absoluteBindings  map[uint32]AbsoluteFunc
@@ -317,19 +319,19 @@ func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMes
 		// Events:
 		if len(msg.Events) > 0 {
 			for _, event := range msg.Events {
-				if receiverFunc, exists := rp.triggerBindings[event.HWCID]; exists {
+				if receiverFunc, exists := lookupBinding(rp, rp.triggerBindings, event.HWCID); exists {
 					receiverFunc(event.HWCID, event)
 				}
-				if receiverFunc, exists := rp.binaryBindings[event.HWCID]; exists && event.Binary != nil {
+				if receiverFunc, exists := lookupBinding(rp, rp.binaryBindings, event.HWCID); exists && event.Binary != nil {
 					receiverFunc(event.HWCID, BinaryStatus(su.Qint(event.Binary.Pressed, 1, 0)), BinaryEdge(event.Binary.Edge))
 				}
-				if receiverFunc, exists := rp.pulsedBindings[event.HWCID]; exists && event.Pulsed != nil {
+				if receiverFunc, exists := lookupBinding(rp, rp.pulsedBindings, event.HWCID); exists && event.Pulsed != nil {
 					receiverFunc(event.HWCID, int(event.Pulsed.Value))
 				}
-				if receiverFunc, exists := rp.absoluteBindings[event.HWCID]; exists && event.Absolute != nil {
+				if receiverFunc, exists := lookupBinding(rp, rp.absoluteBindings, event.HWCID); exists && event.Absolute != nil {
 					receiverFunc(event.HWCID, int(event.Absolute.Value))
 				}
-				if receiverFunc, exists := rp.intensityBindings[event.HWCID]; exists && event.Speed != nil {
+				if receiverFunc, exists := lookupBinding(rp, rp.intensityBindings, event.HWCID); exists && event.Speed != nil {
 					receiverFunc(event.HWCID, int(event.Speed.Value))
 				}
 			}
@@ -337,6 +339,14 @@ func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMes
 	}
 }
 
+// Looks up the function bound to a hardware component
+func lookupBinding[F any](rp *RawPanel, bindings map[uint32]F, hwc uint32) (F, bool) {
+	rp.bindingsMutex.RLock()
+	defer rp.bindingsMutex.RUnlock()
+	f, exists := bindings[hwc]
+	return f, exists
+}
+
 func (rp *RawPanel) IsInitialized() bool {
 	rp.State.Lock()
 	defer rp.State.Unlock()
-- 
2.43.0


From 9d7f73f1578f1beb4cda1140ad81ed5bb6bbadeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 23/24] fix: gorwp stalled when handlers sent messages and lost
 queued events

Events were dispatched by the goroutine that also drains toPanel, so a handler
sending more than fits into that channel blocked forever, and so did the
periodic ping. When the panel was lost, events received before were dropped.
---
 gorwp/rawpanel.go | 47 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index a740b45..3834ac7 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -178,24 +178,49 @@ func (rp *RawPanel) listen(ctx context.Context) {
 					}
 				}
 			case <-ticker.C: // Sending a ping periodically to the panel to make sure TCP will close connection if it doesn't get through. Strictly, the panel should answer back with ACK, but we don't check for that (seems this is enough)
-				rp.toPanel <- []*rwp.InboundMessage{{
+				select {
+				case rp.toPanel <- []*rwp.InboundMessage{{
 					FlowMessage: rwp.InboundMessage_PING,
-				}}
-			case messagesFromPanel := <-rp.fromPanel:
+				}}:
+				default: // The queue is full: other messages serve the purpose and waiting here would block forever
+				}
+			}
+		}
+	}()
+
+	// Dispatching messages from panel. Not in the loop above, because the handlers send messages to the panel:
+	dispatched := make(chan struct{})
+	go func() {
+		defer close(dispatched)
+		for {
+			select {
+			case <-ctx.Done():
+				return
+			case messagesFromPanel, ok := <-rp.fromPanel:
+				if !ok {
+					return
+				}
 				rp.procesMessagesFromPanel(messagesFromPanel)
 			}
 		}
 	}()
 
 	// Read from panel. This will send into the rp.fromPanel channel. It returns when there is an error:
-	err := rp.readFromPanel()
+	err := rp.readFromPanel(ctx)
 	log.Should(err)
 
 	rp.connection.Close()
+
+	// Let what has been received be dispatched before the context is cancelled:
+	close(rp.fromPanel)
+	select {
+	case <-dispatched:
+	case <-ctx.Done():
+	}
 	(*rp.cancel)()
 }
 
-func (rp *RawPanel) readFromPanel() error {
+func (rp *RawPanel) readFromPanel(ctx context.Context) error {
 	// Reading from panel:
 	if rp.binaryPanel {
 		for {
@@ -221,7 +246,11 @@ func (rp *RawPanel) readFromPanel() error {
 					} else {
 						outgoingMessage := &rwp.OutboundMessage{}
 						proto.Unmarshal(payload, outgoingMessage)
-						rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}
+						select {
+						case rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}:
+						case <-ctx.Done():
+							return ctx.Err()
+						}
 					}
 				} else {
 					return fmt.Errorf("payload of %d bytes exceeds limit", currentPayloadLength) // The stream can't be followed any further
@@ -249,7 +278,11 @@ func (rp *RawPanel) readFromPanel() error {
 				switch netDataStr {
 				case "ack":
 				default:
-					rp.fromPanel <- helpers.RawPanelASCIIstringsToOutboundMessages([]string{netDataStr})
+					select {
+					case rp.fromPanel <- helpers.RawPanelASCIIstringsToOutboundMessages([]string{netDataStr}):
+					case <-ctx.Done():
+						return ctx.Err()
+					}
 				}
 			}
 		}
-- 
2.43.0


From 894456c56ea97f06e6c3d36e15b73eb0dc003afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:37 +0000
Subject: [PATCH 24/24] fix: a null in a JSON array line became a nil message

---
 converterFunctions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 79c7a0e..9186c6f 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -173,7 +173,11 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 				myStateMsgs := []*rwp.InboundMessage{}
 				json.Unmarshal([]byte(inputString), &myStateMsgs)
 				msg = nil
-				returnMsgs = append(returnMsgs, myStateMsgs...)
+				for _, stateMsg := range myStateMsgs {
+					if stateMsg != nil { // a JSON null in the array
+						returnMsgs = append(returnMsgs, stateMsg)
+					}
+				}
 			} else if regex_cmd.MatchString(inputString) {
 				HWCidArray := su.IntExplode(regex_cmd.FindStringSubmatch(inputString)[2], ",")
 				switch regex_cmd.FindStringSubmatch(inputString)[1] {
-- 
2.43.0

