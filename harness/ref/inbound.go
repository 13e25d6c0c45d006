// Package ref holds independent reference models of the Raw Panel protocol:
// what a message means (effects on a panel) and how the ASCII grammar is read.
// Nothing in here calls the library's converters.
package ref

import (
	"crypto/sha1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// Eff is one effect on (or report about) a panel: a slot and its new value.
type Eff struct{ Key, Val string }

func (e Eff) String() string { return e.Key + " := " + e.Val }

// Mode of reading a message. Lenient is used when the message is the source
// (C01): colours are quantised to the 2 bits the wire has and combinations the
// wire cannot distinguish are merged. Strict is used when the message is the
// result of decoding (C02): every field must be exactly what the line denotes.
type Mode int

const (
	Lenient Mode = iota
	Strict
)

func id(n uint32) string { return strconv.FormatUint(uint64(n), 10) }

func q2(v uint32) int {
	n := int(v) * 3 / 255
	if n > 3 {
		n = 3
	}
	return n
}

func colRGB(m Mode, c *rwp.ColorRGB) string {
	if m == Lenient {
		return fmt.Sprintf("rgb(%d,%d,%d)", q2(c.GetRed())*85, q2(c.GetGreen())*85, q2(c.GetBlue())*85)
	}
	return fmt.Sprintf("rgb(%d,%d,%d)", c.GetRed(), c.GetGreen(), c.GetBlue())
}

func textColor(m Mode, c *rwp.Color) string {
	switch {
	case c == nil:
		return "none"
	case c.ColorRGB != nil:
		return colRGB(m, c.ColorRGB)
	case c.ColorIndex != nil:
		if c.ColorIndex.Index == 0 {
			return "none"
		}
		return fmt.Sprintf("idx(%d)", c.ColorIndex.Index)
	}
	return "none"
}

// TextVal is the canonical meaning of a text state.
type TextVal struct {
	Value, Fmt, StateIcon, ModIcon   int
	Title                            string
	Solid                            bool
	L1, L2                           string
	Value2, Pair                     int
	ScaleT, RLow, RHigh, LLow, LHigh int
	Face, TW, TH, TFace, TTW, TTH    int
	Size, Pad, Spacing               int
	Fixed, Inv                       bool
	Pix, Bg                          string
}

type plainText TextVal

func (t TextVal) String() string { return fmt.Sprintf("%+v", plainText(t)) }

func textFromMsg(m Mode, t *rwp.HWCText) TextVal {
	f := int(t.GetFormatting())
	v := TextVal{Fmt: f, StateIcon: int(t.GetStateIcon()), ModIcon: int(t.GetModifierIcon()), Title: t.GetTitle(),
		L1: t.GetTextline1(), L2: t.GetTextline2(), Value2: int(t.GetIntegerValue2()), Pair: int(t.GetPairMode()), Inv: t.GetInverted(),
		Value: int(t.GetIntegerValue()), Solid: t.GetSolidHeaderBar(),
		Pix: textColor(m, t.GetPixelColor()), Bg: textColor(m, t.GetBackgroundColor())}
	if sc := t.GetScale(); sc != nil && sc.ScaleType != 0 {
		v.ScaleT, v.RLow, v.RHigh, v.LLow, v.LHigh = int(sc.ScaleType), int(sc.RangeLow), int(sc.RangeHigh), int(sc.LimitLow), int(sc.LimitHigh)
	}
	ts := t.GetTextStyling()
	tf, tt := ts.GetTextFont(), ts.GetTitleFont()
	v.Face, v.TW, v.TH = int(tf.GetFontFace()), int(tf.GetTextWidth()), int(tf.GetTextHeight())
	v.TFace, v.TTW, v.TTH = int(tt.GetFontFace()), int(tt.GetTextWidth()), int(tt.GetTextHeight())
	v.Pad, v.Spacing, v.Fixed, v.Size = int(ts.GetTitleBarPadding()), int(ts.GetExtraCharacterSpacing()), ts.GetFixedWidth(), int(ts.GetUnformattedFontSize())
	if m == Lenient {
		switch {
		case f == 7:
			v.Value = 0
			v.Size = 0
		case f == 10 || f == 11:
			v.Value, v.Solid, v.Pair = 0, false, 0
		default:
			v.Size = 0
		}
		if v.Title == "" {
			v.Solid = false
		}
		if f != 10 && f != 11 && v.Pair == 0 && (v.L2 != "" || v.Value2 != 0) {
			v.Pair = 1 // the grammar has no "second line without pair"
		}
	}
	return v
}

func emptyText(t *rwp.HWCText) bool {
	v := textFromMsg(Strict, t)
	return v == TextVal{Pix: "none", Bg: "none"} && t.Scale == nil && t.TextStyling == nil && t.PixelColor == nil && t.BackgroundColor == nil
}

func gfxVal(typ string, w, h uint32, off bool, x, y uint32, data []byte) string {
	if !off {
		x, y = 0, 0
	}
	s := sha1.Sum(data)
	return fmt.Sprintf("%s %dx%d off=%v(%d,%d) len=%d sha=%s", typ, w, h, off, x, y, len(data), hex.EncodeToString(s[:6]))
}

// Command booleans, in the order of the protocol document.
var inFlags = []struct {
	Word string
	Get  func(*rwp.Command) bool
	Set  func(*rwp.Command)
}{
	{"ActivePanel=1", func(c *rwp.Command) bool { return c.ActivatePanel }, func(c *rwp.Command) { c.ActivatePanel = true }},
	{"list", func(c *rwp.Command) bool { return c.SendPanelInfo }, func(c *rwp.Command) { c.SendPanelInfo = true }},
	{"map", func(c *rwp.Command) bool { return c.ReportHWCavailability }, func(c *rwp.Command) { c.ReportHWCavailability = true }},
	{"PanelTopology?", func(c *rwp.Command) bool { return c.SendPanelTopology }, func(c *rwp.Command) { c.SendPanelTopology = true }},
	{"BurninProfile?", func(c *rwp.Command) bool { return c.SendBurninProfile }, func(c *rwp.Command) { c.SendBurninProfile = true }},
	{"CalibrationProfile?", func(c *rwp.Command) bool { return c.SendCalibrationProfile }, func(c *rwp.Command) { c.SendCalibrationProfile = true }},
	{"NetworkConfig?", func(c *rwp.Command) bool { return c.SendNetworkConfig }, func(c *rwp.Command) { c.SendNetworkConfig = true }},
	{"Registers?", func(c *rwp.Command) bool { return c.SendRegisters }, func(c *rwp.Command) { c.SendRegisters = true }},
	{"Connections?", func(c *rwp.Command) bool { return c.GetConnections }, func(c *rwp.Command) { c.GetConnections = true }},
	{"RunTimeStats?", func(c *rwp.Command) bool { return c.GetRunTimeStats }, func(c *rwp.Command) { c.GetRunTimeStats = true }},
	{"Clear", func(c *rwp.Command) bool { return c.ClearAll }, func(c *rwp.Command) { c.ClearAll = true }},
	{"ClearLEDs", func(c *rwp.Command) bool { return c.ClearLEDs }, func(c *rwp.Command) { c.ClearLEDs = true }},
	{"ClearDisplays", func(c *rwp.Command) bool { return c.ClearDisplays }, func(c *rwp.Command) { c.ClearDisplays = true }},
	{"SleepTimer?", func(c *rwp.Command) bool { return c.GetSleepTimeout }, func(c *rwp.Command) { c.GetSleepTimeout = true }},
	{"WakeUp!", func(c *rwp.Command) bool { return c.WakeUp }, func(c *rwp.Command) { c.WakeUp = true }},
	{"Reboot", func(c *rwp.Command) bool { return c.Reboot }, func(c *rwp.Command) { c.Reboot = true }},
}

// NumInFlags and SetInFlag expose the boolean commands to the enumerators.
func NumInFlags() int                 { return len(inFlags) }
func SetInFlag(c *rwp.Command, i int) { inFlags[i].Set(c) }
func InFlagWord(i int) string         { return inFlags[i].Word }

// Numeric commands.
var inNums = []struct {
	Key string
	Get func(*rwp.Command) (uint32, bool)
	Set func(*rwp.Command, uint32)
	Max uint32 // largest value of the domain (0: full 32 bits)
}{
	{"SleepTimer", func(c *rwp.Command) (uint32, bool) { return c.SetSleepTimeout.GetValue(), c.SetSleepTimeout != nil }, func(c *rwp.Command, v uint32) { c.SetSleepTimeout = &rwp.SleepTimeout{Value: v} }, 0},
	{"SleepMode", func(c *rwp.Command) (uint32, bool) { return uint32(c.SetSleepMode.GetMode()), c.SetSleepMode != nil }, func(c *rwp.Command, v uint32) { c.SetSleepMode = &rwp.SleepMode{Mode: rwp.SleepMode_SlpMode(v)} }, 1<<31 - 1},
	{"SleepScreenSaver", func(c *rwp.Command) (uint32, bool) {
		return uint32(c.SetSleepScreenSaver.GetType()), c.SetSleepScreenSaver != nil
	}, func(c *rwp.Command, v uint32) {
		c.SetSleepScreenSaver = &rwp.SleepScreenSaver{Type: rwp.SleepScreenSaver_SlpScrSaver(v)}
	}, 1<<31 - 1},
	{"DimmedGain", func(c *rwp.Command) (uint32, bool) { return c.SetDimmedGain.GetValue(), c.SetDimmedGain != nil }, func(c *rwp.Command, v uint32) { c.SetDimmedGain = &rwp.DimmedGain{Value: v} }, 0},
	{"HeartBeatTimer", func(c *rwp.Command) (uint32, bool) { return c.SetHeartBeatTimer.GetValue(), c.SetHeartBeatTimer != nil }, func(c *rwp.Command, v uint32) { c.SetHeartBeatTimer = &rwp.HeartBeatTimer{Value: v} }, 0},
	{"PublishSystemStat", func(c *rwp.Command) (uint32, bool) {
		return c.PublishSystemStat.GetPeriodSec(), c.PublishSystemStat != nil
	}, func(c *rwp.Command, v uint32) { c.PublishSystemStat = &rwp.PublishSystemStat{PeriodSec: v} }, 0},
	{"LoadCPU", func(c *rwp.Command) (uint32, bool) { return uint32(c.LoadCPU.GetLevel()), c.LoadCPU != nil }, func(c *rwp.Command, v uint32) { c.LoadCPU = &rwp.LoadCPU{Level: rwp.LoadCPU_LevelE(v)} }, 1<<31 - 1},
	{"Webserver", func(c *rwp.Command) (uint32, bool) {
		return b2u(c.SetWebserverEnabled.GetEnabled()), c.SetWebserverEnabled != nil
	}, func(c *rwp.Command, v uint32) { c.SetWebserverEnabled = &rwp.WebserverState{Enabled: v > 0} }, 1},
	{"JSONonOutbound", func(c *rwp.Command) (uint32, bool) { return b2u(c.JSONconfig.GetOutbound()), c.JSONconfig != nil }, func(c *rwp.Command, v uint32) { c.JSONconfig = &rwp.JSONconfig{Outbound: v > 0} }, 1},
}

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

// NumInNums etc. expose the numeric commands.
func NumInNums() int                           { return len(inNums) }
func InNumKey(i int) string                    { return inNums[i].Key }
func InNumMax(i int) uint32                    { return inNums[i].Max }
func SetInNum(c *rwp.Command, i int, v uint32) { inNums[i].Set(c, v) }

var runModes = map[string]rwp.Environment_RunModeE{"Normal": 0, "Safemode": 1, "Blocked": 2}

func netVal(n *rwp.NetworkConfig) string {
	return fmt.Sprintf("dhcp=%v addr=%q mask=%q gw=%q d1=%q d2=%q ndr=%v", n.GetDhcp(), n.GetAddress(), n.GetNetmask(), n.GetGateway(), n.GetFirstDns(), n.GetSecondDns(), n.GetNoDefaultRoute())
}

func netFromJSON(s string) (string, bool) {
	var n struct {
		Dhcp    bool   `json:"dhcp"`
		Address string `json:"address"`
		Netmask string `json:"netmask"`
		Gateway string `json:"gateway"`
		D1      string `json:"first_dns"`
		D2      string `json:"second_dns"`
		NDR     bool   `json:"no_default_route"`
	}
	if json.Unmarshal([]byte(s), &n) != nil {
		return "", false
	}
	return fmt.Sprintf("dhcp=%v addr=%q mask=%q gw=%q d1=%q d2=%q ndr=%v", n.Dhcp, n.Address, n.Netmask, n.Gateway, n.D1, n.D2, n.NDR), true
}

// JSONCanon flattens a JSON text to its content.
func JSONCanon(s string) string {
	var v any
	if json.Unmarshal([]byte(s), &v) != nil {
		return "notjson:" + s
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// InMsg lists the effects of one inbound message.
func InMsg(m Mode, msg *rwp.InboundMessage) []Eff {
	var out []Eff
	switch msg.FlowMessage {
	case 1:
		out = append(out, Eff{"flow", "ping"})
	case 2:
		out = append(out, Eff{"flow", "ack"})
	case 3:
		out = append(out, Eff{"flow", "nack"})
	}
	if c := msg.Command; c != nil {
		for _, f := range inFlags {
			if f.Get(c) {
				out = append(out, Eff{"cmd/" + f.Word, "do"})
			}
		}
		for _, n := range inNums {
			if v, ok := n.Get(c); ok {
				out = append(out, Eff{"set/" + n.Key, strconv.FormatUint(uint64(v), 10)})
			}
		}
		if b := c.PanelBrightness; b != nil {
			out = append(out, Eff{"set/PanelBrightness", fmt.Sprintf("leds=%d oleds=%d", b.LEDs, b.OLEDs)})
		}
		if p := c.SetCalibrationProfile; p != nil {
			out = append(out, Eff{"set/CalibrationProfile", JSONCanon(p.Json)})
		}
		if n := c.SetNetworkConfig; n != nil {
			out = append(out, Eff{"set/NetworkConfig", netVal(n)})
		}
		if e := c.SimulateEnvironmentalHealth; e != nil {
			for w, r := range runModes {
				if r == e.RunMode {
					out = append(out, Eff{"set/EnvHealth", w})
				}
			}
		}
	}
	for _, s := range msg.States {
		out = append(out, stateEff(m, s)...)
	}
	for _, r := range msg.Registers {
		names := map[rwp.Register_RegisterE]string{0: "Mem", 1: "Flag", 2: "Shift", 3: "State"}
		if n, ok := names[r.Reg]; ok {
			out = append(out, Eff{"reg/" + n + "/" + r.Id, strconv.FormatUint(uint64(r.Value), 10)})
		}
	}
	return out
}

func stateEff(m Mode, s *rwp.HWCState) []Eff {
	var out []Eff
	for _, h := range s.GetHWCIDs() {
		k := "/" + id(h)
		if x := s.HWCMode; x != nil {
			out = append(out, Eff{"mode" + k, fmt.Sprintf("state=%d out=%v blink=%d", x.State, x.Output, x.BlinkPattern)})
		}
		if x := s.HWCColor; x != nil {
			if x.ColorRGB != nil {
				out = append(out, Eff{"color" + k, colRGB(m, x.ColorRGB)})
			} else if x.ColorIndex != nil {
				out = append(out, Eff{"color" + k, fmt.Sprintf("idx(%d)", x.ColorIndex.Index)})
			}
		}
		if x := s.HWCExtended; x != nil {
			out = append(out, Eff{"ext" + k, fmt.Sprintf("int=%d val=%d", x.Interpretation, x.Value)})
		}
		if x := s.HWCText; x != nil && !emptyText(x) {
			out = append(out, Eff{"text" + k, textFromMsg(m, x).String()})
		}
		if x := s.HWCGfx; x != nil && len(x.ImageData) > 0 {
			typ := map[rwp.HWCGfx_ImageTypeE]string{0: "mono", 1: "rgb16", 2: "gray4"}[x.ImageType]
			out = append(out, Eff{"gfx" + k, gfxVal(typ, x.W, x.H, x.XYoffset, x.X, x.Y, x.ImageData)})
		}
		if x := s.PublishRawADCValues; x != nil {
			out = append(out, Eff{"rawadc" + k, fmt.Sprint(x.Enabled)})
		}
		if s.Processors != nil {
			b, _ := json.Marshal(s.Processors)
			out = append(out, Eff{"proc" + k, string(b)})
		}
	}
	return out
}

// InReader reads system-to-panel ASCII lines. It is a strict reader: a line it
// does not know yields no effect and is counted in Unknown.
type InReader struct {
	Unknown int
	gfx     struct {
		active     bool
		kind, list string
		next, max  int
		w, h, x, y uint32
		off        bool
		data       []byte
	}
}

func digits(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func idlist(s string) ([]uint32, bool) {
	var out []uint32
	for _, p := range strings.Split(s, ",") {
		if !digits(p) {
			return nil, false
		}
		n, err := strconv.ParseUint(p, 10, 32)
		if err != nil {
			return nil, false
		}
		out = append(out, uint32(n))
	}
	return out, true
}

func wireColor(v int) string {
	if v&64 != 0 {
		return fmt.Sprintf("rgb(%d,%d,%d)", (v>>4&3)*85, (v>>2&3)*85, (v&3)*85)
	}
	return fmt.Sprintf("idx(%d)", v&31)
}

// atoi is the grammar's decimal field: optional, signed, empty means 0.
func atoi(s string) int {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0
	}
	return int(n)
}

func textFromLine(s string) TextVal {
	f := strings.Split(s, "|")
	g := func(i int) string {
		if i < len(f) {
			return f[i]
		}
		return ""
	}
	n := func(i int) int { return atoi(g(i)) }
	v := TextVal{Pix: "none", Bg: "none"}
	v.Fmt = n(1)
	if g(0) == "" && v.Fmt == 0 {
		v.Fmt = 7
	}
	un := v.Fmt == 10 || v.Fmt == 11
	switch {
	case v.Fmt == 7:
	case un:
		v.Size = n(0)
	default:
		v.Value = n(0)
	}
	v.StateIcon, v.ModIcon = n(2)%4, n(2)/8%8
	v.Title = g(3)
	v.Solid = n(4) == 0 && v.Title != "" && !un
	v.L1, v.L2, v.Value2 = g(5), g(6), n(7)
	if !un {
		v.Pair = n(8)
		if v.Pair == 0 && (g(6) != "" || g(7) != "") {
			v.Pair = 1
		}
	}
	if n(9) != 0 {
		v.ScaleT, v.RLow, v.RHigh, v.LLow, v.LHigh = n(9), n(10), n(11), n(12), n(13)
	}
	v.Face, v.TFace, v.Fixed = n(15)%8, n(15)/8%8, n(15)/64%2 == 1
	v.TW, v.TH, v.TTW, v.TTH = n(16)%4, n(16)/4%4, n(16)/16%4, n(16)/64%4
	v.Pad, v.Spacing = n(17)%4, n(17)/4%8
	v.Inv = n(18) > 0
	col := func(i int) string {
		if n(i) <= 0 {
			return "none"
		}
		c := wireColor(n(i))
		if c == "idx(0)" {
			return "none"
		}
		return c
	}
	v.Pix, v.Bg = col(19), col(20)
	return v
}

// Line reads one line and returns its effects.
func (r *InReader) Line(l string) []Eff {
	one := func(k, v string) []Eff { return []Eff{{k, v}} }
	switch l {
	case "":
		return nil
	case "ping", "ack", "nack":
		return one("flow", l)
	}
	for _, f := range inFlags {
		if f.Word == l {
			return one("cmd/"+l, "do")
		}
	}
	eq := strings.IndexByte(l, '=')
	if eq < 0 {
		r.Unknown++
		return nil
	}
	key, val := l[:eq], l[eq+1:]
	if h := strings.IndexByte(key, '#'); h >= 0 && strings.HasPrefix(key, "HWC") {
		kind := key[:h+1]
		ids, ok := idlist(key[h+1:])
		if !ok {
			r.Unknown++
			return nil
		}
		each := func(k, v string) (out []Eff) {
			for _, i := range ids {
				out = append(out, Eff{k + "/" + id(i), v})
			}
			return
		}
		switch kind {
		case "HWC#":
			n := atoi(val)
			return each("mode", fmt.Sprintf("state=%d out=%v blink=%d", n%16, n/32%2 == 1, n/256%16))
		case "HWCx#":
			n := atoi(val)
			return each("ext", fmt.Sprintf("int=%d val=%d", n/4096%16, n%4096))
		case "HWCc#":
			return each("color", wireColor(atoi(val)))
		case "HWCt#":
			return each("text", textFromLine(val).String())
		case "HWCrawADCValues#":
			return each("rawadc", fmt.Sprint(atoi(val) == 1))
		case "HWCg#", "HWCgRGB#", "HWCgGray#":
			return r.gfxLine(kind, key[h+1:], ids, val)
		}
		r.Unknown++
		return nil
	}
	for _, n := range inNums {
		if n.Key == key && digits(val) {
			v, err := strconv.ParseUint(val, 10, 64)
			if err != nil {
				r.Unknown++
				return nil
			}
			if n.Max == 1 && v > 1 {
				v = 1
			}
			return one("set/"+key, strconv.FormatUint(v, 10))
		}
	}
	switch key {
	case "PanelBrightness":
		p := strings.Split(val, ",")
		if len(p) == 1 && digits(p[0]) {
			return one("set/PanelBrightness", fmt.Sprintf("leds=%d oleds=%d", atoi(p[0]), atoi(p[0])))
		}
		if len(p) == 2 && digits(p[0]) && digits(p[1]) {
			return one("set/PanelBrightness", fmt.Sprintf("leds=%d oleds=%d", atoi(p[0]), atoi(p[1])))
		}
	case "SetCalibrationProfile":
		return one("set/CalibrationProfile", JSONCanon(val))
	case "SetNetworkConfig":
		if s, ok := netFromJSON(val); ok {
			return one("set/NetworkConfig", s)
		}
	case "SimulateEnvironmentalHealth":
		if _, ok := runModes[val]; ok {
			return one("set/EnvHealth", val)
		}
	}
	for _, p := range []string{"Mem", "Flag#", "Shift", "State"} {
		if strings.HasPrefix(key, p) && digits(val) {
			rid := key[len(p):]
			if strings.Trim(rid, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != "" {
				break
			}
			n, _ := strconv.ParseUint(val, 10, 32)
			if p == "Flag#" {
				rid = strconv.Itoa(atoi(rid))
				if n > 0 {
					n = 1
				}
			}
			return one("reg/"+strings.TrimSuffix(p, "#")+"/"+rid, strconv.FormatUint(n, 10))
		}
	}
	r.Unknown++
	return nil
}

func (r *InReader) gfxLine(kind, list string, ids []uint32, val string) []Eff {
	c := strings.IndexByte(val, ':')
	if c < 0 {
		r.Unknown++
		return nil
	}
	head, b64 := val[:c], val[c+1:]
	data, err := base64.StdEncoding.DecodeString(b64)
	if err != nil {
		r.Unknown++
		return nil
	}
	g := &r.gfx
	idx := head
	adv := ""
	if s := strings.IndexByte(head, '/'); s >= 0 {
		idx, adv = head[:s], head[s+1:]
	}
	if !digits(idx) {
		r.Unknown++
		return nil
	}
	n := atoi(idx)
	if n == 0 {
		*g = struct {
			active     bool
			kind, list string
			next, max  int
			w, h, x, y uint32
			off        bool
			data       []byte
		}{active: true, kind: kind, list: list, max: 2, w: 64, h: 32}
		if adv != "" {
			// max,WxH[,X,Y]
			p := strings.Split(adv, ",")
			if len(p) != 2 && len(p) != 4 {
				r.Unknown++
				g.active = false
				return nil
			}
			g.max = atoi(p[0])
			wh := strings.Split(p[1], "x")
			if len(wh) != 2 {
				r.Unknown++
				g.active = false
				return nil
			}
			g.w, g.h = uint32(atoi(wh[0])), uint32(atoi(wh[1]))
			if len(p) == 4 {
				g.off, g.x, g.y = true, uint32(atoi(p[2])), uint32(atoi(p[3]))
			}
		}
	}
	if !g.active || g.kind != kind || g.list != list || n != g.next {
		g.active = false
		return nil
	}
	g.data = append(g.data, data...)
	g.next++
	if n != g.max {
		return nil
	}
	g.active = false
	typ := map[string]string{"HWCg#": "mono", "HWCgRGB#": "rgb16", "HWCgGray#": "gray4"}[kind]
	var out []Eff
	for _, i := range ids {
		out = append(out, Eff{"gfx/" + id(i), gfxVal(typ, g.w, g.h, g.off, g.x, g.y, g.data)})
	}
	return out
}

// Panel is the state of a panel as the reference sees it.
type Panel map[string]string

// Apply applies effects in order.
func (p Panel) Apply(effs []Eff) {
	for _, e := range effs {
		if strings.HasPrefix(e.Key, "cmd/") || e.Key == "flow" {
			p["last "+e.Key] = e.Val
			continue
		}
		p[e.Key] = e.Val
	}
}

// Canon is the canonical text of the state.
func (p Panel) Canon() string {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(p[k])
		b.WriteByte('\n')
	}
	return b.String()
}

// Compare checks that got is the concatenation, message by message, of the
// expected effects; inside one message only the order per slot counts.
func Compare(want [][]Eff, got []Eff) string {
	pos := 0
	for i, w := range want {
		if pos+len(w) > len(got) {
			return fmt.Sprintf("effects: message %d should have %d effects %v, only %d left: %v", i, len(w), w, len(got)-pos, got[pos:])
		}
		g := append([]Eff{}, got[pos:pos+len(w)]...)
		e := append([]Eff{}, w...)
		pos += len(w)
		sort.SliceStable(g, func(a, b int) bool { return g[a].Key < g[b].Key })
		sort.SliceStable(e, func(a, b int) bool { return e[a].Key < e[b].Key })
		for k := range e {
			if e[k] != g[k] {
				return fmt.Sprintf("effect %s: message %d: expected {%s}, the other side says {%s}", kindOf(e[k].Key), i, e[k], g[k])
			}
		}
	}
	if pos != len(got) {
		return fmt.Sprintf("extra effects: %v", got[pos:])
	}
	return ""
}

func kindOf(k string) string {
	if i := strings.IndexByte(k, '/'); i > 0 {
		return k[:i]
	}
	return k
}
