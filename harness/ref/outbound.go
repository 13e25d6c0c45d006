package ref

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// OutFlow are the outbound flow words.
var OutFlow = map[rwp.OutboundMessage_FlowMsg]string{1: "ping", 2: "ack", 3: "nack", 4: "BSY", 5: "RDY", 100: "list"}

var panelTypes = map[rwp.PanelInfo_PanelTypeE]string{1: "BPI", 2: "Physical", 3: "Emulation", 4: "Touch", 5: "Composite"}

// Caps are the capability keywords with their flags.
var Caps = []struct {
	Word string
	P    func(*rwp.RawPanelSupport) *bool
}{
	{"ASCII", func(s *rwp.RawPanelSupport) *bool { return &s.ASCII }},
	{"Binary", func(s *rwp.RawPanelSupport) *bool { return &s.Binary }},
	{"JSONFeedback", func(s *rwp.RawPanelSupport) *bool { return &s.ASCII_JSONfeedback }},
	{"JSONonInbound", func(s *rwp.RawPanelSupport) *bool { return &s.ASCII_Inbound }},
	{"JSONonOutbound", func(s *rwp.RawPanelSupport) *bool { return &s.ASCII_Outbound }},
	{"System", func(s *rwp.RawPanelSupport) *bool { return &s.System }},
	{"RawADCValues", func(s *rwp.RawPanelSupport) *bool { return &s.RawADCValues }},
	{"BurninProfile", func(s *rwp.RawPanelSupport) *bool { return &s.BurninProfile }},
	{"EnvHealth", func(s *rwp.RawPanelSupport) *bool { return &s.EnvHealth }},
	{"Registers", func(s *rwp.RawPanelSupport) *bool { return &s.Registers }},
	{"Calibration", func(s *rwp.RawPanelSupport) *bool { return &s.Calibration }},
	{"Processors", func(s *rwp.RawPanelSupport) *bool { return &s.Processors }},
	{"NetworkSettings", func(s *rwp.RawPanelSupport) *bool { return &s.NetworkSettings }},
}

func capsVal(s *rwp.RawPanelSupport) string {
	var w []string
	for _, c := range Caps {
		if *c.P(s) {
			w = append(w, c.Word)
		}
	}
	sort.Strings(w)
	return strings.Join(w, ",")
}

// The system statistics fields: name, kind and accessors.
type statField struct {
	Name string
	Kind byte // u uint32, i int32, 1 float with 1 decimal, 2 float with 2, b bool
	U    func(*rwp.SystemStat) *uint32
	I    func(*rwp.SystemStat) *int32
	F    func(*rwp.SystemStat) *float32
	B    func(*rwp.SystemStat) *bool
}

// Stats lists the 20 fields in wire order.
var Stats = []statField{
	{Name: "CPUUsage", Kind: 'u', U: func(s *rwp.SystemStat) *uint32 { return &s.CPUUsage }},
	{Name: "CPUTemp", Kind: '1', F: func(s *rwp.SystemStat) *float32 { return &s.CPUTemp }},
	{Name: "ExtTemp", Kind: '1', F: func(s *rwp.SystemStat) *float32 { return &s.ExtTemp }},
	{Name: "CPUVoltage", Kind: '2', F: func(s *rwp.SystemStat) *float32 { return &s.CPUVoltage }},
	{Name: "CPUFreqCurrent", Kind: 'i', I: func(s *rwp.SystemStat) *int32 { return &s.CPUFreqCurrent }},
	{Name: "CPUFreqMin", Kind: 'i', I: func(s *rwp.SystemStat) *int32 { return &s.CPUFreqMin }},
	{Name: "CPUFreqMax", Kind: 'i', I: func(s *rwp.SystemStat) *int32 { return &s.CPUFreqMax }},
	{Name: "MemTotal", Kind: 'i', I: func(s *rwp.SystemStat) *int32 { return &s.MemTotal }},
	{Name: "MemFree", Kind: 'i', I: func(s *rwp.SystemStat) *int32 { return &s.MemFree }},
	{Name: "MemAvailable", Kind: 'i', I: func(s *rwp.SystemStat) *int32 { return &s.MemAvailable }},
	{Name: "MemBuffers", Kind: 'i', I: func(s *rwp.SystemStat) *int32 { return &s.MemBuffers }},
	{Name: "MemCached", Kind: 'i', I: func(s *rwp.SystemStat) *int32 { return &s.MemCached }},
	{Name: "UnderVoltageNow", Kind: 'b', B: func(s *rwp.SystemStat) *bool { return &s.UnderVoltageNow }},
	{Name: "UnderVoltage", Kind: 'b', B: func(s *rwp.SystemStat) *bool { return &s.UnderVoltage }},
	{Name: "FreqCapNow", Kind: 'b', B: func(s *rwp.SystemStat) *bool { return &s.FreqCapNow }},
	{Name: "FreqCap", Kind: 'b', B: func(s *rwp.SystemStat) *bool { return &s.FreqCap }},
	{Name: "ThrottledNow", Kind: 'b', B: func(s *rwp.SystemStat) *bool { return &s.ThrottledNow }},
	{Name: "Throttled", Kind: 'b', B: func(s *rwp.SystemStat) *bool { return &s.Throttled }},
	{Name: "SoftTempLimitNow", Kind: 'b', B: func(s *rwp.SystemStat) *bool { return &s.SoftTempLimitNow }},
	{Name: "SoftTempLimit", Kind: 'b', B: func(s *rwp.SystemStat) *bool { return &s.SoftTempLimit }},
}

func statVal(s *rwp.SystemStat) string {
	var p []string
	for _, f := range Stats {
		v := ""
		switch f.Kind {
		case 'u':
			v = strconv.FormatUint(uint64(*f.U(s)), 10)
		case 'i':
			v = strconv.FormatInt(int64(*f.I(s)), 10)
		case '1':
			v = fixed(float64(*f.F(s)), 1)
		case '2':
			v = fixed(float64(*f.F(s)), 2)
		case 'b':
			v = "0"
			if *f.B(s) {
				v = "1"
			}
		}
		p = append(p, f.Name+":"+v)
	}
	return strings.Join(p, ":")
}

// fixed is the wire's fixed-point form (negative zero is zero).
func fixed(f float64, d int) string {
	s := strconv.FormatFloat(f, 'f', d, 64)
	if strings.Trim(s, "-0.") == "" {
		return strings.TrimPrefix(s, "-")
	}
	return s
}

// Squash removes all white space: what may be lost when text is flattened.
func Squash(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

// textVal reads a payload text; with squash white space is not content.
func textVal(s string, squash bool) string {
	if squash {
		return Squash(s)
	}
	return s
}

// OutMsg lists what an outbound message reports. squash compares payload texts
// up to white space (used when the source has line breaks).
func OutMsg(msg *rwp.OutboundMessage, squash bool) []Eff {
	var out []Eff
	add := func(k, v string) { out = append(out, Eff{k, v}) }
	txt := func(k, v string) {
		if v = textVal(v, squash); v != "" {
			add(k, v)
		}
	}
	u := func(k string, v uint32) { add(k, strconv.FormatUint(uint64(v), 10)) }
	if w, ok := OutFlow[msg.FlowMessage]; ok {
		add("flow", w)
	}
	if p := msg.PanelInfo; p != nil {
		str := func(k, v string) {
			if v != "" {
				add(k, v)
			}
		}
		str("info/model", p.Model)
		str("info/serial", p.Serial)
		str("info/version", p.SoftwareVersion)
		str("info/name", p.Name)
		str("info/platform", p.Platform)
		if p.BluePillReady {
			add("info/bluepill", "true")
		}
		if p.MaxClients > 0 {
			u("info/maxclients", p.MaxClients)
		}
		if len(p.LockedToIPs) > 0 {
			add("info/locked", strings.Join(p.LockedToIPs, "\x00"))
		}
		if w, ok := panelTypes[p.PanelType]; ok {
			add("info/type", w)
		}
		if p.RawPanelSupport != nil {
			add("info/support", capsVal(p.RawPanelSupport))
		}
	}
	if t := msg.PanelTopology; t != nil {
		txt("topo/svg", t.Svgbase)
		txt("topo/json", t.Json)
	}
	if p := msg.BurninProfile; p != nil {
		txt("burnin", p.Json)
	}
	if p := msg.CalibrationProfile; p != nil {
		txt("calib", p.Json)
	}
	if p := msg.DefaultCalibrationProfile; p != nil {
		txt("defcalib", p.Json)
	}
	if n := msg.NetworkConfig; n != nil {
		add("net", netVal(n))
	}
	if s := msg.SleepTimeout; s != nil {
		u("sleeptimer", s.Value)
	}
	if s := msg.SleepState; s != nil {
		add("sleeping", fmt.Sprint(s.IsSleeping))
	}
	if s := msg.HeartBeatTimer; s != nil {
		u("heartbeat", s.Value)
	}
	if s := msg.DimmedGain; s != nil {
		u("dimmed", s.Value)
	}
	if s := msg.Connections; s != nil && len(s.Connection) > 0 {
		add("connections", strings.Join(s.Connection, "\x00"))
	}
	if s := msg.RunTimeStats; s != nil {
		nz := func(k string, v uint32) {
			if v != 0 {
				u("run/"+k, v)
			}
		}
		nz("boots", s.BootsCount)
		nz("total", s.TotalUptime)
		nz("session", s.SessionUptime)
		nz("saver", s.ScreenSaveOnTime)
	}
	if s := msg.ErrorMessage; s != nil {
		txt("errmsg", s.Message)
	}
	if s := msg.Message; s != nil {
		txt("msg", s.Message)
	}
	for k, v := range msg.HWCavailability {
		u("map/"+id(k), v)
	}
	if e := msg.EnvironmentalHealth; e != nil {
		for w, r := range runModes {
			if r == e.RunMode {
				add("env", w)
			}
		}
	}
	if s := msg.SysStat; s != nil {
		add("sysstat", statVal(s))
	}
	for _, e := range msg.Events {
		h := "event/" + id(e.GetHWCID())
		if b := e.GetBinary(); b != nil {
			add(h, fmt.Sprintf("binary pressed=%v edge=%d", b.Pressed, b.Edge))
		}
		if b := e.GetPulsed(); b != nil {
			add(h, fmt.Sprintf("pulsed %d", b.Value))
		}
		if b := e.GetAbsolute(); b != nil {
			add(h, fmt.Sprintf("absolute %d", b.Value))
		}
		if b := e.GetSpeed(); b != nil {
			add(h, fmt.Sprintf("speed %d", b.Value))
		}
		if b := e.GetRawAnalog(); b != nil {
			add(h, fmt.Sprintf("raw %d", b.Value))
		}
	}
	for _, r := range msg.Registers {
		names := map[rwp.Register_RegisterE]string{0: "Mem", 1: "Flag", 2: "Shift", 3: "State"}
		if n, ok := names[r.Reg]; ok {
			u("reg/"+n+"/"+r.Id, r.Value)
		}
	}
	return out
}

// OutReader reads panel-to-system lines.
type OutReader struct {
	Unknown int
	Squash  bool
}

func sint(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil && s != "" && s[0] != '+'
}

// Line returns the reports of one line.
func (r *OutReader) Line(l string) []Eff {
	one := func(k, v string) []Eff { return []Eff{{k, v}} }
	unk := func() []Eff { r.Unknown++; return nil }
	if l == "" {
		return nil
	}
	for _, w := range OutFlow {
		if w == l {
			return one("flow", w)
		}
	}
	eq := strings.IndexByte(l, '=')
	if eq < 0 {
		return unk()
	}
	key, val := l[:eq], l[eq+1:]
	num := func(k string) []Eff {
		if !digits(val) {
			return unk()
		}
		n, err := strconv.ParseUint(val, 10, 64)
		if err != nil {
			return unk()
		}
		return one(k, strconv.FormatUint(n, 10))
	}
	nz := func(k string) []Eff {
		e := num(k)
		if len(e) == 1 && e[0].Val == "0" {
			return nil
		}
		return e
	}
	str := func(k string) []Eff {
		if val == "" {
			return nil
		}
		return one(k, val)
	}
	txt := func(k string) []Eff {
		if textVal(val, r.Squash) == "" {
			return nil
		}
		return one(k, textVal(val, r.Squash))
	}
	list := func(k string) []Eff {
		var p []string
		for _, s := range strings.Split(val, ";") {
			if s = strings.TrimSpace(s); s != "" {
				p = append(p, s)
			}
		}
		if len(p) == 0 {
			return nil
		}
		return one(k, strings.Join(p, "\x00"))
	}
	switch key {
	case "_model":
		return str("info/model")
	case "_serial":
		return str("info/serial")
	case "_version":
		return str("info/version")
	case "_name":
		return str("info/name")
	case "_platform":
		return str("info/platform")
	case "_bluePillReady":
		n, ok := sint(val)
		if !ok {
			return unk()
		}
		if n != 0 {
			return one("info/bluepill", "true")
		}
		return nil
	case "_serverModeMaxClients":
		return nz("info/maxclients")
	case "_serverModeLockToIP":
		return list("info/locked")
	case "_panelType":
		for _, w := range panelTypes {
			if w == val {
				return one("info/type", w)
			}
		}
		return unk()
	case "_support":
		s := &rwp.RawPanelSupport{}
		for _, p := range strings.Split(val, ",") {
			for _, c := range Caps {
				if c.Word == p {
					*c.P(s) = true
				}
			}
		}
		return one("info/support", capsVal(s))
	case "_panelTopology_svgbase":
		return txt("topo/svg")
	case "_panelTopology_HWC":
		return txt("topo/json")
	case "_burninProfile":
		return txt("burnin")
	case "_calibrationProfile":
		return txt("calib")
	case "_defaultCalibrationProfile":
		return txt("defcalib")
	case "_networkConfig":
		if s, ok := netFromJSON(val); ok {
			return one("net", s)
		}
		return unk()
	case "_sleepTimer":
		return num("sleeptimer")
	case "_isSleeping":
		n, ok := sint(val)
		if !ok {
			return unk()
		}
		return one("sleeping", fmt.Sprint(n != 0))
	case "_heartBeatTimer":
		return num("heartbeat")
	case "DimmedGain":
		return num("dimmed")
	case "_connections":
		return list("connections")
	case "_bootsCount":
		return nz("run/boots")
	case "_totalUptimeMin":
		return nz("run/total")
	case "_sessionUptimeMin":
		return nz("run/session")
	case "_screenSaverOnMin":
		return nz("run/saver")
	case "ErrorMsg":
		return txt("errmsg")
	case "Msg":
		return txt("msg")
	case "EnvironmentalHealth":
		if _, ok := runModes[val]; ok {
			return one("env", val)
		}
		return unk()
	case "SysStat":
		s := &rwp.SystemStat{}
		p := strings.Split(val, ":")
		for i := 0; i+1 < len(p); i += 2 {
			for _, f := range Stats {
				if f.Name != p[i] {
					continue
				}
				n, _ := sint(p[i+1])
				switch f.Kind {
				case 'u':
					*f.U(s) = uint32(n)
				case 'i':
					*f.I(s) = int32(n)
				case '1', '2':
					v, _ := strconv.ParseFloat(p[i+1], 32)
					*f.F(s) = float32(v)
				case 'b':
					*f.B(s) = n == 1
				}
			}
		}
		return one("sysstat", statVal(s))
	case "map":
		p := strings.Split(val, ":")
		if len(p) == 2 && digits(p[0]) && digits(p[1]) {
			a, e1 := strconv.ParseUint(p[0], 10, 32)
			b, e2 := strconv.ParseUint(p[1], 10, 32)
			if e1 == nil && e2 == nil {
				return one("map/"+id(uint32(a)), id(uint32(b)))
			}
		}
		return unk()
	}
	if strings.HasPrefix(key, "HWC#") {
		hwc, edge := key[4:], ""
		hasEdge := false
		if d := strings.IndexByte(hwc, '.'); d >= 0 {
			hwc, edge, hasEdge = hwc[:d], hwc[d+1:], true
		}
		if !digits(hwc) || hasEdge && !digits(edge) {
			return unk()
		}
		h, err := strconv.ParseUint(hwc, 10, 32)
		if err != nil {
			return unk()
		}
		k := "event/" + id(uint32(h))
		kind, arg, hasArg := val, "", false
		if d := strings.IndexByte(val, ':'); d >= 0 {
			kind, arg, hasArg = val[:d], val[d+1:], true
		}
		en := atoi(edge)
		switch {
		case kind == "Down" && !hasArg:
			return one(k, fmt.Sprintf("binary pressed=true edge=%d", en))
		case kind == "Up" && !hasArg:
			return one(k, fmt.Sprintf("binary pressed=false edge=%d", en))
		case kind == "Press" && !hasArg:
			return []Eff{{k, fmt.Sprintf("binary pressed=true edge=%d", en)}, {k, fmt.Sprintf("binary pressed=false edge=%d", en)}}
		}
		n, ok := sint(arg)
		if !hasArg || !ok {
			return unk()
		}
		switch kind {
		case "Enc":
			return one(k, fmt.Sprintf("pulsed %d", int32(n)))
		case "Speed":
			return one(k, fmt.Sprintf("speed %d", int32(n)))
		case "Abs":
			return one(k, fmt.Sprintf("absolute %d", uint32(n)))
		case "Raw":
			return one(k, fmt.Sprintf("raw %d", uint32(n)))
		}
		return unk()
	}
	for _, p := range []string{"Mem", "Flag#", "Shift", "State"} {
		if strings.HasPrefix(key, p) && digits(val) {
			rid := key[len(p):]
			if strings.Trim(rid, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != "" {
				break
			}
			n, _ := strconv.ParseUint(val, 10, 32)
			if p == "Flag#" {
				rid = strconv.Itoa(atoi(rid))
				if n > 0 {
					n = 1
				}
			}
			return one("reg/"+strings.TrimSuffix(p, "#")+"/"+rid, strconv.FormatUint(n, 10))
		}
	}
	return unk()
}

// CompareOut is Compare plus the order of events and of register reports,
// across components, inside each message.
func CompareOut(want [][]Eff, got []Eff) string {
	if d := Compare(want, got); d != "" {
		return d
	}
	for _, class := range []string{"event/", "reg/"} {
		var a, b []Eff
		for _, w := range want {
			a = append(a, only(w, class)...)
		}
		b = only(got, class)
		for i := range a {
			if a[i] != b[i] {
				return fmt.Sprintf("order %s: position %d is {%s}, should be {%s}", strings.TrimSuffix(class, "/"), i, b[i], a[i])
			}
		}
	}
	return ""
}

func only(e []Eff, class string) (out []Eff) {
	for _, x := range e {
		if strings.HasPrefix(x.Key, class) {
			out = append(out, x)
		}
	}
	return
}
