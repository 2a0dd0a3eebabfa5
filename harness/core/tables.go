package core

import (
	"encoding/hex"
	"fmt"
	"slices"
	"strconv"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("TableCommand", TableCommand)
	reg("TableDescriptor", TableDescriptor)
	reg("TableUPID", TableUPID)
	reg("TableHeader", TableHeader)
	reg("TableNesting", TableNesting)
	reg("TableMany", TableMany)
}

// rows are the fields a table is to show, in order.
type rows struct {
	want []string
	more bool // further rows may follow
}

func (r *rows) text(key, v string)       { r.want = append(r.want, key+": "+v) }
func (r *rows) num(key string, v uint64) { r.text(key, dec(v)) }
func (r *rows) n32(key string, v uint32) { r.text(key, dec(uint64(v))) }
func (r *rows) flag(key string, v bool)  { r.text(key, fmt.Sprint(v)) }
func (r *rows) hex(key string, v uint64) { r.text(key, fmt.Sprintf("%#02x", v)) }

// id is a number and the four characters it stands for.
func (r *rows) id(key, sep string, v uint32) {
	r.text(key, fmt.Sprintf("%#08x", v)+sep+"("+string([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})+")")
}

// printID is an identifier of printable characters.
func printID(label string) uint32 {
	b := nd.Text(label, 4, "print")
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

var someTimes = []uint32{0, 1, 1388188818, 0xffffffff}
var timeTexts = []string{"1980-01-06 00:00:00 +0000 UTC", "1980-01-06 00:00:01 +0000 UTC", "2024-01-02 00:00:18 +0000 UTC", "2116-02-12 06:28:15 +0000 UTC"}

func (r *rows) brk(b *scte35.BreakDuration) {
	if b != nil {
		r.flag("auto_return", b.AutoReturn)
		r.num("duration", b.Duration)
	}
}

func (r *rows) pts(p *uint64) {
	r.flag("time_specified_flag", p != nil)
	if p != nil {
		r.num("pts_time", *p)
	}
}

func (r *rows) insert(x *scte35.SpliceInsert) {
	r.n32("splice_event_id", x.SpliceEventID)
	r.flag("splice_event_cancel_indicator", x.SpliceEventCancelIndicator)
	if x.SpliceEventCancelIndicator {
		return
	}
	r.flag("out_of_network_indicator", x.OutOfNetworkIndicator)
	r.flag("program_splice_flag", x.Program != nil)
	r.flag("duration_flag", x.BreakDuration != nil)
	r.flag("splice_immediate_flag", x.SpliceImmediateFlag)
	if x.Program != nil {
		if !x.SpliceImmediateFlag {
			r.pts(x.Program.SpliceTime.PTSTime)
		}
	} else {
		r.num("component_count", uint64(len(x.Components)))
		for _, c := range x.Components {
			r.n32("component_tag", c.Tag)
			if !x.SpliceImmediateFlag {
				if c.SpliceTime != nil {
					r.pts(c.SpliceTime.PTSTime)
				} else {
					r.pts(nil)
				}
			}
		}
	}
	r.brk(x.BreakDuration)
	r.n32("unique_program_id", x.UniqueProgramID)
	r.n32("avail_num", x.AvailNum)
	r.n32("avails_expected", x.AvailsExpected)
}

// schedule adds a splice_schedule; times holds the indices of its times.
func (r *rows) schedule(x *scte35.SpliceSchedule, times []int) {
	r.num("splice_count", uint64(len(x.Events)))
	utc := func() {
		r.text("utc_splice_time", timeTexts[times[0]])
		times = times[1:]
	}
	for _, e := range x.Events {
		r.n32("splice_event_id", e.SpliceEventID)
		r.flag("splice_event_cancel_indicator", e.SpliceEventCancelIndicator)
		r.flag("event_id_compliance_flag", e.EventIDComplianceFlag)
		if e.SpliceEventCancelIndicator {
			continue
		}
		r.flag("out_of_network_indicator", e.OutOfNetworkIndicator)
		r.flag("program_splice_flag", e.Program != nil)
		r.flag("duration_flag", e.BreakDuration != nil)
		if e.Program != nil {
			utc()
		} else {
			r.num("component_count", uint64(len(e.Components)))
			for _, c := range e.Components {
				r.n32("component_tag", c.Tag)
				utc()
			}
		}
		r.brk(e.BreakDuration)
		r.n32("unique_program_id", e.UniqueProgramID)
		r.n32("avail_num", e.AvailNum)
		r.n32("avails_expected", e.AvailsExpected)
	}
}

func (r *rows) head(s *scte35.SpliceInfoSection, alg string) {
	l := refLayout(s, nil)
	r.text("table_id", "0xfc")
	r.flag("section_syntax_indicator", false)
	r.flag("private_indicator", false)
	r.text("sap_type", dec(uint64(s.SAPType))+" ("+[]string{"Type 1", "Type 2", "Type 3", "Not Specified"}[s.SAPType]+")")
	n := 17 + len(l.cmd) + len(l.descs)
	if s.EncryptedPacket.EncryptionAlgorithm != 0 {
		n += 4
	}
	r.num("section_length", uint64(n))
	r.n32("protocol_version", s.ProtocolVersion)
	r.text("encryption_algorithm", dec(uint64(s.EncryptedPacket.EncryptionAlgorithm))+" ("+alg+")")
	r.num("pts_adjustment", s.PTSAdjustment)
	r.n32("cw_index", s.EncryptedPacket.CWIndex)
	r.n32("tier", s.Tier)
	r.num("splice_command_length", uint64(len(l.cmd)))
	r.hex("splice_command_type", l.cmdType)
}

func (r *rows) check(s *scte35.SpliceInfoSection) {
	t := s.Table("", "\t")
	nd.ObserveS("table", t)
	got := nd.Rows(t)
	nd.Assert(len(got) == len(r.want) || r.more && len(got) > len(r.want), "the table has a row for each field")
	for i := range r.want {
		nd.Assert(got[i] == r.want[i], "a row of the table shows the name and value of its field")
	}
	nd.Reach("end")
}

// TableHeader: the header fields in a table.
func TableHeader() {
	s := genHeader()
	s.SAPType = uint32(nd.Choice("sap", 4))
	alg := nd.Choice("alg", 5)
	s.EncryptedPacket.EncryptionAlgorithm = uint32(alg)
	if alg == 4 {
		s.EncryptedPacket.EncryptionAlgorithm = uint32(nd.Bits("h.alg", 6))
		nd.Assume(s.EncryptedPacket.EncryptionAlgorithm > 3)
	}
	r := &rows{}
	k := nd.Choice("cmd", nCmd)
	nd.Assume(k != kSchedule && k != kPrivate)
	s.SpliceCommand = oneCmd(k)
	r.head(s, []string{"No encryption", "DES – ECB mode", "DES – CBC mode", "Triple DES EDE3 – ECB mode", "User private"}[alg])
	r.cmd(s.SpliceCommand, nil)
	r.num("descriptor_loop_length", 0)
	r.check(s)
}

func (r *rows) cmd(c scte35.SpliceCommand, times []int) {
	switch x := c.(type) {
	case *scte35.TimeSignal:
		r.pts(x.SpliceTime.PTSTime)
	case *scte35.SpliceInsert:
		r.insert(x)
	case *scte35.PrivateCommand:
		r.id("identifier", ", ", x.Identifier)
		r.bytes("private_byte", x.PrivateBytes)
	case *scte35.SpliceSchedule:
		r.schedule(x, times)
	}
}

func (r *rows) bytes(key string, b []byte) {
	v := hex.EncodeToString(b)
	if len(b) > 0 {
		v = "0x" + v
	}
	r.text(key, v)
}

// TableCommand: the fields of a command in a table.
func TableCommand() {
	k := nd.Choice("cmd", nCmd)
	var c scte35.SpliceCommand
	var times []int
	at := func() scte35.UTCSpliceTime {
		i := nd.Choice("time", len(someTimes))
		times = append(times, i)
		return scte35.NewUTCSpliceTime(someTimes[i])
	}
	switch k {
	case kPrivate:
		c = &scte35.PrivateCommand{Identifier: printID("pc.id"), PrivateBytes: nd.Bytes("pc.b", nd.Choice("pc.n", 4))}
	case kSchedule:
		x := &scte35.SpliceSchedule{}
		for i := nd.Choice("ss.n", 3); i > 0; i-- {
			e := scte35.Event{SpliceEventID: nd.U32("ev.id"), EventIDComplianceFlag: bit("ev.cf"), SpliceEventCancelIndicator: maybe("ev.cancel")}
			if !e.SpliceEventCancelIndicator {
				e.OutOfNetworkIndicator = bit("ev.out")
				if maybe("ev.prog") {
					e.Program = &scte35.EventProgram{UTCSpliceTime: at()}
				} else {
					for i := nd.Choice("ev.n", 2); i > 0; i-- {
						e.Components = append(e.Components, scte35.EventComponent{Tag: uint32(nd.U8("ev.tag")), UTCSpliceTime: at()})
					}
				}
				e.BreakDuration = optBreak("ev.brk")
				e.UniqueProgramID, e.AvailNum, e.AvailsExpected = uint32(nd.U16("ev.upid")), uint32(nd.U8("ev.an")), uint32(nd.U8("ev.ae"))
			}
			x.Events = append(x.Events, e)
		}
		c = x
	default:
		c = genCmd(k, size(2, 3))
	}
	s := plain(c)
	r := &rows{}
	r.head(s, "No encryption")
	r.cmd(c, times)
	r.num("descriptor_loop_length", 0)
	r.check(s)
}

func (r *rows) desc(d scte35.SpliceDescriptor, segType string, preroll string) {
	tag, body := refDescBody(d, nil)
	if _, ok := d.(*scte35.PrivateDescriptor); !ok {
		r.hex("splice_descriptor_tag", tag)
	}
	if x, ok := d.(*scte35.PrivateDescriptor); ok {
		r.text("splice_descriptor_tag", fmt.Sprintf("%#02x", x.PrivateTag))
	}
	r.num("descriptor_length", uint64(len(body)))
	switch x := d.(type) {
	case *scte35.PrivateDescriptor:
		r.id("identifier", ", ", x.Identifier)
		r.bytes("private_bytes", x.PrivateBytes)
	case *scte35.AvailDescriptor:
		r.id("identifier", ", ", scte35.CUEIdentifier)
		r.n32("provider_avail_id", x.ProviderAvailID)
	case *scte35.TimeDescriptor:
		r.id("identifier", ", ", scte35.CUEIdentifier)
		r.num("tai_seconds", x.TAISeconds)
		r.n32("tai_ns", x.TAINS)
		r.n32("utc_offset", x.UTCOffset)
	case *scte35.DTMFDescriptor:
		r.id("identifier", " ", scte35.CUEIdentifier)
		r.text("preroll", preroll)
		r.num("dtmf_count", uint64(len(x.DTMFChars)))
		r.text("dtmf_chars", x.DTMFChars)
	case *scte35.AudioDescriptor:
		r.id("identifier", ", ", scte35.CUEIdentifier)
		r.num("audio_count", uint64(len(x.AudioChannels)))
		for _, c := range x.AudioChannels {
			r.n32("component_tag", c.ComponentTag)
			r.text("iso_code", c.ISOCode)
			r.n32("bit_stream_mode", c.BitStreamMode)
			r.n32("num_channels", c.NumChannels)
			r.flag("full_srvc_audio", c.FullSrvcAudio)
		}
	case *scte35.SegmentationDescriptor:
		r.seg(x, segType)
	}
}

func (r *rows) seg(x *scte35.SegmentationDescriptor, name string) {
	r.id("identifier", " ", scte35.CUEIdentifier)
	r.n32("segmentation_event_id", x.SegmentationEventID)
	r.flag("segmentation_event_cancel_indicator", x.SegmentationEventCancelIndicator)
	r.flag("segmentation_event_id_compliance_indicator", x.SegmentationEventIDComplianceIndicator)
	if x.SegmentationEventCancelIndicator {
		r.more = true // whether the absent fields are shown is left open
		return
	}
	r.flag("program_segmentation_flag", len(x.Components) == 0)
	r.flag("segmentation_duration_flag", x.SegmentationDuration != nil)
	r.flag("delivery_not_restricted_flag", x.DeliveryRestrictions == nil)
	if d := x.DeliveryRestrictions; d != nil {
		r.flag("web_delivery_allowed_flag", d.WebDeliveryAllowedFlag)
		r.flag("no_regional_blackout_flag", d.NoRegionalBlackoutFlag)
		r.flag("archive_allowed_flag", d.ArchiveAllowedFlag)
		r.text("device_restrictions", dec(uint64(d.DeviceRestrictions))+" ("+[]string{"Restrict Group 0", "Restrict Group 1", "Restrict Group 2", "None"}[d.DeviceRestrictions]+")")
	}
	if len(x.Components) > 0 {
		r.num("component_count", uint64(len(x.Components)))
		for _, c := range x.Components {
			r.n32("component_tag", c.Tag)
			r.num("pts_offset", c.PTSOffset)
		}
	}
	if x.SegmentationDuration != nil {
		r.num("segmentation_duration", *x.SegmentationDuration)
	}
	n := 0
	for i := range x.SegmentationUPIDs {
		n += len(refUPID(&x.SegmentationUPIDs[i]))
		if len(x.SegmentationUPIDs) > 1 {
			n += 2
		}
	}
	r.num("segmentation_upid_length", uint64(n))
	for _, u := range x.SegmentationUPIDs {
		t := upidName(u.Type)
		if u.Type == 0xa {
			t += map[uint64]string{5237: "Party ID", 5238: "User ID", 5239: "Service ID", 5240: "Content ID"}[uint64(lastEIDR[0])<<8|uint64(lastEIDR[1])]
		}
		r.text("segmentation_upid_type", fmt.Sprintf("%#02x (%s)", u.Type, t))
		if u.FormatIdentifier != nil {
			v := *u.FormatIdentifier
			r.text("format_identifier", string([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}))
		}
		r.text("segmentation_upid", u.Value)
	}
	r.text("segmentation_type_id", fmt.Sprintf("%#02x (%s)", x.SegmentationTypeID, name))
	r.n32("segment_num", x.SegmentNum)
	r.n32("segments_expected", x.SegmentsExpected)
	if x.SubSegmentNum != nil {
		r.n32("sub_segment_num", *x.SubSegmentNum)
	}
	if x.SubSegmentsExpected != nil {
		r.n32("sub_segments_expected", *x.SubSegmentsExpected)
	}
}

// TableUPID: the UPIDs of a segmentation descriptor in a table.
func TableUPID() {
	d := &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("sd.id"), SegmentNum: uint32(nd.U8("sd.num")), SegmentsExpected: uint32(nd.U8("sd.exp"))}
	n := size(2, 4)
	if nd.Choice("two", 2) == 1 {
		d.SegmentationUPIDs = append(d.SegmentationUPIDs, scte35.SegmentationUPID{Type: 9, Format: "text", Value: phrase("up.first", 3)})
	}
	k := nd.Choice("kind", nUPID)
	var u scte35.SegmentationUPID
	switch k {
	case uEIDR:
		p := []uint64{5237, 5238, 5239, 5240, 5241, 5, 52370}[nd.Choice("prefix", 7)]
		b := append([]byte{byte(p >> 8), byte(p)}, nd.Bytes("up.b", 10)...)
		lastEIDR = b
		u = scte35.SegmentationUPID{Type: 0xa, Format: "text", Value: eidrText(b)}
	case uText:
		t := []uint32{1, 2, 3, 4, 7, 9, 0xb, 0xe, 0xf, 0x10, 0x11, 0x12, 0xff}
		u = scte35.SegmentationUPID{Type: t[nd.Choice("up.type", len(t))], Format: "text", Value: phrase("up.t", 1+nd.Choice("up.n", 2*n))}
	case uMPU:
		u = genUPID(k, n)
		u.FormatIdentifier = u32p(printID("up.fi"))
	default:
		u = genUPID(k, n)
	}
	d.SegmentationUPIDs = append(d.SegmentationUPIDs, u)
	s := plain(oneCmd(kTime), d)
	r := &rows{}
	r.head(s, "No encryption")
	r.cmd(s.SpliceCommand, nil)
	r.num("descriptor_loop_length", uint64(len(refDesc(d, nil))))
	r.desc(d, segName(0), "")
	r.check(s)
}

// TableDescriptor: the fields of a descriptor in a table.
func TableDescriptor() {
	k := nd.Choice("desc", nDesc)
	var d scte35.SpliceDescriptor
	name, preroll := "", ""
	switch k {
	case kDTMF:
		p := []uint32{0, 1, 5, 10, 19, 100, 128, 255}[nd.Choice("preroll", 8)]
		preroll = fmt.Sprintf("%d.%d0", p/10, p%10)
		d = &scte35.DTMFDescriptor{Preroll: p, DTMFChars: nd.Text("dt.c", nd.Choice("dt.n", 8), "print")}
	case kPrivateDesc:
		x := &scte35.PrivateDescriptor{PrivateTag: uint32(nd.U8("pd.tag")), Identifier: printID("pd.id"), PrivateBytes: nd.Bytes("pd.b", nd.Choice("pd.n", 4))}
		nd.Assume(x.Identifier != scte35.CUEIdentifier)
		d = x
	case kSeg:
		x := genSeg(1, false)
		t := []uint32{0, 1, 0x10, 0x22, 0x31, 0x40, 0x50, 0x77, 0xff}
		if x.SubSegmentNum != nil {
			t = []uint32{0x30, 0x32, 0x34, 0x36, 0x38, 0x3a, 0x44, 0x46}
		}
		x.SegmentationTypeID = t[nd.Choice("type", len(t))]
		name = segName(x.SegmentationTypeID)
		if r := x.DeliveryRestrictions; r != nil {
			r.DeviceRestrictions = uint32(nd.Choice("dev", 4))
		}
		d = x
	default:
		d = genDesc(k, size(1, 2))
	}
	s := plain(oneCmd(kTime), d)
	r := &rows{}
	r.head(s, "No encryption")
	r.cmd(s.SpliceCommand, nil)
	r.num("descriptor_loop_length", uint64(len(refDesc(d, nil))))
	r.desc(d, name, preroll)
	r.check(s)
}

// TableNesting: every line of a table starts with the prefix asked for and is
// indented by as many of the indents asked for as there are parts around it, each
// of which opens and closes with a brace.
func TableNesting() {
	var s *scte35.SpliceInfoSection
	k := nd.Choice("what", nCmd+nDesc+4)
	switch {
	case k >= nCmd+nDesc:
		s = manyParts(k-nCmd-nDesc, 12)
	case k == kSchedule:
		s = plain(genCmd(k, 2))
		for i := range s.SpliceCommand.(*scte35.SpliceSchedule).Events {
			e := &s.SpliceCommand.(*scte35.SpliceSchedule).Events[i]
			if e.Program != nil {
				e.Program.UTCSpliceTime = scte35.NewUTCSpliceTime(someTimes[0])
			}
			for j := range e.Components {
				e.Components[j].UTCSpliceTime = scte35.NewUTCSpliceTime(someTimes[0])
			}
		}
	case k == kPrivate:
		s = plain(&scte35.PrivateCommand{Identifier: 0x41424344, PrivateBytes: nd.Bytes("pc.b", 2)})
	case k < nCmd:
		s = plain(genCmd(k, 2))
	case k-nCmd == kDTMF:
		s = plain(oneCmd(kTime), &scte35.DTMFDescriptor{Preroll: 123, DTMFChars: nd.Text("dt.c", 2, "print")})
	case k-nCmd == kPrivateDesc:
		s = plain(oneCmd(kTime), &scte35.PrivateDescriptor{Identifier: 0x41424344, PrivateBytes: nd.Bytes("pd.b", 2)})
	case k-nCmd == kSeg:
		x := genSeg(size(1, 2), false)
		x.SegmentationTypeID = 0x34
		if x.DeliveryRestrictions != nil {
			x.DeliveryRestrictions.DeviceRestrictions = 2
		}
		for i := range x.SegmentationUPIDs {
			x.SegmentationUPIDs[i] = scte35.SegmentationUPID{Type: 9, Value: "AB"}
		}
		s = plain(oneCmd(kTime), x, &scte35.AvailDescriptor{ProviderAvailID: nd.U32("av")})
	default:
		s = plain(oneCmd(kTime), genDesc(k-nCmd, 2))
	}
	prefix, indent := "", "\t"
	switch nd.Choice("form", 3) {
	case 1:
		prefix, indent = "> ", "    "
	case 2:
		prefix, indent = "\t", ""
	}
	t := s.Table(prefix, indent)
	nd.ObserveS("table", t)
	lines := nd.Labels(t)
	depth, path, seen := 0, "", map[string]int{}
	var tops []string
	for i, l := range lines {
		if i == len(lines)-1 {
			nd.Assert(l == "", "a table ends with a line feed")
			break
		}
		if strings.HasSuffix(l, "}") && !strings.HasSuffix(l, "{}") {
			depth--
			nd.Assert(depth >= 0, "braces of a table match")
		}
		want := prefix + strings.Repeat(indent, depth)
		nd.Assert(strings.HasPrefix(l, want), "a line of a table has the prefix and an indent for each part around it")
		l = l[len(want):]
		if strings.HasSuffix(l, "{") || strings.HasSuffix(l, "{}") {
			if depth == 0 {
				tops = append(tops, l)
				seen = map[string]int{}
			} else {
				name, rest, ok := strings.Cut(l, "[")
				nd.Assert(ok && rest == strconv.Itoa(seen[path+name])+"] {", "repeated parts of a table are numbered from 0")
				seen[path+name]++
				path += l
			}
		}
		if l == "}" && depth > 0 {
			path = path[:strings.LastIndexByte(strings.TrimSuffix(path, "{"), '{')+1]
		}
		nd.Assert(l != "" && l[0] != ' ' && l[0] != '\t', "a line of a table is not indented further")
		if strings.HasSuffix(l, "{") {
			depth++
		}
	}
	nd.Assert(depth == 0, "braces of a table match")
	want := []string{"splice_info_section() {", partName(s.SpliceCommand)}
	for _, d := range s.SpliceDescriptors {
		want = append(want, partName(d))
	}
	nd.Assert(slices.Equal(tops, want), "a table has a part for the section, its command and each descriptor")
	nd.Reach("end")
}

// manyParts is a section with n parts of a kind.
func manyParts(k, n int) *scte35.SpliceInfoSection {
	ins, sch, aud, seg := &scte35.SpliceInsert{}, &scte35.SpliceSchedule{}, &scte35.AudioDescriptor{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10}
	for i := 0; i < n; i++ {
		switch k {
		case 0:
			ins.Components = append(ins.Components, scte35.SpliceInsertComponent{Tag: uint32(nd.U8("tag"))})
		case 1:
			sch.Events = append(sch.Events, scte35.Event{SpliceEventID: nd.U32("id"), SpliceEventCancelIndicator: true})
		case 2:
			aud.AudioChannels = append(aud.AudioChannels, scte35.AudioChannel{ComponentTag: uint32(nd.U8("tag")), ISOCode: "eng"})
		default:
			seg.Components = append(seg.Components, scte35.SegmentationDescriptorComponent{Tag: uint32(nd.U8("tag"))})
			seg.SegmentationUPIDs = append(seg.SegmentationUPIDs, scte35.SegmentationUPID{Type: 9, Format: "text", Value: "AB"})
		}
	}
	switch k {
	case 0:
		return plain(ins)
	case 1:
		return plain(sch)
	case 2:
		return plain(oneCmd(kTime), aud)
	}
	return plain(oneCmd(kTime), seg)
}

// TableMany: tables with many parts of a kind.
func TableMany() {
	s := manyParts(nd.Choice("what", 4), pick("n", 7, 12, 40))
	r := &rows{}
	r.head(s, "No encryption")
	r.cmd(s.SpliceCommand, nil)
	n := 0
	for _, d := range s.SpliceDescriptors {
		n += len(refDesc(d, nil))
	}
	r.num("descriptor_loop_length", uint64(n))
	for _, d := range s.SpliceDescriptors {
		r.desc(d, segName(0x10), "")
	}
	r.check(s)
}

func partName(x any) string {
	switch x.(type) {
	case *scte35.SpliceNull:
		return "splice_null() {}"
	case *scte35.SpliceSchedule:
		return "splice_schedule() {"
	case *scte35.SpliceInsert:
		return "splice_insert() {"
	case *scte35.TimeSignal:
		return "time_signal() {"
	case *scte35.BandwidthReservation:
		return "bandwidth_reservation() {}"
	case *scte35.PrivateCommand:
		return "private_command() {"
	case *scte35.AvailDescriptor:
		return "avail_descriptor() {"
	case *scte35.DTMFDescriptor:
		return "dtmf_descriptor() {"
	case *scte35.SegmentationDescriptor:
		return "segmentation_descriptor() {"
	case *scte35.TimeDescriptor:
		return "time_descriptor() {"
	case *scte35.AudioDescriptor:
		return "audio_descriptor() {"
	}
	return "private_descriptor() {"
}
