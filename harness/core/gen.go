package core

import (
	"encoding/base64"
	"fmt"
	"strconv"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

// reg adds a harness.
func reg(name string, f func()) { Registry[name] = f }

// size picks the quick or the thorough bound.
func size(quick, thorough int) int {
	if nd.Tier() > 0 {
		return thorough
	}
	return quick
}

func must(err error, what string) {
	nd.Assert(err == nil, what)
}

// The kinds of splice commands.
const (
	kNull = iota
	kSchedule
	kInsert
	kTime
	kBandwidth
	kPrivate
	nCmd
)

// The kinds of splice descriptors.
const (
	kAvail = iota
	kDTMF
	kSeg
	kTimeDesc
	kAudio
	kPrivateDesc
	nDesc
)

func bit(label string) bool { return nd.Bool(label) }

func pts(label string) *uint64 {
	v := nd.Bits(label, 33)
	return &v
}

// optPts is nil or an arbitrary 33 bit time.
func optPts(label string) *uint64 {
	if nd.Choice(label+"?", 2) == 0 {
		return nil
	}
	return pts(label)
}

func optBreak(label string) *scte35.BreakDuration {
	if nd.Choice(label+"?", 2) == 0 {
		return nil
	}
	return &scte35.BreakDuration{AutoReturn: bit(label + ".auto"), Duration: nd.Bits(label+".dur", 33)}
}

// genCmd is an arbitrary command of the given kind whose fields fit their SCTE
// 35 widths; n bounds repeated parts.
func genCmd(k, n int) scte35.SpliceCommand {
	switch k {
	case kNull:
		return &scte35.SpliceNull{}
	case kBandwidth:
		return &scte35.BandwidthReservation{}
	case kTime:
		return &scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: optPts("ts.pts")}}
	case kPrivate:
		return &scte35.PrivateCommand{Identifier: nd.U32("pc.id"), PrivateBytes: nd.Bytes("pc.b", nd.Choice("pc.n", 4*n+1))}
	case kInsert:
		return genInsert(n)
	default:
		c := &scte35.SpliceSchedule{}
		for i := nd.Choice("ss.n", n+1); i > 0; i-- {
			c.Events = append(c.Events, genEvent(n))
		}
		return c
	}
}

func genInsert(n int) *scte35.SpliceInsert {
	c := &scte35.SpliceInsert{SpliceEventID: nd.U32("si.id")}
	if nd.Choice("si.cancel", 2) == 1 {
		c.SpliceEventCancelIndicator = true
		return c
	}
	c.OutOfNetworkIndicator = bit("si.out")
	imm := nd.Choice("si.imm", 2) == 1
	c.SpliceImmediateFlag = imm
	if nd.Choice("si.prog", 2) == 1 {
		c.Program = &scte35.SpliceInsertProgram{}
		if !imm {
			c.Program.SpliceTime.PTSTime = optPts("si.pts")
		}
	} else {
		for i := nd.Choice("si.n", n+1); i > 0; i-- {
			e := scte35.SpliceInsertComponent{Tag: uint32(nd.U8("si.tag"))}
			if !imm {
				if p := optPts("si.cpts"); p != nil {
					e.SpliceTime = &scte35.SpliceTime{PTSTime: p}
				}
			}
			c.Components = append(c.Components, e)
		}
	}
	c.BreakDuration = optBreak("si.brk")
	c.UniqueProgramID = uint32(nd.U16("si.upid"))
	c.AvailNum = uint32(nd.U8("si.an"))
	c.AvailsExpected = uint32(nd.U8("si.ae"))
	return c
}

func genEvent(n int) scte35.Event {
	e := scte35.Event{SpliceEventID: nd.U32("ev.id"), EventIDComplianceFlag: bit("ev.cf")}
	if nd.Choice("ev.cancel", 2) == 1 {
		e.SpliceEventCancelIndicator = true
		return e
	}
	e.OutOfNetworkIndicator = bit("ev.out")
	if nd.Choice("ev.prog", 2) == 1 {
		e.Program = &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(nd.U32("ev.utc"))}
	} else {
		for i := nd.Choice("ev.n", n+1); i > 0; i-- {
			e.Components = append(e.Components, scte35.EventComponent{
				Tag: uint32(nd.U8("ev.tag")), UTCSpliceTime: scte35.NewUTCSpliceTime(nd.U32("ev.cutc"))})
		}
	}
	e.BreakDuration = optBreak("ev.brk")
	e.UniqueProgramID = uint32(nd.U16("ev.upid"))
	e.AvailNum = uint32(nd.U8("ev.an"))
	e.AvailsExpected = uint32(nd.U8("ev.ae"))
	return e
}

// genDesc is an arbitrary descriptor of the given kind.
func genDesc(k, n int) scte35.SpliceDescriptor {
	switch k {
	case kAvail:
		return &scte35.AvailDescriptor{ProviderAvailID: nd.U32("av.id")}
	case kDTMF:
		return &scte35.DTMFDescriptor{Preroll: uint32(nd.U8("dt.pre")), DTMFChars: nd.Text("dt.c", nd.Choice("dt.n", 8), "print")}
	case kTimeDesc:
		return &scte35.TimeDescriptor{TAISeconds: nd.Bits("td.s", 48), TAINS: nd.U32("td.ns"), UTCOffset: uint32(nd.U16("td.off"))}
	case kAudio:
		d := &scte35.AudioDescriptor{}
		for i := nd.Choice("ad.n", n+1); i > 0; i-- {
			d.AudioChannels = append(d.AudioChannels, scte35.AudioChannel{
				ComponentTag: uint32(nd.U8("ad.tag")), ISOCode: nd.Text("ad.iso", 3, "print"),
				BitStreamMode: uint32(nd.Bits("ad.bsm", 3)), NumChannels: uint32(nd.Bits("ad.nc", 4)), FullSrvcAudio: bit("ad.full")})
		}
		return d
	case kPrivateDesc:
		d := &scte35.PrivateDescriptor{PrivateTag: uint32(nd.U8("pd.tag")), Identifier: nd.U32("pd.id"),
			PrivateBytes: nd.Bytes("pd.b", nd.Choice("pd.n", 4*n+1))}
		nd.Assume(d.Identifier != scte35.CUEIdentifier || d.PrivateTag > 4)
		return d
	default:
		return genSeg(n, true)
	}
}

// subSegType reports whether the segmentation type has sub-segment fields.
func subSegType(t uint32) bool {
	return t == 0x30 || t == 0x32 || t == 0x34 || t == 0x36 || t == 0x38 || t == 0x3a || t == 0x44 || t == 0x46
}

// genSeg is an arbitrary segmentation descriptor; with UPIDs of every sort when
// upids is set.
func genSeg(n int, upids bool) *scte35.SegmentationDescriptor {
	d := &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("sd.id"), SegmentationEventIDComplianceIndicator: bit("sd.cf")}
	if nd.Choice("sd.cancel", 2) == 1 {
		d.SegmentationEventCancelIndicator = true
		return d
	}
	if nd.Choice("sd.dr", 2) == 1 {
		d.DeliveryRestrictions = &scte35.DeliveryRestrictions{
			ArchiveAllowedFlag: bit("sd.arch"), WebDeliveryAllowedFlag: bit("sd.web"),
			NoRegionalBlackoutFlag: bit("sd.nrb"), DeviceRestrictions: uint32(nd.Bits("sd.dev", 2))}
	}
	for i := nd.Choice("sd.n", n+1); i > 0; i-- {
		d.Components = append(d.Components, scte35.SegmentationDescriptorComponent{Tag: uint32(nd.U8("sd.tag")), PTSOffset: nd.Bits("sd.off", 33)})
	}
	if nd.Choice("sd.dur?", 2) == 1 {
		v := nd.Bits("sd.dur", 40)
		d.SegmentationDuration = &v
	}
	if upids {
		switch m := nd.Choice("sd.upids", 3); m {
		case 1:
			d.SegmentationUPIDs = []scte35.SegmentationUPID{genUPID(nd.Choice("up.kind", nUPID), n)}
		case 2:
			d.SegmentationUPIDs = []scte35.SegmentationUPID{genUPID(nd.Choice("up.kind", nUPID), n), genUPID(uText, n)}
		}
	}
	d.SegmentationTypeID = uint32(nd.U8("sd.type"))
	d.SegmentNum = uint32(nd.U8("sd.num"))
	d.SegmentsExpected = uint32(nd.U8("sd.exp"))
	if nd.Choice("sd.sub", 2) == 1 {
		nd.Assume(subSegType(d.SegmentationTypeID))
		a, b := uint32(nd.U8("sd.subnum")), uint32(nd.U8("sd.subexp"))
		d.SubSegmentNum, d.SubSegmentsExpected = &a, &b
	}
	return d
}

// The kinds of UPIDs.
const (
	uText = iota
	uISAN
	uTI
	uMPU
	uEIDR
	nUPID
)

func u32p(v uint32) *uint32 { return &v }

// textUPIDType reports whether a UPID of this type carries plain text.
func textUPIDType(t uint32) bool {
	return t != 5 && t != 6 && t != 8 && t != 0xa && t != 0xc && t != 0xd
}

// lastTI and lastEIDR are what genUPID made its last TI and EIDR from.
var (
	lastTI   uint64
	lastEIDR []byte
)

// genUPID is an arbitrary UPID in the form decoding gives it.
func genUPID(k, n int) scte35.SegmentationUPID {
	switch k {
	case uISAN:
		t := uint32(6)
		if nd.Choice("up.isan", 2) == 1 {
			t = 5
		}
		b := nd.Bytes("up.b", 1+nd.Choice("up.n", 3*n))
		return scte35.SegmentationUPID{Type: t, Format: "base-64", Value: base64.StdEncoding.EncodeToString(b)}
	case uTI:
		lastTI = nd.U64("up.ti")
		return scte35.SegmentationUPID{Type: 8, Format: "text", Value: strconv.FormatUint(lastTI, 10)}
	case uMPU:
		b := nd.Bytes("up.b", nd.Choice("up.n", 3*n+1))
		return scte35.SegmentationUPID{Type: 0xc, Format: "base-64", FormatIdentifier: u32p(nd.U32("up.fi")), Value: base64.StdEncoding.EncodeToString(b)}
	case uEIDR:
		b := nd.Bytes("up.b", 12)
		lastEIDR = b
		return scte35.SegmentationUPID{Type: 0xa, Format: "text", Value: eidrText(b)}
	default:
		t := uint32(nd.U8("up.type"))
		nd.Assume(textUPIDType(t))
		l := 1 + nd.Choice("up.n", 2*n)
		return scte35.SegmentationUPID{Type: t, Format: "text", Value: phrase("up.t", l)}
	}
}

// phrase is printable text which does not start or end with a blank.
func phrase(name string, n int) string {
	t := nd.Text(name, n, "print")
	if n > 0 {
		nd.Assume(t[0] != ' ')
		nd.Assume(t[n-1] != ' ')
	}
	return t
}

func hexUp(b []byte) string {
	const d = "0123456789ABCDEF"
	o := make([]byte, 0, 2*len(b))
	for _, x := range b {
		o = append(o, d[x>>4], d[x&15])
	}
	return string(o)
}

// eidrText is the canonical text of a compact (12 byte) EIDR.
func eidrText(b []byte) string {
	p := []string{hexUp(b[2:4]), hexUp(b[4:6]), hexUp(b[6:8]), hexUp(b[8:10]), hexUp(b[10:12])}
	return "10." + strconv.FormatUint(uint64(b[0])<<8|uint64(b[1]), 10) + "/" + strings.Join(p, "-")
}

// oneCmd is a command of the given kind with one fixed structure and arbitrary
// values.
func oneCmd(k int) scte35.SpliceCommand {
	switch k {
	case kTime:
		return &scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: pts("ts.pts")}}
	case kPrivate:
		return &scte35.PrivateCommand{Identifier: nd.U32("pc.id"), PrivateBytes: nd.Bytes("pc.b", 5)}
	case kInsert:
		return &scte35.SpliceInsert{SpliceEventID: nd.U32("si.id"), OutOfNetworkIndicator: bit("si.out"),
			Program:         &scte35.SpliceInsertProgram{SpliceTime: scte35.SpliceTime{PTSTime: pts("si.pts")}},
			BreakDuration:   &scte35.BreakDuration{AutoReturn: bit("si.auto"), Duration: nd.Bits("si.dur", 33)},
			UniqueProgramID: uint32(nd.U16("si.upid")), AvailNum: uint32(nd.U8("si.an")), AvailsExpected: uint32(nd.U8("si.ae"))}
	case kSchedule:
		return &scte35.SpliceSchedule{Events: []scte35.Event{{SpliceEventID: nd.U32("ev.id"), EventIDComplianceFlag: bit("ev.cf"),
			OutOfNetworkIndicator: bit("ev.out"), Program: &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(nd.U32("ev.utc"))},
			UniqueProgramID: uint32(nd.U16("ev.upid")), AvailNum: uint32(nd.U8("ev.an")), AvailsExpected: uint32(nd.U8("ev.ae"))}}}
	}
	return genCmd(k, 0)
}

// oneDesc is a descriptor of the given kind with one fixed structure and
// arbitrary values.
func oneDesc(k int) scte35.SpliceDescriptor {
	switch k {
	case kDTMF:
		return &scte35.DTMFDescriptor{Preroll: uint32(nd.U8("dt.pre")), DTMFChars: nd.Text("dt.c", 3, "print")}
	case kAudio:
		return &scte35.AudioDescriptor{AudioChannels: []scte35.AudioChannel{{
			ComponentTag: uint32(nd.U8("ad.tag")), ISOCode: nd.Text("ad.iso", 3, "print"),
			BitStreamMode: uint32(nd.Bits("ad.bsm", 3)), NumChannels: uint32(nd.Bits("ad.nc", 4)), FullSrvcAudio: bit("ad.full")}}}
	case kPrivateDesc:
		d := &scte35.PrivateDescriptor{PrivateTag: uint32(nd.U8("pd.tag")), Identifier: nd.U32("pd.id"), PrivateBytes: nd.Bytes("pd.b", 3)}
		nd.Assume(d.Identifier != scte35.CUEIdentifier)
		return d
	case kSeg:
		dur := nd.Bits("sd.dur", 40)
		return &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("sd.id"), SegmentationEventIDComplianceIndicator: bit("sd.cf"),
			SegmentationDuration: &dur, SegmentationTypeID: uint32(nd.U8("sd.type")), SegmentNum: uint32(nd.U8("sd.num")), SegmentsExpected: uint32(nd.U8("sd.exp")),
			DeliveryRestrictions: &scte35.DeliveryRestrictions{ArchiveAllowedFlag: bit("sd.arch"), WebDeliveryAllowedFlag: bit("sd.web"),
				NoRegionalBlackoutFlag: bit("sd.nrb"), DeviceRestrictions: uint32(nd.Bits("sd.dev", 2))},
			SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 3, Format: "text", Value: phrase("sd.upid", 4)}}}
	}
	return genDesc(k, 0)
}

// genHeader is a section with arbitrary header fields.
func genHeader() *scte35.SpliceInfoSection {
	return &scte35.SpliceInfoSection{
		SAPType:         uint32(nd.Bits("h.sap", 2)),
		ProtocolVersion: uint32(nd.U8("h.pv")),
		PTSAdjustment:   nd.Bits("h.adj", 33),
		Tier:            uint32(nd.Bits("h.tier", 12)),
		EncryptedPacket: scte35.EncryptedPacket{CWIndex: uint32(nd.U8("h.cw"))},
	}
}

// plain is a section with fixed header fields.
func plain(c scte35.SpliceCommand, ds ...scte35.SpliceDescriptor) *scte35.SpliceInfoSection {
	return &scte35.SpliceInfoSection{SAPType: 3, Tier: 4095, SpliceCommand: c, SpliceDescriptors: ds}
}

// Comparisons: each asserts equality field by field.

func eqU(a, b uint64, what string) { nd.Assert(a == b, what) }
func eqB(a, b bool, what string)   { nd.Assert(a == b, what) }
func eqS(a, b string, what string) { nd.Assert(a == b, what) }

func eqP64(a, b *uint64, what string) {
	nd.Assert((a == nil) == (b == nil), what+" presence")
	if a != nil {
		nd.Assert(*a == *b, what)
	}
}

func eqP32(a, b *uint32, what string) {
	nd.Assert((a == nil) == (b == nil), what+" presence")
	if a != nil {
		nd.Assert(*a == *b, what)
	}
}

func eqBreak(a, b *scte35.BreakDuration) {
	nd.Assert((a == nil) == (b == nil), "break_duration presence")
	if a != nil {
		eqB(a.AutoReturn, b.AutoReturn, "auto_return")
		eqU(a.Duration, b.Duration, "break duration")
	}
}

func eqBytes(a, b []byte, what string) {
	nd.Assert(len(a) == len(b), what+" length")
	for i := range a {
		nd.Assert(a[i] == b[i], what)
	}
}

func eqCmd(a, b scte35.SpliceCommand) {
	switch x := a.(type) {
	case *scte35.SpliceNull:
		_, ok := b.(*scte35.SpliceNull)
		nd.Assert(ok, "splice_null stays splice_null")
	case *scte35.BandwidthReservation:
		_, ok := b.(*scte35.BandwidthReservation)
		nd.Assert(ok, "bandwidth_reservation stays bandwidth_reservation")
	case *scte35.TimeSignal:
		y, ok := b.(*scte35.TimeSignal)
		nd.Assert(ok, "time_signal stays time_signal")
		eqP64(x.SpliceTime.PTSTime, y.SpliceTime.PTSTime, "time_signal pts_time")
	case *scte35.PrivateCommand:
		y, ok := b.(*scte35.PrivateCommand)
		nd.Assert(ok, "private_command stays private_command")
		eqU(uint64(x.Identifier), uint64(y.Identifier), "private_command identifier")
		eqBytes(x.PrivateBytes, y.PrivateBytes, "private_command bytes")
	case *scte35.SpliceInsert:
		y, ok := b.(*scte35.SpliceInsert)
		nd.Assert(ok, "splice_insert stays splice_insert")
		eqInsert(x, y)
	case *scte35.SpliceSchedule:
		y, ok := b.(*scte35.SpliceSchedule)
		nd.Assert(ok, "splice_schedule stays splice_schedule")
		nd.Assert(len(x.Events) == len(y.Events), "splice_schedule event count")
		for i := range x.Events {
			eqEvent(&x.Events[i], &y.Events[i])
		}
	default:
		nd.Assert(false, fmt.Sprintf("unexpected command %T", a))
	}
}

func eqInsert(x, y *scte35.SpliceInsert) {
	eqU(uint64(x.SpliceEventID), uint64(y.SpliceEventID), "splice_insert splice_event_id")
	eqB(x.SpliceEventCancelIndicator, y.SpliceEventCancelIndicator, "splice_insert cancel indicator")
	eqB(x.OutOfNetworkIndicator, y.OutOfNetworkIndicator, "splice_insert out_of_network_indicator")
	eqB(x.SpliceImmediateFlag, y.SpliceImmediateFlag, "splice_insert splice_immediate_flag")
	nd.Assert((x.Program == nil) == (y.Program == nil), "splice_insert program presence")
	if x.Program != nil {
		eqP64(x.Program.SpliceTime.PTSTime, y.Program.SpliceTime.PTSTime, "splice_insert program pts_time")
	}
	nd.Assert(len(x.Components) == len(y.Components), "splice_insert component count")
	for i := range x.Components {
		a, b := &x.Components[i], &y.Components[i]
		eqU(uint64(a.Tag), uint64(b.Tag), "splice_insert component_tag")
		at, bt := a.SpliceTime != nil && a.SpliceTime.PTSTime != nil, b.SpliceTime != nil && b.SpliceTime.PTSTime != nil
		nd.Assert(at == bt, "splice_insert component time presence")
		if at && bt {
			eqP64(a.SpliceTime.PTSTime, b.SpliceTime.PTSTime, "splice_insert component pts_time")
		}
	}
	eqBreak(x.BreakDuration, y.BreakDuration)
	eqU(uint64(x.UniqueProgramID), uint64(y.UniqueProgramID), "splice_insert unique_program_id")
	eqU(uint64(x.AvailNum), uint64(y.AvailNum), "splice_insert avail_num")
	eqU(uint64(x.AvailsExpected), uint64(y.AvailsExpected), "splice_insert avails_expected")
}

func eqEvent(x, y *scte35.Event) {
	eqU(uint64(x.SpliceEventID), uint64(y.SpliceEventID), "event splice_event_id")
	eqB(x.SpliceEventCancelIndicator, y.SpliceEventCancelIndicator, "event cancel indicator")
	eqB(x.EventIDComplianceFlag, y.EventIDComplianceFlag, "event compliance flag")
	eqB(x.OutOfNetworkIndicator, y.OutOfNetworkIndicator, "event out_of_network_indicator")
	nd.Assert((x.Program == nil) == (y.Program == nil), "event program presence")
	if x.Program != nil {
		eqUTC(x.Program.UTCSpliceTime, y.Program.UTCSpliceTime, "event utc_splice_time")
	}
	nd.Assert(len(x.Components) == len(y.Components), "event component count")
	for i := range x.Components {
		eqU(uint64(x.Components[i].Tag), uint64(y.Components[i].Tag), "event component_tag")
		eqUTC(x.Components[i].UTCSpliceTime, y.Components[i].UTCSpliceTime, "event component utc_splice_time")
	}
	eqBreak(x.BreakDuration, y.BreakDuration)
	eqU(uint64(x.UniqueProgramID), uint64(y.UniqueProgramID), "event unique_program_id")
	eqU(uint64(x.AvailNum), uint64(y.AvailNum), "event avail_num")
	eqU(uint64(x.AvailsExpected), uint64(y.AvailsExpected), "event avails_expected")
}

func eqUTC(a, b scte35.UTCSpliceTime, what string) {
	nd.Assert(a.Time.Unix() == b.Time.Unix(), what)
}

func eqDesc(a, b scte35.SpliceDescriptor) {
	switch x := a.(type) {
	case *scte35.AvailDescriptor:
		y, ok := b.(*scte35.AvailDescriptor)
		nd.Assert(ok, "avail_descriptor stays avail_descriptor")
		eqU(uint64(x.ProviderAvailID), uint64(y.ProviderAvailID), "provider_avail_id")
	case *scte35.DTMFDescriptor:
		y, ok := b.(*scte35.DTMFDescriptor)
		nd.Assert(ok, "dtmf_descriptor stays dtmf_descriptor")
		eqU(uint64(x.Preroll), uint64(y.Preroll), "dtmf preroll")
		eqS(x.DTMFChars, y.DTMFChars, "dtmf chars")
	case *scte35.TimeDescriptor:
		y, ok := b.(*scte35.TimeDescriptor)
		nd.Assert(ok, "time_descriptor stays time_descriptor")
		eqU(x.TAISeconds, y.TAISeconds, "tai_seconds")
		eqU(uint64(x.TAINS), uint64(y.TAINS), "tai_ns")
		eqU(uint64(x.UTCOffset), uint64(y.UTCOffset), "utc_offset")
	case *scte35.AudioDescriptor:
		y, ok := b.(*scte35.AudioDescriptor)
		nd.Assert(ok, "audio_descriptor stays audio_descriptor")
		nd.Assert(len(x.AudioChannels) == len(y.AudioChannels), "audio_count")
		for i := range x.AudioChannels {
			p, q := &x.AudioChannels[i], &y.AudioChannels[i]
			eqU(uint64(p.ComponentTag), uint64(q.ComponentTag), "audio component_tag")
			eqS(p.ISOCode, q.ISOCode, "audio iso_code")
			eqU(uint64(p.BitStreamMode), uint64(q.BitStreamMode), "audio bit_stream_mode")
			eqU(uint64(p.NumChannels), uint64(q.NumChannels), "audio num_channels")
			eqB(p.FullSrvcAudio, q.FullSrvcAudio, "audio full_srvc_audio")
		}
	case *scte35.PrivateDescriptor:
		y, ok := b.(*scte35.PrivateDescriptor)
		nd.Assert(ok, "private_descriptor stays private_descriptor")
		eqU(uint64(x.PrivateTag), uint64(y.PrivateTag), "private_descriptor tag")
		eqU(uint64(x.Identifier), uint64(y.Identifier), "private_descriptor identifier")
		eqBytes(x.PrivateBytes, y.PrivateBytes, "private_descriptor bytes")
	case *scte35.SegmentationDescriptor:
		y, ok := b.(*scte35.SegmentationDescriptor)
		nd.Assert(ok, "segmentation_descriptor stays segmentation_descriptor")
		eqSeg(x, y)
	default:
		nd.Assert(false, fmt.Sprintf("unexpected descriptor %T", a))
	}
}

func eqSeg(x, y *scte35.SegmentationDescriptor) {
	eqU(uint64(x.SegmentationEventID), uint64(y.SegmentationEventID), "segmentation_event_id")
	eqB(x.SegmentationEventCancelIndicator, y.SegmentationEventCancelIndicator, "segmentation cancel indicator")
	eqB(x.SegmentationEventIDComplianceIndicator, y.SegmentationEventIDComplianceIndicator, "segmentation compliance indicator")
	nd.Assert((x.DeliveryRestrictions == nil) == (y.DeliveryRestrictions == nil), "delivery restrictions presence")
	if p, q := x.DeliveryRestrictions, y.DeliveryRestrictions; p != nil {
		eqB(p.ArchiveAllowedFlag, q.ArchiveAllowedFlag, "archive_allowed_flag")
		eqB(p.WebDeliveryAllowedFlag, q.WebDeliveryAllowedFlag, "web_delivery_allowed_flag")
		eqB(p.NoRegionalBlackoutFlag, q.NoRegionalBlackoutFlag, "no_regional_blackout_flag")
		eqU(uint64(p.DeviceRestrictions), uint64(q.DeviceRestrictions), "device_restrictions")
	}
	nd.Assert(len(x.Components) == len(y.Components), "segmentation component count")
	for i := range x.Components {
		eqU(uint64(x.Components[i].Tag), uint64(y.Components[i].Tag), "segmentation component_tag")
		eqU(x.Components[i].PTSOffset, y.Components[i].PTSOffset, "segmentation pts_offset")
	}
	eqP64(x.SegmentationDuration, y.SegmentationDuration, "segmentation_duration")
	nd.Assert(len(x.SegmentationUPIDs) == len(y.SegmentationUPIDs), "segmentation_upid count")
	for i := range x.SegmentationUPIDs {
		eqUPID(&x.SegmentationUPIDs[i], &y.SegmentationUPIDs[i])
	}
	eqU(uint64(x.SegmentationTypeID), uint64(y.SegmentationTypeID), "segmentation_type_id")
	eqU(uint64(x.SegmentNum), uint64(y.SegmentNum), "segment_num")
	eqU(uint64(x.SegmentsExpected), uint64(y.SegmentsExpected), "segments_expected")
	eqP32(x.SubSegmentNum, y.SubSegmentNum, "sub_segment_num")
	eqP32(x.SubSegmentsExpected, y.SubSegmentsExpected, "sub_segments_expected")
}

func eqUPID(x, y *scte35.SegmentationUPID) {
	eqU(uint64(x.Type), uint64(y.Type), "segmentation_upid_type")
	eqS(x.Format, y.Format, "segmentation_upid format")
	eqP32(x.FormatIdentifier, y.FormatIdentifier, "segmentation_upid format_identifier")
	eqS(x.Value, y.Value, "segmentation_upid value")
}

func eqHeader(a, b *scte35.SpliceInfoSection) {
	eqU(uint64(a.SAPType), uint64(b.SAPType), "sap_type")
	eqU(uint64(a.ProtocolVersion), uint64(b.ProtocolVersion), "protocol_version")
	eqU(a.PTSAdjustment, b.PTSAdjustment, "pts_adjustment")
	eqU(uint64(a.Tier), uint64(b.Tier), "tier")
	eqU(uint64(a.EncryptedPacket.CWIndex), uint64(b.EncryptedPacket.CWIndex), "cw_index")
	eqU(uint64(a.EncryptedPacket.EncryptionAlgorithm), uint64(b.EncryptedPacket.EncryptionAlgorithm), "encryption_algorithm")
}

func eqSection(a, b *scte35.SpliceInfoSection) {
	eqHeader(a, b)
	eqCmd(a.SpliceCommand, b.SpliceCommand)
	nd.Assert(len(a.SpliceDescriptors) == len(b.SpliceDescriptors), "descriptor count")
	for i := range a.SpliceDescriptors {
		eqDesc(a.SpliceDescriptors[i], b.SpliceDescriptors[i])
	}
}
