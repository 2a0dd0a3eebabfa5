package core

import (
	"encoding/base64"
	"strconv"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("TicksDown", TicksDown)
	reg("TicksUp", TicksUp)
	reg("TicksBack", TicksBack)
	reg("Durations", Durations)
	reg("UTCTime", UTCTime)
	reg("SegNames", SegNames)
	reg("UPIDNames", UPIDNames)
	reg("EIDRNames", EIDRNames)
	reg("HeaderNames", HeaderNames)
	reg("UPIDText", UPIDText)
	reg("UPIDBinary", UPIDBinary)
	reg("UPIDLength", UPIDLength)
	reg("EIDRForms", EIDRForms)
	reg("EIDROther", EIDROther)
	reg("ASCII", ASCII)
	reg("Flags", Flags)
}

// TicksDown: a tick count is the largest whole number of nanoseconds not after
// it.
func TicksDown() {
	t := nd.Bits("ticks", 40)
	d := scte35.TicksToDuration(t)
	nd.Assert(d >= 0, "no tick count is a negative duration")
	// d <= t*10^9/90000 < d+1, in units of 1/9 ns * 10^5
	nd.Assert(uint64(d)*9 <= t*100000, "duration not after the tick count")
	nd.Assert(t*100000 < uint64(d)*9+9, "duration within a nanosecond")
	nd.Reach("end")
}

// TicksUp: a duration is the smallest number of ticks not before it.
func TicksUp() {
	d := nd.Bits("ns", 53)
	t := scte35.DurationToTicks(time.Duration(d))
	nd.Assert(t < 1<<40, "tick count of a duration")
	nd.Assert(t*100000 >= d*9, "tick count not before the duration")
	nd.Assert(t == 0 || (t-1)*100000 < d*9, "tick count within a tick")
	nd.Reach("end")
}

// TicksBack: ticks survive the conversion to a duration and back.
func TicksBack() {
	t := nd.Bits("ticks", 40)
	nd.Assert(scte35.DurationToTicks(scte35.TicksToDuration(t)) == t, "ticks to duration and back")
	nd.Reach("end")
}

// Durations: the duration of a section is that of the break of its
// splice_insert or else the sum of its segmentation durations.
func Durations() {
	var c scte35.SpliceCommand
	var want uint64
	k := nd.Choice("cmd", nCmd)
	brk := false
	switch k {
	case kInsert:
		i := genInsert(1)
		if i.BreakDuration != nil {
			brk, want = true, i.BreakDuration.Duration
		}
		c = i
	case kSchedule:
		e := genEvent(0)
		e.BreakDuration = &scte35.BreakDuration{Duration: nd.Bits("dur", 33)}
		c = &scte35.SpliceSchedule{Events: []scte35.Event{e}}
	default:
		c = oneCmd(k)
	}
	s := plain(c)
	for i := nd.Choice("descs", size(3, 4)); i > 0; i-- {
		d := &scte35.SegmentationDescriptor{SegmentationTypeID: uint32(nd.U8("type"))}
		if nd.Choice("dur?", 2) == 1 {
			v := nd.Bits("sd.dur", 40)
			d.SegmentationDuration = &v
			if !brk {
				want += v
			}
		}
		s.SpliceDescriptors = append(s.SpliceDescriptors, d)
		if nd.Choice("other", size(1, 2)) == 1 {
			s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc(kTimeDesc))
		}
	}
	nd.Assert(s.Duration() == scte35.TicksToDuration(want), "duration of the section")
	nd.Assert(s.Duration() == s.Duration(), "duration is stable")
	nd.Reach("end")
}

// UTCTime: utc_splice_time counts the seconds since 1980-01-06T00:00:00Z.
func UTCTime() {
	v := nd.U32("sec")
	t := scte35.NewUTCSpliceTime(v)
	epoch := time.Date(1980, 1, 6, 0, 0, 0, 0, time.UTC)
	nd.Assert(t.Time.Unix() == epoch.Unix()+int64(v), "instant of a utc_splice_time")
	nd.Assert(t.GPSSeconds() == v, "utc_splice_time survives")
	u := scte35.UTCSpliceTime{Time: time.Unix(epoch.Unix()+int64(v), int64(nd.Bits("ns", 29)))}
	nd.Assert(u.GPSSeconds() == v, "utc_splice_time of a time with a fraction")
	nd.Reach("end")
}

// The names of the segmentation types (SCTE 35 table 23).
var segNames = map[uint32]string{
	0x00: "Not Indicated", 0x01: "Content Identification",
	0x10: "Program Start", 0x11: "Program End", 0x12: "Program Early Termination", 0x13: "Program Breakaway",
	0x14: "Program Resumption", 0x15: "Program Runover Planned", 0x16: "Program Runover Unplanned",
	0x17: "Program Overlap Start", 0x18: "Program Blackout Override", 0x19: "Program Start - In Progress",
	0x20: "Chapter Start", 0x21: "Chapter End", 0x22: "Break Start", 0x23: "Break End",
	0x24: "Opening Credit Start", 0x25: "Opening Credit End", 0x26: "Closing Credit Start", 0x27: "Closing Credit End",
	0x30: "Provider Advertisement Start", 0x31: "Provider Advertisement End",
	0x32: "Distributor Advertisement Start", 0x33: "Distributor Advertisement End",
	0x34: "Provider Placement Opportunity Start", 0x35: "Provider Placement Opportunity End",
	0x36: "Distributor Placement Opportunity Start", 0x37: "Distributor Placement Opportunity End",
	0x38: "Provider Overlay Placement Opportunity Start", 0x39: "Provider Overlay Placement Opportunity End",
	0x3a: "Distributor Overlay Placement Opportunity Start", 0x3b: "Distributor Overlay Placement Opportunity End",
	0x3c: "Provider Promo Start", 0x3d: "Provider Promo End", 0x3e: "Distributor Promo Start", 0x3f: "Distributor Promo End",
	0x40: "Unscheduled Event Start", 0x41: "Unscheduled Event End",
	0x42: "Alternate Content Opportunity Start", 0x43: "Alternate Content Opportunity End",
	0x44: "Provider Ad Block Start", 0x45: "Provider Ad Block End",
	0x46: "Distributor Ad Block Start", 0x47: "Distributor Ad Block End",
	0x50: "Network Start", 0x51: "Network End",
}

func segName(t uint32) string {
	if n, ok := segNames[t]; ok {
		return n
	}
	return "Unknown"
}

// The names of the UPID types (SCTE 35 table 22).
var upidNames = []string{"Not Used", "User Defined", "ISCI", "Ad-ID", "UMID", "ISAN (Deprecated)", "ISAN", "TID", "TI", "ADI", "EIDR: ",
	"ATSC Content Identifier", "MPU()", "MID()", "ADS Information", "URI", "UUID", "SCR"}

func upidName(t uint32) string {
	if t < uint32(len(upidNames)) {
		return upidNames[t]
	}
	return "Unknown"
}

// SegNames: every segmentation_type_id has the name SCTE 35 gives it.
func SegNames() {
	t := uint32(nd.Fix(uint64(nd.U8("type"))))
	d := &scte35.SegmentationDescriptor{SegmentationTypeID: t}
	nd.Assert(d.Name() == segName(t), "name of a segmentation_type_id")
	nd.Reach("end")
}

// UPIDNames: every segmentation_upid_type has the name SCTE 35 gives it.
func UPIDNames() {
	t := uint32(nd.Fix(uint64(nd.U8("type"))))
	u := &scte35.SegmentationUPID{Type: t}
	nd.Assert(u.Name() == upidName(t), "name of a segmentation_upid_type")
	nd.Reach("end")
}

// EIDRNames: the name of an EIDR tells what it identifies.
func EIDRNames() {
	b := nd.Bytes("up.b", 12)
	p := uint64(b[0])<<8 | uint64(b[1])
	want := "EIDR: "
	switch nd.Choice("which", 5) {
	case 0:
		nd.Assume(p == 5237)
		want += "Party ID"
	case 1:
		nd.Assume(p == 5238)
		want += "User ID"
	case 2:
		nd.Assume(p == 5239)
		want += "Service ID"
	case 3:
		nd.Assume(p == 5240)
		want += "Content ID"
	default:
		nd.Assume(p < 5237 || p > 5240)
	}
	u := scte35.NewSegmentationUPID(0xa, b)
	nd.Assert(u.Name() == want, "name of an EIDR")
	nd.Reach("end")
}

// HeaderNames: the names of sap_type.
func HeaderNames() {
	v := uint32(nd.U32("sap"))
	s := &scte35.SpliceInfoSection{SAPType: v}
	want := "Not Specified"
	switch v {
	case 0:
		want = "Type 1"
	case 1:
		want = "Type 2"
	case 2:
		want = "Type 3"
	}
	nd.Assert(s.SAPTypeName() == want, "name of sap_type")
	s.EncryptedPacket.EncryptionAlgorithm = uint32(nd.Bits("alg", 6))
	nd.Assert(s.EncryptedPacketFlag() == (s.EncryptedPacket.EncryptionAlgorithm != 0), "encrypted_packet_flag")
	nd.Reach("end")
}

// latin1 is the UTF-8 form of ISO 8859-1 text.
func latin1(b []byte) string {
	var o []byte
	for _, x := range b {
		if x < 0x80 {
			o = append(o, x)
		} else {
			o = append(o, 0xc0|x>>6, 0x80|x&0x3f)
		}
	}
	return string(o)
}

// upidOf encodes a section with one UPID and returns the bytes the UPID takes.
func upidOf(us ...scte35.SegmentationUPID) (byte, []byte) {
	s := plain(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationUPIDs: us})
	b, err := s.Encode()
	must(err, "encode succeeds")
	// header 14, loop length 2, tag, length, identifier, event id, flags 2
	p := b[14+2+2+4+4+2:]
	nd.Assert(int(p[1]) <= len(p)-2-3-4, "segmentation_upid_length")
	return p[0], p[2 : 2+int(p[1])]
}

// anyText is n bytes of which all but one are printable ASCII.
func anyText(n int) []byte {
	at := nd.Choice("any.at", n)
	b := []byte(nd.Text("any.t", n, "print"))
	b[at] = nd.U8("any.b")
	// blanks at either end are not kept
	nd.Assume(b[0] > 0x20 && b[0] != 0x85 && b[0] != 0xa0 && b[n-1] > 0x20 && b[n-1] != 0x85 && b[n-1] != 0xa0)
	return b
}

// UPIDText: the bytes of a text UPID are its characters, ISO 8859-1, both ways.
func UPIDText() {
	n := 1 + nd.Choice("n", size(3, 5))
	t := uint32(0xf)
	if n == 1 {
		t = uint32(nd.U8("type"))
		nd.Assume(textUPIDType(t))
	}
	b := anyText(n)
	u := scte35.NewSegmentationUPID(t, append([]byte{}, b...))
	nd.Assert(u.Type == t && u.Format == "text" && u.FormatIdentifier == nil, "kind of a text UPID")
	nd.Assert(u.Value == latin1(b), "value of a text UPID")
	k, o := upidOf(u)
	nd.Assert(uint32(k) == t, "encoded type of a text UPID")
	eqBytes(o, b, "encoded text UPID")
	nd.Reach("end")
}

// UPIDBinary: the value of a TI, ISAN or MPU UPID is its number or its base64
// form, both ways.
func UPIDBinary() {
	var t uint32
	var b []byte
	var want scte35.SegmentationUPID
	switch nd.Choice("kind", 4) {
	case 0:
		t, b = 8, nd.Bytes("b", 8)
		v := uint64(be32(b[:4]))<<32 | uint64(be32(b[4:]))
		want = scte35.SegmentationUPID{Type: t, Format: "text", Value: strconv.FormatUint(v, 10)}
	case 1, 2:
		t = uint32(5 + nd.Choice("isan", 2))
		b = nd.Bytes("b", []int{12, 8, 1, 5, 16, 24}[nd.Choice("n", size(3, 6))])
		want = scte35.SegmentationUPID{Type: t, Format: "base-64", Value: base64.StdEncoding.EncodeToString(b)}
	default:
		t = 12
		b = nd.Bytes("b", 4+nd.Choice("n", size(5, 17)))
		want = scte35.SegmentationUPID{Type: t, Format: "base-64", FormatIdentifier: u32p(be32(b)), Value: base64.StdEncoding.EncodeToString(b[4:])}
	}
	u := scte35.NewSegmentationUPID(t, append([]byte{}, b...))
	eqUPID(&want, &u)
	k, o := upidOf(u)
	nd.Assert(uint32(k) == t, "encoded type of a UPID")
	eqBytes(o, b, "encoded UPID")
	nd.Reach("end")
}

// UPIDLength: segmentation_upid_length is the number of bytes of the UPIDs.
func UPIDLength() {
	d := &scte35.SegmentationDescriptor{SegmentationUPIDs: genUPIDs(1, 1)}
	_, o := upidOf(d.SegmentationUPIDs...)
	nd.Assert(d.SegmentationUpidLength() == len(o), "segmentation_upid_length")
	nd.Reach("end")
}

// EIDRForms: a compact EIDR has its canonical text, and the text the compact
// form, upper and lower case alike.
func EIDRForms() {
	b := nd.Bytes("up.b", 12)
	want := eidrText(b)
	u := scte35.NewSegmentationUPID(0xa, append([]byte{}, b...))
	nd.Assert(u.Type == 0xa && u.Format == "text" && u.FormatIdentifier == nil, "kind of an EIDR")
	nd.Assert(u.Value == want, "canonical form of an EIDR")
	k, o := upidOf(u)
	nd.Assert(k == 0xa, "encoded type of an EIDR")
	eqBytes(o, b, "compact form of an EIDR")
	nd.Reach("end")
}

// EIDROther: the compact form of an EIDR in hexadecimal digits of either case.
func EIDROther() {
	x := nd.Text("hex", 4, "hex")
	p := uint16(nd.U16("prefix"))
	v := "10." + strconv.FormatUint(uint64(p), 10) + "/" + strings.ToLower(x) + "-" + x + "-0000-" + x + "-FFfF"
	k, o := upidOf(scte35.SegmentationUPID{Type: 0xa, Format: "text", Value: v})
	nd.Assert(k == 0xa, "encoded type of an EIDR")
	a, b := unhex(x[0])<<4|unhex(x[1]), unhex(x[2])<<4|unhex(x[3])
	eqBytes(o, []byte{byte(p >> 8), byte(p), a, b, a, b, 0, 0, a, b, 0xff, 0xff}, "compact form of an EIDR")
	nd.Reach("end")
}

func unhex(c byte) byte {
	if c <= '9' {
		return c - '0'
	}
	return c - 'A' + 10
}

// ASCII: the ASCII value of a UPID has a character for every byte: the
// printable ones themselves, a dot for the others.
func ASCII() {
	var t uint32
	var b []byte
	switch nd.Choice("kind", 4) {
	case 0:
		n := 1 + nd.Choice("n", size(3, 5))
		b = anyText(n)
		t = 0xf
		if n == 1 {
			t = uint32(nd.U8("type"))
			nd.Assume(textUPIDType(t))
		}
	case 1:
		t, b = 8, nd.Bytes("b", 8)
	case 2:
		t, b = uint32(5+nd.Choice("isan", 2)), nd.Bytes("b", size(6, 12))
	default:
		t, b = 12, nd.Bytes("b", 4+nd.Choice("n", size(2, 4)))
	}
	u := scte35.NewSegmentationUPID(t, append([]byte{}, b...))
	want := make([]byte, len(b))
	for i, x := range b {
		c := byte('.')
		if x-0x20 < 0x5f {
			c = x
		}
		want[i] = c
	}
	nd.Assert(u.ASCIIValue() == string(want), "ASCII value of a UPID")
	nd.Reach("end")
}

// Flags: the flags derived from a value say what is there.
func Flags() {
	switch nd.Choice("what", 4) {
	case 0:
		c := genInsert(1)
		nd.Assert(c.ProgramSpliceFlag() == (c.Program != nil), "program_splice_flag")
		nd.Assert(c.DurationFlag() == (c.BreakDuration != nil), "duration_flag")
		nd.Assert(c.TimeSpecifiedFlag() == (c.Program != nil && c.Program.SpliceTime.PTSTime != nil), "time_specified_flag")
		for i := range c.Components {
			e := &c.Components[i]
			nd.Assert(e.TimeSpecifiedFlag() == (e.SpliceTime != nil && e.SpliceTime.PTSTime != nil), "component time_specified_flag")
		}
	case 1:
		e := genEvent(1)
		nd.Assert(e.ProgramSpliceFlag() == (e.Program != nil), "event program_splice_flag")
		nd.Assert(e.DurationFlag() == (e.BreakDuration != nil), "event duration_flag")
	case 2:
		d := genSeg(1, false)
		nd.Assert(d.DeliveryNotRestrictedFlag() == (d.DeliveryRestrictions == nil), "delivery_not_restricted_flag")
		nd.Assert(d.ProgramSegmentationFlag() == (len(d.Components) == 0), "program_segmentation_flag")
		nd.Assert(d.SegmentationDurationFlag() == (d.SegmentationDuration != nil), "segmentation_duration_flag")
	default:
		k := nd.Choice("kind", nCmd+nDesc)
		if k < nCmd {
			c := oneCmd(k)
			nd.Assert(uint64(c.Type()) == refCmdType(c), "splice_command_type")
			n, ok := scte35.NewSpliceCommand(c.Type()), false
			switch c.(type) {
			case *scte35.SpliceNull:
				_, ok = n.(*scte35.SpliceNull)
			case *scte35.SpliceSchedule:
				_, ok = n.(*scte35.SpliceSchedule)
			case *scte35.SpliceInsert:
				_, ok = n.(*scte35.SpliceInsert)
			case *scte35.TimeSignal:
				_, ok = n.(*scte35.TimeSignal)
			case *scte35.BandwidthReservation:
				_, ok = n.(*scte35.BandwidthReservation)
			case *scte35.PrivateCommand:
				_, ok = n.(*scte35.PrivateCommand)
			}
			nd.Assert(ok, "a new command of a type")
		} else {
			d := oneDesc(k - nCmd)
			t, _ := refDescBody(d, nil)
			nd.Assert(uint64(d.Tag()) == t, "splice_descriptor_tag")
		}
	}
	nd.Reach("end")
}
