package core

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("DurationMany", DurationMany)
	reg("EntryBig", EntryBig)
	reg("NoAliasBig", NoAliasBig)
	reg("ReuseBig", ReuseBig)
	reg("IndependentBig", IndependentBig)
	reg("UPIDLong", UPIDLong)
	reg("ASCIILong", ASCIILong)
	reg("RepeatTwice", RepeatTwice)
	reg("TruncatedRich", TruncatedRich)
	reg("KindTruncatedRich", KindTruncatedRich)
	reg("RichParts", RichParts)
	reg("KindRichParts", KindRichParts)
	reg("TableSection", TableSection)
	reg("TableValues", TableValues)
	reg("IsolationRich", IsolationRich)
	reg("CLIDecodeRich", CLIDecodeRich)
}

// richOne is a rich section with an order of its parts of its own.
func richOne() *scte35.SpliceInfoSection {
	return rich(nd.Choice("rich", 3), nd.Choice("order", size(4, 7)))
}

// DurationMany: the durations of many segments add up, wherever they are in the
// list.
func DurationMany() {
	s := plain(oneCmd(kTime))
	var want uint64
	for i, n := 0, pick("n", 7, 12, 40); i < n; i++ {
		d := &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("id"), SegmentationTypeID: uint32(nd.U8("type"))}
		if i%3 != 1 {
			v := nd.Bits("dur", 40)
			d.SegmentationDuration = &v
			want += v
		}
		s.SpliceDescriptors = append(s.SpliceDescriptors, d)
		if i%4 == 2 {
			s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc((i/4)%kSeg))
		}
	}
	nd.Assert(s.Duration() == scte35.TicksToDuration(want), "duration of a section with many segments")
	nd.Reach("end")
}

// EntryBig: text of long sections decodes like their bytes.
func EntryBig() {
	s := big(nd.Choice("big", nPlain), bigSize())
	b := refLayout(s, nil).build()
	var d *scte35.SpliceInfoSection
	var err error
	switch nd.Choice("form", 3) {
	case 0:
		d, err = scte35.DecodeBase64(base64.StdEncoding.EncodeToString(b))
	case 1:
		d, err = scte35.DecodeHex("0x" + hex.EncodeToString(b))
	default:
		d, err = scte35.DecodeHex(hexUp(b))
	}
	must(err, "decode of the text of a section succeeds")
	eqSection(s, d)
	nd.Reach("end")
}

// NoAliasBig: sections share no memory with buffers, however many parts they
// have.
func NoAliasBig() {
	s := big(nd.Choice("big", nBig), size(9, 40))
	b := refLayout(s, nil).build()
	orig := append([]byte{}, b...)
	d := &scte35.SpliceInfoSection{}
	must(d.Decode(b), "decode succeeds")
	x := nd.U8("scribble")
	for i := range b {
		b[i] ^= x
	}
	eqSection(s, d)
	o, err := d.Encode()
	must(err, "encode succeeds")
	n := len(o) - 4
	nd.Assert(len(o) == len(orig), "length of the encoding after the buffer was reused")
	eqBytes(o[:n], orig[:n], "encoding after the buffer was reused")
	first := append([]byte{}, o...)
	for i := range o {
		o[i] ^= x
	}
	eqSection(s, d)
	p, err := d.Encode()
	must(err, "encode succeeds again")
	eqBytes(p, first, "encoding after the previous one was overwritten")
	scribble(d)
	_, _ = d.Encode()
	eqBytes(p, first, "encoding after the section changed")
	nd.Reach("end")
}

// ReuseBig: a section of many parts is forgotten by the next decode, and the other
// way round.
func ReuseBig() {
	t := rich(nd.Choice("rich", 3), size(2, 3))
	var first []byte
	if nd.Choice("first", 2) == 0 {
		first = refLayout(big(nd.Choice("big", nPlain), 9), nil).build()
	} else {
		first = refLayout(literal(nd.Choice("lit", 5)), nil).build()
	}
	d := &scte35.SpliceInfoSection{}
	must(d.Decode(first), "decode succeeds")
	form := nd.Choice("form", 3)
	second := refLayout(t, nil).build()
	switch form {
	case 0:
		must(d.Decode(second), "decode into a used section succeeds")
	case 1:
		b, err := json.Marshal(t)
		must(err, "marshal succeeds")
		must(json.Unmarshal(b, d), "unmarshal into a used section succeeds")
	default:
		b, err := xml.Marshal(t)
		must(err, "marshal succeeds")
		must(xml.Unmarshal(b, d), "unmarshal into a used section succeeds")
	}
	eqSection(t, d)
	o, err := d.Encode()
	must(err, "encode succeeds")
	n := len(second) - 4
	nd.Assert(len(o) == len(second), "encoded size after reuse")
	eqBytes(o[:n], second[:n], "encoding after reuse")
	nd.Reach("end")
}

// IndependentBig: sections of many parts are independent of each other.
func IndependentBig() {
	s := big(nd.Choice("big", nBig), size(9, 40))
	d, e := &scte35.SpliceInfoSection{}, &scte35.SpliceInfoSection{}
	switch nd.Choice("form", 3) {
	case 0:
		b := refLayout(s, nil).build()
		must(d.Decode(b), "decode succeeds")
		must(e.Decode(b), "decode succeeds again")
	case 1:
		b, err := json.Marshal(s)
		must(err, "a section has a JSON form")
		must(json.Unmarshal(b, d), "the JSON form is read")
		must(json.Unmarshal(b, e), "the JSON form is read again")
	default:
		b, err := xml.Marshal(s)
		must(err, "a section has an XML form")
		must(xml.Unmarshal(b, d), "the XML form is read")
		must(xml.Unmarshal(b, e), "the XML form is read again")
	}
	scribble(e)
	_, _ = e.Encode()
	eqSection(s, d)
	nd.Reach("end")
}

// UPIDLong: texts of the lengths UPIDs really have, of every text type.
func UPIDLong() {
	t := uint32(nd.U8("type"))
	nd.Assume(textUPIDType(t))
	n := []int{12, 8, 32, 64, 100, 239}[nd.Choice("n", size(4, 6))]
	b := []byte(phrase("t", n))
	u := scte35.NewSegmentationUPID(t, append([]byte{}, b...))
	nd.Assert(u.Type == t && u.Format == "text" && u.FormatIdentifier == nil, "kind of a text UPID")
	nd.Assert(u.Value == string(b), "value of a text UPID")
	d := &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{u}}
	nd.Assert(d.SegmentationUpidLength() == n, "segmentation_upid_length")
	k, o := upidOf(u)
	nd.Assert(uint32(k) == t, "encoded type of a text UPID")
	eqBytes(o, b, "encoded text UPID")
	nd.Reach("end")
}

// ASCIILong: the ASCII form of long UPIDs.
func ASCIILong() {
	n := pick("n", 12, 40, 200)
	var u scte35.SegmentationUPID
	var want []byte
	switch nd.Choice("kind", 3) {
	case 0:
		b := []byte(phrase("t", n))
		at := pick("at", 0, n/2, n-1) // one may be any byte
		b[at] = nd.U8("any")
		nd.Assume(b[at] > 0x20 && b[at] != 0x85 && b[at] != 0xa0)
		u, want = scte35.NewSegmentationUPID(0xf, append([]byte{}, b...)), b
	case 1:
		want = []byte(nd.Text("t", n, "print"))
		at := pick("at", 0, n/2, n-1)
		want[at] = nd.U8("any")
		u = scte35.NewSegmentationUPID(0xc, append([]byte{}, want...))
	default:
		want = []byte(nd.Text("t", n, "print"))
		at := pick("at", 0, n/2, n-1)
		want[at] = nd.U8("any")
		u = scte35.NewSegmentationUPID(6, append([]byte{}, want...))
	}
	for i, x := range want {
		if x-0x20 >= 0x5f {
			want[i] = '.'
		}
	}
	nd.Assert(u.ASCIIValue() == string(want), "ASCII value of a UPID")
	nd.Reach("end")
}

// RepeatTwice: two operations in between, on a section with every sort of parts.
func RepeatTwice() {
	s := tabledRich(2)
	a, err := s.Encode()
	must(err, "encode succeeds")
	first := append([]byte{}, a...)
	op := func(k int) {
		switch k {
		case 0:
			_ = s.Table("", "\t")
		case 1:
			_, _ = json.Marshal(s)
		case 2:
			_, _ = xml.Marshal(s)
		case 3:
			_, _ = s.Encode()
		default:
			_ = s.Base64()
			_ = s.Duration()
		}
	}
	op(nd.Choice("one", 5))
	op(nd.Choice("two", 5))
	b, err := s.Encode()
	must(err, "encode succeeds again")
	nd.Assert(len(b) == len(first), "length of the encoding after two other operations")
	eqBytes(b, first, "encoding after two other operations")
	nd.Reach("end")
}

// TruncatedRich: a section with every sort of parts which is cut off anywhere is
// reported.
func TruncatedRich()     { truncatedRich(false) }
func KindTruncatedRich() { truncatedRich(true) }

func truncatedRich(kinds bool) {
	s := rich(nd.Choice("rich", 3), nd.Choice("order", size(1, 3)))
	l := refLayout(s, anyReserved)
	l.noCRC = true
	b := l.build()
	b = b[:14+nd.Choice("keep", len(b)-14)]
	rejectsAs(b, "a truncated section is reported", scte35.ErrBufferOverflow, kinds)
	nd.Reach("end")
}

// RichParts: a command or descriptor among many which has lost bytes at its end or
// has some left over is reported.
func RichParts()     { richParts(false) }
func KindRichParts() { richParts(true) }

func richParts(kinds bool) {
	s := rich(nd.Choice("rich", 3), nd.Choice("order", size(1, 3)))
	l := refLayout(s, anyReserved)
	longer := nd.Choice("longer", 2) == 1
	change := func(b []byte, least int) []byte {
		if longer {
			return append(b, nd.Bytes("extra", 1+nd.Choice("extra.n", size(3, 8)))...)
		}
		return b[:least+nd.Choice("keep", len(b)-least)]
	}
	if part := nd.Choice("part", 1+len(s.SpliceDescriptors)); part == 0 {
		l.cmd = change(l.cmd, 0)
	} else {
		l.descs = nil
		for i, d := range s.SpliceDescriptors {
			tag, body := refDescBody(d, anyReserved)
			if i == part-1 {
				n := len(body)
				body = change(body, 4)
				switch x := d.(type) {
				case *scte35.PrivateDescriptor:
					nd.Assume(false) // may be of any length
				case *scte35.SegmentationDescriptor: // sub-segment fields may be there or not
					sub := x.SubSegmentNum != nil
					nd.Assume(longer || !sub || n-len(body) != 2 && (!kinds || n-len(body) != 1))
					nd.Assume(!longer || sub || len(body)-n != 2 || !subSegType(x.SegmentationTypeID))
				}
			}
			l.descs = append(l.descs, descOf(tag, body)...)
		}
	}
	if longer {
		rejectsAs(l.build(), "bytes left over among many parts are reported", scte35.ErrBufferUnderflow, kinds)
	} else {
		rejectsAs(l.build(), "a part cut short among many is reported", scte35.ErrBufferOverflow, kinds)
	}
	nd.Reach("end")
}

// tabled is a descriptor of a kind with values a table shows in one way only.
func tabled(k int) scte35.SpliceDescriptor {
	d := oneDesc(k)
	switch x := d.(type) {
	case *scte35.PrivateDescriptor:
		x.Identifier = printID("pd.id")
		nd.Assume(x.Identifier != scte35.CUEIdentifier)
	case *scte35.DTMFDescriptor:
		x.Preroll = 123
	case *scte35.SegmentationDescriptor:
		x.SegmentationTypeID = 0x10
		x.DeliveryRestrictions.DeviceRestrictions = 2
	}
	return d
}

// TableSection: the table of a section with several descriptors shows them all, in
// order, after the command.
func TableSection() {
	k := nd.Choice("cmd", nCmd)
	c := oneCmd(k)
	var times []int
	switch x := c.(type) {
	case *scte35.PrivateCommand:
		x.Identifier = printID("pc.id")
	case *scte35.SpliceSchedule:
		x.Events[0].Program.UTCSpliceTime = scte35.NewUTCSpliceTime(someTimes[2])
		times = []int{2}
	}
	i, j := nd.Choice("desc", nDesc), nd.Choice("desc2", nDesc)
	nd.Assume(nd.Tier() > 0 || k == kTime || k == kNull || i == j)
	s := plain(c, tabled(i), tabled(j), tabled((i+j)%nDesc))
	r := &rows{}
	r.head(s, "No encryption")
	r.cmd(c, times)
	n := 0
	for _, d := range s.SpliceDescriptors {
		n += len(refDesc(d, nil))
	}
	r.num("descriptor_loop_length", uint64(n))
	for _, d := range s.SpliceDescriptors {
		r.desc(d, segName(0x10), "12.30")
	}
	r.check(s)
}

// TableValues: every segmentation type, UPID type and preroll in a table.
func TableValues() {
	var d scte35.SpliceDescriptor
	preroll := ""
	v := uint32(nd.Choice("value", 256))
	switch nd.Choice("what", 3) {
	case 0:
		d = &scte35.SegmentationDescriptor{SegmentationTypeID: v}
		d.(*scte35.SegmentationDescriptor).SegmentNum = uint32(nd.U8("num"))
	case 1:
		nd.Assume(textUPIDType(v))
		d = &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{{Type: v, Format: "text", Value: "ab"}}}
		v = 0
	default:
		preroll = fmt.Sprintf("%d.%d0", v/10, v%10)
		d = &scte35.DTMFDescriptor{Preroll: v, DTMFChars: "12"}
	}
	s := plain(oneCmd(kNull), d)
	r := &rows{}
	r.head(s, "No encryption")
	r.cmd(s.SpliceCommand, nil)
	r.num("descriptor_loop_length", uint64(len(refDesc(d, nil))))
	r.desc(d, segName(v), preroll)
	r.check(s)
}

// IsolationRich: a malformed descriptor anywhere among descriptors of every kind
// does not keep them from being decoded.
func IsolationRich() {
	bad := badDesc()
	s := richOne()
	at := nd.Choice("at", len(s.SpliceDescriptors)+1)
	l := refLayout(s, nil)
	l.descs = nil
	for i, d := range s.SpliceDescriptors {
		if i == at {
			l.descs = append(l.descs, bad...)
		}
		l.descs = append(l.descs, refDesc(d, nil)...)
	}
	if at == len(s.SpliceDescriptors) {
		l.descs = append(l.descs, bad...)
	}
	d := rejects(l.build(), "a malformed descriptor is reported")
	eqCmd(s.SpliceCommand, d.SpliceCommand)
	nd.Assert(len(d.SpliceDescriptors) == len(s.SpliceDescriptors)+1, "every descriptor is listed")
	for i, x := range s.SpliceDescriptors {
		if i >= at {
			i++
		}
		eqDesc(x, d.SpliceDescriptors[i])
	}
	nd.Reach("end")
}

// CLIDecodeRich: decode of a section with every sort of parts, as a document.
func CLIDecodeRich() {
	s := richOne()
	form := 2 + nd.Choice("form", 2)
	b := refLayout(s, nil).build()
	text := base64.StdEncoding.EncodeToString(b)
	if nd.Choice("text", 2) == 1 {
		text = "0x" + hex.EncodeToString(b)
	}
	out, msg, err := cli("", decodeArgs(text, form)...)
	must(err, "decode of a section succeeds")
	d := &scte35.SpliceInfoSection{}
	must(d.Decode(b), "reference decode")
	nd.Assert(msg == "", "decode of a section reports no error")
	nd.Assert(out == rendered(d, form), "decode prints the section in the format asked for")
	nd.Reach("end")
}

// tabledRich is a rich section whose table is a single one, but for the numbers.
func tabledRich(order int) *scte35.SpliceInfoSection {
	s := rich(nd.Choice("rich", 3), order)
	for _, d := range s.SpliceDescriptors { // tables make a case for each name
		switch x := d.(type) {
		case *scte35.PrivateDescriptor:
			x.Identifier = 0x41424344
		case *scte35.DTMFDescriptor:
			x.Preroll = 123
		case *scte35.SegmentationDescriptor:
			x.SegmentationTypeID = 0x34
			x.SegmentationUPIDs = []scte35.SegmentationUPID{{Type: 9, Format: "text", Value: "ab"}, {Type: 8, Format: "text", Value: "12"}}
			x.DeliveryRestrictions = nil
			x.SegmentationEventIDComplianceIndicator = true
		case *scte35.AudioDescriptor:
			x.AudioChannels = x.AudioChannels[:1]
			x.AudioChannels[0].FullSrvcAudio = true
		}
	}
	if c, ok := s.SpliceCommand.(*scte35.SpliceSchedule); ok {
		c.Events = c.Events[:1]
		if c.Events[0].Program != nil {
			c.Events[0].Program.UTCSpliceTime = scte35.NewUTCSpliceTime(7)
		}
		if c.Events[0].BreakDuration != nil {
			c.Events[0].BreakDuration.AutoReturn = true
		}
	}
	return s
}

// tabledContent is content whose table is a single one, but for the numbers.
func tabledContent() *scte35.SpliceInfoSection {
	k := nd.Choice("content", nCmd+nDesc)
	if k >= nCmd {
		return plain(oneCmd(kTime), tabled(k-nCmd))
	}
	c := oneCmd(k)
	switch x := c.(type) {
	case *scte35.PrivateCommand:
		x.Identifier = printID("pc.id")
	case *scte35.SpliceSchedule:
		x.Events[0].Program.UTCSpliceTime = scte35.NewUTCSpliceTime(7)
	}
	return plain(c)
}
