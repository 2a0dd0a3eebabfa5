package core

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"errors"
	"strconv"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("EntryPoints", EntryPoints)
	reg("EntryBad", EntryBad)
	reg("EntryErrors", EntryErrors)
	reg("Repeatable", Repeatable)
	reg("RepeatableUPID", RepeatableUPID)
	reg("RepeatableBig", RepeatableBig)
	reg("NoAliasInput", NoAliasInput)
	reg("NoAliasOutput", NoAliasOutput)
	reg("Reuse", Reuse)
	reg("ReuseDoc", ReuseDoc)
	reg("BytesText", BytesText)
	reg("Independent", Independent)
	reg("IndependentDoc", IndependentDoc)
	reg("Respelt", Respelt)
	reg("RespeltRich", RespeltRich)
	reg("Constructors", Constructors)
}

// content is one of the sections used where the structure matters little: any
// command alone or any descriptor with a time_signal.
func content() *scte35.SpliceInfoSection {
	k := nd.Choice("content", nCmd+nDesc)
	if k < nCmd {
		return plain(oneCmd(k))
	}
	return plain(oneCmd(kTime), oneDesc(k-nCmd))
}

// EntryPoints: base64 and hexadecimal text, the latter in either case and with
// or without 0x, decodes like the bytes it stands for.
func EntryPoints() {
	s := genHeader()
	s.SpliceCommand = oneCmd(nd.Choice("cmd", nCmd))
	b := refLayout(s, nil).build()
	var d *scte35.SpliceInfoSection
	var err error
	switch nd.Choice("form", 4) {
	case 0:
		d, err = scte35.DecodeBase64(base64.StdEncoding.EncodeToString(b))
	case 1:
		d, err = scte35.DecodeHex(hex.EncodeToString(b))
	case 2:
		d, err = scte35.DecodeHex("0x" + hex.EncodeToString(b))
	default:
		d, err = scte35.DecodeHex("0x" + hexUp(b))
	}
	must(err, "decode of the text of a section succeeds")
	eqSection(s, d)
	nd.Reach("end")
}

// EntryBad: text which is not base64 or hexadecimal is reported as such, and the
// result is never nil.
func EntryBad() {
	n := 1 + nd.Choice("n", size(3, 5))
	t := []byte(nd.Text("t", n, "print"))
	if nd.Choice("form", 2) == 0 {
		bad := n%4 != 0
		if !bad {
			bad = !b64char(t[0])
			nd.Assume(bad)
		}
		d, err := scte35.DecodeBase64(string(t))
		nd.Assert(d != nil, "the result is never nil")
		nd.Assert(errors.Is(err, scte35.ErrUnsupportedEncoding), "text which is not base64 is reported")
	} else {
		at := nd.Choice("at", n)
		if n%2 == 0 {
			nd.Assume(!hexchar(t[at]))
			nd.Assume(n < 2 || t[0] != '0' || t[1] != 'x')
		}
		d, err := scte35.DecodeHex(string(t))
		nd.Assert(d != nil, "the result is never nil")
		nd.Assert(errors.Is(err, scte35.ErrUnsupportedEncoding), "text which is not hexadecimal is reported")
	}
	nd.Reach("end")
}

func b64char(c byte) bool { return nd.InClass(c, "alnum") || c == '+' || c == '/' }
func hexchar(c byte) bool { return c-'0' < 10 || c-'A' < 6 || c-'a' < 6 }

// EntryErrors: what is wrong with the section is reported through the text entry
// points just the same, with whatever was decoded.
func EntryErrors() {
	s := literal(nd.Choice("cmd", nCmd))
	l := refLayout(s, nil)
	b := l.build()
	at := nd.Choice("at", len(b)) // one byte differs
	b[at] ^= nd.U8("x")
	want := &scte35.SpliceInfoSection{}
	werr := want.Decode(append([]byte{}, b...))
	var d *scte35.SpliceInfoSection
	var err error
	if nd.Choice("form", 2) == 0 {
		d, err = scte35.DecodeBase64(base64.StdEncoding.EncodeToString(b))
	} else {
		d, err = scte35.DecodeHex(hex.EncodeToString(b))
	}
	nd.Assert(d != nil, "the result is never nil")
	nd.Assert((err == nil) == (werr == nil), "the text of a section is accepted when the section is")
	for _, e := range []error{scte35.ErrCRC32Invalid, scte35.ErrBufferOverflow, scte35.ErrUnsupportedEncoding} {
		nd.Assert(errors.Is(err, e) == errors.Is(werr, e), "the error is that of the section")
	}
	nd.Reach("end")
}

// Repeatable: encoding, rendering and marshalling have no effect on the section:
// whatever comes in between, the encoding stays the same.
func Repeatable() {
	repeat(content())
}

// RepeatableBig: also for sections with large repeated parts.
func RepeatableBig() {
	repeat(big(nd.Choice("big", nPlain), size(9, 40)))
}

func RepeatableUPID() {
	var u scte35.SegmentationUPID
	switch nd.Choice("kind", 4) {
	case 0:
		t := uint32(nd.U8("up.type"))
		nd.Assume(textUPIDType(t))
		u = scte35.SegmentationUPID{Type: t, Format: "text", Value: phrase("up.t", 4)}
	case 1:
		u = scte35.SegmentationUPID{Type: 0xc, Format: "base-64", FormatIdentifier: u32p(nd.U32("up.fi")),
			Value: base64.StdEncoding.EncodeToString(nd.Bytes("up.b", 2))}
	case 2:
		u = scte35.SegmentationUPID{Type: 8, Format: "text", Value: strconv.FormatUint(0x1234567800000000|uint64(nd.U16("up.ti")), 10)}
	default:
		b := append([]byte{0x14, 0x78, 0xF8, 0x5A, 0xE1, 0x00, 0xB0, 0x68, 0x5B}, nd.Bytes("up.b", 3)...)
		u = scte35.SegmentationUPID{Type: 0xa, Format: "text", Value: eidrText(b)}
	}
	repeat(plain(oneCmd(kTime), &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{u, {Type: 9, Format: "text", Value: "ad"}}}))
}

func repeat(s *scte35.SpliceInfoSection) {
	a, err := s.Encode()
	must(err, "encode succeeds")
	first := append([]byte{}, a...)
	switch nd.Choice("between", 7) {
	case 0:
		_, _ = s.Encode()
	case 1:
		_ = s.Table("", "\t")
	case 2:
		_, _ = json.Marshal(s)
	case 3:
		_, _ = xml.Marshal(s)
	case 4:
		_ = s.Base64()
	case 5:
		_ = s.Hex()
	default:
		_ = s.Duration()
		_ = s.SAPTypeName()
		for _, d := range s.SpliceDescriptors {
			if x, ok := d.(*scte35.SegmentationDescriptor); ok {
				_ = x.Name()
				_ = x.SegmentationUpidLength()
				for i := range x.SegmentationUPIDs {
					_ = x.SegmentationUPIDs[i].Name()
					_ = x.SegmentationUPIDs[i].ASCIIValue()
				}
			}
		}
	}
	b, err := s.Encode()
	must(err, "encode succeeds again")
	eqBytes(b, first, "encoding after another operation")
	nd.Reach("end")
}

// NoAliasInput: what was decoded does not change with the buffer it was decoded
// from, and decoding does not change the buffer.
func NoAliasInput() {
	s := content()
	l := refLayout(s, nil)
	l.stuffing = nd.Bytes("stuff", nd.Choice("stuff.n", 2)*3)
	b := l.build()
	orig := append([]byte{}, b...)
	d := &scte35.SpliceInfoSection{}
	must(d.Decode(b), "decode succeeds")
	eqBytes(b, orig, "decoded buffer")
	x := nd.U8("scribble")
	for i := range b {
		b[i] ^= x
	}
	eqSection(s, d)
	o, err := d.Encode()
	must(err, "encode succeeds")
	n := len(o) - 4
	eqBytes(o[:n], orig[:n], "encoding after the buffer was reused")
	nd.Reach("end")
}

// NoAliasOutput: an encoding does not change with the section or with later
// encodings, nor the section with the encoding.
func NoAliasOutput() {
	s := content()
	a, err := s.Encode()
	must(err, "encode succeeds")
	first := append([]byte{}, a...)
	x := nd.U8("scribble")
	for i := range a {
		a[i] ^= x
	}
	b, err := s.Encode()
	must(err, "encode succeeds again")
	eqBytes(b, first, "encoding after the previous one was overwritten")
	s.Tier ^= uint32(nd.Bits("tier", 12))
	s.SpliceCommand = &scte35.SpliceNull{}
	s.SpliceDescriptors = nil
	_, _ = s.Encode()
	eqBytes(b, first, "encoding after the section changed")
	nd.Reach("end")
}

// Reuse: decoding into a section which already holds another gives what decoding
// into a new one gives.
func Reuse() {
	s, t := content(), plain(oneCmd(nd.Choice("cmd2", nCmd)))
	if nd.Choice("desc2", 2) == 1 {
		t.SpliceDescriptors = append(t.SpliceDescriptors, oneDesc(kAvail))
	}
	t.ProtocolVersion, t.SAPType, t.PTSAdjustment, t.Tier = uint32(nd.U8("pv2")), uint32(nd.Bits("sap2", 2)), nd.Bits("adj2", 33), uint32(nd.Bits("tier2", 12))
	l := refLayout(s, nil)
	l.stuffing = nd.Bytes("stuff", nd.Choice("stuff.n", 2)*3)
	d := &scte35.SpliceInfoSection{}
	first := l.build()
	if nd.Choice("first", 2) == 1 {
		first[len(first)-1] ^= 0x55 // its CRC_32 is wrong
		nd.Assert(d.Decode(first) != nil, "decode of a corrupted section fails")
	} else {
		must(d.Decode(first), "decode succeeds")
	}
	second := refLayout(t, nil).build()
	must(d.Decode(second), "decode into a used section succeeds")
	eqSection(t, d)
	o, err := d.Encode()
	must(err, "encode succeeds")
	n := len(second) - 4
	nd.Assert(len(o) == len(second), "encoded size after reuse")
	eqBytes(o[:n], second[:n], "encoding after reuse")
	nd.Reach("end")
}

// ReuseDoc: reading a document into a section which already holds another gives
// what reading it into a new one gives.
func ReuseDoc() {
	s, t := content(), plain(oneCmd(nd.Choice("cmd2", nCmd)))
	t.ProtocolVersion, t.SAPType, t.PTSAdjustment, t.Tier = uint32(nd.U8("pv2")), uint32(nd.Bits("sap2", 2)), nd.Bits("adj2", 33), uint32(nd.Bits("tier2", 12))
	if nd.Choice("form", 2) == 0 {
		b, err := json.Marshal(t)
		must(err, "marshal succeeds")
		must(json.Unmarshal(b, s), "unmarshal into a used section succeeds")
	} else {
		b, err := xml.Marshal(t)
		must(err, "marshal succeeds")
		must(xml.Unmarshal(b, s), "unmarshal into a used section succeeds")
	}
	eqSection(t, s)
	nd.Reach("end")
}

// BytesText: Bytes are hexadecimal text and back.
func BytesText() {
	b := scte35.Bytes(nd.Bytes("b", nd.Choice("n", size(6, 17))))
	t, err := b.MarshalText()
	must(err, "marshal succeeds")
	nd.Assert(string(t) == hex.EncodeToString(b), "text of Bytes")
	var c scte35.Bytes
	must(c.UnmarshalText(t), "unmarshal succeeds")
	eqBytes(c, b, "Bytes through text")
	nd.Reach("end")
}

// scribble changes everything a section points to, in place.
func scribble(d *scte35.SpliceInfoSection) { scribbleBy(d, nd.U8("scribble")|1) }

func scribbleBy(d *scte35.SpliceInfoSection, x uint8) {
	u, w := uint32(x), uint64(x)
	d.Tier ^= u
	d.PTSAdjustment ^= w
	d.EncryptedPacket.CWIndex ^= u
	tm := func(t *scte35.SpliceTime) {
		if t != nil && t.PTSTime != nil {
			*t.PTSTime ^= w
		}
	}
	br := func(b *scte35.BreakDuration) {
		if b != nil {
			b.Duration ^= w
			b.AutoReturn = !b.AutoReturn
		}
	}
	switch c := d.SpliceCommand.(type) {
	case *scte35.TimeSignal:
		tm(&c.SpliceTime)
	case *scte35.PrivateCommand:
		c.Identifier ^= u
		for i := range c.PrivateBytes {
			c.PrivateBytes[i] ^= x
		}
	case *scte35.SpliceInsert:
		c.SpliceEventID ^= u
		c.UniqueProgramID ^= u
		if c.Program != nil {
			tm(&c.Program.SpliceTime)
		}
		for i := range c.Components {
			c.Components[i].Tag ^= u
			tm(c.Components[i].SpliceTime)
		}
		br(c.BreakDuration)
	case *scte35.SpliceSchedule:
		for i := range c.Events {
			e := &c.Events[i]
			e.SpliceEventID ^= u
			if e.Program != nil {
				e.Program.UTCSpliceTime = scte35.NewUTCSpliceTime(7)
			}
			for j := range e.Components {
				e.Components[j].Tag ^= u
			}
			br(e.BreakDuration)
		}
	}
	for _, sd := range d.SpliceDescriptors {
		switch c := sd.(type) {
		case *scte35.AvailDescriptor:
			c.ProviderAvailID ^= u
		case *scte35.DTMFDescriptor:
			c.Preroll ^= u
		case *scte35.TimeDescriptor:
			c.TAISeconds ^= w
		case *scte35.AudioDescriptor:
			for i := range c.AudioChannels {
				c.AudioChannels[i].ComponentTag ^= u
			}
		case *scte35.PrivateDescriptor:
			for i := range c.PrivateBytes {
				c.PrivateBytes[i] ^= x
			}
		case *scte35.SegmentationDescriptor:
			c.SegmentationEventID ^= u
			if c.SegmentationDuration != nil {
				*c.SegmentationDuration ^= w
			}
			if c.DeliveryRestrictions != nil {
				c.DeliveryRestrictions.DeviceRestrictions ^= 1
			}
			if c.SubSegmentNum != nil {
				*c.SubSegmentNum ^= u
			}
			for i := range c.Components {
				c.Components[i].Tag ^= u
			}
			for i := range c.SegmentationUPIDs {
				c.SegmentationUPIDs[i].Value = "other"
				if f := c.SegmentationUPIDs[i].FormatIdentifier; f != nil {
					*f ^= u
				}
			}
		}
	}
	for i := range d.SpliceDescriptors {
		d.SpliceDescriptors[i] = &scte35.AvailDescriptor{}
	}
}

// Independent: what is done with one section has no effect on another, whether
// both come from the same bytes or from different ones.
func Independent() {
	s := content()
	a := refLayout(s, nil).build()
	b := append([]byte{}, a...)
	if nd.Choice("other", 2) == 1 {
		b = refLayout(content(), nil).build()
	}
	d, e := &scte35.SpliceInfoSection{}, &scte35.SpliceInfoSection{}
	must(d.Decode(a), "decode succeeds")
	must(e.Decode(b), "decode of another section succeeds")
	_, err := e.Encode()
	must(err, "encode of another section succeeds")
	scribble(e)
	_, _ = e.Encode()
	eqSection(s, d)
	o, err := d.Encode()
	must(err, "encode succeeds")
	nd.Assert(len(o) == len(a), "length of the encoding after another section was changed")
	eqBytes(o[:len(o)-4], a[:len(a)-4], "encoding after another section was changed")
	f := &scte35.SpliceInfoSection{}
	must(f.Decode(a), "decode succeeds again")
	eqSection(s, f)
	nd.Reach("end")
}

// IndependentDoc: sections read from documents have nothing in common either.
func IndependentDoc() {
	s := content()
	read := func(t *scte35.SpliceInfoSection, form int) *scte35.SpliceInfoSection {
		d := &scte35.SpliceInfoSection{}
		if form == 0 {
			b, err := json.Marshal(t)
			must(err, "a section has a JSON form")
			must(json.Unmarshal(b, d), "the JSON form is read")
		} else {
			b, err := xml.Marshal(t)
			must(err, "a section has an XML form")
			must(xml.Unmarshal(b, d), "the XML form is read")
		}
		return d
	}
	form := nd.Choice("form", 2)
	d, e := read(s, form), read(s, form)
	eqSection(s, d)
	scribble(e)
	eqSection(s, d)
	e = read(d, 1-form) // nor does it share anything with what it was written from
	scribble(e)
	eqSection(s, d)
	nd.Reach("end")
}

// Constructors: commands, descriptors and times are made as asked for and are
// all different ones.
func Constructors() {
	switch nd.Choice("what", 4) {
	case 0:
		t, x := nd.Bits("time", 33), nd.U8("scribble")|1
		a, b := scte35.NewTimeSignal(t), scte35.NewTimeSignal(t)
		nd.Assert(a.SpliceTime.PTSTime != nil && b.SpliceTime.PTSTime != nil, "NewTimeSignal has a time")
		*b.SpliceTime.PTSTime ^= uint64(x)
		nd.Assert(*a.SpliceTime.PTSTime == t, "NewTimeSignal has the time asked for")
		eqSection(plain(&scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: &t}}), plain(a))
	case 1:
		t, x := nd.Bits("time", 33), nd.U8("scribble")|1
		a, b := scte35.NewSpliceInsertProgram(t), scte35.NewSpliceInsertProgram(t)
		nd.Assert(a.TimeSpecifiedFlag() && b.TimeSpecifiedFlag(), "NewSpliceInsertProgram has a time")
		*b.SpliceTime.PTSTime ^= uint64(x)
		nd.Assert(*a.SpliceTime.PTSTime == t, "NewSpliceInsertProgram has the time asked for")
	case 2:
		k := nd.U32("type")
		c := scte35.NewSpliceCommand(k)
		switch x := c.(type) {
		case *scte35.SpliceNull:
			nd.Assert(k == 0, "NewSpliceCommand of splice_null")
		case *scte35.SpliceSchedule:
			nd.Assert(k == 4, "NewSpliceCommand of splice_schedule")
			nd.Assert(len(x.Events) == 0, "NewSpliceCommand makes an empty splice_schedule")
		case *scte35.SpliceInsert:
			nd.Assert(k == 5, "NewSpliceCommand of splice_insert")
			eqCmd(&scte35.SpliceInsert{}, x)
		case *scte35.TimeSignal:
			nd.Assert(k == 6, "NewSpliceCommand of time_signal")
			nd.Assert(x.SpliceTime.PTSTime == nil, "NewSpliceCommand makes an empty time_signal")
		case *scte35.BandwidthReservation:
			nd.Assert(k == 7, "NewSpliceCommand of bandwidth_reservation")
		case *scte35.PrivateCommand:
			nd.Assert(k != 0 && (k < 4 || k > 7), "NewSpliceCommand of private_command")
			nd.Assert(len(x.PrivateBytes) == 0, "NewSpliceCommand makes an empty private_command")
			k = 0xff
		default:
			nd.Assert(false, "NewSpliceCommand gives a command")
		}
		nd.Assert(c.Type() == k, "a command has the type it was made for")
		nd.Assert(c != scte35.NewSpliceCommand(k), "NewSpliceCommand makes a new command")
	default:
		id, k := nd.U32("id"), nd.U32("tag")
		c := scte35.NewSpliceDescriptor(id, k)
		known := id == 0x43554549
		switch x := c.(type) {
		case *scte35.AvailDescriptor:
			nd.Assert(known && k == 0, "NewSpliceDescriptor of avail_descriptor")
		case *scte35.DTMFDescriptor:
			nd.Assert(known && k == 1, "NewSpliceDescriptor of DTMF_descriptor")
		case *scte35.SegmentationDescriptor:
			nd.Assert(known && k == 2, "NewSpliceDescriptor of segmentation_descriptor")
		case *scte35.TimeDescriptor:
			nd.Assert(known && k == 3, "NewSpliceDescriptor of time_descriptor")
		case *scte35.AudioDescriptor:
			nd.Assert(known && k == 4, "NewSpliceDescriptor of audio_descriptor")
		case *scte35.PrivateDescriptor:
			nd.Assert(!known || k > 4, "NewSpliceDescriptor of private_descriptor")
			nd.Assert(x.Identifier == id, "a private_descriptor has the identifier asked for")
			k = 0
		default:
			nd.Assert(false, "NewSpliceDescriptor gives a descriptor")
		}
		nd.Assert(c.Tag() == k, "a descriptor has the tag it was made for")
		nd.Assert(c != scte35.NewSpliceDescriptor(id, k), "NewSpliceDescriptor makes a new descriptor")
	}
	nd.Reach("end")
}

// Respelt: the order of members and attributes and those of other programs do not
// change what a document says.
func Respelt()     { respelt(content()) }
func RespeltRich() { respelt(rich(nd.Choice("rich", 3), nd.Choice("order", size(2, 7)))) }

func respelt(s *scte35.SpliceInfoSection) {
	how := nd.Choice("how", nd.Spellings)
	d := &scte35.SpliceInfoSection{}
	if how == nd.JSONReversed || how == nd.JSONExtended {
		b, err := json.Marshal(s)
		must(err, "a section has a JSON form")
		must(json.Unmarshal(nd.Respell(b, how), d), "a JSON document written in another way is read")
	} else {
		b, err := xml.Marshal(s)
		must(err, "a section has an XML form")
		must(xml.Unmarshal(nd.Respell(b, how), d), "an XML document written in another way is read")
	}
	eqSection(s, d)
	nd.Reach("end")
}
