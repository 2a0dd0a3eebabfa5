package core

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"errors"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("DecodeCommand", DecodeCommand)
	reg("DecodeDescriptor", DecodeDescriptor)
	reg("DecodeSegmentation", DecodeSegmentation)
	reg("DecodeUPID", DecodeUPID)
	reg("DecodeBig", DecodeBig)
	reg("DecodeHeader", DecodeHeader)
	reg("CanonicalCommand", CanonicalCommand)
	reg("CanonicalDescriptor", CanonicalDescriptor)
	reg("CanonicalSegmentation", CanonicalSegmentation)
	reg("CanonicalUPID", CanonicalUPID)
	reg("CanonicalStuffing", CanonicalStuffing)
	reg("CanonicalBig", CanonicalBig)
	reg("LegacyBig", LegacyBig)
	reg("CRCEmitted", CRCEmitted)
	reg("CRCAccept", CRCAccept)
	reg("CRCBurst", CRCBurst)
	reg("CRCBurstBody", CRCBurstBody)
	reg("CRCShort", CRCShort)
	reg("LegacyLength", LegacyLength)
	reg("TruncatedCommand", TruncatedCommand)
	reg("KindTruncatedCommand", KindTruncatedCommand)
	reg("ExtendedCommand", ExtendedCommand)
	reg("KindExtendedCommand", KindExtendedCommand)
	reg("TruncatedDescriptor", TruncatedDescriptor)
	reg("KindTruncatedDescriptor", KindTruncatedDescriptor)
	reg("ExtendedDescriptor", ExtendedDescriptor)
	reg("KindExtendedDescriptor", KindExtendedDescriptor)
	reg("TruncatedSection", TruncatedSection)
	reg("KindTruncatedSection", KindTruncatedSection)
	reg("LengthOverrun", LengthOverrun)
	reg("DescriptorOverrun", DescriptorOverrun)
	reg("CountOverrun", CountOverrun)
	reg("DescriptorIsolation", DescriptorIsolation)
	reg("UnknownDescriptor", UnknownDescriptor)
	reg("Reserved", Reserved)
}

// decodes asserts that b decodes without an error, to s.
func decodesTo(b []byte, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
	d := &scte35.SpliceInfoSection{}
	must(d.Decode(b), "decode of a well-formed section succeeds")
	eqSection(s, d)
	return d
}

func genOther(n int) scte35.SpliceDescriptor {
	k := nd.Choice("desc", nDesc)
	nd.Assume(k != kSeg)
	return genDesc(k, n)
}

// Decode*: a section laid out by the reference encoder, reserved bits
// arbitrary, decodes to the values it was made from.

func DecodeCommand() {
	s := plain(genCmd(nd.Choice("cmd", nCmd), size(1, 2)))
	decodesTo(refLayout(s, anyReserved).build(), s)
	nd.Reach("end")
}

func DecodeDescriptor() {
	s := plain(&scte35.SpliceNull{}, genOther(size(2, 4)))
	decodesTo(refLayout(s, anyReserved).build(), s)
	nd.Reach("end")
}

func DecodeSegmentation() {
	s := plain(&scte35.SpliceNull{}, genSeg(size(2, 3), false))
	decodesTo(refLayout(s, anyReserved).build(), s)
	nd.Reach("end")
}

func DecodeUPID() {
	s := plain(&scte35.SpliceNull{}, genSegUPIDs(size(1, 2), size(1, 2)))
	decodesTo(refLayout(s, anyReserved).build(), s)
	nd.Reach("end")
}

func DecodeBig() {
	s := big(nd.Choice("big", nBig), bigSize())
	decodesTo(refLayout(s, anyReserved).build(), s)
	nd.Reach("end")
}

func DecodeHeader() {
	s := genHeader()
	if nd.Choice("crypt", 2) == 1 {
		s.EncryptedPacket.EncryptionAlgorithm = uint32(nd.Bits("h.alg", 6))
		nd.Assume(s.EncryptedPacket.EncryptionAlgorithm != 0)
	}
	s.SpliceCommand = oneCmd(nd.Choice("cmd", nCmd))
	if nd.Choice("desc", 2) == 1 {
		s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc(kAvail))
	}
	decodesTo(refLayout(s, anyReserved).build(), s)
	nd.Reach("end")
}

func be32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// canonical asserts that decoding b and encoding the result gives b.
func canonical(b []byte) {
	d := &scte35.SpliceInfoSection{}
	must(d.Decode(b), "decode of a canonical section succeeds")
	o, err := d.Encode()
	must(err, "encode of a decoded section succeeds")
	nd.Assert(len(o) == len(b), "re-encoded size")
	n := len(o) - 4
	nd.Assert(be32(o[n:]) == refCRC(o[:n]), "re-encoded CRC_32") // and so that of b
	if d.EncryptedPacketFlag() {
		n -= 4
		nd.Assert(be32(o[n:]) == refCRC(o[:n]), "re-encoded E_CRC_32")
	}
	eqBytes(o[:n], b[:n], "re-encoded bytes")
	nd.Assert(d.Base64() == base64.StdEncoding.EncodeToString(o), "Base64 form")
	nd.Assert(d.Hex() == hex.EncodeToString(o), "Hex form")
	nd.Reach("end")
}

func CanonicalCommand() {
	canonical(refLayout(plain(genCmd(nd.Choice("cmd", nCmd), size(1, 2))), nil).build())
}

func CanonicalDescriptor() {
	canonical(refLayout(plain(&scte35.SpliceNull{}, genOther(size(1, 3))), nil).build())
}

func CanonicalSegmentation() {
	canonical(refLayout(plain(&scte35.SpliceNull{}, genSeg(size(1, 2), false)), nil).build())
}

func CanonicalUPID() {
	canonical(refLayout(plain(&scte35.SpliceNull{}, genSegUPIDs(size(1, 2), size(1, 2))), nil).build())
}

func CanonicalBig() {
	canonical(refLayout(big(nd.Choice("big", nBig), bigSize()), nil).build())
}

// CanonicalStuffing: alignment stuffing is kept.
func CanonicalStuffing() {
	s := genHeader()
	if nd.Choice("crypt", 2) == 1 {
		s.EncryptedPacket.EncryptionAlgorithm = uint32(nd.Bits("h.alg", 6))
		nd.Assume(s.EncryptedPacket.EncryptionAlgorithm != 0)
	}
	n := []int{0, 1, 3, 4, 40, 2, 5, 8, 400}[nd.Choice("stuff.n", size(5, 9))]
	if k := nd.Choice("content", nCmd+nDesc); k < nCmd {
		s.SpliceCommand = oneCmd(k)
	} else {
		s.SpliceCommand = oneCmd(kTime)
		s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc(k-nCmd))
	}
	l := refLayout(s, nil)
	l.stuffing = nd.Bytes("stuff", n)
	canonical(l.build())
}

// CRCEmitted: the last four bytes Encode emits are the MPEG-2 CRC_32 of the
// bytes before.
func CRCEmitted() {
	var s *scte35.SpliceInfoSection
	if nd.Choice("big", 2) == 1 {
		if k := nd.Choice("which", nBig+1); k < nBig {
			s = big(k, size(20, 255))
		} else {
			s = long(nd.Choice("long", 3))
		}
	} else {
		s = genHeader()
		s.EncryptedPacket.EncryptionAlgorithm = uint32(nd.Bits("h.alg", 6))
		s.SpliceCommand = oneCmd(nd.Choice("cmd", nCmd))
		for i := nd.Choice("descs", 2); i > 0; i-- {
			s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc(nd.Choice("desc", nDesc)))
		}
	}
	b, err := s.Encode()
	must(err, "encode succeeds")
	n := len(b) - 4
	nd.Assert(be32(b[n:]) == refCRC(b[:n]), "CRC_32 of the encoded section")
	nd.Reach("end")
}

// long is a section of 1000 to 4000 bytes, most of them literal.
func long(k int) *scte35.SpliceInfoSection {
	s := genHeader()
	b := make([]byte, []int{1005, 2050, 3990}[k])
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	copy(b[len(b)-3:], nd.Bytes("long.b", 3))
	s.SpliceCommand = &scte35.PrivateCommand{Identifier: nd.U32("long.id"), PrivateBytes: b}
	if nd.Choice("long.desc", 2) == 1 {
		s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc(kAvail))
	}
	return s
}

// CRCAccept: a section is accepted exactly when its CRC_32 is right; otherwise
// the error says so and the content is decoded all the same.
func CRCAccept() {
	s := genHeader()
	if k := nd.Choice("cmd", nCmd+3); k < nCmd {
		s.SpliceCommand = oneCmd(k)
		for i := nd.Choice("descs", 2); i > 0; i-- {
			s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc(nd.Choice("desc", nDesc)))
		}
	} else {
		s = long(k - nCmd)
	}
	l := refLayout(s, nil)
	l.noCRC = true
	b := l.build()
	good := refCRC(b)
	x := nd.U32("crc.error")
	c := good ^ x
	b = append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
	d := &scte35.SpliceInfoSection{}
	err := d.Decode(b)
	nd.Assert((err == nil) == (x == 0), "accepted exactly when the CRC_32 is right")
	if err != nil {
		nd.Assert(errors.Is(err, scte35.ErrCRC32Invalid), "the error is ErrCRC32Invalid")
		nd.Reach("rejected")
	} else {
		nd.Reach("accepted")
	}
	eqSection(s, d)
	o, err := d.Encode()
	must(err, "encode after a CRC error succeeds")
	nd.Assert(len(o) == len(b), "encoded size after a CRC error")
	eqBytes(o[:len(o)-4], b[:len(b)-4], "encoded bytes after a CRC error")
}

// Sections with literal values, so that a corrupted length field makes the
// decoder read literal bytes as other structures.
func literal(k int) *scte35.SpliceInfoSection {
	pts, dur := uint64(0x12345678A), uint64(0x0A5A5A5)
	s := &scte35.SpliceInfoSection{SAPType: 3, Tier: 0xFFF, PTSAdjustment: 0x1FEDCBA98}
	switch k {
	case 0:
		s.SpliceCommand = &scte35.SpliceNull{}
	case 1:
		s.SpliceCommand = &scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: &pts}}
		s.SpliceDescriptors = scte35.SpliceDescriptors{
			&scte35.SegmentationDescriptor{SegmentationEventID: 0x4800008F, SegmentationTypeID: 0x36, SegmentNum: 1, SegmentsExpected: 2, SegmentationDuration: &dur,
				DeliveryRestrictions: &scte35.DeliveryRestrictions{DeviceRestrictions: 3}},
			&scte35.AvailDescriptor{ProviderAvailID: 0x12345678},
		}
	case 2:
		s.SpliceCommand = &scte35.SpliceInsert{SpliceEventID: 0x4800008F, OutOfNetworkIndicator: true, UniqueProgramID: 0x55AA, AvailNum: 1, AvailsExpected: 2,
			Program: &scte35.SpliceInsertProgram{SpliceTime: scte35.SpliceTime{PTSTime: &pts}}, BreakDuration: &scte35.BreakDuration{AutoReturn: true, Duration: dur}}
		s.SpliceDescriptors = scte35.SpliceDescriptors{&scte35.TimeDescriptor{TAISeconds: 0x123456789ABC, TAINS: 0xDEF01234, UTCOffset: 37}}
	case 3:
		s.SpliceCommand = &scte35.PrivateCommand{Identifier: 0x41424344, PrivateBytes: []byte{1, 2, 3, 250, 0, 0, 9}}
		s.SpliceDescriptors = scte35.SpliceDescriptors{&scte35.DTMFDescriptor{Preroll: 50, DTMFChars: "121*"}}
	default:
		s.SpliceCommand = &scte35.BandwidthReservation{}
		s.EncryptedPacket.EncryptionAlgorithm = 1
		s.SpliceDescriptors = scte35.SpliceDescriptors{&scte35.AvailDescriptor{ProviderAvailID: 7}, &scte35.PrivateDescriptor{PrivateTag: 0x80, Identifier: 0x41424344, PrivateBytes: []byte{4, 5}}}
	}
	return s
}

// CRCBurst: a corruption confined to 32 consecutive bits of a section is never
// accepted silently.
func CRCBurst() {
	k := nd.Choice("section", size(2, 5))
	b := refLayout(literal(k), nil).build()
	lo := 0
	if k > 0 && nd.Tier() == 0 {
		lo = 14 // after the fields before the command
	}
	bad := corrupt(b, lo, len(b)-4)
	d := &scte35.SpliceInfoSection{}
	if d.Decode(append([]byte{}, bad...)) == nil {
		nd.Assert(equal(bad, b), "a corrupted section is not accepted")
	}
	nd.Reach("end")
}

// corrupt replaces 32 consecutive bits which start in bytes lo to hi-1.
func corrupt(b []byte, lo, hi int) []byte {
	at, sh := lo+nd.Choice("at", hi-lo), uint(nd.Choice("shift", size(1, 8)))
	m := uint64(0xffffffff00) >> sh // 40 bit window
	bad := append([]byte{}, b...)
	for i := 0; i < 5 && at+i < len(b); i++ {
		if k := byte(m >> (32 - 8*uint(i))); k != 0 {
			bad[at+i] = b[at+i]&^k | nd.U8("burst"+string(rune('0'+i)))&k
		}
	}
	return bad
}

func equal(a, b []byte) bool {
	same := true
	for i := range a {
		same = same && a[i] == b[i]
	}
	return same
}

// CRCBurstBody: the same for sections of symbolic content, corrupted in bytes
// which do not tell lengths or types.
func CRCBurstBody() {
	s := genHeader()
	n := size(8, 24)
	s.SpliceCommand = &scte35.PrivateCommand{Identifier: nd.U32("pc.id"), PrivateBytes: nd.Bytes("pc.b", n)}
	b := refLayout(s, nil).build()
	var bad []byte
	if nd.Choice("where", 2) == 0 {
		bad = corrupt(b, 5, 6) // pts_adjustment
	} else {
		bad = corrupt(b, 14, 14+n)
	}
	d := &scte35.SpliceInfoSection{}
	if d.Decode(append([]byte{}, bad...)) == nil {
		nd.Assert(equal(bad, b), "a corrupted section is not accepted")
	}
	nd.Reach("end")
}

// CRCShort: nothing shorter than a section is accepted.
func CRCShort() {
	b := nd.Bytes("b", nd.Choice("n", 20))
	d := &scte35.SpliceInfoSection{}
	nd.Assert(d.Decode(b) != nil, "less than a whole section is not accepted")
	nd.Reach("end")
}

// LegacyLength: splice_command_length 0xFFF decodes as the explicit length.
func LegacyLength() {
	s := genHeader()
	k := nd.Choice("cmd", nCmd)
	nd.Assume(k != kPrivate) // its length cannot be told from its content
	s.SpliceCommand = genCmd(k, size(1, 2))
	for i := nd.Choice("descs", 3); i > 0; i-- {
		s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc(kAvail))
	}
	l := refLayout(s, nil)
	l.legacy = true
	decodesTo(l.build(), s)
	nd.Reach("end")
}

// LegacyBig: so do long commands and commands before many descriptors.
func LegacyBig() {
	k := nd.Choice("big", nBig)
	nd.Assume(k != 0)
	s := big(k, bigSize())
	l := refLayout(s, nil)
	l.legacy = true
	decodesTo(l.build(), s)
	nd.Reach("end")
}

// rejects asserts that b does not decode without an error, and returns what was
// decoded.
func rejects(b []byte, what string) *scte35.SpliceInfoSection {
	d := &scte35.SpliceInfoSection{}
	nd.Assert(d.Decode(b) != nil, what)
	return d
}

// rejectsAs asserts that decoding b fails and, when kinds is set, that it fails
// with the error want.
func rejectsAs(b []byte, what string, want error, kinds bool) {
	err := (&scte35.SpliceInfoSection{}).Decode(b)
	nd.Assert(err != nil, what)
	if kinds {
		for _, e := range []error{scte35.ErrBufferOverflow, scte35.ErrBufferUnderflow, scte35.ErrCRC32Invalid, scte35.ErrUnsupportedEncoding} {
			nd.Assert(errors.Is(err, e) == (e == want), what+" with the right error")
		}
	}
}

// TruncatedCommand: a command payload which lost bytes at its end is reported.
func TruncatedCommand()     { truncatedCommand(false) }
func KindTruncatedCommand() { truncatedCommand(true) }

func truncatedCommand(kinds bool) {
	k := nd.Choice("cmd", nCmd)
	s := plain(genCmd(k, size(1, 2)))
	l := refLayout(s, anyReserved)
	n := len(l.cmd)
	if k == kPrivate {
		n = 4 // any payload of 4 bytes or more is a private_command
	}
	nd.Assume(n > 0)
	l.cmd = l.cmd[:nd.Choice("keep", n)]
	rejectsAs(l.build(), "a truncated splice_command is reported", scte35.ErrBufferOverflow, kinds)
	nd.Reach("end")
}

// ExtendedCommand: bytes past the end of a command are reported.
func ExtendedCommand()     { extendedCommand(false) }
func KindExtendedCommand() { extendedCommand(true) }

func extendedCommand(kinds bool) {
	k := nd.Choice("cmd", nCmd)
	nd.Assume(k != kPrivate)
	s := plain(genCmd(k, size(1, 2)))
	l := refLayout(s, anyReserved)
	l.cmd = append(l.cmd, nd.Bytes("extra", 1+nd.Choice("extra.n", size(2, 4)))...)
	rejectsAs(l.build(), "bytes past the end of a splice_command are reported", scte35.ErrBufferUnderflow, kinds)
	nd.Reach("end")
}

// cutDesc gives a descriptor body another length.
func descOf(tag uint64, body []byte) []byte {
	w := &bits{}
	w.put(8, tag)
	w.put(8, uint64(len(body)))
	w.bytes(body)
	return w.b
}

func TruncatedDescriptor()     { truncatedDescriptor(false) }
func KindTruncatedDescriptor() { truncatedDescriptor(true) }

func truncatedDescriptor(kinds bool) {
	var sd scte35.SpliceDescriptor
	k := nd.Choice("desc", nDesc)
	switch k {
	case kSeg:
		if nd.Choice("seg", 2) == 1 {
			sd = genSeg(size(1, 2), false)
		} else {
			sd = oneDesc(kSeg)
		}
	default:
		sd = genDesc(k, size(1, 2))
	}
	tag, body := refDescBody(sd, anyReserved)
	n := len(body)
	cut := nd.Choice("cut", n-4) + 1 // the identifier stays
	switch x := sd.(type) {
	case *scte35.PrivateDescriptor:
		nd.Assume(false) // any length is a private descriptor
	case *scte35.SegmentationDescriptor:
		// dropping both sub-segment fields leaves a valid descriptor
		nd.Assume(x.SubSegmentNum == nil || cut != 2)
		// one of them left over may be taken for either
		nd.Assume(x.SubSegmentNum == nil || cut != 1 || !kinds)
	}
	s := plain(&scte35.SpliceNull{})
	l := refLayout(s, nil)
	l.descs = append(descOf(tag, body[:n-cut]), refDesc(oneDesc(kAvail), nil)...)
	rejectsAs(l.build(), "a truncated splice_descriptor is reported", scte35.ErrBufferOverflow, kinds)
	nd.Reach("end")
}

func ExtendedDescriptor()     { extendedDescriptor(false) }
func KindExtendedDescriptor() { extendedDescriptor(true) }

func extendedDescriptor(kinds bool) {
	k := nd.Choice("desc", nDesc)
	nd.Assume(k != kPrivateDesc)
	var sd scte35.SpliceDescriptor
	if k == kSeg {
		sd = genSeg(size(1, 2), false)
	} else {
		sd = genDesc(k, size(1, 2))
	}
	tag, body := refDescBody(sd, anyReserved)
	n := 1 + nd.Choice("extra.n", size(2, 4))
	if x, ok := sd.(*scte35.SegmentationDescriptor); ok {
		// two bytes more may be the sub-segment fields
		nd.Assume(n != 2 || x.SubSegmentNum != nil || x.SegmentationEventCancelIndicator || !subSegType(x.SegmentationTypeID))
	}
	body = append(body, nd.Bytes("extra", n)...)
	l := refLayout(plain(&scte35.SpliceNull{}), nil)
	l.descs = append(descOf(tag, body), refDesc(oneDesc(kAvail), nil)...)
	rejectsAs(l.build(), "bytes past the end of a splice_descriptor are reported", scte35.ErrBufferUnderflow, kinds)
	nd.Reach("end")
}

// TruncatedSection: a section which lost bytes at its end is reported, even when
// the remaining bytes are followed by whatever CRC_32.
func TruncatedSection()     { truncatedSection(false) }
func KindTruncatedSection() { truncatedSection(true) }

func truncatedSection(kinds bool) {
	k := nd.Choice("cmd", nCmd)
	s := plain(oneCmd(k))
	n := nd.Choice("descs", 3)
	for i := 0; i < n; i++ {
		s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc(kAvail))
	}
	l := refLayout(s, anyReserved)
	l.noCRC = true
	b := l.build()
	keep := nd.Choice("keep", len(b))
	nd.Assume(keep > 13 || k == kNull && n == 0) // the rest is gone
	b = b[:keep]
	if !kinds && nd.Choice("tail", 2) == 1 {
		// bytes taken for counts make for hundreds of paths
		nd.Assume(nd.Tier() > 0 || k != kSchedule && k != kInsert && keep > 13)
		b = append(b, nd.Bytes("tail.b", 4)...) // whatever CRC_32
	}
	rejectsAs(b, "a truncated section is reported", scte35.ErrBufferOverflow, kinds)
	nd.Reach("end")
}

// LengthOverrun: length fields which claim more than there is are reported,
// whatever the CRC_32.
func LengthOverrun() {
	s := plain(oneCmd(nd.Choice("cmd", nCmd)))
	n := nd.Choice("descs", 3)
	for i := 0; i < n; i++ {
		s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc(kAvail))
	}
	l := refLayout(s, nil)
	l.noCRC = true
	switch nd.Choice("which", 2) {
	case 0: // splice_command_length past the end of the section
		v := nd.Bits("len", 12)
		nd.Assume(v != 0xfff && v > uint64(len(l.cmd)+2+len(l.descs)+4))
		l.cmdLen = &v
	default: // descriptor_loop_length past the end of the section
		v := nd.Bits("len", 16)
		nd.Assume(v > uint64(len(l.descs)))
		l.loopLen = &v
	}
	rejects(append(l.build(), nd.Bytes("crc", 4)...), "a length past the end is reported")
	nd.Reach("end")
}

// DescriptorOverrun: a descriptor_length past the end of the loop, whatever the
// descriptor and wherever it is.
func DescriptorOverrun() {
	k, n := nd.Choice("desc", nDesc), 1+nd.Choice("n", size(3, 4))
	at := nd.Choice("at", n)
	l := refLayout(plain(oneCmd(nd.Choice("cmd", size(1, nCmd)))), anyReserved)
	l.noCRC = true
	pos := 0
	for i := 0; i < n; i++ {
		if i == at {
			pos = len(l.descs) + 1
		}
		l.descs = append(l.descs, refDesc(oneDesc((k+i+nDesc-at)%nDesc), anyReserved)...)
	}
	v := nd.U8("len")
	nd.Assume(int(v) > len(l.descs)-pos-1)
	l.descs[pos] = v
	rejects(append(l.build(), nd.Bytes("crc", 4)...), "a descriptor_length past the end is reported")
	nd.Reach("end")
}

// CountOverrun: a count or length inside of a command or descriptor which needs more
// bytes than it has.
func CountOverrun() {
	s := plain(&scte35.SpliceNull{})
	var d scte35.SpliceDescriptor
	var at, unit int // offset of the count in the payload or descriptor; least size of an entry
	pad := 0         // bits of the byte below the count
	which := nd.Choice("which", 8)
	switch which {
	case 0: // component_count of splice_insert
		c := &scte35.SpliceInsert{SpliceEventID: nd.U32("id"), SpliceImmediateFlag: bit("imm")}
		c.Components = []scte35.SpliceInsertComponent{{Tag: uint32(nd.U8("tag"))}}
		s.SpliceCommand, at, unit = c, 6, 1
	case 1: // splice_count
		s.SpliceCommand, at, unit = oneCmd(kSchedule), 0, 5
	case 2: // component_count of an event
		c := oneCmd(kSchedule).(*scte35.SpliceSchedule)
		c.Events[0].Program = nil
		c.Events[0].Components = []scte35.EventComponent{{Tag: uint32(nd.U8("tag")), UTCSpliceTime: scte35.NewUTCSpliceTime(nd.U32("utc"))}}
		s.SpliceCommand, at, unit = c, 7, 5
	case 3: // segmentation_upid_length
		d, at, unit = oneDesc(kSeg), 18, 1
	case 4: // component_count of a segmentation_descriptor
		x := oneDesc(kSeg).(*scte35.SegmentationDescriptor)
		x.Components = []scte35.SegmentationDescriptorComponent{{Tag: uint32(nd.U8("tag")), PTSOffset: nd.Bits("off", 33)}}
		d, at, unit = x, 12, 6
	case 5: // dtmf_count
		d, at, unit, pad = oneDesc(kDTMF), 7, 1, 5
	case 6: // audio_count
		d, at, unit, pad = oneDesc(kAudio), 6, 5, 4
	default: // segmentation_upid_length of a list of UPIDs
		x := oneDesc(kSeg).(*scte35.SegmentationDescriptor)
		x.SegmentationUPIDs = append(x.SegmentationUPIDs, x.SegmentationUPIDs[0])
		d, at, unit = x, 18, 1
	}
	l := refLayout(s, anyReserved)
	l.noCRC = true
	b := l.cmd
	if d != nil {
		l.descs = refDesc(d, anyReserved)
		b = l.descs
	}
	v := uint64(nd.Bits("count", 8-pad))
	nd.Assume(v*uint64(unit) > uint64(len(b)-at-1))
	b[at] = byte(v<<uint(pad)) | b[at]&(1<<uint(pad)-1)
	if nd.Choice("more", 2) == 1 { // the next descriptor is not part of it
		l.descs = append(l.descs, refDesc(oneDesc(kPrivateDesc), anyReserved)...)
	}
	rejects(append(l.build(), nd.Bytes("crc", 4)...), "a count past the end is reported")
	nd.Reach("end")
}

// badDesc is a malformed descriptor.
func badDesc() []byte {
	switch nd.Choice("bad", 4) {
	case 0: // avail_descriptor without its provider_avail_id
		w := &bits{}
		w.put(32, cuei)
		w.bytes(nd.Bytes("bad.b", nd.Choice("bad.n", 4)))
		return descOf(0, w.b)
	case 1: // segmentation_descriptor cut short
		w := &bits{}
		w.put(32, cuei)
		w.bytes(nd.Bytes("bad.b", nd.Choice("bad.n", 4)))
		return descOf(2, w.b)
	case 2: // time_descriptor with too much
		w := &bits{}
		w.put(32, cuei)
		w.bytes(nd.Bytes("bad.b", 13))
		return descOf(3, w.b)
	default: // dtmf_descriptor whose count is wrong
		w := &bits{}
		w.put(32, cuei)
		w.put(8, uint64(nd.U8("bad.pre")))
		w.put(3, 5)
		w.reserved(5)
		w.bytes([]byte(nd.Text("bad.c", 2, "word")))
		return descOf(1, w.b)
	}
}

// DescriptorIsolation: a malformed descriptor is reported and does not keep the
// descriptors around it from being decoded.
func DescriptorIsolation() {
	bad := badDesc()
	c := oneCmd(nd.Choice("cmd", size(1, nCmd)))
	k := nd.Choice("desc", nDesc)
	a, b := oneDesc(k), oneDesc((k+nd.Choice("next", size(1, nDesc))+1)%nDesc)
	l := refLayout(plain(c), nil)
	at := nd.Choice("at", 3)
	for i := 0; i < 3; i++ {
		switch {
		case i == at:
			l.descs = append(l.descs, bad...)
		case i == 0 || i == 1 && at == 0:
			l.descs = append(l.descs, refDesc(a, nil)...)
		default:
			l.descs = append(l.descs, refDesc(b, nil)...)
		}
	}
	d := rejects(l.build(), "a malformed descriptor is reported")
	eqCmd(c, d.SpliceCommand)
	nd.Assert(len(d.SpliceDescriptors) == 3, "every descriptor is listed")
	var good []scte35.SpliceDescriptor
	for i, x := range d.SpliceDescriptors {
		if i != at {
			good = append(good, x)
		}
	}
	eqDesc(a, good[0])
	eqDesc(b, good[1])
	nd.Reach("end")
}

// UnknownDescriptor: descriptors of unknown identifier or tag decode as private
// descriptors, byte for byte.
func UnknownDescriptor() {
	tag, id := nd.U8("tag"), nd.U32("id")
	body := nd.Bytes("body", nd.Choice("n", size(6, 20)))
	nd.Assume(id != cuei || tag > 4)
	w := &bits{}
	w.u32(32, id)
	w.bytes(body)
	c := oneDesc(kAvail)
	l := refLayout(plain(&scte35.SpliceNull{}), nil)
	l.descs = append(append(refDesc(c, nil), descOf(uint64(tag), w.b)...), refDesc(c, nil)...)
	d := &scte35.SpliceInfoSection{}
	must(d.Decode(l.build()), "a section with unknown descriptors is decoded")
	nd.Assert(len(d.SpliceDescriptors) == 3, "every descriptor is listed")
	eqDesc(c, d.SpliceDescriptors[0])
	eqDesc(c, d.SpliceDescriptors[2])
	p, ok := d.SpliceDescriptors[1].(*scte35.PrivateDescriptor)
	nd.Assert(ok, "an unknown descriptor is a private descriptor")
	nd.Assert(p.Identifier == id && p.PrivateTag == uint32(tag), "identifier and tag of an unknown descriptor")
	eqBytes(p.PrivateBytes, body, "bytes of an unknown descriptor")
	nd.Reach("end")
}

// Reserved: a command of a reserved type decodes as a private_command.
func Reserved() {
	t := nd.U8("type")
	nd.Assume(t != 0 && t != 4 && t != 5 && t != 6 && t != 7)
	id := nd.U32("id")
	body := nd.Bytes("body", nd.Choice("n", size(6, 20)))
	w := &bits{}
	w.u32(32, id)
	w.bytes(body)
	l := refLayout(plain(&scte35.SpliceNull{}, oneDesc(kAvail)), nil)
	l.cmdType, l.cmd = uint64(t), w.b
	d := &scte35.SpliceInfoSection{}
	must(d.Decode(l.build()), "a section with a private or reserved command is decoded")
	p, ok := d.SpliceCommand.(*scte35.PrivateCommand)
	nd.Assert(ok, "it is a private_command")
	nd.Assert(p.Identifier == id, "private_command identifier")
	eqBytes(p.PrivateBytes, body, "private_command bytes")
	nd.Assert(len(d.SpliceDescriptors) == 1, "its descriptor is decoded")
	nd.Reach("end")
}

var _, _ = json.Marshal, xml.Marshal
