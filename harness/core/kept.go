package core

import (
	"encoding/base64"
	"encoding/hex"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("KeptTruncated", KeptTruncated)
	reg("KeptTruncatedRich", KeptTruncatedRich)
	reg("KeptFaulty", KeptFaulty)
	reg("KeptText", KeptText)
}

// decodeBad decodes a faulty section in any of the ways there are.
func decodeBad(b []byte, forms int) *scte35.SpliceInfoSection {
	var d *scte35.SpliceInfoSection
	var err error
	switch nd.Choice("form", forms) {
	case 0:
		d = &scte35.SpliceInfoSection{}
		err = d.Decode(b)
	case 1:
		d, err = scte35.DecodeBase64(base64.StdEncoding.EncodeToString(b))
	default:
		d, err = scte35.DecodeHex("0x" + hex.EncodeToString(b))
	}
	nd.Assert(err != nil, "a faulty section is reported")
	nd.Assert(d != nil, "a faulty section is returned")
	return d
}

// withHeader gives s any header.
func withHeader(s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
	h := genHeader()
	h.SpliceCommand, h.SpliceDescriptors = s.SpliceCommand, s.SpliceDescriptors
	return h
}

// KeptTruncated: what comes before the end of a section cut short is there.
func KeptTruncated() {
	s := content()
	if len(s.SpliceDescriptors) > 0 && nd.Choice("more", 2) == 1 {
		s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc(kAvail))
	}
	keptTruncated(withHeader(s), 3)
}

func KeptTruncatedRich() {
	keptTruncated(rich(nd.Choice("rich", 3), nd.Choice("order", size(1, 4))), 1)
}

func keptTruncated(s *scte35.SpliceInfoSection, forms int) {
	l := refLayout(s, nil)
	b := l.build()
	n := nd.Choice("keep", len(b))
	d := decodeBad(b[:n], forms)
	if n >= 2 {
		eqU(uint64(s.SAPType), uint64(d.SAPType), "sap_type before the end")
	}
	if n >= 4 {
		eqU(uint64(s.ProtocolVersion), uint64(d.ProtocolVersion), "protocol_version before the end")
	}
	if n >= 9 {
		eqU(s.PTSAdjustment, d.PTSAdjustment, "pts_adjustment before the end")
	}
	if n >= 12 {
		eqHeader(s, d)
	}
	at := 14 + len(l.cmd)
	if n < at {
		nd.Reach("command")
		return
	}
	eqCmd(s.SpliceCommand, d.SpliceCommand)
	at += 2
	for i, x := range s.SpliceDescriptors {
		at += len(refDesc(x, nil))
		if n < at {
			nd.Reach("descriptors")
			return
		}
		nd.Assert(i < len(d.SpliceDescriptors), "descriptors before the end")
		eqDesc(x, d.SpliceDescriptors[i])
	}
	nd.Reach("end")
}

// KeptFaulty: a wrong checksum spoils nothing, bytes left over in a command
// neither the header nor the command.
func KeptFaulty() {
	s := withHeader(content())
	l := refLayout(s, nil)
	if nd.Choice("fault", 2) == 0 {
		b := l.build()
		x := nd.U32("crc")
		nd.Assume(x != 0)
		for i := 0; i < 4; i++ {
			b[len(b)-1-i] ^= byte(x >> (8 * i))
		}
		eqSection(s, decodeBad(b, 3))
		nd.Reach("crc")
		return
	}
	if _, ok := s.SpliceCommand.(*scte35.PrivateCommand); ok {
		nd.Assume(false) // of any length
	}
	l.cmd = append(l.cmd, nd.Bytes("extra", 1+nd.Choice("extra.n", 3))...)
	d := decodeBad(l.build(), 3)
	eqHeader(s, d)
	eqCmd(s.SpliceCommand, d.SpliceCommand)
	nd.Reach("extra")
}

// KeptText: text which is no section gives an empty one.
func KeptText() {
	t := nd.Text("text", 1+nd.Choice("n", size(3, 5)), "print")
	d, err := scte35.DecodeHex(t)
	if nd.Choice("form", 2) == 1 {
		d, err = scte35.DecodeBase64(t)
	}
	nd.Assert(err != nil && d != nil, "a section is returned for any text")
	nd.Assert(len(d.SpliceDescriptors) == 0 && d.PTSAdjustment == 0 && d.Tier == 0, "which is empty")
	_ = d.Table("", "\t")
	nd.Reach("end")
}
