package core

import (
	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("LayoutCommand", LayoutCommand)
	reg("LayoutDescriptor", LayoutDescriptor)
	reg("LayoutBig", LayoutBig)
	reg("LayoutHeader", LayoutHeader)
}

// LayoutCommand: the encoded section is, bit for bit, the one the SCTE 35
// tables prescribe.
func LayoutCommand() {
	laidOut(plain(genCmd(nd.Choice("cmd", nCmd), size(2, 3))))
}

func LayoutDescriptor() {
	laidOut(plain(genCmd(kNull, 0), genDesc(nd.Choice("desc", nDesc), size(1, 2))))
}

// LayoutBig: so are sections with large repeated parts.
func LayoutBig() {
	laidOut(big(nd.Choice("big", nBig), bigSize()))
}

// LayoutHeader: and the header.
func LayoutHeader() {
	laidOut(headed())
}

func laidOut(s *scte35.SpliceInfoSection) {
	b, err := s.Encode()
	must(err, "encode succeeds")
	l := refLayout(s, nil)
	l.noCRC = true
	want := l.build()
	nd.Assert(len(b) == len(want)+4, "section size")
	n := len(b) - 4
	if s.EncryptedPacket.EncryptionAlgorithm != 0 {
		n -= 4
		nd.Assert(be32(b[n:]) == refCRC(b[:n]), "E_CRC_32")
	}
	eqBytes(b[:n], want[:n], "section bytes")
	nd.Reach("end")
}
