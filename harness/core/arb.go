package core

import (
	"encoding/json"
	"encoding/xml"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("ArbBytes", ArbBytes)
	reg("ArbCommand", ArbCommand)
	reg("ArbDescriptor", ArbDescriptor)
	reg("ArbDescriptors", ArbDescriptors)
	reg("ArbSegmentation", ArbSegmentation)
	reg("ArbUPID", ArbUPID)
	reg("UseBytes", UseBytes)
	reg("UseCommand", UseCommand)
	reg("UseDescriptor", UseDescriptor)
	reg("UseDescriptors", UseDescriptors)
	reg("UseSegmentation", UseSegmentation)
	reg("UseUPID", UseUPID)
	reg("ArbMID", ArbMID)
	reg("UseMID", UseMID)
}

// frame is a section around arbitrary command and descriptor bytes, with any
// CRC_32.
func frame(cmdType uint64, cmd, descs []byte, legacy bool) []byte {
	l := &layout{h: &scte35.SpliceInfoSection{SAPType: 3, Tier: 0xFFF}, cmdType: cmdType, cmd: cmd, descs: descs, legacy: legacy}
	b := l.build()
	copy(b[len(b)-4:], nd.Bytes("crc", 4)) // right or wrong
	return b
}

var cmdTypes = []uint64{0, 4, 5, 6, 7, 0xff, 3}
var legacyMax = []int{5, 5, 8, 8, 5, 8, 5}

// arbBytes is a buffer of arbitrary bytes.
func arbBytes() []byte {
	return nd.Bytes("b", nd.Choice("n", size(19, 26)))
}

// arbCommand is a section whose command has an arbitrary payload.
func arbCommand(max int, small bool) []byte {
	k := nd.Choice("type", len(cmdTypes))
	if !small && cmdTypes[k] == 4 {
		max = size(7, 14)
	}
	legacy := nd.Choice("legacy", 2) == 1
	if legacy && max > legacyMax[k] {
		max = legacyMax[k] // what is left over is a descriptor loop
	}
	b := nd.Bytes("b", nd.Choice("n", max+1))
	if !small && cmdTypes[k] == 4 && len(b) > 0 {
		nd.Assume(nd.Among(uint32(b[0]), "\x00\x01\x02\xff"))
	}
	if !small && cmdTypes[k] == 5 && len(b) > 6 {
		nd.Assume(nd.Or(nd.Among(uint32(b[6]), "\x00\x01\x02\xff"), nd.Or(b[5]&0x40 != 0, b[4] >= 0x80)))
	}
	if small {
		if cmdTypes[k] == 4 && len(b) > 0 {
			nd.Assume(b[0] <= 2)
		}
		if cmdTypes[k] == 5 && len(b) > 6 {
			nd.Assume(b[6] <= 2 || b[5]&0x40 != 0 || b[4] >= 0x80)
		}
	}
	return frame(cmdTypes[k], b, nil, legacy)
}

// smallCounts keeps the number of repeated parts in a decoded section small, so
// that using it takes few steps.
func smallCounts(d *scte35.SpliceInfoSection, max int, anyType bool) {
	switch c := d.SpliceCommand.(type) {
	case *scte35.SpliceSchedule:
		nd.Assume(len(c.Events) <= max)
		for i := range c.Events {
			nd.Assume(len(c.Events[i].Components) <= max)
		}
	case *scte35.SpliceInsert:
		nd.Assume(len(c.Components) <= max)
	}
	for _, x := range d.SpliceDescriptors {
		switch c := x.(type) {
		case *scte35.SegmentationDescriptor:
			nd.Assume(len(c.Components) <= max)
			nd.Assume(nd.Among(c.SegmentationTypeID, "\x00\x10\x34\xff")) // their names are another property's business
			for i := range c.SegmentationUPIDs {
				if anyType && len(c.SegmentationUPIDs) <= 2 {
					break
				}
				nd.Assume(nd.Among(c.SegmentationUPIDs[i].Type, "\x00\x03\x05\x08\x0a\x0c\x0d\x40"))
			}
		case *scte35.AudioDescriptor:
			nd.Assume(len(c.AudioChannels) <= max)
		}
	}
}

// plainNames keeps the number of different names in a table small; with anyType
// lists of up to two UPIDs are left alone.
func plainNames(d *scte35.SpliceInfoSection, anyType bool) {
	for _, x := range d.SpliceDescriptors {
		if c, ok := x.(*scte35.SegmentationDescriptor); ok {
			nd.Assume(nd.Among(c.SegmentationTypeID, "\x10"))
			if n := len(c.SegmentationUPIDs); n > 2 || n == 2 && !anyType {
				for i := range c.SegmentationUPIDs {
					nd.Assume(nd.Among(c.SegmentationUPIDs[i].Type, "\x03\x08"))
				}
			}
			if r := c.DeliveryRestrictions; r != nil {
				nd.Assume(r.DeviceRestrictions == 3)
			}
		}
	}
}

// plainText keeps all but the first byte of each text of a descriptor printable,
// so that there are not too many cases of escaping it in a document.
func plainText(d *scte35.SpliceInfoSection) {
	text := func(s string) {
		for i := 1; i < len(s); i++ {
			nd.Assume(nd.InClass(s[i], "word"))
		}
	}
	for _, x := range d.SpliceDescriptors {
		switch c := x.(type) {
		case *scte35.DTMFDescriptor:
			text(c.DTMFChars)
		case *scte35.AudioDescriptor:
			for i := range c.AudioChannels {
				text(c.AudioChannels[i].ISOCode)
			}
		}
	}
}

// use does everything there is to do with a decoded section.
func use(b []byte) { useUPIDs(b, false) }

func useUPIDs(b []byte, anyType bool) {
	d := &scte35.SpliceInfoSection{}
	err := d.Decode(b)
	smallCounts(d, 2, anyType)
	op := nd.Choice("op", 6)
	if op == 0 {
		plainNames(d, anyType)
	}
	if op == 1 || op == 2 {
		plainText(d)
	}
	switch op {
	case 0:
		_ = d.Table("", "\t")
	case 1:
		_, e := json.Marshal(d)
		nd.Assert(e == nil, "a decoded section has a JSON form")
	case 2:
		_, e := xml.Marshal(d)
		nd.Assert(e == nil || d.SpliceCommand == nil, "a decoded section has an XML form")
	case 3:
		o, e := d.Encode()
		nd.Assert(e == nil || err != nil, "what was decoded without an error can be encoded")
		_ = o
	case 4:
		_ = d.Base64()
		_ = d.Hex()
	default:
		_ = d.Duration()
		_ = d.SAPTypeName()
		for _, x := range d.SpliceDescriptors {
			if s, ok := x.(*scte35.SegmentationDescriptor); ok {
				_ = s.Name()
				_ = s.SegmentationUpidLength()
				for i := range s.SegmentationUPIDs {
					_ = s.SegmentationUPIDs[i].Name()
					_ = s.SegmentationUPIDs[i].ASCIIValue()
				}
			}
		}
	}
	nd.Reach("end")
}

func arb(b []byte) {
	d := &scte35.SpliceInfoSection{}
	_ = d.Decode(b)
	nd.Reach("end")
}

// arbDescriptor is a section with one descriptor of arbitrary payload.
func arbDescriptor(max int) []byte {
	tag := nd.Choice("tag", 6) // 5 is unknown
	n := nd.Choice("n", max+1)
	b := []byte{byte(tag), byte(n)}
	if nd.Choice("cuei", 2) == 1 && n >= 4 {
		b = append(b, "CUEI"...)
		b = append(b, nd.Bytes("b", n-4)...)
	} else {
		b = append(b, nd.Bytes("b", n)...)
	}
	return frame(0, nil, b, false)
}

// arbDescriptors is a section with an arbitrary descriptor loop.
func arbDescriptors(max int) []byte {
	return frame(0, nil, nd.Bytes("b", nd.Choice("n", max+1)), false)
}

// arbSegmentation is a section with a segmentation descriptor of arbitrary
// payload after the event id.
func arbSegmentation(max int) []byte {
	n := nd.Choice("n", max+1)
	b := append([]byte{2, byte(n + 8)}, "CUEI\x01\x02\x03\x04"...)
	return frame(0, nil, append(b, nd.Bytes("b", n)...), false)
}

// arbUPID is a section with a segmentation descriptor with a UPID of any type
// and content.
func arbUPID(max int) []byte {
	n := nd.Choice("n", max+4)
	t := nd.U8("type")
	free := n
	if n > max {
		free = max
		n = []int{9, 12, 13}[n-max-1] // for UPIDs of fixed length
		nd.Assume(!textUPIDType(uint32(t)))
		nd.Assume(t != 13)
	}
	b := append([]byte{2, byte(n + 15)}, "CUEI\x01\x02\x03\x04\x7f\xbf"...)
	b = append(b, t, byte(n))
	b = append(b, nd.Bytes("b", free)...)
	b = append(b, "8\x82\x00/ 1230123"[:n-free]...)
	return frame(0, nil, append(b, nd.U8("seg"), 1, 2), false)
}

// arbMID is a section with a segmentation descriptor with a MID of two UPIDs,
// one of which is of any type and content, its length field included.
func arbMID(max int) []byte {
	n := nd.Choice("n", max+1)
	x := append([]byte{nd.U8("type"), byte(n)}, nd.Bytes("b", n)...)
	if nd.Choice("length", 2) == 1 {
		x[1] = nd.U8("claimed")
	}
	if nd.Choice("last", 2) == 1 {
		x = append([]byte{3, 1, 'a'}, x...)
	} else {
		x = append(x, 3, 1, 'a')
	}
	b := append([]byte{2, byte(len(x) + 15)}, "CUEI\x01\x02\x03\x04\x7f\xbf\x0d"...)
	b = append(b, byte(len(x)))
	b = append(b, x...)
	return frame(0, nil, append(b, 0x10, 1, 2), false)
}

// Arb*: decoding arbitrary bytes ends and does not panic.
func ArbBytes()        { arb(arbBytes()) }
func ArbCommand()      { arb(arbCommand(size(10, 16), false)) }
func ArbDescriptor()   { arb(arbDescriptor(size(13, 20))) }
func ArbDescriptors()  { arb(arbDescriptors(size(8, 12))) }
func ArbSegmentation() { arb(arbSegmentation(size(8, 12))) }
func ArbUPID()         { arb(arbUPID(size(5, 7))) }
func ArbMID()          { arb(arbMID(size(3, 4))) }

// Use*: whatever decoding arbitrary bytes left, with or without an error, can be
// rendered, marshalled and encoded.
func UseBytes()        { use(arbBytes()) }
func UseCommand()      { use(arbCommand(size(8, 14), true)) }
func UseDescriptor()   { use(arbDescriptor(size(9, 12))) }
func UseDescriptors()  { use(arbDescriptors(size(7, 8))) }
func UseSegmentation() { use(arbSegmentation(size(6, 10))) }
func UseUPID()         { useUPIDs(arbUPID(size(2, 3)), true) }
func UseMID()          { useUPIDs(arbMID(size(1, 2)), true) }
