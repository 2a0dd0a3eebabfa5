package core

import (
	"encoding/base64"
	"encoding/json"
	"encoding/xml"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("RTCommand", RTCommand)
	reg("RTDescriptor", RTDescriptor)
	reg("RTSegmentation", RTSegmentation)
	reg("RTUPID", RTUPID)
	reg("RTSection", RTSection)
	reg("RTBig", RTBig)
	reg("RTHeader", RTHeader)
	reg("JSONCommand", JSONCommand)
	reg("JSONDescriptor", JSONDescriptor)
	reg("XMLCommand", XMLCommand)
	reg("JSONHeader", JSONHeader)
	reg("JSONBig", JSONBig)
	reg("XMLBig", XMLBig)
	reg("XMLHeader", XMLHeader)
	reg("XMLDescriptor", XMLDescriptor)
}

func encDec(s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
	b, err := s.Encode()
	must(err, "encode succeeds")
	d := &scte35.SpliceInfoSection{}
	must(d.Decode(b), "decode of the encoded section succeeds")
	return d
}

// RTCommand: every command survives encode and decode.
func RTCommand() {
	s := plain(genCmd(nd.Choice("cmd", nCmd), size(2, 3)))
	d := encDec(s)
	eqSection(s, d)
	nd.Reach("end")
}

// RTDescriptor: every descriptor but the segmentation descriptor survives
// encode and decode.
func RTDescriptor() {
	k := nd.Choice("desc", nDesc)
	nd.Assume(k != kSeg)
	s := plain(&scte35.SpliceNull{}, genDesc(k, size(2, 4)))
	d := encDec(s)
	eqSection(s, d)
	nd.Reach("end")
}

// RTSegmentation: the structure of segmentation descriptors survives.
func RTSegmentation() {
	s := plain(&scte35.SpliceNull{}, genSeg(size(2, 4), false))
	d := encDec(s)
	eqSection(s, d)
	nd.Reach("end")
}

// genSegUPIDs is a segmentation descriptor with 1 to m UPIDs.
func genSegUPIDs(m, n int) *scte35.SegmentationDescriptor {
	d := &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("sd.id"), SegmentationEventIDComplianceIndicator: bit("sd.cf")}
	d.SegmentationUPIDs = genUPIDs(1+nd.Choice("sd.upids", m), n)
	d.SegmentationTypeID = uint32(nd.U8("sd.type"))
	d.SegmentNum = uint32(nd.U8("sd.num"))
	d.SegmentsExpected = uint32(nd.U8("sd.exp"))
	if nd.Choice("sd.sub", 2) == 1 {
		nd.Assume(subSegType(d.SegmentationTypeID))
		a, b := uint32(nd.U8("sd.subnum")), uint32(nd.U8("sd.subexp"))
		d.SubSegmentNum, d.SubSegmentsExpected = &a, &b
	}
	return d
}

// genUPIDs is m UPIDs: one of any kind, the others of any kind but TI and EIDR
// (whose reference bytes are remembered only once).
func genUPIDs(m, n int) (out []scte35.SegmentationUPID) {
	at := 0
	if m > 1 {
		at = nd.Choice("up.at", m)
	}
	for i := 0; i < m; i++ {
		if i == at {
			out = append(out, genUPID(nd.Choice("up.kind", nUPID), n))
		} else {
			k := uText
			if i&1 == 1 {
				k = uMPU
			}
			out = append(out, genUPID(k, 1))
		}
	}
	return
}

// RTUPID: UPIDs of every type, alone and in a MID, survive.
func RTUPID() {
	s := plain(&scte35.SpliceNull{}, genSegUPIDs(2, size(1, 3)))
	d := encDec(s)
	eqSection(s, d)
	nd.Reach("end")
}

// RTSection: any command with any two descriptors survives, in order.
func RTSection() {
	var s *scte35.SpliceInfoSection
	if nd.Tier() > 0 && nd.Choice("full", 2) == 1 {
		s = plain(genCmd(nd.Choice("cmd", nCmd), 1), genDesc(nd.Choice("desc", nDesc), 0))
	} else {
		s = plain(oneCmd(nd.Choice("cmd", nCmd)), oneDesc(nd.Choice("desc", nDesc)), oneDesc(nd.Choice("desc", nDesc)))
	}
	d := encDec(s)
	eqSection(s, d)
	nd.Reach("end")
}

// big is a section with one repeated part of a large size.
func big(k, n int) *scte35.SpliceInfoSection {
	s := plain(&scte35.SpliceNull{})
	switch k {
	case 0:
		s.SpliceCommand = &scte35.PrivateCommand{Identifier: nd.U32("pc.id"), PrivateBytes: nd.Bytes("pc.b", n)}
	case 1:
		if n > 251 {
			n = 251
		}
		d := &scte35.PrivateDescriptor{PrivateTag: uint32(nd.U8("pd.tag")), Identifier: nd.U32("pd.id"), PrivateBytes: nd.Bytes("pd.b", n)}
		nd.Assume(d.Identifier != scte35.CUEIdentifier)
		s.SpliceDescriptors = append(s.SpliceDescriptors, d)
	case 2:
		if n > 255 {
			n = 255
		}
		c := &scte35.SpliceInsert{SpliceEventID: nd.U32("si.id"), OutOfNetworkIndicator: bit("si.out")}
		for i := 0; i < n; i++ {
			e := scte35.SpliceInsertComponent{Tag: uint32(nd.U8("si.tag"))}
			if i%3 != 1 {
				e.SpliceTime = &scte35.SpliceTime{PTSTime: pts("si.cpts")}
			}
			c.Components = append(c.Components, e)
		}
		s.SpliceCommand = c
	case 3:
		if m := size(40, 200); n > m {
			n = m
		}
		c := &scte35.SpliceSchedule{}
		for i := 0; i < n; i++ {
			e := scte35.Event{SpliceEventID: nd.U32("ev.id"), EventIDComplianceFlag: bit("ev.cf"), UniqueProgramID: uint32(nd.U16("ev.upid"))}
			switch i % 3 {
			case 0:
				e.Program = &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(nd.U32("ev.utc"))}
			case 1:
				e.SpliceEventCancelIndicator, e.UniqueProgramID = true, 0
			case 2:
				e.Components = []scte35.EventComponent{{Tag: uint32(nd.U8("ev.tag")), UTCSpliceTime: scte35.NewUTCSpliceTime(nd.U32("ev.cutc"))}}
			}
			c.Events = append(c.Events, e)
		}
		s.SpliceCommand = c
	case 4: // segmentation components: at most 38 fit into a descriptor
		if n > 38 {
			n = 38
		}
		d := &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("sd.id")}
		for i := 0; i < n; i++ {
			d.Components = append(d.Components, scte35.SegmentationDescriptorComponent{Tag: uint32(nd.U8("sd.tag")), PTSOffset: nd.Bits("sd.off", 33)})
		}
		s.SpliceDescriptors = append(s.SpliceDescriptors, d)
	case 5: // one long text UPID
		if n > 239 {
			n = 239
		}
		d := &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("sd.id"), SegmentationTypeID: uint32(nd.U8("sd.type"))}
		d.SegmentationUPIDs = []scte35.SegmentationUPID{{Type: uint32(nd.U8("up.type")), Format: "text", Value: phrase("up.t", n)}}
		nd.Assume(textUPIDType(d.SegmentationUPIDs[0].Type))
		s.SpliceDescriptors = append(s.SpliceDescriptors, d)
	case 6: // many UPIDs in a MID
		d := &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("sd.id"), SegmentationTypeID: uint32(nd.U8("sd.type"))}
		m := n
		if m > 40 {
			m = 40
		}
		for i := 0; i < m; i++ {
			d.SegmentationUPIDs = append(d.SegmentationUPIDs, scte35.SegmentationUPID{Type: textTypes[i%len(textTypes)], Format: "text", Value: phrase("up.t", 1+i%3)})
		}
		s.SpliceDescriptors = append(s.SpliceDescriptors, d)
	case 7: // many descriptors
		for i := 0; i < n && i < 100; i++ {
			s.SpliceDescriptors = append(s.SpliceDescriptors, &scte35.AvailDescriptor{ProviderAvailID: nd.U32("av.id")})
			if i%4 == 3 {
				s.SpliceDescriptors = append(s.SpliceDescriptors, &scte35.TimeDescriptor{TAISeconds: nd.Bits("td.s", 48)})
			}
		}
	case 8: // audio channels: the count has 4 bits
		if n > 15 {
			n = 15
		}
		d := &scte35.AudioDescriptor{}
		for i := 0; i < n; i++ {
			d.AudioChannels = append(d.AudioChannels, scte35.AudioChannel{
				ComponentTag: uint32(nd.U8("ad.tag")), ISOCode: nd.Text("ad.iso", 3, "print"),
				BitStreamMode: uint32(nd.Bits("ad.bsm", 3)), NumChannels: uint32(nd.Bits("ad.nc", 4)), FullSrvcAudio: bit("ad.full")})
		}
		s.SpliceDescriptors = append(s.SpliceDescriptors, d)
	default:
		return rich(k-9, n)
	}
	return s
}

// textTypes are some UPID types of plain text.
var textTypes = []uint32{9, 3, 0xf, 1, 2, 4, 7, 0xb, 0xe, 0x10, 0xf0}

// rich is a section with several parts of every sort at once, in one of many
// fixed structures.
func rich(k, n int) *scte35.SpliceInfoSection {
	s := genHeader()
	ds := []scte35.SpliceDescriptor{
		richSeg(n, true), oneDesc(kAvail),
		&scte35.DTMFDescriptor{Preroll: uint32(nd.U8("dt.pre")), DTMFChars: nd.Text("dt.c", 7-n%3, "print")},
		oneDesc(kTimeDesc),
		&scte35.AudioDescriptor{AudioChannels: []scte35.AudioChannel{
			{ComponentTag: uint32(nd.U8("ad.tag")), ISOCode: nd.Text("ad.iso", 3, "print"), BitStreamMode: uint32(nd.Bits("ad.bsm", 3)), NumChannels: uint32(nd.Bits("ad.nc", 4)), FullSrvcAudio: bit("ad.full")},
			{ComponentTag: uint32(nd.U8("ad.tag")), ISOCode: nd.Text("ad.iso", 3, "print"), BitStreamMode: uint32(nd.Bits("ad.bsm", 3)), NumChannels: uint32(nd.Bits("ad.nc", 4)), FullSrvcAudio: bit("ad.full")},
		}},
		oneDesc(kPrivateDesc), richSeg(n+1, false),
	}
	for i := 0; i < n%len(ds); i++ { // in another order
		ds = append(ds[1:], ds[0])
	}
	s.SpliceDescriptors = ds
	auto := func() *scte35.BreakDuration {
		return &scte35.BreakDuration{AutoReturn: bit("br.auto"), Duration: nd.Bits("br.dur", 33)}
	}
	switch k {
	case 0:
		c := &scte35.SpliceInsert{SpliceEventID: nd.U32("si.id"), OutOfNetworkIndicator: bit("si.out"),
			UniqueProgramID: uint32(nd.U16("si.upid")), AvailNum: uint32(nd.U8("si.an")), AvailsExpected: uint32(nd.U8("si.ae"))}
		if n%2 == 0 {
			c.BreakDuration = auto()
		}
		for i := 0; i < 4; i++ {
			e := scte35.SpliceInsertComponent{Tag: uint32(nd.U8("si.tag"))}
			if i != n%3 {
				e.SpliceTime = &scte35.SpliceTime{PTSTime: pts("si.cpts")}
			}
			c.Components = append(c.Components, e)
		}
		s.SpliceCommand = c
	case 1:
		c := &scte35.SpliceSchedule{}
		for i := 0; i < 5; i++ {
			e := scte35.Event{SpliceEventID: nd.U32("ev.id"), EventIDComplianceFlag: bit("ev.cf")}
			if i == n%4 {
				e.SpliceEventCancelIndicator = true
				c.Events = append(c.Events, e)
				continue
			}
			e.OutOfNetworkIndicator, e.UniqueProgramID, e.AvailNum, e.AvailsExpected = bit("ev.out"), uint32(nd.U16("ev.upid")), uint32(nd.U8("ev.an")), uint32(nd.U8("ev.ae"))
			if i%3 == 0 {
				e.BreakDuration = auto()
			}
			if i%2 == 0 {
				e.Program = &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(nd.U32("ev.utc"))}
			} else {
				for j := 0; j < 3; j++ {
					e.Components = append(e.Components, scte35.EventComponent{Tag: uint32(nd.U8("ev.tag")), UTCSpliceTime: scte35.NewUTCSpliceTime(nd.U32("ev.cutc"))})
				}
			}
			c.Events = append(c.Events, e)
		}
		s.SpliceCommand = c
	default:
		s.SpliceCommand = oneCmd(kTime)
	}
	return s
}

// richSeg is a segmentation descriptor with every optional part, or the others.
func richSeg(n int, all bool) *scte35.SegmentationDescriptor {
	d := &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("sd.id"), SegmentationEventIDComplianceIndicator: bit("sd.cf"),
		SegmentNum: uint32(nd.U8("sd.num")), SegmentsExpected: uint32(nd.U8("sd.exp"))}
	if n%2 == 0 {
		d.DeliveryRestrictions = &scte35.DeliveryRestrictions{
			ArchiveAllowedFlag: bit("sd.arch"), WebDeliveryAllowedFlag: bit("sd.web"),
			NoRegionalBlackoutFlag: bit("sd.nrb"), DeviceRestrictions: uint32(nd.Bits("sd.dev", 2))}
	}
	if all != (n%4 == 3) {
		v := nd.Bits("sd.dur", 40)
		d.SegmentationDuration = &v
	}
	for i := n % 4; i > 0; i-- {
		d.Components = append(d.Components, scte35.SegmentationDescriptorComponent{Tag: uint32(nd.U8("sd.tag")), PTSOffset: nd.Bits("sd.off", 33)})
	}
	if !all {
		d.SegmentationTypeID = []uint32{0x10, 0, 0x22, 0x35, 0x40, 0x51, 0xff}[n%7] // none with sub-segments
		d.SegmentationUPIDs = []scte35.SegmentationUPID{{Type: textTypes[n%len(textTypes)], Format: "text", Value: phrase("up.t", 12)}}
		return d
	}
	d.SegmentationTypeID = []uint32{0x30, 0x32, 0x34, 0x36, 0x38, 0x3a, 0x44, 0x46}[n%8]
	a, b := uint32(nd.U8("sd.subnum")), uint32(nd.U8("sd.subexp"))
	d.SubSegmentNum, d.SubSegmentsExpected = &a, &b
	b64 := func(n int) string { return base64.StdEncoding.EncodeToString(nd.Bytes("up.b", n)) }
	us := []scte35.SegmentationUPID{
		{Type: 0xc, Format: "base-64", FormatIdentifier: u32p(nd.U32("up.fi")), Value: b64(5)},
		{Type: 0xf, Format: "text", Value: phrase("up.t", 20)},
		genUPID(uEIDR, 0),
		{Type: 3, Format: "text", Value: phrase("up.t", 12)},
		genUPID(uTI, 0),
		{Type: 6, Format: "base-64", Value: b64(12)},
		{Type: 0xc, Format: "base-64", FormatIdentifier: u32p(nd.U32("up.fi")), Value: b64(9)},
	}
	for i := 0; i < n%len(us); i++ {
		us = append(us[1:], us[0])
	}
	d.SegmentationUPIDs = us
	return d
}

// Kinds of big sections; the first nPlain have one sort of parts.
const (
	nPlain = 9
	nBig   = 12
)

func bigSize() int {
	if nd.Tier() > 0 {
		return []int{7, 31, 64, 130, 255, 600}[nd.Choice("big.n", 6)]
	}
	return []int{7, 40, 255}[nd.Choice("big.n", 3)]
}

// RTBig: sections with large repeated parts survive.
func RTBig() {
	s := big(nd.Choice("big", nBig), bigSize())
	eqSection(s, encDec(s))
	nd.Reach("end")
}

// RTHeader: the header fields survive, for every command and with or without
// encryption.
func RTHeader() {
	s := genHeader()
	if nd.Choice("crypt", 2) == 1 {
		s.EncryptedPacket.EncryptionAlgorithm = uint32(nd.Bits("h.alg", 6))
		nd.Assume(s.EncryptedPacket.EncryptionAlgorithm != 0)
	}
	s.SpliceCommand = genCmd(nd.Choice("cmd", nCmd), size(0, 1))
	if nd.Choice("desc", 2) == 1 {
		s.SpliceDescriptors = append(s.SpliceDescriptors, genDesc(kAvail, 0))
	}
	d := encDec(s)
	eqSection(s, d)
	nd.Assert(d.EncryptedPacketFlag() == s.EncryptedPacketFlag(), "encrypted_packet_flag")
	nd.Reach("end")
}

func viaJSON(s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
	b, err := json.Marshal(s)
	must(err, "json.Marshal succeeds")
	nd.ObserveS("json", string(b))
	d := &scte35.SpliceInfoSection{}
	must(json.Unmarshal(b, d), "json.Unmarshal succeeds")
	return d
}

func viaXML(s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
	b, err := xml.Marshal(s)
	must(err, "xml.Marshal succeeds")
	nd.ObserveS("xml", string(b))
	d := &scte35.SpliceInfoSection{}
	must(xml.Unmarshal(b, d), "xml.Unmarshal succeeds")
	return d
}

func JSONCommand() {
	s := plain(genCmd(nd.Choice("cmd", nCmd), size(2, 3)))
	eqSection(s, viaJSON(s))
	nd.Reach("end")
}

func JSONDescriptor() {
	s := plain(&scte35.SpliceNull{}, genDesc(nd.Choice("desc", nDesc), size(2, 3)))
	eqSection(s, viaJSON(s))
	nd.Reach("end")
}

// headed is a section with arbitrary header fields.
func headed() *scte35.SpliceInfoSection {
	s := genHeader()
	s.EncryptedPacket.EncryptionAlgorithm = uint32(nd.Bits("h.alg", 6))
	s.SpliceCommand = oneCmd(nd.Choice("cmd", nCmd))
	if nd.Choice("desc", 2) == 1 {
		s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc(kAvail), oneDesc(kTimeDesc))
	}
	return s
}

// JSONHeader: the header fields survive as well.
func JSONHeader() {
	s := headed()
	eqSection(s, viaJSON(s))
	nd.Reach("end")
}

// XMLHeader: the header fields survive as well.
func XMLHeader() {
	s := headed()
	eqSection(s, viaXML(s))
	nd.Reach("end")
}

// JSONBig and XMLBig: sections with large repeated parts survive.
func JSONBig() {
	s := big(nd.Choice("big", nBig), bigSize())
	eqSection(s, viaJSON(s))
	nd.Reach("end")
}

func XMLBig() {
	s := big(nd.Choice("big", nBig), bigSize())
	eqSection(s, viaXML(s))
	nd.Reach("end")
}

func XMLCommand() {
	s := plain(genCmd(nd.Choice("cmd", nCmd), size(2, 3)))
	eqSection(s, viaXML(s))
	nd.Reach("end")
}

func XMLDescriptor() {
	s := plain(&scte35.SpliceNull{}, genDesc(nd.Choice("desc", nDesc), size(2, 3)))
	eqSection(s, viaXML(s))
	nd.Reach("end")
}
