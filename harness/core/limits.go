package core

import (
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("Oversize", Oversize)
	reg("WideCommand", WideCommand)
	reg("WideDescriptor", WideDescriptor)
	reg("WideHeader", WideHeader)
	reg("LengthsTrue", LengthsTrue)
}

// fits reports whether every count and length of the section fits its field.
func fits(s *scte35.SpliceInfoSection) bool {
	ok := true
	switch c := s.SpliceCommand.(type) {
	case *scte35.SpliceInsert:
		ok = len(c.Components) <= 255
	case *scte35.SpliceSchedule:
		ok = len(c.Events) <= 255
		for i := range c.Events {
			ok = ok && len(c.Events[i].Components) <= 255
		}
	}
	for _, d := range s.SpliceDescriptors {
		switch x := d.(type) {
		case *scte35.DTMFDescriptor:
			ok = ok && len(x.DTMFChars) <= 7
		case *scte35.AudioDescriptor:
			ok = ok && len(x.AudioChannels) <= 15
		}
		_, body := refDescBody(d, nil)
		ok = ok && len(body) <= 255
	}
	l := refLayout(s, nil)
	n := 11 + len(l.cmd) + 2 + len(l.descs) + 4
	if s.EncryptedPacket.EncryptionAlgorithm != 0 {
		n += 4
	}
	return ok && n <= 0xfff
}

// filler is n bytes of which the last are arbitrary.
func filler(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i + i>>8)
	}
	k := 2
	if n < k {
		k = n
	}
	copy(b[n-k:], nd.Bytes(name, k))
	return b
}

func pick(name string, ns ...int) int { return ns[nd.Choice(name, len(ns))] }

// sized is a section with one part of a size at, below or above what fits.
func sized(k int) *scte35.SpliceInfoSection {
	s := genHeader()
	s.SpliceCommand = &scte35.SpliceNull{}
	switch k {
	case 0:
		n := pick("n", 0, 4069, 4070, 4071, 4073, 4074, 4075, 4096, 8170)
		s.SpliceCommand = &scte35.PrivateCommand{Identifier: nd.U32("pc.id"), PrivateBytes: filler("pc.b", n)}
		if nd.Choice("crypt", 2) == 1 {
			s.EncryptedPacket.EncryptionAlgorithm = uint32(nd.Bits("h.alg", 6))
			nd.Assume(s.EncryptedPacket.EncryptionAlgorithm != 0)
		}
	case 1:
		n := pick("n", 0, 250, 251, 252, 255, 256, 507, 600)
		d := &scte35.PrivateDescriptor{PrivateTag: uint32(nd.U8("pd.tag")), Identifier: nd.U32("pd.id"), PrivateBytes: filler("pd.b", n)}
		nd.Assume(d.Identifier != scte35.CUEIdentifier)
		s.SpliceDescriptors = scte35.SpliceDescriptors{oneDesc(kAvail), d, oneDesc(kAvail)}
	case 2:
		n := pick("n", 0, 1, 254, 255, 256, 257, 511)
		c := &scte35.SpliceInsert{SpliceEventID: nd.U32("si.id"), SpliceImmediateFlag: nd.Choice("imm", 2) == 1}
		for i := 0; i < n; i++ {
			e := scte35.SpliceInsertComponent{Tag: uint32(byte(i))}
			if !c.SpliceImmediateFlag && i%2 == 0 {
				t := uint64(i) << 20
				e.SpliceTime = &scte35.SpliceTime{PTSTime: &t}
			}
			c.Components = append(c.Components, e)
		}
		c.UniqueProgramID = uint32(nd.U16("si.upid"))
		s.SpliceCommand = c
	case 3:
		n := pick("n", 0, 1, 254, 255, 256, 257, 511)
		c := &scte35.SpliceSchedule{}
		for i := 0; i < n; i++ {
			c.Events = append(c.Events, scte35.Event{SpliceEventID: uint32(i), EventIDComplianceFlag: true, SpliceEventCancelIndicator: true})
		}
		if n > 0 {
			c.Events[n-1].SpliceEventID = nd.U32("ev.id")
		}
		s.SpliceCommand = c
	case 4:
		n := pick("n", 0, 1, 254, 255, 256, 257, 511)
		e := scte35.Event{SpliceEventID: nd.U32("ev.id"), EventIDComplianceFlag: true}
		for i := 0; i < n; i++ {
			e.Components = append(e.Components, scte35.EventComponent{Tag: uint32(byte(i)), UTCSpliceTime: scte35.NewUTCSpliceTime(uint32(i))})
		}
		s.SpliceCommand = &scte35.SpliceSchedule{Events: []scte35.Event{e, {SpliceEventID: 7, SpliceEventCancelIndicator: true}}}
	case 5:
		n := pick("n", 1, 37, 38, 39, 40, 41, 42, 43, 80, 81, 255, 256, 300)
		d := &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("sd.id"), SegmentationTypeID: uint32(nd.U8("sd.type"))}
		for i := 0; i < n; i++ {
			d.Components = append(d.Components, scte35.SegmentationDescriptorComponent{Tag: uint32(byte(i)), PTSOffset: uint64(i)})
		}
		s.SpliceDescriptors = scte35.SpliceDescriptors{d, oneDesc(kAvail)}
	case 6:
		n := pick("n", 1, 232, 233, 234, 238, 239, 240, 241, 244, 245, 254, 255, 256, 257, 300, 496, 511)
		d := &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("sd.id"), SegmentationTypeID: uint32(nd.U8("sd.type"))}
		if nd.Choice("dur", 2) == 1 {
			dur := nd.Bits("sd.dur", 40)
			d.SegmentationDuration = &dur
		}
		d.SegmentationUPIDs = []scte35.SegmentationUPID{{Type: 0xf, Format: "text", Value: strings.Repeat("u", n-1) + nd.Text("up.t", 1, "word")}}
		s.SpliceDescriptors = scte35.SpliceDescriptors{d, oneDesc(kAvail)}
	case 7:
		n := pick("n", 1, 110, 116, 117, 118, 119, 120, 121, 124, 125, 126, 127, 128, 200, 255, 256, 300)
		d := &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("sd.id"), SegmentationTypeID: uint32(nd.U8("sd.type"))}
		for i := 0; i < 2; i++ {
			d.SegmentationUPIDs = append(d.SegmentationUPIDs, scte35.SegmentationUPID{Type: 9, Format: "text", Value: strings.Repeat("m", n-1) + nd.Text("up.t", 1, "word")})
		}
		s.SpliceDescriptors = scte35.SpliceDescriptors{d}
	case 8:
		n := pick("n", 0, 1, 6, 7, 8, 9, 15, 16, 23, 249, 250, 255, 256)
		t := strings.Repeat("1", n)
		if n > 0 {
			t = t[1:] + nd.Text("dt.c", 1, "word")
		}
		s.SpliceDescriptors = scte35.SpliceDescriptors{&scte35.DTMFDescriptor{Preroll: uint32(nd.U8("dt.pre")), DTMFChars: t}, oneDesc(kAvail)}
	case 9:
		n := pick("n", 0, 1, 14, 15, 16, 17, 31, 32, 49, 50, 51, 60)
		d := &scte35.AudioDescriptor{}
		for i := 0; i < n; i++ {
			d.AudioChannels = append(d.AudioChannels, scte35.AudioChannel{ComponentTag: uint32(i), ISOCode: "eng", NumChannels: uint32(i & 15)})
		}
		s.SpliceDescriptors = scte35.SpliceDescriptors{d, oneDesc(kAvail)}
	case 10:
		n := pick("n", 0, 1, 406, 407, 408, 409, 820)
		for i := 0; i < n; i++ {
			s.SpliceDescriptors = append(s.SpliceDescriptors, &scte35.AvailDescriptor{ProviderAvailID: uint32(i)})
		}
	case 11: // commands and descriptors which do not fit together
		s.SpliceCommand = &scte35.PrivateCommand{Identifier: nd.U32("pc.id"), PrivateBytes: filler("pc.b", pick("n", 3000, 3064, 3065, 3066, 3067, 4000))}
		for i := 0; i < 4; i++ {
			s.SpliceDescriptors = append(s.SpliceDescriptors, &scte35.PrivateDescriptor{PrivateTag: 0x80, Identifier: 1, PrivateBytes: make([]byte, 246)})
		}
	}
	return s
}

const nSized = 12

// Oversize: content of any size is either encoded with all lengths and counts
// true or reported as an error.
func Oversize() {
	s := sized(nd.Choice("sized", nSized))
	b, err := s.Encode()
	if !fits(s) {
		nd.Assert(err != nil, "what does not fit its length or count field is reported")
		nd.Reach("refused")
		return
	}
	must(err, "what fits is encoded")
	l := refLayout(s, nil)
	l.noCRC = true
	want := l.build()
	nd.Assert(len(b) == len(want)+4, "section size")
	eqBytes(b[:len(b)-4], want, "section bytes")
	nd.Reach("encoded")
}

// wide fields: an arbitrary value of the Go type and what of it fits the field.
type wide struct{ v, m uint64 }

func w32(name string, bits uint) wide {
	v := uint64(nd.U32(name))
	return wide{v, v & (1<<bits - 1)}
}

func w64(name string, bits uint) wide {
	v := nd.U64(name)
	return wide{v, v & (1<<bits - 1)}
}

func (x wide) u32(cut bool) uint32 {
	if cut {
		return uint32(x.m)
	}
	return uint32(x.v)
}

func (x wide) u64(cut bool) uint64 {
	if cut {
		return x.m
	}
	return x.v
}

func (x wide) p(cut bool) *uint64 { v := x.u64(cut); return &v }

// kept asserts that full is refused or encoded as cut would be.
func kept(full, cut *scte35.SpliceInfoSection) {
	b, err := full.Encode()
	if err != nil {
		nd.Reach("refused")
		return
	}
	l := refLayout(cut, nil)
	l.noCRC = true
	want := l.build()
	nd.Assert(len(b) == len(want)+4, "section size")
	eqBytes(b[:len(b)-4], want, "a value too wide for its field leaves the other fields alone")
	nd.Reach("end")
}

// WideCommand: a value too wide for its field does not spill into other fields
// of the command.
func WideCommand() {
	var make func(cut bool) scte35.SpliceCommand
	switch nd.Choice("cmd", 6) {
	case 0:
		t := w64("ts.pts", 33)
		make = func(c bool) scte35.SpliceCommand {
			return &scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: t.p(c)}}
		}
	case 1:
		t, d, id, n, e := w64("si.pts", 33), w64("si.dur", 33), w32("si.upid", 16), w32("si.an", 8), w32("si.ae", 8)
		ev, au := nd.U32("si.id"), bit("si.auto")
		make = func(c bool) scte35.SpliceCommand {
			return &scte35.SpliceInsert{SpliceEventID: ev, Program: &scte35.SpliceInsertProgram{SpliceTime: scte35.SpliceTime{PTSTime: t.p(c)}},
				BreakDuration: &scte35.BreakDuration{AutoReturn: au, Duration: d.u64(c)}, UniqueProgramID: id.u32(c), AvailNum: n.u32(c), AvailsExpected: e.u32(c)}
		}
	case 2:
		g1, g2, t1, t2 := w32("si.tag", 8), w32("si.tag2", 8), w64("si.pts", 33), w64("si.pts2", 33)
		make = func(c bool) scte35.SpliceCommand {
			return &scte35.SpliceInsert{Components: []scte35.SpliceInsertComponent{
				{Tag: g1.u32(c), SpliceTime: &scte35.SpliceTime{PTSTime: t1.p(c)}}, {Tag: g2.u32(c), SpliceTime: &scte35.SpliceTime{PTSTime: t2.p(c)}}}}
		}
	case 3:
		d, id, n, e := w64("ev.dur", 33), w32("ev.upid", 16), w32("ev.an", 8), w32("ev.ae", 8)
		ev, ut := nd.U32("ev.id"), nd.U32("ev.utc")
		make = func(c bool) scte35.SpliceCommand {
			x := scte35.Event{SpliceEventID: ev, Program: &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(ut)},
				BreakDuration: &scte35.BreakDuration{Duration: d.u64(c)}, UniqueProgramID: id.u32(c), AvailNum: n.u32(c), AvailsExpected: e.u32(c)}
			return &scte35.SpliceSchedule{Events: []scte35.Event{x, x}}
		}
	case 4:
		g1, g2 := w32("ev.tag", 8), w32("ev.tag2", 8)
		ut := nd.U32("ev.utc")
		make = func(c bool) scte35.SpliceCommand {
			return &scte35.SpliceSchedule{Events: []scte35.Event{{Components: []scte35.EventComponent{
				{Tag: g1.u32(c), UTCSpliceTime: scte35.NewUTCSpliceTime(ut)}, {Tag: g2.u32(c), UTCSpliceTime: scte35.NewUTCSpliceTime(ut)}}}}}
		}
	default:
		g1, id := w32("si.tag", 8), w32("si.upid", 16)
		make = func(c bool) scte35.SpliceCommand {
			return &scte35.SpliceInsert{SpliceImmediateFlag: true, Components: []scte35.SpliceInsertComponent{{Tag: g1.u32(c)}, {Tag: 5}}, UniqueProgramID: id.u32(c)}
		}
	}
	kept(plain(make(false)), plain(make(true)))
}

// WideDescriptor: the same for descriptors.
func WideDescriptor() {
	var make func(cut bool) scte35.SpliceDescriptor
	switch nd.Choice("desc", 6) {
	case 0:
		p := w32("dt.pre", 8)
		make = func(c bool) scte35.SpliceDescriptor {
			return &scte35.DTMFDescriptor{Preroll: p.u32(c), DTMFChars: "12"}
		}
	case 1:
		s, o, ns := w64("td.s", 48), w32("td.off", 16), nd.U32("td.ns")
		make = func(c bool) scte35.SpliceDescriptor {
			return &scte35.TimeDescriptor{TAISeconds: s.u64(c), TAINS: ns, UTCOffset: o.u32(c)}
		}
	case 2:
		t, m, n, f := w32("ad.tag", 8), w32("ad.bsm", 3), w32("ad.nc", 4), bit("ad.full")
		make = func(c bool) scte35.SpliceDescriptor {
			x := scte35.AudioChannel{ComponentTag: t.u32(c), ISOCode: "fra", BitStreamMode: m.u32(c), NumChannels: n.u32(c), FullSrvcAudio: f}
			return &scte35.AudioDescriptor{AudioChannels: []scte35.AudioChannel{x, x}}
		}
	case 3:
		t, id := w32("pd.tag", 8), nd.U32("pd.id")
		make = func(c bool) scte35.SpliceDescriptor {
			return &scte35.PrivateDescriptor{PrivateTag: t.u32(c), Identifier: id, PrivateBytes: []byte{1, 2}}
		}
	case 4:
		d, dr, t, n, e := w64("sd.dur", 40), w32("sd.dev", 2), w32("sd.type", 8), w32("sd.num", 8), w32("sd.exp", 8)
		g, o := w32("sd.tag", 8), w64("sd.off", 33)
		id, b1, b2, b3 := nd.U32("sd.id"), bit("sd.arch"), bit("sd.web"), bit("sd.nrb")
		make = func(c bool) scte35.SpliceDescriptor {
			return &scte35.SegmentationDescriptor{SegmentationEventID: id, SegmentationDuration: d.p(c),
				DeliveryRestrictions: &scte35.DeliveryRestrictions{ArchiveAllowedFlag: b1, WebDeliveryAllowedFlag: b2, NoRegionalBlackoutFlag: b3, DeviceRestrictions: dr.u32(c)},
				Components:           []scte35.SegmentationDescriptorComponent{{Tag: g.u32(c), PTSOffset: o.u64(c)}},
				SegmentationTypeID:   t.u32(c), SegmentNum: n.u32(c), SegmentsExpected: e.u32(c)}
		}
	default:
		n, e, ut := w32("sd.subnum", 8), w32("sd.subexp", 8), w32("up.type", 8)
		nd.Assume(textUPIDType(uint32(ut.m)))
		make = func(c bool) scte35.SpliceDescriptor {
			a, b := n.u32(c), e.u32(c)
			return &scte35.SegmentationDescriptor{SegmentationTypeID: 0x34, SubSegmentNum: &a, SubSegmentsExpected: &b,
				SegmentationUPIDs: []scte35.SegmentationUPID{{Type: ut.u32(c), Format: "text", Value: "abc"}}}
		}
	}
	av := &scte35.AvailDescriptor{ProviderAvailID: nd.U32("av.id")}
	kept(plain(&scte35.SpliceNull{}, make(false), av), plain(&scte35.SpliceNull{}, make(true), av))
}

// WideHeader: the same for the header.
func WideHeader() {
	sap, pv, adj, tier, cw := w32("h.sap", 2), w32("h.pv", 8), w64("h.adj", 33), w32("h.tier", 12), w32("h.cw", 8)
	make := func(c bool) *scte35.SpliceInfoSection {
		return &scte35.SpliceInfoSection{SAPType: sap.u32(c), ProtocolVersion: pv.u32(c), PTSAdjustment: adj.u64(c), Tier: tier.u32(c),
			EncryptedPacket: scte35.EncryptedPacket{CWIndex: cw.u32(c)}, SpliceCommand: &scte35.SpliceNull{}}
	}
	kept(make(false), make(true))
}

// LengthsTrue: walking the lengths of an encoded section from the outside in
// accounts for every byte of it.
func LengthsTrue() {
	s := genHeader()
	s.EncryptedPacket.EncryptionAlgorithm = uint32(nd.Bits("h.alg", 6))
	s.SpliceCommand = genCmd(nd.Choice("cmd", nCmd), size(1, 2))
	n := nd.Choice("descs", 3)
	for i := 0; i < n; i++ {
		s.SpliceDescriptors = append(s.SpliceDescriptors, oneDesc(nd.Choice("desc", nDesc)))
	}
	b, err := s.Encode()
	must(err, "encode succeeds")
	nd.Assert(int(b[1]&15)<<8|int(b[2]) == len(b)-3, "section_length")
	cl := int(b[11]&15)<<8 | int(b[12])
	at := 14 + cl
	nd.Assert(at+2 <= len(b)-4, "splice_command_length")
	dl := int(b[at])<<8 | int(b[at+1])
	at += 2
	end := len(b) - 4
	if s.EncryptedPacket.EncryptionAlgorithm != 0 {
		end -= 4
	}
	nd.Assert(at+dl == end, "descriptor_loop_length")
	k := 0
	for at < end {
		nd.Assert(at+2 <= end, "descriptor header")
		at += 2 + int(b[at+1])
		k++
	}
	nd.Assert(at == end && k == n, "descriptor_length")
	nd.Reach("end")
}
