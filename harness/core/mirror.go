package core

import (
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("JSONNames", JSONNames)
	reg("JSONRead", JSONRead)
	reg("XMLNames", XMLNames)
	reg("XMLRead", XMLRead)
	reg("XMLPrivate", XMLPrivate)
	reg("XMLAudioFlag", XMLAudioFlag)
}

// The mirror types spell out the documents: XML as the schema of SCTE 35 has
// it, JSON as the README and the library's users have it. Commands and
// descriptors are unions of all kinds.

type mTime struct {
	PTS *uint64 `xml:"ptsTime,attr" json:"ptsTime,omitempty"`
}

type mBreak struct {
	AutoReturn bool   `xml:"autoReturn,attr" json:"autoReturn"`
	Duration   uint64 `xml:"duration,attr" json:"duration"`
}

type mProgram struct {
	SpliceTime *mTime `xml:"http://www.scte.org/schemas/35 SpliceTime" json:"spliceTime"`
}

type mComponent struct {
	SpliceTime *mTime `xml:"http://www.scte.org/schemas/35 SpliceTime" json:"spliceTime,omitempty"`
	Tag        uint32 `xml:"componentTag,attr" json:"componentTag"`
}

type mEventProgram struct {
	UTC time.Time `xml:"utcSpliceTime,attr" json:"utcSpliceTime"`
}

type mEventComponent struct {
	UTC time.Time `xml:"utcSpliceTime,attr" json:"utcSpliceTime"`
	Tag uint32    `xml:"componentTag,attr" json:"componentTag"`
}

type mSegComponent struct {
	Offset uint64 `xml:"ptsOffset,attr" json:"ptsOffset"`
	Tag    uint32 `xml:"componentTag,attr" json:"componentTag"`
}

type mEvent struct {
	Program       *mEventProgram    `xml:"http://www.scte.org/schemas/35 Program" json:"program,omitempty"`
	Components    []mEventComponent `xml:"http://www.scte.org/schemas/35 Component" json:"components,omitempty"`
	BreakDuration *mBreak           `xml:"http://www.scte.org/schemas/35 BreakDuration" json:"breakDuration,omitempty"`
	ID            uint32            `xml:"spliceEventId,attr" json:"spliceEventId"`
	Cancel        bool              `xml:"spliceEventCancelIndicator,attr" json:"spliceEventCancelIndicator"`
	Compliance    bool              `xml:"eventIdComplianceFlag,attr" json:"eventIdComplianceFlag"`
	Out           bool              `xml:"outOfNetworkIndicator,attr" json:"outOfNetworkIndicator"`
	ProgramID     uint32            `xml:"uniqueProgramId,attr" json:"uniqueProgramId"`
	AvailNum      uint32            `xml:"availNum,attr" json:"availNum"`
	Avails        uint32            `xml:"availsExpected,attr" json:"availsExpected"`
}

type mInsert struct {
	Type          uint32       `xml:"-" json:"type"`
	Program       *mProgram    `xml:"http://www.scte.org/schemas/35 Program" json:"program,omitempty"`
	Components    []mComponent `xml:"http://www.scte.org/schemas/35 Component" json:"components,omitempty"`
	BreakDuration *mBreak      `xml:"http://www.scte.org/schemas/35 BreakDuration" json:"breakDuration,omitempty"`
	ID            uint32       `xml:"spliceEventId,attr" json:"spliceEventId"`
	Cancel        bool         `xml:"spliceEventCancelIndicator,attr" json:"spliceEventCancelIndicator"`
	Out           bool         `xml:"outOfNetworkIndicator,attr" json:"outOfNetworkIndicator"`
	Immediate     bool         `xml:"spliceImmediateFlag,attr" json:"spliceImmediateFlag"`
	ProgramID     uint32       `xml:"uniqueProgramId,attr" json:"uniqueProgramId"`
	AvailNum      uint32       `xml:"availNum,attr" json:"availNum"`
	Avails        uint32       `xml:"availsExpected,attr" json:"availsExpected"`
}

type mSchedule struct {
	Type   uint32   `xml:"-" json:"type"`
	Events []mEvent `xml:"http://www.scte.org/schemas/35 Event" json:"events"`
}

type mSignal struct {
	Type       uint32 `xml:"-" json:"type"`
	SpliceTime *mTime `xml:"http://www.scte.org/schemas/35 SpliceTime" json:"spliceTime"`
}

type mEmpty struct {
	Type uint32 `xml:"-" json:"type"`
}

type mPrivateCmd struct {
	Type       uint32 `xml:"-" json:"type"`
	Identifier uint32 `xml:"identifier,attr" json:"identifier"`
	Bytes      string `xml:"http://www.scte.org/schemas/35 PrivateBytes" json:"privateBytes"`
}

type mPrivateDesc struct {
	Tag        uint32 `xml:"descriptorTag,attr" json:"tag"`
	Type       uint32 `xml:"-" json:"type"`
	Identifier uint32 `xml:"identifier,attr" json:"identifier"`
	Bytes      string `xml:"http://www.scte.org/schemas/35 PrivateBytes" json:"privateBytes"`
}

type mAvail struct {
	Type uint32 `xml:"-" json:"type"`
	ID   uint32 `xml:"providerAvailId,attr" json:"providerAvailId"`
}

type mDTMF struct {
	Type    uint32 `xml:"-" json:"type"`
	Preroll uint32 `xml:"preroll,attr" json:"preroll"`
	Chars   string `xml:"chars,attr" json:"chars"`
}

type mTAI struct {
	Type    uint32 `xml:"-" json:"type"`
	Seconds uint64 `xml:"taiSeconds,attr" json:"taiSeconds"`
	NS      uint32 `xml:"taiNs,attr" json:"taiNs"`
	Offset  uint32 `xml:"utcOffset,attr" json:"utcOffset"`
}

type mChannel struct {
	Tag  uint32 `xml:"componentTag,attr" json:"componentTag"`
	ISO  string `xml:"ISOCode,attr" json:"isoCode"`
	Mode uint32 `xml:"BitStreamMode,attr" json:"bitStreamMode"`
	Num  uint32 `xml:"NumChannels,attr" json:"numChannels"`
	Full bool   `xml:"FullSrvcAudio,attr" json:"fullSrvcAudio"`
}

type mAudio struct {
	Type     uint32     `xml:"-" json:"type"`
	Channels []mChannel `xml:"http://www.scte.org/schemas/35 AudioChannel" json:"audioChannels"`
}

type mDR struct {
	Web     bool   `xml:"webDeliveryAllowedFlag,attr" json:"webDeliveryAllowedFlag"`
	Region  bool   `xml:"noRegionalBlackoutFlag,attr" json:"noRegionalBlackoutFlag"`
	Archive bool   `xml:"archiveAllowedFlag,attr" json:"archiveAllowedFlag"`
	Device  uint32 `xml:"deviceRestrictions,attr" json:"deviceRestrictions"`
}

type mUPID struct {
	Type   uint32  `xml:"segmentationUpidType,attr" json:"segmentationUpidType"`
	FI     *uint32 `xml:"formatIdentifier,attr" json:"formatIdentifier,omitempty"`
	Format string  `xml:"segmentationUpidFormat,attr" json:"segmentationUpidFormat"`
	Value  string  `xml:",chardata" json:"value"`
}

type mSeg struct {
	Type       uint32          `xml:"-" json:"type"`
	DR         *mDR            `xml:"http://www.scte.org/schemas/35 DeliveryRestrictions" json:"deliveryRestrictions,omitempty"`
	UPIDs      []mUPID         `xml:"http://www.scte.org/schemas/35 SegmentationUpid" json:"segmentationUpids,omitempty"`
	Components []mSegComponent `xml:"http://www.scte.org/schemas/35 Component" json:"components,omitempty"`
	ID         uint32          `xml:"segmentationEventId,attr" json:"segmentationEventId"`
	Cancel     bool            `xml:"segmentationEventCancelIndicator,attr" json:"segmentationEventCancelIndicator"`
	Compliance bool            `xml:"segmentationEventIdComplianceIndicator,attr" json:"segmentationEventIdComplianceIndicator"`
	Duration   *uint64         `xml:"segmentationDuration,attr" json:"segmentationDuration,omitempty"`
	TypeID     uint32          `xml:"segmentationTypeId,attr" json:"segmentationTypeId"`
	Num        uint32          `xml:"segmentNum,attr" json:"segmentNum"`
	Expected   uint32          `xml:"segmentsExpected,attr" json:"segmentsExpected"`
	SubNum     *uint32         `xml:"subSegmentNum,attr" json:"subSegmentNum,omitempty"`
	SubExp     *uint32         `xml:"subSegmentsExpected,attr" json:"subSegmentsExpected,omitempty"`
}

type mPacket struct {
	Algorithm uint32 `xml:"encryptionAlgorithm,attr" json:"encryptionAlgorithm"`
	CW        uint32 `xml:"cwIndex,attr" json:"cwIndex"`
}

type mXML struct {
	XMLName    xml.Name      `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	Packet     *mPacket      `xml:"http://www.scte.org/schemas/35 EncryptedPacket"`
	Null       *mEmpty       `xml:"http://www.scte.org/schemas/35 SpliceNull"`
	Schedule   *mSchedule    `xml:"http://www.scte.org/schemas/35 SpliceSchedule"`
	Insert     *mInsert      `xml:"http://www.scte.org/schemas/35 SpliceInsert"`
	Signal     *mSignal      `xml:"http://www.scte.org/schemas/35 TimeSignal"`
	Bandwidth  *mEmpty       `xml:"http://www.scte.org/schemas/35 BandwidthReservation"`
	Private    *mPrivateCmd  `xml:"http://www.scte.org/schemas/35 PrivateCommand"`
	Avail      *mAvail       `xml:"http://www.scte.org/schemas/35 AvailDescriptor"`
	DTMF       *mDTMF        `xml:"http://www.scte.org/schemas/35 DTMFDescriptor"`
	Seg        *mSeg         `xml:"http://www.scte.org/schemas/35 SegmentationDescriptor"`
	TAI        *mTAI         `xml:"http://www.scte.org/schemas/35 TimeDescriptor"`
	Audio      *mAudio       `xml:"http://www.scte.org/schemas/35 AudioDescriptor"`
	PrivDesc   *mPrivateDesc `xml:"http://www.scte.org/schemas/35 PrivateDescriptor"`
	SAP        *uint32       `xml:"sapType,attr"`
	Adjustment *uint64       `xml:"ptsAdjustment,attr"`
	Protocol   *uint32       `xml:"protocolVersion,attr"`
	Tier       *uint32       `xml:"tier,attr"`
}

type mJSON[C, D any] struct {
	Packet     *mPacket `json:"encryptedPacket,omitempty"`
	Command    C        `json:"spliceCommand"`
	Descs      []D      `json:"spliceDescriptors"`
	SAP        *uint32  `json:"sapType,omitempty"`
	Adjustment uint64   `json:"ptsAdjustment"`
	Protocol   uint32   `json:"protocolVersion"`
	Tier       uint32   `json:"tier"`
}

func mtime(p *uint64) *mTime { return &mTime{PTS: p} }

func utc(t scte35.UTCSpliceTime) time.Time { return time.Unix(t.Time.Unix(), 0).UTC() }

func unutc(t time.Time) scte35.UTCSpliceTime { return scte35.UTCSpliceTime{Time: t} }

func ptsOf(m *mTime) *uint64 {
	if m == nil {
		return nil
	}
	return m.PTS
}

func mbreak(b *scte35.BreakDuration) *mBreak {
	if b == nil {
		return nil
	}
	return &mBreak{b.AutoReturn, b.Duration}
}

func unbreak(b *mBreak) *scte35.BreakDuration {
	if b == nil {
		return nil
	}
	return &scte35.BreakDuration{AutoReturn: b.AutoReturn, Duration: b.Duration}
}

func minsert(x *scte35.SpliceInsert) *mInsert {
	m := &mInsert{Type: 5, ID: x.SpliceEventID, Cancel: x.SpliceEventCancelIndicator, Out: x.OutOfNetworkIndicator, Immediate: x.SpliceImmediateFlag,
		BreakDuration: mbreak(x.BreakDuration), ProgramID: x.UniqueProgramID, AvailNum: x.AvailNum, Avails: x.AvailsExpected}
	if x.Program != nil {
		m.Program = &mProgram{SpliceTime: mtime(x.Program.SpliceTime.PTSTime)}
	}
	for _, c := range x.Components {
		k := mComponent{Tag: c.Tag}
		if c.SpliceTime != nil {
			k.SpliceTime = mtime(c.SpliceTime.PTSTime)
		}
		m.Components = append(m.Components, k)
	}
	return m
}

func (m *mInsert) cmd() scte35.SpliceCommand {
	x := &scte35.SpliceInsert{SpliceEventID: m.ID, SpliceEventCancelIndicator: m.Cancel, OutOfNetworkIndicator: m.Out, SpliceImmediateFlag: m.Immediate,
		BreakDuration: unbreak(m.BreakDuration), UniqueProgramID: m.ProgramID, AvailNum: m.AvailNum, AvailsExpected: m.Avails}
	if m.Program != nil {
		x.Program = &scte35.SpliceInsertProgram{SpliceTime: scte35.SpliceTime{PTSTime: ptsOf(m.Program.SpliceTime)}}
	}
	for _, c := range m.Components {
		k := scte35.SpliceInsertComponent{Tag: c.Tag}
		if p := ptsOf(c.SpliceTime); p != nil {
			k.SpliceTime = &scte35.SpliceTime{PTSTime: p}
		}
		x.Components = append(x.Components, k)
	}
	return x
}

func mschedule(x *scte35.SpliceSchedule) *mSchedule {
	m := &mSchedule{Type: 4}
	for _, e := range x.Events {
		k := mEvent{ID: e.SpliceEventID, Cancel: e.SpliceEventCancelIndicator, Compliance: e.EventIDComplianceFlag, Out: e.OutOfNetworkIndicator,
			BreakDuration: mbreak(e.BreakDuration), ProgramID: e.UniqueProgramID, AvailNum: e.AvailNum, Avails: e.AvailsExpected}
		if e.Program != nil {
			k.Program = &mEventProgram{UTC: utc(e.Program.UTCSpliceTime)}
		}
		for _, c := range e.Components {
			k.Components = append(k.Components, mEventComponent{Tag: c.Tag, UTC: utc(c.UTCSpliceTime)})
		}
		m.Events = append(m.Events, k)
	}
	return m
}

func (m *mSchedule) cmd() scte35.SpliceCommand {
	x := &scte35.SpliceSchedule{}
	for _, e := range m.Events {
		k := scte35.Event{SpliceEventID: e.ID, SpliceEventCancelIndicator: e.Cancel, EventIDComplianceFlag: e.Compliance, OutOfNetworkIndicator: e.Out,
			BreakDuration: unbreak(e.BreakDuration), UniqueProgramID: e.ProgramID, AvailNum: e.AvailNum, AvailsExpected: e.Avails}
		if e.Program != nil {
			k.Program = &scte35.EventProgram{UTCSpliceTime: unutc(e.Program.UTC)}
		}
		for _, c := range e.Components {
			k.Components = append(k.Components, scte35.EventComponent{Tag: c.Tag, UTCSpliceTime: unutc(c.UTC)})
		}
		x.Events = append(x.Events, k)
	}
	return x
}

func mseg(x *scte35.SegmentationDescriptor) *mSeg {
	m := &mSeg{Type: 2, ID: x.SegmentationEventID, Cancel: x.SegmentationEventCancelIndicator, Compliance: x.SegmentationEventIDComplianceIndicator,
		Duration: x.SegmentationDuration, TypeID: x.SegmentationTypeID, Num: x.SegmentNum, Expected: x.SegmentsExpected, SubNum: x.SubSegmentNum, SubExp: x.SubSegmentsExpected}
	if d := x.DeliveryRestrictions; d != nil {
		m.DR = &mDR{Web: d.WebDeliveryAllowedFlag, Region: d.NoRegionalBlackoutFlag, Archive: d.ArchiveAllowedFlag, Device: d.DeviceRestrictions}
	}
	for _, u := range x.SegmentationUPIDs {
		m.UPIDs = append(m.UPIDs, mUPID{Type: u.Type, FI: u.FormatIdentifier, Format: u.Format, Value: u.Value})
	}
	for _, c := range x.Components {
		m.Components = append(m.Components, mSegComponent{Tag: c.Tag, Offset: c.PTSOffset})
	}
	return m
}

func (m *mSeg) desc() scte35.SpliceDescriptor {
	x := &scte35.SegmentationDescriptor{SegmentationEventID: m.ID, SegmentationEventCancelIndicator: m.Cancel, SegmentationEventIDComplianceIndicator: m.Compliance,
		SegmentationDuration: m.Duration, SegmentationTypeID: m.TypeID, SegmentNum: m.Num, SegmentsExpected: m.Expected, SubSegmentNum: m.SubNum, SubSegmentsExpected: m.SubExp}
	if d := m.DR; d != nil {
		x.DeliveryRestrictions = &scte35.DeliveryRestrictions{WebDeliveryAllowedFlag: d.Web, NoRegionalBlackoutFlag: d.Region, ArchiveAllowedFlag: d.Archive, DeviceRestrictions: d.Device}
	}
	for _, u := range m.UPIDs {
		x.SegmentationUPIDs = append(x.SegmentationUPIDs, scte35.SegmentationUPID{Type: u.Type, FormatIdentifier: u.FI, Format: u.Format, Value: u.Value})
	}
	for _, c := range m.Components {
		x.Components = append(x.Components, scte35.SegmentationDescriptorComponent{Tag: c.Tag, PTSOffset: c.Offset})
	}
	return x
}

func maudio(x *scte35.AudioDescriptor) *mAudio {
	m := &mAudio{Type: 4}
	for _, c := range x.AudioChannels {
		m.Channels = append(m.Channels, mChannel{Tag: c.ComponentTag, ISO: c.ISOCode, Mode: c.BitStreamMode, Num: c.NumChannels, Full: c.FullSrvcAudio})
	}
	return m
}

func (m *mAudio) desc() scte35.SpliceDescriptor {
	x := &scte35.AudioDescriptor{}
	for _, c := range m.Channels {
		x.AudioChannels = append(x.AudioChannels, scte35.AudioChannel{ComponentTag: c.Tag, ISOCode: c.ISO, BitStreamMode: c.Mode, NumChannels: c.Num, FullSrvcAudio: c.Full})
	}
	return x
}

// The content of the names harnesses: any command, or any descriptor after a
// splice_null, with any header.
func named() *scte35.SpliceInfoSection {
	s := genHeader()
	s.EncryptedPacket.EncryptionAlgorithm = uint32(nd.Bits("h.alg", 6))
	if k := nd.Choice("content", nCmd+nDesc); k < nCmd {
		s.SpliceCommand = genCmd(k, size(1, 2))
	} else {
		s.SpliceCommand = &scte35.SpliceNull{}
		s.SpliceDescriptors = scte35.SpliceDescriptors{genDesc(k-nCmd, size(1, 2))}
	}
	return s
}

func jsonOf[C, D any](s *scte35.SpliceInfoSection, c C, ds []D) []byte {
	sap := s.SAPType
	b, err := json.Marshal(&mJSON[C, D]{Packet: &mPacket{s.EncryptedPacket.EncryptionAlgorithm, s.EncryptedPacket.CWIndex}, Command: c, Descs: ds,
		SAP: &sap, Adjustment: s.PTSAdjustment, Protocol: s.ProtocolVersion, Tier: s.Tier})
	must(err, "marshalling the mirror document")
	return b
}

// JSONRead: a JSON document with the documented names is read field by field.
func JSONRead() {
	s := named()
	var b []byte
	if len(s.SpliceDescriptors) == 0 {
		switch x := s.SpliceCommand.(type) {
		case *scte35.SpliceNull:
			b = jsonOf[any, mEmpty](s, mEmpty{0}, nil)
		case *scte35.BandwidthReservation:
			b = jsonOf[any, mEmpty](s, mEmpty{7}, nil)
		case *scte35.TimeSignal:
			b = jsonOf[any, mEmpty](s, mSignal{6, mtime(x.SpliceTime.PTSTime)}, nil)
		case *scte35.PrivateCommand:
			b = jsonOf[any, mEmpty](s, mPrivateCmd{255, x.Identifier, hex.EncodeToString(x.PrivateBytes)}, nil)
		case *scte35.SpliceInsert:
			b = jsonOf[any, mEmpty](s, minsert(x), nil)
		case *scte35.SpliceSchedule:
			b = jsonOf[any, mEmpty](s, mschedule(x), nil)
		}
	} else {
		null := mEmpty{0}
		switch x := s.SpliceDescriptors[0].(type) {
		case *scte35.AvailDescriptor:
			b = jsonOf(s, null, []mAvail{{0, x.ProviderAvailID}})
		case *scte35.DTMFDescriptor:
			b = jsonOf(s, null, []mDTMF{{1, x.Preroll, x.DTMFChars}})
		case *scte35.TimeDescriptor:
			b = jsonOf(s, null, []mTAI{{3, x.TAISeconds, x.TAINS, x.UTCOffset}})
		case *scte35.AudioDescriptor:
			b = jsonOf(s, null, []*mAudio{maudio(x)})
		case *scte35.SegmentationDescriptor:
			b = jsonOf(s, null, []*mSeg{mseg(x)})
		case *scte35.PrivateDescriptor:
			b = jsonOf(s, null, []mPrivateDesc{{x.PrivateTag, x.PrivateTag, x.Identifier, hex.EncodeToString(x.PrivateBytes)}})
		}
	}
	nd.ObserveS("json", string(b))
	d := &scte35.SpliceInfoSection{}
	must(json.Unmarshal(b, d), "a document with the documented names is read")
	eqSection(s, d)
	nd.Reach("end")
}

// memberNames are the names of the mirror types. Reading a document matches
// names in any letter case, other programs do not.
const memberNames = "archiveAllowedFlag audioChannels autoReturn availNum availsExpected bitStreamMode " +
	"breakDuration chars componentTag components cwIndex deliveryRestrictions " +
	"deviceRestrictions duration encryptedPacket encryptionAlgorithm eventIdComplianceFlag " +
	"events formatIdentifier fullSrvcAudio identifier isoCode noRegionalBlackoutFlag " +
	"numChannels outOfNetworkIndicator preroll privateBytes program protocolVersion " +
	"providerAvailId ptsAdjustment ptsOffset ptsTime sapType segmentNum segmentationDuration " +
	"segmentationEventCancelIndicator segmentationEventId " +
	"segmentationEventIdComplianceIndicator segmentationTypeId segmentationUpidFormat " +
	"segmentationUpidType segmentationUpids segmentsExpected spliceCommand spliceDescriptors " +
	"spliceEventCancelIndicator spliceEventId spliceImmediateFlag spliceTime subSegmentNum " +
	"subSegmentsExpected tag taiNs taiSeconds tier type uniqueProgramId utcOffset utcSpliceTime " +
	"value webDeliveryAllowedFlag"

// readJSON reads the document of s and compares the header; the command and
// descriptors are for the caller.
func readJSON[C, D any](s *scte35.SpliceInfoSection) (C, []D) {
	b, err := json.Marshal(s)
	must(err, "json.Marshal succeeds")
	nd.ObserveS("json", string(b))
	var m mJSON[C, D]
	must(json.Unmarshal(b, &m), "the document has the documented types")
	nd.Assert(nd.Misspelt(b, memberNames) == "", "member names are those documented, letter by letter")
	nd.Assert(m.SAP != nil && *m.SAP == s.SAPType, "sapType")
	nd.Assert(m.Packet != nil && m.Packet.Algorithm == s.EncryptedPacket.EncryptionAlgorithm, "encryptionAlgorithm")
	nd.Assert(m.Packet.CW == s.EncryptedPacket.CWIndex, "cwIndex")
	eqU(m.Adjustment, s.PTSAdjustment, "ptsAdjustment")
	eqU(uint64(m.Protocol), uint64(s.ProtocolVersion), "protocolVersion")
	eqU(uint64(m.Tier), uint64(s.Tier), "tier")
	nd.Assert(len(m.Descs) == len(s.SpliceDescriptors), "spliceDescriptors")
	return m.Command, m.Descs
}

func typed(got uint32, want uint64) { nd.Assert(uint64(got) == want, "type") }

// JSONNames: the JSON form of a section has the documented names and values.
func JSONNames() {
	s := named()
	if len(s.SpliceDescriptors) == 0 {
		var c scte35.SpliceCommand
		switch x := s.SpliceCommand.(type) {
		case *scte35.SpliceNull:
			m, _ := readJSON[mEmpty, mEmpty](s)
			typed(m.Type, 0)
			c = x
		case *scte35.BandwidthReservation:
			m, _ := readJSON[mEmpty, mEmpty](s)
			typed(m.Type, 7)
			c = x
		case *scte35.TimeSignal:
			m, _ := readJSON[mSignal, mEmpty](s)
			typed(m.Type, 6)
			nd.Assert(m.SpliceTime != nil, "spliceTime")
			c = &scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: m.SpliceTime.PTS}}
		case *scte35.PrivateCommand:
			m, _ := readJSON[mPrivateCmd, mEmpty](s)
			typed(m.Type, 255)
			nd.Assert(m.Bytes == hex.EncodeToString(x.PrivateBytes), "privateBytes")
			c = &scte35.PrivateCommand{Identifier: m.Identifier, PrivateBytes: x.PrivateBytes}
		case *scte35.SpliceInsert:
			m, _ := readJSON[*mInsert, mEmpty](s)
			typed(m.Type, 5)
			c = m.cmd()
		case *scte35.SpliceSchedule:
			m, _ := readJSON[*mSchedule, mEmpty](s)
			typed(m.Type, 4)
			c = m.cmd()
		}
		eqCmd(s.SpliceCommand, c)
	} else {
		var d scte35.SpliceDescriptor
		switch x := s.SpliceDescriptors[0].(type) {
		case *scte35.AvailDescriptor:
			_, m := readJSON[mEmpty, mAvail](s)
			typed(m[0].Type, 0)
			d = &scte35.AvailDescriptor{ProviderAvailID: m[0].ID}
		case *scte35.DTMFDescriptor:
			_, m := readJSON[mEmpty, mDTMF](s)
			typed(m[0].Type, 1)
			d = &scte35.DTMFDescriptor{Preroll: m[0].Preroll, DTMFChars: m[0].Chars}
		case *scte35.TimeDescriptor:
			_, m := readJSON[mEmpty, mTAI](s)
			typed(m[0].Type, 3)
			d = &scte35.TimeDescriptor{TAISeconds: m[0].Seconds, TAINS: m[0].NS, UTCOffset: m[0].Offset}
		case *scte35.AudioDescriptor:
			_, m := readJSON[mEmpty, mAudio](s)
			typed(m[0].Type, 4)
			d = m[0].desc()
		case *scte35.SegmentationDescriptor:
			_, m := readJSON[mEmpty, mSeg](s)
			typed(m[0].Type, 2)
			d = m[0].desc()
		case *scte35.PrivateDescriptor:
			_, m := readJSON[mEmpty, mPrivateDesc](s)
			nd.Assert(m[0].Bytes == hex.EncodeToString(x.PrivateBytes), "privateBytes")
			d = &scte35.PrivateDescriptor{PrivateTag: m[0].Tag, Identifier: m[0].Identifier, PrivateBytes: x.PrivateBytes}
		}
		eqDesc(s.SpliceDescriptors[0], d)
	}
	nd.Reach("end")
}

func xmlHeader(s *scte35.SpliceInfoSection) *mXML {
	sap, adj, pv, tier := s.SAPType, s.PTSAdjustment, s.ProtocolVersion, s.Tier
	return &mXML{Packet: &mPacket{s.EncryptedPacket.EncryptionAlgorithm, s.EncryptedPacket.CWIndex}, SAP: &sap, Adjustment: &adj, Protocol: &pv, Tier: &tier}
}

// XMLRead: a document valid under the SCTE 35 schema is read field by field;
// what is left out has the default of the schema.
func XMLRead() {
	s := named()
	if nd.Choice("defaults", 2) == 1 {
		s.SAPType, s.PTSAdjustment, s.ProtocolVersion, s.EncryptedPacket = 3, 0, 0, scte35.EncryptedPacket{}
	}
	m := xmlHeader(s)
	if s.SAPType == 3 && s.PTSAdjustment == 0 && s.ProtocolVersion == 0 {
		m.SAP, m.Adjustment, m.Protocol, m.Packet = nil, nil, nil, nil
		s.EncryptedPacket = scte35.EncryptedPacket{}
	}
	switch x := s.SpliceCommand.(type) {
	case *scte35.SpliceNull:
		m.Null = &mEmpty{}
	case *scte35.BandwidthReservation:
		m.Bandwidth = &mEmpty{}
	case *scte35.TimeSignal:
		m.Signal = &mSignal{SpliceTime: mtime(x.SpliceTime.PTSTime)}
	case *scte35.SpliceInsert:
		m.Insert = minsert(x)
	case *scte35.SpliceSchedule:
		m.Schedule = mschedule(x)
	default:
		nd.Assume(false) // XMLPrivate
	}
	for _, d := range s.SpliceDescriptors {
		switch x := d.(type) {
		case *scte35.AvailDescriptor:
			m.Avail = &mAvail{ID: x.ProviderAvailID}
		case *scte35.DTMFDescriptor:
			m.DTMF = &mDTMF{Preroll: x.Preroll, Chars: x.DTMFChars}
		case *scte35.TimeDescriptor:
			m.TAI = &mTAI{Seconds: x.TAISeconds, NS: x.TAINS, Offset: x.UTCOffset}
		case *scte35.AudioDescriptor:
			m.Audio = maudio(x)
		case *scte35.SegmentationDescriptor:
			m.Seg = mseg(x)
		default:
			nd.Assume(false)
		}
	}
	b, err := xml.Marshal(m)
	must(err, "marshalling the mirror document")
	nd.ObserveS("xml", string(b))
	d := &scte35.SpliceInfoSection{}
	must(xml.Unmarshal(b, d), "a document of the schema is read")
	eqSection(s, d)
	nd.Reach("end")
}

func readXML(s *scte35.SpliceInfoSection) *mXML {
	b, err := xml.Marshal(s)
	must(err, "xml.Marshal succeeds")
	nd.ObserveS("xml", string(b))
	m := &mXML{}
	must(xml.Unmarshal(b, m), "the document has the types of the schema")
	return m
}

// XMLNames: the XML form of a section has the names and values of the schema.
func XMLNames() {
	s := named()
	switch s.SpliceCommand.(type) {
	case *scte35.PrivateCommand:
		nd.Assume(false) // XMLPrivate
	}
	for _, d := range s.SpliceDescriptors {
		_, ok := d.(*scte35.PrivateDescriptor)
		nd.Assume(!ok)
	}
	m := readXML(s)
	sap, adj, pv := uint32(3), uint64(0), uint32(0) // defaults of the schema
	if m.SAP != nil {
		sap = *m.SAP
	}
	if m.Adjustment != nil {
		adj = *m.Adjustment
	}
	if m.Protocol != nil {
		pv = *m.Protocol
	}
	eqU(uint64(sap), uint64(s.SAPType), "sapType")
	eqU(adj, s.PTSAdjustment, "ptsAdjustment")
	eqU(uint64(pv), uint64(s.ProtocolVersion), "protocolVersion")
	nd.Assert(m.Tier != nil && *m.Tier == s.Tier, "tier")
	nd.Assert(m.Packet != nil && m.Packet.Algorithm == s.EncryptedPacket.EncryptionAlgorithm, "encryptionAlgorithm")
	nd.Assert(m.Packet.CW == s.EncryptedPacket.CWIndex, "cwIndex")
	n := 0
	var c scte35.SpliceCommand
	if m.Null != nil {
		n, c = n+1, &scte35.SpliceNull{}
	}
	if m.Bandwidth != nil {
		n, c = n+1, &scte35.BandwidthReservation{}
	}
	if m.Signal != nil {
		nd.Assert(m.Signal.SpliceTime != nil, "SpliceTime of a TimeSignal")
		n, c = n+1, &scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: m.Signal.SpliceTime.PTS}}
	}
	if m.Insert != nil {
		n, c = n+1, m.Insert.cmd()
	}
	if m.Schedule != nil {
		n, c = n+1, m.Schedule.cmd()
	}
	nd.Assert(n == 1 && m.Private == nil, "exactly one command element")
	eqCmd(s.SpliceCommand, c)
	n = 0
	var d scte35.SpliceDescriptor
	if x := m.Avail; x != nil {
		n, d = n+1, &scte35.AvailDescriptor{ProviderAvailID: x.ID}
	}
	if x := m.DTMF; x != nil {
		n, d = n+1, &scte35.DTMFDescriptor{Preroll: x.Preroll, DTMFChars: x.Chars}
	}
	if x := m.TAI; x != nil {
		n, d = n+1, &scte35.TimeDescriptor{TAISeconds: x.Seconds, TAINS: x.NS, UTCOffset: x.Offset}
	}
	if m.Audio != nil {
		n, d = n+1, m.Audio.desc()
	}
	if m.Seg != nil {
		n, d = n+1, m.Seg.desc()
	}
	nd.Assert(n == len(s.SpliceDescriptors) && m.PrivDesc == nil, "the descriptor elements")
	if n == 1 {
		eqDesc(s.SpliceDescriptors[0], d)
	}
	nd.Reach("end")
}

// mRaw is a private command or descriptor after the schema and as the library
// writes it.
type mRaw struct {
	Identifier uint32 `xml:"identifier,attr"`
	Tag        string `xml:"descriptorTag,attr"`
	Bytes      string `xml:"http://www.scte.org/schemas/35 PrivateBytes"`
	ThisTag    string `xml:"tag,attr"`
	ThisBytes  string `xml:",chardata"`
}

type mRawXML struct {
	XMLName xml.Name `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	Command *mRaw    `xml:"http://www.scte.org/schemas/35 PrivateCommand"`
	Desc    *mRaw    `xml:"http://www.scte.org/schemas/35 PrivateDescriptor"`
}

func readRaw(s *scte35.SpliceInfoSection) mRawXML {
	b, err := xml.Marshal(s)
	must(err, "xml.Marshal succeeds")
	var m mRawXML
	must(xml.Unmarshal(b, &m), "the document is read")
	nd.Reach("read")
	return m
}

// XMLPrivate: the schema has the bytes of private commands and descriptors in a
// PrivateBytes element, and the tag of a descriptor in descriptorTag. What is
// known to be written instead is told apart from anything else.
func XMLPrivate() {
	b := nd.Bytes("b", 1+nd.Choice("n", 3))
	id, tag := nd.U32("id"), uint32(nd.U8("tag"))
	nd.Assume(id != scte35.CUEIdentifier)
	t, x := dec(uint64(tag)), hex.EncodeToString(b)
	s := plain(&scte35.SpliceNull{})
	switch nd.Choice("kind", 3) {
	case 0:
		s.SpliceCommand = &scte35.PrivateCommand{Identifier: id, PrivateBytes: b}
		m := readRaw(s).Command
		nd.Assert(m != nil && m.Identifier == id, "identifier of a PrivateCommand")
		nd.Assert(m.Bytes == x || m.ThisBytes == x, "bytes of a PrivateCommand, in PrivateBytes or as its text")
		nd.Assert(m.Bytes == x, "PrivateBytes of a PrivateCommand")
	case 1:
		s.SpliceDescriptors = append(s.SpliceDescriptors, &scte35.PrivateDescriptor{PrivateTag: tag, Identifier: id, PrivateBytes: b})
		m := readRaw(s).Desc
		nd.Assert(m != nil && m.Identifier == id, "identifier of a PrivateDescriptor")
		nd.Assert(m.Tag == t || m.ThisTag == t, "tag of a PrivateDescriptor, as descriptorTag or tag")
		nd.Assert(m.Tag == t, "descriptorTag of a PrivateDescriptor")
	default:
		s.SpliceDescriptors = append(s.SpliceDescriptors, &scte35.PrivateDescriptor{PrivateTag: tag, Identifier: id, PrivateBytes: b})
		m := readRaw(s).Desc
		nd.Assert(m != nil && m.Identifier == id, "identifier of a PrivateDescriptor")
		nd.Assert(m.Bytes == x || m.ThisBytes == x, "bytes of a PrivateDescriptor, in PrivateBytes or as its text")
		nd.Assert(m.Bytes == x, "PrivateBytes of a PrivateDescriptor")
	}
	nd.Reach("end")
}

type mFlag struct {
	Full string `xml:"FullSrvcAudio,attr"`
}

type mFlagAudio struct {
	Channels []mFlag `xml:"http://www.scte.org/schemas/35 AudioChannel"`
}

type mFlagXML struct {
	XMLName xml.Name   `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	Audio   mFlagAudio `xml:"http://www.scte.org/schemas/35 AudioDescriptor"`
}

// XMLAudioFlag: FullSrvcAudio is 0 or 1 in the schema.
func XMLAudioFlag() {
	f := bit("full")
	s := plain(&scte35.SpliceNull{}, &scte35.AudioDescriptor{AudioChannels: []scte35.AudioChannel{{ISOCode: "eng", FullSrvcAudio: f}}})
	b, err := xml.Marshal(s)
	must(err, "xml.Marshal succeeds")
	var m mFlagXML
	must(xml.Unmarshal(b, &m), "the document is read")
	nd.Assert(len(m.Audio.Channels) == 1, "AudioChannel")
	nd.Reach("read")
	v := m.Audio.Channels[0].Full
	nd.Assert(f && (v == "1" || v == "true") || !f && (v == "0" || v == "false" || v == ""), "FullSrvcAudio is 1 or true, 0 or false or left out")
	nd.Assert(v == "0" || v == "1", "FullSrvcAudio is 0 or 1")
	nd.Reach("end")
}
