package core

import (
	"encoding/json"
	"encoding/xml"
	"strconv"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("OddCommand", OddCommand)
	reg("OddDescriptor", OddDescriptor)
	reg("OddUPID", OddUPID)
	reg("JSONParts", JSONParts)
	reg("XMLParts", XMLParts)
	reg("WrongJSON", WrongJSON)
	reg("WrongXML", WrongXML)
}

// sound asserts that a section is refused by Encode or encoded to bytes which
// decode again, if same to something that encodes alike.
func sound(s *scte35.SpliceInfoSection, same bool) {
	for _, x := range s.SpliceDescriptors {
		if p, ok := x.(*scte35.PrivateDescriptor); ok {
			nd.Assume(p.Identifier != scte35.CUEIdentifier) // no private descriptor
		}
	}
	b, err := s.Encode()
	if err != nil {
		nd.Reach("refused")
		return
	}
	nd.ObserveS("section", string(b))
	d := &scte35.SpliceInfoSection{}
	must(d.Decode(b), "what was encoded decodes")
	b2, err := d.Encode()
	must(err, "what was decoded encodes")
	if same {
		nd.Assert(len(b) == len(b2), "the size of what was encoded stays the same")
		eqBytes(b2[:len(b2)-4], b[:len(b)-4], "what was encoded stays the same")
	}
	nd.Reach("encoded")
}

func maybe(label string) bool { return nd.Choice(label, 2) == 1 }

func oddTime(label string) *scte35.SpliceTime {
	switch nd.Choice(label, 3) {
	case 0:
		return nil
	case 1:
		return &scte35.SpliceTime{}
	}
	return &scte35.SpliceTime{PTSTime: pts(label + ".pts")}
}

// OddCommand: commands with any combination of parts, also those which exclude
// each other.
func OddCommand() {
	var c scte35.SpliceCommand
	switch nd.Choice("cmd", 3) {
	case 0:
		x := &scte35.SpliceInsert{SpliceEventID: nd.U32("si.id"), SpliceEventCancelIndicator: maybe("si.cancel"), SpliceImmediateFlag: maybe("si.imm"),
			OutOfNetworkIndicator: bit("si.out"), BreakDuration: optBreak("si.brk"), UniqueProgramID: uint32(nd.U16("si.upid"))}
		if maybe("si.prog") {
			x.Program = &scte35.SpliceInsertProgram{SpliceTime: scte35.SpliceTime{PTSTime: optPts("si.pts")}}
		}
		for i := nd.Choice("si.n", size(2, 3)); i > 0; i-- {
			x.Components = append(x.Components, scte35.SpliceInsertComponent{Tag: uint32(nd.U8("si.tag")), SpliceTime: oddTime("si.time")})
		}
		c = x
	case 1:
		x := &scte35.SpliceSchedule{}
		for i := nd.Choice("ss.n", 3); i > 0; i-- {
			e := scte35.Event{SpliceEventID: nd.U32("ev.id"), SpliceEventCancelIndicator: maybe("ev.cancel"), EventIDComplianceFlag: bit("ev.cf"),
				BreakDuration: optBreak("ev.brk"), AvailNum: uint32(nd.U8("ev.an"))}
			switch nd.Choice("ev.prog", 3) {
			case 1:
				e.Program = &scte35.EventProgram{}
			case 2:
				e.Program = &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(nd.U32("ev.utc"))}
			}
			for i := nd.Choice("ev.n", 2); i > 0; i-- {
				k := scte35.EventComponent{Tag: uint32(nd.U8("ev.tag"))}
				if maybe("ev.time") {
					k.UTCSpliceTime = scte35.NewUTCSpliceTime(nd.U32("ev.cutc"))
				}
				e.Components = append(e.Components, k)
			}
			x.Events = append(x.Events, e)
		}
		c = x
	default:
		c = &scte35.PrivateCommand{Identifier: nd.U32("pc.id")}
	}
	sound(plain(c), true)
}

// OddDescriptor: the same for descriptors.
func OddDescriptor() {
	var d scte35.SpliceDescriptor
	switch nd.Choice("desc", 3) {
	case 0:
		d = &scte35.AudioDescriptor{AudioChannels: []scte35.AudioChannel{{ISOCode: nd.Text("iso", nd.Choice("iso.n", 6), "print"), NumChannels: uint32(nd.U8("nc"))}}}
	case 1:
		d = &scte35.DTMFDescriptor{DTMFChars: nd.Text("chars", nd.Choice("chars.n", 10), "print")}
	default:
		x := &scte35.SegmentationDescriptor{SegmentationEventID: nd.U32("sd.id"), SegmentationEventCancelIndicator: maybe("sd.cancel"), SegmentationTypeID: uint32(nd.U8("sd.type"))}
		if maybe("sd.dr") {
			x.DeliveryRestrictions = &scte35.DeliveryRestrictions{ArchiveAllowedFlag: bit("sd.arch")}
		}
		if maybe("sd.cmp") {
			x.Components = []scte35.SegmentationDescriptorComponent{{Tag: uint32(nd.U8("sd.tag"))}}
		}
		if maybe("sd.dur?") {
			v := nd.Bits("sd.dur", 40)
			x.SegmentationDuration = &v
		}
		if maybe("sd.sub") {
			x.SubSegmentNum = u32p(uint32(nd.U8("sd.subnum")))
		}
		if maybe("sd.sube") {
			x.SubSegmentsExpected = u32p(uint32(nd.U8("sd.subexp")))
		}
		d = x
	}
	sound(plain(&scte35.SpliceNull{}, d, &scte35.AvailDescriptor{ProviderAvailID: nd.U32("av.id")}), true)
}

// OddUPID: UPIDs of every type with any text as value.
func OddUPID() {
	t := nd.Text("value", nd.Choice("n", size(4, 6)), "print")
	x := &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10}
	u := scte35.SegmentationUPID{Type: uint32(nd.U8("type")), Value: t}
	nd.Assume(u.Type != 0xd)
	if maybe("fi") {
		u.FormatIdentifier = u32p(nd.U32("up.fi"))
	}
	x.SegmentationUPIDs = []scte35.SegmentationUPID{u}
	if maybe("mid") {
		x.SegmentationUPIDs = append(x.SegmentationUPIDs, scte35.SegmentationUPID{Type: 9, Value: "ad"})
	}
	s := plain(&scte35.SpliceNull{}, x)
	b, err := s.Encode()
	if err != nil {
		nd.Reach("refused")
		return
	}
	d := &scte35.SpliceInfoSection{}
	must(d.Decode(b), "what was encoded decodes")
	nd.Reach("encoded")
}

// A JSON document is built from objects one member of which is left out or has
// a value of another type.

type damage struct{ at, how, next int }

const nDamage = 6

type member struct {
	name string
	v    any
}

func (x *damage) obj(ms ...member) map[string]any {
	o := map[string]any{}
	for _, m := range ms {
		v := m.v
		if x.next == x.at {
			switch x.how {
			case 0:
				x.next++
				continue
			case 1:
				v = nil
			case 2:
				v = nd.U64("number")
			case 3:
				v = "text"
			case 4:
				v = map[string]any{}
			case 5:
				v = []any{}
			default:
				v = x.wrong(m)
			}
		}
		x.next++
		o[m.name] = v
	}
	return o
}

// longNum are the numbers of more than 32 bits.
var longNum = map[string]bool{"ptsTime": true, "duration": true, "ptsAdjustment": true, "taiSeconds": true, "segmentationDuration": true, "ptsOffset": true}

// wrong gives a value which is none for the member.
func (x *damage) wrong(m member) any {
	switch m.v.(type) {
	case map[string]any, []any:
		if x.how == 6 {
			return "text"
		}
		nd.Assume(x.how == 7)
		return true
	case bool:
		if x.how == 6 {
			return "true"
		}
		nd.Assume(x.how == 7)
		return nd.U32("number")
	case string:
		if x.how == 6 {
			return nd.U32("number")
		}
		nd.Assume(x.how == 7 && (m.name == "privateBytes" || m.name == "utcSpliceTime"))
		return "0" + nd.Text("text", 2, "alnum")
	}
	switch x.how {
	case 6:
		return "1"
	case 7:
		return -1 - int64(nd.U32("negative"))
	case 8:
		nd.Assume(!longNum[m.name])
		n := nd.U64("large")
		nd.Assume(n >= 1<<32)
		return n
	}
	return true
}

// WrongJSON: a JSON document with a value of the wrong type or out of range is
// refused.
func WrongJSON() {
	x := &damage{at: nd.Choice("member", 25), how: 6 + nd.Choice("how", 4)}
	b, err := json.Marshal(x.doc(nd.Choice("doc", 13)))
	must(err, "marshalling the document")
	nd.Assume(x.at < x.next)
	nd.ObserveS("json", string(b))
	nd.Assert(json.Unmarshal(b, &scte35.SpliceInfoSection{}) != nil, "a document with a wrong value is refused")
	nd.Reach("end")
}

func (x *damage) time() map[string]any {
	return x.obj(member{"ptsTime", nd.Bits("pts", 33)})
}

func (x *damage) brk() map[string]any {
	return x.obj(member{"autoReturn", true}, member{"duration", nd.Bits("dur", 33)})
}

func (x *damage) doc(k int) map[string]any {
	var c, d any
	c = map[string]any{"type": 0}
	ds := []any{}
	switch k {
	case 0:
		c = x.obj(member{"type", 5}, member{"spliceEventId", nd.U32("id")}, member{"program", x.obj(member{"spliceTime", x.time()})},
			member{"breakDuration", x.brk()}, member{"outOfNetworkIndicator", true}, member{"availNum", 1})
	case 1:
		c = x.obj(member{"type", 5}, member{"components", []any{x.obj(member{"componentTag", nd.U8("tag")}, member{"spliceTime", x.time()}), nil}})
	case 2:
		c = x.obj(member{"type", 4}, member{"events", []any{x.obj(member{"spliceEventId", nd.U32("id")}, member{"breakDuration", x.brk()},
			member{"program", x.obj(member{"utcSpliceTime", "2024-02-29T12:00:00Z"})}), nil}})
	case 3:
		c = x.obj(member{"type", 4}, member{"events", []any{x.obj(member{"spliceEventCancelIndicator", false},
			member{"components", []any{x.obj(member{"componentTag", nd.U8("tag")}, member{"utcSpliceTime", "2024-02-29T12:00:00Z"}), nil}})}})
	case 4:
		c = x.obj(member{"type", 6}, member{"spliceTime", x.time()})
	case 5:
		c = x.obj(member{"type", 255}, member{"identifier", nd.U32("id")}, member{"privateBytes", "0102"})
	case 6:
		d = x.obj(member{"type", 0}, member{"providerAvailId", nd.U32("id")})
	case 7:
		d = x.obj(member{"type", 1}, member{"preroll", nd.U8("pre")}, member{"chars", "12#"})
	case 8:
		d = x.obj(member{"type", 3}, member{"taiSeconds", nd.Bits("s", 48)}, member{"taiNs", 5}, member{"utcOffset", 37})
	case 9:
		d = x.obj(member{"type", 4}, member{"audioChannels", []any{x.obj(member{"componentTag", nd.U8("tag")}, member{"isoCode", "eng"}, member{"bitStreamMode", 2},
			member{"numChannels", 3}, member{"fullSrvcAudio", true}), nil}})
	case 10:
		id := nd.U32("id")
		nd.Assume(id != scte35.CUEIdentifier)
		d = x.obj(member{"type", 9}, member{"identifier", id}, member{"privateBytes", "0102"})
	case 11:
		d = x.obj(member{"type", 2}, member{"segmentationEventId", nd.U32("id")}, member{"segmentationDuration", nd.Bits("dur", 40)}, member{"segmentationTypeId", 0x34},
			member{"deliveryRestrictions", x.obj(member{"archiveAllowedFlag", true}, member{"deviceRestrictions", 2})},
			member{"components", []any{x.obj(member{"componentTag", nd.U8("tag")}, member{"ptsOffset", nd.Bits("off", 33)}), nil}},
			member{"subSegmentNum", 1}, member{"subSegmentsExpected", 2})
	case 12:
		d = x.obj(member{"type", 2}, member{"segmentationUpids", []any{
			x.obj(member{"segmentationUpidType", 12}, member{"formatIdentifier", nd.U32("fi")}, member{"segmentationUpidFormat", "base-64"}, member{"value", "AQID"}),
			x.obj(member{"segmentationUpidType", 8}, member{"value", "12345"}), nil}})
	default:
		d = nil
	}
	if k > 5 {
		ds = append(ds, map[string]any{"type": 0, "providerAvailId": 7}, d)
	}
	return x.obj(member{"encryptedPacket", x.obj(member{"encryptionAlgorithm", 0}, member{"cwIndex", 3})},
		member{"spliceCommand", c}, member{"spliceDescriptors", ds}, member{"sapType", nd.Bits("sap", 2)}, member{"ptsAdjustment", nd.Bits("adj", 33)},
		member{"protocolVersion", 0}, member{"tier", nd.Bits("tier", 12)})
}

// JSONParts: a JSON document with one member left out, null or of another type
// is refused or read into a section which can be used, and encoded when it has a
// command.
func JSONParts() {
	x := &damage{at: nd.Choice("member", 25), how: nd.Choice("how", nDamage)}
	b, err := json.Marshal(x.doc(nd.Choice("doc", 14)))
	must(err, "marshalling the document")
	nd.Assume(x.at < x.next)
	nd.ObserveS("json", string(b))
	s := &scte35.SpliceInfoSection{}
	if json.Unmarshal(b, s) != nil {
		nd.Reach("unread")
		return
	}
	touch(s)
	sound(s, false)
}

// touch renders a section in every form.
func touch(d *scte35.SpliceInfoSection) {
	_ = d.Table("", "\t")
	_ = d.Duration()
	_, err := json.Marshal(d)
	must(err, "what was read has a JSON form")
	_, err = xml.Marshal(d)
	nd.Assert(err == nil || d.SpliceCommand == nil, "what was read has an XML form")
}

// texts are the attributes which are no numbers.
var texts = map[string]bool{"chars": true, "ISOCode": true, "utcSpliceTime": true, "segmentationUpidFormat": true, "autoReturn": true,
	"archiveAllowedFlag": true, "FullSrvcAudio": true, "outOfNetworkIndicator": true}

type attr struct{ name, value string }

const ns = ` xmlns="http://www.scte.org/schemas/35"`

// el is an element; the one attribute or child may be missing.
func (x *damage) el(name string, as []attr, kids ...string) string {
	t := "<" + name + ns
	for _, a := range as {
		v := a.value
		if x.next == x.at {
			switch x.how {
			case 0:
				x.next++
				continue
			case 1:
				v = ""
			case 2:
				v = "text"
			case 4, 5, 6:
				v = x.wrongAttr(a)
			default:
				if v = "2"; !texts[a.name] {
					v = dec(nd.U64("number"))
				}
			}
		}
		x.next++
		t += " " + a.name + `="` + v + `"`
	}
	t += ">"
	for _, k := range kids {
		if x.next == x.at {
			nd.Assume(x.how < 4)
			switch x.how {
			case 0:
				k = ""
			case 1:
				k += k
			case 2:
				k = "text"
			default:
				k = "<Ext" + ns + "></Ext>"
			}
		}
		x.next++
		t += k
	}
	return t + "</" + name + ">"
}

// wrongAttr gives a value which is none for the attribute.
func (x *damage) wrongAttr(a attr) string {
	if texts[a.name] {
		nd.Assume(x.how == 4 && a.name != "chars" && a.name != "ISOCode" && a.name != "segmentationUpidFormat")
		return []string{"yes", "2", "2024-02-30T12:00:00Z"}[nd.Choice("text", 3)]
	}
	switch x.how {
	case 4:
		return []string{"x", "7x", "0x7", "7.5", "7 7"}[nd.Choice("text", 5)]
	case 5:
		return []string{"-1", "-4294967295"}[nd.Choice("negative", 2)]
	}
	nd.Assume(!longNum[a.name])
	n := nd.U64("large")
	nd.Assume(n >= 1<<32)
	return dec(n)
}

// WrongXML: the same for the attributes of XML documents.
func WrongXML() {
	x := &damage{at: nd.Choice("member", 20), how: 4 + nd.Choice("how", 3)}
	t := x.xdoc(nd.Choice("doc", 13))
	nd.Assume(x.at < x.next)
	nd.ObserveS("xml", t)
	nd.Assert(xml.Unmarshal([]byte(t), &scte35.SpliceInfoSection{}) != nil, "a document with a wrong value is refused")
	nd.Reach("end")
}

func dec(v uint64) string { return strconv.FormatUint(v, 10) }

func (x *damage) xtime() string {
	return x.el("SpliceTime", []attr{{"ptsTime", dec(nd.Bits("pts", 33))}})
}

func (x *damage) xbrk() string {
	return x.el("BreakDuration", []attr{{"autoReturn", "true"}, {"duration", dec(nd.Bits("dur", 33))}})
}

func (x *damage) xdoc(k int) string {
	c, d := "<SpliceNull"+ns+"></SpliceNull>", ""
	const day = "2024-02-29T12:00:00Z"
	tag := []attr{{"componentTag", dec(uint64(nd.U8("tag")))}}
	n := nd.U32("id")
	nd.Assume(n != scte35.CUEIdentifier)
	id := dec(uint64(n))
	switch k {
	case 0:
		c = x.el("SpliceInsert", []attr{{"spliceEventId", id}, {"outOfNetworkIndicator", "true"}, {"availNum", "1"}}, x.el("Program", nil, x.xtime()), x.xbrk())
	case 1:
		c = x.el("SpliceInsert", []attr{{"spliceEventId", id}}, x.el("Component", tag, x.xtime()), x.el("Component", tag))
	case 2:
		c = x.el("SpliceSchedule", nil, x.el("Event", []attr{{"spliceEventId", id}}, x.el("Program", []attr{{"utcSpliceTime", day}}), x.xbrk()))
	case 3:
		c = x.el("SpliceSchedule", nil, x.el("Event", []attr{{"spliceEventId", id}}, x.el("Component", append(tag, attr{"utcSpliceTime", day}))))
	case 4:
		c = x.el("TimeSignal", nil, x.xtime())
	case 5:
		c = x.el("PrivateCommand", []attr{{"identifier", id}}, "0102")
	case 6:
		d = x.el("AvailDescriptor", []attr{{"providerAvailId", id}})
	case 7:
		d = x.el("DTMFDescriptor", []attr{{"preroll", "5"}, {"chars", "12#"}})
	case 8:
		d = x.el("TimeDescriptor", []attr{{"taiSeconds", dec(nd.Bits("s", 48))}, {"taiNs", "5"}, {"utcOffset", "37"}})
	case 9:
		d = x.el("AudioDescriptor", nil, x.el("AudioChannel", append(tag, attr{"ISOCode", "eng"}, attr{"BitStreamMode", "2"}, attr{"NumChannels", "3"}, attr{"FullSrvcAudio", "true"})))
	case 10:
		d = x.el("PrivateDescriptor", []attr{{"tag", "9"}, {"identifier", id}}, "0102")
	case 11:
		d = x.el("SegmentationDescriptor", []attr{{"segmentationEventId", id}, {"segmentationDuration", dec(nd.Bits("dur", 40))}, {"segmentationTypeId", "52"},
			{"subSegmentNum", "1"}, {"subSegmentsExpected", "2"}}, x.el("DeliveryRestrictions", []attr{{"archiveAllowedFlag", "true"}, {"deviceRestrictions", "2"}}),
			x.el("Component", append(tag, attr{"ptsOffset", dec(nd.Bits("off", 33))})))
	default:
		d = x.el("SegmentationDescriptor", []attr{{"segmentationEventId", id}},
			x.el("SegmentationUpid", []attr{{"segmentationUpidType", "12"}, {"formatIdentifier", dec(uint64(nd.U32("fi")))}, {"segmentationUpidFormat", "base-64"}}, "AQID"),
			x.el("SegmentationUpid", []attr{{"segmentationUpidType", "8"}}, "12345"))
	}
	return x.el("SpliceInfoSection", []attr{{"sapType", dec(nd.Bits("sap", 2))}, {"ptsAdjustment", dec(nd.Bits("adj", 33))}, {"protocolVersion", "0"}, {"tier", dec(nd.Bits("tier", 12))}},
		x.el("EncryptedPacket", []attr{{"encryptionAlgorithm", "0"}, {"cwIndex", "3"}}), c, d)
}

// XMLParts: the same for XML, with one attribute or child left out or replaced.
func XMLParts() {
	x := &damage{at: nd.Choice("member", 20), how: nd.Choice("how", 4)}
	t := x.xdoc(nd.Choice("doc", 13))
	nd.Assume(x.at < x.next)
	nd.ObserveS("xml", t)
	s := &scte35.SpliceInfoSection{}
	if xml.Unmarshal([]byte(t), s) != nil {
		nd.Reach("unread")
		return
	}
	touch(s)
	sound(s, false)
}
