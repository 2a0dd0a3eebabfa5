package core

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("Together", Together)
	reg("TogetherRich", TogetherRich)
	reg("TogetherBad", TogetherBad)
	reg("TogetherMake", TogetherMake)
}

// Together: decoding, reading, printing and encoding different sections at the same
// time, even from the same bytes or document and next to a section nobody changes.
func Together()     { together(tabledContent()) }
func TogetherRich() { together(tabledRich(nd.Choice("order", size(1, 4)))) }

func together(s *scte35.SpliceInfoSection) {
	form := nd.Choice("form", 5)
	b := refLayout(s, nil).build()
	text := ""
	var doc []byte
	var err error
	switch form {
	case 1:
		text = base64.StdEncoding.EncodeToString(b)
	case 2:
		text = "0x" + hex.EncodeToString(b)
	case 3:
		doc, err = json.Marshal(s)
	case 4:
		doc, err = xml.Marshal(s)
	}
	must(err, "a section has a document")
	other := &scte35.SpliceInfoSection{}
	must(other.Decode(b), "decode succeeds")
	nd.Together(func() {
		keep(other)
		d := &scte35.SpliceInfoSection{}
		switch form {
		case 0:
			_ = d.Decode(b)
		case 1:
			d, _ = scte35.DecodeBase64(text)
		case 2:
			d, _ = scte35.DecodeHex(text)
		case 3:
			_ = json.Unmarshal(doc, d)
		default:
			_ = xml.Unmarshal(doc, d)
		}
		askAll(d)
		scribbleBy(d, 1)
		_, _ = d.Encode()
	})
	nd.Reach("end")
}

// keep makes s one of the variables of a function.
func keep(s *scte35.SpliceInfoSection) {}

// askAll asks a section for everything it has to say.
func askAll(d *scte35.SpliceInfoSection) {
	_, _ = d.Encode()
	_ = d.Base64()
	_ = d.Hex()
	_ = d.Table("", "\t")
	_, _ = json.Marshal(d)
	_, _ = xml.Marshal(d)
	_ = d.Duration()
	_ = d.SAPTypeName()
	for _, x := range d.SpliceDescriptors {
		if sd, ok := x.(*scte35.SegmentationDescriptor); ok {
			_ = sd.Name()
			_ = sd.SegmentationUpidLength()
			for i := range sd.SegmentationUPIDs {
				_ = sd.SegmentationUPIDs[i].Name()
				if len(d.SpliceDescriptors) == 1 { // one case for each sort of each character
					_ = sd.SegmentationUPIDs[i].ASCIIValue()
				}
			}
		}
	}
}

// TogetherBad: the same for sections which do not decode.
func TogetherBad() {
	s := tabledContent()
	l := refLayout(s, nil)
	b := l.build()
	text := ""
	switch nd.Choice("fault", 4) {
	case 0: // wrong checksum
		b[len(b)-1] ^= 1
	case 1: // cut short
		b = b[:len(b)-4-nd.Choice("cut", 3)]
	case 2: // malformed descriptor
		l.descs = append(append([]byte{}, badDesc()...), l.descs...)
		b = l.build()
	default:
		text = "0x!"
	}
	nd.Together(func() {
		d := &scte35.SpliceInfoSection{}
		if text == "" {
			_ = d.Decode(b)
			_, _ = scte35.DecodeHex(hex.EncodeToString(b))
		} else {
			d, _ = scte35.DecodeHex(text)
			_, _ = scte35.DecodeBase64(text)
			_ = json.Unmarshal([]byte(text), d)
			_ = xml.Unmarshal([]byte(text), d)
		}
		askAll(d)
	})
	nd.Reach("end")
}

// TogetherMake: making commands, descriptors and UPIDs of any kind.
func TogetherMake() {
	t, id, tag := nd.U32("type"), nd.U32("id"), nd.U32("tag")
	ut := uint32(nd.U8("upid"))
	v := []byte(nd.Text("value", pick("n", 2, 4, 8, 12), "word"))
	ticks := nd.Bits("ticks", 40)
	part := nd.Choice("part", 4)
	nd.Together(func() {
		switch part {
		case 0:
			s := &scte35.SpliceInfoSection{SpliceCommand: scte35.NewSpliceCommand(t)}
			_, _ = s.Encode()
			scribbleBy(s, 1)
			_, _ = s.Encode()
		case 1:
			s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}}
			s.SpliceDescriptors = append(s.SpliceDescriptors, scte35.NewSpliceDescriptor(id, tag))
			_, _ = s.Encode()
			scribbleBy(s, 1)
			_, _ = s.Encode()
		case 2:
			u := scte35.NewSegmentationUPID(ut, v)
			if u.FormatIdentifier != nil {
				*u.FormatIdentifier ^= 1
			}
			d := &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{u}}
			_ = d.SegmentationUpidLength()
			_ = u.Name()
		default:
			c := scte35.NewTimeSignal(ticks)
			*c.SpliceTime.PTSTime ^= 1
			p := scte35.NewSpliceInsertProgram(ticks)
			*p.SpliceTime.PTSTime ^= 1
			_ = scte35.DurationToTicks(scte35.TicksToDuration(ticks))
			_ = scte35.NewUTCSpliceTime(uint32(ticks)).GPSSeconds()
		}
	})
	nd.Reach("end")
}
