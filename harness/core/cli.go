package core

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"strings"

	"github.com/Comcast/scte35-go/cmd"
	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() {
	reg("CLIDecode", CLIDecode)
	reg("CLIDecodeBad", CLIDecodeBad)
	reg("CLIEncode", CLIEncode)
	reg("CLIEncodeBad", CLIEncodeBad)
	reg("CLIEncodeText", CLIEncodeText)
}

// cli runs the command line with the given standard input and arguments.
func cli(stdin string, args ...string) (stdout, stderr string, err error) {
	stdout, stderr = nd.Streams(stdin, func() {
		c := cmd.SCTE35()
		c.SilenceUsage, c.SilenceErrors = true, true
		c.SetArgs(args)
		err = c.Execute()
	})
	return
}

// shown is content whose texts and times are not arbitrary.
func shown() *scte35.SpliceInfoSection {
	s := content()
	switch x := s.SpliceCommand.(type) {
	case *scte35.PrivateCommand:
		x.Identifier = 0x41424344
	case *scte35.SpliceSchedule:
		x.Events[0].Program.UTCSpliceTime = scte35.NewUTCSpliceTime(someTimes[nd.Choice("time", len(someTimes))])
	}
	for _, d := range s.SpliceDescriptors {
		switch x := d.(type) {
		case *scte35.PrivateDescriptor:
			x.Identifier = 0x41424344
		case *scte35.DTMFDescriptor:
			x.Preroll = 123
		case *scte35.SegmentationDescriptor:
			x.SegmentationTypeID = 0x10
			x.DeliveryRestrictions.DeviceRestrictions = 2
		}
	}
	return s
}

// rendered is what decode is to print for a section in a format.
func rendered(s *scte35.SpliceInfoSection, form int) string {
	switch form {
	case 2:
		b, err := json.MarshalIndent(s, "", "\t")
		must(err, "a section has a JSON form")
		return string(b) + "\n"
	case 3:
		b, err := xml.MarshalIndent(s, "", "\t")
		must(err, "a section has an XML form")
		return string(b) + "\n"
	}
	return s.Table("", "\t") + "\n"
}

// decodeArgs is a way to ask for the decoding of text.
func decodeArgs(text string, form int) []string {
	switch form {
	case 0:
		return []string{"decode", text}
	case 1:
		return []string{"decode", "--out=text", text}
	case 2:
		if nd.Choice("order", 2) == 1 {
			return []string{"decode", text, "--out", "json"}
		}
		return []string{"decode", "--out", "json", text}
	}
	return []string{"decode", "--out=xml", text}
}

// CLIDecode: decode prints what a section holds, in the format asked for.
func CLIDecode() {
	s := shown()
	form := nd.Choice("form", 4)
	text := ""
	b := refLayout(s, nil).build()
	if nd.Choice("text", 2) == 1 {
		text = base64.StdEncoding.EncodeToString(b)
	} else {
		text = "0x" + hex.EncodeToString(b)
	}
	out, msg, err := cli("", decodeArgs(text, form)...)
	must(err, "decode of a section succeeds")
	d := &scte35.SpliceInfoSection{}
	must(d.Decode(b), "reference decode")
	nd.Assert(msg == "", "decode of a section reports no error")
	nd.Assert(out == rendered(d, form), "decode prints the section in the format asked for")
	nd.Reach("end")
}

// CLIDecodeBad: decode reports what is wrong with a text and shows what could be
// decoded of it.
func CLIDecodeBad() {
	form := nd.Choice("form", 4)
	var text string
	d := &scte35.SpliceInfoSection{}
	switch nd.Choice("what", 4) {
	case 0: // a wrong CRC_32
		s := shown()
		l := refLayout(s, nil)
		l.noCRC = true
		b := l.build()
		x := nd.U32("crc.error")
		nd.Assume(x != 0)
		c := refCRC(b) ^ x
		b = append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
		nd.Assert(d.Decode(b) != nil, "a wrong CRC_32 is an error")
		text = base64.StdEncoding.EncodeToString(b)
	case 1: // the end is missing
		b := refLayout(plain(oneCmd(nd.Choice("cmd", nCmd))), nil).build()
		b = b[:pick("left", 0, 5, 14, 17, len(b)-1)]
		nd.Assume(d.Decode(b) != nil)
		text = "0x" + hex.EncodeToString(b)
		d = nil
	case 2: // not hexadecimal
		text = "0x" + nd.Text("text", 1+nd.Choice("n", 3), "word") + "g"
	default: // not base64
		text = nd.Text("text", 1+nd.Choice("n", 3), "alnum") + "!"
	}
	out, msg, err := cli("", decodeArgs(text, form)...)
	nd.Assert(err != nil || msg != "", "decode reports an error")
	if d != nil && err == nil {
		nd.Assert(out == rendered(d, form), "decode shows what could be decoded")
	}
	nd.Reach("end")
}

// CLIEncode: encode prints base64 and hexadecimal forms of the section a JSON or
// XML document describes, from the argument or standard input.
func CLIEncode() {
	s := content()
	var doc []byte
	var err error
	switch nd.Choice("doc", 4) {
	case 0:
		doc, err = json.Marshal(s)
	case 1:
		doc, err = json.MarshalIndent(s, "", "\t")
	case 2:
		doc, err = xml.Marshal(s)
	default:
		doc, err = xml.MarshalIndent(s, "", "\t")
	}
	must(err, "a section has a document")
	text, in := string(doc), ""
	switch nd.Choice("space", 3) {
	case 1:
		text = " \r\n\t" + text + "\n"
	case 2:
		text += strings.Repeat(" ", 70000)
	}
	args := []string{"encode", text}
	if nd.Choice("stdin", 2) == 1 {
		in, args = text, args[:1]
	}
	out, msg, err := cli(in, args...)
	must(err, "encode of a document succeeds")
	nd.Assert(msg == "", "encode of a document reports no error")
	b, err := s.Encode()
	must(err, "a section has an encoding")
	nd.Assert(out == fmt.Sprintf("Base64: %s\nHex   : %s\n", base64.StdEncoding.EncodeToString(b), hex.EncodeToString(b)), "encode prints the base64 and hexadecimal forms of the section")
	nd.Reach("end")
}

// CLIEncodeText: whatever characters the texts of a document hold, it is read as
// the kind of document it is.
func CLIEncodeText() {
	t := nd.Text("text", 1+nd.Choice("n", size(2, 3)), "word")
	xmlDoc := nd.Choice("doc", 2) == 1
	for i := 0; i < len(t); i++ {
		if xmlDoc {
			nd.Assume(t[i] != '<')
			nd.Assume(t[i] != '&')
			nd.Assume(t[i] != ']') // ]]> is not XML
		} else {
			nd.Assume(t[i] != '"')
			nd.Assume(t[i] != '\\')
		}
	}
	text, in := "", ""
	if xmlDoc {
		text = `<SpliceInfoSection xmlns="http://www.scte.org/schemas/35" sapType="3" tier="5"><SpliceNull/><SegmentationDescriptor segmentationTypeId="16"><SegmentationUpid segmentationUpidType="15">` + t + `</SegmentationUpid></SegmentationDescriptor></SpliceInfoSection>`
	} else {
		text = `{"spliceCommand": {"type": 0}, "tier": 5, "spliceDescriptors": [{"type": 2, "segmentationTypeId": 16, "segmentationUpids": [{"segmentationUpidType": 15, "value": "` + t + `"}]}]}`
	}
	args := []string{"encode", text}
	if nd.Choice("stdin", 2) == 1 {
		in, args = text, args[:1]
	}
	out, msg, err := cli(in, args...)
	must(err, "encode of a document succeeds")
	nd.Assert(msg == "", "encode of a document reports no error")
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, Tier: 5, SAPType: 3, SpliceDescriptors: scte35.SpliceDescriptors{
		&scte35.SegmentationDescriptor{SegmentationTypeID: 16, SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 15, Value: t}}}}}
	b := refLayout(s, nil).build()
	nd.Assert(out == fmt.Sprintf("Base64: %s\nHex   : %s\n", base64.StdEncoding.EncodeToString(b), hex.EncodeToString(b)), "encode prints the base64 and hexadecimal forms of the section")
	nd.Reach("end")
}

// CLIEncodeBad: encode reports what is wrong with a document and prints nothing
// for it.
func CLIEncodeBad() {
	text, in := "", ""
	switch nd.Choice("what", 7) {
	case 0:
	case 1: // neither JSON nor XML
		t := nd.Text("text", 1+nd.Choice("n", 3), "word")
		nd.Assume(t[0] != '{')
		nd.Assume(t[0] != '<')
		nd.Assume(t[0] != '-') // a flag
		text = t
	case 2:
		text = `{"spliceCommand": {"type": 0}, "tier": 4095`
	case 3:
		text = `{"spliceCommand": {"type": 0}, "tier": "many"}`
	case 4:
		text = `<SpliceInfoSection tier="many"><SpliceNull/></SpliceInfoSection>`
	case 5:
		text = `{"spliceCommand": {"type": 6, "spliceTime": {"ptsTime": "soon"}}, "tier": 4095}`
	default:
		text = `<SpliceInfoSection tier="4095"><SpliceNull/>`
	}
	args := []string{"encode", text}
	if nd.Choice("stdin", 2) == 1 {
		in, args = text, args[:1]
	}
	out, msg, err := cli(in, args...)
	nd.Assert(err != nil || msg != "", "encode reports an error")
	nd.Assert(out == "", "encode prints nothing but the error")
	nd.Reach("end")
}
