package nd

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"io"
)

// Ways of writing a document in another way.
const (
	JSONReversed = iota // members in the reverse order
	JSONExtended        // objects with members of another program
	XMLReversed         // attributes in the reverse order
	XMLExtended         // elements with attributes of another program
	Spellings
)

// Foreign is the name of members and attributes of another program.
const Foreign = "x-vendor"

// Respell writes a document in another way, which means the same.
func Respell(doc []byte, how int) []byte {
	var b bytes.Buffer
	if how == JSONReversed || how == JSONExtended {
		d := json.NewDecoder(bytes.NewReader(doc))
		d.UseNumber()
		if respellJSON(d, &b, how) != nil {
			return nil
		}
		return b.Bytes()
	}
	if respellXML(xml.NewDecoder(bytes.NewReader(doc)), &b, how) != nil {
		return nil
	}
	return b.Bytes()
}

func respellJSON(d *json.Decoder, b *bytes.Buffer, how int) error {
	t, err := d.Token()
	if err != nil {
		return err
	}
	switch t {
	case json.Delim('['):
		b.WriteByte('[')
		for n := 0; d.More(); n++ {
			if n > 0 {
				b.WriteByte(',')
			}
			if err := respellJSON(d, b, how); err != nil {
				return err
			}
		}
		b.WriteByte(']')
		_, err = d.Token()
		return err
	case json.Delim('{'):
		var all [][]byte
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return err
			}
			var m bytes.Buffer
			name, _ := json.Marshal(k)
			m.Write(name)
			m.WriteByte(':')
			if err := respellJSON(d, &m, how); err != nil {
				return err
			}
			all = append(all, m.Bytes())
		}
		if how == JSONReversed {
			for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
				all[i], all[j] = all[j], all[i]
			}
		} else {
			all = append([][]byte{[]byte(`"` + Foreign + `":{"type":3,"value":"x"}`)}, all...)
		}
		b.WriteByte('{')
		b.Write(bytes.Join(all, []byte(",")))
		b.WriteByte('}')
		_, err = d.Token()
		return err
	}
	v, err := json.Marshal(t)
	b.Write(v)
	return err
}

func respellXML(d *xml.Decoder, b *bytes.Buffer, how int) error {
	name := func(n xml.Name) {
		if n.Space != "" {
			b.WriteString(n.Space + ":")
		}
		b.WriteString(n.Local)
	}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		switch x := t.(type) {
		case xml.StartElement:
			b.WriteByte('<')
			name(x.Name)
			as := append([]xml.Attr(nil), x.Attr...)
			if how == XMLReversed {
				for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
					as[i], as[j] = as[j], as[i]
				}
			} else {
				as = append([]xml.Attr{{Name: xml.Name{Local: Foreign}, Value: "3"}}, as...)
			}
			for _, a := range as {
				b.WriteByte(' ')
				name(a.Name)
				b.WriteString(`="`)
				_ = xml.EscapeText(b, []byte(a.Value))
				b.WriteByte('"')
			}
			b.WriteByte('>')
		case xml.EndElement:
			b.WriteString("</")
			name(x.Name)
			b.WriteByte('>')
		case xml.CharData:
			_ = xml.EscapeText(b, x)
		}
	}
}
