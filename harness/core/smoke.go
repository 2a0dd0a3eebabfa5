package core

import (
	"bytes"
	"encoding/base64"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

func init() { Registry["SmokeRT"] = SmokeRT }

func SmokeRT() {
	pts := nd.Bits("pts", 33)
	s := scte35.SpliceInfoSection{
		SAPType:         uint32(nd.Bits("sap", 2)),
		ProtocolVersion: uint32(nd.U8("pv")),
		Tier:            uint32(nd.Bits("tier", 12)),
		PTSAdjustment:   nd.Bits("adj", 33),
		SpliceCommand:   &scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: &pts}},
	}
	b, err := s.Encode()
	nd.Assert(err == nil, "encode ok")
	nd.ObserveS("b", string(b))
	var d scte35.SpliceInfoSection
	err = d.Decode(b)
	nd.Assert(err == nil, "decode ok")
	nd.Assert(d.SAPType == s.SAPType, "sap")
	nd.Assert(d.Tier == s.Tier, "tier")
	nd.Assert(d.PTSAdjustment == s.PTSAdjustment, "adj")
	ts, ok := d.SpliceCommand.(*scte35.TimeSignal)
	nd.Assert(ok, "type")
	nd.Assert(ts.SpliceTime.PTSTime != nil && *ts.SpliceTime.PTSTime == pts, "pts")
	b2, err := d.Encode()
	nd.Assert(err == nil && bytes.Equal(b, b2), "reencode")
	nd.Reach("end")
}

func init() { reg("Smoke64", Smoke64) }

// Smoke64 checks that tables of tables are folded by the engine.
func Smoke64() {
	b := nd.Bytes("b", 6)
	b[2] ^= b[1]
	c, err := base64.StdEncoding.DecodeString(base64.StdEncoding.EncodeToString(b))
	must(err, "d")
	eqBytes(c, b, "x")
	nd.Reach("end")
}
