package core

import (
	"encoding/base64"
	"fmt"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/nd"
)

// A reference encoder written from the tables of ANSI/SCTE 35, independent of
// the code under test.

type bits struct {
	b    []byte
	free uint          // unused bits of the last byte
	rsv  func() uint64 // value of the next reserved bits (all ones when nil)
}

// put appends the low n bits of v.
func (w *bits) put(n uint, v uint64) {
	for n > 0 {
		if w.free == 0 {
			w.b = append(w.b, 0)
			w.free = 8
		}
		k := n
		if k > w.free {
			k = w.free
		}
		n -= k
		chunk := byte(v>>n) & byte(1<<k-1)
		w.free -= k
		w.b[len(w.b)-1] |= chunk << w.free
	}
}

func (w *bits) flag(f bool) {
	v := uint64(0)
	if f {
		v = 1
	}
	w.put(1, v)
}

func (w *bits) reserved(n uint) {
	if w.rsv != nil {
		w.put(n, w.rsv())
		return
	}
	w.put(n, 0xff)
}

func (w *bits) bytes(b []byte) {
	for _, x := range b {
		w.put(8, uint64(x))
	}
}

func (w *bits) u32(n uint, v uint32) { w.put(n, uint64(v)) }

// anyReserved gives every reserved bit an arbitrary value.
func anyReserved() uint64 { return uint64(nd.U8("rsv")) }

// spliceTime is splice_time() (table 14).
func (w *bits) spliceTime(p *uint64) {
	if p != nil {
		w.put(1, 1)
		w.reserved(6)
		w.put(33, *p)
		return
	}
	w.put(1, 0)
	w.reserved(7)
}

// breakDuration is break_duration() (table 15).
func (w *bits) breakDuration(d *scte35.BreakDuration) {
	w.flag(d.AutoReturn)
	w.reserved(6)
	w.put(33, d.Duration)
}

// refCmdType is splice_command_type (table 7).
func refCmdType(c scte35.SpliceCommand) uint64 {
	switch c.(type) {
	case *scte35.SpliceNull:
		return 0
	case *scte35.SpliceSchedule:
		return 4
	case *scte35.SpliceInsert:
		return 5
	case *scte35.TimeSignal:
		return 6
	case *scte35.BandwidthReservation:
		return 7
	}
	return 0xff
}

const gpsEpoch = 315964800

func gps(t scte35.UTCSpliceTime) uint64 { return uint64(t.Time.Unix()-gpsEpoch) & 0xffffffff }

// refCmd is the payload of a command (tables 8 to 13).
func refCmd(c scte35.SpliceCommand, rsv func() uint64) []byte {
	w := &bits{rsv: rsv}
	switch x := c.(type) {
	case *scte35.SpliceNull, *scte35.BandwidthReservation:
	case *scte35.TimeSignal:
		w.spliceTime(x.SpliceTime.PTSTime)
	case *scte35.PrivateCommand:
		w.u32(32, x.Identifier)
		w.bytes(x.PrivateBytes)
	case *scte35.SpliceInsert:
		w.u32(32, x.SpliceEventID)
		w.flag(x.SpliceEventCancelIndicator)
		w.reserved(7)
		if x.SpliceEventCancelIndicator {
			break
		}
		w.flag(x.OutOfNetworkIndicator)
		w.flag(x.Program != nil)
		w.flag(x.BreakDuration != nil)
		w.flag(x.SpliceImmediateFlag)
		w.reserved(4)
		if x.Program != nil {
			if !x.SpliceImmediateFlag {
				w.spliceTime(x.Program.SpliceTime.PTSTime)
			}
		} else {
			w.put(8, uint64(len(x.Components)))
			for i := range x.Components {
				k := &x.Components[i]
				w.u32(8, k.Tag)
				if !x.SpliceImmediateFlag {
					if k.SpliceTime != nil {
						w.spliceTime(k.SpliceTime.PTSTime)
					} else {
						w.spliceTime(nil)
					}
				}
			}
		}
		if x.BreakDuration != nil {
			w.breakDuration(x.BreakDuration)
		}
		w.u32(16, x.UniqueProgramID)
		w.u32(8, x.AvailNum)
		w.u32(8, x.AvailsExpected)
	case *scte35.SpliceSchedule:
		w.put(8, uint64(len(x.Events)))
		for i := range x.Events {
			e := &x.Events[i]
			w.u32(32, e.SpliceEventID)
			w.flag(e.SpliceEventCancelIndicator)
			w.flag(!e.EventIDComplianceFlag)
			w.reserved(6)
			if e.SpliceEventCancelIndicator {
				continue
			}
			w.flag(e.OutOfNetworkIndicator)
			w.flag(e.Program != nil)
			w.flag(e.BreakDuration != nil)
			w.reserved(5)
			if e.Program != nil {
				w.put(32, gps(e.Program.UTCSpliceTime))
			} else {
				w.put(8, uint64(len(e.Components)))
				for j := range e.Components {
					w.u32(8, e.Components[j].Tag)
					w.put(32, gps(e.Components[j].UTCSpliceTime))
				}
			}
			if e.BreakDuration != nil {
				w.breakDuration(e.BreakDuration)
			}
			w.u32(16, e.UniqueProgramID)
			w.u32(8, e.AvailNum)
			w.u32(8, e.AvailsExpected)
		}
	}
	return w.b
}

const cuei = 0x43554549

// refDescBody is a descriptor without its tag and length (tables 16 to 27).
func refDescBody(d scte35.SpliceDescriptor, rsv func() uint64) (tag uint64, body []byte) {
	w := &bits{rsv: rsv}
	switch x := d.(type) {
	case *scte35.AvailDescriptor:
		tag = 0
		w.put(32, cuei)
		w.u32(32, x.ProviderAvailID)
	case *scte35.DTMFDescriptor:
		tag = 1
		w.put(32, cuei)
		w.u32(8, x.Preroll)
		w.put(3, uint64(len(x.DTMFChars)))
		w.reserved(5)
		w.bytes([]byte(x.DTMFChars))
	case *scte35.SegmentationDescriptor:
		tag = 2
		w.put(32, cuei)
		w.seg(x)
	case *scte35.TimeDescriptor:
		tag = 3
		w.put(32, cuei)
		w.put(48, x.TAISeconds)
		w.u32(32, x.TAINS)
		w.u32(16, x.UTCOffset)
	case *scte35.AudioDescriptor:
		tag = 4
		w.put(32, cuei)
		w.put(4, uint64(len(x.AudioChannels)))
		w.reserved(4)
		for i := range x.AudioChannels {
			a := &x.AudioChannels[i]
			w.u32(8, a.ComponentTag)
			w.bytes([]byte(a.ISOCode))
			w.u32(3, a.BitStreamMode)
			w.u32(4, a.NumChannels)
			w.flag(a.FullSrvcAudio)
		}
	case *scte35.PrivateDescriptor:
		tag = uint64(x.PrivateTag)
		w.u32(32, x.Identifier)
		w.bytes(x.PrivateBytes)
	default:
		nd.Assert(false, fmt.Sprintf("unexpected descriptor %T", d))
	}
	return tag, w.b
}

func (w *bits) seg(x *scte35.SegmentationDescriptor) {
	w.u32(32, x.SegmentationEventID)
	w.flag(x.SegmentationEventCancelIndicator)
	w.flag(!x.SegmentationEventIDComplianceIndicator)
	w.reserved(6)
	if x.SegmentationEventCancelIndicator {
		return
	}
	w.flag(len(x.Components) == 0)
	w.flag(x.SegmentationDuration != nil)
	w.flag(x.DeliveryRestrictions == nil)
	if r := x.DeliveryRestrictions; r != nil {
		w.flag(r.WebDeliveryAllowedFlag)
		w.flag(r.NoRegionalBlackoutFlag)
		w.flag(r.ArchiveAllowedFlag)
		w.u32(2, r.DeviceRestrictions)
	} else {
		w.reserved(5)
	}
	if len(x.Components) > 0 {
		w.put(8, uint64(len(x.Components)))
		for i := range x.Components {
			w.u32(8, x.Components[i].Tag)
			w.reserved(7)
			w.put(33, x.Components[i].PTSOffset)
		}
	}
	if x.SegmentationDuration != nil {
		w.put(40, *x.SegmentationDuration)
	}
	switch len(x.SegmentationUPIDs) {
	case 0:
		w.put(8, 0)
		w.put(8, 0)
	case 1:
		u := &x.SegmentationUPIDs[0]
		v := refUPID(u)
		w.u32(8, u.Type)
		w.put(8, uint64(len(v)))
		w.bytes(v)
	default: // MID()
		m := &bits{}
		for i := range x.SegmentationUPIDs {
			u := &x.SegmentationUPIDs[i]
			v := refUPID(u)
			m.u32(8, u.Type)
			m.put(8, uint64(len(v)))
			m.bytes(v)
		}
		w.put(8, 0x0d)
		w.put(8, uint64(len(m.b)))
		w.bytes(m.b)
	}
	w.u32(8, x.SegmentationTypeID)
	w.u32(8, x.SegmentNum)
	w.u32(8, x.SegmentsExpected)
	if x.SubSegmentNum != nil {
		w.u32(8, *x.SubSegmentNum)
		w.u32(8, *x.SubSegmentsExpected)
	}
}

// refUPID is the binary form of a UPID made by genUPID.
func refUPID(u *scte35.SegmentationUPID) []byte {
	switch u.Type {
	case 5, 6:
		b, err := base64.StdEncoding.DecodeString(u.Value)
		must(err, "reference base64")
		return b
	case 0xc:
		b, err := base64.StdEncoding.DecodeString(u.Value)
		must(err, "reference base64")
		w := &bits{}
		w.u32(32, *u.FormatIdentifier)
		w.bytes(b)
		return w.b
	case 8:
		w := &bits{}
		w.put(64, lastTI)
		return w.b
	case 0xa:
		return lastEIDR
	}
	return []byte(u.Value)
}

// crcTable is built from the generator polynomial of ISO/IEC 13818-1 annex A.
var crcTable = func() (t [256]uint32) {
	for i := range t {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		t[i] = c
	}
	return
}()

// refCRC is the MPEG-2 CRC_32.
func refCRC(b []byte) uint32 {
	c := ^uint32(0)
	for _, x := range b {
		c = c<<8 ^ crcTable[byte(c>>24)^x]
	}
	return c
}

// layout describes a section to put together byte by byte.
type layout struct {
	h        *scte35.SpliceInfoSection
	cmdType  uint64
	cmd      []byte
	descs    []byte // the whole descriptor loop
	stuffing []byte
	rsv      func() uint64

	legacy  bool // splice_command_length 0xFFF
	cmdLen  *uint64
	loopLen *uint64
	noCRC   bool
}

// build puts a splice_info_section together (table 5).
func (l *layout) build() []byte {
	w := &bits{rsv: l.rsv}
	crypt := l.h.EncryptedPacket.EncryptionAlgorithm != 0
	n := 11 + len(l.cmd) + 2 + len(l.descs) + len(l.stuffing) + 4
	if crypt {
		n += 4
	}
	w.put(8, 0xfc)
	w.put(1, 0)
	w.put(1, 0)
	w.u32(2, l.h.SAPType)
	w.put(12, uint64(n))
	w.u32(8, l.h.ProtocolVersion)
	w.flag(crypt)
	w.u32(6, l.h.EncryptedPacket.EncryptionAlgorithm)
	w.put(33, l.h.PTSAdjustment)
	w.u32(8, l.h.EncryptedPacket.CWIndex)
	w.u32(12, l.h.Tier)
	switch {
	case l.legacy:
		w.put(12, 0xfff)
	case l.cmdLen != nil:
		w.put(12, *l.cmdLen)
	default:
		w.put(12, uint64(len(l.cmd)))
	}
	w.put(8, l.cmdType)
	w.bytes(l.cmd)
	if l.loopLen != nil {
		w.put(16, *l.loopLen)
	} else {
		w.put(16, uint64(len(l.descs)))
	}
	w.bytes(l.descs)
	w.bytes(l.stuffing)
	if crypt {
		w.u32(32, refCRC(w.b))
	}
	if !l.noCRC {
		w.u32(32, refCRC(w.b))
	}
	return w.b
}

// refDesc is a descriptor with its tag and length.
func refDesc(d scte35.SpliceDescriptor, rsv func() uint64) []byte {
	tag, body := refDescBody(d, rsv)
	w := &bits{}
	w.put(8, tag)
	w.put(8, uint64(len(body)))
	w.bytes(body)
	return w.b
}

// refLayout is the layout of a section value.
func refLayout(s *scte35.SpliceInfoSection, rsv func() uint64) *layout {
	l := &layout{h: s, cmdType: refCmdType(s.SpliceCommand), cmd: refCmd(s.SpliceCommand, rsv), rsv: rsv}
	for _, d := range s.SpliceDescriptors {
		l.descs = append(l.descs, refDesc(d, rsv)...)
	}
	return l
}
