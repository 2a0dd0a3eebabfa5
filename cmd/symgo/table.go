// Code generated by tools/props.py. DO NOT EDIT.

package main

var props = []Prop{
	{ID: "C01", Hs: []H{{Name: "RTCommand"}, {Name: "RTBig"}},
		Quick:    "every command kind, every value of every numeric field within its SCTE 35 width, every flag; up to 2 components, 2 events, 8 private bytes; also 7, 40 and 255 components, events or private bytes",
		Thorough: "as quick with up to 3 components, 3 events, 12 private bytes; large lists of 7, 31, 64, 130, 255 (600 private bytes)",
		Outside:  "other list lengths; field values wider than the SCTE 35 field; times together with the immediate flag; reserved command types"},
	{ID: "C02", Hs: []H{{Name: "RTDescriptor"}, {Name: "RTSegmentation"}, {Name: "RTUPID"}, {Name: "RTSection"}, {Name: "RTBig"}},
		Quick:    "every descriptor kind with every field value; segmentation descriptors with up to 1 component, every UPID type, lists of up to 3 UPIDs of few bytes; two descriptors after any command; large lists of 7, 40, 255",
		Thorough: "as quick with longer lists, UPIDs and texts, and more large list lengths",
		Outside:  "longer lists; UPID text with leading or trailing blanks; UPIDs of undefined length (TI not 8 bytes, EIDR not 12 bytes, MPU under 4 bytes); MID of one UPID"},
	{ID: "C03", Hs: []H{{Name: "RTHeader"}},
		Quick:    "every value of every header field; every command kind; with and without a descriptor; encryption algorithms 0 to 63; up to 3 stuffing bytes",
		Thorough: "as quick with more command structure",
		Outside:  "an encrypted flag with algorithm 0; the contents of encrypted sections are treated as clear text by the library"},
	{ID: "C04", Hs: []H{{Name: "LayoutCommand"}, {Name: "LayoutDescriptor"}, {Name: "LayoutHeader"}, {Name: "LayoutBig"}},
		Quick:    "every command with up to 2 repeated parts, every descriptor with up to 1 repeated part and every UPID kind; all numeric values, all header fields; also one list of 7, 40 or 255 parts of each kind (components, events, UPIDs, descriptors, bytes, text); compared with an independent layout written from SCTE 35",
		Thorough: "up to 3 repeated parts in commands and 2 in descriptors; such lists of 7 to 255 parts, private bytes up to 600",
		Outside:  "other list lengths; values wider than their fields (see C07)"},
	{ID: "C05", Hs: []H{{Name: "DecodeCommand"}, {Name: "DecodeDescriptor"}, {Name: "DecodeSegmentation"}, {Name: "DecodeUPID"}, {Name: "DecodeHeader"}, {Name: "DecodeBig"}},
		Quick:    "every command and descriptor with up to 1 repeated part and large lists of 7, 40, 255; all numeric values and reserved bits; every UPID kind",
		Thorough: "longer lists",
		Outside:  "longer lists"},
	{ID: "C06", Hs: []H{{Name: "CanonicalCommand"}, {Name: "CanonicalDescriptor"}, {Name: "CanonicalSegmentation"}, {Name: "CanonicalUPID"}, {Name: "CanonicalStuffing"}, {Name: "CanonicalBig"}},
		Quick:    "every command and descriptor with up to 1 repeated part; all numeric values; every UPID kind; up to 4 or 40 stuffing bytes; also one list of 7, 40 or 255 parts of each kind (components, events, UPIDs, descriptors, bytes, text)",
		Thorough: "longer lists; such lists of 7 to 255 parts, private bytes up to 600",
		Outside:  "legacy sections (C14); reserved command types; duplicate or unusual UPID forms listed under C02"},
	{ID: "C07", Hs: []H{{Name: "Oversize", Reach: []string{"encoded", "refused"}}, {Name: "WideCommand"}, {Name: "WideDescriptor"}, {Name: "WideHeader"}, {Name: "LengthsTrue", Quick: 150}, {Name: "OddCommand", Reach: []string{"encoded"}}, {Name: "OddDescriptor", Reach: []string{"encoded", "refused"}}, {Name: "OddUPID", Reach: []string{"encoded"}}},
		Quick:    "private commands and descriptors, components, events, UPIDs, MIDs, DTMF and audio channels, descriptor lists, and commands with descriptors at every limit of a length or count field, around it and past its wrap-around; every 32 or 64 bit value of every numeric field but the encryption algorithm; length fields of every command with up to two descriptors",
		Thorough: "as quick with more repeated parts",
		Outside:  "sizes away from the limits (C01, C02); more than twice the limit"},
	{ID: "C08", Hs: []H{{Name: "CRCEmitted"}, {Name: "CRCAccept", Reach: []string{"accepted", "rejected"}}},
		Quick:    "every command kind and descriptor kind, all numeric values, all CRC values, sections of about 1000, 2000 and 4000 bytes; CRC compared with an independent bitwise CRC-32/MPEG-2",
		Thorough: "more structure",
		Outside:  "longer lists"},
	{ID: "C09", Hs: []H{{Name: "CRCBurst", Quick: 150}, {Name: "CRCBurstBody"}, {Name: "CRCShort", Quick: 120}},
		Quick:    "every position and pattern of 32 consecutive bits in representative sections of each command and descriptor kind; every buffer shorter than 15 bytes",
		Thorough: "more sections",
		Outside:  "other section structures; corruptions spread over more than 32 bits (no CRC_32 detects all of those)"},
	{ID: "C10", Hs: []H{{Name: "ArbBytes"}, {Name: "ArbCommand"}, {Name: "ArbDescriptor"}, {Name: "ArbDescriptors"}, {Name: "ArbSegmentation"}, {Name: "ArbUPID"}, {Name: "ArbMID"}},
		Quick:    "all buffers of up to 18 bytes; command payloads of up to 10 bytes, descriptor payloads of up to 13, descriptor loops of up to 8, segmentation descriptors of up to 8 bytes after the event id, UPIDs of up to 5 bytes; MIDs of two UPIDs, one of any type, up to 3 bytes and any length field; counts of events and components 0, 1, 2 and 255 in commands",
		Thorough: "buffers of up to 25 bytes; payloads of 16, 20, 12, 12, 7 and 4 bytes",
		Outside:  "longer buffers; memory use"},
	{ID: "C11", Hs: []H{{Name: "UseBytes"}, {Name: "UseCommand"}, {Name: "UseDescriptor"}, {Name: "UseDescriptors"}, {Name: "UseSegmentation"}, {Name: "UseUPID"}, {Name: "UseMID"}},
		Quick:    "all buffers of up to 18 bytes; command payloads of up to 8 bytes, descriptor payloads of up to 9, descriptor loops of up to 7, segmentation descriptors of up to 6 bytes after the event id, UPIDs of up to 2 free bytes of every type, alone or in a MID; up to 2 repeated parts",
		Thorough: "buffers of up to 25 bytes; payloads of 14, 12, 8, 10 and 3 bytes",
		Outside:  "more repeated parts; longer payloads; more than two UPIDs of unusual types within a MID"},
	{ID: "C12", Hs: []H{{Name: "TruncatedCommand"}, {Name: "ExtendedCommand"}, {Name: "TruncatedDescriptor"}, {Name: "ExtendedDescriptor"}, {Name: "TruncatedSection"}, {Name: "TruncatedRich"}, {Name: "RichParts"}},
		Quick:    "every command and descriptor kind with fixed and optional structure and sections of several parts of every sort, any part of which may be the faulty one, every cut byte, 1 to 3 extra bytes, all field values",
		Thorough: "more structure and extra bytes",
		Outside:  "the inside of MID UPIDs, where the library logs and carries on by design; private commands and descriptors, whose payload may have any length"},
	{ID: "C13", Hs: []H{{Name: "LengthOverrun"}, {Name: "DescriptorOverrun"}, {Name: "CountOverrun"}},
		Quick:    "every larger value of splice_command_length (below 0xFFF) and descriptor_loop_length, for every command; of descriptor_length, for every kind at every place among 3 descriptors; of segmentation_upid_length, dtmf_count, audio_count, splice_count and component_count",
		Thorough: "as quick, 4 descriptors after every command",
		Outside:  "section_length, which the library documents as informative; lengths inside of MID UPIDs"},
	{ID: "C14", Hs: []H{{Name: "LegacyLength"}, {Name: "LegacyBig"}},
		Quick:    "every command kind but private, up to 1 repeated part, with and without a descriptor, all values; also one list of 7, 40 or 255 parts of each kind (components, events, UPIDs, descriptors, bytes, text)",
		Thorough: "longer lists; such lists of 7 to 255 parts, private bytes up to 600",
		Outside:  "private_command, whose length cannot be known"},
	{ID: "C15", Hs: []H{{Name: "JSONCommand"}, {Name: "JSONDescriptor"}, {Name: "JSONHeader"}, {Name: "JSONBig"}},
		Quick:    "every command and descriptor kind, up to 2 repeated parts, all numeric values, every UPID kind, all header fields, texts with blanks; also one list of 7, 40 or 255 parts of each kind (components, events, UPIDs, descriptors, bytes, text)",
		Thorough: "up to 3 repeated parts; such lists of 7 to 255 parts, private bytes up to 600",
		Outside:  "texts with characters outside the printable ASCII range; alignment stuffing, which has no JSON form"},
	{ID: "C16", Hs: []H{{Name: "XMLCommand"}, {Name: "XMLDescriptor"}, {Name: "XMLHeader"}, {Name: "XMLBig"}},
		Quick:    "every command and descriptor kind, up to 2 repeated parts, all numeric values, every UPID kind, all header fields, texts with blanks; also one list of 7, 40 or 255 parts of each kind (components, events, UPIDs, descriptors, bytes, text)",
		Thorough: "up to 3 repeated parts; such lists of 7 to 255 parts, private bytes up to 600",
		Outside:  "texts with characters outside the printable ASCII range; alignment stuffing, which has no XML form"},
	{ID: "C17", Hs: []H{{Name: "JSONNames"}, {Name: "JSONRead"}},
		Quick:    "every command and every single descriptor, up to 1 repeated part, all numeric values and header fields, read and written through independent document types",
		Thorough: "up to 2 repeated parts",
		Outside:  "several descriptors at once; members outside the documented ones"},
	{ID: "C18", Hs: []H{{Name: "XMLNames"}, {Name: "XMLRead"}, {Name: "XMLPrivate", Reach: []string{"read"}}, {Name: "XMLAudioFlag", Reach: []string{"read"}}},
		Quick:    "every command and every single descriptor, up to 1 repeated part, all numeric values and header fields, read and written through independent document types",
		Thorough: "up to 2 repeated parts",
		Outside:  "several descriptors at once; the order of elements; Ext elements"},
	{ID: "C19", Hs: []H{{Name: "JSONParts", Reach: []string{"encoded", "refused", "unread"}}, {Name: "XMLParts", Reach: []string{"encoded", "refused", "unread"}}},
		Quick:    "14 JSON and 13 XML documents, which between them have every member, attribute and element; any one left out, null or empty, doubled, or replaced by any 64 bit number, a text, an object or an array",
		Thorough: "as quick",
		Outside:  "several damaged parts at once; nil descriptors in Go values; private descriptors with the identifier CUEI; malformed JSON or XML text, which the standard library refuses"},
	{ID: "C20", Hs: []H{{Name: "UPIDText"}, {Name: "UPIDBinary"}, {Name: "UPIDLength"}, {Name: "UPIDLong"}},
		Quick:    "every type; texts of up to 3 characters of every byte value but leading and trailing blanks, and of 8, 12, 32 or 64 printable ones; TI of every value; ISAN and MPU up to 6 bytes",
		Thorough: "longer texts and byte strings",
		Outside:  "leading and trailing blanks, which the library trims by design; lengths a type does not have"},
	{ID: "C21", Hs: []H{{Name: "EIDRForms"}, {Name: "EIDROther"}},
		Quick:    "every prefix and suffix value, letters of either case",
		Thorough: "as quick",
		Outside:  "texts which are not canonical EIDRs"},
	{ID: "C22", Hs: []H{{Name: "TicksDown"}, {Name: "TicksUp"}, {Name: "TicksBack"}},
		Quick:    "every 40 bit tick count; every duration up to that of 2^40 ticks",
		Thorough: "as quick",
		Outside:  "negative durations; more than 2^40 ticks"},
	{ID: "C23", Hs: []H{{Name: "Durations"}, {Name: "DurationMany"}},
		Quick:    "every command kind, descriptor lists up to 2, all duration values; also 7, 12 or 40 segments with and without durations among other descriptors",
		Thorough: "as quick with up to 3 descriptors",
		Outside:  "longer lists"},
	{ID: "C24", Hs: []H{{Name: "UTCTime"}},
		Quick:    "every 32 bit value",
		Thorough: "as quick",
		Outside:  "GPS leap seconds, which the library does not apply; instants outside the range"},
	{ID: "C25", Hs: []H{{Name: "TableHeader"}, {Name: "TableCommand"}, {Name: "TableDescriptor"}, {Name: "TableUPID"}, {Name: "TableMany"}, {Name: "TableSection"}, {Name: "TableValues"}},
		Quick:    "every command, descriptor and UPID kind, also 7, 12 and 40 parts of a kind and three descriptors after any command, every segmentation type, text UPID type and preroll of one byte, all values of numbers; utc_splice_times, prerolls and segmentation types from representative values; up to 2 repeated entries",
		Thorough: "up to 3 repeated entries, longer UPIDs",
		Outside:  "other times and prerolls; rows a cancelled segmentation descriptor shows beyond its fields; control characters in texts"},
	{ID: "C26", Hs: []H{{Name: "SegNames"}, {Name: "UPIDNames"}, {Name: "EIDRNames"}, {Name: "HeaderNames"}, {Name: "Flags"}},
		Quick:    "all 256 values of each identifier, all presence combinations",
		Thorough: "as quick",
		Outside:  "values outside the width of the field"},
	{ID: "C27", Hs: []H{{Name: "EntryPoints"}, {Name: "EntryBad"}, {Name: "EntryErrors"}, {Name: "BytesText"}, {Name: "EntryBig"}},
		Quick:    "every command kind with one structure and all values; also one list of 7, 40 or 255 parts of each kind; every value of every single byte of representative sections; printable texts of up to 3 characters",
		Thorough: "texts up to 5 characters",
		Outside:  "other base64 alphabets"},
	{ID: "C28", Hs: []H{{Name: "Repeatable"}, {Name: "RepeatableUPID"}, {Name: "RepeatableBig"}, {Name: "RepeatTwice"}},
		Quick:    "every command and descriptor kind with one structure and all values; UPIDs of every kind; one operation in between, also with one list of 9 parts of each kind; two operations in between on sections of several parts of every sort",
		Thorough: "as quick, with lists of 40 parts",
		Outside:  "longer sequences; concurrent use"},
	{ID: "C29", Hs: []H{{Name: "NoAliasInput"}, {Name: "NoAliasOutput"}, {Name: "NoAliasBig"}},
		Quick:    "every command and descriptor kind with one structure, all values, with and without stuffing, also with one list of 9 parts of each kind and several parts of every sort; overwritten by exclusive-or with any byte",
		Thorough: "as quick",
		Outside:  "other structures"},
	{ID: "C30", Hs: []H{{Name: "Reuse"}, {Name: "ReuseDoc"}, {Name: "ReuseBig"}},
		Quick:    "every command and descriptor kind with one structure then every command kind with and without a descriptor, all values, with and without stuffing; also a list of 9 parts of each kind then several parts of every sort",
		Thorough: "as quick",
		Outside:  "more than two decodes; alignment stuffing kept when a document is read into a section decoded from bytes"},
	{ID: "C31", Hs: []H{{Name: "CLIDecode"}, {Name: "CLIDecodeBad"}, {Name: "CLIDecodeRich"}},
		Quick:    "every command and descriptor kind with one structure and all numeric values; every output format; sections of several parts of every sort as JSON and XML; all wrong checksums; malformed texts up to 4 characters",
		Thorough: "as quick",
		Outside:  "exit status and usage text; symbolic times and preroll in tables; other flags"},
	{ID: "C32", Hs: []H{{Name: "CLIEncode"}, {Name: "CLIEncodeBad"}, {Name: "CLIEncodeText"}},
		Quick:    "every command and descriptor kind with one structure and all values; compact and indented documents; up to 70000 blanks around; malformed documents of representative kinds and texts up to 4 characters; texts within documents of up to 2 characters, any printable ones",
		Thorough: "as quick",
		Outside:  "exit status and usage text; other white space inside documents; documents the sections of which cannot be encoded"},
	{ID: "C33", Hs: []H{{Name: "ASCII"}, {Name: "ASCIILong"}},
		Quick:    "every UPID kind, up to 4 bytes; also 12, 40 or 200 bytes of MPU, ISAN and URI, one of them any byte",
		Thorough: "up to 6 bytes",
		Outside:  "longer values"},
	{ID: "C34", Hs: []H{{Name: "DescriptorIsolation"}, {Name: "UnknownDescriptor"}, {Name: "Reserved"}, {Name: "IsolationRich"}},
		Quick:    "lists of three descriptors, and of several of every kind, with a malformed one at each position; payloads of up to 4 bytes for unknown tags",
		Thorough: "longer payloads",
		Outside:  "descriptor lengths which exceed the loop (C13)"},
	{ID: "C35", Hs: []H{{Name: "Independent"}, {Name: "IndependentDoc"}, {Name: "IndependentBig"}},
		Quick:    "every command and descriptor kind with one structure and all values for each of the two sections, also one list of 9 parts of each kind and several parts of every sort; documents with the same content twice; numbers and bytes of one changed by exclusive-or with any byte",
		Thorough: "as quick",
		Outside:  "concurrent use; other structures"},
	{ID: "C36", Hs: []H{{Name: "KindTruncatedCommand"}, {Name: "KindExtendedCommand"}, {Name: "KindTruncatedDescriptor"}, {Name: "KindExtendedDescriptor"}, {Name: "KindTruncatedSection"}, {Name: "KindTruncatedRich"}, {Name: "KindRichParts"}, {Name: "CRCAccept", Reach: []string{"accepted", "rejected"}}, {Name: "EntryBad"}},
		Quick:    "every command and descriptor kind with one structure and all values, cut at every byte or extended by up to 3 bytes; sections with up to 2 descriptors and of several parts of every sort; all wrong checksums; printable texts of up to 3 characters",
		Thorough: "more structures; texts up to 5 characters",
		Outside:  "sections with several faults"},
	{ID: "C37", Hs: []H{{Name: "Constructors"}},
		Quick:    "all 33 bit times, all 32 bit types, identifiers and tags",
		Thorough: "as quick",
		Outside:  "times of more than 33 bits"},
	{ID: "C38", Hs: []H{{Name: "WrongJSON"}, {Name: "WrongXML"}},
		Quick:    "documents of every command and descriptor kind with one wrong member or attribute: another JSON type, any negative or too large number, malformed numbers, flags, times and bytes",
		Thorough: "as quick",
		Outside:  "several wrong values; names of DTMF and ISO texts; numbers which fit the Go type but not the SCTE 35 field (C07)"},
	{ID: "C39", Hs: []H{{Name: "TableNesting"}},
		Quick:    "every command with up to 2 and segmentation descriptors with up to 1 repeated parts, audio descriptors with up to 2, also 12 of each, all numeric values; three prefixes and indents",
		Thorough: "up to 2 repeated parts",
		Outside:  "longer lists; texts of UPIDs with control characters"},
	{ID: "C40", Hs: []H{{Name: "Together"}, {Name: "TogetherRich"}, {Name: "TogetherBad"}, {Name: "TogetherMake"}},
		Quick:    "every command and descriptor kind with one structure and all values, lists of several parts of every sort, malformed sections and texts, all constructors; every schedule, as no write of the code under test or of what it calls reaches memory another goroutine can",
		Thorough: "as quick",
		Outside:  "one section changed by several goroutines; synchronised sharing, the order of which is not explored"},
	{ID: "C41", Hs: []H{{Name: "Respelt"}, {Name: "RespeltRich"}},
		Quick:    "documents of every command and descriptor kind with one structure and all values and of sections of several parts of every sort; the reverse order in all objects and elements; a foreign member before all others in every object, with a type and a value of its own, a foreign attribute before all others in every element",
		Thorough: "more orders of descriptors",
		Outside:  "other orders than the reverse one; foreign elements, which the library takes for descriptors and refuses; repeated members"},
	{ID: "C42", Hs: []H{{Name: "KeptTruncated"}, {Name: "KeptTruncatedRich"}, {Name: "KeptFaulty", Reach: []string{"crc", "extra"}}, {Name: "KeptText"}},
		Quick:    "every command and descriptor kind with one structure and all values, and sections of several parts of every sort, cut at every byte; all wrong checksums; 1 to 3 bytes too many in a command; printable texts of up to 3 characters",
		Thorough: "more orders of descriptors; texts up to 5 characters",
		Outside:  "the part the section ends in; what follows a faulty command; malformed descriptors (C34)"},
}
