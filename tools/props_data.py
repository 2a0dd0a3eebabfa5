# Executed by props.py.

SECENC = ('SpliceInfoSection.Encode', SIS)
SECDEC = ('SpliceInfoSection.Decode', SIS)

prop('C01', 'Splice commands survive binary encode and decode',
     'Encoding a section whose splice command holds any values that fit their SCTE 35 fields, then decoding the bytes, gives back a command of the same kind with every field, flag, optional part and repeated part unchanged and in order.',
     ['inputs'], 'every command kind, every combination of flags and optional parts, all values of all numeric fields, all lists up to the bound',
     'The tests decode and re-encode a dozen recorded sections; they never reach most flag combinations, cancelled events, component mode without times, or boundary values of 33 bit times.',
     [SIS] + CMDS, [SECENC, SECDEC, ('SpliceInsert.encode/decode', INS), ('SpliceSchedule.encode/decode', SCH)],
     ['RTCommand', 'RTBig'],
     'every command kind, every value of every numeric field within its SCTE 35 width, every flag; up to 2 components, 2 events, 8 private bytes; also 7, 40 and 255 components, events or private bytes',
     'as quick with up to 3 components, 3 events, 12 private bytes; large lists of 7, 31, 64, 130, 255 (600 private bytes)',
     'other list lengths; field values wider than the SCTE 35 field; times together with the immediate flag; reserved command types')

prop('C02', 'Splice descriptors survive binary encode and decode, in order',
     'Encoding a section with any list of splice descriptors whose values fit their SCTE 35 fields, then decoding the bytes, gives back the same descriptors of the same kinds in the same order with every field, optional part, component and UPID unchanged.',
     ['inputs'], 'every descriptor kind, every combination of flags and optional parts, every UPID type, all numeric values, all texts and byte strings up to the bound',
     'The recorded sections of the tests hold a handful of segmentation descriptors; audio and DTMF descriptors, delivery restrictions, sub-segments, MID lists and most UPID types and values are hardly touched.',
     [SIS, DESC] + DESCS + [UPID, DR], [('SpliceDescriptors decoding', DESC), ('SegmentationDescriptor.encode/decode', SEG), ('SegmentationUPID.valueBytes/NewSegmentationUPID', UPID)],
     ['RTDescriptor', 'RTSegmentation', 'RTUPID', 'RTSection', 'RTBig'],
     'every descriptor kind with every field value; segmentation descriptors with up to 1 component, every UPID type, lists of up to 3 UPIDs of few bytes; two descriptors after any command; large lists of 7, 40, 255',
     'as quick with longer lists, UPIDs and texts, and more large list lengths',
     'longer lists; UPID text with leading or trailing blanks; UPIDs of undefined length (TI not 8 bytes, EIDR not 12 bytes, MPU under 4 bytes); MID of one UPID')

prop('C03', 'Section header fields survive binary encode and decode',
     'The header fields of a section (sap_type, protocol_version, pts_adjustment, cw_index, tier, the encryption algorithm of an encrypted section and its alignment stuffing) are unchanged by encoding and decoding, whatever the command and descriptors.',
     ['inputs'], 'all values of all header fields, every command kind, with and without a descriptor and encryption',
     'In the recorded sections nearly every header field has one single value.',
     [SIS, ENC], [SECENC, SECDEC], ['RTHeader'],
     'every value of every header field; every command kind; with and without a descriptor; encryption algorithms 0 to 63; up to 3 stuffing bytes',
     'as quick with more command structure', 'an encrypted flag with algorithm 0; the contents of encrypted sections are treated as clear text by the library')

prop('C04', 'Encoded sections have the layout SCTE 35 prescribes',
     'The bytes of an encoded section are, bit for bit, those the syntax tables of SCTE 35 prescribe for its content: field positions and widths, reserved bits set to one, inverted indicators, length fields and conditional parts.',
     ['inputs'], 'every command and descriptor kind, every flag combination, all numeric values within their widths',
     'A mistake made alike in the encoder and the decoder survives every round trip test, and recorded sections show few of the bits.',
     [SIS] + CMDS + DESCS, [SECENC, ('encode methods of commands and descriptors', SIS)], ['LayoutCommand', 'LayoutDescriptor', 'LayoutHeader', 'LayoutBig'],
     'every command with up to 2 repeated parts, every descriptor with up to 1 repeated part and every UPID kind; all numeric values, all header fields; also one list of 7, 40 or 255 parts of each kind (components, events, UPIDs, descriptors, bytes, text); compared with an independent layout written from SCTE 35',
     'up to 3 repeated parts in commands and 2 in descriptors; such lists of 7 to 255 parts, private bytes up to 600', 'other list lengths; values wider than their fields (see C07)')

prop('C05', 'Sections laid out by other encoders decode to what they say',
     'A section laid out according to the SCTE 35 syntax tables decodes to exactly the values put into it, whatever the reserved bits hold.',
     ['inputs'], 'every command and descriptor kind, every flag combination, all numeric values, all values of all reserved bits',
     'The tests only have sections of a few encoders, which set all reserved bits; a decoder reading a reserved bit into a field passes them all.',
     [SIS] + CMDS + DESCS, [SECDEC, ('decode methods of commands and descriptors', SIS)],
     ['DecodeCommand', 'DecodeDescriptor', 'DecodeSegmentation', 'DecodeUPID', 'DecodeHeader', 'DecodeBig'],
     'every command and descriptor with up to 1 repeated part and large lists of 7, 40, 255; all numeric values and reserved bits; every UPID kind',
     'longer lists', 'longer lists')

prop('C06', 'Decoding and encoding again reproduces the bytes',
     'Decoding a section whose reserved bits are set as SCTE 35 asks and encoding the result gives the same bytes again, alignment stuffing included.',
     ['inputs'], 'every command and descriptor kind, every flag combination, all numeric values',
     'The tests do this for a dozen recordings; what is dropped or rewritten elsewhere goes unseen.',
     [SIS] + CMDS + DESCS, [SECDEC, SECENC], ['CanonicalCommand', 'CanonicalDescriptor', 'CanonicalSegmentation', 'CanonicalUPID', 'CanonicalStuffing', 'CanonicalBig'],
     'every command and descriptor with up to 1 repeated part; all numeric values; every UPID kind; up to 4 or 40 stuffing bytes; also one list of 7, 40 or 255 parts of each kind (components, events, UPIDs, descriptors, bytes, text)',
     'longer lists; such lists of 7 to 255 parts, private bytes up to 600', 'legacy sections (C14); reserved command types; duplicate or unusual UPID forms listed under C02')

prop('C07', 'Encoding gives a well formed section or an error',
     'Encoding either fails with an error or gives a section in which every length and count is true: content which does not fit its length or count field is refused, what fits is encoded, and a value too wide for its field never spills into the fields around it.',
     ['inputs'], 'lists, texts and byte strings of sizes at, below and above every length and count limit; every value of the Go types of all numeric fields',
     'No test encodes anything near a limit, or a value its field cannot hold.',
     [SIS] + CMDS + DESCS, [SECENC, ('encode and length methods of commands and descriptors', SIS)],
     [h('Oversize', reach=['encoded', 'refused']), 'WideCommand', 'WideDescriptor', 'WideHeader', h('LengthsTrue', q=150), h('OddCommand', reach=['encoded']), h('OddDescriptor', reach=['encoded', 'refused']), h('OddUPID', reach=['encoded'])],
     'private commands and descriptors, components, events, UPIDs, MIDs, DTMF and audio channels, descriptor lists, and commands with descriptors at every limit of a length or count field, around it and past its wrap-around; every 32 or 64 bit value of every numeric field but the encryption algorithm; length fields of every command with up to two descriptors',
     'as quick with more repeated parts', 'sizes away from the limits (C01, C02); more than twice the limit')

prop('C08', 'CRC_32 is emitted right and checked exactly',
     'An encoded section ends in the MPEG-2 CRC_32 of all bytes before it, also when it is encrypted; a well formed section is accepted exactly when its last four bytes are that CRC, and otherwise the CRC error is reported with the content decoded all the same.',
     ['inputs'], 'all contents of every command and descriptor kind and all values of the four CRC bytes',
     'There are 2^32 wrong CRC values for each section; the tests try a few.',
     [CRC, SIS, ENC], [('calculateCRC32/verifyCRC32', CRC), SECENC, SECDEC], ['CRCEmitted', h('CRCAccept', reach=['accepted', 'rejected'])],
     'every command kind and descriptor kind, all numeric values, all CRC values, sections of about 1000, 2000 and 4000 bytes; CRC compared with an independent bitwise CRC-32/MPEG-2',
     'more structure', 'longer lists')

prop('C09', 'Corrupted sections are never accepted',
     'A corruption of a section which is confined to any 32 consecutive bits is never accepted silently, and nothing shorter than a section is accepted at all.',
     ['inputs', 'fault_sequences'], 'every position and every nonzero pattern of up to 32 consecutive bits, over sections of fixed and of arbitrary content; every buffer of up to the bound',
     'There are billions of error patterns for each section; the tests flip none.',
     [CRC, SIS], [('verifyCRC32', CRC), SECDEC], [h('CRCBurst', q=150), 'CRCBurstBody', h('CRCShort', q=120)],
     'every position and pattern of 32 consecutive bits in representative sections of each command and descriptor kind; every buffer shorter than 15 bytes',
     'more sections', 'other section structures; corruptions spread over more than 32 bits (no CRC_32 detects all of those)')

prop('C10', 'Decoding arbitrary bytes ends without a panic',
     'Decoding any bytes whatever, well formed or not, ends and returns normally: with an error or a result, never with a panic, a hang or an access outside the buffer.',
     ['inputs'], 'every buffer up to the bound, every payload of every command and descriptor kind up to the bound, and every UPID type, inside an otherwise well formed section',
     'Length and count fields come from the wire; a single missing bounds check is only seen with the one combination that hits it.',
     [SIS, DESC] + CMDS + DESCS + [UPID], [SECDEC, ('NewSpliceDescriptor and the decode methods of descriptors', DESC), ('decode methods of commands', INS), ('NewSegmentationUPID', UPID)],
     ['ArbBytes', 'ArbCommand', 'ArbDescriptor', 'ArbDescriptors', 'ArbSegmentation', 'ArbUPID', 'ArbMID'],
     'all buffers of up to 18 bytes; command payloads of up to 10 bytes, descriptor payloads of up to 13, descriptor loops of up to 8, segmentation descriptors of up to 8 bytes after the event id, UPIDs of up to 5 bytes; MIDs of two UPIDs, one of any type, up to 3 bytes and any length field; counts of events and components 0, 1, 2 and 255 in commands',
     'buffers of up to 25 bytes; payloads of 16, 20, 12, 12, 7 and 4 bytes', 'longer buffers; memory use')

prop('C11', 'Whatever was decoded can be used',
     'Whatever decoding of arbitrary bytes left behind, with or without an error, can be printed as a table, marshalled to JSON and XML, encoded again and asked for its duration and names without a panic; what was decoded without an error has a JSON form and can be encoded.',
     ['inputs', 'histories'], 'every buffer and payload up to the bound followed by every operation',
     'A partly decoded section, or one with an odd combination of optional parts, is in a state no test sets up; callers print and log exactly those.',
     [SIS, DESC] + CMDS + DESCS + [UPID], [SECDEC, SECENC, ('SpliceInfoSection.Table', SIS), ('MarshalJSON/MarshalXML methods', DESC)],
     ['UseBytes', 'UseCommand', 'UseDescriptor', 'UseDescriptors', 'UseSegmentation', 'UseUPID', 'UseMID'],
     'all buffers of up to 18 bytes; command payloads of up to 8 bytes, descriptor payloads of up to 9, descriptor loops of up to 7, segmentation descriptors of up to 6 bytes after the event id, UPIDs of up to 2 free bytes of every type, alone or in a MID; up to 2 repeated parts',
     'buffers of up to 25 bytes; payloads of 14, 12, 8, 10 and 3 bytes', 'more repeated parts; longer payloads; more than two UPIDs of unusual types within a MID')

prop('C12', 'Truncated or extended payloads are reported',
     'A section in which a command or descriptor payload is too short for its fields or has bytes left over, or which is cut off at any byte, is reported as an error by decoding, whatever its CRC_32.',
     ['inputs', 'fault_sequences'], 'every command and descriptor kind, every cut position, all field values, all CRC values',
     'The tests hold only a few malformed sections, while there is a cut position for each field of each structure.',
     [SIS, PKG] + CMDS + DESCS, [SECDEC, ('readerError', PKG)], ['TruncatedCommand', 'ExtendedCommand', 'TruncatedDescriptor', 'ExtendedDescriptor', 'TruncatedSection', 'TruncatedRich', 'RichParts'],
     'every command and descriptor kind with fixed and optional structure and sections of several parts of every sort, any part of which may be the faulty one, every cut byte, 1 to 3 extra bytes, all field values',
     'more structure and extra bytes', 'the inside of MID UPIDs, where the library logs and carries on by design; private commands and descriptors, whose payload may have any length')

prop('C13', 'Length fields claiming more than there is are reported',
     'A section whose command length, descriptor loop length or descriptor length, or a count or length inside of a command or descriptor, claims more bytes than follow is reported as an error by decoding, whatever its CRC_32.',
     ['inputs', 'fault_sequences'], 'every value of the length fields beyond the true one, every command and descriptor kind',
     'The tests hold no such section; reading past one part into the next often looks like success.',
     [SIS, DESC], [SECDEC, ('SpliceDescriptors decoding', DESC)], ['LengthOverrun', 'DescriptorOverrun', 'CountOverrun'],
     'every larger value of splice_command_length (below 0xFFF) and descriptor_loop_length, for every command; of descriptor_length, for every kind at every place among 3 descriptors; of segmentation_upid_length, dtmf_count, audio_count, splice_count and component_count', 'as quick, 4 descriptors after every command',
     'section_length, which the library documents as informative; lengths inside of MID UPIDs')

prop('C14', 'Legacy sections without a command length decode like modern ones',
     'A section with the legacy splice_command_length 0xFFF decodes to the same content as the same section with the actual length.',
     ['inputs'], 'every command kind with self-delimiting syntax, with and without descriptors, all field values',
     'The tests hold one or two legacy sections.', [SIS] + CMDS, [SECDEC], ['LegacyLength', 'LegacyBig'],
     'every command kind but private, up to 1 repeated part, with and without a descriptor, all values; also one list of 7, 40 or 255 parts of each kind (components, events, UPIDs, descriptors, bytes, text)', 'longer lists; such lists of 7 to 255 parts, private bytes up to 600', 'private_command, whose length cannot be known')

prop('C15', 'Sections survive JSON',
     'Marshalling a section to JSON and unmarshalling it again gives the same header, command and descriptors with every field, optional part and repeated part unchanged.',
     ['inputs'], 'every command and descriptor kind, every flag combination, all numeric values, all header and encryption fields',
     'The tests marshal a few recorded sections.', [SIS, CMD, DESC] + CMDS + DESCS, [('SpliceInfoSection.MarshalJSON/UnmarshalJSON', SIS), ('SpliceDescriptors.UnmarshalJSON', DESC)],
     ['JSONCommand', 'JSONDescriptor', 'JSONHeader', 'JSONBig'],
     'every command and descriptor kind, up to 2 repeated parts, all numeric values, every UPID kind, all header fields, texts with blanks; also one list of 7, 40 or 255 parts of each kind (components, events, UPIDs, descriptors, bytes, text)', 'up to 3 repeated parts; such lists of 7 to 255 parts, private bytes up to 600',
     'texts with characters outside the printable ASCII range; alignment stuffing, which has no JSON form')

prop('C16', 'Sections survive XML',
     'Marshalling a section to XML and unmarshalling it again gives the same header, command and descriptors with every field, optional part and repeated part unchanged.',
     ['inputs'], 'every command and descriptor kind, every flag combination, all numeric values, all header and encryption fields',
     'The tests marshal a few recorded sections.', [SIS, CMD, DESC] + CMDS + DESCS, [('SpliceInfoSection.MarshalXML/UnmarshalXML', SIS), ('SpliceDescriptors.UnmarshalXML', DESC)],
     ['XMLCommand', 'XMLDescriptor', 'XMLHeader', 'XMLBig'],
     'every command and descriptor kind, up to 2 repeated parts, all numeric values, every UPID kind, all header fields, texts with blanks; also one list of 7, 40 or 255 parts of each kind (components, events, UPIDs, descriptors, bytes, text)', 'up to 3 repeated parts; such lists of 7 to 255 parts, private bytes up to 600',
     'texts with characters outside the printable ASCII range; alignment stuffing, which has no XML form')

prop('C17', 'JSON documents use the documented names and values',
     'The JSON form of a section has the member names, types and values the library documents, so that programs which do not use the library read it right, and documents written with those names are read field by field.',
     ['inputs'], 'every command and descriptor kind, every flag combination, all numeric values',
     'A name misspelt the same way on both sides, or a value written in another unit, survives every marshal and unmarshal round trip; the tests compare very few documents.',
     [SIS, CMD, DESC] + CMDS + DESCS, [('SpliceInfoSection.MarshalJSON/UnmarshalJSON', SIS), ('SpliceDescriptors.UnmarshalJSON', DESC)],
     ['JSONNames', 'JSONRead'],
     'every command and every single descriptor, up to 1 repeated part, all numeric values and header fields, read and written through independent document types', 'up to 2 repeated parts',
     'several descriptors at once; members outside the documented ones')

prop('C18', 'XML documents follow the SCTE 35 XML schema',
     'The XML form of a section has the element and attribute names, name space and values of the SCTE 35 XML schema, and documents written after the schema are read field by field, with the defaults of the schema for what they leave out.',
     ['inputs'], 'every command and descriptor kind, every flag combination, all numeric values',
     'A name misspelt the same way on both sides survives every marshal and unmarshal round trip; the tests compare very few documents.',
     [SIS, CMD, DESC] + CMDS + DESCS, [('SpliceInfoSection.MarshalXML/UnmarshalXML', SIS), ('SpliceDescriptors.UnmarshalXML', DESC)],
     ['XMLNames', 'XMLRead', h('XMLPrivate', reach=['read']), h('XMLAudioFlag', reach=['read'])],
     'every command and every single descriptor, up to 1 repeated part, all numeric values and header fields, read and written through independent document types', 'up to 2 repeated parts',
     'several descriptors at once; the order of elements; Ext elements')

prop('C19', 'Incomplete documents are refused or usable',
     'A JSON or XML document with a part left out, null, empty or of another type is refused by reading or gives a section which can be printed, marshalled and encoded without a panic; encoding refuses it or gives bytes which decode without an error.',
     ['inputs'], 'documents of every command and descriptor kind with any one member, attribute or element missing, null, empty, doubled or of another type, all numeric values',
     'Documents are written by hand and by other programs; there are hundreds of parts one of which can be missing, and tests read complete documents.',
     [SIS, CMD, DESC] + CMDS + DESCS, [('SpliceInfoSection.UnmarshalJSON/UnmarshalXML', SIS), ('SpliceDescriptors.UnmarshalJSON/UnmarshalXML', DESC), SECENC],
     [h('JSONParts', reach=['encoded', 'refused', 'unread']), h('XMLParts', reach=['encoded', 'refused', 'unread'])],
     '14 JSON and 13 XML documents, which between them have every member, attribute and element; any one left out, null or empty, doubled, or replaced by any 64 bit number, a text, an object or an array', 'as quick',
     'several damaged parts at once; nil descriptors in Go values; private descriptors with the identifier CUEI; malformed JSON or XML text, which the standard library refuses')

prop('C20', 'UPID values stand for their bytes, type by type',
     'Each segmentation UPID type turns bytes into its value and back as documented: text types character by character, TI as a decimal number, ISAN and MPU in base64, and the reported UPID length is the number of bytes encoded.',
     ['inputs'], 'every UPID type, all byte values up to the bound',
     'The tests check a handful of UPIDs of typical content.', [UPID, SEG], [('NewSegmentationUPID/valueBytes', UPID), ('SegmentationUpidLength', SEG)],
     ['UPIDText', 'UPIDBinary', 'UPIDLength', 'UPIDLong'], 'every type; texts of up to 3 characters of every byte value but leading and trailing blanks, and of 8, 12, 32 or 64 printable ones; TI of every value; ISAN and MPU up to 6 bytes', 'longer texts and byte strings',
     'leading and trailing blanks, which the library trims by design; lengths a type does not have')

prop('C21', 'Compact EIDR values and their canonical text are equivalent',
     'A 12 byte compact EIDR decodes to its canonical text, and that text, in upper or lower case, encodes to the same 12 bytes.',
     ['inputs'], 'all 2^96 compact EIDR values', 'The tests check two EIDRs.', [UPID], [('EIDR conversion', UPID)],
     ['EIDRForms', 'EIDROther'], 'every prefix and suffix value, letters of either case', 'as quick', 'texts which are not canonical EIDRs')

prop('C22', 'Ticks and durations convert exactly',
     'Converting 90 kHz ticks to a duration rounds down to the nanosecond, converting a duration to ticks rounds up, and ticks survive the conversion there and back.',
     ['inputs'], 'every tick count of up to 40 bits and every duration in that range', 'There are 2^40 values; floating point error shows for few of them.',
     [TIME, PKG], [('TicksToDuration/DurationToTicks', PKG)], ['TicksDown', 'TicksUp', 'TicksBack'],
     'every 40 bit tick count; every duration up to that of 2^40 ticks', 'as quick', 'negative durations; more than 2^40 ticks')

prop('C23', 'The duration of a section is that of its breaks and segments',
     'The duration of a section is the break duration of its splice_insert, if any, and otherwise the sum of the segmentation durations it carries, and zero for all other content.',
     ['inputs'], 'every command kind, up to three descriptors with and without durations, all values', 'The tests have a few sections.',
     [SIS, INS, SEG], [('SpliceInfoSection.Duration', SIS)], ['Durations', 'DurationMany'], 'every command kind, descriptor lists up to 2, all duration values; also 7, 12 or 40 segments with and without durations among other descriptors', 'as quick with up to 3 descriptors', 'longer lists')

prop('C24', 'UTC splice times denote the right instant',
     'A utc_splice_time of any number of seconds denotes that many seconds after 1980-01-06T00:00:00Z, and an instant converts back to the same number.',
     ['inputs'], 'all 2^32 values', 'The tests check one date; wrap-around shows only past 2106.', [TIME, SCH], [('UTCSpliceTime', TIME)], ['UTCTime'],
     'every 32 bit value', 'as quick', 'GPS leap seconds, which the library does not apply; instants outside the range')

prop('C25', 'Tables show every field with its value',
     'The table of a section has, in order, a row for each field the section has, with the value the section holds: header, command, descriptors, UPIDs and their names.',
     ['inputs'], 'every command, descriptor and UPID kind, all values of all fields', 'The tests compare a few sample tables; a row can show the wrong field or drop part of a value for other sections.',
     [TAB, SIS, SEG, INS, SCH, UPID], [('table.row/valueString', TAB), ('writeTo methods', SEG)], ['TableHeader', 'TableCommand', 'TableDescriptor', 'TableUPID', 'TableMany', 'TableSection', 'TableValues'],
     'every command, descriptor and UPID kind, also 7, 12 and 40 parts of a kind and three descriptors after any command, every segmentation type, text UPID type and preroll of one byte, all values of numbers; utc_splice_times, prerolls and segmentation types from representative values; up to 2 repeated entries', 'up to 3 repeated entries, longer UPIDs',
     'other times and prerolls; rows a cancelled segmentation descriptor shows beyond its fields; control characters in texts')

prop('C26', 'Names and derived flags follow SCTE 35',
     'Every segmentation type, UPID type, EIDR kind and sap_type has the name SCTE 35 gives it, unknown ones are named as such, and derived flags tell exactly which optional parts are there.',
     ['inputs'], 'every value of every identifier; every presence combination of optional parts', 'The tests look up a few names.',
     [SEG, UPID, SIS, INS], [('Name', SEG), ('Name', UPID), ('SAPTypeName', SIS), ('flags methods', SEG)],
     ['SegNames', 'UPIDNames', 'EIDRNames', 'HeaderNames', 'Flags'], 'all 256 values of each identifier, all presence combinations', 'as quick', 'values outside the width of the field')

prop('C27', 'Base64 and hexadecimal text decode like the bytes they stand for',
     'Base64 and hexadecimal text, the latter in either case and with or without 0x, decodes to what its bytes decode to, errors included; text which is neither is reported as unsupported, and a section is returned in every case.',
     ['inputs'], 'every command kind with all values; every single byte corruption of representative sections; every short text', 'The tests decode valid text and very few invalid ones.',
     [PKG], [('DecodeBase64/DecodeHex', PKG)], ['EntryPoints', 'EntryBad', 'EntryErrors', 'BytesText', 'EntryBig'],
     'every command kind with one structure and all values; also one list of 7, 40 or 255 parts of each kind; every value of every single byte of representative sections; printable texts of up to 3 characters', 'texts up to 5 characters', 'other base64 alphabets')

prop('C28', 'Reading or encoding a section does not change it',
     'Encoding a section gives the same bytes each time, whatever tables, JSON, XML, names, durations and further encodings were asked for in between.',
     ['inputs', 'histories'], 'every command and descriptor kind, every one of the operations in between, all values', 'The tests call each operation once on a fresh section.',
     [SIS, UPID, SEG, TAB], [SECENC, ('Table', TAB)], ['Repeatable', 'RepeatableUPID', 'RepeatableBig', 'RepeatTwice'],
     'every command and descriptor kind with one structure and all values; UPIDs of every kind; one operation in between, also with one list of 9 parts of each kind; two operations in between on sections of several parts of every sort', 'as quick, with lists of 40 parts', 'longer sequences; concurrent use')

prop('C29', 'Sections share no memory with buffers',
     'A decoded section does not change when the buffer it was decoded from is overwritten, decoding leaves the buffer alone, and an encoding does not change with the section or with later encodings, nor the section with the encoding.',
     ['inputs', 'histories'], 'every command and descriptor kind, all contents, all overwriting values', 'No test touches a buffer again after using it.',
     [SIS, PC, PD], [SECDEC, SECENC], ['NoAliasInput', 'NoAliasOutput', 'NoAliasBig'],
     'every command and descriptor kind with one structure, all values, with and without stuffing, also with one list of 9 parts of each kind and several parts of every sort; overwritten by exclusive-or with any byte', 'as quick', 'other structures')

prop('C30', 'A section value can be reused for another decode',
     'Decoding bytes or reading a document into a section which already holds another one gives what a fresh section would hold, and encodes like it, also when the first decode failed.',
     ['inputs', 'histories'], 'every command and descriptor kind first, every command kind second, all values', 'No test decodes into a used section.',
     [SIS], [SECDEC, ('UnmarshalJSON/UnmarshalXML', SIS)], ['Reuse', 'ReuseDoc', 'ReuseBig'],
     'every command and descriptor kind with one structure then every command kind with and without a descriptor, all values, with and without stuffing; also a list of 9 parts of each kind then several parts of every sort', 'as quick', 'more than two decodes; alignment stuffing kept when a document is read into a section decoded from bytes')

CLI = 'cmd/decode.go'
prop('C31', 'The decode command prints what the text holds',
     'scte35 decode with base64 or 0x hexadecimal text prints the decoded section as a table, JSON or XML, whichever --out asks for, and nothing else; text which is not a sound section is reported as an error, and what could be decoded of it is printed all the same.',
     ['inputs'], 'sections of every command and descriptor kind with all values; every output format and order of arguments; wrong checksums, truncated sections, malformed text', 'No test runs the command.',
     [CLI, 'cmd/scte35.go'], [('decodeCommand', CLI)], ['CLIDecode', 'CLIDecodeBad', 'CLIDecodeRich'],
     'every command and descriptor kind with one structure and all numeric values; every output format; sections of several parts of every sort as JSON and XML; all wrong checksums; malformed texts up to 4 characters', 'as quick',
     'exit status and usage text; symbolic times and preroll in tables; other flags')

prop('C32', 'The encode command prints the encodings of a document',
     'scte35 encode prints the base64 and hexadecimal encoding of the section its JSON or XML document describes, given as argument or on standard input, whatever white space and line lengths the document has; anything else is reported as an error and prints no encoding.',
     ['inputs'], 'documents of sections of every command and descriptor kind with all values, compact and indented, JSON and XML, argument and standard input, white space around', 'No test runs the command.',
     ['cmd/encode.go', 'cmd/scte35.go'], [('encodeCommand', 'cmd/encode.go')], ['CLIEncode', 'CLIEncodeBad', 'CLIEncodeText'],
     'every command and descriptor kind with one structure and all values; compact and indented documents; up to 70000 blanks around; malformed documents of representative kinds and texts up to 4 characters; texts within documents of up to 2 characters, any printable ones', 'as quick',
     'exit status and usage text; other white space inside documents; documents the sections of which cannot be encoded')

prop('C33', 'The ASCII form of a UPID has one character per byte',
     'The ASCII form of a UPID has a character for every byte: printable characters themselves, a dot for all others.',
     ['inputs'], 'every UPID type and byte value up to the bound', 'The tests check two values.', [UPID], [('ASCIIValue', UPID)], ['ASCII', 'ASCIILong'],
     'every UPID kind, up to 4 bytes; also 12, 40 or 200 bytes of MPU, ISAN and URI, one of them any byte', 'up to 6 bytes', 'longer values')

prop('C34', 'One bad or unknown descriptor does not spoil the others',
     'A malformed descriptor is reported without keeping the descriptors around it from being decoded; descriptors of unknown identifier or tag and commands of reserved types decode as private ones with every byte kept.',
     ['inputs', 'fault_sequences'], 'every descriptor kind as the malformed one at every position, all values; every unknown tag and identifier', 'The tests hold a single malformed section.',
     [DESC, SIS, PD, PC], [('SpliceDescriptors decoding', DESC), SECDEC], ['DescriptorIsolation', 'UnknownDescriptor', 'Reserved', 'IsolationRich'],
     'lists of three descriptors, and of several of every kind, with a malformed one at each position; payloads of up to 4 bytes for unknown tags', 'longer payloads', 'descriptor lengths which exceed the loop (C13)')

prop('C35', 'Sections are independent of each other',
     'Decoding, reading, changing or encoding one section changes nothing in another one, nor in what a later decode of the same bytes or document gives.',
     ['inputs', 'histories'], 'every command and descriptor kind for one section and for the other, all values, binary and document forms', 'The tests only ever look at one section at a time.',
     [SIS, SEG, UPID], [SECDEC, SECENC, ('UnmarshalJSON/UnmarshalXML', SIS)], ['Independent', 'IndependentDoc', 'IndependentBig'],
     'every command and descriptor kind with one structure and all values for each of the two sections, also one list of 9 parts of each kind and several parts of every sort; documents with the same content twice; numbers and bytes of one changed by exclusive-or with any byte', 'as quick', 'concurrent use; other structures')

prop('C36', 'Errors name what is wrong with the section',
     'A section which ends too early is reported with ErrBufferOverflow, one with bytes left over in a command or descriptor with ErrBufferUnderflow, a wrong checksum with ErrCRC32Invalid and text which is neither base64 nor hexadecimal with ErrUnsupportedEncoding, and never with one of the others.',
     ['inputs', 'fault_sequences'], 'every command and descriptor kind cut short at every byte or extended, all values; all wrong checksums; every short text', 'The tests look at one section of each sort.',
     [PKG, SIS, DESC, CRC], [SECDEC, ('readerError', PKG), ('verifyCRC32', CRC)], ['KindTruncatedCommand', 'KindExtendedCommand', 'KindTruncatedDescriptor', 'KindExtendedDescriptor', 'KindTruncatedSection', 'KindTruncatedRich', 'KindRichParts', h('CRCAccept', reach=['accepted', 'rejected']), 'EntryBad'],
     'every command and descriptor kind with one structure and all values, cut at every byte or extended by up to 3 bytes; sections with up to 2 descriptors and of several parts of every sort; all wrong checksums; printable texts of up to 3 characters', 'more structures; texts up to 5 characters', 'sections with several faults')

prop('C37', 'Constructors make what they are asked for',
     'NewTimeSignal and NewSpliceInsertProgram hold the time asked for, NewSpliceCommand and NewSpliceDescriptor give an empty command or descriptor of the kind SCTE 35 assigns to the type, identifier and tag, a private one for all others, and every one is a new value.',
     ['inputs'], 'all 33 bit times, all 32 bit types, identifiers and tags', 'The tests never call most of them.',
     [PKG, INS, TS, DESC], [('NewSpliceCommand', S+'splice_command.go'), ('NewSpliceDescriptor', DESC)], ['Constructors'],
     'all 33 bit times, all 32 bit types, identifiers and tags', 'as quick', 'times of more than 33 bits')

prop('C38', 'Documents with wrong values are refused',
     'Reading a JSON or XML document in which some field of the section, its command, a descriptor or a UPID holds a value of the wrong type or out of the range of its Go type reports an error.',
     ['inputs'], 'every field of every command and descriptor kind with every sort of wrong value, all other values', 'The tests only read documents the library wrote.',
     [SIS, DESC], [('UnmarshalJSON/UnmarshalXML', SIS), ('UnmarshalJSON/UnmarshalXML', DESC)], ['WrongJSON', 'WrongXML'],
     'documents of every command and descriptor kind with one wrong member or attribute: another JSON type, any negative or too large number, malformed numbers, flags, times and bytes', 'as quick', 'several wrong values; names of DTMF and ISO texts; numbers which fit the Go type but not the SCTE 35 field (C07)')

prop('C39', 'Tables nest their rows',
     'Every line of the table of a section starts with the prefix asked for and is indented by one more of the indents asked for than the line which opens the part it belongs to; every part opened by a brace is closed by one at the same depth, the section, its command and each descriptor are named parts, and repeated parts are numbered from 0.',
     ['inputs'], 'every command and descriptor kind, every combination of optional and repeated parts up to the bound, all values', 'The tests compare few tables, none with components or events.',
     [TAB, SIS, INS, SCH, SEG], [('table.row', TAB), ('writeTo methods', SIS)], ['TableNesting'],
     'every command with up to 2 and segmentation descriptors with up to 1 repeated parts, audio descriptors with up to 2, also 12 of each, all numeric values; three prefixes and indents', 'up to 2 repeated parts', 'longer lists; texts of UPIDs with control characters')

prop('C40', 'Sections can be used at the same time',
     'Goroutines which decode, read, change, make, print and encode sections of their own at the same time, even from the same bytes or document, never write memory they share without synchronisation.',
     ['inputs', 'schedules'], 'every command and descriptor kind, all values, every form of input, malformed input, the constructors', 'The tests use one goroutine.',
     [SIS, SEG, UPID, PKG], [SECDEC, SECENC, ('UnmarshalJSON/UnmarshalXML', SIS), ('Table', SIS), ('NewSpliceDescriptor', DESC)], ['Together', 'TogetherRich', 'TogetherBad', 'TogetherMake'],
     'every command and descriptor kind with one structure and all values, lists of several parts of every sort, malformed sections and texts, all constructors; every schedule, as no write of the code under test or of what it calls reaches memory another goroutine can', 'as quick', 'one section changed by several goroutines; synchronised sharing, the order of which is not explored')

prop('C41', 'Documents mean the same in any order and with foreign parts',
     'A JSON document with its members in another order or with members of other programs in any of its objects, and an XML document with its attributes in another order or with attributes of other programs on any of its elements, reads as the same section.',
     ['inputs'], 'documents of every command and descriptor kind with all values, and of sections of several parts of every sort; reversed and extended', 'The tests read documents in the order the library writes them.',
     [SIS, DESC], [('UnmarshalJSON/UnmarshalXML', SIS), ('UnmarshalJSON/UnmarshalXML', DESC)], ['Respelt', 'RespeltRich'],
     'documents of every command and descriptor kind with one structure and all values and of sections of several parts of every sort; the reverse order in all objects and elements; a foreign member before all others in every object, with a type and a value of its own, a foreign attribute before all others in every element', 'more orders of descriptors', 'other orders than the reverse one; foreign elements, which the library takes for descriptors and refuses; repeated members')

prop('C42', 'What comes before an error is decoded all the same',
     'Decode, DecodeBase64 and DecodeHex return, together with the error, a section which holds everything of the header, the command and the descriptors that comes before the point a section is cut off at, everything when only its checksum is wrong, and the header and command when bytes are left over in the command.',
     ['inputs', 'fault_sequences'], 'every cut position, all wrong checksums, every command and descriptor kind with all values, short texts', 'The tests only compare errors.',
     [SIS, PKG, DESC], [SECDEC, ('DecodeBase64', PKG), ('DecodeHex', PKG)], ['KeptTruncated', 'KeptTruncatedRich', h('KeptFaulty', reach=['crc', 'extra']), 'KeptText'],
     'every command and descriptor kind with one structure and all values, and sections of several parts of every sort, cut at every byte; all wrong checksums; 1 to 3 bytes too many in a command; printable texts of up to 3 characters', 'more orders of descriptors; texts up to 5 characters', 'the part the section ends in; what follows a faulty command; malformed descriptors (C34)')

NA = []
