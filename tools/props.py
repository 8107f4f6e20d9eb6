import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state,obs):
    assert len(title)<=80,(id,len(title))
    assert stmt.count('. ')<=2,(id,stmt)
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"observe_at":obs,"hook_needed":None}})

# ---------------- GOP cache
p("G01","A late joiner gets the newest headers, then the last N whole GOPs in order",
"Sending a GOP cache of N groups to a player delivers, in this order, the most recent metadata packet, the most recent video sequence header, the most recent audio sequence header (each if there was one), and then the most recent min(N, groups seen) groups of pictures, oldest first. Every group is complete from its key frame on, in the order the frames were published, and nothing else is delivered.",
["histories"],"Every sequence of metadata, sequence headers, key frames, inter frames, audio and unknown packets published through any of the write entry points, every cache size N >= 0, every number of reads in between.",
"The existing test samples one history of equal-length groups with N=3 on the unexported ring and never looks at Cache, headers, unequal groups or other sizes; the guarantee ranges over all histories and ring positions.",
["gop/cache.go","gop/gop.go","gop/array.go","gop/frame.go"],
[("ring of groups","gop/gop.go gopCache.Write/SendTo"),("single-packet caches","gop/frame.go"),("packet classification","gop/cache.go WriteVideo/WriteAudio")],
[("index/len/cap","current slot, slots in use, capacity of the ring","gop/gop.go"),("gops","the groups held","gop/gop.go")],
["Cache.SendTo: the packets the writer receives"])
p("G02","The GOP cache is bounded; an over-long group is refused and the cache recovers",
"The cache never holds more than N groups nor more than 1024 packets in a group. A frame beyond the 1024th of its group, or an inter frame before the first key frame, is refused with an error and leaves everything cached before it intact; every other packet is accepted. The next key frame starts a new group normally.",
["histories"],"Every history, including groups of exactly 1023, 1024, 1025 and more packets in every slot of the ring, first use and reuse of a slot.",
"No test writes more than six frames into a group or an inter frame before a key frame, so neither the bound nor the refusal is reached.",
["gop/array.go","gop/gop.go"],[("capacity test","gop/array.go array.write"),("no group yet","gop/gop.go gopCache.Write")],
[("packets","the packets of one group","gop/array.go")],["error of Cache.Write*", "Cache.SendTo output afterwards"])
p("G03","Serving the GOP cache never changes it, and a failing player sees a clean prefix",
"Sending the cache does not change what is cached or any cached packet: sending again, to the same or another player, delivers the same packets. If a player's write fails, sending stops and reports an error, what was delivered until then is a prefix of the full replay, and later sends are unaffected.",
["histories","fault_sequences"],"Every history of writes and sends, a write failure at every position of a send, any number of players.",
"Existing tests use a writer that cannot fail and never compare two sends of the same cache.",
["gop/cache.go","gop/gop.go","gop/array.go","gop/frame.go"],[("sequential replay with early return","gop/cache.go Cache.SendTo, gop/gop.go gopCache.SendTo, gop/array.go array.sendTo")],
[("Cache","the four parts that are sent","gop/cache.go")],["Cache.SendTo output and error","fields of the packets written before"])

# ---------------- MPEG-TS
TSF=["container/ts/muxer.go","container/ts/mixer.go","container/ts/table/pes.go"]
p("T01","Every frame survives TS packetization byte for byte, at every size",
"Muxing a frame writes whole 188-byte packets, each with sync byte 0x47, the stream's PID and a consistent adaptation field, such that joining the payloads of its packets gives exactly one PES packet whose payload is the frame's bytes, with no padding inside the payload. Exactly the first packet of a frame carries the payload-unit-start flag. If the output writer fails, muxing reports an error and has written only a prefix of the frame's packets.",
["inputs","histories","fault_sequences"],"Every frame length from 0 to many packets (all residues modulo the payload size), audio, inter and key frames, with and without DTS, any order of frames, a writer failing at any point.",
"Tests mux a handful of fixed frames; the stuffing arithmetic has separate cases at each length modulo 184/176 and for the PCR field, which only an exhaustive walk over lengths reaches.",
TSF,[("packet loop and stuffing","container/ts/muxer.go Muxer.Mux"),("adaptation-field stuffing","container/ts/table/pes.go Pes.WriteStuff")],
[("tsPacket","the packet being filled, reused between calls","container/ts/muxer.go")],["bytes written by Muxer.Mux / Mixer.Mux","error of the call"])
p("T02","Continuity counters advance by one per packet and PID, whatever happens between",
"On each PID (video, audio, SDT, PAT, PMT) the 4-bit continuity counter of every packet produced by one muxer is the previous one plus one modulo 16, over the muxer's whole life. Frames of the other stream, repeated tables, cached sequence headers, metadata updates and rejected packets in between neither skip nor repeat a value; a write that fails never repeats one and skips at most one.",
["histories","fault_sequences"],"Every interleaving of video, audio, table emissions, sequence-header updates and rejected inputs, long enough for all counters to wrap several times.",
"Tests emit one or two packets per PID; wrap-around and interleavings with header caching are never run.",
["container/ts/muxer.go","container/ts/mixer.go"],[("per-PID counters","container/ts/muxer.go videoCc/audioCc/sdtCc/patCc/pmtCc"),("throw-away muxer for cached headers","container/ts/mixer.go SaveAVCHeader/SaveAACHeader")],
[("videoCc, audioCc, sdtCc, patCc, pmtCc","next counter of each PID","container/ts/muxer.go")],["byte 3 of every packet written"])
p("T03","PES headers carry the right stream, length and 33-bit timestamps",
"Every PES packet starts with the start code and stream id 0xE0 for video or 0xC0 for audio, and its header data length, PTS/DTS flags and marker bits are those ISO 13818-1 prescribes for the fields present: a PTS always, and a DTS exactly when it is a video frame whose DTS differs from the PTS. The timestamps read back equal the given ones modulo 2^33. The PES packet length field is the exact number of bytes that follow, or 0 when that exceeds 65535.",
["inputs"],"Every payload length around the 65535 limit, every PTS/DTS pair over 33 bits and beyond (wrap-around, negative composition offsets), both media types.",
"The one PES test uses timestamp 0; each timestamp bit lands in a different place and the length has two regimes.",
["container/ts/table/pes.go","container/ts/muxer.go"],[("header generation","container/ts/table/pes.go GeneratePesHeader"),("timestamp coding","container/ts/table/pes.go encodeTs")],
[("PesHeader","the header bytes","container/ts/table/pes.go")],["PES header bytes in the muxed packets"])
p("T04","Key frames, and only key frames, carry the random-access point and the PCR",
"The first packet of every video key frame has an adaptation field with the random-access indicator and a PCR whose 33-bit base is the frame's DTS modulo 2^33 and whose extension is 0. No other packet carries a PCR or the random-access indicator.",
["inputs","histories"],"Every key frame length and DTS, in every position of a stream of key, inter and audio frames.",
"Tests look at one key frame with DTS 0; the PCR bits and the interaction with stuffing are not varied.",
["container/ts/muxer.go","container/ts/table/pes.go"],[("PCR insertion","container/ts/muxer.go Muxer.Mux"),("PCR coding","container/ts/table/pes.go WritePcr")],
[("isKeyFrame/firstPes","when the PCR is written","container/ts/muxer.go")],["adaptation fields of the muxed packets"])
p("T05","SDT, PAT and PMT are valid sections that describe the stream being sent",
"Each table packet is 188 bytes holding one section with correct section length, a valid CRC-32/MPEG-2 and 0xFF padding, on its fixed PID. The PAT points to the PMT's PID, the PMT lists exactly the streams whose sequence headers were cached (H.264 on the video PID, AAC on the audio PID), and the SDT carries the service descriptor with the last accepted provider and service names (\"undefined\" by default once metadata was given). Names that do not fit are rejected with an error instead of producing a broken table; descriptors built on their own (service, network name, country availability) follow one another in their buffer, each with its tag, exact length and given fields, and a table made from it carries exactly those.",
["inputs","histories","configurations"],"Every combination and order of cached headers, every pair of name lengths from 0 past the limit, missing or non-string names, repeated emission, arbitrary inputs to the CRC.",
"Tests compare two fixed tables; lengths, CRC over other contents and the limits are not explored.",
["container/ts/muxer.go","container/ts/mixer.go","container/ts/crc32.go","container/ts/table/descriptor.go","container/ts/table/sdt.go","container/ts/table/pat.go","container/ts/table/pmt.go","container/ts/table/program.go"],
[("section assembly","container/ts/muxer.go SDT/PAT/PMT"),("CRC","container/ts/crc32.go"),("descriptor lengths","container/ts/table/descriptor.go"),("which streams exist","packet/types.go")],
[("metadata, types","cached descriptor, cached stream kinds","container/ts/mixer.go")],["bytes written by Mixer.SetTsHeader, Muxer.SDT/PAT/PMT, GenerateCrc32, Descriptor.GetBuffer"])
p("T06","Output clocks follow the published timestamps without drift or overflow",
"A video frame's DTS is its millisecond timestamp times 90 and its PTS is that plus the signed composition offset times 90, for every 32-bit timestamp. An audio frame's PTS equals its DTS and is the running clock (anchor plus number of frames since it times floor(90000*1024/sample rate)) while that stays within 10 ms of the published timestamp; otherwise the clock re-anchors at the published timestamp.",
["histories","inputs"],"Every sequence of audio and video timestamps over the full 32-bit range, negative offsets, all sample rates, jumps forwards and backwards, exactly at and just beyond the 10 ms threshold.",
"The sync test feeds two timestamps; the clock is a history-dependent state machine with a threshold and 64-bit arithmetic.",
["container/ts/mixer.go","container/ts/sync.go"],[("clock update","container/ts/mixer.go Mixer.Update"),("audio re-anchoring","container/ts/sync.go syncAudioTs")],
[("frameNum, frameDts","frames since the anchor, and the anchor","container/ts/sync.go"),("pts, dts","clock of the next frame","container/ts/mixer.go")],["PTS/DTS/PCR in the packets the next Mux writes"])
p("T07","Muxing never changes a packet that other consumers share",
"Muxing a packet to TS or FLV, successfully or not, leaves the packet's data, media bytes, header and timestamps, and the memory behind its data (a packet may be cut from a larger buffer), exactly as they were. Muxing the same packet object again, in the same or another muxer, yields the same tag or elementary-stream content.",
["histories","fault_sequences"],"Every kind of packet, repeated and interleaved use of one packet object by several muxers, failing writers and rejected contents in between.",
"Tests mux a packet once and drop it; aliasing only shows when packets are shared.",
["container/ts/mixer.go","container/ts/muxer.go","container/flv/muxer.go"],[("restoring Media","container/ts/mixer.go Mixer.Mux"),("local tag data","container/flv/muxer.go muxer.mux")],
[("Packet.Data/Media/Header","what consumers share","packet/packet.go")],["fields of the packet after the call"])

# ---------------- FLV
p("F01","Every packet becomes one well-formed FLV tag with its data verbatim",
"Muxing a packet appends exactly one FLV tag: the tag type of its media kind, the 24-bit length of its data, the 32-bit timestamp split into lower 24 bits and extension byte, stream id 0, the data unchanged (for metadata, without the @setDataFrame prefix), and a PreviousTagSize of 11 plus the data length. Packets of unknown kind, undecodable metadata and data over 16777215 bytes are rejected and write nothing. If the writer fails, muxing reports an error and has written only a prefix of the tag.",
["inputs","histories","fault_sequences"],"Every packet kind, data length (0, 1, the 24-bit limit), 32-bit timestamp, order of packets, and writer failure position.",
"Tests mux fixed packets with small timestamps; the header buffer is shared between calls and the extension byte is never exercised.",
["container/flv/muxer.go","container/flv/mixer.go"],[("tag framing","container/flv/muxer.go muxer.mux")],[("tagHdr","reused header bytes","container/flv/muxer.go")],["bytes written by Mixer.Mux and its error"])
p("F02","An FLV stream opens with correct flags and the latest cached headers",
"Writing the FLV header emits the 9-byte file header whose audio and video flags are set exactly for the kinds of sequence header cached so far, a zero PreviousTagSize, and then the cached metadata tag, AVC sequence header tag and AAC sequence header tag (each if cached, in this order, the most recently saved one, timestamp 0). The metadata tag is the AMF0 string onMetaData followed by the saved object. Writing the header again emits the same bytes unless something was saved in between; a save that is refused (a value AMF0 cannot hold, a packet of another kind, data beyond 24 bits of length) changes nothing.",
["histories","inputs","fault_sequences"],"Every order and number of saves of metadata objects and sequence headers, interleaved with muxing and with header writes, and writer failures.",
"The test saves each header once in one order; flags and caches are state that earlier calls must not leak into.",
["container/flv/mixer.go","container/flv/muxer.go"],[("header caches","container/flv/mixer.go cache"),("flags","container/flv/muxer.go header")],[("metadata, avcSeqHdr, aacSeqHdr, types","what was cached","container/flv/mixer.go")],["bytes written by Mixer.SetFlvHeader"])
p("F03","Demuxing classifies every FLV payload by its header bits and nothing else",
"Demuxing accepts every video payload of at least 5 bytes and every AAC or MP3 payload of at least 2 bytes and rejects shorter payloads, other sound formats and unknown packet kinds with an error. The frame type, codec, AVC/AAC packet type, sequence-header, key-frame and end-of-sequence predicates and the composition time (a signed 24-bit value, for NALU packets only) are those of the header bytes, and the media bytes are exactly what follows the header; the payload itself is not modified. Parsing with a reused tag gives the same video or audio fields as with a fresh one.",
["inputs"],"Every value of the first two header bytes, every 24-bit composition time pattern, every payload length around the limits, and reuse of one tag for any sequence of payloads.",
"Tests parse two fixed headers; the predicates depend on all bits of two bytes and the sign of a third.",
["container/flv/demuxer.go","container/flv/tag.go"],[("header parsing","container/flv/tag.go parseVideoHeader/parseAudioHeader")],[("media","parsed fields","container/flv/tag.go")],["predicates of Packet.Header, Packet.Media, error of Demux"])
p("F04","The @setDataFrame prefix is added and removed exactly",
"Adding the metadata header to an AMF0 payload that starts with a string other than @setDataFrame prepends exactly the encoded @setDataFrame string, and adding it to one that already has it changes nothing. Removing it strips exactly the bytes of a leading @setDataFrame string, however that string is encoded, and leaves other payloads unchanged; adding then removing is the identity. Payloads that do not start with a string are rejected with an error.",
["inputs"],"Every first value (short and long strings, prefixes and extensions of the keyword, other types, truncated values) followed by any bytes.",
"Tests use one metadata payload in one encoding.",
["amf/metadata.go"],[("prefix handling","amf/metadata.go AddMetaHeader/DelMetaHeader")],[("setFrameFrame","the encoded keyword","amf/metadata.go")],["returned bytes and error"])

# ---------------- codecs
p("C01","AVCC access units become Annex-B with exactly the same NAL units",
"Parsing an AVC packet writes an access unit delimiter followed by every slice, IDR and SEI NAL unit of the packet, each preceded by a four-byte start code, unchanged and in order; delimiters in the input are dropped. Before the first IDR of the packet come the SPS and PPS found earlier in the packet or, if there are none, those of the latest sequence header, and parameter sets appear nowhere else. A packet that already starts with a start code is passed through unchanged.",
["inputs","histories"],"Every sequence of NAL unit types and lengths in a packet, parameter sets before or after the IDR, several IDRs, any history of sequence headers and packets before it.",
"Tests parse one packet; parameter-set placement depends on the order of NAL units and on the parser's history.",
["parser/h264/parser.go"],[("conversion loop","parser/h264/parser.go getAnnexbH264")],[("specificInfo, spsPps","latest and in-band parameter sets","parser/h264/parser.go")],["bytes written by CodecParser.Parse"])
p("C02","The latest AVC sequence header replaces the previous one exactly",
"Accepting an AVC decoder configuration record writes nothing and makes exactly its SPS and PPS, however many of each, the parameter sets inserted from then on, replacing earlier ones, whatever bytes follow them in the record; the size it gives for NAL unit lengths (four bytes until a record says otherwise) is the one later packets are cut with. A truncated or inconsistent record is rejected with an error and leaves the previous parameter sets and length size in force.",
["histories","inputs"],"Every sequence of well-formed and malformed records (every truncation point, declared lengths beyond the record, trailing bytes) interleaved with frames.",
"The test parses one record once; replacement and rejection need a second one.",
["parser/h264/parser.go"],[("record parsing","parser/h264/parser.go parseSpecificInfo")],[("specificInfo","latest SPS and PPS with start codes","parser/h264/parser.go")],["bytes the following IDR packet produces","error of Parse"])
p("C03","Every AAC frame gets the ADTS header of the latest configuration",
"Parsing a raw AAC frame writes a 7-byte ADTS header and the frame unchanged; the header's profile, sampling-frequency index and channel configuration are those of the latest accepted AudioSpecificConfig and its 13-bit frame length is the frame's size plus 7. A frame before any configuration, an empty frame or one of more than 8184 bytes is rejected and writes nothing, and a rejected configuration leaves the previous one in force.",
["inputs","histories"],"Every two-byte configuration, every frame length up to and beyond the limit, every history of accepted and rejected configurations.",
"Tests use one configuration and one small frame; each header bit field depends on a different configuration bit or length bit.",
["parser/aac/parser.go"],[("ADTS generation","parser/aac/parser.go addADTSToFrame"),("configuration parsing","parser/aac/parser.go specificInfo")],[("cfgInfo, gotSpecific, adtsHeader","latest configuration, reused header","parser/aac/parser.go")],["bytes written by CodecParser.Parse"])
p("C04","Malformed or unsupported media is refused without panic, damage or stray state",
"For every packet a demuxer accepts, codec parsing either succeeds or returns an error; it never panics or loops, never modifies the packet, and never reads past it. Packets without a demuxed header or media, video codecs other than H.264, audio codecs other than AAC and MP3, AVC units with truncated or zero lengths or NAL types other than 1 and 5 to 9, AAC packet types other than 0 and 1 and MP3 packets under 3 bytes are errors. An error leaves the parser able to handle the following packets exactly as if the bad one had not been there.",
["inputs","histories","fault_sequences"],"All byte strings as packet payloads, packets a demuxer made and packets a caller put together, truncation of valid packets at every byte, mixed with valid packets in any order, and failing writers.",
"Tests cover a few hand-written malformed inputs in isolation.",
["parser/parser.go","parser/h264/parser.go","parser/aac/parser.go","parser/mp3/parser.go"],[("length checks","parser/h264/parser.go naluSize/getAnnexbH264"),("dispatch","parser/parser.go Parse")],[("h264, aac, mp3","the lazily created parsers","parser/parser.go")],["error or bytes of CodecParser.Parse, behaviour afterwards"])
p("C05","The reported sample rate is that of the stream's latest accepted configuration",
"Before any audio packet was accepted asking for the sample rate is an error. After AAC was parsed it is the rate of the latest accepted configuration's frequency index (44100 for reserved indexes 13 and 14), and rejected configurations, raw frames and video packets do not change it. With MP3 only, it is the rate announced by the latest accepted MP3 packet.",
["histories","inputs"],"Every history of AAC configurations, raw frames, MP3 packets and video, all sixteen indexes.",
"Tests check two indexes on a fresh parser.",
["parser/parser.go","parser/aac/parser.go","parser/mp3/parser.go"],[("rate table","parser/aac/type.go aacRates"),("rate bits","parser/mp3/parser.go Parse")],[("sampleRateIndex, samplingFrequency","latest rates","parser/aac/parser.go, parser/mp3/parser.go")],["CodecParser.SampleRate"])

# ---------------- AMF
A0=["amf/amf0.go","amf/helper.go"];A3=["amf/amf3.go","amf/amf3_external.go","amf/helper.go"]
p("A01","AMF0: every encodable value is written in its AMF0 form and decodes to itself",
"Encoding null, booleans, numbers of any Go numeric type, strings (long form exactly above 65535 bytes), dates to the millisecond, arrays and slices, objects, typed objects, ECMA arrays, XML documents, references, undefined and unsupported markers produces exactly the bytes the AMF0 specification prescribes, nested values included. Decoding those bytes yields the same value (numbers as doubles, dates as milliseconds, ECMA arrays as objects) and consumes all of them. Values AMF0 cannot represent (unsupported Go types, empty keys, keys or type names over 65535 bytes) are errors.",
["inputs"],"All value trees over these types, nested to any depth, with boundary sizes and arbitrary bytes and doubles.",
"Tests encode one small value per type; nesting, boundaries and combinations are not covered.",
A0,[("type dispatch","amf/amf0.go Encode, decodeValue"),("length prefixes","amf/amf0.go encodeString/encodeLongString")],[],["bytes written by Encode/Encode*, value returned by Decode"])
p("A02","AMF3: every encodable value is written in its AMF3 form and decodes to itself",
"Encoding null, booleans, integers, doubles, strings, dates to the millisecond, byte arrays, arrays and slices, objects and typed objects produces bytes the AMF3 specification assigns to that value: integers other than int64 and uint64 that fit 29 signed bits in the shortest U29 form and all other numbers as doubles. Decoding those bytes, by an AMF3 decoder or by an AMF0 one after the switch marker, yields the same value (typed objects without their type) and consumes all of them. Go types AMF3 cannot represent are errors.",
["inputs"],"All value trees over these types, every U29 length class and its boundaries for integers and lengths, nested to any depth.",
"Tests encode a few values; the U29 classes, sign handling and nested objects are sampled at single points.",
A3,[("U29 coding","amf/amf3.go writeUint29/readUint29"),("type dispatch","amf/amf3.go Encode, decodeValue")],[],["bytes written by Encode/EncodeWithAMF3, value returned by Decode"])
p("A03","AMF references resolve to the value that occupies that slot",
"While decoding, complex values take reference slots in the order the AMF0 and AMF3 specifications assign (objects, ECMA and strict arrays and typed objects in AMF0; AMF3 strings, objects and traits in three separate tables, empty strings taking none), and the tables persist across the values a decoder reads. A reference yields the value in its slot, including an enclosing object that is still being decoded; a reference to a slot that does not exist, or of the wrong type where a type is required, is an error.",
["inputs","histories"],"Every sequence of values with references to every earlier, current and nonexistent slot, across several decode calls on one decoder.",
"Tests decode one back reference; slot numbering depends on everything decoded before.",
["amf/amf0.go","amf/amf3.go"],[("reference tables","amf/amf0.go deRefCache; amf/amf3.go deStrTable, deObjTable, traitTable")],[("deRefCache, deStrTable, deObjTable, traitTable","the slots","amf/amf0.go, amf/amf3.go")],["values returned by Decode"])
p("A04","AMF decoding survives every input: no panic, no hang, no outsized allocation",
"For every byte string of up to 64 KiB, decoding one value or a batch returns a value or an error; it does not panic, hang, or allocate memory out of proportion to the input it actually received, whatever lengths and counts the input declares. Input that ends inside a value is an error and never yields a value; input that ends between values ends a batch cleanly with exactly the values before it. If the reader fails with another error, that is an error, never a value nor a clean end.",
["inputs","fault_sequences"],"All byte strings, all truncations and single-byte corruptions of valid encodings, declared lengths far beyond the input.",
"Tests decode valid inputs and a few handpicked broken ones.",
["amf/amf0.go","amf/amf3.go","amf/amf3_external.go","amf/helper.go"],[("bounded reads","amf/helper.go readBytes"),("end of input inside a value","amf/amf0.go Decode, amf/amf3.go Decode"),("index checks","amf/amf0.go decodeReference, amf/amf3.go")],[],["result of Decode/DecodeBatch, process memory"])
p("A05","AMF decoding depends only on the bytes, and consumes exactly one value",
"Decoding gives the same result however the reader splits the bytes into reads, including one byte at a time, empty reads, and data delivered together with end of input. A successful decode consumes exactly the bytes of that value, so consecutive decodes of concatenated encodings return the values one after another, and a batch returns exactly those.",
["schedules","inputs"],"Every split of every encoding into reads, every concatenation of values.",
"Tests read from in-memory buffers that always return everything asked for.",
["amf/helper.go","amf/amf0.go","amf/amf3.go"],[("full reads","amf/helper.go readBytes"),("batch loop","amf/amf0.go DecodeBatch, amf/amf3.go DecodeBatch")],[],["values and reader position after Decode"])
p("A06","AMF encoders report their byte count and every write failure",
"On success every encoding call returns exactly the number of bytes it wrote. If the writer fails at any byte the call returns an error and what was written is a prefix of a correct encoding; a value that cannot be encoded is an error as well. Encoding a batch writes the concatenation of its values' encodings.",
["inputs","fault_sequences"],"Every value tree and every byte position at which the writer fails.",
"Tests write to buffers that cannot fail and rarely compare counts.",
["amf/amf0.go","amf/amf3.go","amf/helper.go"],[("count accumulation and error returns","amf/amf0.go encode*, amf/amf3.go encode*")],[],["return values of Encode*, bytes written"])
p("A07","AMF3 objects decode by their traits: sealed, dynamic and externalizable",
"An AMF3 object yields the values of its sealed members under the names in its traits (inline or by trait reference) plus, if dynamic, all dynamic members up to the empty name. Externalizable objects of type DSA and DSK yield the fields their flag bytes announce (unknown flag bits as extra_<byte>_<bit>), ArrayCollection yields its source array, registered types yield what their handler returns, and any other externalizable type is an error.",
["inputs"],"Every combination of sealed and dynamic members, trait references across objects, flag-byte sequences, and registered handlers.",
"Tests decode one DSK message and simple sealed objects; flags and dynamic members combine freely.",
["amf/amf3.go","amf/amf3_external.go"],[("traits","amf/amf3.go decodeObject"),("flag bytes","amf/amf3_external.go decodeExternal/readFlags")],[("traitTable, externalHandlers","known traits and handlers","amf/amf3.go")],["value returned by Decode"])

# ---------------- SIP
p("S01","SIP parsing takes or rejects any input without panic and reports what was sent",
"For every byte string, parsing a message returns a message or an error and never panics, hangs, or reads unboundedly. A request's method, URI and version, a response's version (methods and versions in any letter case), code and phrase, and every header's name (case-insensitively), value, order among repeats and continuation lines are those in the input; a message with a malformed first line, unknown method or version, or missing or non-numeric Content-Length is an error.",
["inputs"],"All byte strings with lines up to 4095 bytes; well-formed messages with any headers, repeats, compact names, folding, LF or CRLF line ends.",
"Tests parse a few captured messages.",
["sips/sips.go","sips/request.go","sips/header.go"],[("line loop","sips/sips.go Parse/ParseHeader"),("first line","sips/request.go ParseFirstLine")],[("Headers, lastHeaderParsed","headers so far","sips/sips.go")],["fields of the SIP struct, error of Parse"])
p("S02","A SIP message that is built and encoded parses back to the same message",
"Encoding a request or response built from a method, URI or status, headers and a body, and parsing the bytes, gives back the method, URI and version or status code, every header with all its values in order, the body, and a Content-Length that is the body's length. Encoding a parsed body-less message and parsing it again changes nothing either.",
["inputs"],"All methods, status codes, URIs, header names and values without line breaks, repeated values, and bodies of any bytes and length.",
"Tests build one request and one response and compare strings.",
["sips/sips.go","sips/header.go","sips/easy.go","sips/request.go"],[("encoding","sips/sips.go Bytes, sips/header.go Bytes")],[("Headers, Payload","what is encoded","sips/sips.go")],["SIP.Bytes, SIP.Parse of them"])
p("S03","Messages back to back on a connection are split exactly at Content-Length",
"Parsing a message from a stream takes its header section up to and including the empty line and then exactly Content-Length bytes of body, so that parsing again continues at the first byte of the next message. It returns once those bytes have arrived, without waiting for more, and does not depend on how the stream's bytes are split into reads. If the stream breaks, with an error other than its end, before a message has arrived whole, parsing that message is an error; a message that has arrived whole is parsed even if the error comes together with its last bytes.",
["schedules","inputs"],"Any number of messages with bodies of 0 bytes to beyond every internal buffer size, arbitrary body bytes including line breaks, every fragmentation of the stream.",
"Tests parse single messages from memory, where over-reading and short reads cannot show.",
["sips/sips.go"],[("body reading","sips/sips.go fillBody"),("header end","sips/sips.go Parse")],[],["successive SIP.Parse on one bufio.Reader, and what is left in it"])
p("S04","Header access ignores letter case and treats compact forms as equal",
"Looking up a header, all values or the first, finds it under any letter case and, if the long name is absent, under its RFC 3261 compact form. Setting a header leaves exactly the new value under that name in any letter case and removes its compact form, touches no other header, and copying selected headers yields their first values. Encoding a header set lists every value of every header once, repeated values in order.",
["histories","inputs"],"Every sequence of sets, appended values, received lines, copies and lookups over all header names, their compact forms and letter cases.",
"Tests look up a few long names.",
["sips/header.go"],[("compact table","sips/header.go compactSipHeadersCorrespondence"),("lookup and update","sips/header.go GetHeader/GetFirstHeader/SetFirstHeader/CopyFrom/Bytes")],[("SIPHeader","values by lower-case name","sips/header.go")],["results of the header accessors, SIPHeader.Bytes"])
p("S05","SIP addresses and request URIs round-trip through parse and encode",
"Parsing a From, To or Contact value or a request URI yields its scheme (sip, sips, tel), display name (quoted with escapes, or a token), user, host, port and parameters. Encoding an address or URI with these parts and parsing the result yields the same parts, and converting an address to a request URI and back preserves scheme, user, host, port and parameters.",
["inputs"],"All combinations of present and absent parts with the characters RFC 3261 allows in them (display names with quotes, backslashes, separators; users without semicolons; hosts that are names, IPv4 addresses or IPv6 references), any parameters without separators in their values.",
"Tests cover about ten fixed strings.",
["sips/user.go","sips/request.go","sips/header_args.go"],[("scanner","sips/user.go NewSIPUser/parseDisplayName, sips/request.go NewSIPRequest"),("encoder","sips/user.go Bytes, sips/request.go Bytes")],[],["fields of SIPUser/SIPRequest, String()"])
p("S06","Via and CSeq values round-trip; Authorization yields every parameter",
"Parsing a Via value (its protocol in any letter case) yields its transport (any token), host, port and parameters, parsing a CSeq value yields its number and method, and encoding these parts and parsing the result yields the same parts. Parsing a Digest Authorization value (scheme in any letter case) yields every parameter, quoted ones without their quotes; other schemes yield none.",
["inputs"],"All transports, hosts, ports, parameters, sequence numbers and methods; all parameter lists with quoted and unquoted values.",
"Tests cover one or two fixed values each.",
["sips/via.go","sips/cseq.go","sips/auth.go","sips/header_args.go"],[("scanners","sips/via.go NewSIPVia, sips/cseq.go NewSIPCseq, sips/auth.go NewSIPAuth")],[],["fields of SIPVia/SIPCseq/SIPAuth, String()"])
p("S07","Parameter lists split at separators outside quotes and lose nothing",
"Splitting a parameter list separates elements at commas, semicolons and line feeds outside double quotes, honours backslash escapes inside quotes, and trims surrounding white space. Parsing it maps each name to its value (without enclosing quotes, empty if there is no '='), the last one winning for repeated names, for every input without panic. The semicolon, comma and CRLF renderings of a parameter set parse back to the same set.",
["inputs"],"All strings over names, separators, quotes, escapes and white space; all parameter sets whose values have no separators or quotes.",
"Tests parse three fixed lists.",
["sips/header_args.go"],[("quote-aware splitter","sips/header_args.go ParseList"),("pairs","sips/header_args.go ParseArgsPairs")],[("escape, quote","scanner state","sips/header_args.go")],["Args contents, ParseList result, *String renderings"])
p("S08","SIP methods, versions and status codes map to their standard names and back",
"Each of the fifteen SIP methods and both versions is recognised in any letter case as its own constant, whose text is the standard upper-case name; every other word of ASCII characters is an error. Every standard status code has its RFC 3261 reason phrase, other codes have an empty one, and a code's text form is its decimal number.",
["inputs"],"All method and version words in any case, all other words, all integers as codes.",
"Tests check single entries; a wrong or duplicated table entry elsewhere goes unnoticed.",
["sips/method.go","sips/version.go","sips/status.go"],[("tables","sips/method.go, sips/version.go, sips/status.go")],[],["GetSIPMethod/String, GetSIPVersion/String, SIPStatus.Text/String/Int"])

# ---------------- whole pipeline
p("P01","Every FLV viewer gets the published stream, whenever it joins, whoever else does",
"In a server that demuxes each published packet once, caches it and hands the same packet to any number of FLV and TS viewers, the bytes an FLV viewer receives are a valid FLV file: header and cached sequence headers, the cached groups, then every packet published since it joined, in order, with the published bytes and timestamps. Neither the number, kind and join times of the other viewers nor packets that some muxer rejects change what it receives, and no published packet is modified.",
["histories","schedules"],"Every history of published packets (video, audio, metadata, new sequence headers, malformed ones), joins and leaves of viewers of both kinds.",
"Tests exercise demuxer, cache and muxers separately, each with fresh packets; sharing between components is never run.",
["gop/cache.go","container/flv/mixer.go","container/flv/muxer.go","container/flv/demuxer.go","container/ts/mixer.go"],[("shared packets","packet/packet.go Packet"),("replay","gop/cache.go SendTo"),("per-viewer muxers","container/flv/mixer.go, container/ts/mixer.go")],[("Packet","shared by all components","packet/packet.go")],["bytes each viewer's writer received"])
p("P02","Every TS viewer can decode the same frames, starting at a key frame",
"In that server, what a TS viewer receives is a valid transport stream: tables for the cached streams, then for each frame of the cached groups and each later frame one PES packet with that frame's Annex-B or ADTS form (using the newest usable sequence header the viewer was given: the cached one when it joined, or one published since) and its timestamps, with continuous counters. Its first video frame is a key frame if a group is cached, and other viewers do not change what it receives.",
["histories","schedules"],"Every history of published packets, joins and leaves of viewers of both kinds.",
"Tests mux a few frames with one mixer; history, sharing and late joining are not exercised together.",
["gop/cache.go","container/ts/mixer.go","container/ts/muxer.go","container/ts/sync.go","parser/parser.go"],[("conversion","parser/parser.go Parse"),("packetization","container/ts/muxer.go Mux"),("clock","container/ts/mixer.go Update")],[("Mixer","per-viewer parser, clock and counters","container/ts/mixer.go")],["bytes each viewer's writer received"])
p("X01","Separate objects never influence each other",
"Caches, demuxers, muxers, parsers, AMF encoders and decoders and SIP messages that are separate objects have no effect on one another: whatever is done with one - before, between or during the calls on another, from inside its writer's or reader's callbacks, or from other goroutines at the same time - the other returns and writes exactly what it would have on its own. Repeating the same calls on new objects gives the same results.",
["histories","schedules"],"Every interleaving of histories of calls on two or more separate objects, the switches taking place between calls or within reads from and writes to user-supplied readers and writers, and every concurrent schedule.",
"Tests use one object at a time and one goroutine; state shared by accident (package-level buffers, memo tables, shared configuration) only shows when the calls on two objects interleave.",
["gop/cache.go","container/flv/muxer.go","container/ts/muxer.go","container/ts/mixer.go","parser/parser.go","amf/amf0.go","amf/amf3.go","sips/sips.go"],[("muxing","container/ts/muxer.go Mux"),("parsing","parser/parser.go Parse"),("decoding","amf/amf0.go, amf/amf3.go"),("SIP text","sips")],[("objects","state owned by each object only","the listed files")],["results of every call","bytes each object's writer received"])
p("X02","Calls leave alone what they were given and what they gave before",
"No call changes its arguments: byte slices (nor the memory behind them that the caller owns), packets, values to encode, addresses, header lines and parameter sets are afterwards as they were before, except that a packet's media and header are set by demuxing it. Nor does any later call on the same or another object change a result given earlier: demuxed packets, decoded values, batches, parsed messages, addresses and parameter lists, encoded messages, prefixed metadata and replayed packets stay as they were returned.",
["histories"],"Every history of calls on any objects of the library whose arguments and results the caller still holds.",
"Tests look at a result once, right after the call; reuse of a buffer, of a table entry or of the room behind a slice only shows when an older result or argument is looked at again after later calls.",
["amf/amf0.go","amf/amf3.go","amf/metadata.go","container/flv/demuxer.go","container/ts/muxer.go","parser/h264/parser.go","parser/aac/parser.go","gop/cache.go","sips/sips.go","sips/header_args.go","sips/header.go"],[("decoding","amf Decode, DecodeBatch"),("encoding","amf Encode; sips Bytes"),("parsing","sips Parse, NewSIPUser, ParseArgs"),("muxing","container/ts, container/flv, parser"),("replay","gop SendTo")],[("arguments and results","memory the caller owns after a call","the listed files")],["contents of every held argument and result after each call"])
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
