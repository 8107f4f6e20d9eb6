"""Writes known_findings.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """24dc7b6 G02 a group of pictures took one packet more than its cap of 1024
85749a4 T01 a key frame of 176..183 PES bytes panicked, others were stuffed against the wrong room
aff37db T03 PES timestamps beyond 33 bits were reduced modulo 2^33-1
a9ed4f5 T06 DTS/PTS overflowed 32 bits after 13 hours; negative composition times were lost
b3f5280 T02 caching a sequence header consumed continuity counters of the output
32672ab T07 TS muxing left the shared packet's media bytes replaced by the converted frame
9e1d2fe T02 the continuity counter of repeated SDT packets never advanced
897cef2 T05 names overflowing the descriptor's 8-bit length were encoded
9441854 T05 names too long for one SDT packet were accepted, and SetTsHeader panicked
d21b750 F03 composition times were unsigned, and accumulated when a tag was reused
92c982d F01 muxing metadata to FLV rewrote the shared packet's data
42bc309 F01 data over 24 bits was written with a truncated size
796e357 F04 removing the metadata header stripped a fixed number of bytes
0cdf2aa C02 a new AVC sequence header was appended to the cached parameter sets
97c6004 C02 bytes behind the PPS became part of it
4a3dc82 C03 a rejected AudioSpecificConfig replaced the accepted one
81ccff2 C03 frames over 8184 bytes got a truncated ADTS length
7c595fd A04 an AMF0 reference equal to the table size panicked
101ff5b A05 strings were read with a single Read call, and allocated from the declared length
ac295cc A05 AMF3 xml and byte arrays were zero padded on short reads
906ccbc A04 AMF0 input truncated inside a value ended a batch cleanly
b40434b A04 AMF3 input truncated inside a value ended a batch cleanly
3b16db8 A03 an AMF0 reference to a strict array lost its elements
377eac0 A03 an AMF0 typed object occupied two reference slots
173320a A06 AMF0 marker write errors were dropped
82870b8 A01 an AMF0 date body was encoded with a nested marker
d9b8145 A01 keys over 65535 bytes were written with a truncated length
4de0eb3 A01 an empty AMF0 key was written, which ends the object early
15f1057 A07 externalizable and dynamic traits bits were never recognised
b0a5d21 A07 only the first flag byte's fields of external messages were read
dc39287 A03 an AMF3 array reference lost its elements; a declared length was preallocated
35f0afb A03 AMF3 object references and ArrayCollection slots were off
25df954 A04 the declared number of trait properties was preallocated
82c2dde A07 RegisterExternalHandler panicked on a zero decoder
a91a2b8 A03 an empty AMF3 xml or byte array took no reference slot
2373c8a A02 negative AMF3 integers could not be encoded, and decoded as positive
761382b S07 an empty or lone-quote argument value panicked
8584fbd S01 a continuation line before any header panicked
433b74e S04 headers in compact form were not found under their long name
3a7fe13 S04 setting a header left its compact form in place
0c1f025 S02 repeated header values were joined into one line that does not parse back
d1d85ed S03 the body read dropped its end or ate the next message
a0cb18f S05 display names were not parsed
667e55b S05 a host-only URI was taken for a user
daa2003 S06 Via transports other than UDP were lost
683545a T03 a PES header with PTS and DTS carried wrong prefixes before them
c6084db C05 a rejected audio packet decided the codec whose sample rate is reported
2af17a2 T05 a rejected sequence header added its stream to the PMT
b31f0f3 F03 a reused tag kept fields of the packet before
f606493 S04 a header with an empty name was found as the compact form of every other header
e7802fe S01 tabs around a header's name and value were kept
52f5a43 S01 a value starting on a continuation line began with white space
9290966 S05 the '>' that closes an address became part of a URI parameter
331c261 S07 splitting a list replaced bytes that are not UTF-8
3184d2f S07 quoted values and display names were written with Go escapes that do not read back
320870f S06 extra white space before a CSeq method became part of it
a3c6549 S05 the first colon of an IPv6 reference started the port
3fd4e6d C02 only the first SPS and PPS of a configuration record were used, a second SPS garbled the PPS
4be629d C02 the NAL length size of a configuration record was ignored, packets were always cut with four bytes
ec8bfa3 S05 an address with an upper-case scheme (SIP:, Tel:) lost all its parts
2c06e49 F02 a refused save of metadata or a sequence header dropped the cached one and set its flag
d4d87f7 S06 a Via value whose protocol is not in upper case was not parsed
b71dfb0 S01 a status line whose version is not in upper case was refused as an unknown method
91dd97e S03 a message that had arrived whole was refused when the source failed together with its last bytes
b580656 A02 dates lost their milliseconds when encoded (AMF0, AMF3) and when decoded (AMF3)"""
FINDINGS = [
 ("ts-short-key-stuffing", "T01", "a key frame whose PES packet is shorter than 176 bytes keeps adaptation_field_length 7 and puts the stuffing field's bytes into the payload, so demuxers see them before the PES header (container/ts/muxer.go Mux; asserted by TestMixer_SetTsHeader)"),
 ("ts-pcr-pid", "T05", "a PMT that lists H.264 and AAC names the audio PID 0x101 as PCR_PID although only video packets carry a PCR (container/ts/muxer.go PMT; asserted by TestMixer_SetTsHeader)"),
 ("ts-country-descriptor", "T05", "Descriptor.CountryAvailability appends 7 bytes while its length byte announces 4, and keeps 12 of the 24 bits of the country code (container/ts/table/descriptor.go; asserted by TestDescriptor_CountryAvailability)"),
 ("ts-save-header-media", "T07", "SaveAVCHeader and SaveAACHeader leave the packet's Media on the mixer's own buffer, which later calls overwrite (container/ts/mixer.go; asserted by TestMixer_SetTsHeader)"),
 ("sip-body-separator", "S02", "the payload of a parsed message includes the blank line before the body, so encoding it again adds that line to the body and its Content-Length (sips/sips.go Parse; asserted by TestSIP_Parse)"),
 ("sip-no-separator", "S03", "a message without a body is encoded without the blank line that ends its header section, so the next message on the connection runs into it (sips/sips.go Bytes; asserted by TestMakeRequest and TestMakeResponse)"),
 ("mp3-rate-bits", "C05", "the MP3 sampling rate is taken from bits 2..1 of the third header byte instead of bits 3..2 (parser/mp3/parser.go Parse; asserted by TestParser_SampleRate)"),
]
def write():
    fixed = []
    for l in FIXED.splitlines():
        c, p, what = l.split(" ", 2)
        fixed.append("fixed: property=%s %s %s" % (p, c, what))
    d = {"findings": [{"id": a, "property": b, "what": c} for a, b, c in FINDINGS], "fixed": fixed}
    with open(os.path.join(V, "known_findings.json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
write()
