#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here, in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "FEC round trip: up to three bit errors per codeword are always repaired",
 "Encoding a payload of any size and decoding the transmitted packet returns exactly the same payload bytes, and still does when any set of at most three bits in each 23-bit Golay codeword has been flipped on the way, wherever the interleaver put those bits. Neither direction reads or writes outside the packet and payload buffers whose sizes the library advertises.",
 ["inputs"], "every payload of every size from 1 to 255 bytes (22, 32, 48, 64, 96 and 128 on the air), every error pattern of weight <=3 per codeword",
 "The tests encode and decode two fixed packets with no errors; the space is 2^(8n) payloads times all error patterns, and depends on the interaction of parity packing, interleaver and scrambler at each size.",
 ["src/horus_l2.c", "src/golay23.c", "horusdemodlib/encoder.py"],
 [("L2 encoder/decoder", "src/horus_l2.c: horus_l2_encode_tx_packet, horus_l2_decode_rx_packet"), ("Golay (23,12) code", "src/golay23.c: golay23_init, golay23_decode, golay23_syndrome"), ("interleaver / scrambler", "src/horus_l2.c: interleave, scramble")],
 ["return buffers of encode and decode"])

prop("C02", "Transmitted packets match the published over-the-air format bit for bit",
 "For any payload the transmitted packet is exactly what the documented format prescribes: the unique word, then payload and Golay parity bits interleaved and whitened in the fixed way, in the advertised number of bytes, so independently written transmitters and receivers interoperate. For any received packet, valid or not, decoding yields the data part of the unique nearest codeword for each 23-bit group.",
 ["inputs"], "all payload sizes and contents; all received bit patterns, including uncorrectable ones; all 2^23 Golay words",
 "A round-trip test cannot see a change made consistently on both sides; only two fixed vectors exist today and only for 22 and 32 bytes, and 23-bit words beyond the tested ones are never decoded.",
 ["src/horus_l2.c", "src/golay23.c", "horusdemodlib/encoder.py"],
 [("parity generation and packing", "src/horus_l2.c: horus_l2_encode_tx_packet"), ("interleaver constants per size", "src/horus_l2.c: interleave, choose_interleaver_b"), ("additive scrambler", "src/horus_l2.c: scramble"), ("Golay tables", "src/golay23.c: golay23_init, arr2int, nextcomb")],
 ["encoded bytes", "decoded bytes"])

prop("C03", "Packet checksum: same CRC-16 everywhere, and damage is never accepted",
 "The native and Python checksum routines compute the same CRC-16/CCITT for every byte string, appending a checksum at either end always makes the packet validate at that end, and the text checksum is its four-digit upper-case hexadecimal form. A packet whose bits differ from a valid one by one or two flipped bits, or by one burst of at most 16 bits inside the text or inside the checksum, never validates.",
 ["inputs"], "all byte strings of 1-255 bytes, both checksum positions, all damage patterns of weight 1-2 and all bursts up to 16 bits",
 "Tests hold six fixed packets; leading-zero checksums, lengths near 255 and specific flip positions are never exercised, and the two implementations are never compared.",
 ["src/horus_l2.c", "horusdemodlib/checksums.py"],
 [("native CRC", "src/horus_l2.c: horus_l2_gen_crc16"), ("Python CRC", "horusdemodlib/checksums.py: check_packet_crc, add_packet_crc, ukhas_crc")],
 ["CRC values", "validation result"])

prop("C04", "Every intact binary packet in a bit stream is reported exactly once, in order",
 "Whatever precedes, separates or follows them, short of dozens of false unique words, packets of any supported size sent over a binary-mode demodulator's bit stream are each reported exactly once, in order, as upper-case hex of the exact payload with a passing checksum flag and the right packet version. This holds at every bit alignment to the demodulator's blocks, for mixed sizes, and when each codeword carries up to three bit errors and the unique word one.",
 ["inputs", "histories"], "all packet sequences, sizes 22/32/48/64/96/128, bit offsets, gap contents and correctable error patterns",
 "The sample-file tests decode a handful of recordings at one alignment; buffering, unique-word tracking and size probing behave differently at each of the 100 alignments and for each preceding history.",
 ["src/horus_api.c", "src/horus_l2.c"],
 [("unique word search and tracking", "src/horus_api.c: horus_find_uw, horus_rx"), ("size probing", "src/horus_api.c: extract_horus_binary_v1, extract_horus_binary_v2_256")],
 ["horus_rx return value and text", "horus_crc_ok", "horus_packet_version"],
 [("rx bit buffer", "last received bits", "struct horus.rx_bits"), ("tracked unique words", "candidate packet starts", "struct horus.uw_loc/uw_count")])

prop("C05", "The binary demodulator never invents a packet",
 "Everything the binary demodulator reports is the error-corrected content of a packet-shaped window of the bits it actually received, beginning at a unique word with at most one bit error, whose checksum verifies for a supported size. Noise, truncated packets, packets with a wrong checksum and packets of unsupported sizes produce no report.",
 ["inputs", "histories"], "all bit streams: noise, dense false unique words, near-valid packets, truncations and splices",
 "Tests only feed good recordings and check that the expected line appears; nothing checks that no other line can appear, over any input.",
 ["src/horus_api.c", "src/horus_l2.c"],
 [("CRC gate", "src/horus_api.c: extract_horus_binary_v1, extract_horus_binary_v2_256"), ("UW threshold", "src/horus_api.c: horus_find_uw")],
 ["horus_rx return value and text"])

prop("C06", "No received signal can corrupt memory, hang or abort the demodulator",
 "For every mode, any sequence of received bits or audio samples, real or quadrature, is processed without memory errors, undefined behaviour, assertion failures or uninitialised reads. The caller's output buffer of the advertised size is never overrun and a reported packet is always terminated text within it, and the demodulator never asks for more samples than its advertised maximum.",
 ["inputs", "histories", "configurations"], "all bit and sample streams in the four modes, any supported baud rate, tone spacing, estimator limits, sample rate and oversampling",
 "Received radio data is attacker- and noise-controlled; the tests feed only good recordings without sanitizers, and out-of-bounds access needs particular characters at particular buffer offsets.",
 ["src/horus_api.c", "src/fsk.c", "src/horus_l2.c"],
 [("bounds on extraction", "src/horus_api.c: extract_horus_rtty, extract_horus_binary_*"), ("nin bounds", "src/fsk.c: fsk_demod_core")],
 ["sanitizer reports", "output buffer", "horus_nin", "horus_get_max_demod_in"])

prop("C07", "Every valid RTTY sentence in a bit stream is reported exactly once, intact",
 "A sentence that starts with at least two dollar signs and carries a correct checksum is reported exactly once with exactly the transmitted text up to and including the checksum, in each of the three character framings. This holds at any bit alignment, with any number of leading dollar signs up to seven, any legal sentence length, and whatever idle bits, noise or other sentences surround it.",
 ["inputs", "histories"], "all sentences up to the maximum length, all framings, alignments, leading dollar counts, neighbouring traffic",
 "Tests count decoded lines in two recordings at fixed alignment; duplicates and losses depend on where the sentence falls relative to the demodulator's blocks.",
 ["src/horus_api.c"],
 [("RTTY extraction", "src/horus_api.c: extract_horus_rtty"), ("duplicate suppression", "src/horus_api.c: horus_rx (clear nearby UW)")],
 ["horus_rx return value and text"])

prop("C08", "The RTTY demodulator only reports sentences whose checksum verifies",
 "Everything an RTTY demodulator reports as a packet consists of characters it really received, and ends with an asterisk and four hexadecimal digits equal to the CRC-16 of the text between the leading dollar signs and that asterisk. Sentences with damaged text, damaged or non-hexadecimal checksums, or no checksum are never reported as good.",
 ["inputs", "histories"], "all bit streams, including sentences with mutated text, checksum characters and framing",
 "The existing tests feed only intact recordings, so acceptance of a bad sentence would go unnoticed.",
 ["src/horus_api.c"],
 [("CRC check", "src/horus_api.c: extract_horus_rtty, hex2int"), ("CRC", "src/horus_l2.c: horus_l2_gen_crc16")],
 ["horus_rx return value and text", "horus_crc_ok"])

prop("C09", "Audio in, packets out: modulated packets are recovered over the operating range",
 "A packet modulated as 4-tone FSK, or a sentence as 2-tone RTTY, is demodulated to exactly the transmitted content exactly once whenever the tones lie inside the estimator limits and the signal is comfortably above the noise. This holds for any carrier frequency, phase, amplitude, start offset and small clock error, for real and quadrature samples, peak and mask frequency estimators, and for each supported baud rate and sample rate.",
 ["inputs", "configurations"], "payloads, sizes, tone frequencies and spacings, phase, gain, start delay, clock error to 50 ppm, benign noise levels, real/IQ, baud rates and sample rates",
 "Recordings fix one frequency, one level, one timing phase and one configuration each; the modem's frequency, timing and block logic is parameterised by all of them.",
 ["src/fsk.c", "src/horus_api.c", "src/kiss_fft.c", "horusdemodlib/demod.py"],
 [("frequency estimators", "src/fsk.c: fsk_demod_freq_est"), ("timing recovery and slip", "src/fsk.c: fsk_demod_core"), ("mode setup", "src/horus_api.c: horus_open_advanced_sample_rate")],
 ["reported packets"])

prop("C10", "Demodulation is a deterministic function of the sample stream alone",
 "What a demodulator reports depends only on its configuration and the samples it was given: not on other demodulators running in the same process, on previously closed ones, on prior memory contents, or on how the samples were divided into chunks when they were pushed in. Feeding the same audio twice gives the same packets and the same statistics.",
 ["inputs", "histories", "schedules"], "all interleavings of several demodulators (modes, configurations), open/close histories, and all chunkings of the audio",
 "Tests run one demodulator per process over one chunking; hidden shared or uninitialised state only shows with several instances or with different memory contents.",
 ["src/horus_api.c", "src/fsk.c", "horusdemodlib/demod.py"],
 [("per-instance state", "src/horus_api.c: horus_open_advanced_sample_rate; src/fsk.c: fsk_create_core"), ("sample buffering", "horusdemodlib/demod.py: add_samples")],
 ["reported packets", "horus_get_modem_extended_stats"])

prop("C11", "Modem statistics track the signal that was really received",
 "After demodulating a steady FSK signal the reported tone frequencies are within a fraction of the baud rate of the true tones in ascending order, and the reported signal-to-noise figure rises with the true one and stays within a few decibels of it. Estimates never lie outside the configured frequency limits when a signal is present inside them.",
 ["inputs", "configurations"], "tone frequencies, spacings, signal levels, noise levels, both estimators, real and quadrature input",
 "No existing test looks at the statistics at all, though the receiver frequency and SNR published for each packet derive from them.",
 ["src/fsk.c", "src/horus_api.c"],
 [("estimators and stats", "src/fsk.c: fsk_demod_freq_est, fsk_demod_core; src/horus_api.c: horus_get_modem_extended_stats, horus_set_freq_est_limits")],
 ["extended stats", "JSON statistics lines"])

prop("C12", "Both command-line demodulators and the Python class report the same packets",
 "For the same audio and options the native command-line demodulator, the Python command-line demodulator and the Python class report the same packets in the same order, one line per packet. Block by block, the Python class asks for as many samples and gives the same content, checksum result and statistics as the native library. Every statistics line either tool emits is one JSON object carrying the fields the uploader requires, with the values the demodulator measured at that point of the audio.",
 ["inputs", "configurations"], "all audio streams (packets at any position including at end of file), modes, real/IQ, checksum and statistics options",
 "Tests grep each tool's output on separate sample files for one expected line; they never compare the tools, nor packets near the end of the input.",
 ["src/horus_demod.c", "horusdemodlib/demod.py"],
 [("native main loop", "src/horus_demod.c: main"), ("Python main loop", "horusdemodlib/demod.py: HorusLib.add_samples, demodulate, main")],
 ["stdout", "stderr"])

prop("C13", "The modulator tools and test-bit tools are mutually consistent",
 "Bits sent through the FSK modulator tool and the FSK demodulator tool come back unchanged after the receiver settles, for two and four tones and any legal rates, and the test-bit checker reports no errors on what the test-bit generator produced and reports errors when bits are corrupted. The packet test-bit generator emits, for every mode and frame count, exactly that many consecutively numbered packets that decode and pass their checksum.",
 ["inputs", "configurations"], "bit strings, tone counts, sample and symbol rates, tone placements; generator modes and frame counts",
 "The tests use one symbol rate and frame counts of one to a few, and only look for one expected line.",
 ["src/fsk_mod.c", "src/fsk_demod.c", "src/fsk_get_test_bits.c", "src/fsk_put_test_bits.c", "src/horus_gen_test_bits.c"],
 [("modulator", "src/fsk.c: fsk_mod; src/fsk_mod.c"), ("demodulator tool", "src/fsk_demod.c"), ("test packets", "src/horus_gen_test_bits.c: main")],
 ["output bit streams"])

prop("C14", "Opening, using and closing demodulators any number of times leaks nothing",
 "After a demodulator of any mode and configuration has been opened, used for any number of blocks and closed, every byte of memory it obtained has been released. Repeating this any number of times in one process leaves memory use unchanged and does not affect demodulators that remain open.",
 ["histories", "configurations"], "all sequences of open, demodulate, query and close over several instances",
 "Each test runs one process that exits; a leak per instance is invisible to it.",
 ["src/horus_api.c", "src/fsk.c"],
 [("teardown", "src/horus_api.c: horus_close; src/fsk.c: fsk_destroy")],
 ["leak report"])

prop("P01", "Fixed-format telemetry decodes to exactly the transmitted field values",
 "Every checksum-valid fixed-format packet (22-byte, 16-byte or 32-byte) is either rejected with a value error or decoded to precisely the callsign, sequence number, time, position, altitude, speed, satellites, temperature and battery voltage it encodes, with the modulation it was sent in. It is rejected exactly when its time of day does not exist (43200 double seconds stands for midnight) or a coordinate is not a number within 180 degrees of zero.",
 ["inputs"], "all payload contents for the three layouts, including boundary hours, minutes, seconds, latitudes, longitudes and non-finite floats",
 "Tests decode about ten fixed packets and do not compare most values; field offsets, signedness and range limits are only observable on other values.",
 ["horusdemodlib/decoder.py", "horusdemodlib/delegates.py"],
 [("format tables", "horusdemodlib/decoder.py: HORUS_PACKET_FORMATS, decode_packet"), ("field delegates", "horusdemodlib/delegates.py")],
 ["decoded dictionary"])

prop("P02", "A damaged or malformed packet is never decoded as telemetry",
 "Decoding raw bytes yields telemetry only if the checksum at the position required by the packet's format verifies over the whole packet; any other byte string raises a value or codec error. Decoding never alters its input, the format tables or later results.",
 ["inputs", "histories"], "all byte strings of every length, valid packets with arbitrary corruption, truncation or extension, and sequences of good and bad packets",
 "Tests try a few single-byte corruptions of one packet.",
 ["horusdemodlib/decoder.py", "horusdemodlib/checksums.py"],
 [("CRC gate", "horusdemodlib/decoder.py: decode_packet"), ("format lookup", "horusdemodlib/decoder.py: HORUS_LENGTH_TO_FORMAT")],
 ["return or exception"])

prop("P03", "User-defined packet sections decode according to the configured description",
 "The nine user-defined bytes of a 32-byte packet are decoded with the description configured for that callsign, or the default description if it has none, giving one value per described field with the configured scaling, listed by name and repeated in the sentence text. A description that does not fit its data raises an error instead of producing values.",
 ["inputs", "configurations"], "all field descriptions that fit nine bytes, all nine-byte contents, all callsigns with and without a description",
 "Only the default description and two test entries are ever decoded by the tests.",
 ["horusdemodlib/delegates.py", "horusdemodlib/decoder.py", "custom_field_list.json"],
 [("custom field decode", "horusdemodlib/delegates.py: decode_custom_fields, decode_field"), ("lookup by callsign", "horusdemodlib/decoder.py: decode_packet")],
 ["decoded dictionary", "sentence text"])

prop("P04", "Version 3 telemetry decodes to exactly the transmitted fields and units",
 "For every telemetry message allowed by the schema, a checksummed version 3 packet decodes to output in which each present field appears once under its documented name, in its documented unit, and each absent field does not appear. The list of extra field names contains exactly the extra fields that were present, and messages outside the schema's value ranges are rejected.",
 ["inputs"], "all messages of the schema: all combinations of optional parts, all sensor value types, boundary values, unknown altitude and time",
 "The tests decode one maximal message and a few minimal ones; they cannot cover the 2^16 presence combinations or the interactions between parts.",
 ["horusdemodlib/decoder.py", "horusbinaryv3/HorusBinaryV3.asn1"],
 [("schema decode", "horusdemodlib/decoder.py: HORUS_ASN"), ("field mapping", "horusdemodlib/decoder.py: decode_packet")],
 ["decoded dictionary"])

prop("P05", "Native and Python version 3 codecs interoperate byte for byte",
 "For every telemetry message allowed by the schema the native encoder and the Python encoder produce the same bytes, and each decodes the other's output to the same values. Receivers also decode messages carrying unknown later extensions, or zero padding after the message, to the same known fields.",
 ["inputs"], "all schema messages, padded to any packet size, with and without extension additions",
 "The existing schema tests use only the Python codec, and the native one is exercised for three fixed messages.",
 ["horusbinaryv3/clib/Telemetry.c", "horusbinaryv3/clib/per_support.c", "horusbinaryv3/clib/constr_SEQUENCE.c", "horusbinaryv3/clib/INTEGER.c", "horusbinaryv3/clib/REAL.c", "horusbinaryv3/HorusBinaryV3.asn1"],
 [("generated type tables", "horusbinaryv3/clib/Telemetry.c and siblings"), ("UPER runtime", "horusbinaryv3/clib/*_uper")],
 ["encoded bytes", "decoded values"])

prop("P06", "The native version 3 decoder survives any input",
 "Decoding any byte string with the native version 3 decoder either fails cleanly or yields a message that can be checked, printed, re-encoded and freed, without memory errors, undefined behaviour or leaks. A message that was cut short is never accepted. A decoded message passes the constraint check exactly when it satisfies the schema, and then re-encoding and decoding it again gives the same message.",
 ["inputs"], "all byte strings, especially mutations and truncations of valid messages",
 "The native decoder is never run by the tests on anything but its own output.",
 ["horusbinaryv3/clib/per_decoder.c", "horusbinaryv3/clib/constr_SEQUENCE.c", "horusbinaryv3/clib/constr_CHOICE.c", "horusbinaryv3/clib/OCTET_STRING.c", "horusbinaryv3/clib/INTEGER.c"],
 [("PER decode runtime", "horusbinaryv3/clib/per_support.c, constr_*.c"), ("constraint checks", "horusbinaryv3/clib/constraints.c")],
 ["return codes", "sanitizer reports"])

prop("P07", "Remembered sensor names stay with the payload and sensor they were sent for",
 "A sensor value sent without a name is reported under the most recent name received for that same callsign and sensor position, and as unknown if there was none. Names of one payload or position never affect another's, for any order of packets from any number of payloads.",
 ["histories"], "all packet sequences over several callsigns and up to four sensor positions, with names present, absent and changing",
 "One test sends one named packet and one unnamed one for a single payload.",
 ["horusdemodlib/decoder.py"],
 [("name cache", "horusdemodlib/decoder.py: HORUS_V3_NAME_CACHE, decode_packet")],
 ["decoded dictionary keys"],
 [("name cache", "callsign -> position -> name", "horusdemodlib/decoder.py: HORUS_V3_NAME_CACHE")])

prop("P08", "Packet creation clips every field to its range and always yields a valid packet",
 "Creating a 32-byte packet from any finite numeric telemetry and a legal payload number produces a packet that passes its checksum and decodes to the given values, each clipped to its field's range and then kept to the field's resolution: whole numbers without their fraction, scaled values to the nearest step, coordinates in single precision, the sequence number modulo 65536. Illegal payload numbers are refused, and the encoded form is the forward-error-corrected form of the plain one.",
 ["inputs"], "all numeric values for each field including far out of range, separate or combined time arguments, default and caller-supplied custom bytes",
 "One test creates a packet from all defaults.",
 ["horusdemodlib/encoder.py"],
 [("clipping and packing", "horusdemodlib/encoder.py: create_horus_v2_packet")],
 ["packet bytes", "decoded dictionary"])

prop("P09", "Symbol and bit expansion for transmission is lossless and ordered",
 "Turning packet bytes into four-level symbols or into one-bit-per-byte form yields the requested preamble followed by every bit of the packet, most significant first, and nothing else. Packing the symbols or bits back together returns the original bytes, and the two forms agree with each other.",
 ["inputs"], "all byte strings and preamble lengths",
 "No test checks the produced symbols or bits at all.",
 ["horusdemodlib/encoder.py"],
 [("expansion", "horusdemodlib/encoder.py: bytes_to_4fsk_symbols, bytes_to_onebitperbyte")],
 ["symbol list", "bit string"])

prop("P10", "Telemetry sentences are accepted exactly when intact and keep their values",
 "A telemetry sentence is accepted exactly when its checksum matches its text and it has a non-empty callsign, integer sequence number, valid time, finite numeric position and a whole altitude from 0 to 65535, and then yields exactly those values; every other string raises a value error. The sentence text produced for any decoded fixed-format packet itself carries a correct checksum and the packet's values.",
 ["inputs"], "all strings: generated sentences with both time styles, extra fields, leading dollars and whitespace, and arbitrary mutations of them",
 "Two fixed good sentences are parsed and the result is not examined; no bad sentence is tried.",
 ["horusdemodlib/decoder.py", "horusdemodlib/checksums.py"],
 [("sentence parser", "horusdemodlib/decoder.py: parse_ukhas_string"), ("sentence generation", "horusdemodlib/decoder.py: decode_packet"), ("sentence CRC", "horusdemodlib/checksums.py: ukhas_crc")],
 ["parsed dictionary or error", "sentence text"])

prop("P11", "A payload's time of day is dated to the nearest matching day around midnight",
 "A telemetry time of day within an hour of the receiver's clock is given the date that makes the two closest, so a packet sent just before or after midnight UTC is dated to the correct day whichever clock is ahead, including across month and year ends. The hours, minutes and seconds are never changed.",
 ["inputs", "configurations"], "all receiver clock instants and all payload times of day within one hour of it, especially around midnight",
 "No test exercises a rollover; the error appears only when the two clocks straddle midnight.",
 ["horusdemodlib/delegates.py", "horusdemodlib/utils.py"],
 [("rollover handling", "horusdemodlib/delegates.py: fix_datetime")],
 ["returned timestamp"])

prop("P12", "Only fit telemetry is offered for upload, faithfully reformatted",
 "Telemetry is reformatted for upload exactly when its callsign is known, its position is complete, it is not marked as meant for another network and its time is within three minutes of the receiver's clock; otherwise nothing is produced. The result carries the callsign, frame number, position and every valid optional value with the right names and units, all listed custom fields, the receiver's details, and no invalid sentinel values, and contains only data that can be sent as valid JSON.",
 ["inputs"], "all telemetry produced by the decoders from any packet or sentence, all clock offsets, all receiver metadata",
 "One fixed dictionary is converted with the time check off and the result is only printed.",
 ["horusdemodlib/utils.py", "horusdemodlib/delegates.py"],
 [("conversion and filters", "horusdemodlib/utils.py: telem_to_sondehub")],
 ["returned dictionary"])

prop("P13", "Accepted telemetry is uploaded exactly once, with bounded retries",
 "Every accepted telemetry item is put, in order, in exactly one batch and every batch is sent to the upload server, however items arrive relative to upload rounds and including those still queued when the uploader is closed; no batch is sent again after the server has accepted it. A batch the server answers with a transient server error is retried up to the configured number of attempts and no more, other refusals and network failures are not retried, and none of these stops later uploads.",
 ["histories", "fault_sequences", "schedules"], "all sequences of additions, upload rounds and server responses (success, partial, transient, refusal, exception)",
 "The tests upload one packet to a stub that always answers success.",
 ["horusdemodlib/sondehubamateur.py"],
 [("queue and batching", "horusdemodlib/sondehubamateur.py: add, process_queue"), ("retry policy", "horusdemodlib/sondehubamateur.py: upload_telemetry")],
 ["HTTP requests made"],
 [("input queue", "accepted, not yet uploaded items", "SondehubAmateurUploader.input_queue")])

prop("P14", "Local network messages carry the decoded packet's values",
 "For telemetry with a non-zero position, exactly one datagram is sent to the configured port, and its content parses as the payload summary (or position line) with the packet's callsign, position, time and every optional value present (signal-to-noise ratio, frequency, satellites, battery voltage, speed and all custom fields), under the documented names and units. Telemetry at exactly zero position, or whose position is not finite, sends no summary, and no telemetry makes the sender raise.",
 ["inputs", "fault_sequences"], "all decoded telemetry, all ports, broadcast available or failing",
 "One fixed message is sent and nobody looks at it.",
 ["horusdemodlib/horusudp.py"],
 [("summary", "horusdemodlib/horusudp.py: send_payload_summary"), ("position line", "horusdemodlib/horusudp.py: send_ozimux_message")],
 ["datagrams"])

prop("P15", "Signal statistics are averaged over exactly the configured recent window",
 "After any sequence of statistics updates, the reported signal-to-noise ratio is the mean (or, in peak-hold mode, the maximum) and the clock offset and tone spacing are the means over exactly the valid updates received within the averaging window, and the tone estimates are those of the latest valid update. Malformed or incomplete updates change nothing and never raise. The statistics relay (the module run as a program) sends exactly one datagram with these values per elapsed period to its port, whatever its input, and ends with it.",
 ["histories", "inputs"], "all update sequences with any non-decreasing arrival times, two- and four-tone, string or parsed form, with malformed, incomplete or non-numeric lines interspersed",
 "Two tests feed one regular sequence of twenty valid updates.",
 ["horusdemodlib/demodstats.py"],
 [("window", "horusdemodlib/demodstats.py: FSKDemodStats.update"), ("relay", "horusdemodlib/demodstats.py: send_modem_stats and the program")],
 ["snr, ppm, fest, fest_mean, fest_spacing", "datagrams of the relay"],
 [("sample window", "recent (time, snr, ppm, spacing)", "FSKDemodStats.samples")])

prop("P16", "Payload and field lists load robustly and bad downloads never replace good data",
 "Loading a payload or custom-field list yields every well-formed entry of the source over the built-in entries and skips malformed ones without affecting the others, whatever the text contains. A download that fails, is answered with an error status, or is not the complete expected document changes neither the local file nor its use as fallback, and a valid one is saved verbatim; loading never raises.",
 ["inputs", "fault_sequences"], "all list texts (valid, malformed, arbitrary), all download outcomes, missing or unreadable local files",
 "One test loads the shipped files and checks that no warning is logged.",
 ["horusdemodlib/payloads.py"],
 [("parsers", "horusdemodlib/payloads.py: parse_payload_list, parse_custom_field_list"), ("download and fallback", "horusdemodlib/payloads.py: download_latest_*, read_*, init_*")],
 ["returned dictionaries", "local files"])

prop("P17", "The uploader processes every input line independently and never dies",
 "Whatever lines arrive on its input, the uploader keeps running until end of input, and each valid packet or sentence line results in one log record, one local datagram and one upload offer exactly as if the other lines had not been there, annotated with the latest signal statistics. Invalid lines produce none of these, and end of input ends the program cleanly.",
 ["histories", "inputs", "configurations"], "all sequences of lines: valid packets of every format, sentences, statistics, and malformed or arbitrary text; upload enabled or disabled",
 "Each test feeds a single good line with uploads enabled; a line that kills the process or bleeds into later ones needs a sequence with bad lines.",
 ["horusdemodlib/uploader.py", "horusdemodlib/decoder.py", "horusdemodlib/demodstats.py"],
 [("main loop", "horusdemodlib/uploader.py: main")],
 ["log file", "datagrams", "HTTP requests", "exit"])

prop("P18", "Payload lists are refreshed for unknown payloads, at most every half hour",
 "When a packet's payload number is unknown and downloads are allowed, the lists are downloaded again and the packet is decoded with the new lists, but never more often than once per thirty minutes after a refresh. With downloads disabled, or in sentence-only mode, no refresh is ever attempted.",
 ["histories", "schedules", "configurations"], "all sequences of known and unknown packets at any times, download contents and failures, option combinations",
 "No test has an unknown payload with downloads enabled, nor more than one packet over time.",
 ["horusdemodlib/uploader.py", "horusdemodlib/payloads.py"],
 [("refresh logic", "horusdemodlib/uploader.py: main")],
 ["HTTP GETs", "log records"])

prop("P19", "Station details are published at start and at the configured interval only",
 "While running, the uploader publishes the station's details shortly after starting and then once per configured interval, with exactly the configured callsign, position, radio, antenna and software details, and without a position when none is configured. Failed publications are retried only for server errors (status 500, and optionally other 5xx), within the configured limit, and never interfere with telemetry uploads.",
 ["histories", "fault_sequences", "configurations"], "all server response sequences, elapsed times and station configurations",
 "The tests do not look at station position requests.",
 ["horusdemodlib/sondehubamateur.py", "horusdemodlib/uploader.py"],
 [("interval", "horusdemodlib/sondehubamateur.py: process_queue"), ("publication", "horusdemodlib/sondehubamateur.py: station_position_upload"), ("configuration", "horusdemodlib/uploader.py: read_config, main")],
 ["HTTP requests made"])

prop("E01", "From transmitted signal to upload, a flight's telemetry arrives intact",
 "Telemetry packets or sentences modulated onto audio, put through a command-line demodulator whose output is piped into the uploader, result in exactly one log record, local summary and upload per item sent, in order, carrying the transmitted callsign, counter, time, position and sensor values. The upload also carries a centre frequency that fits the receiver frequency plus the signal's audio frequency, and items whose time is far off or whose payload is unknown are decoded but not uploaded.",
 ["inputs", "histories", "configurations"], "all telemetry of every format, signals over the operating range, both demodulators, all uploader options and station configurations",
 "The tests run each stage alone, on fixed recordings or lines, and never compare what is uploaded with what was transmitted.",
 ["horusdemodlib/demod.py", "src/horus_demod.c", "src/horus_api.c", "horusdemodlib/uploader.py", "horusdemodlib/decoder.py", "horusdemodlib/demodstats.py", "horusdemodlib/encoder.py", "horusdemodlib/utils.py"],
 [("demodulation", "src/horus_api.c, src/fsk.c"), ("line protocol between the programs", "src/horus_demod.c: main; horusdemodlib/demod.py: main; horusdemodlib/uploader.py: main"), ("decoding and upload", "horusdemodlib/decoder.py, horusdemodlib/utils.py, horusdemodlib/sondehubamateur.py")],
 ["log file", "datagrams", "HTTP requests"])

prop("P20", "The one-packet tool decodes a packet as the receiving station would",
 "Given a packet in hexadecimal, the command-line decode tool prints the sentence which the decoder yields with the payload list and custom field descriptions found in the working directory (or downloaded on request, or shipped with the package), and for text that is no valid packet it reports an error and ends normally.",
 ["inputs", "configurations", "fault_sequences"], "all packets and texts, list contents and download outcomes",
 "No test runs the tool.",
 ["horusdemodlib/decoder.py", "horusdemodlib/payloads.py"],
 [("tool", "horusdemodlib/decoder.py: __main__"), ("lists", "horusdemodlib/payloads.py: init_payload_id_list, init_custom_field_list, update_payload_lists")],
 ["standard output", "exit status"])

prop("S01", "The receive scripts give every signal its own demodulator, range and frequency",
 "Each receive script starts one receiver tuned as configured (gain, bias tee, correction and device honoured) and passes all its samples to one demodulator per configured signal, whose mode and frequency range fit that signal; each demodulator's output reaches its own uploader, which is told the receiver's tuned frequency and, if told a target frequency, that of its own signal. Extra arguments reach the uploader, and a script whose programs are missing reports this and starts nothing.",
 ["configurations", "inputs"], "all settings of tuning, signal positions, bandwidth, gain, correction and extra arguments, all sample streams",
 "No test runs a script.",
 ["start_rtlsdr.sh", "start_dual_4fsk.sh", "start_triple_4fsk.sh", "start_eight_4fsk.sh", "start_dual_rtty_4fsk.sh", "start_gqrx.sh", "scripts/docker_single.sh", "scripts/docker_soapy_single.sh", "scripts/docker_ka9q_single.sh", "scripts/docker_dual_4fsk.sh", "scripts/docker_dual_rtty_4fsk.sh"],
 [("settings and limits", "start_*.sh, scripts/docker_*.sh: calculation of limits and options"), ("chains", "start_*.sh, scripts/docker_*.sh: receive chain")],
 ["arguments and input of the programs started"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
