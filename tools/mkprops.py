#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))

AX = ["dsp/ax25/hdlc.go", "dsp/ax25/crc.go", "dsp/ax25/constants.go"]
p("H01", "AX.25 decoder delivers only intact flag-delimited frames",
  "For every sequence of bits fed to the AX.25 decoder, it delivers a frame only at the last bit of a closing flag, and only when the bits since the previous flag contain no abort (seven ones) and, with stuffed zeros removed, hold between 17 octets (10 octets if the second octet has its low bit set: compressed header) and 512 octets whose trailing 16-bit frame check sequence is correct. At every other bit it delivers nothing, and no bit sequence makes it panic.",
  ["inputs", "histories"], "all bit sequences (noise, flags, aborts, short, overlong, unaligned and corrupted runs, in any order)",
  "There is no AX.25 test at all; a sampled frame cannot settle what happens for every bit history, the 512-octet limit and every stuffing position.",
  AX, [("AX25.Feed", "dsp/ax25/hdlc.go"), ("AX25.processFrame", "dsp/ax25/hdlc.go"), ("checkCrcCcitt", "dsp/ax25/crc.go")],
  [("bitstream", "last eight received bits", "dsp/ax25/hdlc.go AX25"), ("inFrame/rxBuf/rxBits/rxBitI", "octets collected since the last flag", "dsp/ax25/hdlc.go AX25")],
  ["return value of (*AX25).Feed for every bit"])
p("H02", "Every valid frame is delivered whatever was received before it",
  "Whatever bits the AX.25 decoder received before (noise, aborted, truncated or overlong frames), a valid frame of at most 512 octets that is then sent bit-stuffed between two flags is delivered exactly at the last bit of its closing flag with the same content that a fresh decoder delivers. Consecutive frames may share one flag, and any payload bit pattern passes through stuffing unchanged.",
  ["inputs", "histories"], "all previous bit histories x all valid frames x all payload bit patterns x frame separations",
  "No test feeds the decoder anything, let alone a frame after every kind of previous history.",
  AX, [("flag resynchronisation and bit un-stuffing in Feed", "dsp/ax25/hdlc.go")],
  [("inFrame", "whether a flag opened a run that was not aborted", "dsp/ax25/hdlc.go AX25")],
  ["frames returned by (*AX25).Feed"])
p("H03", "AX.25 header, control and info fields decode to what was encoded",
  "A delivered frame with an ordinary header reports exactly what its octets encode: destination, source and repeater callsigns (shifted characters up to the first space) and SSIDs, the command/response bits (equal bits mean version 1 and not a command; otherwise the destination bit says command), the frame type with N(S), N(R), poll/final, unnumbered and supervisory type from the control octet. Protocol identifier and information are reported for information and UI frames only, and the information is every octet between the PID and the check sequence.",
  ["inputs"], "all header contents, 0 or more repeaters, all 256 control octets, all info lengths up to the 512-octet frame limit",
  "No test decodes a frame; the combinations of repeaters, control octets and truncated bodies are not enumerable by examples.",
  AX, [("processFrame", "dsp/ax25/hdlc.go"), ("parseAddress", "dsp/ax25/hdlc.go")], [], ["fields of the *Frame returned by Feed"])
p("H04", "FlexNet compressed headers decode to the packed callsign and control",
  "A delivered frame whose second octet has its low bit set is decoded as a FlexNet compressed header: not version 1, command flag from bit 1 of the second octet, destination callsign from the six 6-bit groups packed in octets 3 to 7 (groups that are zero are skipped, others are offset by 32), destination SSID from the low four bits of octet 7 (an all-zero callsign leaves the whole destination empty), and no source or repeaters. Control, PID and information follow from octet 8 as in an ordinary frame.",
  ["inputs"], "all seven header octets and all bodies",
  "No test covers compressed headers; a bit-packing slip shows only for particular octet values.",
  AX, [("FlexNet branch of processFrame", "dsp/ax25/hdlc.go")], [], ["Destination, Command, V1 and control fields of the returned *Frame"])
p("H05", "Delivered AX.25 frames are stable and decoders are independent",
  "Once a frame has been delivered, nothing that is fed to any decoder afterwards changes any of its fields, including the bytes of its information field. Several decoders used in any interleaving each deliver what they would deliver alone.",
  ["histories", "inputs"], "all continuations of the bit stream after a delivery, all interleavings of several decoders",
  "It needs a history that continues after a delivery; no test holds on to a frame.",
  AX, [("Frame.Info construction in processFrame", "dsp/ax25/hdlc.go"), ("rxBuf reuse in Feed", "dsp/ax25/hdlc.go")],
  [("rxBuf", "receive buffer reused for every frame", "dsp/ax25/hdlc.go AX25")], ["a previously returned *Frame after more bits were fed"])
p("H06", "Bit errors in a frame are never delivered as data",
  "If one, two or three bits, or any burst of bits spanning at most 16 positions, of a valid frame's octets are inverted before it is bit-stuffed and sent, the decoder delivers no frame for it. This holds for every position in frames up to 512 octets.",
  ["inputs", "fault_sequences"], "all frames up to 512 octets x all error patterns of weight 1..3 or burst length up to 16",
  "Error patterns times positions are far beyond a test table; a wrong entry in the 256-entry CRC table is hit only by particular octets.",
  AX, [("checkCrcCcitt and its table", "dsp/ax25/crc.go")], [], ["(*AX25).Feed at the closing flag of a corrupted frame"])

p("H07", "AX.25 codes and addresses are shown by their names",
  "Printing (String and the fmt package) any of the 256 values of a protocol identifier, frame type, unnumbered or supervisory type shows the name the code has in AX.25, and two lower-case hexadecimal digits for a code without one, so that no two codes of a kind look the same. The exported constants have the protocol's codes. Every field of a delivered frame is shown this way whatever its control and protocol octets, addresses as call sign, dash and decimal SSID.",
  ["inputs"], "all 256 codes of every kind, all control octets and protocol identifiers in ordinary and compressed frames",
  "No test decodes a frame or prints a code.",
  ["dsp/ax25/constants.go", "dsp/ax25/hdlc.go"], [("String methods", "dsp/ax25/constants.go"), ("Address.String", "dsp/ax25/hdlc.go")], [], ["fmt.Sprint of PID, FrameType, UnnumberedType, SupervisoryType, Address"])

BC = ["borip/client.go"]
p("B01", "BorIP client calls are lock-step: one command line, one reply line",
  "Each BorIP client method sends exactly one line consisting of the protocol's command word (DEVICE, FREQ, ANTENNA, RATE, GAIN, DEST, HEADER, GO, STOP) followed, for setters, by one space and the argument (numbers in plain decimal that parse back to the same value), and consumes exactly one reply line. The n-th call's result therefore depends only on the n-th reply, for every sequence of calls, replies and network fragmentation of the reply bytes.",
  ["histories", "inputs", "schedules"], "all call sequences, argument values, reply lines and splits of the reply byte stream",
  "The borip package has no tests.",
  BC, [("BorIP.command", "borip/client.go"), ("all exported methods", "borip/client.go")], [("rd/wr", "buffered connection", "borip/client.go BorIP")], ["bytes seen by the peer", "method results"])
p("B02", "BorIP client interprets every reply correctly and never panics",
  "For every reply line, a client setter (SetFrequency, SetRate, SetGain, SetAntenna, SetDestination, SetHeaderEnabled, Go, Stop) succeeds exactly when the second word is OK and the arguments it must return are present and well formed, and returns those values (missing optional frequency fields read as zero); a numeric or on/off getter returns the value that follows the command word, or an error when that is missing or malformed. Any other reply to a setter gives an error carrying the server's words where there are any, a connection that ends before a reply line gives an error, and no reply makes any method panic.",
  ["inputs", "fault_sequences"], "all reply lines (well formed, truncated, error, garbage) to every method, and connections closed at any byte",
  "The borip package has no tests; short and malformed replies are exactly what examples leave out.",
  BC, [("parseAndCheck / makeErrorResponse", "borip/client.go"), ("per-method parsing", "borip/client.go")], [], ["results and errors of every method"])
p("B03", "BorIP client session state and orderly Close",
  "Device() is the device of the last successful selection, is cleared by a successful deselection, and is unchanged by failed selections. Close sends STOP exactly when the last acknowledged start has not been followed by an acknowledged stop, then sends the deselect command exactly when a device is selected, then closes the connection, for every preceding history of successful and failed calls. A Dial that fails leaves no connection open.",
  ["histories"], "all sequences of method calls with successful and failing replies, ended by Close",
  "The borip package has no tests; the property is about call histories.",
  BC, [("SelectDevice/Go/Stop/Close", "borip/client.go")], [("running", "stream acknowledged as started", "borip/client.go BorIP"), ("device", "selected device", "borip/client.go BorIP")], ["Device()", "lines sent by Close"])
p("B04", "BorIP device descriptors decode field by field",
  "A device descriptor name|min gain|max gain|gain step|FPGA frequency|samples per packet|antennas with an optional eighth field, the serial, is decoded into exactly those values (antennas split at commas, serial empty when absent, further fields ignored). Descriptors with fewer than seven fields or a malformed number are rejected with an error and leave the selected device unchanged, and a reply of '-' followed by text is an error with that text.",
  ["inputs"], "all descriptor strings",
  "The borip package has no tests.",
  BC, [("parseDeviceString", "borip/client.go"), ("SelectDevice", "borip/client.go")], [], ["*Device returned by SelectDevice", "Device()"])
PR = ["borip/packet.go"]
p("P01", "PacketReader delivers every received sample once, in order",
  "For every sequence of datagrams and every sequence of read buffer sizes, PacketReader.ReadSamples returns the little-endian signed 16-bit I/Q pairs of the datagrams in order, each exactly once and with the right sign, never more than fit in the caller's buffer, keeping the rest for the following calls. Bytes at the end of a datagram that do not make up a whole pair are ignored, never combined with other bytes, and no datagram or buffer size makes it panic.",
  ["inputs", "histories"], "all datagram sizes and contents x all caller buffer sizes in any order",
  "The borip package has no tests; reads smaller than a datagram and odd-sized datagrams are multi-step histories.",
  PR, [("PacketReader.ReadSamples", "borip/packet.go")], [("buf/bufI/bufN", "undelivered part of the current datagram", "borip/packet.go PacketReader")], ["samples and counts returned by ReadSamples"])
p("P02", "PacketReader headers and short datagrams stay with their own datagram",
  "With headers enabled, Header() after a successful read reports flags, notification and little-endian sequence number of the datagram the samples came from, header bytes are never returned as samples, and a datagram shorter than the header gives exactly one ErrShortPacket while leaving header and following data untouched. A flag of the header is set for a caller who tests it with the exported flag constants exactly when the protocol's bit for it is set (1 hardware overrun, 2 network overrun, 4 buffer overrun, 8 empty payload, 16 stream start, 64 buffer underrun, 128 hardware timeout). Without headers every byte is sample data; a receive error is returned unchanged and the next read continues with the next datagram.",
  ["inputs", "histories", "fault_sequences"], "all sequences of datagrams (normal, empty, short) and receive errors, with and without headers",
  "The borip package has no tests.",
  PR, [("header handling in ReadSamples", "borip/packet.go")], [("header", "header of the current datagram", "borip/packet.go PacketReader")], ["Header()", "errors of ReadSamples"])

SV = ["boripserver/main.go", "boripserver/devices.go"]
p("S01", "Server hands a device to one client at a time and always gets it back",
  "At any time each receiver is held by at most one connected client of the server: it is handed out by a DEVICE selection only while no other client holds it, stays with that client until it deselects, reselects or disconnects, and is then closed and available again. Hardware control calls are made only on a device that is open and held by the client whose command caused them.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of several clients' commands and disconnects, device open failures",
  "There is no server test, and the property quantifies over interleavings of clients.",
  SV, [("device.open/close", "boripserver/devices.go"), ("cmdDevice and handleConnection cleanup", "boripserver/main.go")], [("inUse/rtlDev", "device ownership", "boripserver/devices.go device"), ("client.dev", "device held by this client", "boripserver/main.go client")], ["replies and calls on the receiver driver"])
p("S02", "Server answers every command by session state and never crashes",
  "The server greets with 'DEVICE -' and answers every non-empty command line with exactly one reply determined by the session state: DEVICE errors without a device, GO fails without destination, reports RUNNING while a stream runs and OK otherwise, STOP reports STOPPED when nothing runs, unknown commands get UNKNOWN, queries return what was set. A freshly selected device is set to the default centre frequency (144.1 MHz), sample rate (1 MHz) and AGC off, and its descriptor states the tuner's name, gain range and frequency. No sequence of commands and disconnects, at any timing relative to the receiver's sample callbacks, stops the server or another client's session.",
  ["schedules", "histories"], "all command sequences x timings of sample-buffer callbacks x disconnects",
  "There is no server test; STOP, DEVICE, disconnect and sample callbacks race with each other.",
  SV, [("handleCommand", "boripserver/main.go"), ("startStreaming/stopStreaming", "boripserver/main.go")], [("closeChan", "streaming state and stop request", "boripserver/main.go client"), ("dest", "UDP destination", "boripserver/main.go client")], ["reply lines", "liveness of the server process"])
p("S03", "Streamed packets are gapless, numbered and carry the samples in order",
  "While a stream runs, the datagrams sent to the client's destination carry, for every buffer the receiver delivers, all its samples converted to little-endian signed 16-bit, in order and exactly once, at most 4096 I/Q pairs per datagram, with sequence numbers that start at 0 for each start and increase by one modulo 65536, and the stream-start flag on the first datagram only. After a stop is acknowledged at most the buffer in progress is still sent and then nothing.",
  ["inputs", "histories", "schedules"], "all buffer sizes and contents, start/stop histories and sequence number wrap-around",
  "There is no server test; numbering and splitting are stream histories.",
  SV + ["dsp/conversion.go"], [("streaming callback in startStreaming", "boripserver/main.go")], [("seq/first", "packet counter and start marker", "boripserver/main.go startStreaming")], ["UDP datagrams"])
p("S04", "The BorIP client works against the bundled server",
  "Every client library call made against the bundled server has the documented effect: selecting a device yields its descriptor, setting frequency, rate, gain or destination returns the values the device or server actually uses and the corresponding queries report the same values, the antenna query names a valid antenna of the selected device, starting makes the samples arrive in order at a PacketReader, and Close releases everything.",
  ["histories", "inputs"], "all sequences of client calls and receiver values",
  "Client and server have no tests, and each side alone cannot show that the two agree on the protocol.",
  SV + BC + PR, [("reply formats in handleCommand", "boripserver/main.go"), ("reply parsing", "borip/client.go")], [], ["client method results against a running server"])

CV = ["dsp/conversion.go", "dsp/conversion_amd64.s", "dsp/conversion_avo_amd64.s"]
p("C01", "Slice operations touch exactly the common prefix, at any alignment",
  "Every slice conversion and element-wise vector operation, for every pair of input and output lengths (including zero and unequal) and every alignment of the slices, processes exactly as many elements as fit both, writes exactly those output elements and nothing before or after them, leaves its input unchanged (unless it is also the output), and never faults.",
  ["inputs", "configurations"], "all lengths, all alignments of input and output, all CPU feature selections, for every conversion and vector function",
  "The tests use one or two lengths and alignments per function, and none looks past the end of the output slice.",
  CV + ["dsp/math32.go", "dsp/math32_amd64.s"], [("length selection, alignment prologue, block loop and tail loop of each kernel", "dsp/conversion_amd64.s, dsp/conversion_avo_amd64.s, dsp/math32_amd64.s")], [], ["output slice and the memory around it"])
p("C02", "8-bit sample conversions are exact for every value and position",
  "Converting 8-bit samples is exact for all 256 values at every position: unsigned samples are recentred by 128, to 16-bit they are replicated in both bytes of the sample (byte form: both bytes equal), to float and complex they are the unscaled integer values with I first, signed samples keep their value, and complex samples with integral parts in range convert back to the same signed bytes.",
  ["inputs", "configurations"], "all sample values x positions x lengths x alignments x CPU feature selections",
  "The tests cover a handful of lengths, so most value/position/path combinations never occur.",
  CV, [("Ui8toi16, Ui8toi16b, Ui8tof32, I8tof32, Ui8toc64, I8toc64, C64toi8", "dsp/conversion.go")], [], ["output slices"])
p("C03", "16/32-bit and float conversions are exact little-endian round trips",
  "16- and 32-bit conversions are exact at every position: little-endian bytes are read and written in that order with sign, scaled floats in the int16 range truncate toward zero, integers convert to the float nearest to the value times the scale (32-bit integers with power-of-two scales), float32 to bytes preserves every bit pattern, and converting int16 samples to float and back with reciprocal power-of-two scales returns the same samples.",
  ["inputs", "configurations"], "all sample values (all int16, all float bit patterns) x power-of-two scales x positions x lengths x CPU feature selections",
  "The tests use 10-element inputs and a few values.",
  CV, [("F32toi16, F32toi16ble, I16ToBLE, I16bleToF32, I16bleToF64, I32bleToF32, F32Tof32ble", "dsp/conversion.go")], [], ["output slices"])
p("C04", "Results do not depend on CPU features or on the portable build",
  "For the same arguments (with float to int16 conversions in range and no NaN given to minimum and maximum) every slice operation returns the same result with each selectable set of CPU features, on the accelerated and on the portable build, including NaN (as NaN, whatever its payload), infinities, signed zeros (equal to each other for minimum and maximum) and denormals as element values.",
  ["configurations", "inputs"], "all CPU feature selections and the portable 386 build x all arguments",
  "The tests compare two code paths on a few fixed inputs, and only those the build machine selects.",
  CV + ["dsp/math32.go", "dsp/math32_amd64.s", "dsp/math32_386.s", "dsp/conversion_386.s", "dsp/cpu_amd64.go", "dsp/internal/cpu/cpu.go"], [("feature dispatch in the kernels", "dsp/conversion_amd64.s, dsp/math32_amd64.s"), ("portable fallbacks", "dsp/conversion.go, dsp/math32.go")],
  [("useSSE4/useSSE2/useAVX2", "selected code path", "dsp/cpu_amd64.go")], ["result bits per configuration"])
VM = ["dsp/math32.go", "dsp/math32_amd64.s"]
p("V01", "Element-wise vector arithmetic applies to each element alone",
  "VScaleF32, VScaleC64, VAddF32, VAddC64, VMulC64, VMulC64xF32 and VAbsC64 compute each output element from the elements at the same position only (scale, sum, complex product, product with a real, magnitude where the squared parts are representable), for every length and also when output and input are the same slice.",
  ["inputs", "configurations"], "all lengths, values, scales, in-place and separate slices, CPU feature selections",
  "Tests exist for two of seven functions and use one length.",
  VM, [("VScaleF32 and friends", "dsp/math32.go, dsp/math32_amd64.s")], [], ["output slices"])
p("V02", "Minimum and maximum consider every element",
  "VMaxF32 and VMinF32 return the largest and smallest element for every length, position of the extreme element, sign and infinity (no NaN), and minus and plus infinity for an empty slice.",
  ["inputs", "configurations"], "all lengths and all positions of the extremes, all CPU feature selections",
  "The tests use length 1024 and a few short slices; tails after SIMD blocks are not covered for other lengths.",
  VM, [("VMaxF32, VMinF32", "dsp/math32_amd64.s")], [], ["return values"])

p("F01", "Complex decimator sums every group of samples across block boundaries",
  "However the sample stream is cut into blocks (including empty ones), LowPassDownsampleComplexFilter outputs for the j-th complete group of Downsample consecutive samples exactly the sum of that group, each once and as soon as the group is complete. Filters are independent of each other.",
  ["histories", "inputs"], "all block splits, decimation factors (1 and more), sample values and interleavings of several filters",
  "One test with one block and factor 2.",
  ["dsp/downsample.go", "dsp/downsample_amd64.s"], [("lowPassDownsampleComplexFilter", "dsp/downsample.go")], [("now/prevIndex", "partial group", "dsp/downsample.go")], ["concatenated outputs"])
p("F02", "Rational decimator keeps rate and phase across block boundaries",
  "However the stream is cut into blocks, LowPassDownsampleRationalFilter with 0 < Slow <= Fast outputs its j-th value after exactly ceil(j*Fast/Slow) input samples, equal to the sum of the inputs since the previous output times Slow/Fast. Filters are independent of each other.",
  ["histories", "inputs"], "all block splits, Fast/Slow ratios, sample values",
  "One test with one block and one ratio, comparing the function with itself.",
  ["dsp/downsample.go", "dsp/downsample_amd64.s"], [("lowPassDownsampleRationalFilter", "dsp/downsample.go")], [("sum/prevIndex", "partial group and phase", "dsp/downsample.go")], ["concatenated outputs"])
p("F03", "FM demodulation gives each sample's phase step, across block boundaries",
  "However the stream is cut into blocks, FMDemodFilter writes for each input sample the angle (within 0.011 rad, and exactly the library's fast arctangent) of that sample times the conjugate of the previous one, including the last sample of the previous block, and returns the number of input samples. PolarDiscriminator and PolarDiscriminator32 give the same angle for a pair.",
  ["histories", "inputs"], "all block splits and sample values of ordinary magnitude",
  "One test with one block of four samples, compared with itself.",
  ["dsp/demod.go", "dsp/demod_amd64.s"], [("fmDemodulate", "dsp/demod.go")], [("pre", "previous sample", "dsp/demod.go FMDemodFilter")], ["output slice"])
p("F04", "Rotate filters multiply by successive powers of i",
  "For every number of samples that is a multiple of four, Rotate90Filter and I32Rotate90Filter multiply the n-th sample by i to the power n, in place, returning the same samples; consecutive blocks continue the rotation and both filters agree.",
  ["inputs", "histories"], "all lengths divisible by four, all sample values, any block splits at multiples of four",
  "One test with one block for one of the two filters, compared with itself.",
  ["dsp/util.go", "dsp/util_amd64.s"], [("rotate90Filter, i32Rotate90Filter", "dsp/util.go")], [], ["returned samples"])
p("F05", "DC blocker obeys its recurrence whatever the mix of block and single calls",
  "DCFilter and DCFilter32 produce y[n] = x[n] - x[n-1] + a*y[n-1] with everything before the first sample zero, for every mix of Filter blocks (any size, also in place) and FilterOne calls on the same filter.",
  ["histories", "inputs"], "all mixes of block and single-sample calls, coefficients and sample values",
  "There is no test.",
  ["dsp/filter.go"], [("DCFilter.Filter/FilterOne", "dsp/filter.go")], [("w", "filter state", "dsp/filter.go DCFilter")], ["outputs"])
p("F06", "IIR filters realise their difference equation, block by block",
  "IIRFilter, ComplexIIRFilter and ComplexIIRFilter32 built from b and a (equal length at least 1, any non-zero a[0]) produce a[0]*y[n] = sum b[j]*x[n-j] - sum over j>0 of a[j]*y[n-j] with zero history, however the input is cut into blocks and also in place. Building a filter leaves the caller's coefficient slices unchanged, later changes to them do not affect it, filters built from the same slices behave the same, and unequal or empty coefficients are refused with a panic.",
  ["histories", "inputs"], "all coefficient sets and orders from 0, block splits, sample values, several filters sharing coefficients",
  "There is no test.",
  ["dsp/filter.go", "dsp/util.go"], [("NewIIRFilter, NewComplexIIRFilter, NewComplexIIRFilter32", "dsp/filter.go"), ("Filter", "dsp/filter.go")], [("pIn/pOut", "delay lines", "dsp/filter.go")], ["outputs", "caller's coefficient slices"])
p("F07", "Biquad filters realise their difference equation and their designs",
  "A BiQuadFilter produces A0*y[n] = B0*x[n]+B1*x[n-1]+B2*x[n-2]-A1*y[n-1]-A2*y[n-2] with zero history, for every mix of Filter and FilterF32 blocks of any size on one filter; coefficients changed between blocks apply from the next sample on, to the same history. Each constructor returns the coefficients of its named response from the Audio EQ Cookbook for the given sample rate, frequency, Q or slope, and gain, up to a common factor.",
  ["histories", "inputs"], "all coefficients, block splits and mixes of the two methods; all design parameters with 0 < frequency < half the rate",
  "There is no test.",
  ["dsp/biquad.go"], [("Filter, FilterF32", "dsp/biquad.go"), ("the nine constructors", "dsp/biquad.go")], [("prevIn/prevOut", "delay lines", "dsp/biquad.go BiQuadFilter")], ["outputs", "coefficient fields"])
p("G01", "Goertzel filters report the DFT bins of the samples since Reset",
  "After Reset (or construction) and any number of Feed calls with any block sizes totalling blockSize samples, Complex of Goertzel, Goertzel32 and ComplexGoertzel is for each target frequency the DFT of those samples at the nearest bin round(blockSize*f/sampleRate), and Magnitude is its squared absolute value, independent of earlier blocks, of the other targets and of other filters.",
  ["histories", "inputs"], "all sequences of Feed blocks and Resets, sample values, block sizes, target frequency sets",
  "One test with one real tone, one block and no Reset.",
  ["dsp/goertzel.go"], [("Feed/Reset/Magnitude/Complex", "dsp/goertzel.go")], [("q1,q2,q1i,q2i", "resonator state", "dsp/goertzel.go goertzel")], ["Magnitude() and Complex()"])
p("G02", "Sliding DFT equals the windowed DFT bin of the last n samples",
  "At every sample, SDFT.Filter and SDFT32.Filter return the sum over the window coefficients of each coefficient times the n-point DFT value, at its bin (centred on k and wrapping modulo n), of the last n samples (zeros before the first), taken in order of age with the oldest first. An empty window is the single coefficient 1, and filters are independent.",
  ["histories", "inputs"], "all sample histories of any length, transform sizes, bins, odd-length frequency-domain windows",
  "There is no test.",
  ["dsp/sdft.go"], [("NewSDFT, Filter", "dsp/sdft.go")], [("x/i", "ring of the last n samples", "dsp/sdft.go SDFT"), ("s", "per-bin running sums", "dsp/sdft.go SDFT")], ["return value of Filter"])
p("T01", "DTMF detector names the dominant tone pair of each block, statelessly",
  "For a block containing one low and one high tone of the configured tables (the standard tables are those of the 16 DTMF keys), DTMF.Feed returns lowIndex*numberOfHighTones+highIndex, and the smaller of the two tones' squared magnitudes. Only the first blockSize samples count, the result does not depend on earlier calls or on other detectors, a silent block gives magnitude 0, and the caller's samples are left unchanged.",
  ["histories", "inputs"], "all tone pairs, amplitudes, phases, block sizes and rates that separate the tones, window functions, histories of calls",
  "There is no test.",
  ["dsp/dtmf/dtmf.go", "dsp/goertzel.go", "dsp/window.go"], [("DTMF.Feed", "dsp/dtmf/dtmf.go")], [("lowFreq/highFreq", "tone filters", "dsp/dtmf/dtmf.go DTMF")], ["return values of Feed", "the caller's sample slice"])
p("I01", "Interpolators reproduce the samples and their formulas everywhere",
  "For every position x: at integral positions the linear and Hermite interpolators return the sample there, between samples they return the linear, 4-point Hermite and optimal 4- and 6-point polynomial values of the neighbouring samples (samples outside the slice count as zero) for x >= 0, the float32 and float64 variants agree, linear interpolation outside the slice gives zero, and no finite position or sample slice (also empty) makes any of them panic.",
  ["inputs"], "all sample slices (any length from 0) and positions including the edges, negative and huge ones",
  "There is no test.",
  ["dsp/interpolate.go"], [("Linear, Hermite4p3o, Optimal2x4p4o, Optimal2x6p5o and F32 variants", "dsp/interpolate.go")], [], ["return values"])
p("W01", "Window functions are the named symmetric windows at every length",
  "For every length from 1, each window function fills the slice with its named window (triangle, Hamming, Hanning, Blackman, Nuttall): finite, symmetric, within [-0.000001, 1.000001], rising to the middle, equal to its cosine-sum or triangle formula (a single-element window is 1 up to rounding), and the float32 variant is the float64 variant up to single-precision rounding. The frequency-domain coefficient tables are those of the Hamming, Hanning and Blackman windows: the centre coefficient is the constant term, its neighbours minus half (second neighbours plus half) the cosine amplitudes.",
  ["inputs"], "all lengths",
  "There is no test.",
  ["dsp/window.go"], [("window, windowF32, TriangleWindow, HanningWindow", "dsp/window.go")], [], ["window slices"])
p("A01", "Arctangent approximations stay within their error bounds everywhere",
  "For all arguments of ordinary magnitude, FastAtan2 is within 0.0102 rad and FastAtan2_2 within 0.005 rad of the true angle, FastAtan2Fixed and Atan2LUT (full circle = 32768) within 0.08 and 0.005 rad, all of them odd in y for y not 0 (the integer ones exactly, the float ones up to rounding). On the axes the float ones are within 0.00001 rad and the integer ones exact; all are 0 at the origin. Phase32 is the true angle of a complex number, FastPhase32 is FastAtan2 of its parts and Conj32 its conjugate.",
  ["inputs"], "all argument pairs (floats of magnitude 1e-15 to 1e15, integers up to 2^15)",
  "The tests sample a regular grid on the unit square or multiples of 64; narrow bad intervals between grid points and other magnitudes are not reached.",
  ["dsp/math32.go", "dsp/mathfixed.go"], [("fastAtan2, fastAtan2_2", "dsp/math32.go"), ("FastAtan2Fixed, Atan2LUT", "dsp/mathfixed.go")], [], ["return values"])
p("X01", "Independent objects and calls can be used from several goroutines at once",
  "Decoders, filters, detectors, transforms, packet readers and clients have no hidden common state: several of them, each used by one goroutine at a time, deliver under every schedule exactly what each delivers when it is used alone with the same inputs, and so do the plain functions on separate output slices, with no two goroutines accessing the same memory without order between them. Inputs that are only read (samples, coefficients, frequencies, window tables, bits) may be common to any number of them, at the same time.",
  ["schedules", "histories", "inputs"], "all interleavings of any number of goroutines, all histories of the objects, all inputs also when common",
  "The tests use one object at a time from one goroutine.",
  ["dsp/ax25/hdlc.go", "dsp/dtmf/dtmf.go", "dsp/goertzel.go", "dsp/sdft.go", "dsp/filter.go", "dsp/biquad.go", "dsp/demod.go", "dsp/downsample.go", "dsp/mathfixed.go", "dsp/window.go", "dsp/conversion.go", "dsp/math32.go", "borip/client.go", "borip/packet.go"],
  [("NewDecoder", "dsp/ax25/hdlc.go"), ("New, Feed", "dsp/dtmf/dtmf.go"), ("atanLUT", "dsp/mathfixed.go"), ("NewPacketReader", "borip/packet.go"), ("Dial", "borip/client.go")],
  [("atanLUT, window coefficient tables, standard DTMF frequencies", "common tables, only read", "dsp/mathfixed.go, dsp/window.go, dsp/dtmf/dtmf.go")], ["outputs of every object and call, alone and together", "the race detector's report", "the common inputs"])
p("X02", "The server's goroutines share data only in order",
  "Under every schedule of its connections, of the receiver driver's callbacks and of the commands that start, stop and release streams, no two goroutines of the server access the same memory without order between them (a lock, a channel, their creation) unless both only read: settings, stream channels, device handles and sample packets are never read while another goroutine writes them.",
  ["schedules", "histories"], "all histories of clients, commands, buffers and releases, under all schedules",
  "The server has no tests.",
  ["boripserver/main.go", "boripserver/devices.go"], [("streamMutex", "boripserver/main.go"), ("streamStopped", "boripserver/main.go"), ("device.mutex, devicesMutex", "boripserver/devices.go")], [("client.closeChan", "the running stream's stop channel", "boripserver/main.go client"), ("devices", "device table", "boripserver/devices.go")], ["the race detector's report of the running server", "fatal errors of the runtime"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
