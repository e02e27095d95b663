"""technique and level_note per property, for the manifest."""
TV = "TLA+ specification, TLC model checking and TLC trace validation of the real code"
EX = "design models checked exhaustively within small bounds; the real code bound by TLC trace validation of recorded executions on systematic and seeded inputs, so code coverage is exploration"
def n(s):
    return EX + "; " + s
NOTES = {
 "H01": (TV, n("every bit string up to 15/17 bits from chosen states plus structured and random streams")),
 "H02": (TV, n("liveness of resynchronisation checked on the model; streams with every kind of earlier history on the code")),
 "H03": (TV, n("all 256 control octets, random headers and lengths")),
 "H04": (TV, n("random and systematic packed headers")),
 "H05": (TV, n("frames are re-read after later input; interleaved decoders")),
 "H06": (TV, n("CRC distance established by TLC over all positions of a maximal frame; error patterns injected into the code")),
 "H07": (TV, n("all codes of every kind and all control and protocol octets are enumerated, so the naming is covered exhaustively")),
 "B01": (TV, n("sessions against an in-process peer with fragmented replies")),
 "B02": (TV, n("grammar-based well and malformed replies")),
 "B03": ("TLA+ specification, TLC-generated behaviours replayed into the real client, trace validation", n("every behaviour of the session model up to the bound is replayed")),
 "B04": (TV, n("grammar-based descriptors")),
 "P01": (TV, n("datagram and buffer size sequences")),
 "P02": (TV, n("datagram and buffer size sequences with and without headers")),
 "S01": (TV, n("the real server binary with a scripted receiver driver in place of librtlsdr")),
 "S02": (TV, n("the real server binary with a scripted receiver driver in place of librtlsdr")),
 "S03": (TV, n("the real server binary with a scripted receiver driver in place of librtlsdr; loopback UDP")),
 "S04": (TV, n("real client, real server, real UDP over loopback; scripted receiver driver")),
 "C01": (TV, n("all lengths up to the bound at many alignments next to guard pages, in every CPU configuration and the portable build")),
 "C02": (TV, n("all 256 values at every position, in every CPU configuration and the portable build")),
 "C03": (TV, n("all 16-bit integers; random exactly representable products; every CPU configuration and the portable build")),
 "C04": (TV, n("the same calls in six CPU configurations including the portable build")),
 "V01": (TV, n("exact integer arithmetic and correctly rounded products")),
 "V02": (TV, n("one extreme element at every position of every length up to the bound")),
 "F01": (TV, n("exact integer sums; all small cuts on the model, random and systematic cuts on the code")),
 "F02": (TV, n("exact integer sums; all small ratios and cuts on the model")),
 "F03": (TV, n("directions of known angle plus the library's own fast arctangent")),
 "F04": (TV, n("exact integers")),
 "F05": (TV, n("exact dyadic arithmetic")),
 "F06": (TV, n("exact integer arithmetic; rational coefficients with power-of-two leading coefficient")),
 "F07": (TV, n("exact recurrences; designs at frequencies with rational sine and cosine")),
 "G01": (TV, n("exact DFT over Gaussian integers and quadratic rings for block sizes 1, 2, 3, 4, 6, 8, 12; fixed-point DFT with an error bound elsewhere")),
 "G02": (TV, n("exact windowed DFT over the same rings; fixed-point elsewhere")),
 "T01": (TV, n("tone pairs over phases, levels and block alignments")),
 "I01": (TV, n("exact dyadic arithmetic; fixed-point polynomials with an error bound")),
 "W01": (TV, n("fixed-point cosine sums for every length up to the bound")),
 "X01": (TV, n("scenarios of the other properties carried out alone and together by goroutines under the race detector; in assembly only the results count")),
 "X02": (TV, n("the real server built with the race detector, with a scripted receiver driver in place of librtlsdr; the model has no step for a race report")),
 "A01": (TV, n("fixed-point reference angles by CORDIC in the specification; systematic grid of arguments")),
}
