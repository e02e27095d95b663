----------------------------- MODULE AX25Names ------------------------------
(***************************************************************************)
(* The names of AX.25's codes (AX.25 2.2, sections 3.4 and 4.3) and how a  *)
(* decoded frame is described with them: a code without a name is shown as *)
(* two hexadecimal digits, an address as call sign, dash, SSID.            *)
(***************************************************************************)
EXTENDS AX25Frame

(* constant, code, text *)
Protocols ==
  << <<"ISO8208CCITTX25PLP", 1, "ISO 8208/CCITT X.25 PLP">>,
     <<"CompressedTCPIP", 6, "Compressed TCP/IP. RFC 1144">>,
     <<"UncompressedTCPIP", 7, "Uncompressed TCP/IP">>,
     <<"SegmentationFragment", 8, "Segmentation fragment">>,
     <<"TEXNETDatagramProtocol", 195, "TEXNET database protocol">>,
     <<"LinkQualityProtocol", 196, "Link Quality Protocol">>,
     <<"AppleTalk", 202, "Appletalk">>,
     <<"AppletalkARP", 203, "Appletalk ARP">>,
     <<"ARPAInternetProtocol", 204, "ARPA Internet Protocol">>,
     <<"ARPAAddressResolution", 205, "ARPA Address Resolution">>,
     <<"FlexNet", 206, "FlexNet">>,
     <<"NETROM", 207, "NET/ROM">>,
     <<"NoLayer3Protocol", 240, "No Layer 3 Protocol Implemented">> >>
Unnumbered ==
  << <<"SABME", 111, "SABME">>, <<"SABM", 47, "SABM">>, <<"DISC", 67, "DISC">>,
     <<"DM", 15, "DM">>, <<"UA", 99, "UA">>, <<"FRMR", 135, "FRMR">>,
     <<"UI", 3, "UI">>, <<"XID", 175, "XID">>, <<"TEST", 227, "TEST">> >>
Supervisory ==
  << <<"RR", 1, "RR">>, <<"RNR", 5, "RNR">>, <<"REJ", 9, "REJ">>, <<"SREJ", 13, "SREJ">> >>
FrameTypes ==
  << <<"IFrame", 0, "I">>, <<"SFrame", 1, "S">>, <<"UFrame", 2, "U">> >>
Tables == [pid |-> Protocols, ut |-> Unnumbered, st |-> Supervisory, typ |-> FrameTypes]
Kinds == DOMAIN Tables

HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex2(c) == HexDigits[1 + (c \div 16)] \o HexDigits[1 + (c % 16)]
Named(t, c) == {i \in 1..Len(t) : t[i][2] = c}
NameIn(t, c) ==
  LET n == Named(t, c) IN IF n = {} THEN Hex2(c) ELSE t[CHOOSE i \in n : TRUE][3]
Name(kind, c) == NameIn(Tables[kind], c)

(* addresses as sequences of character codes *)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>     \* 0..99
AddressText(a) == a.call \o <<45>> \o Decimal(a.ssid)

(* what is shown of a delivered frame *)
Describe(f) ==
  [typ |-> Name("typ", f.typ), ut |-> Name("ut", f.ut), st |-> Name("st", f.st), pid |-> Name("pid", f.pid),
   dst |-> AddressText(f.dst), src |-> AddressText(f.src), reps |-> [i \in 1..Len(f.reps) |-> AddressText(f.reps[i])]]
=============================================================================
