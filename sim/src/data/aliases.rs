//! Name aliases of Unicode 10 (tools/freeze_aliases.py): character, number of the type, aliases.
pub static TABLE: &[(u32, usize, &[&str])] = &[
    (0x0, 1, &["NULL"]),
    (0x0, 4, &["NUL"]),
    (0x1, 1, &["START OF HEADING"]),
    (0x1, 4, &["SOH"]),
    (0x2, 1, &["START OF TEXT"]),
    (0x2, 4, &["STX"]),
    (0x3, 1, &["END OF TEXT"]),
    (0x3, 4, &["ETX"]),
    (0x4, 1, &["END OF TRANSMISSION"]),
    (0x4, 4, &["EOT"]),
    (0x5, 1, &["ENQUIRY"]),
    (0x5, 4, &["ENQ"]),
    (0x6, 1, &["ACKNOWLEDGE"]),
    (0x6, 4, &["ACK"]),
    (0x7, 1, &["ALERT"]),
    (0x7, 4, &["BEL"]),
    (0x8, 1, &["BACKSPACE"]),
    (0x8, 4, &["BS"]),
    (0x9, 1, &["CHARACTER TABULATION", "HORIZONTAL TABULATION"]),
    (0x9, 4, &["HT", "TAB"]),
    (0xA, 1, &["LINE FEED", "NEW LINE", "END OF LINE"]),
    (0xA, 4, &["LF", "NL", "EOL"]),
    (0xB, 1, &["LINE TABULATION", "VERTICAL TABULATION"]),
    (0xB, 4, &["VT"]),
    (0xC, 1, &["FORM FEED"]),
    (0xC, 4, &["FF"]),
    (0xD, 1, &["CARRIAGE RETURN"]),
    (0xD, 4, &["CR"]),
    (0xE, 1, &["SHIFT OUT", "LOCKING-SHIFT ONE"]),
    (0xE, 4, &["SO"]),
    (0xF, 1, &["SHIFT IN", "LOCKING-SHIFT ZERO"]),
    (0xF, 4, &["SI"]),
    (0x10, 1, &["DATA LINK ESCAPE"]),
    (0x10, 4, &["DLE"]),
    (0x11, 1, &["DEVICE CONTROL ONE"]),
    (0x11, 4, &["DC1"]),
    (0x12, 1, &["DEVICE CONTROL TWO"]),
    (0x12, 4, &["DC2"]),
    (0x13, 1, &["DEVICE CONTROL THREE"]),
    (0x13, 4, &["DC3"]),
    (0x14, 1, &["DEVICE CONTROL FOUR"]),
    (0x14, 4, &["DC4"]),
    (0x15, 1, &["NEGATIVE ACKNOWLEDGE"]),
    (0x15, 4, &["NAK"]),
    (0x16, 1, &["SYNCHRONOUS IDLE"]),
    (0x16, 4, &["SYN"]),
    (0x17, 1, &["END OF TRANSMISSION BLOCK"]),
    (0x17, 4, &["ETB"]),
    (0x18, 1, &["CANCEL"]),
    (0x18, 4, &["CAN"]),
    (0x19, 1, &["END OF MEDIUM"]),
    (0x19, 4, &["EOM"]),
    (0x1A, 1, &["SUBSTITUTE"]),
    (0x1A, 4, &["SUB"]),
    (0x1B, 1, &["ESCAPE"]),
    (0x1B, 4, &["ESC"]),
    (0x1C, 1, &["INFORMATION SEPARATOR FOUR", "FILE SEPARATOR"]),
    (0x1C, 4, &["FS"]),
    (0x1D, 1, &["INFORMATION SEPARATOR THREE", "GROUP SEPARATOR"]),
    (0x1D, 4, &["GS"]),
    (0x1E, 1, &["INFORMATION SEPARATOR TWO", "RECORD SEPARATOR"]),
    (0x1E, 4, &["RS"]),
    (0x1F, 1, &["INFORMATION SEPARATOR ONE", "UNIT SEPARATOR"]),
    (0x1F, 4, &["US"]),
    (0x20, 4, &["SP"]),
    (0x7F, 1, &["DELETE"]),
    (0x7F, 4, &["DEL"]),
    (0x80, 3, &["PADDING CHARACTER"]),
    (0x80, 4, &["PAD"]),
    (0x81, 3, &["HIGH OCTET PRESET"]),
    (0x81, 4, &["HOP"]),
    (0x82, 1, &["BREAK PERMITTED HERE"]),
    (0x82, 4, &["BPH"]),
    (0x83, 1, &["NO BREAK HERE"]),
    (0x83, 4, &["NBH"]),
    (0x84, 1, &["INDEX"]),
    (0x84, 4, &["IND"]),
    (0x85, 1, &["NEXT LINE"]),
    (0x85, 4, &["NEL"]),
    (0x86, 1, &["START OF SELECTED AREA"]),
    (0x86, 4, &["SSA"]),
    (0x87, 1, &["END OF SELECTED AREA"]),
    (0x87, 4, &["ESA"]),
    (0x88, 1, &["CHARACTER TABULATION SET", "HORIZONTAL TABULATION SET"]),
    (0x88, 4, &["HTS"]),
    (0x89, 1, &["CHARACTER TABULATION WITH JUSTIFICATION", "HORIZONTAL TABULATION WITH JUSTIFICATION"]),
    (0x89, 4, &["HTJ"]),
    (0x8A, 1, &["LINE TABULATION SET", "VERTICAL TABULATION SET"]),
    (0x8A, 4, &["VTS"]),
    (0x8B, 1, &["PARTIAL LINE FORWARD", "PARTIAL LINE DOWN"]),
    (0x8B, 4, &["PLD"]),
    (0x8C, 1, &["PARTIAL LINE BACKWARD", "PARTIAL LINE UP"]),
    (0x8C, 4, &["PLU"]),
    (0x8D, 1, &["REVERSE LINE FEED", "REVERSE INDEX"]),
    (0x8D, 4, &["RI"]),
    (0x8E, 1, &["SINGLE SHIFT TWO", "SINGLE-SHIFT-2"]),
    (0x8E, 4, &["SS2"]),
    (0x8F, 1, &["SINGLE SHIFT THREE", "SINGLE-SHIFT-3"]),
    (0x8F, 4, &["SS3"]),
    (0x90, 1, &["DEVICE CONTROL STRING"]),
    (0x90, 4, &["DCS"]),
    (0x91, 1, &["PRIVATE USE ONE", "PRIVATE USE-1"]),
    (0x91, 4, &["PU1"]),
    (0x92, 1, &["PRIVATE USE TWO", "PRIVATE USE-2"]),
    (0x92, 4, &["PU2"]),
    (0x93, 1, &["SET TRANSMIT STATE"]),
    (0x93, 4, &["STS"]),
    (0x94, 1, &["CANCEL CHARACTER"]),
    (0x94, 4, &["CCH"]),
    (0x95, 1, &["MESSAGE WAITING"]),
    (0x95, 4, &["MW"]),
    (0x96, 1, &["START OF GUARDED AREA", "START OF PROTECTED AREA"]),
    (0x96, 4, &["SPA"]),
    (0x97, 1, &["END OF GUARDED AREA", "END OF PROTECTED AREA"]),
    (0x97, 4, &["EPA"]),
    (0x98, 1, &["START OF STRING"]),
    (0x98, 4, &["SOS"]),
    (0x99, 3, &["SINGLE GRAPHIC CHARACTER INTRODUCER"]),
    (0x99, 4, &["SGC"]),
    (0x9A, 1, &["SINGLE CHARACTER INTRODUCER"]),
    (0x9A, 4, &["SCI"]),
    (0x9B, 1, &["CONTROL SEQUENCE INTRODUCER"]),
    (0x9B, 4, &["CSI"]),
    (0x9C, 1, &["STRING TERMINATOR"]),
    (0x9C, 4, &["ST"]),
    (0x9D, 1, &["OPERATING SYSTEM COMMAND"]),
    (0x9D, 4, &["OSC"]),
    (0x9E, 1, &["PRIVACY MESSAGE"]),
    (0x9E, 4, &["PM"]),
    (0x9F, 1, &["APPLICATION PROGRAM COMMAND"]),
    (0x9F, 4, &["APC"]),
    (0xA0, 4, &["NBSP"]),
    (0xAD, 4, &["SHY"]),
    (0x1A2, 0, &["LATIN CAPITAL LETTER GHA"]),
    (0x1A3, 0, &["LATIN SMALL LETTER GHA"]),
    (0x34F, 4, &["CGJ"]),
    (0x61C, 4, &["ALM"]),
    (0x709, 0, &["SYRIAC SUBLINEAR COLON SKEWED LEFT"]),
    (0xCDE, 0, &["KANNADA LETTER LLLA"]),
    (0xE9D, 0, &["LAO LETTER FO FON"]),
    (0xE9F, 0, &["LAO LETTER FO FAY"]),
    (0xEA3, 0, &["LAO LETTER RO"]),
    (0xEA5, 0, &["LAO LETTER LO"]),
    (0xFD0, 0, &["TIBETAN MARK BKA- SHOG GI MGO RGYAN"]),
    (0x11EC, 0, &["HANGUL JONGSEONG YESIEUNG-KIYEOK"]),
    (0x11ED, 0, &["HANGUL JONGSEONG YESIEUNG-SSANGKIYEOK"]),
    (0x11EE, 0, &["HANGUL JONGSEONG SSANGYESIEUNG"]),
    (0x11EF, 0, &["HANGUL JONGSEONG YESIEUNG-KHIEUKH"]),
    (0x180B, 4, &["FVS1"]),
    (0x180C, 4, &["FVS2"]),
    (0x180D, 4, &["FVS3"]),
    (0x180E, 4, &["MVS"]),
    (0x200B, 4, &["ZWSP"]),
    (0x200C, 4, &["ZWNJ"]),
    (0x200D, 4, &["ZWJ"]),
    (0x200E, 4, &["LRM"]),
    (0x200F, 4, &["RLM"]),
    (0x202A, 4, &["LRE"]),
    (0x202B, 4, &["RLE"]),
    (0x202C, 4, &["PDF"]),
    (0x202D, 4, &["LRO"]),
    (0x202E, 4, &["RLO"]),
    (0x202F, 4, &["NNBSP"]),
    (0x205F, 4, &["MMSP"]),
    (0x2060, 4, &["WJ"]),
    (0x2066, 4, &["LRI"]),
    (0x2067, 4, &["RLI"]),
    (0x2068, 4, &["FSI"]),
    (0x2069, 4, &["PDI"]),
    (0x2118, 0, &["WEIERSTRASS ELLIPTIC FUNCTION"]),
    (0x2448, 0, &["MICR ON US SYMBOL"]),
    (0x2449, 0, &["MICR DASH SYMBOL"]),
    (0x2B7A, 0, &["LEFTWARDS TRIANGLE-HEADED ARROW WITH DOUBLE VERTICAL STROKE"]),
    (0x2B7C, 0, &["RIGHTWARDS TRIANGLE-HEADED ARROW WITH DOUBLE VERTICAL STROKE"]),
    (0xA015, 0, &["YI SYLLABLE ITERATION MARK"]),
    (0xFE00, 4, &["VS1"]),
    (0xFE01, 4, &["VS2"]),
    (0xFE02, 4, &["VS3"]),
    (0xFE03, 4, &["VS4"]),
    (0xFE04, 4, &["VS5"]),
    (0xFE05, 4, &["VS6"]),
    (0xFE06, 4, &["VS7"]),
    (0xFE07, 4, &["VS8"]),
    (0xFE08, 4, &["VS9"]),
    (0xFE09, 4, &["VS10"]),
    (0xFE0A, 4, &["VS11"]),
    (0xFE0B, 4, &["VS12"]),
    (0xFE0C, 4, &["VS13"]),
    (0xFE0D, 4, &["VS14"]),
    (0xFE0E, 4, &["VS15"]),
    (0xFE0F, 4, &["VS16"]),
    (0xFE18, 0, &["PRESENTATION FORM FOR VERTICAL RIGHT WHITE LENTICULAR BRACKET"]),
    (0xFEFF, 2, &["BYTE ORDER MARK"]),
    (0xFEFF, 4, &["BOM", "ZWNBSP"]),
    (0x122D4, 0, &["CUNEIFORM SIGN NU11 TENU"]),
    (0x122D5, 0, &["CUNEIFORM SIGN NU11 OVER NU11 BUR OVER BUR"]),
    (0x1B001, 0, &["HENTAIGANA LETTER E-1"]),
    (0x1D0C5, 0, &["BYZANTINE MUSICAL SYMBOL FTHORA SKLIRON CHROMA VASIS"]),
    (0xE0100, 4, &["VS17"]),
    (0xE0101, 4, &["VS18"]),
    (0xE0102, 4, &["VS19"]),
    (0xE0103, 4, &["VS20"]),
    (0xE0104, 4, &["VS21"]),
    (0xE0105, 4, &["VS22"]),
    (0xE0106, 4, &["VS23"]),
    (0xE0107, 4, &["VS24"]),
    (0xE0108, 4, &["VS25"]),
    (0xE0109, 4, &["VS26"]),
    (0xE010A, 4, &["VS27"]),
    (0xE010B, 4, &["VS28"]),
    (0xE010C, 4, &["VS29"]),
    (0xE010D, 4, &["VS30"]),
    (0xE010E, 4, &["VS31"]),
    (0xE010F, 4, &["VS32"]),
    (0xE0110, 4, &["VS33"]),
    (0xE0111, 4, &["VS34"]),
    (0xE0112, 4, &["VS35"]),
    (0xE0113, 4, &["VS36"]),
    (0xE0114, 4, &["VS37"]),
    (0xE0115, 4, &["VS38"]),
    (0xE0116, 4, &["VS39"]),
    (0xE0117, 4, &["VS40"]),
    (0xE0118, 4, &["VS41"]),
    (0xE0119, 4, &["VS42"]),
    (0xE011A, 4, &["VS43"]),
    (0xE011B, 4, &["VS44"]),
    (0xE011C, 4, &["VS45"]),
    (0xE011D, 4, &["VS46"]),
    (0xE011E, 4, &["VS47"]),
    (0xE011F, 4, &["VS48"]),
    (0xE0120, 4, &["VS49"]),
    (0xE0121, 4, &["VS50"]),
    (0xE0122, 4, &["VS51"]),
    (0xE0123, 4, &["VS52"]),
    (0xE0124, 4, &["VS53"]),
    (0xE0125, 4, &["VS54"]),
    (0xE0126, 4, &["VS55"]),
    (0xE0127, 4, &["VS56"]),
    (0xE0128, 4, &["VS57"]),
    (0xE0129, 4, &["VS58"]),
    (0xE012A, 4, &["VS59"]),
    (0xE012B, 4, &["VS60"]),
    (0xE012C, 4, &["VS61"]),
    (0xE012D, 4, &["VS62"]),
    (0xE012E, 4, &["VS63"]),
    (0xE012F, 4, &["VS64"]),
    (0xE0130, 4, &["VS65"]),
    (0xE0131, 4, &["VS66"]),
    (0xE0132, 4, &["VS67"]),
    (0xE0133, 4, &["VS68"]),
    (0xE0134, 4, &["VS69"]),
    (0xE0135, 4, &["VS70"]),
    (0xE0136, 4, &["VS71"]),
    (0xE0137, 4, &["VS72"]),
    (0xE0138, 4, &["VS73"]),
    (0xE0139, 4, &["VS74"]),
    (0xE013A, 4, &["VS75"]),
    (0xE013B, 4, &["VS76"]),
    (0xE013C, 4, &["VS77"]),
    (0xE013D, 4, &["VS78"]),
    (0xE013E, 4, &["VS79"]),
    (0xE013F, 4, &["VS80"]),
    (0xE0140, 4, &["VS81"]),
    (0xE0141, 4, &["VS82"]),
    (0xE0142, 4, &["VS83"]),
    (0xE0143, 4, &["VS84"]),
    (0xE0144, 4, &["VS85"]),
    (0xE0145, 4, &["VS86"]),
    (0xE0146, 4, &["VS87"]),
    (0xE0147, 4, &["VS88"]),
    (0xE0148, 4, &["VS89"]),
    (0xE0149, 4, &["VS90"]),
    (0xE014A, 4, &["VS91"]),
    (0xE014B, 4, &["VS92"]),
    (0xE014C, 4, &["VS93"]),
    (0xE014D, 4, &["VS94"]),
    (0xE014E, 4, &["VS95"]),
    (0xE014F, 4, &["VS96"]),
    (0xE0150, 4, &["VS97"]),
    (0xE0151, 4, &["VS98"]),
    (0xE0152, 4, &["VS99"]),
    (0xE0153, 4, &["VS100"]),
    (0xE0154, 4, &["VS101"]),
    (0xE0155, 4, &["VS102"]),
    (0xE0156, 4, &["VS103"]),
    (0xE0157, 4, &["VS104"]),
    (0xE0158, 4, &["VS105"]),
    (0xE0159, 4, &["VS106"]),
    (0xE015A, 4, &["VS107"]),
    (0xE015B, 4, &["VS108"]),
    (0xE015C, 4, &["VS109"]),
    (0xE015D, 4, &["VS110"]),
    (0xE015E, 4, &["VS111"]),
    (0xE015F, 4, &["VS112"]),
    (0xE0160, 4, &["VS113"]),
    (0xE0161, 4, &["VS114"]),
    (0xE0162, 4, &["VS115"]),
    (0xE0163, 4, &["VS116"]),
    (0xE0164, 4, &["VS117"]),
    (0xE0165, 4, &["VS118"]),
    (0xE0166, 4, &["VS119"]),
    (0xE0167, 4, &["VS120"]),
    (0xE0168, 4, &["VS121"]),
    (0xE0169, 4, &["VS122"]),
    (0xE016A, 4, &["VS123"]),
    (0xE016B, 4, &["VS124"]),
    (0xE016C, 4, &["VS125"]),
    (0xE016D, 4, &["VS126"]),
    (0xE016E, 4, &["VS127"]),
    (0xE016F, 4, &["VS128"]),
    (0xE0170, 4, &["VS129"]),
    (0xE0171, 4, &["VS130"]),
    (0xE0172, 4, &["VS131"]),
    (0xE0173, 4, &["VS132"]),
    (0xE0174, 4, &["VS133"]),
    (0xE0175, 4, &["VS134"]),
    (0xE0176, 4, &["VS135"]),
    (0xE0177, 4, &["VS136"]),
    (0xE0178, 4, &["VS137"]),
    (0xE0179, 4, &["VS138"]),
    (0xE017A, 4, &["VS139"]),
    (0xE017B, 4, &["VS140"]),
    (0xE017C, 4, &["VS141"]),
    (0xE017D, 4, &["VS142"]),
    (0xE017E, 4, &["VS143"]),
    (0xE017F, 4, &["VS144"]),
    (0xE0180, 4, &["VS145"]),
    (0xE0181, 4, &["VS146"]),
    (0xE0182, 4, &["VS147"]),
    (0xE0183, 4, &["VS148"]),
    (0xE0184, 4, &["VS149"]),
    (0xE0185, 4, &["VS150"]),
    (0xE0186, 4, &["VS151"]),
    (0xE0187, 4, &["VS152"]),
    (0xE0188, 4, &["VS153"]),
    (0xE0189, 4, &["VS154"]),
    (0xE018A, 4, &["VS155"]),
    (0xE018B, 4, &["VS156"]),
    (0xE018C, 4, &["VS157"]),
    (0xE018D, 4, &["VS158"]),
    (0xE018E, 4, &["VS159"]),
    (0xE018F, 4, &["VS160"]),
    (0xE0190, 4, &["VS161"]),
    (0xE0191, 4, &["VS162"]),
    (0xE0192, 4, &["VS163"]),
    (0xE0193, 4, &["VS164"]),
    (0xE0194, 4, &["VS165"]),
    (0xE0195, 4, &["VS166"]),
    (0xE0196, 4, &["VS167"]),
    (0xE0197, 4, &["VS168"]),
    (0xE0198, 4, &["VS169"]),
    (0xE0199, 4, &["VS170"]),
    (0xE019A, 4, &["VS171"]),
    (0xE019B, 4, &["VS172"]),
    (0xE019C, 4, &["VS173"]),
    (0xE019D, 4, &["VS174"]),
    (0xE019E, 4, &["VS175"]),
    (0xE019F, 4, &["VS176"]),
    (0xE01A0, 4, &["VS177"]),
    (0xE01A1, 4, &["VS178"]),
    (0xE01A2, 4, &["VS179"]),
    (0xE01A3, 4, &["VS180"]),
    (0xE01A4, 4, &["VS181"]),
    (0xE01A5, 4, &["VS182"]),
    (0xE01A6, 4, &["VS183"]),
    (0xE01A7, 4, &["VS184"]),
    (0xE01A8, 4, &["VS185"]),
    (0xE01A9, 4, &["VS186"]),
    (0xE01AA, 4, &["VS187"]),
    (0xE01AB, 4, &["VS188"]),
    (0xE01AC, 4, &["VS189"]),
    (0xE01AD, 4, &["VS190"]),
    (0xE01AE, 4, &["VS191"]),
    (0xE01AF, 4, &["VS192"]),
    (0xE01B0, 4, &["VS193"]),
    (0xE01B1, 4, &["VS194"]),
    (0xE01B2, 4, &["VS195"]),
    (0xE01B3, 4, &["VS196"]),
    (0xE01B4, 4, &["VS197"]),
    (0xE01B5, 4, &["VS198"]),
    (0xE01B6, 4, &["VS199"]),
    (0xE01B7, 4, &["VS200"]),
    (0xE01B8, 4, &["VS201"]),
    (0xE01B9, 4, &["VS202"]),
    (0xE01BA, 4, &["VS203"]),
    (0xE01BB, 4, &["VS204"]),
    (0xE01BC, 4, &["VS205"]),
    (0xE01BD, 4, &["VS206"]),
    (0xE01BE, 4, &["VS207"]),
    (0xE01BF, 4, &["VS208"]),
    (0xE01C0, 4, &["VS209"]),
    (0xE01C1, 4, &["VS210"]),
    (0xE01C2, 4, &["VS211"]),
    (0xE01C3, 4, &["VS212"]),
    (0xE01C4, 4, &["VS213"]),
    (0xE01C5, 4, &["VS214"]),
    (0xE01C6, 4, &["VS215"]),
    (0xE01C7, 4, &["VS216"]),
    (0xE01C8, 4, &["VS217"]),
    (0xE01C9, 4, &["VS218"]),
    (0xE01CA, 4, &["VS219"]),
    (0xE01CB, 4, &["VS220"]),
    (0xE01CC, 4, &["VS221"]),
    (0xE01CD, 4, &["VS222"]),
    (0xE01CE, 4, &["VS223"]),
    (0xE01CF, 4, &["VS224"]),
    (0xE01D0, 4, &["VS225"]),
    (0xE01D1, 4, &["VS226"]),
    (0xE01D2, 4, &["VS227"]),
    (0xE01D3, 4, &["VS228"]),
    (0xE01D4, 4, &["VS229"]),
    (0xE01D5, 4, &["VS230"]),
    (0xE01D6, 4, &["VS231"]),
    (0xE01D7, 4, &["VS232"]),
    (0xE01D8, 4, &["VS233"]),
    (0xE01D9, 4, &["VS234"]),
    (0xE01DA, 4, &["VS235"]),
    (0xE01DB, 4, &["VS236"]),
    (0xE01DC, 4, &["VS237"]),
    (0xE01DD, 4, &["VS238"]),
    (0xE01DE, 4, &["VS239"]),
    (0xE01DF, 4, &["VS240"]),
    (0xE01E0, 4, &["VS241"]),
    (0xE01E1, 4, &["VS242"]),
    (0xE01E2, 4, &["VS243"]),
    (0xE01E3, 4, &["VS244"]),
    (0xE01E4, 4, &["VS245"]),
    (0xE01E5, 4, &["VS246"]),
    (0xE01E6, 4, &["VS247"]),
    (0xE01E7, 4, &["VS248"]),
    (0xE01E8, 4, &["VS249"]),
    (0xE01E9, 4, &["VS250"]),
    (0xE01EA, 4, &["VS251"]),
    (0xE01EB, 4, &["VS252"]),
    (0xE01EC, 4, &["VS253"]),
    (0xE01ED, 4, &["VS254"]),
    (0xE01EE, 4, &["VS255"]),
    (0xE01EF, 4, &["VS256"]),
];
