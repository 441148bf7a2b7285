// Frozen names of properties and values; see tools/freeze_values.py
pub type Names = [&'static str; 3];
pub static ENUMERATED: &[(&str, Names, &[Names])] = &[
("BidiClass", ["bc", "Bidi_Class", "Bidirectional Class"], &[
    ["AL", "Arabic_Letter", "Right-to-Left Arabic"],
    ["AN", "Arabic_Number", "Arabic Number"],
    ["B", "Paragraph_Separator", "Paragraph Separator"],
    ["BN", "Boundary_Neutral", "Neutral Boundary"],
    ["CS", "Common_Separator", "Common Number Separator"],
    ["EN", "European_Number", "European Number"],
    ["ES", "European_Separator", "European Number Separator"],
    ["ET", "European_Terminator", "European Number Terminator"],
    ["FSI", "First_Strong_Isolate", "First Strong Isolate"],
    ["L", "Left_To_Right", "Left-to-Right"],
    ["LRE", "Left_To_Right_Embedding", "Left-to-Right Embedding"],
    ["LRI", "Left_To_Right_Isolate", "Left-to-Right Isolate"],
    ["LRO", "Left_To_Right_Override", "LeftToRightOverride"],
    ["NSM", "Nonspacing_Mark", "Nonspacing Mark"],
    ["ON", "Other_Neutral", "OtherNeutral"],
    ["PDF", "Pop_Directional_Format", "Pop Directional Format"],
    ["PDI", "Pop_Directional_Isolate", "PopDirectionalIsolate"],
    ["R", "Right_To_Left", "Right-to-Left"],
    ["RLE", "Right_To_Left_Embedding", "Right-to-Left Embedding"],
    ["RLI", "Right_To_Left_Isolate", "Right-to-Left Isolate"],
    ["RLO", "Right_To_Left_Override", "Right-to-Left Override"],
    ["S", "Segment_Separator", "Segment Separator"],
    ["WS", "White_Space", "Whitespace"],
]),
("GeneralCategory", ["gc", "General_Category", "General Category"], &[
    ["Lu", "Uppercase_Letter", "Uppercase Letter"],
    ["Ll", "Lowercase_Letter", "Lowercase Letter"],
    ["Lt", "Titlecase_Letter", "Titlecase Letter"],
    ["Lm", "Modifier_Letter", "Modifier Letter"],
    ["Lo", "Other_Letter", "Other Letter"],
    ["Mn", "Nonspacing_Mark", "Nonspacing Mark"],
    ["Mc", "Spacing_Mark", "Spacing Mark"],
    ["Me", "Enclosing_Mark", "Enclosing Mark"],
    ["Nd", "Decimal_Number", "Decimal Digit"],
    ["Nl", "Letter_Number", "Letterlike Number"],
    ["No", "Other_Number", "Other Numeric"],
    ["Pc", "Connector_Punctuation", "Connecting Punctuation"],
    ["Pd", "Dash_Punctuation", "Dash Punctuation"],
    ["Ps", "Open_Punctuation", "Opening Punctuation"],
    ["Pe", "Close_Punctuation", "Closing Punctuation"],
    ["Pi", "Initial_Punctuation", "Initial Quotation"],
    ["Pf", "Final_Punctuation", "Final Quotation"],
    ["Po", "Other_Punctuation", "Other Punctuation"],
    ["Sm", "Math_Symbol", "Math Symbol"],
    ["Sc", "Currency_Symbol", "Currency Symbol"],
    ["Sk", "Modifier_Symbol", "Modifier Symbol"],
    ["So", "Other_Symbol", "Other Symbol"],
    ["Zs", "Space_Separator", "Space"],
    ["Zl", "Line_Separator", "Line Separator"],
    ["Zp", "Paragraph_Separator", "Paragraph Separator"],
    ["Cc", "Control", "Control"],
    ["Cf", "Format", "Formatting"],
    ["Cs", "Surrogate", "Surrogate"],
    ["Co", "Private_Use", "Private-Use"],
    ["Cn", "Unassigned", "Unassigned"],
]),
("DecompositionType", ["dt", "Decomposition_Type", "Decomposition Type"], &[
    ["Can", "Canonical", "Canonical"],
    ["Com", "Compat", "Unspecified"],
    ["Enc", "Circle", "Encircled"],
    ["Fin", "Final", "Arabic Final"],
    ["Font", "Font", "Font Variant"],
    ["Fra", "Fraction", "Vulgar Fraction"],
    ["Init", "Initial", "Arabic Initial"],
    ["Iso", "Isolated", "Arabic Isolated"],
    ["Med", "Medial", "Arabic Medial"],
    ["Nar", "Narrow", "Narrow"],
    ["Nb", "Nobreak", "No-Break"],
    ["Sml", "Small", "Small"],
    ["Sqr", "Square", "CJK Squared"],
    ["Sub", "Sub", "Subscript"],
    ["Sup", "Super", "Superscript"],
    ["Vert", "Vertical", "Vertical Layout"],
    ["Wide", "Wide", "Wide"],
]),
("GraphemeClusterBreak", ["GCB", "Grapheme_Cluster_Break", "Grapheme Cluster Break"], &[
    ["CR", "CR", "Carriage Return"],
    ["LF", "LF", "Line Feed"],
    ["CN", "Control", "Control"],
    ["EX", "Extend", "Extend"],
    ["ZWJ", "ZWJ", "Zero Width Joiner (ZWJ)"],
    ["RI", "Regional_Indicator", "Regional Indicator"],
    ["PP", "Prepend", "Prepend"],
    ["SM", "SpacingMark", "Spacing Mark"],
    ["L", "L", "Hangul Syllable Type L"],
    ["V", "V", "Hangul Syllable Type V"],
    ["T", "T", "Hangul Syllable Type T"],
    ["LV", "LV", "Hangul Syllable Type LV"],
    ["LVT", "LVT", "Hangul Syllable Type LVT"],
    ["EB", "E_Base", "Emoji Base"],
    ["EM", "E_Modifier", "Emoji Modifier"],
    ["GAZ", "Glue_After_Zwj", "Glue After ZWJ"],
    ["EBG", "E_Base_GAZ", "Emoji Base and Glue After ZWJ"],
    ["XX", "Other", "Other"],
]),
("SentenceBreak", ["SB", "Sentence_Break", "Sentence Break"], &[
    ["CR", "CR", "Carriage Return"],
    ["LF", "LF", "Line Feed"],
    ["Extend", "Extend", "Extend"],
    ["SE", "Sep", "Separator"],
    ["FO", "Format", "Format"],
    ["SP", "Sp", "Space"],
    ["LO", "Lower", "Lowercase"],
    ["UP", "Upper", "Uppercase"],
    ["LE", "OLetter", "Other Letter"],
    ["NU", "Numeric", "Numeric"],
    ["AT", "ATerm", "ATerm"],
    ["SC", "SContinue", "Sentence Continue"],
    ["ST", "STerm", "Sentence Terminal"],
    ["CL", "Close", "Close"],
    ["XX", "Other", "Other"],
]),
("WordBreak", ["WB", "Word_Break", "Word Break"], &[
    ["CR", "CR", "Carriage Return"],
    ["LF", "LF", "Line Feed"],
    ["NL", "Newline", "Newline"],
    ["Extend", "Extend", "Extend"],
    ["ZWJ", "ZWJ", "Zero Width Joiner (ZWJ)"],
    ["RI", "Regional_Indicator", "Regional Indicator"],
    ["FO", "Format", "Format"],
    ["KA", "Katakana", "Katakana"],
    ["HL", "Hebrew_Letter", "Hebrew Letter"],
    ["LE", "ALetter", "Alphabetic Letter"],
    ["SQ", "Single_Quote", "Single Quote"],
    ["DQ", "Double_Quote", "Double Quote"],
    ["MB", "MidNumLet", "Middle of Numeric/Letter"],
    ["ML", "MidLetter", "Middle of Letter"],
    ["MN", "MidNum", "Middle of Numeric"],
    ["NU", "Numeric", "Numeric"],
    ["EX", "ExtendNumLet", "Extend Numeric/Letter"],
    ["EB", "E_Base", "Emoji Base"],
    ["EM", "E_Modifier", "Emoji Modifier"],
    ["GAZ", "Glue_After_Zwj", "Glue After ZWJ"],
    ["EBG", "E_Base_GAZ", "Emoji Base and Glue After ZWJ"],
    ["XX", "Other", "Other"],
]),
];
pub static BINARY: &[(&str, Names)] = &[
("Emoji", ["Emoji", "Emoji", "Emoji"]),
("EmojiComponent", ["Emoji_Component", "Emoji_Component", "Emoji Component"]),
("EmojiModifier", ["Emoji_Modifier", "Emoji_Modifier", "Emoji Modifier"]),
("EmojiModifierBase", ["Emoji_Modifier_Base", "Emoji_Modifier_Base", "Emoji Modifier Base"]),
("EmojiPresentation", ["Emoji_Presentation", "Emoji_Presentation", "Emoji Presentation"]),
("BidiControl", ["Bidi_C", "Bidi_Control", "Bidi Control"]),
("BidiMirrored", ["Bidi_M", "Bidi_Mirrored", "Bidi Mirrored"]),
("CaseIgnorable", ["CI", "Case_Ignorable", "Case-Ignorable"]),
("Cased", ["Cased", "Cased", "Cased"]),
("ChangesWhenCasefolded", ["CWCF", "Changes_When_Casefolded", "Changes When Casefolded"]),
("ChangesWhenCasemapped", ["CWCM", "Changes_When_Casemapped", "Changes When Casemapped"]),
("ChangesWhenLowercased", ["CWL", "Changes_When_Lowercased", "Changes When Lowercased"]),
("ChangesWhenTitlecased", ["CWT", "Changes_When_Titlecased", "Changes When Titlecased"]),
("ChangesWhenUppercased", ["CWU", "Changes_When_Uppercased", "Changes When Uppercased"]),
("Lowercase", ["Lower", "Lowercase", "Lowercase"]),
("Uppercase", ["Upper", "Uppercase", "Uppercase"]),
("Alphabetic", ["Alpha", "Alphabetic", "Alphabetic"]),
("Alphanumeric", ["Alphanumeric", "Alphanumeric", "Alphanumeric"]),
("Control", ["Control", "Control", "Control"]),
("Numeric", ["Numeric", "Numeric", "Numeric"]),
("WhiteSpace", ["WSpace", "White_Space", "White Space"]),
("IdStart", ["IDS", "ID_Start", "ID Start"]),
("IdContinue", ["IDC", "ID_Continue", "ID Continue"]),
("PatternSyntax", ["Pat_Syn", "Pattern_Syntax", "Pattern Syntax"]),
("PatternWhitespace", ["Pat_WS", "Pattern_White_Space", "Pattern Whitespace"]),
("XidStart", ["XIDS", "XID_Start", "XID Start"]),
("XidContinue", ["XIDC", "XID_Continue", "XID Continue"]),
];
