package main

// Made by tools/mkaccents.py.

type accentKey struct {
	mark byte
	base rune
}

// compositions maps an accent and a letter to the letter whose canonical
// decomposition is the letter and the accent's combining mark.
var compositions = map[accentKey]rune{
	{'"', 0x0041}:  0x00C4, // Ä
	{'"', 0x0045}:  0x00CB, // Ë
	{'"', 0x0048}:  0x1E26, // Ḧ
	{'"', 0x0049}:  0x00CF, // Ï
	{'"', 0x004F}:  0x00D6, // Ö
	{'"', 0x0055}:  0x00DC, // Ü
	{'"', 0x0057}:  0x1E84, // Ẅ
	{'"', 0x0058}:  0x1E8C, // Ẍ
	{'"', 0x0059}:  0x0178, // Ÿ
	{'"', 0x0061}:  0x00E4, // ä
	{'"', 0x0065}:  0x00EB, // ë
	{'"', 0x0068}:  0x1E27, // ḧ
	{'"', 0x0069}:  0x00EF, // ï
	{'"', 0x006F}:  0x00F6, // ö
	{'"', 0x0074}:  0x1E97, // ẗ
	{'"', 0x0075}:  0x00FC, // ü
	{'"', 0x0077}:  0x1E85, // ẅ
	{'"', 0x0078}:  0x1E8D, // ẍ
	{'"', 0x0079}:  0x00FF, // ÿ
	{'"', 0x00D5}:  0x1E4E, // Ṏ
	{'"', 0x00F5}:  0x1E4F, // ṏ
	{'"', 0x016A}:  0x1E7A, // Ṻ
	{'"', 0x016B}:  0x1E7B, // ṻ
	{'"', 0x0399}:  0x03AA, // Ϊ
	{'"', 0x03A5}:  0x03AB, // Ϋ
	{'"', 0x03B9}:  0x03CA, // ϊ
	{'"', 0x03C5}:  0x03CB, // ϋ
	{'"', 0x03D2}:  0x03D4, // ϔ
	{'"', 0x0406}:  0x0407, // Ї
	{'"', 0x0410}:  0x04D2, // Ӓ
	{'"', 0x0415}:  0x0401, // Ё
	{'"', 0x0416}:  0x04DC, // Ӝ
	{'"', 0x0417}:  0x04DE, // Ӟ
	{'"', 0x0418}:  0x04E4, // Ӥ
	{'"', 0x041E}:  0x04E6, // Ӧ
	{'"', 0x0423}:  0x04F0, // Ӱ
	{'"', 0x0427}:  0x04F4, // Ӵ
	{'"', 0x042B}:  0x04F8, // Ӹ
	{'"', 0x042D}:  0x04EC, // Ӭ
	{'"', 0x0430}:  0x04D3, // ӓ
	{'"', 0x0435}:  0x0451, // ё
	{'"', 0x0436}:  0x04DD, // ӝ
	{'"', 0x0437}:  0x04DF, // ӟ
	{'"', 0x0438}:  0x04E5, // ӥ
	{'"', 0x043E}:  0x04E7, // ӧ
	{'"', 0x0443}:  0x04F1, // ӱ
	{'"', 0x0447}:  0x04F5, // ӵ
	{'"', 0x044B}:  0x04F9, // ӹ
	{'"', 0x044D}:  0x04ED, // ӭ
	{'"', 0x0456}:  0x0457, // ї
	{'"', 0x04D8}:  0x04DA, // Ӛ
	{'"', 0x04D9}:  0x04DB, // ӛ
	{'"', 0x04E8}:  0x04EA, // Ӫ
	{'"', 0x04E9}:  0x04EB, // ӫ
	{'\'', 0x0041}: 0x00C1, // Á
	{'\'', 0x0043}: 0x0106, // Ć
	{'\'', 0x0045}: 0x00C9, // É
	{'\'', 0x0047}: 0x01F4, // Ǵ
	{'\'', 0x0049}: 0x00CD, // Í
	{'\'', 0x004B}: 0x1E30, // Ḱ
	{'\'', 0x004C}: 0x0139, // Ĺ
	{'\'', 0x004D}: 0x1E3E, // Ḿ
	{'\'', 0x004E}: 0x0143, // Ń
	{'\'', 0x004F}: 0x00D3, // Ó
	{'\'', 0x0050}: 0x1E54, // Ṕ
	{'\'', 0x0052}: 0x0154, // Ŕ
	{'\'', 0x0053}: 0x015A, // Ś
	{'\'', 0x0055}: 0x00DA, // Ú
	{'\'', 0x0057}: 0x1E82, // Ẃ
	{'\'', 0x0059}: 0x00DD, // Ý
	{'\'', 0x005A}: 0x0179, // Ź
	{'\'', 0x0061}: 0x00E1, // á
	{'\'', 0x0063}: 0x0107, // ć
	{'\'', 0x0065}: 0x00E9, // é
	{'\'', 0x0067}: 0x01F5, // ǵ
	{'\'', 0x0069}: 0x00ED, // í
	{'\'', 0x006B}: 0x1E31, // ḱ
	{'\'', 0x006C}: 0x013A, // ĺ
	{'\'', 0x006D}: 0x1E3F, // ḿ
	{'\'', 0x006E}: 0x0144, // ń
	{'\'', 0x006F}: 0x00F3, // ó
	{'\'', 0x0070}: 0x1E55, // ṕ
	{'\'', 0x0072}: 0x0155, // ŕ
	{'\'', 0x0073}: 0x015B, // ś
	{'\'', 0x0075}: 0x00FA, // ú
	{'\'', 0x0077}: 0x1E83, // ẃ
	{'\'', 0x0079}: 0x00FD, // ý
	{'\'', 0x007A}: 0x017A, // ź
	{'\'', 0x00A8}: 0x0385, // ΅
	{'\'', 0x00C2}: 0x1EA4, // Ấ
	{'\'', 0x00C5}: 0x01FA, // Ǻ
	{'\'', 0x00C6}: 0x01FC, // Ǽ
	{'\'', 0x00C7}: 0x1E08, // Ḉ
	{'\'', 0x00CA}: 0x1EBE, // Ế
	{'\'', 0x00CF}: 0x1E2E, // Ḯ
	{'\'', 0x00D4}: 0x1ED0, // Ố
	{'\'', 0x00D5}: 0x1E4C, // Ṍ
	{'\'', 0x00D8}: 0x01FE, // Ǿ
	{'\'', 0x00DC}: 0x01D7, // Ǘ
	{'\'', 0x00E2}: 0x1EA5, // ấ
	{'\'', 0x00E5}: 0x01FB, // ǻ
	{'\'', 0x00E6}: 0x01FD, // ǽ
	{'\'', 0x00E7}: 0x1E09, // ḉ
	{'\'', 0x00EA}: 0x1EBF, // ế
	{'\'', 0x00EF}: 0x1E2F, // ḯ
	{'\'', 0x00F4}: 0x1ED1, // ố
	{'\'', 0x00F5}: 0x1E4D, // ṍ
	{'\'', 0x00F8}: 0x01FF, // ǿ
	{'\'', 0x00FC}: 0x01D8, // ǘ
	{'\'', 0x0102}: 0x1EAE, // Ắ
	{'\'', 0x0103}: 0x1EAF, // ắ
	{'\'', 0x0112}: 0x1E16, // Ḗ
	{'\'', 0x0113}: 0x1E17, // ḗ
	{'\'', 0x014C}: 0x1E52, // Ṓ
	{'\'', 0x014D}: 0x1E53, // ṓ
	{'\'', 0x0168}: 0x1E78, // Ṹ
	{'\'', 0x0169}: 0x1E79, // ṹ
	{'\'', 0x01A0}: 0x1EDA, // Ớ
	{'\'', 0x01A1}: 0x1EDB, // ớ
	{'\'', 0x01AF}: 0x1EE8, // Ứ
	{'\'', 0x01B0}: 0x1EE9, // ứ
	{'\'', 0x0391}: 0x0386, // Ά
	{'\'', 0x0395}: 0x0388, // Έ
	{'\'', 0x0397}: 0x0389, // Ή
	{'\'', 0x0399}: 0x038A, // Ί
	{'\'', 0x039F}: 0x038C, // Ό
	{'\'', 0x03A5}: 0x038E, // Ύ
	{'\'', 0x03A9}: 0x038F, // Ώ
	{'\'', 0x03B1}: 0x03AC, // ά
	{'\'', 0x03B5}: 0x03AD, // έ
	{'\'', 0x03B7}: 0x03AE, // ή
	{'\'', 0x03B9}: 0x03AF, // ί
	{'\'', 0x03BF}: 0x03CC, // ό
	{'\'', 0x03C5}: 0x03CD, // ύ
	{'\'', 0x03C9}: 0x03CE, // ώ
	{'\'', 0x03CA}: 0x0390, // ΐ
	{'\'', 0x03CB}: 0x03B0, // ΰ
	{'\'', 0x03D2}: 0x03D3, // ϓ
	{'\'', 0x0413}: 0x0403, // Ѓ
	{'\'', 0x041A}: 0x040C, // Ќ
	{'\'', 0x0433}: 0x0453, // ѓ
	{'\'', 0x043A}: 0x045C, // ќ
	{'\'', 0x1F00}: 0x1F04, // ἄ
	{'\'', 0x1F01}: 0x1F05, // ἅ
	{'\'', 0x1F08}: 0x1F0C, // Ἄ
	{'\'', 0x1F09}: 0x1F0D, // Ἅ
	{'\'', 0x1F10}: 0x1F14, // ἔ
	{'\'', 0x1F11}: 0x1F15, // ἕ
	{'\'', 0x1F18}: 0x1F1C, // Ἔ
	{'\'', 0x1F19}: 0x1F1D, // Ἕ
	{'\'', 0x1F20}: 0x1F24, // ἤ
	{'\'', 0x1F21}: 0x1F25, // ἥ
	{'\'', 0x1F28}: 0x1F2C, // Ἤ
	{'\'', 0x1F29}: 0x1F2D, // Ἥ
	{'\'', 0x1F30}: 0x1F34, // ἴ
	{'\'', 0x1F31}: 0x1F35, // ἵ
	{'\'', 0x1F38}: 0x1F3C, // Ἴ
	{'\'', 0x1F39}: 0x1F3D, // Ἵ
	{'\'', 0x1F40}: 0x1F44, // ὄ
	{'\'', 0x1F41}: 0x1F45, // ὅ
	{'\'', 0x1F48}: 0x1F4C, // Ὄ
	{'\'', 0x1F49}: 0x1F4D, // Ὅ
	{'\'', 0x1F50}: 0x1F54, // ὔ
	{'\'', 0x1F51}: 0x1F55, // ὕ
	{'\'', 0x1F59}: 0x1F5D, // Ὕ
	{'\'', 0x1F60}: 0x1F64, // ὤ
	{'\'', 0x1F61}: 0x1F65, // ὥ
	{'\'', 0x1F68}: 0x1F6C, // Ὤ
	{'\'', 0x1F69}: 0x1F6D, // Ὥ
	{'\'', 0x1FBF}: 0x1FCE, // ῎
	{'\'', 0x1FFE}: 0x1FDE, // ῞
	{'.', 0x0041}:  0x0226, // Ȧ
	{'.', 0x0042}:  0x1E02, // Ḃ
	{'.', 0x0043}:  0x010A, // Ċ
	{'.', 0x0044}:  0x1E0A, // Ḋ
	{'.', 0x0045}:  0x0116, // Ė
	{'.', 0x0046}:  0x1E1E, // Ḟ
	{'.', 0x0047}:  0x0120, // Ġ
	{'.', 0x0048}:  0x1E22, // Ḣ
	{'.', 0x0049}:  0x0130, // İ
	{'.', 0x004D}:  0x1E40, // Ṁ
	{'.', 0x004E}:  0x1E44, // Ṅ
	{'.', 0x004F}:  0x022E, // Ȯ
	{'.', 0x0050}:  0x1E56, // Ṗ
	{'.', 0x0052}:  0x1E58, // Ṙ
	{'.', 0x0053}:  0x1E60, // Ṡ
	{'.', 0x0054}:  0x1E6A, // Ṫ
	{'.', 0x0057}:  0x1E86, // Ẇ
	{'.', 0x0058}:  0x1E8A, // Ẋ
	{'.', 0x0059}:  0x1E8E, // Ẏ
	{'.', 0x005A}:  0x017B, // Ż
	{'.', 0x0061}:  0x0227, // ȧ
	{'.', 0x0062}:  0x1E03, // ḃ
	{'.', 0x0063}:  0x010B, // ċ
	{'.', 0x0064}:  0x1E0B, // ḋ
	{'.', 0x0065}:  0x0117, // ė
	{'.', 0x0066}:  0x1E1F, // ḟ
	{'.', 0x0067}:  0x0121, // ġ
	{'.', 0x0068}:  0x1E23, // ḣ
	{'.', 0x006D}:  0x1E41, // ṁ
	{'.', 0x006E}:  0x1E45, // ṅ
	{'.', 0x006F}:  0x022F, // ȯ
	{'.', 0x0070}:  0x1E57, // ṗ
	{'.', 0x0072}:  0x1E59, // ṙ
	{'.', 0x0073}:  0x1E61, // ṡ
	{'.', 0x0074}:  0x1E6B, // ṫ
	{'.', 0x0077}:  0x1E87, // ẇ
	{'.', 0x0078}:  0x1E8B, // ẋ
	{'.', 0x0079}:  0x1E8F, // ẏ
	{'.', 0x007A}:  0x017C, // ż
	{'.', 0x015A}:  0x1E64, // Ṥ
	{'.', 0x015B}:  0x1E65, // ṥ
	{'.', 0x0160}:  0x1E66, // Ṧ
	{'.', 0x0161}:  0x1E67, // ṧ
	{'.', 0x017F}:  0x1E9B, // ẛ
	{'.', 0x1E62}:  0x1E68, // Ṩ
	{'.', 0x1E63}:  0x1E69, // ṩ
	{'^', 0x0041}:  0x00C2, // Â
	{'^', 0x0043}:  0x0108, // Ĉ
	{'^', 0x0045}:  0x00CA, // Ê
	{'^', 0x0047}:  0x011C, // Ĝ
	{'^', 0x0048}:  0x0124, // Ĥ
	{'^', 0x0049}:  0x00CE, // Î
	{'^', 0x004A}:  0x0134, // Ĵ
	{'^', 0x004F}:  0x00D4, // Ô
	{'^', 0x0053}:  0x015C, // Ŝ
	{'^', 0x0055}:  0x00DB, // Û
	{'^', 0x0057}:  0x0174, // Ŵ
	{'^', 0x0059}:  0x0176, // Ŷ
	{'^', 0x005A}:  0x1E90, // Ẑ
	{'^', 0x0061}:  0x00E2, // â
	{'^', 0x0063}:  0x0109, // ĉ
	{'^', 0x0065}:  0x00EA, // ê
	{'^', 0x0067}:  0x011D, // ĝ
	{'^', 0x0068}:  0x0125, // ĥ
	{'^', 0x0069}:  0x00EE, // î
	{'^', 0x006A}:  0x0135, // ĵ
	{'^', 0x006F}:  0x00F4, // ô
	{'^', 0x0073}:  0x015D, // ŝ
	{'^', 0x0075}:  0x00FB, // û
	{'^', 0x0077}:  0x0175, // ŵ
	{'^', 0x0079}:  0x0177, // ŷ
	{'^', 0x007A}:  0x1E91, // ẑ
	{'^', 0x1EA0}:  0x1EAC, // Ậ
	{'^', 0x1EA1}:  0x1EAD, // ậ
	{'^', 0x1EB8}:  0x1EC6, // Ệ
	{'^', 0x1EB9}:  0x1EC7, // ệ
	{'^', 0x1ECC}:  0x1ED8, // Ộ
	{'^', 0x1ECD}:  0x1ED9, // ộ
	{'`', 0x0041}:  0x00C0, // À
	{'`', 0x0045}:  0x00C8, // È
	{'`', 0x0049}:  0x00CC, // Ì
	{'`', 0x004E}:  0x01F8, // Ǹ
	{'`', 0x004F}:  0x00D2, // Ò
	{'`', 0x0055}:  0x00D9, // Ù
	{'`', 0x0057}:  0x1E80, // Ẁ
	{'`', 0x0059}:  0x1EF2, // Ỳ
	{'`', 0x0061}:  0x00E0, // à
	{'`', 0x0065}:  0x00E8, // è
	{'`', 0x0069}:  0x00EC, // ì
	{'`', 0x006E}:  0x01F9, // ǹ
	{'`', 0x006F}:  0x00F2, // ò
	{'`', 0x0075}:  0x00F9, // ù
	{'`', 0x0077}:  0x1E81, // ẁ
	{'`', 0x0079}:  0x1EF3, // ỳ
	{'`', 0x00A8}:  0x1FED, // ῭
	{'`', 0x00C2}:  0x1EA6, // Ầ
	{'`', 0x00CA}:  0x1EC0, // Ề
	{'`', 0x00D4}:  0x1ED2, // Ồ
	{'`', 0x00DC}:  0x01DB, // Ǜ
	{'`', 0x00E2}:  0x1EA7, // ầ
	{'`', 0x00EA}:  0x1EC1, // ề
	{'`', 0x00F4}:  0x1ED3, // ồ
	{'`', 0x00FC}:  0x01DC, // ǜ
	{'`', 0x0102}:  0x1EB0, // Ằ
	{'`', 0x0103}:  0x1EB1, // ằ
	{'`', 0x0112}:  0x1E14, // Ḕ
	{'`', 0x0113}:  0x1E15, // ḕ
	{'`', 0x014C}:  0x1E50, // Ṑ
	{'`', 0x014D}:  0x1E51, // ṑ
	{'`', 0x01A0}:  0x1EDC, // Ờ
	{'`', 0x01A1}:  0x1EDD, // ờ
	{'`', 0x01AF}:  0x1EEA, // Ừ
	{'`', 0x01B0}:  0x1EEB, // ừ
	{'`', 0x0391}:  0x1FBA, // Ὰ
	{'`', 0x0395}:  0x1FC8, // Ὲ
	{'`', 0x0397}:  0x1FCA, // Ὴ
	{'`', 0x0399}:  0x1FDA, // Ὶ
	{'`', 0x039F}:  0x1FF8, // Ὸ
	{'`', 0x03A5}:  0x1FEA, // Ὺ
	{'`', 0x03A9}:  0x1FFA, // Ὼ
	{'`', 0x03B1}:  0x1F70, // ὰ
	{'`', 0x03B5}:  0x1F72, // ὲ
	{'`', 0x03B7}:  0x1F74, // ὴ
	{'`', 0x03B9}:  0x1F76, // ὶ
	{'`', 0x03BF}:  0x1F78, // ὸ
	{'`', 0x03C5}:  0x1F7A, // ὺ
	{'`', 0x03C9}:  0x1F7C, // ὼ
	{'`', 0x03CA}:  0x1FD2, // ῒ
	{'`', 0x03CB}:  0x1FE2, // ῢ
	{'`', 0x0415}:  0x0400, // Ѐ
	{'`', 0x0418}:  0x040D, // Ѝ
	{'`', 0x0435}:  0x0450, // ѐ
	{'`', 0x0438}:  0x045D, // ѝ
	{'`', 0x1F00}:  0x1F02, // ἂ
	{'`', 0x1F01}:  0x1F03, // ἃ
	{'`', 0x1F08}:  0x1F0A, // Ἂ
	{'`', 0x1F09}:  0x1F0B, // Ἃ
	{'`', 0x1F10}:  0x1F12, // ἒ
	{'`', 0x1F11}:  0x1F13, // ἓ
	{'`', 0x1F18}:  0x1F1A, // Ἒ
	{'`', 0x1F19}:  0x1F1B, // Ἓ
	{'`', 0x1F20}:  0x1F22, // ἢ
	{'`', 0x1F21}:  0x1F23, // ἣ
	{'`', 0x1F28}:  0x1F2A, // Ἢ
	{'`', 0x1F29}:  0x1F2B, // Ἣ
	{'`', 0x1F30}:  0x1F32, // ἲ
	{'`', 0x1F31}:  0x1F33, // ἳ
	{'`', 0x1F38}:  0x1F3A, // Ἲ
	{'`', 0x1F39}:  0x1F3B, // Ἳ
	{'`', 0x1F40}:  0x1F42, // ὂ
	{'`', 0x1F41}:  0x1F43, // ὃ
	{'`', 0x1F48}:  0x1F4A, // Ὂ
	{'`', 0x1F49}:  0x1F4B, // Ὃ
	{'`', 0x1F50}:  0x1F52, // ὒ
	{'`', 0x1F51}:  0x1F53, // ὓ
	{'`', 0x1F59}:  0x1F5B, // Ὓ
	{'`', 0x1F60}:  0x1F62, // ὢ
	{'`', 0x1F61}:  0x1F63, // ὣ
	{'`', 0x1F68}:  0x1F6A, // Ὢ
	{'`', 0x1F69}:  0x1F6B, // Ὣ
	{'`', 0x1FBF}:  0x1FCD, // ῍
	{'`', 0x1FFE}:  0x1FDD, // ῝
	{'c', 0x0043}:  0x00C7, // Ç
	{'c', 0x0044}:  0x1E10, // Ḑ
	{'c', 0x0045}:  0x0228, // Ȩ
	{'c', 0x0047}:  0x0122, // Ģ
	{'c', 0x0048}:  0x1E28, // Ḩ
	{'c', 0x004B}:  0x0136, // Ķ
	{'c', 0x004C}:  0x013B, // Ļ
	{'c', 0x004E}:  0x0145, // Ņ
	{'c', 0x0052}:  0x0156, // Ŗ
	{'c', 0x0053}:  0x015E, // Ş
	{'c', 0x0054}:  0x0162, // Ţ
	{'c', 0x0063}:  0x00E7, // ç
	{'c', 0x0064}:  0x1E11, // ḑ
	{'c', 0x0065}:  0x0229, // ȩ
	{'c', 0x0067}:  0x0123, // ģ
	{'c', 0x0068}:  0x1E29, // ḩ
	{'c', 0x006B}:  0x0137, // ķ
	{'c', 0x006C}:  0x013C, // ļ
	{'c', 0x006E}:  0x0146, // ņ
	{'c', 0x0072}:  0x0157, // ŗ
	{'c', 0x0073}:  0x015F, // ş
	{'c', 0x0074}:  0x0163, // ţ
	{'~', 0x0041}:  0x00C3, // Ã
	{'~', 0x0045}:  0x1EBC, // Ẽ
	{'~', 0x0049}:  0x0128, // Ĩ
	{'~', 0x004E}:  0x00D1, // Ñ
	{'~', 0x004F}:  0x00D5, // Õ
	{'~', 0x0055}:  0x0168, // Ũ
	{'~', 0x0056}:  0x1E7C, // Ṽ
	{'~', 0x0059}:  0x1EF8, // Ỹ
	{'~', 0x0061}:  0x00E3, // ã
	{'~', 0x0065}:  0x1EBD, // ẽ
	{'~', 0x0069}:  0x0129, // ĩ
	{'~', 0x006E}:  0x00F1, // ñ
	{'~', 0x006F}:  0x00F5, // õ
	{'~', 0x0075}:  0x0169, // ũ
	{'~', 0x0076}:  0x1E7D, // ṽ
	{'~', 0x0079}:  0x1EF9, // ỹ
	{'~', 0x00C2}:  0x1EAA, // Ẫ
	{'~', 0x00CA}:  0x1EC4, // Ễ
	{'~', 0x00D4}:  0x1ED6, // Ỗ
	{'~', 0x00E2}:  0x1EAB, // ẫ
	{'~', 0x00EA}:  0x1EC5, // ễ
	{'~', 0x00F4}:  0x1ED7, // ỗ
	{'~', 0x0102}:  0x1EB4, // Ẵ
	{'~', 0x0103}:  0x1EB5, // ẵ
	{'~', 0x01A0}:  0x1EE0, // Ỡ
	{'~', 0x01A1}:  0x1EE1, // ỡ
	{'~', 0x01AF}:  0x1EEE, // Ữ
	{'~', 0x01B0}:  0x1EEF, // ữ
}
