"""EBU Tech 3264 code tables, transcribed independently of the library (its spellings of the names are kept, as users see them).
The position in LANGUAGES of a name is the value of the library's public Language enumeration."""
LANGUAGES = []
for _line in """
00 Unknown|01 Albanian|02 Breton|03 Catalan|04 Croatian|05 Welsh|06 Czech|07 Danish|08 German|09 English|0A Spanish|0B Esperanto|0C Estonian
0D Basque|0E Faroese|0F French|10 Frisian|11 Irish|12 Gaelic|13 Galacian|14 Icelandic|15 Italian|16 Lappish|17 Latin|18 Latvian|19 Luxemborgian
1A Lithuanian|1B Hungarian|1C Maltese|1D Dutch|1E Norwegian|1F Occitan|20 Polish|21 Portugese|22 Romanian|23 Romansh|24 Serbian|25 Slovak
26 Slovenian|27 Finnish|28 Swedish|29 Turkish|2A Flemish|2B Wallon|7F Amharic|7E Arabic|7D Armenian|7C Assamese|7B Azerbaijani|7A Bambora
79 Bielorussian|78 Bengali|77 Bulgarian|76 Burmese|75 Chinese|74 Churash|73 Dari|72 Fulani|71 Georgian|70 Greek|6F Gujarati|6E Gurani|6D Hausa
6C Hebrew|6B Hindi|6A Indonesian|69 Japanese|68 Kannada|67 Kazakh|66 Khmer|65 Korean|64 Laotian|63 Macedonian|62 Malagasay|61 Malaysian
60 Moldavian|5F Marathi|5E Ndebele|5D Nepali|5C Oriya|5B Papamiento|5A Persian|59 Punjabi|58 Pushtu|57 Quechua|56 Russian|55 Ruthenian
54 Serbo Croat|53 Shona|52 Sinhalese|51 Somali|50 Sranan Tongo|4F Swahili|4E Tadzhik|4D Tamil|4C Tatar|4B Telugu|4A Thai|49 Ukranian|48 Urdu
47 Uzbek|46 Vietnamese|45 Zulu""".strip().splitlines():
    for _e in _line.split("|"):
        LANGUAGES.append(tuple(_e.strip().split(" ", 1)))
LANGUAGE_CODE = {i: c for i, (c, _) in enumerate(LANGUAGES)}
DISPLAY = [(" ", "Undefined"), ("0", "Open subtitling"), ("1", "Level 1 teletext"), ("2", "Level 2 teletext")]
GROUP = [("00", "Latin"), ("01", "Latin/Cyrillic"), ("02", "Latin/Arabic"), ("03", "Latin/Greek"), ("04", "Latin/Hebrew"), ("U8", "UTF-8")]
STATUS = [("0", "Not intended for use"), ("1", "Intended for use")]
CUMULATIVE = ["Not part of a cumulative set", "First subtitle of a cumulative set", "Intermediate subtitle of a cumulative set", "Last subtitle of a cumulative set"]
JUSTIFICATION = ["No justification", "Left justification", "Centre justification", "Right justification"]
COMMENT = ["Not a comment", "Is a comment"]
RATES = {"STL23.01": 23.976, "STL24.01": 24.0, "STL25.01": 25.0, "STL30.01": 30.0}
