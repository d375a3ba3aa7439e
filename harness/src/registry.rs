//! The registered tags, names, and codes: a reviewed transcription of the registries in the
//! OpenType specification as of when the checks were written.

/// The script tags.
pub const SCRIPTS: &[(&[u8; 4], &str, &str)] = &[
    (b"adlm", "Adlam", ""),
    (b"ahom", "Ahom", ""),
    (b"hluw", "Anatolian Hieroglyphs", ""),
    (b"arab", "Arabic", ""),
    (b"armn", "Armenian", ""),
    (b"avst", "Avestan", ""),
    (b"bali", "Balinese", ""),
    (b"bamu", "Bamum", ""),
    (b"bass", "Bassa Vah", ""),
    (b"batk", "Batak", ""),
    (b"beng", "Bengali", ""),
    (b"bng2", "Bengali", ""),
    (b"bhks", "Bhaiksuki", ""),
    (b"bopo", "Bopomofo", ""),
    (b"brah", "Brahmi", ""),
    (b"brai", "Braille", ""),
    (b"bugi", "Buginese", ""),
    (b"buhd", "Buhid", ""),
    (b"byzm", "Byzantine Music", ""),
    (b"cans", "Canadian Syllabics", ""),
    (b"cari", "Carian", ""),
    (b"aghb", "Caucasian Albanian", ""),
    (b"cakm", "Chakma", ""),
    (b"cham", "Cham", ""),
    (b"cher", "Cherokee", ""),
    (b"hani", "CJK Ideographic", ""),
    (b"copt", "Coptic", ""),
    (b"cprt", "Cypriot Syllabary", ""),
    (b"cyrl", "Cyrillic", ""),
    (b"DFLT", "Default", ""),
    (b"dsrt", "Deseret", ""),
    (b"deva", "Devanagari", ""),
    (b"dev2", "Devanagari", ""),
    (b"dupl", "Duployan", ""),
    (b"egyp", "Egyptian Hieroglyphs", ""),
    (b"elba", "Elbasan", ""),
    (b"ethi", "Ethiopic", ""),
    (b"geor", "Georgian", ""),
    (b"glag", "Glagolitic", ""),
    (b"goth", "Gothic", ""),
    (b"gran", "Grantha", ""),
    (b"grek", "Greek", ""),
    (b"gujr", "Gujarati", ""),
    (b"gjr2", "Gujarati", ""),
    (b"guru", "Gurmukhi", ""),
    (b"gur2", "Gurmukhi", ""),
    (b"hang", "Hangul", ""),
    (b"jamo", "Hangul Jamo", ""),
    (b"hano", "Hanunoo", ""),
    (b"hatr", "Hatran", ""),
    (b"hebr", "Hebrew", ""),
    (b"kana", "Hiragana", ""),
    (b"armi", "Imperial Aramaic", ""),
    (b"phli", "Inscriptional Pahlavi", ""),
    (b"prti", "Inscriptional Parthian", ""),
    (b"java", "Javanese", ""),
    (b"kthi", "Kaithi", ""),
    (b"knda", "Kannada", ""),
    (b"knd2", "Kannada", ""),
    (b"kali", "Kayah Li", ""),
    (b"khar", "Kharosthi", ""),
    (b"khmr", "Khmer", ""),
    (b"khoj", "Khojki", ""),
    (b"sind", "Khudawadi", ""),
    (b"lao ", "Lao", ""),
    (b"latn", "Latin", ""),
    (b"lepc", "Lepcha", ""),
    (b"limb", "Limbu", ""),
    (b"lina", "Linear A", ""),
    (b"linb", "Linear B", ""),
    (b"lisu", "Lisu (Fraser)", ""),
    (b"lyci", "Lycian", ""),
    (b"lydi", "Lydian", ""),
    (b"mahj", "Mahajani", ""),
    (b"mlym", "Malayalam", ""),
    (b"mlm2", "Malayalam", ""),
    (b"mand", "Mandaic, Mandaean", ""),
    (b"mani", "Manichaean", ""),
    (b"marc", "Marchen", ""),
    (b"math", "Mathematical Alphanumeric Symbols", ""),
    (b"mtei", "Meitei Mayek (Meithei, Meetei)", ""),
    (b"mend", "Mende Kikakui", ""),
    (b"merc", "Meroitic Cursive", ""),
    (b"mero", "Meroitic Hieroglyphs", ""),
    (b"plrd", "Miao", ""),
    (b"modi", "Modi", ""),
    (b"mong", "Mongolian", ""),
    (b"mroo", "Mro", ""),
    (b"mult", "Multani", ""),
    (b"musc", "Musical Symbols", ""),
    (b"mymr", "Myanmar", ""),
    (b"mym2", "Myanmar", ""),
    (b"nbat", "Nabataean", ""),
    (b"newa", "Newa", ""),
    (b"talu", "New Tai Lue", ""),
    (b"nko ", "N’Ko", ""),
    (b"orya", "Odia", ""),
    (b"ory2", "Odia", ""),
    (b"ogam", "Ogham", ""),
    (b"olck", "Ol Chiki", ""),
    (b"ital", "Old Italic", ""),
    (b"hung", "Old Hungarian", ""),
    (b"narb", "Old North Arabian", ""),
    (b"perm", "Old Permic", ""),
    (b"xpeo", "Old Persian Cuneiform", ""),
    (b"sarb", "Old South Arabian", ""),
    (b"orkh", "Old Turkic, Orkhon Runic", ""),
    (b"osge", "Osage", ""),
    (b"osma", "Osmanya", ""),
    (b"hmng", "Pahawh Hmong", ""),
    (b"palm", "Palmyrene", ""),
    (b"pauc", "Pau Cin Hau", ""),
    (b"phag", "Phags-pa", ""),
    (b"phnx", "Phoenician", ""),
    (b"phlp", "Psalter Pahlavi", ""),
    (b"rjng", "Rejang", ""),
    (b"runr", "Runic", ""),
    (b"samr", "Samaritan", ""),
    (b"saur", "Saurashtra", ""),
    (b"shrd", "Sharada", ""),
    (b"shaw", "Shavian", ""),
    (b"sidd", "Siddham", ""),
    (b"sgnw", "Sign Writing", ""),
    (b"sinh", "Sinhala", ""),
    (b"sora", "Sora Sompeng", ""),
    (b"xsux", "Sumero-Akkadian Cuneiform", ""),
    (b"sund", "Sundanese", ""),
    (b"sylo", "Syloti Nagri", ""),
    (b"syrc", "Syriac", ""),
    (b"tglg", "Tagalog", ""),
    (b"tagb", "Tagbanwa", ""),
    (b"tale", "Tai Le", ""),
    (b"lana", "Tai Tham (Lanna)", ""),
    (b"tavt", "Tai Viet", ""),
    (b"takr", "Takri", ""),
    (b"taml", "Tamil", ""),
    (b"tml2", "Tamil", ""),
    (b"tang", "Tangut", ""),
    (b"telu", "Telugu", ""),
    (b"tel2", "Telugu", ""),
    (b"thaa", "Thaana", ""),
    (b"thai", "Thai", ""),
    (b"tibt", "Tibetan", ""),
    (b"tfng", "Tifinagh", ""),
    (b"tirh", "Tirhuta", ""),
    (b"ugar", "Ugaritic Cuneiform", ""),
    (b"vai ", "Vai", ""),
    (b"wara", "Warang Citi", ""),
    (b"yi  ", "Yi", ""),
];

/// The language tags.
pub const LANGUAGES: &[(&[u8; 4], &str, &str)] = &[
    (b"ABA ", "Abaza", "abq"),
    (b"ABK ", "Abkhazian", "abk"),
    (b"ACH ", "Acholi", "ach"),
    (b"ACR ", "Achi", "acr"),
    (b"ADY ", "Adyghe", "ady"),
    (b"AFK ", "Afrikaans", "afr"),
    (b"AFR ", "Afar", "aar"),
    (b"AGW ", "Agaw", "ahg"),
    (b"AIO ", "Aiton", "aio"),
    (b"AKA ", "Akan", "aka"),
    (b"ALS ", "Alsatian", "gsw"),
    (b"ALT ", "Altai", "atv, alt"),
    (b"AMH ", "Amharic", "amh"),
    (b"ANG ", "Anglo-Saxon", "ang"),
    (b"APPH", "Phonetic Transcription, Americanist", ""),
    (b"ARA ", "Arabic", "ara"),
    (b"ARG ", "Aragonese", "arg"),
    (b"ARI ", "Aari", "aiw"),
    (b"ARK ", "Rakhine", "mhv, rmz, rki"),
    (b"ASM ", "Assamese", "asm"),
    (b"AST ", "Asturian", "ast"),
    (b"ATH ", "Athapaskan", "apk, apj, apl, apm, apw, nav, bea, sek, bcr, caf, \
                                              crx, clc, gwi, haa, chp, dgr, scs, xsl, srs, ing, \
                                              hoi, koy, hup, ktw, mvb, wlk, coq, ctc, gce, tol, \
                                              tuu, kkz, tgx, tht, aht, tfn, taa, tau, tcb, kuu, \
                                              tce, ttm, txc"),
    (b"AVR ", "Avar", "ava"),
    (b"AWA ", "Awadhi", "awa"),
    (b"AYM ", "Aymara", "aym"),
    (b"AZB ", "Torki", "azb"),
    (b"AZE ", "Azerbaijani", "aze"),
    (b"BAD ", "Badaga", "bfq"),
    (b"BAD0", "Banda", "bad"),
    (b"BAG ", "Baghelkhandi", "bfy"),
    (b"BAL ", "Balkar", "krc"),
    (b"BAN ", "Balinese", "ban"),
    (b"BAR ", "Bavarian", "bar"),
    (b"BAU ", "Baulé", "bci"),
    (b"BBC ", "Batak Toba", "bbc"),
    (b"BBR ", "Berber", ""),
    (b"BCH ", "Bench", "bcq"),
    (b"BCR ", "Bible Cree", ""),
    (b"BDY ", "Bandjalang", "bdy"),
    (b"BEL ", "Belarussian", "bel"),
    (b"BEM ", "Bemba", "bem"),
    (b"BEN ", "Bengali", "ben"),
    (b"BGC ", "Haryanvi", "bgc"),
    (b"BGQ ", "Bagri", "bgq"),
    (b"BGR ", "Bulgarian", "bul"),
    (b"BHI ", "Bhili", "bhi, bhb"),
    (b"BHO ", "Bhojpuri", "bho"),
    (b"BIK ", "Bikol", "bik, bhk, bcl, bto, cts, bln"),
    (b"BIL ", "Bilen", "byn"),
    (b"BIS ", "Bislama", "bis"),
    (b"BJJ ", "Kanauji", "bjj"),
    (b"BKF ", "Blackfoot", "bla"),
    (b"BLI ", "Baluchi", "bal"),
    (b"BLK ", "Pa’o Karen", "blk"),
    (b"BLN ", "Balante", "bjt, ble"),
    (b"BLT ", "Balti", "bft"),
    (b"BMB ", "Bambara (Bamanankan)", "bam"),
    (b"BML ", "Bamileke", ""),
    (b"BOS ", "Bosnian", "bos"),
    (b"BPY ", "Bishnupriya Manipuri", "bpy"),
    (b"BRE ", "Breton", "bre"),
    (b"BRH ", "Brahui", "brh"),
    (b"BRI ", "Braj Bhasha", "bra"),
    (b"BRM ", "Burmese", "mya"),
    (b"BRX ", "Bodo", "brx"),
    (b"BSH ", "Bashkir", "bak"),
    (b"BSK ", "Burushaski", "bsk"),
    (b"BTI ", "Beti", "btb"),
    (b"BTS ", "Batak Simalungun", "bts"),
    (b"BUG ", "Bugis", "bug"),
    (b"BYV ", "Medumba", "byv"),
    (b"CAK ", "Kaqchikel", "cak"),
    (b"CAT ", "Catalan", "cat"),
    (b"CBK ", "Zamboanga Chavacano", "cbk"),
    (b"CEB ", "Cebuano", "ceb"),
    (b"CHE ", "Chechen", "che"),
    (b"CHG ", "Chaha Gurage", "sgw"),
    (b"CHH ", "Chattisgarhi", "hne"),
    (b"CHI ", "Chichewa (Chewa, Nyanja)", "nya"),
    (b"CHK ", "Chukchi", "ckt"),
    (b"CHK0", "Chuukese", "chk"),
    (b"CHO ", "Choctaw", "cho"),
    (b"CHP ", "Chipewyan", "chp"),
    (b"CHR ", "Cherokee", "chr"),
    (b"CHA ", "Chamorro", "cha"),
    (b"CHU ", "Chuvash", "chv"),
    (b"CHY ", "Cheyenne", "chy"),
    (b"CGG ", "Chiga", "cgg"),
    (b"CMR ", "Comorian", "swb, wlc, wni, zdj"),
    (b"COP ", "Coptic", "cop"),
    (b"COR ", "Cornish", "cor"),
    (b"COS ", "Corsican", "cos"),
    (b"CPP ", "Creoles", "cpp"),
    (b"CRE ", "Cree", "cre"),
    (b"CRR ", "Carrier", "crx, caf"),
    (b"CRT ", "Crimean Tatar", "crh"),
    (b"CSB ", "Kashubian", "csb"),
    (b"CSL ", "Church Slavonic", "chu"),
    (b"CSY ", "Czech", "ces"),
    (b"CTG ", "Chittagonian", "ctg"),
    (b"CUK ", "San Blas Kuna", "cuk"),
    (b"DAN ", "Danish", "dan"),
    (b"DAR ", "Dargwa", "dar"),
    (b"DAX ", "Dayi", "dax"),
    (b"DCR ", "Woods Cree", "cwd"),
    #[cfg(feature = "language")]
    (b"DFLT", "Default", ""),
    (b"DEU ", "German", "deu"),
    (b"DGO ", "Dogri", "dgo"),
    (b"DGR ", "Dogri", "doi"),
    (b"DHG ", "Dhangu", "dhg"),
    (b"DHV ", "Divehi (Dhivehi, Maldivian)", "div"),
    (b"DIQ ", "Dimli", "diq"),
    (b"DIV ", "Divehi (Dhivehi, Maldivian)", "div"),
    (b"DJR ", "Zarma", "dje"),
    (b"DJR0", "Djambarrpuyngu", "djr"),
    (b"DNG ", "Dangme", "ada"),
    (b"DNJ ", "Dan", "dnj"),
    (b"DNK ", "Dinka", "din"),
    (b"DRI ", "Dari", "prs"),
    (b"DUJ ", "Dhuwal", "duj"),
    (b"DUN ", "Dungan", "dng"),
    (b"DZN ", "Dzongkha", "dzo"),
    (b"EBI ", "Ebira", "igb"),
    (b"ECR ", "Eastern Cree", "crj, crl"),
    (b"EDO ", "Edo", "bin"),
    (b"EFI ", "Efik", "efi"),
    (b"ELL ", "Greek", "ell"),
    (b"EMK ", "Eastern Maninkakan", "emk"),
    (b"ENG ", "English", "eng"),
    (b"ERZ ", "Erzya", "myv"),
    (b"ESP ", "Spanish", "spa"),
    (b"ESU ", "Central Yupik", "esu"),
    (b"ETI ", "Estonian", "est"),
    (b"EUQ ", "Basque", "eus"),
    (b"EVK ", "Evenki", "evn"),
    (b"EVN ", "Even", "eve"),
    (b"EWE ", "Ewe", "ewe"),
    (b"FAN ", "French Antillean", "acf"),
    (b"FAN0", "Fang", "fan"),
    (b"FAR ", "Persian", "fas"),
    (b"FAT ", "Fanti", "fat"),
    (b"FIN ", "Finnish", "fin"),
    (b"FJI ", "Fijian", "fij"),
    (b"FLE ", "Dutch (Flemish)", "vls"),
    (b"FMP ", "Fe’fe’", "fmp"),
    (b"FNE ", "Forest Nenets", "enf"),
    (b"FON ", "Fon", "fon"),
    (b"FOS ", "Faroese", "fao"),
    (b"FRA ", "French", "fra"),
    (b"FRC ", "Cajun French", "frc"),
    (b"FRI ", "Frisian", "fry"),
    (b"FRL ", "Friulian", "fur"),
    (b"FRP ", "Arpitan", "frp"),
    (b"FTA ", "Futa", "fuf"),
    (b"FUL ", "Fulah", "ful"),
    (b"FUV ", "Nigerian Fulfulde", "fuv"),
    (b"GAD ", "Ga", "gaa"),
    (b"GAE ", "Scottish Gaelic (Gaelic)", "gla"),
    (b"GAG ", "Gagauz", "gag"),
    (b"GAL ", "Galician", "glg"),
    (b"GAR ", "Garshuni", ""),
    (b"GAW ", "Garhwali", "gbm"),
    (b"GEZ ", "Ge’ez", "gez"),
    (b"GIH ", "Githabul", "gih"),
    (b"GIL ", "Gilyak", "niv"),
    (b"GIL0", "Kiribati (Gilbertese)", "gil"),
    (b"GKP ", "Kpelle (Guinea)", "gkp"),
    (b"GLK ", "Gilaki", "glk"),
    (b"GMZ ", "Gumuz", "guk"),
    (b"GNN ", "Gumatj", "gnn"),
    (b"GOG ", "Gogo", "gog"),
    (b"GON ", "Gondi", "gon"),
    (b"GRN ", "Greenlandic", "kal"),
    (b"GRO ", "Garo", "grt"),
    (b"GUA ", "Guarani", "grn"),
    (b"GUC ", "Wayuu", "guc"),
    (b"GUF ", "Gupapuyngu", "guf"),
    (b"GUJ ", "Gujarati", "guj"),
    (b"GUZ ", "Gusii", "guz"),
    (b"HAI ", "Haitian (Haitian Creole)", "hat"),
    (b"HAL ", "Halam", "flm"),
    (b"HAR ", "Harauti", "hoj"),
    (b"HAU ", "Hausa", "hau"),
    (b"HAW ", "Hawaiian", "haw"),
    (b"HAY ", "Haya", "hay"),
    (b"HAZ ", "Hazaragi", "haz"),
    (b"HBN ", "Hammer-Banna", "amf"),
    (b"HER ", "Herero", "her"),
    (b"HIL ", "Hiligaynon", "hil"),
    (b"HIN ", "Hindi", "hin"),
    (b"HMA ", "High Mari", "mrj"),
    (b"HMN ", "Hmong", "hmn"),
    (b"HMO ", "Hiri Motu", "hmo"),
    (b"HND ", "Hindko", "hno, hnd"),
    (b"HO  ", "Ho", "hoc"),
    (b"HRI ", "Harari", "har"),
    (b"HRV ", "Croatian", "hrv"),
    (b"HUN ", "Hungarian", "hun"),
    (b"HYE ", "Armenian", "hye"),
    (b"HYE0", "Armenian East", "hye"),
    (b"IBA ", "Iban", "iba"),
    (b"IBB ", "Ibibio", "ibb"),
    (b"IBO ", "Igbo", "ibo"),
    (b"IJO ", "Ijo languages", "ijc"),
    (b"IDO ", "Ido", "ido"),
    (b"ILE ", "Interlingue", "ile"),
    (b"ILO ", "Ilokano", "ilo"),
    (b"INA ", "Interlingua", "ina"),
    (b"IND ", "Indonesian", "ind"),
    (b"ING ", "Ingush", "inh"),
    (b"INU ", "Inuktitut", "iku"),
    (b"IPK ", "Inupiat", "ipk"),
    (b"IPPH", "Phonetic transcription, IPA", ""),
    (b"IRI ", "Irish", "gle"),
    (b"IRT ", "Irish Traditional", "gle"),
    (b"ISL ", "Icelandic", "isl"),
    (b"ISM ", "Inari Sami", "smn"),
    (b"ITA ", "Italian", "ita"),
    (b"IWR ", "Hebrew", "heb"),
    (b"JAM ", "Jamaican Creole", "jam"),
    (b"JAN ", "Japanese", "jpn"),
    (b"JAV ", "Javanese", "jav"),
    (b"JBO ", "Lojban", "jbo"),
    (b"JCT ", "Krymchak", "jct"),
    (b"JII ", "Yiddish", "yid"),
    (b"JUD ", "Ladino", "lad"),
    (b"JUL ", "Jula", "dyu"),
    (b"KAB ", "Kabardian", "kbd"),
    (b"KAB0", "Kabyle", "kab"),
    (b"KAC ", "Kachchi", "kfr"),
    (b"KAL ", "Kalenjin", "kln"),
    (b"KAN ", "Kannada", "kan"),
    (b"KAR ", "Karachay", "krc"),
    (b"KAT ", "Georgian", "kat"),
    (b"KAZ ", "Kazakh", "kaz"),
    (b"KDE ", "Makonde", "kde"),
    (b"KEA ", "Kabuverdianu (Crioulo)", "kea"),
    (b"KEB ", "Kebena", "ktb"),
    (b"KEK ", "Kekchi", "kek"),
    (b"KGE ", "Khutsuri Georgian", "kat"),
    (b"KHA ", "Khakass", "kjh"),
    (b"KHK ", "Khanty-Kazim", "kca"),
    (b"KHM ", "Khmer", "khm"),
    (b"KHS ", "Khanty-Shurishkar", "kca"),
    (b"KHT ", "Khamti Shan", "kht"),
    (b"KHV ", "Khanty-Vakhi", "kca"),
    (b"KHW ", "Khowar", "khw"),
    (b"KIK ", "Kikuyu (Gikuyu)", "kik"),
    (b"KIR ", "Kirghiz (Kyrgyz)", "kir"),
    (b"KIS ", "Kisii", "kqs, kss"),
    (b"KIU ", "Kirmanjki", "kiu"),
    (b"KJD ", "Southern Kiwai", "kjd"),
    (b"KJP ", "Eastern Pwo Karen", "kjp"),
    (b"KKN ", "Kokni", "kex"),
    (b"KLM ", "Kalmyk", "xal"),
    (b"KMB ", "Kamba", "kam"),
    (b"KMN ", "Kumaoni", "kfy"),
    (b"KMO ", "Komo", "kmw"),
    (b"KMS ", "Komso", "kxc"),
    (b"KMZ ", "Khorasani Turkic", "kmz"),
    (b"KNR ", "Kanuri", "kau"),
    (b"KOD ", "Kodagu", "kfa"),
    (b"KOH ", "Korean Old Hangul", "okm"),
    (b"KOK ", "Konkani", "kok"),
    (b"KON ", "Kikongo", "ktu"),
    (b"KOM ", "Komi", "kom"),
    (b"KON0", "Kongo", "kon"),
    (b"KOP ", "Komi-Permyak", "koi"),
    (b"KOR ", "Korean", "kor"),
    (b"KOS ", "Kosraean", "kos"),
    (b"KOZ ", "Komi-Zyrian", "kpv"),
    (b"KPL ", "Kpelle", "kpe"),
    (b"KRI ", "Krio", "kri"),
    (b"KRK ", "Karakalpak", "kaa"),
    (b"KRL ", "Karelian", "krl"),
    (b"KRM ", "Karaim", "kdr"),
    (b"KRN ", "Karen", "kar"),
    (b"KRT ", "Koorete", "kqy"),
    (b"KSH ", "Kashmiri", "kas"),
    (b"KSH0", "Ripuarian", "ksh"),
    (b"KSI ", "Khasi", "kha"),
    (b"KSM ", "Kildin Sami", "sjd"),
    (b"KSW ", "S’gaw Karen", "ksw"),
    (b"KUA ", "Kuanyama", "kua"),
    (b"KUI ", "Kui", "kxu"),
    (b"KUL ", "Kulvi", "kfx"),
    (b"KUM ", "Kumyk", "kum"),
    (b"KUR ", "Kurdish", "kur"),
    (b"KUU ", "Kurukh", "kru"),
    (b"KUY ", "Kuy", "kdt"),
    (b"KYK ", "Koryak", "kpy"),
    (b"KYU ", "Western Kayah", "kyu"),
    (b"LAD ", "Ladin", "lld"),
    (b"LAH ", "Lahuli", "bfu"),
    (b"LAK ", "Lak", "lbe"),
    (b"LAM ", "Lambani", "lmn"),
    (b"LAO ", "Lao", "lao"),
    (b"LAT ", "Latin", "lat"),
    (b"LAZ ", "Laz", "lzz"),
    (b"LCR ", "L-Cree", "crm"),
    (b"LDK ", "Ladakhi", "lbj"),
    (b"LEZ ", "Lezgi", "lez"),
    (b"LIJ ", "Ligurian", "lij"),
    (b"LIM ", "Limburgish", "lim"),
    (b"LIN ", "Lingala", "lin"),
    (b"LIS ", "Lisu", "lis"),
    (b"LJP ", "Lampung", "ljp"),
    (b"LKI ", "Laki", "lki"),
    (b"LMA ", "Low Mari", "mhr"),
    (b"LMB ", "Limbu", "lif"),
    (b"LMO ", "Lombard", "lmo"),
    (b"LMW ", "Lomwe", "ngl"),
    (b"LOM ", "Loma", "lom"),
    (b"LRC ", "Luri", "lrc, luz, bqi, zum"),
    (b"LSB ", "Lower Sorbian", "dsb"),
    (b"LSM ", "Lule Sami", "smj"),
    (b"LTH ", "Lithuanian", "lit"),
    (b"LTZ ", "Luxembourgish", "ltz"),
    (b"LUA ", "Luba-Lulua", "lua"),
    (b"LUB ", "Luba-Katanga", "lub"),
    (b"LUG ", "Ganda", "lug"),
    (b"LUH ", "Luyia", "luy"),
    (b"LUO ", "Luo", "luo"),
    (b"LVI ", "Latvian", "lav"),
    (b"MAD ", "Madura", "mad"),
    (b"MAG ", "Magahi", "mag"),
    (b"MAH ", "Marshallese", "mah"),
    (b"MAJ ", "Majang", "mpe"),
    (b"MAK ", "Makhuwa", "vmw"),
    (b"MAL ", "Malayalam", "mal"),
    (b"MAM ", "Mam", "mam"),
    (b"MAN ", "Mansi", "mns"),
    (b"MAP ", "Mapudungun", "arn"),
    (b"MAR ", "Marathi", "mar"),
    (b"MAW ", "Marwari", "mwr, dhd, rwr, mve, wry, mtr, swv"),
    (b"MBN ", "Mbundu", "kmb"),
    (b"MBO ", "Mbo", "mbo"),
    (b"MCH ", "Manchu", "mnc"),
    (b"MCR ", "Moose Cree", "crm"),
    (b"MDE ", "Mende", "men"),
    (b"MDR ", "Mandar", "mdr"),
    (b"MEN ", "Me’en", "mym"),
    (b"MER ", "Meru", "mer"),
    (b"MFE ", "Morisyen", "mfe"),
    (b"MIN ", "Minangkabau", "min"),
    (b"MIZ ", "Mizo", "lus"),
    (b"MKD ", "Macedonian", "mkd"),
    (b"MKR ", "Makasar", "mak"),
    (b"MKW ", "Kituba", "mkw"),
    (b"MLE ", "Male", "mdy"),
    (b"MLG ", "Malagasy", "mlg"),
    (b"MLN ", "Malinke", "mlq"),
    (b"MLR ", "Malayalam Reformed", "mal"),
    (b"MLY ", "Malay", "msa"),
    (b"MND ", "Mandinka", "mnk"),
    (b"MNG ", "Mongolian", "mon"),
    (b"MNI ", "Manipuri", "mni"),
    (b"MNK ", "Maninka", "man, mnk, myq, mku, msc, emk, mwk, mlq"),
    (b"MNX ", "Manx", "glv"),
    (b"MOH ", "Mohawk", "moh"),
    (b"MOK ", "Moksha", "mdf"),
    (b"MOL ", "Moldavian", "mol"),
    (b"MON ", "Mon", "mnw"),
    (b"MOR ", "Moroccan", ""),
    (b"MOS ", "Mossi", "mos"),
    (b"MRI ", "Maori", "mri"),
    (b"MTH ", "Maithili", "mai"),
    (b"MTS ", "Maltese", "mlt"),
    (b"MUN ", "Mundari", "unr"),
    (b"MUS ", "Muscogee", "mus"),
    (b"MWL ", "Mirandese", "mwl"),
    (b"MWW ", "Hmong Daw", "mww"),
    (b"MYN ", "Mayan", "myn"),
    (b"MZN ", "Mazanderani", "mzn"),
    (b"NAG ", "Naga-Assamese", "nag"),
    (b"NAH ", "Nahuatl", "nah"),
    (b"NAN ", "Nanai", "gld"),
    (b"NAP ", "Neapolitan", "nap"),
    (b"NAS ", "Naskapi", "nsk"),
    (b"NAU ", "Nauruan", "nau"),
    (b"NAV ", "Navajo", "nav"),
    (b"NCR ", "N-Cree", "csw"),
    (b"NDB ", "Ndebele", "nbl, nde"),
    (b"NDC ", "Ndau", "ndc"),
    (b"NDG ", "Ndonga", "ndo"),
    (b"NDS ", "Low Saxon", "nds"),
    (b"NEP ", "Nepali", "nep"),
    (b"NEW ", "Newari", "new"),
    (b"NGA ", "Ngbaka", "nga"),
    (b"NGR ", "Nagari", ""),
    (b"NHC ", "Norway House Cree", "csw"),
    (b"NIS ", "Nisi", "dap"),
    (b"NIU ", "Niuean", "niu"),
    (b"NKL ", "Nyankole", "nyn"),
    (b"NKO ", "N’Ko", "nqo"),
    (b"NLD ", "Dutch", "nld"),
    (b"NOE ", "Nimadi", "noe"),
    (b"NOG ", "Nogai", "nog"),
    (b"NOR ", "Norwegian", "nob"),
    (b"NOV ", "Novial", "nov"),
    (b"NSM ", "Northern Sami", "sme"),
    (b"NSO ", "Sotho, Northern", "nso"),
    (b"NTA ", "Northern Tai", "nod"),
    (b"NTO ", "Esperanto", "epo"),
    (b"NYM ", "Nyamwezi", "nym"),
    (b"NYN ", "Norwegian Nynorsk (Nynorsk, Norwegian)", "nno"),
    (b"NZA ", "Mbembe Tigon", "nza"),
    (b"OCI ", "Occitan", "oci"),
    (b"OCR ", "Oji-Cree", "ojs"),
    (b"OJB ", "Ojibway", "oji"),
    (b"ORI ", "Odia", "ori"),
    (b"ORO ", "Oromo", "orm"),
    (b"OSS ", "Ossetian", "oss"),
    (b"PAA ", "Palestinian Aramaic", "sam"),
    (b"PAG ", "Pangasinan", "pag"),
    (b"PAL ", "Pali", "pli"),
    (b"PAM ", "Pampangan", "pam"),
    (b"PAN ", "Punjabi", "pan"),
    (b"PAP ", "Palpa", "plp"),
    (b"PAP0", "Papiamentu", "pap"),
    (b"PAS ", "Pashto", "pus"),
    (b"PAU ", "Palauan", "pau"),
    (b"PCC ", "Bouyei", "pcc"),
    (b"PCD ", "Picard", "pcd"),
    (b"PDC ", "Pennsylvania German", "pdc"),
    (b"PGR ", "Polytonic Greek", "ell"),
    (b"PHK ", "Phake", "phk"),
    (b"PIH ", "Norfolk", "pih"),
    (b"PIL ", "Filipino", "fil"),
    (b"PLG ", "Palaung", "pce, rbb, pll"),
    (b"PLK ", "Polish", "pol"),
    (b"PMS ", "Piemontese", "pms"),
    (b"PNB ", "Western Panjabi", "pnb"),
    (b"POH ", "Pocomchi", "poh"),
    (b"PON ", "Pohnpeian", "pon"),
    (b"PRO ", "Provencal", "pro"),
    (b"PTG ", "Portuguese", "por"),
    (b"PWO ", "Western Pwo Karen", "pwo"),
    (b"QIN ", "Chin", "bgr, cnh, cnw, czt, sez, tcp, csy, ctd, flm, pck, tcz, zom, \
                                  cmr, dao, hlt, cka, cnk, mrh, mwg, cbl, cnb, csh"),
    (b"QUC ", "K’iche’", "quc"),
    (b"QUH ", "Quechua (Bolivia)", "quh"),
    (b"QUZ ", "Quechua", "quz"),
    (b"QVI ", "Quechua (Ecuador)", "qvi"),
    (b"QWH ", "Quechua (Peru)", "qwh"),
    (b"RAJ ", "Rajasthani", "raj"),
    (b"RAR ", "Rarotongan", "rar"),
    (b"RBU ", "Russian Buriat", "bxr"),
    (b"RCR ", "R-Cree", "atj"),
    (b"REJ ", "Rejang", "rej"),
    (b"RIA ", "Riang", "ria"),
    (b"RIF ", "Tarifit", "rif"),
    (b"RIT ", "Ritarungo", "rit"),
    (b"RKW ", "Arakwal", "rkw"),
    (b"RMS ", "Romansh", "roh"),
    (b"RMY ", "Vlax Romani", "rmy"),
    (b"ROM ", "Romanian", "ron"),
    (b"ROY ", "Romany", "rom"),
    (b"RSY ", "Rusyn", "rue"),
    (b"RTM ", "Rotuman", "rtm"),
    (b"RUA ", "Kinyarwanda", "kin"),
    (b"RUN ", "Rundi", "run"),
    (b"RUP ", "Aromanian", "rup"),
    (b"RUS ", "Russian", "rus"),
    (b"SAD ", "Sadri", "sck"),
    (b"SAN ", "Sanskrit", "san"),
    (b"SAS ", "Sasak", "sas"),
    (b"SAT ", "Santali", "sat"),
    (b"SAY ", "Sayisi", "chp"),
    (b"SCN ", "Sicilian", "scn"),
    (b"SCO ", "Scots", "sco"),
    (b"SEK ", "Sekota", "xan"),
    (b"SEL ", "Selkup", "sel"),
    (b"SGA ", "Old Irish", "sga"),
    (b"SGO ", "Sango", "sag"),
    (b"SGS ", "Samogitian", "sgs"),
    (b"SHI ", "Tachelhit", "shi"),
    (b"SHN ", "Shan", "shn"),
    (b"SIB ", "Sibe", "sjo"),
    (b"SID ", "Sidamo", "sid"),
    (b"SIG ", "Silte Gurage", "xst"),
    (b"SKS ", "Skolt Sami", "sms"),
    (b"SKY ", "Slovak", "slk"),
    (b"SCS ", "North Slavey", "scs"),
    (b"SLA ", "Slavey", "scs, xsl"),
    (b"SLV ", "Slovenian", "slv"),
    (b"SML ", "Somali", "som"),
    (b"SMO ", "Samoan", "smo"),
    (b"SNA ", "Sena", "seh"),
    (b"SNA0", "Shona", "sna"),
    (b"SND ", "Sindhi", "snd"),
    (b"SNH ", "Sinhala (Sinhalese)", "sin"),
    (b"SNK ", "Soninke", "snk"),
    (b"SOG ", "Sodo Gurage", "gru"),
    (b"SOP ", "Songe", "sop"),
    (b"SOT ", "Sotho, Southern", "sot"),
    (b"SQI ", "Albanian", "sqi"),
    (b"SRB ", "Serbian", "srp"),
    (b"SRD ", "Sardinian", "srd"),
    (b"SRK ", "Saraiki", "skr"),
    (b"SRR ", "Serer", "srr"),
    (b"SSL ", "South Slavey", "xsl"),
    (b"SSM ", "Southern Sami", "sma"),
    (b"STQ ", "Saterland Frisian", "stq"),
    (b"SUK ", "Sukuma", "suk"),
    (b"SUN ", "Sundanese", "sun"),
    (b"SUR ", "Suri", "suq"),
    (b"SVA ", "Svan", "sva"),
    (b"SVE ", "Swedish", "swe"),
    (b"SWA ", "Swadaya Aramaic", "aii"),
    (b"SWK ", "Swahili", "swa"),
    (b"SWZ ", "Swati", "ssw"),
    (b"SXT ", "Sutu", "ngo"),
    (b"SXU ", "Upper Saxon", "sxu"),
    (b"SYL ", "Sylheti", "syl"),
    (b"SYR ", "Syriac", "syr"),
    (b"SZL ", "Silesian", "szl"),
    (b"TAB ", "Tabasaran", "tab"),
    (b"TAJ ", "Tajiki", "tgk"),
    (b"TAM ", "Tamil", "tam"),
    (b"TAT ", "Tatar", "tat"),
    (b"TCR ", "TH-Cree", "cwd"),
    (b"TDD ", "Dehong Dai", "tdd"),
    (b"TEL ", "Telugu", "tel"),
    (b"TET ", "Tetum", "tet"),
    (b"TGL ", "Tagalog", "tgl"),
    (b"TGN ", "Tongan", "ton"),
    (b"TGR ", "Tigre", "tig"),
    (b"TGY ", "Tigrinya", "tir"),
    (b"THA ", "Thai", "tha"),
    (b"THT ", "Tahitian", "tah"),
    (b"TIB ", "Tibetan", "bod"),
    (b"TIV ", "Tiv", "tiv"),
    (b"TKM ", "Turkmen", "tuk"),
    (b"TMH ", "Tamashek", "tmh"),
    (b"TMN ", "Temne", "tem"),
    (b"TNA ", "Tswana", "tsn"),
    (b"TNE ", "Tundra Nenets", "enh"),
    (b"TNG ", "Tonga", "toi"),
    (b"TOD ", "Todo", "xal"),
    (b"TOD0", "Toma", "tod"),
    (b"TPI ", "Tok Pisin", "tpi"),
    (b"TRK ", "Turkish", "tur"),
    (b"TSG ", "Tsonga", "tso"),
    (b"TUA ", "Turoyo Aramaic", "tru"),
    (b"TUM ", "Tumbuka", "tum"),
    (b"TUL ", "Tulu", "tcy"),
    (b"TUV ", "Tuvin", "tyv"),
    (b"TVL ", "Tuvalu", "tvl"),
    (b"TWI ", "Twi", "aka"),
    (b"TYZ ", "Tày", "tyz"),
    (b"TZM ", "Tamazight", "tzm"),
    (b"TZO ", "Tzotzil", "tzo"),
    (b"UDM ", "Udmurt", "udm"),
    (b"UKR ", "Ukrainian", "ukr"),
    (b"UMB ", "Umbundu", "umb"),
    (b"URD ", "Urdu", "urd"),
    (b"USB ", "Upper Sorbian", "hsb"),
    (b"UYG ", "Uyghur", "uig"),
    (b"UZB ", "Uzbek", "uzb"),
    (b"VEC ", "Venetian", "vec"),
    (b"VEN ", "Venda", "ven"),
    (b"VIT ", "Vietnamese", "vie"),
    (b"VOL ", "Volapük", "vol"),
    (b"VRO ", "Võro", "vro"),
    (b"WA  ", "Wa", "wbm"),
    (b"WAG ", "Wagdi", "wbr"),
    (b"WAR ", "Waray-Waray", "war"),
    (b"WCR ", "West-Cree", "crk"),
    (b"WEL ", "Welsh", "cym"),
    (b"WLN ", "Walloon", "wln"),
    (b"WLF ", "Wolof", "wol"),
    (b"WTM ", "Mewati", "wtm"),
    (b"XBD ", "Lü", "khb"),
    (b"XHS ", "Xhosa", "xho"),
    (b"XJB ", "Minjangbal", "xjb"),
    (b"XOG ", "Soga", "xog"),
    (b"XPE ", "Kpelle (Liberia)", "xpe"),
    (b"YAK ", "Sakha", "sah"),
    (b"YAO ", "Yao", "yao"),
    (b"YAP ", "Yapese", "yap"),
    (b"YBA ", "Yoruba", "yor"),
    (b"YCR ", "Y-Cree", "cre"),
    (b"YIC ", "Yi Classic", ""),
    (b"YIM ", "Yi Modern", "iii"),
    (b"ZEA ", "Zealandic", "zea"),
    (b"ZGH ", "Standard Morrocan Tamazigh", "zgh"),
    (b"ZHA ", "Zhuang", "zha"),
    (b"ZHH ", "Chinese, Hong Kong SAR", "zho"),
    (b"ZHP ", "Chinese Phonetic", "zho"),
    (b"ZHS ", "Chinese Simplified", "zho"),
    (b"ZHT ", "Chinese Traditional", "zho"),
    (b"ZND ", "Zande", "zne"),
    (b"ZUL ", "Zulu", "zul"),
    (b"ZZA ", "Zazaki", "zza"),
];

/// The feature tags.
pub const FEATURES: &[(&[u8; 4], &str, &str)] = &[
    (b"aalt", "Access All Alternates", ""),
    (b"abvf", "Above-base Forms", ""),
    (b"abvm", "Above-base Mark Positioning", ""),
    (b"abvs", "Above-base Substitutions", ""),
    (b"afrc", "Alternative Fractions", ""),
    (b"akhn", "Akhand", ""),
    (b"blwf", "Below-base Forms", ""),
    (b"blwm", "Below-base Mark Positioning", ""),
    (b"blws", "Below-base Substitutions", ""),
    (b"calt", "Contextual Alternates", ""),
    (b"case", "Case-sensitive Forms", ""),
    (b"ccmp", "Glyph Composition and Decomposition", ""),
    (b"cfar", "Conjunct Form After Ro", ""),
    (b"chws", "Contextual Half-width Spacing", ""),
    (b"cjct", "Conjunct Forms", ""),
    (b"clig", "Contextual Ligatures", ""),
    (b"cpct", "Centered CJK Punctuation", ""),
    (b"cpsp", "Capital Spacing", ""),
    (b"cswh", "Contextual Swash", ""),
    (b"curs", "Cursive Positioning", ""),
    (b"cv01", "Character Variants 1", ""),
    (b"cv02", "Character Variants 2", ""),
    (b"cv03", "Character Variants 3", ""),
    (b"cv04", "Character Variants 4", ""),
    (b"cv05", "Character Variants 5", ""),
    (b"cv06", "Character Variants 6", ""),
    (b"cv07", "Character Variants 7", ""),
    (b"cv08", "Character Variants 8", ""),
    (b"cv09", "Character Variants 9", ""),
    (b"cv10", "Character Variants 10", ""),
    (b"cv11", "Character Variants 11", ""),
    (b"cv12", "Character Variants 12", ""),
    (b"cv13", "Character Variants 13", ""),
    (b"cv14", "Character Variants 14", ""),
    (b"cv15", "Character Variants 15", ""),
    (b"cv16", "Character Variants 16", ""),
    (b"cv17", "Character Variants 17", ""),
    (b"cv18", "Character Variants 18", ""),
    (b"cv19", "Character Variants 19", ""),
    (b"cv20", "Character Variants 20", ""),
    (b"cv21", "Character Variants 21", ""),
    (b"cv22", "Character Variants 22", ""),
    (b"cv23", "Character Variants 23", ""),
    (b"cv24", "Character Variants 24", ""),
    (b"cv25", "Character Variants 25", ""),
    (b"cv26", "Character Variants 26", ""),
    (b"cv27", "Character Variants 27", ""),
    (b"cv28", "Character Variants 28", ""),
    (b"cv29", "Character Variants 29", ""),
    (b"cv30", "Character Variants 30", ""),
    (b"cv31", "Character Variants 31", ""),
    (b"cv32", "Character Variants 32", ""),
    (b"cv33", "Character Variants 33", ""),
    (b"cv34", "Character Variants 34", ""),
    (b"cv35", "Character Variants 35", ""),
    (b"cv36", "Character Variants 36", ""),
    (b"cv37", "Character Variants 37", ""),
    (b"cv38", "Character Variants 38", ""),
    (b"cv39", "Character Variants 39", ""),
    (b"cv40", "Character Variants 40", ""),
    (b"cv41", "Character Variants 41", ""),
    (b"cv42", "Character Variants 42", ""),
    (b"cv43", "Character Variants 43", ""),
    (b"cv44", "Character Variants 44", ""),
    (b"cv45", "Character Variants 45", ""),
    (b"cv46", "Character Variants 46", ""),
    (b"cv47", "Character Variants 47", ""),
    (b"cv48", "Character Variants 48", ""),
    (b"cv49", "Character Variants 49", ""),
    (b"cv50", "Character Variants 50", ""),
    (b"cv51", "Character Variants 51", ""),
    (b"cv52", "Character Variants 52", ""),
    (b"cv53", "Character Variants 53", ""),
    (b"cv54", "Character Variants 54", ""),
    (b"cv55", "Character Variants 55", ""),
    (b"cv56", "Character Variants 56", ""),
    (b"cv57", "Character Variants 57", ""),
    (b"cv58", "Character Variants 58", ""),
    (b"cv59", "Character Variants 59", ""),
    (b"cv60", "Character Variants 60", ""),
    (b"cv61", "Character Variants 61", ""),
    (b"cv62", "Character Variants 62", ""),
    (b"cv63", "Character Variants 63", ""),
    (b"cv64", "Character Variants 64", ""),
    (b"cv65", "Character Variants 65", ""),
    (b"cv66", "Character Variants 66", ""),
    (b"cv67", "Character Variants 67", ""),
    (b"cv68", "Character Variants 68", ""),
    (b"cv69", "Character Variants 69", ""),
    (b"cv70", "Character Variants 70", ""),
    (b"cv71", "Character Variants 71", ""),
    (b"cv72", "Character Variants 72", ""),
    (b"cv73", "Character Variants 73", ""),
    (b"cv74", "Character Variants 74", ""),
    (b"cv75", "Character Variants 75", ""),
    (b"cv76", "Character Variants 76", ""),
    (b"cv77", "Character Variants 77", ""),
    (b"cv78", "Character Variants 78", ""),
    (b"cv79", "Character Variants 79", ""),
    (b"cv80", "Character Variants 80", ""),
    (b"cv81", "Character Variants 81", ""),
    (b"cv82", "Character Variants 82", ""),
    (b"cv83", "Character Variants 83", ""),
    (b"cv84", "Character Variants 84", ""),
    (b"cv85", "Character Variants 85", ""),
    (b"cv86", "Character Variants 86", ""),
    (b"cv87", "Character Variants 87", ""),
    (b"cv88", "Character Variants 88", ""),
    (b"cv89", "Character Variants 89", ""),
    (b"cv90", "Character Variants 90", ""),
    (b"cv91", "Character Variants 91", ""),
    (b"cv92", "Character Variants 92", ""),
    (b"cv93", "Character Variants 93", ""),
    (b"cv94", "Character Variants 94", ""),
    (b"cv95", "Character Variants 95", ""),
    (b"cv96", "Character Variants 96", ""),
    (b"cv97", "Character Variants 97", ""),
    (b"cv98", "Character Variants 98", ""),
    (b"cv99", "Character Variants 99", ""),
    (b"c2pc", "Petite Capitals from Capitals", ""),
    (b"c2sc", "Small Capitals from Capitals", ""),
    (b"dist", "Distances", ""),
    (b"dlig", "Discretionary Ligatures", ""),
    (b"dnom", "Denominators", ""),
    (b"dtls", "Dotless Forms", ""),
    (b"expt", "Expert Forms", ""),
    (b"falt", "Final Glyph on Line Alternates", ""),
    (b"fin2", "Terminal Forms 2", ""),
    (b"fin3", "Terminal Forms 3", ""),
    (b"fina", "Terminal Forms 1", ""),
    (b"flac", "Flattened Accent Forms", ""),
    (b"frac", "Fractions", ""),
    (b"fwid", "Full Widths", ""),
    (b"half", "Half Forms", ""),
    (b"haln", "Halant Forms", ""),
    (b"halt", "Alternate Half Widths", ""),
    (b"hist", "Historical Forms", ""),
    (b"hkna", "Horizontal Kana Alternates", ""),
    (b"hlig", "Historical Ligatures", ""),
    (b"hngl", "Hangul", ""),
    (b"hojo", "Hojo Kanji Forms", ""),
    (b"hwid", "Half Widths", ""),
    (b"init", "Initial Forms", ""),
    (b"isol", "Isolated Forms", ""),
    (b"ital", "Italics", ""),
    (b"jalt", "Justification Alternates", ""),
    (b"jp78", "JIS78 Forms", ""),
    (b"jp83", "JIS83 Forms", ""),
    (b"jp90", "JIS90 Forms", ""),
    (b"jp04", "JIS2004 Forms", ""),
    (b"kern", "Kerning", ""),
    (b"lfbd", "Left Bounds", ""),
    (b"liga", "Standard Ligatures", ""),
    (b"ljmo", "Leading Jamo Forms", ""),
    (b"lnum", "Lining Figures", ""),
    (b"locl", "Localized Forms", ""),
    (b"ltra", "Left-to-right Alternates", ""),
    (b"ltrm", "Left-to-right Mirrored Forms", ""),
    (b"mark", "Mark Positioning", ""),
    (b"med2", "Medial Forms 2", ""),
    (b"medi", "Medial Forms 1", ""),
    (b"mgrk", "Mathematical Greek", ""),
    (b"mkmk", "Mark-to-mark Positioning", ""),
    (b"mset", "Mark Positioning via Substitution", ""),
    (b"nalt", "Alternate Annotation Forms", ""),
    (b"nlck", "NLC Kanji Forms", ""),
    (b"nukt", "Nukta Forms", ""),
    (b"numr", "Numerators", ""),
    (b"onum", "Oldstyle Figures", ""),
    (b"opbd", "Optical Bounds", ""),
    (b"ordn", "Ordinals", ""),
    (b"ornm", "Ornaments", ""),
    (b"palt", "Proportional Alternate Widths", ""),
    (b"pcap", "Petite Capitals", ""),
    (b"pkna", "Proportional Kana", ""),
    (b"pnum", "Proportional Figures", ""),
    (b"pref", "Pre-base Forms", ""),
    (b"pres", "Pre-base Substitutions", ""),
    (b"pstf", "Post-base Forms", ""),
    (b"psts", "Post-base Substitutions", ""),
    (b"pwid", "Proportional Widths", ""),
    (b"qwid", "Quarter Widths", ""),
    (b"rand", "Randomize", ""),
    (b"rclt", "Required Contextual Alternates", ""),
    (b"rkrf", "Rakar Forms", ""),
    (b"rlig", "Required Ligatures", ""),
    (b"rphf", "Reph Forms", ""),
    (b"rtbd", "Right Bounds", ""),
    (b"rtla", "Right-to-left Alternates", ""),
    (b"rtlm", "Right-to-left Mirrored Forms", ""),
    (b"ruby", "Ruby Notation Forms", ""),
    (b"rvrn", "Required Variation Alternates", ""),
    (b"salt", "Stylistic Alternates", ""),
    (b"sinf", "Scientific Inferiors", ""),
    (b"size", "Optical Size", ""),
    (b"smcp", "Small Capitals", ""),
    (b"smpl", "Simplified Forms", ""),
    (b"ss01", "Stylistic Set 1", ""),
    (b"ss02", "Stylistic Set 2", ""),
    (b"ss03", "Stylistic Set 3", ""),
    (b"ss04", "Stylistic Set 4", ""),
    (b"ss05", "Stylistic Set 5", ""),
    (b"ss06", "Stylistic Set 6", ""),
    (b"ss07", "Stylistic Set 7", ""),
    (b"ss08", "Stylistic Set 8", ""),
    (b"ss09", "Stylistic Set 9", ""),
    (b"ss10", "Stylistic Set 10", ""),
    (b"ss11", "Stylistic Set 11", ""),
    (b"ss12", "Stylistic Set 12", ""),
    (b"ss13", "Stylistic Set 13", ""),
    (b"ss14", "Stylistic Set 14", ""),
    (b"ss15", "Stylistic Set 15", ""),
    (b"ss16", "Stylistic Set 16", ""),
    (b"ss17", "Stylistic Set 17", ""),
    (b"ss18", "Stylistic Set 18", ""),
    (b"ss19", "Stylistic Set 19", ""),
    (b"ss20", "Stylistic Set 20", ""),
    (b"ssty", "Math Script Style Alternates", ""),
    (b"stch", "Stretching Glyph Decomposition", ""),
    (b"subs", "Subscript", ""),
    (b"sups", "Superscript", ""),
    (b"swsh", "Swash", ""),
    (b"titl", "Titling", ""),
    (b"tjmo", "Trailing Jamo Forms", ""),
    (b"tnam", "Traditional Name Forms", ""),
    (b"tnum", "Tabular Figures", ""),
    (b"trad", "Traditional Forms", ""),
    (b"twid", "Third Widths", ""),
    (b"unic", "Unicase", ""),
    (b"valt", "Alternate Vertical Metrics", ""),
    (b"vatu", "Vattu Variants", ""),
    (b"vchw", "Vertical Contextual Half-width Spacing", ""),
    (b"vert", "Vertical Writing", ""),
    (b"vhal", "Alternate Vertical Half Metrics", ""),
    (b"vjmo", "Vowel Jamo Forms", ""),
    (b"vkna", "Vertical Kana Alternates", ""),
    (b"vkrn", "Vertical Kerning", ""),
    (b"vpal", "Proportional Alternate Vertical Metrics", ""),
    (b"vrt2", "Vertical Alternates and Rotation", ""),
    (b"vrtr", "Vertical Alternates for Rotation", ""),
    (b"zero", "Slashed Zero", ""),
];
