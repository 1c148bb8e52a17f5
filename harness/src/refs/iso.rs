// Reference data: ISO 3166 (alpha-2, alpha-3, numeric), ISO 4217 (code, number, minor digits; compared with the JDK tables), ISO 10383.
use RustQuant_instruments::fx::currency as c;
use RustQuant_iso as i;
use RustQuant_iso::ISO_10383;
use RustQuant_instruments::fx::currency::Currency;
pub const COUNTRIES: &str = "AF AFG 004 AX ALA 248 AL ALB 008 DZ DZA 012 AS ASM 016 AD AND 020 AO AGO 024 AI AIA 660 AQ ATA 010 AG ATG 028 AR ARG 032 AM ARM 051 AW ABW 533 AU AUS 036 AT AUT 040 AZ AZE 031 BS BHS 044 BH BHR 048 BD BGD 050 BB BRB 052 BY BLR 112 BE BEL 056 BZ BLZ 084 BJ BEN 204 BM BMU 060 BT BTN 064 BO BOL 068 BQ BES 535 BA BIH 070 BW BWA 072 BV BVT 074 BR BRA 076 IO IOT 086 BN BRN 096 BG BGR 100 BF BFA 854 BI BDI 108 CV CPV 132 KH KHM 116 CM CMR 120 CA CAN 124 KY CYM 136 CF CAF 140 TD TCD 148 CL CHL 152 CN CHN 156 CX CXR 162 CC CCK 166 CO COL 170 KM COM 174 CG COG 178 CD COD 180 CK COK 184 CR CRI 188 CI CIV 384 HR HRV 191 CU CUB 192 CW CUW 531 CY CYP 196 CZ CZE 203 DK DNK 208 DJ DJI 262 DM DMA 212 DO DOM 214 EC ECU 218 EG EGY 818 SV SLV 222 GQ GNQ 226 ER ERI 232 EE EST 233 SZ SWZ 748 ET ETH 231 FK FLK 238 FO FRO 234 FJ FJI 242 FI FIN 246 FR FRA 250 GF GUF 254 PF PYF 258 TF ATF 260 GA GAB 266 GM GMB 270 GE GEO 268 DE DEU 276 GH GHA 288 GI GIB 292 GR GRC 300 GL GRL 304 GD GRD 308 GP GLP 312 GU GUM 316 GT GTM 320 GG GGY 831 GN GIN 324 GW GNB 624 GY GUY 328 HT HTI 332 HM HMD 334 VA VAT 336 HN HND 340 HK HKG 344 HU HUN 348 IS ISL 352 IN IND 356 ID IDN 360 IR IRN 364 IQ IRQ 368 IE IRL 372 IM IMN 833 IL ISR 376 IT ITA 380 JM JAM 388 JP JPN 392 JE JEY 832 JO JOR 400 KZ KAZ 398 KE KEN 404 KI KIR 296 KP PRK 408 KR KOR 410 KW KWT 414 KG KGZ 417 LA LAO 418 LV LVA 428 LB LBN 422 LS LSO 426 LR LBR 430 LY LBY 434 LI LIE 438 LT LTU 440 LU LUX 442 MO MAC 446 MG MDG 450 MW MWI 454 MY MYS 458 MV MDV 462 ML MLI 466 MT MLT 470 MH MHL 584 MQ MTQ 474 MR MRT 478 MU MUS 480 YT MYT 175 MX MEX 484 FM FSM 583 MD MDA 498 MC MCO 492 MN MNG 496 ME MNE 499 MS MSR 500 MA MAR 504 MZ MOZ 508 MM MMR 104 NA NAM 516 NR NRU 520 NP NPL 524 NL NLD 528 NC NCL 540 NZ NZL 554 NI NIC 558 NE NER 562 NG NGA 566 NU NIU 570 NF NFK 574 MK MKD 807 MP MNP 580 NO NOR 578 OM OMN 512 PK PAK 586 PW PLW 585 PS PSE 275 PA PAN 591 PG PNG 598 PY PRY 600 PE PER 604 PH PHL 608 PN PCN 612 PL POL 616 PT PRT 620 PR PRI 630 QA QAT 634 RE REU 638 RO ROU 642 RU RUS 643 RW RWA 646 BL BLM 652 SH SHN 654 KN KNA 659 LC LCA 662 MF MAF 663 PM SPM 666 VC VCT 670 WS WSM 882 SM SMR 674 ST STP 678 SA SAU 682 SN SEN 686 RS SRB 688 SC SYC 690 SL SLE 694 SG SGP 702 SX SXM 534 SK SVK 703 SI SVN 705 SB SLB 090 SO SOM 706 ZA ZAF 710 GS SGS 239 SS SSD 728 ES ESP 724 LK LKA 144 SD SDN 729 SR SUR 740 SJ SJM 744 SE SWE 752 CH CHE 756 SY SYR 760 TW TWN 158 TJ TJK 762 TZ TZA 834 TH THA 764 TL TLS 626 TG TGO 768 TK TKL 772 TO TON 776 TT TTO 780 TN TUN 788 TR TUR 792 TM TKM 795 TC TCA 796 TV TUV 798 UG UGA 800 UA UKR 804 AE ARE 784 GB GBR 826 US USA 840 UM UMI 581 UY URY 858 UZ UZB 860 VU VUT 548 VE VEN 862 VN VNM 704 VG VGB 092 VI VIR 850 WF WLF 876 EH ESH 732 YE YEM 887 ZM ZMB 894 ZW ZWE 716";
pub const COUNTRY_CONSTS: &[(&str, i::ISO_3166)] = &[("AF", i::AFGHANISTAN), ("AX", i::ÅLAND_ISLANDS), ("AL", i::ALBANIA), ("DZ", i::ALGERIA), ("AS", i::AMERICAN_SAMOA), ("AD", i::ANDORRA), ("AO", i::ANGOLA), ("AI", i::ANGUILLA), ("AQ", i::ANTARCTICA), ("AG", i::ANTIGUA_AND_BARBUDA), ("AR", i::ARGENTINA), ("AM", i::ARMENIA), ("AW", i::ARUBA), ("AU", i::AUSTRALIA), ("AT", i::AUSTRIA), ("AZ", i::AZERBAIJAN), ("BS", i::BAHAMAS), ("BH", i::BAHRAIN), ("BD", i::BANGLADESH), ("BB", i::BARBADOS), ("BY", i::BELARUS), ("BE", i::BELGIUM), ("BZ", i::BELIZE), ("BJ", i::BENIN), ("BM", i::BERMUDA), ("BT", i::BHUTAN), ("BO", i::BOLIVIA), ("BQ", i::BONAIRE_SINT_EUSTATIUS_AND_SABA), ("BA", i::BOSNIA_AND_HERZEGOVINA), ("BW", i::BOTSWANA), ("BV", i::BOUVET_ISLAND), ("BR", i::BRAZIL), ("IO", i::BRITISH_INDIAN_OCEAN_TERRITORY), ("BN", i::BRUNEI_DARUSSALAM), ("BG", i::BULGARIA), ("BF", i::BURKINA_FASO), ("BI", i::BURUNDI), ("CV", i::CABO_VERDE), ("KH", i::CAMBODIA), ("CM", i::CAMEROON), ("CA", i::CANADA), ("KY", i::CAYMAN_ISLANDS), ("CF", i::CENTRAL_AFRICAN_REPUBLIC), ("TD", i::CHAD), ("CL", i::CHILE), ("CN", i::CHINA), ("CX", i::CHRISTMANS_ISLAND), ("CC", i::COCOS_ISLANDS), ("CO", i::COLOMBIA), ("KM", i::COMOROS), ("CG", i::CONGO), ("CD", i::CONGO_DEMOCRATIC_REPUBLIC), ("CK", i::COOK_ISLANDS), ("CR", i::COSTA_RICA), ("CI", i::CÔTE_DIVOIRE), ("HR", i::CROATIA), ("CU", i::CUBA), ("CW", i::CURAÇAO), ("CY", i::CYPRUS), ("CZ", i::CZECH_REPUBLIC), ("DK", i::DENMARK), ("DJ", i::DJIBOUTI), ("DM", i::DOMINICA), ("DO", i::DOMINICAN_REPUBLIC), ("EC", i::ECUADOR), ("EG", i::EGYPT), ("SV", i::EL_SALVADOR), ("GQ", i::EQUATORIAL_GUINEA), ("ER", i::ERITREA), ("EE", i::ESTONIA), ("SZ", i::ESWATINI), ("ET", i::ETHIOPIA), ("FK", i::FALKLAND_ISLANDS), ("FO", i::FAROE_ISLANDS), ("FJ", i::FIJI), ("FI", i::FINLAND), ("FR", i::FRANCE), ("GF", i::FRENCH_GUINEA), ("PF", i::FRENCH_POLYNESIA), ("TF", i::FRENCH_SOUTHERN_TERRITORIES), ("GA", i::GABON), ("GM", i::GAMBIA), ("GE", i::GEORGIA), ("DE", i::GERMANY), ("GH", i::GHANA), ("GI", i::GIBRALTAR), ("GR", i::GREECE), ("GL", i::GREENLAND), ("GD", i::GRENADA), ("GP", i::GUADELOUPE), ("GU", i::GUAM), ("GT", i::GUATEMALA), ("GG", i::GUERNSEY), ("GN", i::GUINEA), ("GW", i::GUINEA_BISSAU), ("GY", i::GUYANA), ("HT", i::HAITI), ("HM", i::HEARD_ISLAND_AND_MCDONALD_ISLANDS), ("VA", i::HOLY_SEE), ("HN", i::HONDURAS), ("HK", i::HONG_KONG), ("HU", i::HUNGARY), ("IS", i::ICELAND), ("IN", i::INDIA), ("ID", i::INDONESIA), ("IR", i::IRAN), ("IQ", i::IRAQ), ("IE", i::IRELAND), ("IM", i::ISLE_OF_MAN), ("IL", i::ISRAEL), ("IT", i::ITALY), ("JM", i::JAMAICA), ("JP", i::JAPAN), ("JE", i::JERSEY), ("JO", i::JORDAN), ("KZ", i::KAZAKHSTAN), ("KE", i::KENYA), ("KI", i::KIRIBATI), ("KP", i::KOREA_DEMOCRATIC_PEOPLE_REPUBLIC), ("KR", i::KOREA_REPUBLIC), ("KW", i::KUWAIT), ("KG", i::KYRGYZSTAN), ("LA", i::LAO_PEOPLE_DEMOCRATIC_REPUBLIC), ("LV", i::LATVIA), ("LB", i::LEBANON), ("LS", i::LESOTHO), ("LR", i::LIBERIA), ("LY", i::LIBYA), ("LI", i::LIECHTENSTEIN), ("LT", i::LITHUANIA), ("LU", i::LUXEMBOURG), ("MO", i::MACAO), ("MG", i::MADAGASCAR), ("MW", i::MALAWI), ("MY", i::MALAYSIA), ("MV", i::MALDIVES), ("ML", i::MALI), ("MT", i::MALTA), ("MH", i::MARSHALL_ISLANDS), ("MQ", i::MARTINIQUE), ("MR", i::MAURITANIA), ("MU", i::MAURITIUS), ("YT", i::MAYOTTE), ("MX", i::MEXICO), ("FM", i::MICRONESIA), ("MD", i::MOLDOVA), ("MC", i::MONACO), ("MN", i::MONGOLIA), ("ME", i::MONTENEGRO), ("MS", i::MONTSERRAT), ("MA", i::MOROCCO), ("MZ", i::MOZAMBIQUE), ("MM", i::MYANMAR), ("NA", i::NAMIBIA), ("NR", i::NAURU), ("NP", i::NEPAL), ("NL", i::NETHERLANDS), ("NC", i::NEW_CALEDONIA), ("NZ", i::NEW_ZEALAND), ("NI", i::NICARAGUA), ("NE", i::NIGER), ("NG", i::NIGERIA), ("NU", i::NIUE), ("NF", i::NORFOLK_ISLAND), ("MK", i::NORTH_MACEDONIA), ("MP", i::NORTHERN_MARIANA_ISLANDS), ("NO", i::NORWAY), ("OM", i::OMAN), ("PK", i::PAKISTAN), ("PW", i::PALAU), ("PS", i::PALESTINE), ("PA", i::PANAMA), ("PG", i::PAPUA_NEW_GUINEA), ("PY", i::PARAGUAY), ("PE", i::PERU), ("PH", i::PHILIPPINES), ("PN", i::PITCAIRN), ("PL", i::POLAND), ("PT", i::PORTUGAL), ("PR", i::PUERTO_RICO), ("QA", i::QATAR), ("RE", i::RÉUNION), ("RO", i::ROMANIA), ("RU", i::RUSSIAN_FEDERATION), ("RW", i::RWANDA), ("BL", i::SAINT_BARTHELEMY), ("SH", i::SAINT_HELENA_ASCENSION_AND_TRISTAN_DA_CUNHA), ("KN", i::SAINT_KITTS_AND_NEVIS), ("LC", i::SAINT_LUCIA), ("MF", i::SAINT_MARTIN), ("PM", i::SAINT_PIERRE_AND_MIQUELON), ("VC", i::SAINT_VINCENT_AND_THE_GRENADINES), ("WS", i::SAMOA), ("SM", i::SAN_MARINO), ("ST", i::SAO_TOME_AND_PRINCIPE), ("SA", i::SAUDI_ARABIA), ("SN", i::SENEGAL), ("RS", i::SERBIA), ("SC", i::SEYCHELLES), ("SL", i::SIERRA_LEONE), ("SG", i::SINGAPORE), ("SX", i::SINT_MAARTEN), ("SK", i::SLOVAKIA), ("SI", i::SLOVENIA), ("SB", i::SOLOMON_ISLANDS), ("SO", i::SOMALIA), ("ZA", i::SOUTH_AFRICA), ("GS", i::SOUTH_GEORGIA_AND_THE_SOUTH_SANDWICH_ISLANDS), ("SS", i::SOUTH_SUDAN), ("ES", i::SPAIN), ("LK", i::SRI_LANKA), ("SD", i::SUDAN), ("SR", i::SURINAME), ("SJ", i::SVALBARD_AND_JAN_MAYEN), ("SE", i::SWEDEN), ("CH", i::SWITZERLAND), ("SY", i::SYRIAN_ARAB_REPUBLIC), ("TW", i::TAIWAN), ("TJ", i::TAJIKISTAN), ("TZ", i::TANZANIA), ("TH", i::THAILAND), ("TL", i::TIMOR_LESTE), ("TG", i::TOGO), ("TK", i::TOKELAU), ("TO", i::TONGA), ("TT", i::TRINIDAD_AND_TOBAGO), ("TN", i::TUNISIA), ("TR", i::TURKEY), ("TM", i::TURKMENISTAN), ("TC", i::TURKS_AND_CAICOS_ISLANDS), ("TV", i::TUVALU), ("UG", i::UGANDA), ("UA", i::UKRAINE), ("AE", i::UNITED_ARAB_EMIRATES), ("GB", i::UNITED_KINGDOM_OF_GREAT_BRITAIN_AND_NORTHERN_IRELAND), ("US", i::UNITED_STATES_OF_AMERICA), ("UM", i::UNITED_STATES_MINOR_OUTLYING_ISLANDS), ("UY", i::URUGUAY), ("UZ", i::UZBEKISTAN), ("VU", i::VANUATU), ("VE", i::VENEZUELA), ("VN", i::VIETNAM), ("VG", i::VIRGIN_ISLANDS_BRITISH), ("VI", i::VIRGIN_ISLANDS_US), ("WF", i::WALLIS_AND_FUTUNA), ("EH", i::WESTERN_SAHARA), ("YE", i::YEMEN), ("ZM", i::ZAMBIA), ("ZW", i::ZIMBABWE)];
pub const CURRENCIES: &[(&str, &str, usize, Currency)] = &[("AED", "784", 2, c::AED), ("AFN", "971", 2, c::AFN), ("ALL", "008", 2, c::ALL), ("AMD", "051", 2, c::AMD), ("ANG", "532", 2, c::ANG), ("AOA", "973", 2, c::AOA), ("ARS", "032", 2, c::ARS), ("AUD", "036", 2, c::AUD), ("AWG", "533", 2, c::AWG), ("AZN", "944", 2, c::AZN), ("BAM", "977", 2, c::BAM), ("BBD", "052", 2, c::BBD), ("BDT", "050", 2, c::BDT), ("BGN", "975", 2, c::BGN), ("BHD", "048", 3, c::BHD), ("BIF", "108", 0, c::BIF), ("BMD", "060", 2, c::BMD), ("BND", "096", 2, c::BND), ("BOB", "068", 2, c::BOB), ("BRL", "986", 2, c::BRL), ("BSD", "044", 2, c::BSD), ("BTN", "064", 2, c::BTN), ("BWP", "072", 2, c::BWP), ("BYN", "933", 2, c::BYN), ("BZD", "084", 2, c::BZD), ("CAD", "124", 2, c::CAD), ("CDF", "976", 2, c::CDF), ("CHF", "756", 2, c::CHF), ("CLP", "152", 0, c::CLP), ("COP", "170", 2, c::COP), ("CRC", "188", 2, c::CRC), ("CUC", "931", 2, c::CUC), ("CUP", "192", 2, c::CUP), ("CVE", "132", 2, c::CVE), ("CZK", "203", 2, c::CZK), ("DJF", "262", 0, c::DJF), ("DKK", "208", 2, c::DKK), ("DOP", "214", 2, c::DOP), ("DZD", "012", 2, c::DZD), ("EGP", "818", 2, c::EGP), ("ERN", "232", 2, c::ERN), ("ETB", "230", 2, c::ETB), ("EUR", "978", 2, c::EUR), ("FJD", "242", 2, c::FJD), ("FKP", "238", 2, c::FKP), ("GBP", "826", 2, c::GBP), ("GEL", "981", 2, c::GEL), ("GHS", "936", 2, c::GHS), ("GIP", "292", 2, c::GIP), ("GMD", "270", 2, c::GMD), ("GNF", "324", 0, c::GNF), ("GTQ", "320", 2, c::GTQ), ("GYD", "328", 2, c::GYD), ("HKD", "344", 2, c::HKD), ("HNL", "340", 2, c::HNL), ("HRK", "191", 2, c::HRK), ("HTG", "332", 2, c::HTG), ("HUF", "348", 2, c::HUF), ("IDR", "360", 2, c::IDR), ("ILS", "376", 2, c::ILS), ("INR", "356", 2, c::INR), ("IQD", "368", 3, c::IQD), ("IRR", "364", 2, c::IRR), ("ISK", "352", 0, c::ISK), ("JMD", "388", 2, c::JMD), ("JOD", "400", 3, c::JOD), ("JPY", "392", 0, c::JPY), ("KES", "404", 2, c::KES), ("KGS", "417", 2, c::KGS), ("KHR", "116", 2, c::KHR), ("KMF", "174", 0, c::KMF), ("KPW", "408", 2, c::KPW), ("KRW", "410", 0, c::KRW), ("KWD", "414", 3, c::KWD), ("KYD", "136", 2, c::KYD), ("KZT", "398", 2, c::KZT), ("LAK", "418", 2, c::LAK), ("LBP", "422", 2, c::LBP), ("LKR", "144", 2, c::LKR), ("LRD", "430", 2, c::LRD), ("LSL", "426", 2, c::LSL), ("LYD", "434", 3, c::LYD), ("MAD", "504", 2, c::MAD), ("MDL", "498", 2, c::MDL), ("MGA", "969", 2, c::MGA), ("MKD", "807", 2, c::MKD), ("MMK", "104", 2, c::MMK), ("MNT", "496", 2, c::MNT), ("MOP", "446", 2, c::MOP), ("MRO", "478", 2, c::MRO), ("MUR", "480", 2, c::MUR), ("MVR", "462", 2, c::MVR), ("MWK", "454", 2, c::MWK), ("MXN", "484", 2, c::MXN), ("MYR", "458", 2, c::MYR), ("MZN", "943", 2, c::MZN), ("NAD", "516", 2, c::NAD), ("NGN", "566", 2, c::NGN), ("NIO", "558", 2, c::NIO), ("NOK", "578", 2, c::NOK), ("NPR", "524", 2, c::NPR), ("NZD", "554", 2, c::NZD), ("OMR", "512", 3, c::OMR), ("PAB", "590", 2, c::PAB), ("PEN", "604", 2, c::PEN), ("PGK", "598", 2, c::PGK), ("PHP", "608", 2, c::PHP), ("PKR", "586", 2, c::PKR), ("PLN", "985", 2, c::PLN), ("PYG", "600", 0, c::PYG), ("QAR", "634", 2, c::QAR), ("RON", "946", 2, c::RON), ("RSD", "941", 2, c::RSD), ("CNY", "156", 2, c::CNY), ("RUB", "643", 2, c::RUB), ("RWF", "646", 0, c::RWF), ("SAR", "682", 2, c::SAR), ("SBD", "090", 2, c::SBD), ("SCR", "690", 2, c::SCR), ("SDG", "938", 2, c::SDG), ("SEK", "752", 2, c::SEK), ("SGD", "702", 2, c::SGD), ("SHP", "654", 2, c::SHP), ("SLE", "925", 2, c::SLE), ("SLL", "694", 2, c::SLL), ("SOS", "706", 2, c::SOS), ("SRD", "968", 2, c::SRD), ("SSP", "728", 2, c::SSP), ("STN", "930", 2, c::STN), ("SVC", "222", 2, c::SVC), ("SYP", "760", 2, c::SYP), ("SZL", "748", 2, c::SZL), ("THB", "764", 2, c::THB), ("TJS", "972", 2, c::TJS), ("TMT", "934", 2, c::TMT), ("TND", "788", 3, c::TND), ("TOP", "776", 2, c::TOP), ("TRY", "949", 2, c::TRY), ("TTD", "780", 2, c::TTD), ("TWD", "901", 2, c::TWD), ("TZS", "834", 2, c::TZS), ("UAH", "980", 2, c::UAH), ("UGX", "800", 0, c::UGX), ("USD", "840", 2, c::USD), ("UYU", "858", 2, c::UYU), ("UZS", "860", 2, c::UZS), ("VES", "928", 2, c::VES), ("VND", "704", 0, c::VND), ("VUV", "548", 0, c::VUV), ("WST", "882", 2, c::WST), ("XAF", "950", 0, c::XAF), ("XCD", "951", 2, c::XCD), ("XOF", "952", 0, c::XOF), ("XPF", "953", 0, c::XPF), ("YER", "886", 2, c::YER), ("ZAR", "710", 2, c::ZAR), ("ZMW", "967", 2, c::ZMW), ("ZWL", "932", 2, c::ZWL)];
/// name, operating MIC, country, is a segment, status, constant
pub const MICS: &[(&str, &str, &str, bool, char, ISO_10383)] = &[
("DRSP", "DRSP", "GB", false, 'A', i::DRSP),
("XCNQ", "XCNQ", "CA", false, 'A', i::XCNQ),
("PURE", "XCNQ", "CA", true, 'A', i::PURE),
("ZODM", "ZODM", "GB", false, 'A', i::ZODM),
("FNFX", "BGCF", "US", true, 'A', i::FNFX),
("NORX", "NORX", "NO", false, 'A', i::NORX),
("POSE", "POSE", "ES", false, 'A', i::POSE),
("PUND", "PUND", "US", false, 'A', i::PUND),
("UCBG", "UCBG", "BG", false, 'A', i::UCBG),
("NZFX", "XASX", "AU", true, 'A', i::NZFX),
("XOCH", "XOCH", "US", false, 'E', i::XOCH),
("BBLX", "BBLX", "SG", false, 'A', i::BBLX),
("BACR", "BAIP", "HK", true, 'A', i::BACR),
("SPBE", "SPBE", "RU", false, 'A', i::SPBE),
("OTCM", "OTCM", "US", false, 'A', i::OTCM),
("STUF", "XSTU", "DE", true, 'A', i::STUF),
("XSTP", "XSTU", "DE", true, 'A', i::XSTP),
("STUE", "XSTU", "DE", true, 'A', i::STUE),
("FREX", "FREX", "US", false, 'A', i::FREX),
("HCER", "HMTF", "IT", true, 'A', i::HCER),
("IDXM", "IDXM", "US", false, 'A', i::IDXM),
("MBCP", "MBCP", "PT", false, 'A', i::MBCP),
("GMBG", "MBUL", "BG", true, 'A', i::GMBG),
("OCEA", "OCEA", "US", false, 'A', i::OCEA),
("OSDS", "OSDS", "HK", false, 'A', i::OSDS),
("OSSG", "OSSG", "SG", false, 'A', i::OSSG),
("RR4G", "RR4G", "NL", false, 'A', i::RR4G),
("TRUK", "TRUK", "GB", false, 'A', i::TRUK),
("UGEN", "UGEN", "GB", false, 'A', i::UGEN),
("XGLO", "XWAR", "PL", true, 'A', i::XGLO),
("WIND", "XWAR", "PL", true, 'A', i::WIND),
("CNOD", "CNOD", "SG", false, 'A', i::CNOD),
("BGLU", "BGLU", "LU", false, 'A', i::BGLU),
("FNIX", "GFAM", "US", true, 'A', i::FNIX),
("LATG", "GFAM", "US", true, 'A', i::LATG),
("GFAM", "GFAM", "US", false, 'A', i::GFAM),
("TMCY", "TMCY", "CY", false, 'A', i::TMCY),
("UBEC", "UBEC", "US", false, 'A', i::UBEC),
("ENSL", "ESLO", "FR", true, 'A', i::ENSL),
("ESLO", "ESLO", "FR", false, 'A', i::ESLO),
("IOTF", "IOTF", "GB", false, 'A', i::IOTF),
("SEBA", "SEBA", "DE", false, 'A', i::SEBA),
("UBIM", "UBIM", "IT", false, 'E', i::UBIM),
("XUBS", "XUBS", "GB", false, 'E', i::XUBS),
("XUMP", "XUBS", "GB", true, 'E', i::XUMP),
("AMLG", "AMLG", "US", false, 'E', i::AMLG),
("BRED", "BRED", "FR", false, 'A', i::BRED),
("DBMO", "DBAG", "DE", true, 'A', i::DBMO),
("DBLN", "DBAG", "DE", true, 'A', i::DBLN),
("DBIX", "DBIX", "GB", false, 'E', i::DBIX),
("RUSX", "RUSX", "RU", false, 'A', i::RUSX),
("UNGB", "UNGB", "GB", false, 'A', i::UNGB),
("XLQC", "XLQC", "AU", false, 'A', i::XLQC),
("XMOS", "XMOS", "RU", false, 'A', i::XMOS),
("ABXX", "VMEX", "AE", true, 'A', i::ABXX),
("CFIC", "CFIC", "GB", false, 'A', i::CFIC),
("HBFR", "HBFR", "FR", false, 'A', i::HBFR),
("KLSH", "KLSH", "US", false, 'A', i::KLSH),
("MUDX", "MUDX", "JP", false, 'A', i::MUDX),
("TRAX", "TRAX", "GB", false, 'A', i::TRAX),
("TRNL", "TRNL", "NL", false, 'A', i::TRNL),
("XPET", "XPET", "RU", false, 'A', i::XPET),
("LEVL", "LEVL", "US", false, 'A', i::LEVL),
("EBXV", "LEVL", "US", true, 'A', i::EBXV),
("FXRS", "RMTF", "IE", true, 'A', i::FXRS),
("FXPS", "THRE", "US", true, 'A', i::FXPS),
("XBIS", "XBAB", "BB", true, 'A', i::XBIS),
("STRM", "STRM", "US", false, 'A', i::STRM),
("ABNC", "ABNC", "NL", false, 'A', i::ABNC),
("BNPC", "BNPC", "US", false, 'A', i::BNPC),
("PBGR", "PBGR", "GR", false, 'A', i::PBGR),
("SIDX", "SIDX", "IE", false, 'A', i::SIDX),
("SIFX", "SIFX", "GB", false, 'A', i::SIFX),
("TEUR", "TEUR", "ES", false, 'A', i::TEUR),
("TPEE", "TPIC", "FR", true, 'A', i::TPEE),
("AILT", "AILT", "IE", false, 'A', i::AILT),
("ARAX", "ARAX", "GB", false, 'A', i::ARAX),
("CGXS", "CGXS", "US", false, 'A', i::CGXS),
("EQOC", "EQOS", "SG", true, 'A', i::EQOC),
("EQOD", "EQOS", "SG", true, 'A', i::EQOD),
("AQED", "AQEU", "FR", true, 'A', i::AQED),
("EIXE", "AQXE", "GB", true, 'A', i::EIXE),
("HPCS", "HPCX", "FR", true, 'A', i::HPCS),
("MIDC", "MIDC", "AE", false, 'A', i::MIDC),
("RABL", "RABL", "GB", false, 'A', i::RABL),
("RMMS", "RMMS", "ZA", false, 'A', i::RMMS),
("RMMX", "RMMS", "ZA", true, 'A', i::RMMX),
("NOCO", "XSTO", "SE", true, 'E', i::NOCO),
("MABX", "BMEX", "ES", true, 'A', i::MABX),
("CECA", "CECA", "ES", false, 'A', i::CECA),
("DBDC", "DBIX", "GB", true, 'E', i::DBDC),
("DBSE", "DBIX", "GB", true, 'E', i::DBSE),
("DBCX", "DBIX", "GB", true, 'E', i::DBCX),
("DBCR", "DBIX", "GB", true, 'E', i::DBCR),
("HPCO", "HPCX", "FR", true, 'A', i::HPCO),
("ICOR", "ICOT", "FR", true, 'A', i::ICOR),
("JNSI", "JNSI", "NL", false, 'A', i::JNSI),
("TPER", "TPEU", "FR", true, 'A', i::TPER),
("XSDX", "XSWX", "CH", true, 'A', i::XSDX),
("XSWX", "XSWX", "CH", false, 'A', i::XSWX),
("XDLP", "XSWX", "CH", true, 'A', i::XDLP),
("XSWM", "XSWX", "CH", true, 'A', i::XSWM),
("XSLS", "XSWX", "CH", true, 'E', i::XSLS),
("XSEB", "XSWX", "CH", true, 'A', i::XSEB),
("XBTR", "XSWX", "CH", true, 'A', i::XBTR),
("XVTX", "XSWX", "CH", true, 'E', i::XVTX),
("XQOD", "XSWX", "CH", true, 'A', i::XQOD),
("XQMH", "XSWX", "CH", true, 'A', i::XQMH),
("BNPX", "BNPX", "JP", false, 'A', i::BNPX),
("BTRL", "BTRL", "RO", false, 'A', i::BTRL),
("NTUK", "NTUK", "GB", false, 'A', i::NTUK),
("EQOS", "EQOS", "SG", false, 'A', i::EQOS),
("LMNR", "LMNR", "EE", false, 'A', i::LMNR),
("CEDX", "CCRM", "NL", true, 'A', i::CEDX),
("EQCA", "EQCA", "CA", false, 'A', i::EQCA),
("EQUS", "EQUS", "US", false, 'A', i::EQUS),
("EVOL", "EVOL", "GB", false, 'A', i::EVOL),
("STEE", "NORX", "NO", true, 'E', i::STEE),
("BULK", "NORX", "NO", true, 'E', i::BULK),
("RBCC", "RBCC", "FR", false, 'A', i::RBCC),
("BEBG", "BEBG", "BG", false, 'A', i::BEBG),
("CBKS", "CBKA", "DE", true, 'A', i::CBKS),
("XTXD", "XTXD", "US", false, 'A', i::XTXD),
("SSWM", "SSWM", "DE", false, 'E', i::SSWM),
("XOAS", "XOSL", "NO", true, 'A', i::XOAS),
("XOSL", "XOSL", "NO", false, 'A', i::XOSL),
("SGA2", "SGAS", "US", true, 'A', i::SGA2),
("EWRM", "TMEX", "TR", true, 'A', i::EWRM),
("MERK", "XOSL", "NO", true, 'A', i::MERK),
("XOBD", "XOSL", "NO", true, 'A', i::XOBD),
("BSAB", "BSAB", "ES", false, 'A', i::BSAB),
("BSPL", "BSPL", "GB", false, 'A', i::BSPL),
("BSTX", "BSTX", "US", false, 'A', i::BSTX),
("XNOM", "XNOM", "LI", false, 'A', i::XNOM),
("BBOK", "BARX", "US", true, 'A', i::BBOK),
("BLFX", "BLBB", "DE", true, 'A', i::BLFX),
("OLBB", "OLBB", "DE", false, 'A', i::OLBB),
("SGMU", "SGMU", "FR", false, 'A', i::SGMU),
("AFEX", "AFEX", "MU", false, 'A', i::AFEX),
("BNPL", "BNPL", "GB", false, 'U', i::BNPL),
("CAPL", "CAPL", "PL", false, 'A', i::CAPL),
("CCMX", "CCMX", "US", false, 'A', i::CCMX),
("ONEC", "CGMI", "US", true, 'A', i::ONEC),
("MBSI", "MSBI", "GB", true, 'A', i::MBSI),
("MSBI", "MSBI", "GB", false, 'A', i::MSBI),
("SGMV", "SGMU", "FR", true, 'A', i::SGMV),
("SGMW", "SGMU", "FR", true, 'A', i::SGMW),
("T212", "T212", "BG", false, 'A', i::T212),
("TMEX", "TMEX", "TR", false, 'A', i::TMEX),
("XCBO", "XCBO", "US", false, 'A', i::XCBO),
("CONE", "XCBO", "US", true, 'E', i::CONE),
("CTWO", "XCBO", "US", true, 'E', i::CTWO),
("C2OX", "XCBO", "US", true, 'A', i::C2OX),
("PEPQ", "PEPW", "SE", true, 'A', i::PEPQ),
("PEPY", "PEPW", "SE", true, 'A', i::PEPY),
("PEPH", "PEPW", "SE", true, 'A', i::PEPH),
("PEPM", "PEPW", "SE", true, 'A', i::PEPM),
("XPOM", "XPOM", "PG", false, 'A', i::XPOM),
("GROW", "BMEX", "ES", true, 'A', i::GROW),
("CLST", "CLST", "US", false, 'A', i::CLST),
("LLAT", "LLAT", "AT", false, 'A', i::LLAT),
("EPRD", "MIHI", "US", true, 'A', i::EPRD),
("GSPL", "GSAL", "HK", true, 'A', i::GSPL),
("IMMH", "IMMH", "IT", false, 'A', i::IMMH),
("AQSE", "AQSE", "GB", false, 'A', i::AQSE),
("ENMS", "ENMS", "SG", false, 'A', i::ENMS),
("FAST", "FAST", "US", false, 'A', i::FAST),
("TLCM", "ICOT", "FR", true, 'A', i::TLCM),
("ILCM", "IOTF", "GB", true, 'A', i::ILCM),
("LELE", "LELE", "GB", false, 'A', i::LELE),
("MCXX", "MCXX", "IN", false, 'A', i::MCXX),
("MEMD", "MEMX", "US", true, 'A', i::MEMD),
("EBSO", "NEXS", "GB", true, 'A', i::EBSO),
("PEPW", "PEPW", "SE", false, 'A', i::PEPW),
("WFLB", "WFLB", "GB", false, 'A', i::WFLB),
("WFSE", "WFSE", "FR", false, 'E', i::WFSE),
("VNDM", "WSAG", "US", true, 'A', i::VNDM),
("WABR", "WSAG", "US", true, 'A', i::WABR),
("XSCA", "XSES", "SG", true, 'A', i::XSCA),
("TMCC", "IFUS", "US", true, 'A', i::TMCC),
("EDBT", "XDUB", "IE", true, 'A', i::EDBT),
("EDGL", "XDUB", "IE", true, 'A', i::EDGL),
("ETLX", "XMIL", "IT", true, 'A', i::ETLX),
("BASP", "BAIP", "HK", true, 'A', i::BASP),
("BTEQ", "BTEC", "US", true, 'A', i::BTEQ),
("EQSE", "EQIE", "IE", true, 'A', i::EQSE),
("VABD", "IFUS", "US", true, 'A', i::VABD),
("IMCC", "IFUS", "US", true, 'A', i::IMCC),
("NBFL", "NBFL", "GB", false, 'A', i::NBFL),
("NEXT", "NEXX", "GB", true, 'E', i::NEXT),
("NEXN", "NEXX", "GB", true, 'E', i::NEXN),
("NEXF", "NEXX", "GB", true, 'E', i::NEXF),
("NEXX", "NEXX", "GB", false, 'E', i::NEXX),
("NEXG", "NEXX", "GB", true, 'E', i::NEXG),
("NEXL", "NEXX", "GB", true, 'E', i::NEXL),
("NEXD", "NEXX", "GB", true, 'E', i::NEXD),
("XNDX", "XNGM", "SE", true, 'E', i::XNDX),
("XNMR", "XNGM", "SE", true, 'E', i::XNMR),
("MAXD", "MAXD", "GB", false, 'A', i::MAXD),
("BTBS", "BTBS", "SG", false, 'A', i::BTBS),
("AXSI", "AXSI", "FI", false, 'E', i::AXSI),
("SKBB", "SKBB", "SI", false, 'A', i::SKBB),
("BDSK", "BDSK", "BG", false, 'A', i::BDSK),
("DEXE", "DEXE", "AE", false, 'A', i::DEXE),
("OTPR", "OTPR", "RO", false, 'A', i::OTPR),
("SBIU", "SBIJ", "JP", true, 'A', i::SBIU),
("XSBI", "SBIJ", "JP", true, 'A', i::XSBI),
("SBIV", "SBIJ", "JP", true, 'A', i::SBIV),
("SBIJ", "SBIJ", "JP", false, 'A', i::SBIJ),
("XOTP", "XOTP", "HR", false, 'A', i::XOTP),
("EQSL", "EQLD", "GB", true, 'A', i::EQSL),
("JSER", "XJSE", "ZA", true, 'A', i::JSER),
("XBVM", "XBVM", "MZ", false, 'A', i::XBVM),
("HESP", "HEMO", "GR", true, 'A', i::HESP),
("HEDE", "HEMO", "GR", true, 'A', i::HEDE),
("MAQE", "MAQE", "IE", false, 'A', i::MAQE),
("MEMX", "MEMX", "US", false, 'A', i::MEMX),
("PARK", "PARK", "PL", false, 'A', i::PARK),
("PJCX", "PIPR", "US", true, 'A', i::PJCX),
("PIPR", "PIPR", "US", false, 'A', i::PIPR),
("SKYX", "SKYX", "GB", false, 'A', i::SKYX),
("CIMA", "CIMD", "ES", true, 'A', i::CIMA),
("GLOM", "GLOM", "AE", false, 'A', i::GLOM),
("TRAI", "TRAI", "US", false, 'A', i::TRAI),
("XZAM", "XZAG", "HR", true, 'E', i::XZAM),
("CBOE", "CBOE", "CH", false, 'A', i::CBOE),
("CGEE", "CGMD", "DE", true, 'A', i::CGEE),
("CGEC", "CGMD", "DE", true, 'A', i::CGEC),
("CGME", "CGML", "GB", true, 'E', i::CGME),
("CGMC", "CGML", "GB", true, 'A', i::CGMC),
("COHR", "COHR", "US", false, 'A', i::COHR),
("NEXY", "EBSN", "NL", true, 'E', i::NEXY),
("STFU", "STFU", "US", false, 'E', i::STFU),
("STFX", "STFX", "US", false, 'A', i::STFX),
("TRQS", "TRQX", "GB", true, 'E', i::TRQS),
("XICB", "XICB", "CH", false, 'E', i::XICB),
("XLCH", "XLCH", "GB", false, 'A', i::XLCH),
("CLCH", "XLCH", "GB", true, 'A', i::CLCH),
("BUYN", "XLCH", "GB", true, 'A', i::BUYN),
("ATDF", "ATDF", "US", false, 'E', i::ATDF),
("BGHX", "BGHX", "BG", false, 'A', i::BGHX),
("CORE", "CGMI", "US", true, 'E', i::CORE),
("CICX", "CGMI", "US", true, 'E', i::CICX),
("CSAS", "CSAS", "CZ", false, 'A', i::CSAS),
("LTSE", "LTSE", "US", false, 'A', i::LTSE),
("MALM", "MASG", "SG", true, 'E', i::MALM),
("XPSF", "XEEE", "DE", true, 'A', i::XPSF),
("XPOT", "XEEE", "DE", true, 'A', i::XPOT),
("XFEX", "XFEX", "AU", false, 'A', i::XFEX),
("CALH", "CALH", "US", false, 'A', i::CALH),
("OMIP", "OMIP", "PT", false, 'A', i::OMIP),
("XLIS", "XLIS", "PT", false, 'A', i::XLIS),
("CSLP", "CRED", "US", true, 'E', i::CSLP),
("DAUK", "DAUK", "GB", false, 'A', i::DAUK),
("BSLB", "BSLB", "GB", false, 'A', i::BSLB),
("CFIL", "CFIL", "IE", false, 'A', i::CFIL),
("CGMU", "CGML", "GB", true, 'A', i::CGMU),
("CSCL", "CRED", "US", true, 'A', i::CSCL),
("CSVW", "CRED", "US", true, 'A', i::CSVW),
("RBCM", "RBCM", "GB", false, 'A', i::RBCM),
("THRE", "THRE", "US", false, 'A', i::THRE),
("WEED", "WEED", "US", false, 'E', i::WEED),
("XWEE", "WEED", "US", true, 'E', i::XWEE),
("BKKT", "BKKT", "US", false, 'A', i::BKKT),
("UKRE", "ICPM", "GB", true, 'A', i::UKRE),
("UKOR", "ICPM", "GB", true, 'A', i::UKOR),
("IUOB", "IOTF", "GB", true, 'A', i::IUOB),
("TUOB", "TPSO", "GB", true, 'A', i::TUOB),
("XPUS", "XPUS", "US", false, 'A', i::XPUS),
("BMLS", "BMLI", "IE", true, 'A', i::BMLS),
("BMLI", "BMLI", "IE", false, 'A', i::BMLI),
("BMSI", "BMLX", "IE", true, 'E', i::BMSI),
("BMLX", "BMLX", "IE", false, 'E', i::BMLX),
("SGMZ", "SGMX", "GB", true, 'A', i::SGMZ),
("PFXD", "TRDE", "GB", true, 'A', i::PFXD),
("TRQC", "TRQX", "GB", true, 'A', i::TRQC),
("GSBX", "GSIL", "GB", true, 'E', i::GSBX),
("ITGL", "ITGL", "IE", false, 'A', i::ITGL),
("XAMM", "XAMM", "JO", false, 'A', i::XAMM),
("AMNL", "XAMM", "JO", true, 'A', i::AMNL),
("BETA", "XBUD", "HU", true, 'A', i::BETA),
("VFGB", "VFGB", "GB", false, 'A', i::VFGB),
("VFUK", "VFUK", "GB", false, 'E', i::VFUK),
("SEBL", "SEBL", "LT", false, 'A', i::SEBL),
("XPOL", "VIUK", "GB", true, 'A', i::XPOL),
("XPAL", "VIUK", "GB", true, 'A', i::XPAL),
("VIUK", "VIUK", "GB", false, 'A', i::VIUK),
("ASPI", "INCR", "US", true, 'A', i::ASPI),
("ASMT", "INCR", "US", true, 'A', i::ASMT),
("ASPN", "INCR", "US", true, 'A', i::ASPN),
("CISD", "XNYS", "US", true, 'A', i::CISD),
("CDSI", "CSDA", "DE", true, 'A', i::CDSI),
("RESF", "EBSN", "NL", true, 'A', i::RESF),
("EBSF", "EBSN", "NL", true, 'A', i::EBSF),
("BBSX", "BBSX", "GB", false, 'A', i::BBSX),
("JLSI", "JLSI", "GB", false, 'E', i::JLSI),
("SCOT", "SCOT", "GB", false, 'A', i::SCOT),
("XDEX", "XSTU", "DE", true, 'A', i::XDEX),
("DOWE", "DOWM", "ES", true, 'A', i::DOWE),
("SPEX", "SPEX", "DE", false, 'A', i::SPEX),
("IFAD", "IFAD", "AE", false, 'A', i::IFAD),
("JLQD", "JLQD", "US", false, 'A', i::JLQD),
("LAMP", "LAMP", "US", false, 'A', i::LAMP),
("RCMA", "RCMA", "US", false, 'A', i::RCMA),
("WOPO", "XWAR", "PL", true, 'E', i::WOPO),
("IEBS", "EBSN", "NL", true, 'A', i::IEBS),
("ERIS", "ERIS", "US", false, 'E', i::ERIS),
("MKTF", "MKTF", "FR", false, 'A', i::MKTF),
("MKAA", "MTXX", "US", true, 'A', i::MKAA),
("XSGB", "XSGB", "GB", false, 'A', i::XSGB),
("YKNA", "YKNA", "US", false, 'A', i::YKNA),
("CGET", "CGMD", "DE", true, 'A', i::CGET),
("CSDA", "CSDA", "DE", false, 'A', i::CSDA),
("DOWM", "DOWM", "ES", false, 'A', i::DOWM),
("GSXC", "GSXC", "CN", false, 'A', i::GSXC),
("GSXK", "GSXK", "KR", false, 'A', i::GSXK),
("GSXT", "GSXT", "TW", false, 'A', i::GSXT),
("VAGM", "VAGM", "GB", false, 'A', i::VAGM),
("XEUB", "XETR", "DE", true, 'E', i::XEUB),
("BMCM", "BMCM", "GB", false, 'A', i::BMCM),
("EWSM", "EWSM", "MT", false, 'E', i::EWSM),
("GXGR", "GXGR", "DK", false, 'E', i::GXGR),
("GXGM", "GXGR", "DK", true, 'E', i::GXGM),
("GXGF", "GXGR", "DK", true, 'E', i::GXGF),
("NSME", "XNGM", "SE", true, 'A', i::NSME),
("ABFI", "ABFI", "GR", false, 'A', i::ABFI),
("BEUP", "CCXE", "NL", true, 'A', i::BEUP),
("BEUF", "CCXE", "NL", true, 'E', i::BEUF),
("CEUD", "CCXE", "NL", true, 'A', i::CEUD),
("BEUD", "CCXE", "NL", true, 'E', i::BEUD),
("CEUX", "CCXE", "NL", true, 'A', i::CEUX),
("CEUO", "CCXE", "NL", true, 'A', i::CEUO),
("BEUE", "CCXE", "NL", true, 'E', i::BEUE),
("DASH", "DASH", "US", false, 'A', i::DASH),
("MISX", "MISX", "RU", false, 'A', i::MISX),
("XBND", "XBUD", "HU", true, 'A', i::XBND),
("BLKX", "XINS", "US", true, 'A', i::BLKX),
("PLPD", "XWAR", "PL", true, 'A', i::PLPD),
("BAJD", "BAJD", "JP", false, 'A', i::BAJD),
("NMSX", "NMRJ", "JP", true, 'A', i::NMSX),
("XLOD", "XLON", "GB", true, 'E', i::XLOD),
("LAFX", "LAVA", "US", true, 'E', i::LAFX),
("NEOE", "NEOE", "CA", false, 'A', i::NEOE),
("NEOD", "NEOE", "CA", true, 'A', i::NEOD),
("NEON", "NEOE", "CA", true, 'A', i::NEON),
("NEOC", "NEOE", "CA", true, 'A', i::NEOC),
("TRPX", "TRPX", "SC", false, 'A', i::TRPX),
("KOME", "KOME", "CZ", false, 'A', i::KOME),
("TRCX", "TRCX", "US", false, 'A', i::TRCX),
("ERBX", "ERBX", "GR", false, 'A', i::ERBX),
("FLTR", "FLWX", "NL", true, 'A', i::FLTR),
("IBER", "IBER", "ES", false, 'A', i::IBER),
("ALLT", "ALLT", "ES", false, 'A', i::ALLT),
("BATE", "BCXE", "GB", true, 'A', i::BATE),
("BATF", "BCXE", "GB", true, 'A', i::BATF),
("BATD", "BCXE", "GB", true, 'A', i::BATD),
("BILU", "BILU", "LU", false, 'A', i::BILU),
("BTQE", "BTAM", "NL", true, 'A', i::BTQE),
("BTQG", "BTEE", "GB", true, 'A', i::BTQG),
("CBSK", "CBSK", "SK", false, 'A', i::CBSK),
("CODA", "CODA", "US", false, 'A', i::CODA),
("PDQX", "PDQX", "US", false, 'E', i::PDQX),
("SMBD", "SMBD", "DE", false, 'A', i::SMBD),
("STFL", "STFL", "GB", false, 'A', i::STFL),
("XALT", "XALT", "GB", false, 'A', i::XALT),
("EBRA", "XBRA", "SK", true, 'A', i::EBRA),
("XCAN", "XBSE", "RO", true, 'A', i::XCAN),
("XRMO", "XRMZ", "CZ", true, 'A', i::XRMO),
("XNCO", "XWAR", "PL", true, 'A', i::XNCO),
("KNMX", "KNIG", "US", true, 'E', i::KNMX),
("SAGE", "SAGE", "US", false, 'A', i::SAGE),
("ARCH", "ARCH", "GB", false, 'A', i::ARCH),
("EXPM", "OTCM", "US", true, 'A', i::EXPM),
("TNLK", "XBRU", "BE", true, 'A', i::TNLK),
("XDRK", "XTSE", "CA", true, 'A', i::XDRK),
("VDRK", "XTSX", "CA", true, 'A', i::VDRK),
("GFPO", "AURB", "FR", true, 'A', i::GFPO),
("JPMS", "JPMS", "US", false, 'A', i::JPMS),
("SNUK", "SNUK", "GB", false, 'A', i::SNUK),
("ARKX", "ARKX", "US", false, 'A', i::ARKX),
("PUMX", "PUMA", "US", true, 'A', i::PUMX),
("SVXI", "SVXI", "VC", false, 'A', i::SVXI),
("VWDA", "VWDX", "DE", true, 'A', i::VWDA),
("XALS", "XALS", "AL", false, 'A', i::XALS),
("BGFU", "BGUK", "GB", true, 'A', i::BGFU),
("CGMG", "CGMG", "GB", false, 'A', i::CGMG),
("PUMA", "PUMA", "US", false, 'A', i::PUMA),
("MCZK", "XMTS", "GB", true, 'E', i::MCZK),
("HUNG", "XMTS", "GB", true, 'E', i::HUNG),
("EMTS", "XMTS", "GB", true, 'E', i::EMTS),
("MTSA", "XMTS", "GB", true, 'E', i::MTSA),
("GMTS", "XMTS", "GB", true, 'E', i::GMTS),
("MTSG", "XMTS", "GB", true, 'E', i::MTSG),
("IMTS", "XMTS", "GB", true, 'E', i::IMTS),
("RMTS", "XMTS", "GB", true, 'E', i::RMTS),
("AMTS", "XMTS", "GB", true, 'E', i::AMTS),
("PORT", "XMTS", "GB", true, 'E', i::PORT),
("SLKK", "XMTS", "GB", true, 'E', i::SLKK),
("VMTS", "XMTS", "GB", true, 'E', i::VMTS),
("SMTS", "XMTS", "GB", true, 'E', i::SMTS),
("EBHU", "EBHU", "HU", false, 'A', i::EBHU),
("EBSI", "EBSN", "NL", true, 'E', i::EBSI),
("RESE", "EBSN", "NL", true, 'E', i::RESE),
("EBSD", "EBSN", "NL", true, 'E', i::EBSD),
("EUSP", "EUCH", "CH", true, 'E', i::EUSP),
("EUCH", "EUCH", "CH", false, 'E', i::EUCH),
("EURM", "EUCH", "CH", true, 'E', i::EURM),
("EUSC", "EUCH", "CH", true, 'E', i::EUSC),
("FNUK", "FNUK", "GB", false, 'A', i::FNUK),
("XMFX", "BMEX", "ES", true, 'A', i::XMFX),
("TRFW", "RTSL", "GB", true, 'A', i::TRFW),
("UCHU", "UCHU", "HU", false, 'A', i::UCHU),
("CBNL", "CBNL", "GB", false, 'A', i::CBNL),
("FTUS", "FTUS", "US", false, 'A', i::FTUS),
("TEEG", "TPSO", "GB", true, 'E', i::TEEG),
("BGUK", "BGUK", "GB", false, 'A', i::BGUK),
("CLVE", "CLVE", "GB", false, 'A', i::CLVE),
("NLAX", "CPGX", "US", true, 'A', i::NLAX),
("CPGX", "CPGX", "US", false, 'A', i::CPGX),
("CEPL", "CEPL", "IE", false, 'A', i::CEPL),
("CEPU", "CEPU", "GB", false, 'A', i::CEPU),
("DBAB", "DBAB", "US", false, 'A', i::DBAB),
("OTCN", "OTCN", "US", false, 'A', i::OTCN),
("RTSL", "RTSL", "GB", false, 'A', i::RTSL),
("TRAL", "RTSL", "GB", true, 'U', i::TRAL),
("TDGF", "TDGF", "IE", false, 'A', i::TDGF),
("UBSB", "UBSB", "GB", false, 'A', i::UBSB),
("UBSD", "UBSD", "DE", false, 'E', i::UBSD),
("UBSE", "UBSL", "GB", true, 'E', i::UBSE),
("UBSI", "UBSL", "DE", true, 'A', i::UBSI),
("UBSL", "UBSL", "DE", false, 'A', i::UBSL),
("WBGF", "XWBO", "AT", true, 'E', i::WBGF),
("XETV", "XETR", "DE", true, 'A', i::XETV),
("XETW", "XETR", "DE", true, 'A', i::XETW),
("XETU", "XETR", "DE", true, 'A', i::XETU),
("FRAV", "XFRA", "DE", true, 'A', i::FRAV),
("FRAW", "XFRA", "DE", true, 'A', i::FRAW),
("FRAU", "XFRA", "DE", true, 'A', i::FRAU),
("BFPT", "BFPT", "PT", false, 'A', i::BFPT),
("CONC", "CONC", "HU", false, 'A', i::CONC),
("IFBX", "IFBX", "IR", false, 'A', i::IFBX),
("IPXW", "IPSX", "GB", true, 'A', i::IPXW),
("ZERO", "SCXO", "US", true, 'A', i::ZERO),
("SCXS", "SCXO", "US", true, 'A', i::SCXS),
("SCXO", "SCXO", "US", false, 'A', i::SCXO),
("SCXM", "SCXO", "US", true, 'A', i::SCXM),
("SYFX", "SYFX", "SG", false, 'A', i::SYFX),
("SSIL", "SSIL", "GB", false, 'A', i::SSIL),
("TPIR", "TPIC", "FR", true, 'A', i::TPIR),
("XCHI", "XNYS", "US", true, 'A', i::XCHI),
("XCIS", "XNYS", "US", true, 'A', i::XCIS),
("MANL", "MANL", "NL", false, 'A', i::MANL),
("CELP", "CSOB", "CZ", true, 'A', i::CELP),
("BETX", "BETX", "GB", false, 'A', i::BETX),
("BTLX", "BTLX", "GB", false, 'A', i::BTLX),
("CCEX", "CCEX", "KZ", false, 'A', i::CCEX),
("ZBUL", "XBUL", "BG", true, 'A', i::ZBUL),
("IMSB", "ICPM", "GB", true, 'A', i::IMSB),
("AQEU", "AQEU", "FR", false, 'A', i::AQEU),
("AQEA", "AQEU", "FR", true, 'A', i::AQEA),
("AQXA", "AQXE", "GB", true, 'A', i::AQXA),
("AQXE", "AQXE", "GB", false, 'A', i::AQXE),
("BKDM", "BKDM", "IE", false, 'A', i::BKDM),
("BNLD", "BNLD", "IT", false, 'A', i::BNLD),
("CAVD", "CAVD", "NL", false, 'A', i::CAVD),
("GIPB", "GIPB", "FR", false, 'A', i::GIPB),
("GSPX", "GIPB", "FR", true, 'A', i::GSPX),
("ICPM", "ICPM", "GB", false, 'A', i::ICPM),
("IMGI", "ICPM", "GB", true, 'A', i::IMGI),
("IMRD", "ICPM", "GB", true, 'A', i::IMRD),
("IMET", "ICPM", "GB", true, 'A', i::IMET),
("IMGB", "ICPM", "GB", true, 'A', i::IMGB),
("IMMM", "ICPM", "GB", true, 'A', i::IMMM),
("IMFD", "ICPM", "GB", true, 'A', i::IMFD),
("IMCE", "ICPM", "GB", true, 'A', i::IMCE),
("IMED", "ICPM", "GB", true, 'A', i::IMED),
("JLEU", "JLEU", "NL", false, 'A', i::JLEU),
("SMFF", "SMFF", "DE", false, 'A', i::SMFF),
("SPTR", "SPTR", "NO", false, 'A', i::SPTR),
("ELXE", "ELXE", "FR", false, 'A', i::ELXE),
("SCAG", "SCAG", "DE", false, 'A', i::SCAG),
("SGAS", "SGAS", "US", false, 'A', i::SGAS),
("SMFE", "SMFE", "US", false, 'A', i::SMFE),
("TRXE", "TRXE", "FR", false, 'A', i::TRXE),
("JBUL", "XBUL", "BG", true, 'A', i::JBUL),
("MHBE", "MHBE", "NL", false, 'A', i::MHBE),
("CSGI", "CSGI", "IE", false, 'A', i::CSGI),
("EUCC", "EUCC", "IE", false, 'A', i::EUCC),
("BLEQ", "BLBB", "DE", true, 'A', i::BLEQ),
("BREA", "BREA", "IT", false, 'A', i::BREA),
("MCAD", "MTSO", "IT", true, 'A', i::MCAD),
("EBMX", "MTSO", "IT", true, 'A', i::EBMX),
("ENXB", "XBRU", "BE", true, 'E', i::ENXB),
("XMSM", "XDUB", "IE", true, 'A', i::XMSM),
("XESM", "XDUB", "IE", true, 'A', i::XESM),
("UKGD", "XMTS", "GB", true, 'A', i::UKGD),
("XTXE", "XTXE", "FR", false, 'A', i::XTXE),
("BLUE", "BLUE", "US", false, 'A', i::BLUE),
("BTAM", "BTAM", "NL", false, 'A', i::BTAM),
("CABV", "CABV", "NL", false, 'A', i::CABV),
("RFBK", "RFBK", "CZ", false, 'A', i::RFBK),
("TOWR", "TOWR", "NL", false, 'A', i::TOWR),
("GBUL", "XBUL", "BG", true, 'A', i::GBUL),
("BPAS", "BPAS", "IT", false, 'E', i::BPAS),
("FLWX", "FLWX", "NL", false, 'A', i::FLWX),
("TNLL", "XLDN", "GB", true, 'E', i::TNLL),
("BLUX", "BLUX", "LU", false, 'A', i::BLUX),
("DBLX", "DBLX", "LU", false, 'A', i::DBLX),
("DHLX", "DHLX", "LU", false, 'A', i::DHLX),
("KHHU", "KHHU", "HU", false, 'A', i::KHHU),
("MCID", "MCID", "IE", false, 'A', i::MCID),
("NCME", "NCME", "DE", false, 'A', i::NCME),
("TRQM", "TRQX", "GB", true, 'A', i::TRQM),
("XBLK", "XPAR", "FR", true, 'A', i::XBLK),
("IPNL", "IPNL", "NL", false, 'E', i::IPNL),
("ISWO", "ISWP", "NL", true, 'A', i::ISWO),
("ISWP", "ISWP", "NL", false, 'A', i::ISWP),
("ISWN", "ISWP", "NL", true, 'A', i::ISWN),
("ISWT", "ISWP", "NL", true, 'A', i::ISWT),
("MSEL", "MSEL", "IE", false, 'A', i::MSEL),
("NCML", "NCML", "GB", false, 'A', i::NCML),
("FXRQ", "RMTF", "IE", true, 'A', i::FXRQ),
("FXFM", "RMTF", "IE", true, 'A', i::FXFM),
("PBUL", "XBUL", "BG", true, 'A', i::PBUL),
("XPUK", "XPUK", "GB", false, 'A', i::XPUK),
("CSAG", "CSAG", "CH", false, 'A', i::CSAG),
("XETF", "XPAR", "FR", true, 'A', i::XETF),
("GSEI", "GSBE", "DE", true, 'A', i::GSEI),
("GSBE", "GSBE", "DE", false, 'A', i::GSBE),
("HREU", "HREU", "IE", false, 'A', i::HREU),
("STSI", "STSI", "GB", false, 'E', i::STSI),
("CREM", "CREM", "IT", false, 'A', i::CREM),
("DWFI", "DWFI", "US", false, 'A', i::DWFI),
("BNPP", "BNPP", "PL", false, 'A', i::BNPP),
("CBKC", "CBKA", "DE", true, 'A', i::CBKC),
("CIBH", "CIBH", "HU", false, 'A', i::CIBH),
("CSMD", "CSMD", "ES", false, 'A', i::CSMD),
("SIMD", "CSMD", "ES", true, 'A', i::SIMD),
("GMES", "GMES", "FR", false, 'A', i::GMES),
("GMEO", "GMES", "FR", true, 'A', i::GMEO),
("KBLC", "KBLL", "LU", true, 'A', i::KBLC),
("KBLS", "KBLL", "LU", true, 'A', i::KBLS),
("KBLT", "KBLL", "LU", true, 'A', i::KBLT),
("KBLL", "KBLL", "LU", false, 'A', i::KBLL),
("MHBP", "MHBP", "FR", false, 'A', i::MHBP),
("MHEU", "MHEU", "DE", false, 'A', i::MHEU),
("UBCZ", "UBCZ", "CZ", false, 'A', i::UBCZ),
("XETS", "XETR", "DE", true, 'A', i::XETS),
("FRAS", "XFRA", "DE", true, 'A', i::FRAS),
("ATLN", "ATLN", "CY", false, 'A', i::ATLN),
("CEUE", "CCXE", "NL", true, 'E', i::CEUE),
("LBCW", "LBCW", "DE", false, 'A', i::LBCW),
("VALX", "VUSA", "US", true, 'A', i::VALX),
("AGBP", "AGBP", "ES", false, 'A', i::AGBP),
("CESI", "CSOB", "CZ", true, 'A', i::CESI),
("EBSN", "EBSN", "NL", false, 'A', i::EBSN),
("ECEU", "ECEU", "NL", false, 'A', i::ECEU),
("TPIO", "TPIC", "FR", true, 'A', i::TPIO),
("TPIC", "TPIC", "FR", false, 'A', i::TPIC),
("XTRD", "XTRD", "US", false, 'A', i::XTRD),
("MLEX", "MLEX", "FR", false, 'A', i::MLEX),
("MLER", "MLEX", "FR", true, 'A', i::MLER),
("MLES", "MLEX", "FR", true, 'A', i::MLES),
("MLIB", "MLIB", "GB", false, 'E', i::MLIB),
("DSME", "XCSE", "DK", true, 'A', i::DSME),
("FSME", "XHEL", "FI", true, 'A', i::FSME),
("XNFI", "XNAS", "US", true, 'A', i::XNFI),
("ESPD", "XNAS", "US", true, 'E', i::ESPD),
("SSME", "XSTO", "SE", true, 'A', i::SSME),
("ATHL", "ATHL", "CY", false, 'A', i::ATHL),
("BCSC", "BCSC", "CY", false, 'A', i::BCSC),
("CFIF", "CFIF", "CY", false, 'A', i::CFIF),
("JESI", "JEFE", "DE", true, 'A', i::JESI),
("JEFE", "JEFE", "DE", false, 'A', i::JEFE),
("MHBL", "MHBL", "GB", false, 'A', i::MHBL),
("NOWX", "NOWX", "FR", false, 'A', i::NOWX),
("PKOP", "PKOP", "PL", false, 'A', i::PKOP),
("VCRS", "VUSA", "US", true, 'A', i::VCRS),
("VUSA", "VUSA", "US", false, 'A', i::VUSA),
("VFMI", "VUSA", "US", true, 'A', i::VFMI),
("ABAN", "ABAN", "ES", false, 'A', i::ABAN),
("BRDS", "BRDE", "RO", true, 'A', i::BRDS),
("EQIE", "EQIE", "IE", false, 'A', i::EQIE),
("EQLD", "EQLD", "GB", false, 'A', i::EQLD),
("GPBC", "GPBC", "CY", false, 'A', i::GPBC),
("RTSX", "MISX", "RU", true, 'A', i::RTSX),
("OHVO", "OHVO", "NL", false, 'A', i::OHVO),
("RBCG", "RBCG", "DE", false, 'A', i::RBCG),
("RMTF", "RMTF", "IE", false, 'A', i::RMTF),
("UCBA", "UCBA", "AT", false, 'A', i::UCBA),
("UCDE", "UCDE", "DE", false, 'A', i::UCDE),
("UCIT", "UCIT", "IT", false, 'A', i::UCIT),
("BRGA", "BRGA", "GB", false, 'A', i::BRGA),
("XNOR", "XNOR", "FI", false, 'A', i::XNOR),
("XNXD", "XNXC", "NL", true, 'A', i::XNXD),
("BCMA", "BCMA", "ES", false, 'A', i::BCMA),
("CSOB", "CSOB", "CZ", false, 'A', i::CSOB),
("ICXR", "ICUR", "IE", true, 'A', i::ICXR),
("ICUR", "ICUR", "IE", false, 'A', i::ICUR),
("IFXC", "IFXC", "IE", false, 'A', i::IFXC),
("IFXA", "IFXC", "IE", true, 'A', i::IFXA),
("IFXR", "IFXC", "IE", true, 'A', i::IFXR),
("MUSN", "MUSN", "NL", false, 'A', i::MUSN),
("SPDX", "SPDX", "GB", false, 'A', i::SPDX),
("MESI", "MSEU", "DE", true, 'A', i::MESI),
("NIBC", "NIBC", "NL", false, 'A', i::NIBC),
("UICE", "UICE", "UA", false, 'A', i::UICE),
("XNDU", "XNDU", "UA", false, 'A', i::XNDU),
("GBWB", "XSTO", "SE", true, 'A', i::GBWB),
("ECSL", "ECSL", "GB", false, 'A', i::ECSL),
("MSCX", "MSAX", "FR", true, 'E', i::MSCX),
("MSAX", "MSAX", "FR", false, 'E', i::MSAX),
("MSNT", "MSAX", "FR", true, 'E', i::MSNT),
("MSEU", "MSEU", "DE", false, 'A', i::MSEU),
("TPIS", "TPIS", "GB", false, 'E', i::TPIS),
("BRDL", "BRDE", "RO", true, 'A', i::BRDL),
("BRDE", "BRDE", "RO", false, 'A', i::BRDE),
("CIBC", "CIBC", "GB", false, 'A', i::CIBC),
("CIBP", "CIBP", "GB", false, 'A', i::CIBP),
("FTFM", "FTFS", "CZ", true, 'A', i::FTFM),
("FTFS", "FTFS", "CZ", false, 'A', i::FTFS),
("CABK", "CABK", "ES", false, 'A', i::CABK),
("BARU", "CCRM", "NL", true, 'A', i::BARU),
("BEUO", "CCRM", "NL", true, 'A', i::BEUO),
("BEUT", "CCRM", "NL", true, 'A', i::BEUT),
("CCRM", "CCRM", "NL", false, 'A', i::CCRM),
("CAPA", "CCXE", "NL", true, 'A', i::CAPA),
("LISZ", "CCXE", "NL", true, 'A', i::LISZ),
("CCXE", "CCXE", "NL", false, 'A', i::CCXE),
("DEKA", "DEKA", "DE", false, 'A', i::DEKA),
("IATS", "IBKR", "US", true, 'A', i::IATS),
("ICOT", "ICOT", "FR", false, 'A', i::ICOT),
("IPXP", "IPSX", "GB", true, 'A', i::IPXP),
("ISSI", "ISSI", "GB", false, 'A', i::ISSI),
("JYSI", "JYSI", "DK", false, 'A', i::JYSI),
("NWNV", "NWNV", "NL", false, 'A', i::NWNV),
("OTPB", "OTPB", "HU", false, 'A', i::OTPB),
("RBHU", "RBHU", "HU", false, 'A', i::RBHU),
("RENC", "RENC", "CY", false, 'A', i::RENC),
("TPEU", "TPEU", "FR", false, 'A', i::TPEU),
("WSIL", "WSIL", "GB", false, 'A', i::WSIL),
("INGW", "INGW", "PL", false, 'A', i::INGW),
("MAKX", "MAKX", "GB", false, 'A', i::MAKX),
("WSIN", "WSIN", "GB", false, 'A', i::WSIN),
("BGFX", "BGSI", "DE", true, 'A', i::BGFX),
("BGFI", "BGSI", "DE", true, 'A', i::BGFI),
("SLHB", "SLHB", "AT", false, 'A', i::SLHB),
("SIBC", "SIBC", "CY", false, 'A', i::SIBC),
("WELN", "WELN", "GB", false, 'A', i::WELN),
("BMLB", "BMLB", "GB", false, 'A', i::BMLB),
("WELX", "WELX", "US", false, 'E', i::WELX),
("XSAT", "XSAT", "SE", false, 'A', i::XSAT),
("BAIP", "BAIP", "HK", false, 'A', i::BAIP),
("BAEP", "BAIP", "HK", true, 'A', i::BAEP),
("DAVY", "DAVY", "IE", false, 'A', i::DAVY),
("IECE", "ICEO", "GB", true, 'E', i::IECE),
("IMCM", "ICPM", "GB", true, 'E', i::IMCM),
("IMCD", "ICPM", "GB", true, 'E', i::IMCD),
("LIGA", "LIGA", "DE", false, 'A', i::LIGA),
("MBPL", "MBPL", "PL", false, 'A', i::MBPL),
("TEMG", "TPEL", "GB", true, 'E', i::TEMG),
("TEOF", "TPEO", "GB", true, 'E', i::TEOF),
("TOMF", "TPES", "ES", true, 'E', i::TOMF),
("TEPG", "TPFR", "FR", true, 'E', i::TEPG),
("TEPX", "TPFR", "FR", true, 'E', i::TEPX),
("TEPR", "TPFR", "FR", true, 'E', i::TEPR),
("TEPM", "TPFR", "FR", true, 'E', i::TEPM),
("TPFR", "TPFR", "FR", false, 'E', i::TPFR),
("TEPI", "TPFR", "FR", true, 'E', i::TEPI),
("TPMF", "TPIS", "GB", true, 'E', i::TPMF),
("TPSY", "TPIS", "GB", true, 'E', i::TPSY),
("TSUK", "TPSL", "GB", true, 'E', i::TSUK),
("TSMC", "TPSL", "GB", true, 'E', i::TSMC),
("TSMG", "TPSL", "GB", true, 'E', i::TSMG),
("TSMI", "TPSL", "GB", true, 'E', i::TSMI),
("TSMB", "TPSL", "GB", true, 'E', i::TSMB),
("WELS", "WELS", "US", false, 'A', i::WELS),
("CBAL", "CBAL", "GB", false, 'A', i::CBAL),
("ICEN", "ICAP", "GB", true, 'E', i::ICEN),
("SCXA", "SCXO", "US", true, 'A', i::SCXA),
("SIAB", "SIAB", "PL", false, 'A', i::SIAB),
("BKSK", "BKSK", "AT", false, 'A', i::BKSK),
("CMCI", "CMCI", "FR", false, 'A', i::CMCI),
("MHBD", "MHBD", "DE", false, 'A', i::MHBD),
("CSOT", "CSAG", "CH", true, 'A', i::CSOT),
("MUSE", "MUSE", "GB", false, 'A', i::MUSE),
("NABU", "NABE", "GB", true, 'E', i::NABU),
("NABE", "NABE", "GB", false, 'E', i::NABE),
("NABA", "NABL", "GB", true, 'A', i::NABA),
("ABNA", "ABNA", "NL", false, 'A', i::ABNA),
("BBIS", "BBIE", "IE", true, 'A', i::BBIS),
("BBIE", "BBIE", "IE", false, 'A', i::BBIE),
("ERST", "ERST", "HU", false, 'A', i::ERST),
("IKBS", "IKBS", "DE", false, 'A', i::IKBS),
("TQEX", "TQEX", "NL", false, 'A', i::TQEX),
("TQEB", "TQEX", "NL", true, 'A', i::TQEB),
("TQEM", "TQEX", "NL", true, 'A', i::TQEM),
("TQEA", "TQEX", "NL", true, 'A', i::TQEA),
("APAW", "APAW", "AT", false, 'A', i::APAW),
("NABL", "NABL", "GB", false, 'A', i::NABL),
("OBKL", "OBKL", "AT", false, 'A', i::OBKL),
("TWJP", "TWJP", "JP", false, 'A', i::TWJP),
("HRTF", "HRTF", "US", false, 'A', i::HRTF),
("SMBB", "SMBB", "BE", false, 'A', i::SMBB),
("CGMD", "CGMD", "DE", false, 'A', i::CGMD),
("EXYY", "EXSY", "FR", true, 'A', i::EXYY),
("EXSF", "EXSY", "FR", true, 'A', i::EXSF),
("EXSP", "EXSY", "FR", true, 'A', i::EXSP),
("EXSD", "EXSY", "FR", true, 'A', i::EXSD),
("EXSB", "EXSY", "FR", true, 'A', i::EXSB),
("EXSH", "EXSY", "FR", true, 'A', i::EXSH),
("HEMO", "HEMO", "GR", false, 'A', i::HEMO),
("IMCT", "IMCT", "NL", false, 'A', i::IMCT),
("METZ", "METZ", "GB", false, 'A', i::METZ),
("MIBL", "MIBL", "LU", false, 'E', i::MIBL),
("MUBL", "MUBL", "GB", false, 'A', i::MUBL),
("MUBM", "MUBM", "IT", false, 'A', i::MUBM),
("MUBP", "MUBP", "FR", false, 'A', i::MUBP),
("RBIV", "RBIV", "AT", false, 'A', i::RBIV),
("SMBG", "SMBG", "GB", false, 'A', i::SMBG),
("TRQB", "TRQX", "GB", true, 'A', i::TRQB),
("MUBE", "MUBE", "NL", false, 'A', i::MUBE),
("JPEU", "JPEU", "DE", false, 'A', i::JPEU),
("SMBE", "SMBE", "GB", false, 'A', i::SMBE),
("SMBP", "SMBP", "FR", false, 'A', i::SMBP),
("LEUE", "LEUE", "IE", false, 'E', i::LEUE),
("LEUF", "LEUE", "IE", true, 'E', i::LEUF),
("HELA", "HELA", "DE", false, 'A', i::HELA),
("NESI", "NESI", "DE", false, 'A', i::NESI),
("BHWA", "BHWA", "PL", false, 'A', i::BHWA),
("FINN", "FINR", "US", true, 'A', i::FINN),
("ISBA", "ISBA", "IT", false, 'A', i::ISBA),
("ISBV", "ISBV", "IT", false, 'E', i::ISBV),
("KBCB", "KBCB", "BE", false, 'A', i::KBCB),
("MAQI", "MAQI", "GB", false, 'A', i::MAQI),
("MAQU", "MAQU", "GB", false, 'A', i::MAQU),
("XFCI", "FICO", "US", true, 'A', i::XFCI),
("XFDA", "FICO", "US", true, 'A', i::XFDA),
("FICO", "FICO", "US", false, 'A', i::FICO),
("LBBW", "LBBW", "DE", false, 'A', i::LBBW),
("LBWL", "LBBW", "DE", true, 'A', i::LBWL),
("LBWS", "LBBW", "DE", true, 'A', i::LBWS),
("NURO", "NURO", "GB", false, 'E', i::NURO),
("XNLX", "NURO", "GB", true, 'E', i::XNLX),
("MTSM", "MTSO", "IT", true, 'E', i::MTSM),
("NURD", "NURO", "GB", true, 'E', i::NURD),
("TEMC", "TPEL", "GB", true, 'E', i::TEMC),
("TPMG", "TPIS", "GB", true, 'E', i::TPMG),
("EDGA", "XCBO", "US", true, 'A', i::EDGA),
("EDGD", "XCBO", "US", true, 'A', i::EDGD),
("EDGO", "XCBO", "US", true, 'A', i::EDGO),
("EDGX", "XCBO", "US", true, 'A', i::EDGX),
("BATS", "XCBO", "US", true, 'A', i::BATS),
("BATY", "XCBO", "US", true, 'A', i::BATY),
("BYXD", "XCBO", "US", true, 'A', i::BYXD),
("BZXD", "XCBO", "US", true, 'A', i::BZXD),
("EDDP", "XCBO", "US", true, 'A', i::EDDP),
("BATO", "XCBO", "US", true, 'A', i::BATO),
("ZFXM", "XJSE", "ZA", true, 'A', i::ZFXM),
("BAPE", "BAPE", "NL", false, 'A', i::BAPE),
("BASE", "BASE", "HK", false, 'A', i::BASE),
("BCEE", "BCEE", "LU", false, 'A', i::BCEE),
("BLIQ", "BLBB", "DE", true, 'A', i::BLIQ),
("BSFX", "BLBB", "DE", true, 'A', i::BSFX),
("BDEA", "BLBB", "DE", true, 'A', i::BDEA),
("BLBS", "BLBB", "DE", true, 'A', i::BLBS),
("BPKO", "BPKO", "PL", false, 'A', i::BPKO),
("BTFE", "BTFE", "NL", false, 'A', i::BTFE),
("HRSI", "HRSI", "GB", false, 'A', i::HRSI),
("R5FX", "R5FX", "GB", false, 'A', i::R5FX),
("SISI", "SISI", "IE", false, 'A', i::SISI),
("BEIS", "BEIS", "IT", false, 'A', i::BEIS),
("BLBB", "BLBB", "DE", false, 'A', i::BLBB),
("BASX", "BASX", "JP", false, 'A', i::BASX),
("HRTX", "HRTX", "US", false, 'A', i::HRTX),
("ICAS", "ICAS", "NO", false, 'E', i::ICAS),
("INCR", "INCR", "US", false, 'A', i::INCR),
("IOFB", "IOTF", "GB", true, 'E', i::IOFB),
("MSRP", "MSCO", "US", true, 'A', i::MSRP),
("OCSI", "OCSI", "GB", false, 'A', i::OCSI),
("EDRF", "EDRF", "FR", false, 'A', i::EDRF),
("BNSX", "BNSX", "CA", false, 'A', i::BNSX),
("EXSE", "EXSE", "FR", false, 'A', i::EXSE),
("MSSI", "MSIP", "GB", true, 'A', i::MSSI),
("TPLF", "TPIS", "GB", true, 'E', i::TPLF),
("MELO", "XNAS", "US", true, 'A', i::MELO),
("AIXK", "AIXK", "KZ", false, 'A', i::AIXK),
("CBLC", "CGMI", "US", true, 'E', i::CBLC),
("CIOI", "CGMI", "US", true, 'E', i::CIOI),
("LBCM", "LBCM", "GB", false, 'A', i::LBCM),
("RLBO", "RLBO", "AT", false, 'A', i::RLBO),
("SBEX", "SBEX", "GB", false, 'A', i::SBEX),
("VTBC", "VTBC", "GB", false, 'A', i::VTBC),
("XEHQ", "XEUP", "DE", true, 'A', i::XEHQ),
("ZARX", "ZARX", "ZA", false, 'A', i::ZARX),
("IPSX", "IPSX", "GB", false, 'A', i::IPSX),
("TPDE", "TPDE", "DE", false, 'E', i::TPDE),
("TSFG", "TPDE", "DE", true, 'E', i::TSFG),
("TSFF", "TPDE", "DE", true, 'E', i::TSFF),
("COMM", "COMM", "NL", false, 'A', i::COMM),
("MOSE", "XSTO", "SE", true, 'A', i::MOSE),
("DOSE", "XSTO", "SE", true, 'A', i::DOSE),
("ATLB", "ATLB", "GB", false, 'A', i::ATLB),
("CCMS", "CCMS", "CH", false, 'A', i::CCMS),
("DAIW", "DAIW", "GB", false, 'A', i::DAIW),
("IBEQ", "IBIS", "IT", true, 'A', i::IBEQ),
("IINX", "IINX", "IN", false, 'A', i::IINX),
("EMLD", "MIHI", "US", true, 'A', i::EMLD),
("OPCO", "OPCO", "FI", false, 'A', i::OPCO),
("TSBX", "TSBX", "US", false, 'E', i::TSBX),
("TMXS", "TMXS", "CA", false, 'E', i::TMXS),
("BELF", "BELB", "BE", true, 'A', i::BELF),
("BELB", "BELB", "BE", false, 'A', i::BELB),
("IMTF", "IMTF", "GB", false, 'A', i::IMTF),
("MAGM", "MAGM", "US", false, 'E', i::MAGM),
("ASXC", "XASX", "AU", true, 'A', i::ASXC),
("CFBC", "XCFE", "CN", true, 'A', i::CFBC),
("BLXA", "BLXA", "AU", false, 'A', i::BLXA),
("GFKS", "GFKS", "SE", false, 'A', i::GFKS),
("SGOE", "SGOE", "FR", false, 'A', i::SGOE),
("UBSA", "UBSA", "US", false, 'A', i::UBSA),
("UBSS", "UBSS", "US", false, 'A', i::UBSS),
("IBIS", "IBIS", "IT", false, 'A', i::IBIS),
("PDQD", "PDQX", "US", true, 'E', i::PDQD),
("TFSD", "TFSD", "HK", false, 'A', i::TFSD),
("TRAS", "TRAS", "HK", false, 'A', i::TRAS),
("TSIG", "TSIG", "SG", false, 'A', i::TSIG),
("UTSL", "UTSL", "JP", false, 'A', i::UTSL),
("SBMF", "BMFX", "RO", true, 'E', i::SBMF),
("BMFM", "BMFX", "RO", true, 'E', i::BMFM),
("BMFA", "BMFX", "RO", true, 'E', i::BMFA),
("BMFX", "BMFX", "RO", false, 'E', i::BMFX),
("CSZH", "CSZH", "CH", false, 'A', i::CSZH),
("STAL", "STAL", "GB", false, 'E', i::STAL),
("JASR", "XIJP", "JP", true, 'E', i::JASR),
("XIJP", "XIJP", "JP", false, 'E', i::XIJP),
("XMCE", "BMEX", "ES", true, 'E', i::XMCE),
("EUWA", "EUWA", "DE", false, 'A', i::EUWA),
("EXSY", "EXSY", "FR", false, 'A', i::EXSY),
("A2XX", "A2XX", "ZA", false, 'A', i::A2XX),
("FXOP", "FXOP", "GB", false, 'A', i::FXOP),
("BOND", "MTSO", "IT", true, 'E', i::BOND),
("TFSG", "TRDE", "GB", true, 'E', i::TFSG),
("TCDS", "TRDE", "GB", true, 'A', i::TCDS),
("TRDE", "TRDE", "GB", false, 'A', i::TRDE),
("NAVE", "TRDE", "GB", true, 'E', i::NAVE),
("ZAPA", "XZAG", "HR", true, 'A', i::ZAPA),
("AKIS", "AKIS", "IT", false, 'A', i::AKIS),
("BPSX", "BPSX", "FR", false, 'A', i::BPSX),
("ISWE", "IGDL", "GB", true, 'A', i::ISWE),
("ISWV", "IGDL", "GB", true, 'A', i::ISWV),
("IGDL", "IGDL", "GB", false, 'A', i::IGDL),
("HPCV", "HPCX", "FR", true, 'A', i::HPCV),
("JSSI", "JSSI", "GB", false, 'A', i::JSSI),
("SEBX", "SEBX", "SE", false, 'E', i::SEBX),
("TWGP", "TWGP", "GB", false, 'A', i::TWGP),
("GMGD", "GMGD", "AE", false, 'A', i::GMGD),
("GMGL", "GMGL", "GB", false, 'A', i::GMGL),
("NPEX", "NPEX", "NL", false, 'A', i::NPEX),
("OAPA", "OAPA", "NO", false, 'A', i::OAPA),
("DDTX", "DDTX", "IT", false, 'A', i::DDTX),
("HPCX", "HPCX", "FR", false, 'A', i::HPCX),
("SB1M", "SB1M", "NO", false, 'A', i::SB1M),
("SEDR", "SEDR", "GB", false, 'E', i::SEDR),
("ANTS", "ANTS", "GB", false, 'A', i::ANTS),
("IENG", "IENG", "PL", false, 'E', i::IENG),
("SGMY", "SGMX", "GB", true, 'A', i::SGMY),
("SGMX", "SGMX", "GB", false, 'A', i::SGMX),
("SSBM", "SSBI", "DE", true, 'A', i::SSBM),
("SSBI", "SSBI", "DE", false, 'A', i::SSBI),
("DBES", "DBAG", "DE", true, 'A', i::DBES),
("DBAG", "DBAG", "DE", false, 'A', i::DBAG),
("MKAP", "MKAP", "CY", false, 'A', i::MKAP),
("GSAL", "GSAL", "HK", false, 'A', i::GSAL),
("GSXH", "GSAL", "HK", true, 'A', i::GSXH),
("SIGH", "GSAL", "HK", true, 'A', i::SIGH),
("SWEE", "SWEE", "EE", false, 'A', i::SWEE),
("SWLT", "SWLT", "LT", false, 'A', i::SWLT),
("SWLV", "SWLV", "LV", false, 'A', i::SWLV),
("TECO", "TPEO", "GB", true, 'A', i::TECO),
("XZAP", "XZAG", "HR", true, 'A', i::XZAP),
("ODDO", "ODDO", "FR", false, 'A', i::ODDO),
("ODOC", "ODOC", "FR", false, 'A', i::ODOC),
("PULX", "PULX", "US", false, 'E', i::PULX),
("SANT", "SANT", "ES", false, 'A', i::SANT),
("UBIN", "UBIN", "GB", false, 'A', i::UBIN),
("CSLB", "CSLB", "GB", false, 'A', i::CSLB),
("JISI", "JISI", "GB", false, 'A', i::JISI),
("JEFS", "JISI", "GB", true, 'A', i::JEFS),
("VTPS", "VWDX", "DE", true, 'A', i::VTPS),
("VWDX", "VWDX", "DE", false, 'A', i::VWDX),
("VTLS", "VWDX", "DE", true, 'A', i::VTLS),
("BAMX", "BAMX", "US", false, 'A', i::BAMX),
("IMCO", "NDEX", "NL", true, 'A', i::IMCO),
("ENSX", "SEBS", "SE", true, 'E', i::ENSX),
("SEBS", "SEBS", "SE", false, 'A', i::SEBS),
("INCA", "XINS", "US", true, 'A', i::INCA),
("SSOB", "MTSO", "IT", true, 'A', i::SSOB),
("XABC", "XABC", "SE", false, 'A', i::XABC),
("GFIC", "GFIC", "GB", false, 'A', i::GFIC),
("KELR", "KELR", "HU", false, 'A', i::KELR),
("MLXN", "MLXN", "GB", false, 'E', i::MLXN),
("MLAX", "MLXN", "GB", true, 'E', i::MLAX),
("XBOX", "XBOX", "US", false, 'A', i::XBOX),
("NORD", "NORD", "DE", false, 'A', i::NORD),
("OTXB", "OTXB", "CH", false, 'A', i::OTXB),
("SEMX", "SEMX", "IE", false, 'A', i::SEMX),
("XAPA", "XPAR", "FR", true, 'A', i::XAPA),
("AACA", "AACA", "FR", false, 'A', i::AACA),
("ABSI", "ABSI", "DK", false, 'A', i::ABSI),
("BINV", "BINV", "DE", false, 'A', i::BINV),
("GLMX", "GLMX", "US", false, 'A', i::GLMX),
("GTXE", "GTXE", "BM", false, 'A', i::GTXE),
("JPCB", "JPCB", "GB", false, 'A', i::JPCB),
("REST", "NEXS", "GB", true, 'A', i::REST),
("NLBX", "NLBX", "DE", false, 'A', i::NLBX),
("XREP", "ROSR", "CH", true, 'A', i::XREP),
("ROSR", "ROSR", "CH", false, 'A', i::ROSR),
("XROT", "ROSR", "CH", true, 'A', i::XROT),
("XLLB", "XLLB", "LI", false, 'A', i::XLLB),
("XVPB", "XVPB", "LI", false, 'A', i::XVPB),
("HBPL", "HBPL", "PL", false, 'A', i::HBPL),
("LMAO", "LMAX", "GB", true, 'U', i::LMAO),
("LMAE", "LMAX", "GB", true, 'U', i::LMAE),
("LMAF", "LMAX", "GB", true, 'A', i::LMAF),
("XABG", "XABG", "NO", false, 'A', i::XABG),
("ALSI", "ALSI", "DK", false, 'A', i::ALSI),
("APCL", "APEX", "SG", true, 'A', i::APCL),
("SBSI", "SBSI", "DK", false, 'A', i::SBSI),
("TDBL", "TDBL", "GB", false, 'A', i::TDBL),
("BNPA", "BNPA", "FR", false, 'A', i::BNPA),
("BNPF", "BNPF", "BE", false, 'A', i::BNPF),
("BNPS", "BNPS", "FR", false, 'A', i::BNPS),
("SEDX", "XMIL", "IT", true, 'A', i::SEDX),
("CMED", "CMEE", "GB", true, 'E', i::CMED),
("ICEO", "ICEO", "GB", false, 'E', i::ICEO),
("IECL", "TPEO", "GB", true, 'A', i::IECL),
("IOFI", "IOTF", "GB", true, 'A', i::IOFI),
("IOFX", "IOTF", "GB", true, 'A', i::IOFX),
("IOGB", "IOTF", "GB", true, 'A', i::IOGB),
("IOCD", "IOTF", "GB", true, 'A', i::IOCD),
("IOED", "IOTF", "GB", true, 'A', i::IOED),
("IOGI", "IOTF", "GB", true, 'A', i::IOGI),
("IOIR", "IOTF", "GB", true, 'A', i::IOIR),
("IOMM", "IOTF", "GB", true, 'A', i::IOMM),
("ISWA", "ISWA", "GB", false, 'A', i::ISWA),
("MDRV", "MIBG", "ES", true, 'A', i::MDRV),
("NWMS", "NWMS", "GB", false, 'A', i::NWMS),
("RBCE", "RBCE", "GB", false, 'A', i::RBCE),
("IIDX", "XINS", "US", true, 'E', i::IIDX),
("IBLX", "XINS", "US", true, 'E', i::IBLX),
("RCBX", "XINS", "US", true, 'E', i::RCBX),
("IFSM", "XMAL", "MT", true, 'A', i::IFSM),
("MTSS", "XMTS", "GB", true, 'E', i::MTSS),
("MTSW", "XMTS", "GB", true, 'E', i::MTSW),
("XSGA", "XSGA", "FR", false, 'A', i::XSGA),
("ANLP", "ANZL", "GB", true, 'A', i::ANLP),
("KBLM", "KBLM", "GB", false, 'A', i::KBLM),
("KOTF", "KOTF", "FR", false, 'A', i::KOTF),
("LASP", "LASP", "DK", false, 'A', i::LASP),
("MACB", "MAQX", "AU", true, 'A', i::MACB),
("TDON", "TDON", "FR", false, 'A', i::TDON),
("TSAF", "TSAF", "FR", false, 'A', i::TSAF),
("UBIS", "UBIS", "IT", false, 'A', i::UBIS),
("BRFQ", "XIEL", "GB", true, 'A', i::BRFQ),
("BNTW", "XIEL", "GB", true, 'A', i::BNTW),
("BLOX", "XIEL", "GB", true, 'A', i::BLOX),
("IOTC", "XIEL", "GB", true, 'A', i::IOTC),
("XIEL", "XIEL", "GB", false, 'A', i::XIEL),
("XOAA", "XOSL", "NO", true, 'A', i::XOAA),
("BASI", "BANA", "GB", true, 'A', i::BASI),
("BANA", "BANA", "GB", false, 'A', i::BANA),
("BOAL", "BANA", "GB", true, 'A', i::BOAL),
("CSEC", "CSEC", "GB", false, 'A', i::CSEC),
("MLSI", "MLIX", "GB", true, 'A', i::MLSI),
("MLIX", "MLIX", "GB", false, 'A', i::MLIX),
("MLRQ", "MLIX", "GB", true, 'A', i::MLRQ),
("SVEX", "SVEX", "SE", false, 'A', i::SVEX),
("SVES", "SVEX", "SE", true, 'A', i::SVES),
("AAPA", "AAPA", "GR", false, 'A', i::AAPA),
("CIMV", "CIMD", "ES", true, 'A', i::CIMV),
("CIMB", "CIMD", "ES", true, 'A', i::CIMB),
("CIME", "CIMD", "ES", true, 'A', i::CIME),
("CIMD", "CIMD", "ES", false, 'A', i::CIMD),
("CURX", "CURX", "US", false, 'U', i::CURX),
("INGE", "INGB", "NL", true, 'A', i::INGE),
("INGF", "INGB", "NL", true, 'A', i::INGF),
("SKSI", "SKSI", "DK", false, 'A', i::SKSI),
("SQUA", "SQUA", "GB", false, 'A', i::SQUA),
("SSBT", "SSBT", "GB", false, 'A', i::SSBT),
("SSFX", "SSBT", "GB", true, 'A', i::SSFX),
("AFSO", "AFSA", "NL", true, 'A', i::AFSO),
("AFSX", "AFSA", "NL", true, 'A', i::AFSX),
("AFSL", "AFSA", "NL", true, 'A', i::AFSL),
("AFSA", "AFSA", "NL", false, 'A', i::AFSA),
("AFSI", "AFSA", "NL", true, 'A', i::AFSI),
("ARIA", "ARIA", "GB", false, 'A', i::ARIA),
("DVFX", "DVFX", "GB", false, 'A', i::DVFX),
("ETPA", "ETPA", "NL", false, 'A', i::ETPA),
("LOUI", "LOUI", "GB", false, 'E', i::LOUI),
("RABO", "RABO", "NL", false, 'A', i::RABO),
("BBVA", "BBVA", "ES", false, 'A', i::BBVA),
("BTNL", "BTNL", "US", false, 'A', i::BTNL),
("CAPI", "CAPI", "ES", false, 'A', i::CAPI),
("XRCB", "XRCB", "AT", false, 'A', i::XRCB),
("APEX", "APEX", "SG", false, 'A', i::APEX),
("XGAT", "TGAT", "DE", true, 'A', i::XGAT),
("TGSI", "TGAT", "DE", true, 'A', i::TGSI),
("TGAT", "TGAT", "DE", false, 'A', i::TGAT),
("XGRM", "TGAT", "DE", true, 'A', i::XGRM),
("CGMT", "CGML", "GB", true, 'A', i::CGMT),
("NYSI", "NYSI", "DK", false, 'A', i::NYSI),
("XMAL", "XMAL", "MT", false, 'A', i::XMAL),
("CASI", "CASI", "SE", false, 'A', i::CASI),
("CNSI", "CNSI", "NO", false, 'A', i::CNSI),
("TRQA", "TRQX", "GB", true, 'A', i::TRQA),
("XOSA", "XOSL", "NO", true, 'A', i::XOSA),
("CCEU", "CCEU", "GB", false, 'A', i::CCEU),
("XTXM", "XTXM", "GB", false, 'A', i::XTXM),
("GFSM", "GFIC", "GB", true, 'A', i::GFSM),
("GFSO", "GFIC", "GB", true, 'A', i::GFSO),
("AURO", "AURB", "FR", true, 'A', i::AURO),
("AURB", "AURB", "FR", false, 'A', i::AURB),
("BGCM", "BGCI", "GB", true, 'E', i::BGCM),
("EXSI", "EXEU", "GB", true, 'A', i::EXSI),
("ISWR", "ISWA", "GB", true, 'A', i::ISWR),
("ISWC", "ISWA", "GB", true, 'A', i::ISWC),
("ISWB", "ISWA", "GB", true, 'A', i::ISWB),
("SUNM", "SUNB", "GB", true, 'E', i::SUNM),
("TSCB", "TPSO", "GB", true, 'E', i::TSCB),
("VAGL", "VAGL", "GB", false, 'A', i::VAGL),
("BCSL", "BCSL", "GB", false, 'A', i::BCSL),
("BCSI", "BCSL", "GB", true, 'A', i::BCSI),
("BGCO", "BGCI", "GB", true, 'A', i::BGCO),
("GFBM", "GFIB", "GB", true, 'A', i::GFBM),
("GFBO", "GFIB", "GB", true, 'A', i::GFBO),
("GFIB", "GFIB", "GB", false, 'A', i::GFIB),
("GFIF", "GFIC", "GB", true, 'A', i::GFIF),
("GFIN", "GFIC", "GB", true, 'A', i::GFIN),
("GFIR", "GFIC", "GB", true, 'A', i::GFIR),
("INGB", "INGB", "NL", false, 'A', i::INGB),
("SFCL", "SFCL", "GB", false, 'A', i::SFCL),
("SUNO", "SUNB", "GB", true, 'E', i::SUNO),
("SUNB", "SUNB", "GB", false, 'E', i::SUNB),
("TPSL", "TPSL", "GB", false, 'A', i::TPSL),
("TSMR", "TPSL", "GB", true, 'A', i::TSMR),
("VONT", "VONT", "DE", false, 'A', i::VONT),
("BKBR", "BKBR", "BE", false, 'A', i::BKBR),
("BKBF", "BKBR", "BE", true, 'A', i::BKBF),
("CBKA", "CBKA", "DE", false, 'A', i::CBKA),
("TPES", "TPES", "ES", false, 'E', i::TPES),
("TSRE", "TPSO", "GB", true, 'E', i::TSRE),
("TSCD", "TPSO", "GB", true, 'A', i::TSCD),
("TSGB", "TPSO", "GB", true, 'A', i::TSGB),
("TSFI", "TPSO", "GB", true, 'A', i::TSFI),
("TSED", "TPSO", "GB", true, 'A', i::TSED),
("TSGI", "TPSO", "GB", true, 'A', i::TSGI),
("TSMM", "TPSO", "GB", true, 'A', i::TSMM),
("TPSO", "TPSO", "GB", false, 'A', i::TPSO),
("CBKD", "CBKA", "DE", true, 'A', i::CBKD),
("CBKF", "CBKA", "DE", true, 'A', i::CBKF),
("CBKE", "CBKA", "DE", true, 'A', i::CBKE),
("CBKG", "CBKA", "DE", true, 'A', i::CBKG),
("CGML", "CGML", "GB", false, 'A', i::CGML),
("CPTX", "CPTX", "NL", false, 'A', i::CPTX),
("MAQL", "MAQL", "GB", false, 'A', i::MAQL),
("DZBK", "DZBK", "DE", false, 'A', i::DZBK),
("XPOS", "ITGL", "IE", true, 'A', i::XPOS),
("TPEL", "TPEL", "GB", false, 'A', i::TPEL),
("TEFD", "TPEL", "GB", true, 'A', i::TEFD),
("TEMF", "TPEL", "GB", true, 'E', i::TEMF),
("TEMI", "TPEL", "GB", true, 'E', i::TEMI),
("TIRD", "TPEL", "GB", true, 'E', i::TIRD),
("TEMB", "TPEL", "GB", true, 'E', i::TEMB),
("TEMR", "TPEL", "GB", true, 'A', i::TEMR),
("TERE", "TPEO", "GB", true, 'E', i::TERE),
("TEFX", "TPEO", "GB", true, 'E', i::TEFX),
("TEMM", "TPEO", "GB", true, 'E', i::TEMM),
("TEGI", "TPEO", "GB", true, 'E', i::TEGI),
("TEIR", "TPEO", "GB", true, 'E', i::TEIR),
("TPEO", "TPEO", "GB", false, 'A', i::TPEO),
("TEGB", "TPEO", "GB", true, 'E', i::TEGB),
("TOMG", "TPES", "ES", true, 'E', i::TOMG),
("TEPF", "TPFR", "FR", true, 'E', i::TEPF),
("TWHK", "TWHK", "HK", false, 'A', i::TWHK),
("TWJT", "TWJP", "JP", true, 'A', i::TWJT),
("TWSG", "TWSG", "SG", false, 'A', i::TWSG),
("WOOD", "WOOD", "CZ", false, 'A', i::WOOD),
("XRFQ", "ITGL", "IE", true, 'A', i::XRFQ),
("XPAC", "ITGL", "IE", true, 'A', i::XPAC),
("LOYD", "LOYD", "GB", false, 'A', i::LOYD),
("SCXF", "SCXO", "US", true, 'A', i::SCXF),
("BOFS", "BOFS", "GB", false, 'A', i::BOFS),
("SUNT", "SUNT", "US", false, 'A', i::SUNT),
("SWBI", "SWBI", "SE", false, 'A', i::SWBI),
("WBKP", "WBKP", "PL", false, 'A', i::WBKP),
("BGSI", "BGSI", "DE", false, 'A', i::BGSI),
("BPLC", "BPLC", "GB", false, 'A', i::BPLC),
("BBSI", "BPLC", "GB", true, 'A', i::BBSI),
("LSSI", "LSSI", "DE", false, 'A', i::LSSI),
("JSEB", "XJSE", "ZA", true, 'A', i::JSEB),
("BIVA", "BIVA", "MX", false, 'A', i::BIVA),
("BKLN", "BKLN", "GB", false, 'A', i::BKLN),
("BKLF", "BKLN", "GB", true, 'A', i::BKLF),
("FISU", "FISU", "GB", false, 'A', i::FISU),
("JBSI", "JBSI", "DK", false, 'A', i::JBSI),
("NAPA", "NAPA", "SE", false, 'A', i::NAPA),
("POTC", "POTC", "VU", false, 'A', i::POTC),
("PPEX", "PPEX", "GB", false, 'A', i::PPEX),
("ESTO", "XSTO", "SE", true, 'A', i::ESTO),
("ONSE", "XSTO", "SE", true, 'A', i::ONSE),
("BAAD", "BAAD", "DE", false, 'A', i::BAAD),
("INVE", "INVE", "GB", false, 'A', i::INVE),
("EMCH", "TRDE", "GB", true, 'E', i::EMCH),
("VOLA", "TRDE", "GB", true, 'E', i::VOLA),
("XDNB", "XDNB", "NO", false, 'A', i::XDNB),
("IFLS", "IFLS", "GB", false, 'A', i::IFLS),
("XSMP", "XLDN", "GB", true, 'E', i::XSMP),
("EBSX", "BTEE", "GB", true, 'E', i::EBSX),
("EXOT", "EXOT", "GB", false, 'A', i::EXOT),
("HSXE", "HSXE", "GB", false, 'E', i::HSXE),
("ANZL", "ANZL", "GB", false, 'A', i::ANZL),
("BMEA", "BMEX", "ES", true, 'A', i::BMEA),
("EBSC", "EBSS", "CH", true, 'A', i::EBSC),
("ECHO", "ECHO", "GB", false, 'A', i::ECHO),
("FBSI", "FBSI", "IT", false, 'A', i::FBSI),
("HSBC", "HSBC", "GB", false, 'A', i::HSBC),
("HSBT", "HSBT", "DE", false, 'A', i::HSBT),
("NATX", "NATX", "FR", false, 'A', i::NATX),
("STAN", "STAN", "GB", false, 'A', i::STAN),
("VCMO", "VCMO", "GB", false, 'A', i::VCMO),
("AIMX", "XLON", "GB", true, 'A', i::AIMX),
("XLOM", "XLON", "GB", true, 'A', i::XLOM),
("ADVT", "ADVT", "US", false, 'A', i::ADVT),
("SICS", "CSEU", "GB", true, 'A', i::SICS),
("CSIN", "CSIN", "GB", false, 'A', i::CSIN),
("CSSI", "CSIN", "GB", true, 'A', i::CSSI),
("DOWG", "DOWG", "GB", false, 'A', i::DOWG),
("AMPX", "AMPX", "GB", false, 'A', i::AMPX),
("FXGB", "FXGB", "GB", false, 'A', i::FXGB),
("TOMD", "TOMX", "NL", true, 'E', i::TOMD),
("TOMX", "TOMX", "NL", false, 'E', i::TOMX),
("TRSI", "TRSI", "GB", false, 'A', i::TRSI),
("RBSI", "RBCB", "LU", true, 'A', i::RBSI),
("RTSI", "RBCT", "GB", true, 'A', i::RTSI),
("MUND", "XMUN", "DE", true, 'A', i::MUND),
("MUNC", "XMUN", "DE", true, 'A', i::MUNC),
("BTEE", "BTEE", "GB", false, 'A', i::BTEE),
("EBSM", "BTEE", "GB", true, 'E', i::EBSM),
("EBSS", "EBSS", "CH", false, 'A', i::EBSS),
("RBCB", "RBCB", "LU", false, 'A', i::RBCB),
("RBCT", "RBCT", "GB", false, 'A', i::RBCT),
("WIPO", "XWAR", "PL", true, 'A', i::WIPO),
("GSIB", "GSIB", "GB", false, 'A', i::GSIB),
("BISI", "GSIB", "GB", true, 'A', i::BISI),
("HUDX", "HUDX", "HU", false, 'A', i::HUDX),
("IEXD", "IEXG", "US", true, 'A', i::IEXD),
("IMCS", "IMCS", "US", false, 'A', i::IMCS),
("UBSY", "UBSB", "GB", true, 'A', i::UBSY),
("XEYE", "XDUB", "IE", true, 'A', i::XEYE),
("XDUB", "XDUB", "IE", false, 'A', i::XDUB),
("XATL", "XDUB", "IE", true, 'A', i::XATL),
("BILT", "BILT", "ZZ", false, 'A', i::BILT),
("XHNF", "HSTC", "VN", true, 'A', i::XHNF),
("MUFP", "MUFP", "GB", false, 'A', i::MUFP),
("VFIL", "VFIL", "IE", false, 'A', i::VFIL),
("VFSI", "VFIL", "IE", true, 'A', i::VFSI),
("VFXO", "VFIL", "IE", true, 'A', i::VFXO),
("CCML", "CCML", "GB", false, 'A', i::CCML),
("CFTW", "CFTW", "TW", false, 'A', i::CFTW),
("DAPA", "DAPA", "DE", false, 'A', i::DAPA),
("VLEX", "VLEX", "CH", false, 'A', i::VLEX),
("XSBT", "XSES", "SG", true, 'A', i::XSBT),
("ENSY", "XLDN", "GB", true, 'E', i::ENSY),
("MHIP", "MHIP", "GB", false, 'A', i::MHIP),
("WINS", "WINS", "GB", false, 'A', i::WINS),
("WINX", "WINS", "GB", true, 'A', i::WINX),
("ALXB", "XBRU", "BE", true, 'A', i::ALXB),
("MLXB", "XBRU", "BE", true, 'A', i::MLXB),
("ENXL", "XLIS", "PT", true, 'A', i::ENXL),
("ALXL", "XLIS", "PT", true, 'A', i::ALXL),
("XMLI", "XPAR", "FR", true, 'A', i::XMLI),
("ALXP", "XPAR", "FR", true, 'A', i::ALXP),
("SGMT", "GSCO", "US", true, 'A', i::SGMT),
("MASG", "MASG", "SG", false, 'A', i::MASG),
("TCML", "TCML", "GB", false, 'A', i::TCML),
("FRTE", "FRTE", "GB", false, 'A', i::FRTE),
("THEM", "THEM", "US", false, 'A', i::THEM),
("LEDG", "LEDG", "US", false, 'A', i::LEDG),
("MTSD", "BEAM", "BE", true, 'A', i::MTSD),
("MTSF", "BEAM", "BE", true, 'A', i::MTSF),
("ISDX", "ICAP", "GB", true, 'E', i::ISDX),
("MUTI", "MUTI", "GB", false, 'A', i::MUTI),
("NDCM", "NDCM", "GB", false, 'A', i::NDCM),
("IMEQ", "NDEX", "NL", true, 'A', i::IMEQ),
("NDXS", "NDEX", "NL", true, 'A', i::NDXS),
("NDEX", "NDEX", "NL", false, 'A', i::NDEX),
("SPEC", "SPEC", "GB", false, 'A', i::SPEC),
("ALXA", "XAMS", "NL", true, 'E', i::ALXA),
("ETFP", "XMIL", "IT", true, 'A', i::ETFP),
("BART", "BCRM", "GB", true, 'A', i::BART),
("BARO", "BCRM", "GB", true, 'A', i::BARO),
("BCRM", "BCRM", "GB", false, 'A', i::BCRM),
("BARK", "BCRM", "GB", true, 'A', i::BARK),
("BMTS", "BEAM", "BE", true, 'A', i::BMTS),
("MTUS", "MTUS", "US", false, 'E', i::MTUS),
("GOTC", "GOTC", "US", false, 'A', i::GOTC),
("MFXC", "MFXC", "GB", false, 'A', i::MFXC),
("MFXR", "MFXC", "GB", true, 'A', i::MFXR),
("MFXA", "MFXC", "GB", true, 'A', i::MFXA),
("SNSI", "SNSI", "DK", false, 'A', i::SNSI),
("VERT", "VERT", "US", false, 'A', i::VERT),
("IBUL", "XBUL", "BG", true, 'A', i::IBUL),
("APXL", "APXL", "AU", false, 'A', i::APXL),
("CLTD", "CLTD", "SG", false, 'A', i::CLTD),
("DRCT", "DRCT", "JP", false, 'A', i::DRCT),
("MTXX", "MTXX", "US", false, 'A', i::MTXX),
("CAVE", "OTCM", "US", true, 'A', i::CAVE),
("OTCB", "OTCM", "US", true, 'A', i::OTCB),
("PINL", "OTCM", "US", true, 'A', i::PINL),
("PINI", "OTCM", "US", true, 'A', i::PINI),
("PINX", "OTCM", "US", true, 'A', i::PINX),
("OTCQ", "OTCM", "US", true, 'A', i::OTCQ),
("PSGM", "OTCM", "US", true, 'A', i::PSGM),
("PINC", "OTCM", "US", true, 'A', i::PINC),
("XEER", "XEEE", "DE", true, 'A', i::XEER),
("XEEO", "XEEE", "DE", true, 'A', i::XEEO),
("XEEE", "XEEE", "DE", false, 'A', i::XEEE),
("MTSO", "MTSO", "IT", false, 'A', i::MTSO),
("MTSC", "MTSO", "IT", true, 'A', i::MTSC),
("ELUK", "NORX", "NO", true, 'A', i::ELUK),
("ELNO", "NORX", "NO", true, 'A', i::ELNO),
("ELSE", "NORX", "NO", true, 'A', i::ELSE),
("ELEU", "NORX", "NO", true, 'A', i::ELEU),
("FREI", "NORX", "NO", true, 'A', i::FREI),
("NOSI", "NOSI", "GB", false, 'A', i::NOSI),
("PRME", "XMTS", "GB", true, 'E', i::PRME),
("CSBX", "CSEU", "GB", true, 'A', i::CSBX),
("CXOT", "IFEU", "GB", true, 'A', i::CXOT),
("XBDV", "XBDV", "AO", false, 'A', i::XBDV),
("DKED", "XSTO", "SE", true, 'A', i::DKED),
("DKFI", "XSTO", "SE", true, 'A', i::DKFI),
("NOED", "XSTO", "SE", true, 'A', i::NOED),
("SEED", "XSTO", "SE", true, 'A', i::SEED),
("PNED", "XSTO", "SE", true, 'E', i::PNED),
("USWB", "XSTO", "SE", true, 'A', i::USWB),
("NOFI", "XSTO", "SE", true, 'A', i::NOFI),
("FIED", "XSTO", "SE", true, 'A', i::FIED),
("EBON", "XSTO", "SE", true, 'A', i::EBON),
("EUWB", "XSTO", "SE", true, 'A', i::EUWB),
("DIFX", "DIFX", "AE", false, 'A', i::DIFX),
("TREA", "TREU", "GB", true, 'A', i::TREA),
("TREO", "TREU", "GB", true, 'A', i::TREO),
("AUTB", "AUTX", "GB", true, 'A', i::AUTB),
("AUTX", "AUTX", "GB", false, 'A', i::AUTX),
("AUTP", "AUTX", "GB", true, 'A', i::AUTP),
("CXRT", "IFEU", "GB", true, 'A', i::CXRT),
("ACKF", "KNIG", "US", true, 'A', i::ACKF),
("NEXS", "NEXS", "GB", false, 'A', i::NEXS),
("VIRT", "VIRT", "US", false, 'A', i::VIRT),
("BALT", "BALT", "GB", false, 'A', i::BALT),
("BLTX", "BALT", "GB", true, 'A', i::BLTX),
("CGMA", "CGMA", "AU", false, 'A', i::CGMA),
("CGMH", "CGMH", "HK", false, 'A', i::CGMH),
("CGMI", "CGMI", "US", false, 'A', i::CGMI),
("LQFI", "CGMI", "US", true, 'E', i::LQFI),
("CGMX", "CGMX", "MX", false, 'A', i::CGMX),
("CITX", "CITX", "JP", false, 'A', i::CITX),
("CITD", "CITX", "JP", true, 'A', i::CITD),
("GRIO", "GRIF", "GB", true, 'A', i::GRIO),
("LQED", "LQED", "US", false, 'A', i::LQED),
("MTXA", "MTXX", "US", true, 'A', i::MTXA),
("PTPG", "PTPG", "PL", false, 'A', i::PTPG),
("UFEX", "UFEX", "UY", false, 'A', i::UFEX),
("TSAD", "TSAD", "US", false, 'A', i::TSAD),
("XISL", "XISL", "PK", false, 'E', i::XISL),
("XKAR", "XKAR", "PK", false, 'A', i::XKAR),
("XLAH", "XLAH", "PK", false, 'E', i::XLAH),
("XLGT", "XLGT", "LI", false, 'A', i::XLGT),
("XSTF", "XSTU", "DE", true, 'A', i::XSTF),
("STUC", "XSTU", "DE", true, 'A', i::STUC),
("STUD", "XSTU", "DE", true, 'A', i::STUD),
("XCEG", "XWBO", "AT", true, 'E', i::XCEG),
("XRSP", "PEEL", "GB", true, 'A', i::XRSP),
("PEEL", "PEEL", "GB", false, 'A', i::PEEL),
("XPHX", "PEEL", "GB", true, 'A', i::XPHX),
("CAZE", "CAZE", "GB", false, 'E', i::CAZE),
("JPBX", "JPBX", "US", false, 'A', i::JPBX),
("JPSI", "JPSI", "GB", false, 'A', i::JPSI),
("JSEF", "JSEF", "US", false, 'E', i::JSEF),
("AREX", "AREX", "IE", false, 'A', i::AREX),
("HOTC", "ASEX", "GR", true, 'A', i::HOTC),
("XADE", "ASEX", "GR", true, 'A', i::XADE),
("ENAX", "ASEX", "GR", true, 'A', i::ENAX),
("XATH", "ASEX", "GR", true, 'A', i::XATH),
("CSAU", "CSAU", "AU", false, 'A', i::CSAU),
("CFAU", "CSAU", "AU", true, 'A', i::CFAU),
("CSEU", "CSEU", "GB", false, 'A', i::CSEU),
("CSCF", "CSEU", "GB", true, 'A', i::CSCF),
("CSHK", "CSHK", "HK", false, 'A', i::CSHK),
("CFHK", "CSHK", "HK", true, 'A', i::CFHK),
("CSJP", "CSJP", "JP", false, 'A', i::CSJP),
("CFJP", "CSJP", "JP", true, 'A', i::CFJP),
("EDGE", "EDGE", "US", false, 'E', i::EDGE),
("FICX", "FICX", "DE", false, 'A', i::FICX),
("GBOT", "GBOT", "MU", false, 'A', i::GBOT),
("GRIF", "GRIF", "GB", false, 'A', i::GRIF),
("IBGH", "IBGH", "ES", false, 'A', i::IBGH),
("IEXG", "IEXG", "US", false, 'A', i::IEXG),
("LMEC", "LMEC", "GB", false, 'A', i::LMEC),
("NEXO", "NEXO", "NO", false, 'A', i::NEXO),
("NMRJ", "NMRJ", "JP", false, 'A', i::NMRJ),
("NXJP", "NMRJ", "JP", true, 'A', i::NXJP),
("NXVW", "NMRJ", "JP", true, 'A', i::NXVW),
("PARX", "TRDE", "GB", true, 'A', i::PARX),
("ELIX", "TRDE", "GB", true, 'A', i::ELIX),
("TRDX", "TRDE", "GB", true, 'A', i::TRDX),
("XBEL", "XBEL", "RS", false, 'A', i::XBEL),
("BLBF", "XBLB", "BA", true, 'A', i::BLBF),
("XBLB", "XBLB", "BA", false, 'A', i::XBLB),
("XMOT", "XMIL", "IT", true, 'A', i::XMOT),
("MOTX", "XMIL", "IT", true, 'A', i::MOTX),
("MUNB", "XMUN", "DE", true, 'A', i::MUNB),
("MUNA", "XMUN", "DE", true, 'A', i::MUNA),
("XMUN", "XMUN", "DE", false, 'A', i::XMUN),
("XNXC", "XNXC", "NL", false, 'A', i::XNXC),
("XOPV", "XSTO", "SE", true, 'E', i::XOPV),
("XVES", "XVES", "LU", false, 'A', i::XVES),
("XVIA", "XLIT", "LT", true, 'E', i::XVIA),
("XHON", "XHON", "HN", false, 'E', i::XHON),
("ICUS", "ICUS", "US", false, 'E', i::ICUS),
("ITSM", "ITSM", "IT", false, 'E', i::ITSM),
("JATA", "JATA", "JP", false, 'E', i::JATA),
("KMTS", "KMTS", "GB", false, 'E', i::KMTS),
("XSUR", "XSUR", "ID", false, 'E', i::XSUR),
("XWCE", "IFCA", "CA", true, 'E', i::XWCE),
("NASN", "XSTO", "SE", true, 'E', i::NASN),
("MTSP", "MTSP", "PL", false, 'E', i::MTSP),
("XASM", "XDUB", "IE", true, 'E', i::XASM),
("XIEX", "XDUB", "IE", true, 'E', i::XIEX),
("XJKT", "XJKT", "ID", false, 'E', i::XJKT),
("MTAX", "MTAX", "IT", false, 'E', i::MTAX),
("XEAS", "XEQT", "BE", true, 'E', i::XEAS),
("XBMK", "XBMK", "US", false, 'E', i::XBMK),
("XBMF", "XBMF", "BR", false, 'E', i::XBMF),
("ICEU", "ICEU", "GB", false, 'E', i::ICEU),
("CETO", "XWAR", "PL", true, 'E', i::CETO),
("XA1X", "XA1X", "AR", false, 'E', i::XA1X),
("ICAT", "ICAH", "GB", true, 'E', i::ICAT),
("NOME", "NURO", "GB", true, 'E', i::NOME),
("EXPA", "MTAA", "IT", true, 'E', i::EXPA),
("XBSP", "XBSP", "BR", false, 'E', i::XBSP),
("NECD", "NECD", "AU", false, 'E', i::NECD),
("NBXO", "XBXO", "US", true, 'E', i::NBXO),
("FXMT", "FXMT", "GB", false, 'E', i::FXMT),
("THRD", "XNIM", "US", true, 'E', i::THRD),
("ATSA", "ATSA", "CA", false, 'E', i::ATSA),
("XSIC", "XSIC", "RU", false, 'E', i::XSIC),
("XTAA", "XTAL", "EE", true, 'E', i::XTAA),
("XTLX", "XTLX", "IT", false, 'E', i::XTLX),
("XLOF", "XLOF", "MY", false, 'E', i::XLOF),
("XMIC", "XMIC", "RU", false, 'E', i::XMIC),
("QMTS", "QMTS", "GB", false, 'E', i::QMTS),
("PCDS", "TPCD", "GB", true, 'E', i::PCDS),
("XEUS", "XEUS", "US", false, 'E', i::XEUS),
("XNYF", "XNYF", "US", false, 'E', i::XNYF),
("BAMP", "BAMP", "US", false, 'E', i::BAMP),
("XEDX", "XEDX", "GB", false, 'E', i::XEDX),
("XTAR", "XTAR", "EE", false, 'E', i::XTAR),
("URCE", "URCE", "RU", false, 'E', i::URCE),
("VRXP", "XMLI", "FR", true, 'E', i::VRXP),
("XFNX", "XFNX", "IE", false, 'E', i::XFNX),
("CSFB", "CSEU", "GB", true, 'E', i::CSFB),
("XHCE", "XHCE", "DE", false, 'E', i::XHCE),
("XHER", "XHER", "JP", false, 'E', i::XHER),
("CRDL", "CRDL", "GB", false, 'E', i::CRDL),
("BAIK", "BAIK", "GB", false, 'E', i::BAIK),
("UMTS", "UMTS", "GB", false, 'E', i::UMTS),
("XPIN", "UBSA", "US", true, 'E', i::XPIN),
("XRTR", "XRTR", "DE", false, 'E', i::XRTR),
("XPLU", "XPLU", "GB", false, 'E', i::XPLU),
("XROV", "XROV", "RU", false, 'E', i::XROV),
("DAMP", "DAMP", "DK", false, 'E', i::DAMP),
("XLJS", "XLJS", "SI", false, 'E', i::XLJS),
("XRMS", "XRMS", "SK", false, 'E', i::XRMS),
("AATS", "AATS", "US", false, 'A', i::AATS),
("ACEX", "ACEX", "IN", false, 'A', i::ACEX),
("AFDL", "AFDL", "GB", false, 'A', i::AFDL),
("AFET", "AFET", "TH", false, 'A', i::AFET),
("AFSE", "AFSE", "NL", false, 'A', i::AFSE),
("AIXE", "AIXE", "CH", false, 'E', i::AIXE),
("AQST", "AQSE", "GB", true, 'A', i::AQST),
("AQSL", "AQSE", "GB", true, 'A', i::AQSL),
("AQSN", "AQSE", "GB", true, 'A', i::AQSN),
("AQSG", "AQSE", "GB", true, 'A', i::AQSG),
("AQSF", "AQSE", "GB", true, 'A', i::AQSF),
("AQSD", "AQSE", "GB", true, 'A', i::AQSD),
("AQUA", "AQUA", "US", false, 'E', i::AQUA),
("ASEX", "ASEX", "GR", false, 'A', i::ASEX),
("XIPO", "ASEX", "GR", true, 'A', i::XIPO),
("EUAX", "ASEX", "GR", true, 'E', i::EUAX),
("AWBX", "AWBX", "AU", false, 'A', i::AWBX),
("AWEX", "AWEX", "AU", false, 'A', i::AWEX),
("BACE", "BACE", "AR", false, 'A', i::BACE),
("MLCO", "BAML", "US", true, 'A', i::MLCO),
("MLVX", "BAML", "US", true, 'A', i::MLVX),
("BAML", "BAML", "US", false, 'A', i::BAML),
("BAPA", "BAPA", "GB", false, 'A', i::BAPA),
("BAPX", "BAPX", "LT", false, 'A', i::BAPX),
("BCDX", "BARX", "US", true, 'E', i::BCDX),
("BARL", "BARX", "US", true, 'A', i::BARL),
("BARX", "BARX", "US", false, 'A', i::BARX),
("BARD", "BARX", "US", true, 'A', i::BARD),
("BBSF", "BBSF", "US", false, 'A', i::BBSF),
("BCFS", "BCFS", "AR", false, 'A', i::BCFS),
("XMVL", "BCFS", "AR", true, 'A', i::XMVL),
("BCMM", "BCMM", "BR", false, 'A', i::BCMM),
("BCSE", "BCSE", "BY", false, 'A', i::BCSE),
("CHIY", "BCXE", "GB", true, 'E', i::CHIY),
("CHIO", "BCXE", "GB", true, 'A', i::CHIO),
("BATP", "BCXE", "GB", true, 'A', i::BATP),
("CHID", "BCXE", "GB", true, 'A', i::CHID),
("BOTC", "BCXE", "GB", true, 'A', i::BOTC),
("BCXE", "BCXE", "GB", false, 'A', i::BCXE),
("LISX", "BCXE", "GB", true, 'A', i::LISX),
("CHIX", "BCXE", "GB", true, 'A', i::CHIX),
("BEAM", "BEAM", "BE", false, 'A', i::BEAM),
("BEEX", "BEEX", "TH", false, 'A', i::BEEX),
("BETP", "BETP", "JP", false, 'A', i::BETP),
("BFEX", "BFEX", "BH", false, 'E', i::BFEX),
("BGCF", "BGCF", "US", false, 'A', i::BGCF),
("BGCD", "BGCF", "US", true, 'A', i::BGCD),
("FNCS", "BGCF", "US", true, 'A', i::FNCS),
("BGCB", "BGCI", "GB", true, 'A', i::BGCB),
("BGCI", "BGCI", "GB", false, 'A', i::BGCI),
("BHSF", "BHSF", "US", false, 'A', i::BHSF),
("BIDS", "BIDS", "US", false, 'A', i::BIDS),
("BLEV", "BLEV", "AU", false, 'A', i::BLEV),
("BLPX", "BLPX", "BE", false, 'A', i::BLPX),
("BPOL", "BPOL", "US", false, 'A', i::BPOL),
("BLTD", "BLTD", "US", false, 'E', i::BLTD),
("SEND", "BMEX", "ES", true, 'A', i::SEND),
("XDRF", "BMEX", "ES", true, 'A', i::XDRF),
("MARF", "BMEX", "ES", true, 'A', i::MARF),
("BMCL", "BMEX", "ES", true, 'A', i::BMCL),
("MERF", "BMEX", "ES", true, 'A', i::MERF),
("XBIL", "BMEX", "ES", true, 'A', i::XBIL),
("XMAD", "BMEX", "ES", true, 'A', i::XMAD),
("BMEX", "BMEX", "ES", false, 'A', i::BMEX),
("SBIL", "BMEX", "ES", true, 'A', i::SBIL),
("SBAR", "BMEX", "ES", true, 'A', i::SBAR),
("XVAL", "BMEX", "ES", true, 'A', i::XVAL),
("XBAR", "BMEX", "ES", true, 'A', i::XBAR),
("XLAT", "BMEX", "ES", true, 'A', i::XLAT),
("XMEF", "BMEX", "ES", true, 'E', i::XMEF),
("XMPW", "BMEX", "ES", true, 'A', i::XMPW),
("XMRV", "BMEX", "ES", true, 'A', i::XMRV),
("BMTF", "BMTF", "GB", false, 'A', i::BMTF),
("VTEX", "BNYC", "US", true, 'E', i::VTEX),
("NYFX", "BNYC", "US", true, 'E', i::NYFX),
("BNYC", "BNYC", "US", false, 'A', i::BNYC),
("BOAT", "BOAT", "GB", false, 'A', i::BOAT),
("BOSC", "BOSC", "GB", false, 'A', i::BOSC),
("BOVA", "BOVA", "CL", false, 'A', i::BOVA),
("BOVM", "BOVM", "BR", false, 'A', i::BOVM),
("BRIX", "BRIX", "BR", false, 'A', i::BRIX),
("BRNX", "BRNX", "GB", false, 'A', i::BRNX),
("BSEX", "BSEX", "AZ", false, 'A', i::BSEX),
("ICSU", "BTEC", "US", true, 'A', i::ICSU),
("BTEC", "BTEC", "US", false, 'A', i::BTEC),
("BVCA", "BVCA", "VE", false, 'A', i::BVCA),
("XCAR", "BVCA", "VE", true, 'E', i::XCAR),
("BVMF", "BVMF", "BR", false, 'A', i::BVMF),
("BVUR", "BVUR", "UY", false, 'A', i::BVUR),
("CAND", "CAND", "CA", false, 'A', i::CAND),
("CANX", "CANX", "CA", false, 'A', i::CANX),
("CMAP", "CAPI", "ES", true, 'A', i::CMAP),
("CATS", "CATS", "DE", false, 'A', i::CATS),
("CCFE", "CCFE", "US", false, 'E', i::CCFE),
("CCFX", "CCFX", "CN", false, 'A', i::CCFX),
("CCLX", "CCLX", "LU", false, 'A', i::CCLX),
("CCO2", "CCO2", "GB", false, 'A', i::CCO2),
("CDED", "CDED", "US", false, 'A', i::CDED),
("CDEL", "CDEL", "US", false, 'E', i::CDEL),
("ASTR", "CDSL", "IN", true, 'A', i::ASTR),
("FXCL", "CDSL", "IN", true, 'A', i::FXCL),
("CDSL", "CDSL", "IN", false, 'A', i::CDSL),
("FXSW", "CDSL", "IN", true, 'A', i::FXSW),
("CETI", "BVMF", "BR", true, 'A', i::CETI),
("CGQD", "CGIT", "IT", true, 'A', i::CGQD),
("CGDB", "CGIT", "IT", true, 'A', i::CGDB),
("CGTR", "CGIT", "IT", true, 'A', i::CGTR),
("CGIT", "CGIT", "IT", false, 'A', i::CGIT),
("CGND", "CGIT", "IT", true, 'A', i::CGND),
("CGEB", "CGIT", "IT", true, 'A', i::CGEB),
("CGQT", "CGIT", "IT", true, 'A', i::CGQT),
("CGCM", "CGIT", "IT", true, 'A', i::CGCM),
("CGGD", "CGIT", "IT", true, 'A', i::CGGD),
("CHEV", "CHEV", "GB", false, 'A', i::CHEV),
("BLNK", "CHEV", "GB", true, 'A', i::BLNK),
("CXAR", "CHIA", "AU", true, 'A', i::CXAR),
("CXAC", "CHIA", "AU", true, 'A', i::CXAC),
("CXAP", "CHIA", "AU", true, 'A', i::CXAP),
("CXAM", "CHIA", "AU", true, 'A', i::CXAM),
("CXAQ", "CHIA", "AU", true, 'A', i::CXAQ),
("CXAV", "CHIA", "AU", true, 'A', i::CXAV),
("CXAF", "CHIA", "AU", true, 'A', i::CXAF),
("CXAN", "CHIA", "AU", true, 'A', i::CXAN),
("CXAW", "CHIA", "AU", true, 'A', i::CXAW),
("CHIA", "CHIA", "AU", false, 'A', i::CHIA),
("XCX2", "CHIC", "CA", true, 'A', i::XCX2),
("CHIC", "CHIC", "CA", false, 'A', i::CHIC),
("CHIE", "CHIE", "SG", false, 'E', i::CHIE),
("CHIJ", "CHIJ", "JP", false, 'A', i::CHIJ),
("KAIX", "CHIJ", "JP", true, 'A', i::KAIX),
("CHIS", "CHIJ", "JP", true, 'A', i::CHIS),
("CHIV", "CHIJ", "JP", true, 'A', i::CHIV),
("CLAU", "CLAU", "AU", false, 'A', i::CLAU),
("CLHK", "CLHK", "HK", false, 'A', i::CLHK),
("CLJP", "CLJP", "JP", false, 'A', i::CLJP),
("CLMX", "CLMX", "NL", false, 'A', i::CLMX),
("CLPH", "CLPH", "PH", false, 'A', i::CLPH),
("CMEC", "CMEE", "GB", true, 'E', i::CMEC),
("CMEE", "CMEE", "GB", false, 'E', i::CMEE),
("CMET", "CMET", "JP", false, 'A', i::CMET),
("CMMT", "CMMT", "GB", false, 'A', i::CMMT),
("CMSF", "CMSF", "US", false, 'A', i::CMSF),
("COAL", "COAL", "FR", false, 'A', i::COAL),
("COMG", "COMG", "MT", false, 'A', i::COMG),
("COTC", "COTC", "CA", false, 'A', i::COTC),
("CRED", "CRED", "US", false, 'A', i::CRED),
("CAES", "CRED", "US", true, 'A', i::CAES),
("CRYD", "CRYD", "SE", false, 'A', i::CRYD),
("CRYP", "CRYP", "GB", false, 'A', i::CRYP),
("CRYX", "CRYX", "SE", false, 'A', i::CRYX),
("CSSX", "CSSX", "CN", false, 'A', i::CSSX),
("DASI", "DASI", "DK", false, 'A', i::DASI),
("DBHK", "DBHK", "HK", false, 'A', i::DBHK),
("AUTO", "DBOX", "DE", true, 'A', i::AUTO),
("DBOX", "DBOX", "DE", false, 'A', i::DBOX),
("DBSX", "DBSX", "US", false, 'E', i::DBSX),
("DCSX", "DCSX", "CW", false, 'A', i::DCSX),
("DEAL", "DEAL", "US", false, 'A', i::DEAL),
("DGCX", "DGCX", "AE", false, 'A', i::DGCX),
("DKTC", "DKTC", "DK", false, 'A', i::DKTC),
("DOTS", "DOTS", "CH", false, 'A', i::DOTS),
("DSMD", "DSMD", "QA", false, 'A', i::DSMD),
("DUMX", "DUMX", "AE", false, 'A', i::DUMX),
("ECAG", "ECAG", "DE", false, 'A', i::ECAG),
("ECGS", "ECAG", "DE", true, 'A', i::ECGS),
("ECAL", "ECAL", "SG", false, 'A', i::ECAL),
("ECXE", "ECXE", "NL", false, 'E', i::ECXE),
("EEAL", "EEAL", "SG", false, 'A', i::EEAL),
("EESE", "EESE", "UA", false, 'A', i::EESE),
("EFTP", "EFTP", "DE", false, 'E', i::EFTP),
("EGMT", "EGMT", "US", false, 'A', i::EGMT),
("EGSI", "EGSI", "AT", false, 'A', i::EGSI),
("EMBX", "EMBX", "GB", false, 'A', i::EMBX),
("EMIB", "EMID", "IT", true, 'E', i::EMIB),
("EMID", "EMID", "IT", false, 'E', i::EMID),
("EMIR", "EMID", "IT", true, 'E', i::EMIR),
("EMDR", "EMID", "IT", true, 'E', i::EMDR),
("ENCL", "ENCL", "GB", false, 'A', i::ENCL),
("EOTC", "EOTC", "HK", false, 'A', i::EOTC),
("EPEX", "EPEX", "FR", false, 'A', i::EPEX),
("ETSC", "ETSC", "KZ", false, 'A', i::ETSC),
("EXOR", "EXEU", "GB", true, 'A', i::EXOR),
("EXVP", "EXEU", "GB", true, 'A', i::EXVP),
("EXMP", "EXEU", "GB", true, 'A', i::EXMP),
("EXLP", "EXEU", "GB", true, 'A', i::EXLP),
("EXEU", "EXEU", "GB", false, 'A', i::EXEU),
("EXCP", "EXEU", "GB", true, 'A', i::EXCP),
("EXBO", "EXEU", "GB", true, 'A', i::EXBO),
("EXDC", "EXEU", "GB", true, 'A', i::EXDC),
("EXGM", "XMIL", "IT", true, 'A', i::EXGM),
("XEDA", "EXTR", "TR", true, 'A', i::XEDA),
("XEID", "EXTR", "TR", true, 'A', i::XEID),
("EXTR", "EXTR", "TR", false, 'A', i::EXTR),
("FAIR", "FAIR", "GB", false, 'A', i::FAIR),
("FGEX", "FGEX", "FI", false, 'A', i::FGEX),
("XADF", "FINR", "US", true, 'A', i::XADF),
("FINC", "FINR", "US", true, 'A', i::FINC),
("FINO", "FINR", "US", true, 'A', i::FINO),
("FINR", "FINR", "US", false, 'A', i::FINR),
("FINY", "FINR", "US", true, 'A', i::FINY),
("OOTC", "FINR", "US", true, 'A', i::OOTC),
("FISH", "FISH", "NO", false, 'A', i::FISH),
("FLTB", "FLWX", "NL", true, 'A', i::FLTB),
("FMTS", "FMTS", "FR", false, 'A', i::FMTS),
("FRRF", "FRRF", "BE", false, 'E', i::FRRF),
("FSEF", "FSEF", "US", false, 'A', i::FSEF),
("FSHX", "FSHX", "NO", false, 'A', i::FSHX),
("FXAL", "FXAL", "US", false, 'A', i::FXAL),
("FXCM", "FXCM", "US", false, 'A', i::FXCM),
("G1XX", "G1XX", "US", false, 'A', i::G1XX),
("GEMX", "GEMX", "GB", false, 'A', i::GEMX),
("GETB", "GETB", "LT", false, 'A', i::GETB),
("GFIA", "GFIA", "GB", false, 'E', i::GFIA),
("XGFI", "GFIC", "GB", true, 'E', i::XGFI),
("GFIM", "GFIC", "GB", true, 'E', i::GFIM),
("GLLC", "GLLC", "US", false, 'A', i::GLLC),
("GLPS", "GLPS", "US", false, 'A', i::GLPS),
("GLPX", "GLPX", "US", false, 'A', i::GLPX),
("XGDX", "GMEG", "GB", true, 'A', i::XGDX),
("XLDX", "GMEG", "GB", true, 'A', i::XLDX),
("XGCX", "GMEG", "GB", true, 'A', i::XGCX),
("GMEG", "GMEG", "GB", false, 'A', i::GMEG),
("XGSX", "GMEG", "GB", true, 'A', i::XGSX),
("GMEX", "GMEX", "DE", false, 'E', i::GMEX),
("GMTF", "GMTF", "FR", false, 'A', i::GMTF),
("GOVX", "GOVX", "US", false, 'A', i::GOVX),
("GREE", "GREE", "US", false, 'A', i::GREE),
("GRSE", "GRSE", "GB", false, 'A', i::GRSE),
("GSCI", "GSCI", "GY", false, 'A', i::GSCI),
("GSCO", "GSCO", "US", false, 'A', i::GSCO),
("GSEF", "GSEF", "US", false, 'A', i::GSEF),
("GSIL", "GSIL", "GB", false, 'A', i::GSIL),
("GSSI", "GSIL", "GB", true, 'A', i::GSSI),
("GSXL", "GSXL", "GI", false, 'A', i::GSXL),
("GTCO", "GTCO", "US", false, 'A', i::GTCO),
("GTSX", "GTSX", "US", false, 'A', i::GTSX),
("GTXS", "GTXS", "US", false, 'E', i::GTXS),
("GXMA", "GXMA", "VU", false, 'A', i::GXMA),
("HCHC", "HCHC", "NL", false, 'A', i::HCHC),
("HDAT", "HDAT", "GR", false, 'A', i::HDAT),
("HEGX", "HEGX", "US", false, 'A', i::HEGX),
("HKME", "HKME", "HK", false, 'E', i::HKME),
("HMOD", "HMTF", "IT", true, 'A', i::HMOD),
("HMTF", "HMTF", "IT", false, 'A', i::HMTF),
("HRFQ", "HMTF", "IT", true, 'A', i::HRFQ),
("HPPO", "HPPO", "US", false, 'A', i::HPPO),
("HSFX", "HSFX", "US", false, 'A', i::HSFX),
("HSTC", "HSTC", "VN", false, 'A', i::HSTC),
("XHNX", "HSTC", "VN", true, 'A', i::XHNX),
("HSXA", "HSXA", "HK", false, 'A', i::HSXA),
("HUPX", "HUPX", "HU", false, 'A', i::HUPX),
("IBAL", "IBAL", "GB", false, 'A', i::IBAL),
("IBEX", "IBEX", "BG", false, 'A', i::IBEX),
("WCLK", "ICAP", "GB", true, 'E', i::WCLK),
("ICAH", "ICAP", "GB", true, 'E', i::ICAH),
("ICSE", "ICAP", "GB", true, 'E', i::ICSE),
("ICTQ", "ICAP", "GB", true, 'E', i::ICTQ),
("ICAP", "ICAP", "GB", false, 'E', i::ICAP),
("PLSX", "ICAP", "GB", true, 'E', i::PLSX),
("ICDX", "ICDX", "ID", false, 'A', i::ICDX),
("ICEL", "ICEL", "US", false, 'A', i::ICEL),
("ICXL", "ICXL", "IN", false, 'A', i::ICXL),
("IFCA", "IFCA", "CA", false, 'E', i::IFCA),
("IFLX", "IFEU", "GB", true, 'A', i::IFLX),
("IFLL", "IFEU", "GB", true, 'A', i::IFLL),
("IFEN", "IFEU", "GB", true, 'A', i::IFEN),
("IFLO", "IFEU", "GB", true, 'A', i::IFLO),
("IFEU", "IFEU", "GB", false, 'A', i::IFEU),
("IFUT", "IFEU", "GB", true, 'A', i::IFUT),
("IFSG", "IFSG", "SG", false, 'A', i::IFSG),
("IMFX", "IFUS", "US", true, 'A', i::IMFX),
("IFED", "IFUS", "US", true, 'A', i::IFED),
("IFUS", "IFUS", "US", false, 'A', i::IFUS),
("IEPA", "IFUS", "US", true, 'A', i::IEPA),
("IMCG", "IFUS", "US", true, 'A', i::IMCG),
("IMIR", "IFUS", "US", true, 'A', i::IMIR),
("IMCR", "IFUS", "US", true, 'A', i::IMCR),
("IMEN", "IFUS", "US", true, 'A', i::IMEN),
("ICES", "IFUS", "US", true, 'A', i::ICES),
("IMAG", "IFUS", "US", true, 'A', i::IMAG),
("IMBD", "IFUS", "US", true, 'A', i::IMBD),
("IMEX", "IMEX", "IR", false, 'A', i::IMEX),
("ISDA", "ISDA", "US", false, 'A', i::ISDA),
("ISEX", "ISEX", "IN", false, 'A', i::ISEX),
("ITGI", "ITGI", "US", false, 'A', i::ITGI),
("IVZX", "IVZX", "CA", false, 'A', i::IVZX),
("IXSP", "IXSP", "RU", false, 'E', i::IXSP),
("JADX", "JADX", "SG", false, 'A', i::JADX),
("JEFX", "JEFX", "US", false, 'E', i::JEFX),
("JNST", "JNST", "US", false, 'A', i::JNST),
("JPMI", "JPMI", "HK", false, 'A', i::JPMI),
("JPMX", "JPMX", "US", false, 'A', i::JPMX),
("JSES", "JSES", "US", false, 'A', i::JSES),
("JSJX", "JSJX", "US", false, 'A', i::JSJX),
("VKAB", "KABU", "JP", true, 'E', i::VKAB),
("KABU", "KABU", "JP", false, 'E', i::KABU),
("KCCP", "KCCP", "HU", false, 'A', i::KCCP),
("KDPW", "KDPW", "PL", false, 'E', i::KDPW),
("KLEU", "KLEU", "GB", false, 'A', i::KLEU),
("KNIG", "KNIG", "US", false, 'A', i::KNIG),
("KNEM", "KNIG", "US", true, 'A', i::KNEM),
("KNLI", "KNIG", "US", true, 'A', i::KNLI),
("KNCM", "KNIG", "US", true, 'A', i::KNCM),
("KOCN", "KOCN", "KR", false, 'E', i::KOCN),
("KRME", "KRME", "AE", false, 'A', i::KRME),
("LASF", "LASF", "US", false, 'A', i::LASF),
("LAFL", "LAVA", "US", true, 'E', i::LAFL),
("LAVA", "LAVA", "US", false, 'E', i::LAVA),
("LAFD", "LAVA", "US", true, 'E', i::LAFD),
("LCHC", "LCHC", "FR", false, 'A', i::LCHC),
("LCUR", "LCUR", "GB", false, 'A', i::LCUR),
("LICA", "LICA", "CA", false, 'A', i::LICA),
("LIQH", "LIQU", "GB", true, 'A', i::LIQH),
("LIQU", "LIQU", "GB", false, 'A', i::LIQU),
("LIQF", "LIQU", "GB", true, 'A', i::LIQF),
("LIUS", "LIUS", "US", false, 'A', i::LIUS),
("LIUH", "LIUS", "US", true, 'A', i::LIUH),
("LIFI", "LIUS", "US", true, 'A', i::LIFI),
("LMAD", "LMAX", "GB", true, 'U', i::LMAD),
("LMAX", "LMAX", "GB", false, 'U', i::LMAX),
("LOTC", "LOTC", "GB", false, 'A', i::LOTC),
("PLDX", "LOTC", "GB", true, 'A', i::PLDX),
("LPPM", "LPPM", "GB", false, 'A', i::LPPM),
("LMNX", "LTAA", "US", true, 'A', i::LMNX),
("LTAA", "LTAA", "US", false, 'A', i::LTAA),
("LXJP", "LXJP", "JP", false, 'A', i::LXJP),
("MAEL", "MAEL", "GB", false, 'A', i::MAEL),
("MXLM", "MAEL", "GB", true, 'A', i::MXLM),
("MALX", "MALX", "MV", false, 'A', i::MALX),
("MXNL", "MANL", "NL", true, 'A', i::MXNL),
("MAQH", "MAQH", "HK", false, 'A', i::MAQH),
("MAQJ", "MAQJ", "JP", false, 'A', i::MAQJ),
("MAQX", "MAQX", "AU", false, 'A', i::MAQX),
("MATN", "MATN", "CA", false, 'A', i::MATN),
("MATX", "MATX", "AE", false, 'A', i::MATX),
("MBUL", "MBUL", "BG", false, 'A', i::MBUL),
("MCXR", "MCUR", "GB", true, 'E', i::MCXR),
("MCXS", "MCUR", "GB", true, 'E', i::MCXS),
("MCUR", "MCUR", "GB", false, 'E', i::MCUR),
("MDIP", "MDIP", "PT", false, 'E', i::MDIP),
("MEAU", "MEAU", "AU", false, 'E', i::MEAU),
("MEHK", "MEHK", "HK", false, 'E', i::MEHK),
("MFGL", "MFGL", "GB", false, 'A', i::MFGL),
("MIBG", "MIBG", "ES", false, 'A', i::MIBG),
("EPRL", "MIHI", "US", true, 'A', i::EPRL),
("MPRL", "MIHI", "US", true, 'A', i::MPRL),
("MIHI", "MIHI", "US", false, 'A', i::MIHI),
("XMIO", "MIHI", "US", true, 'A', i::XMIO),
("MIZX", "MIZX", "JP", false, 'A', i::MIZX),
("MLVE", "MLXN", "GB", true, 'E', i::MLVE),
("MLEU", "MLXN", "GB", true, 'E', i::MLEU),
("MSAL", "MSAL", "AU", false, 'A', i::MSAL),
("MSPL", "MSCO", "US", true, 'A', i::MSPL),
("MSTC", "MSCO", "US", true, 'E', i::MSTC),
("MSCO", "MSCO", "US", false, 'A', i::MSCO),
("MSTX", "MSCO", "US", true, 'A', i::MSTX),
("MSLP", "MSCO", "US", true, 'E', i::MSLP),
("MSIP", "MSIP", "GB", false, 'A', i::MSIP),
("MSMS", "MSMS", "JP", false, 'A', i::MSMS),
("BVUS", "MTUS", "US", true, 'E', i::BVUS),
("MTSB", "MTUS", "US", true, 'E', i::MTSB),
("MTXS", "MTXX", "US", true, 'A', i::MTXS),
("MTXC", "MTXX", "US", true, 'A', i::MTXC),
("MTXM", "MTXX", "US", true, 'A', i::MTXM),
("MYTR", "MYTR", "GB", false, 'A', i::MYTR),
("N2EX", "N2EX", "GB", false, 'A', i::N2EX),
("NAMX", "NAMX", "RU", false, 'A', i::NAMX),
("NASB", "NASB", "LT", false, 'E', i::NASB),
("NASX", "NASX", "NG", false, 'A', i::NASX),
("NBLX", "NBLX", "US", false, 'A', i::NBLX),
("NBOT", "NBOT", "IN", false, 'A', i::NBOT),
("NCEL", "NCEL", "PK", false, 'A', i::NCEL),
("NFSD", "NFSC", "US", true, 'A', i::NFSD),
("XSTM", "NFSC", "US", true, 'A', i::XSTM),
("NFSA", "NFSC", "US", true, 'A', i::NFSA),
("NFSC", "NFSC", "US", false, 'A', i::NFSC),
("NGXC", "NGXC", "CA", false, 'A', i::NGXC),
("NILX", "NILX", "EG", false, 'A', i::NILX),
("NLPX", "NLPX", "NL", false, 'A', i::NLPX),
("NMCE", "NMCE", "IN", false, 'A', i::NMCE),
("NMRA", "NMRA", "US", false, 'A', i::NMRA),
("ICSH", "NMRJ", "JP", true, 'A', i::ICSH),
("ICSZ", "NMRJ", "JP", true, 'A', i::ICSZ),
("ICKR", "NMRJ", "JP", true, 'A', i::ICKR),
("ICHK", "NMRJ", "JP", true, 'A', i::ICHK),
("NXSE", "NMRJ", "JP", true, 'A', i::NXSE),
("ICTW", "NMRJ", "JP", true, 'A', i::ICTW),
("NNCS", "NNCS", "RU", false, 'E', i::NNCS),
("NODX", "NODX", "US", false, 'A', i::NODX),
("NOFF", "NOFF", "GB", false, 'A', i::NOFF),
("NOPS", "NOPS", "NO", false, 'A', i::NOPS),
("NOSC", "NOSC", "NO", false, 'A', i::NOSC),
("NOTC", "NOTC", "NO", false, 'A', i::NOTC),
("NPGA", "NPGA", "DK", false, 'A', i::NPGA),
("NSXB", "NSXB", "AU", false, 'A', i::NSXB),
("NXEU", "NXEU", "GB", false, 'A', i::NXEU),
("NXUS", "NXUS", "US", false, 'A', i::NXUS),
("NYMX", "NYMX", "GB", false, 'E', i::NYMX),
("NYPC", "NYPC", "US", false, 'A', i::NYPC),
("OFEX", "OFEX", "GB", false, 'E', i::OFEX),
("OLLC", "OLLC", "US", false, 'A', i::OLLC),
("OMEL", "OMEL", "ES", false, 'A', i::OMEL),
("OMGA", "OMGA", "CA", false, 'A', i::OMGA),
("LYNX", "OMGA", "CA", true, 'A', i::LYNX),
("OMIC", "OMIC", "PT", false, 'A', i::OMIC),
("OPEX", "OPEX", "PT", false, 'E', i::OPEX),
("OPRA", "OPRA", "US", false, 'A', i::OPRA),
("OSLC", "OSLC", "NO", false, 'A', i::OSLC),
("OTCE", "OTCE", "GB", false, 'A', i::OTCE),
("OTCX", "OTCX", "IN", false, 'A', i::OTCX),
("PAVE", "PAVE", "ES", false, 'A', i::PAVE),
("PDEX", "PDEX", "PH", false, 'A', i::PDEX),
("PFTS", "PFTS", "UA", false, 'A', i::PFTS),
("PFTQ", "PFTS", "UA", true, 'A', i::PFTQ),
("PIEU", "PIEU", "GB", false, 'A', i::PIEU),
("PIPE", "PIPE", "US", false, 'A', i::PIPE),
("PIRM", "PIRM", "GB", false, 'A', i::PIRM),
("PMTS", "PMTS", "PT", false, 'E', i::PMTS),
("PRSE", "PRSE", "US", false, 'A', i::PRSE),
("PVMF", "TPEO", "GB", true, 'A', i::PVMF),
("PXIL", "PXIL", "IN", false, 'A', i::PXIL),
("XQLX", "QMTF", "HU", true, 'E', i::XQLX),
("QMTF", "QMTF", "HU", false, 'E', i::QMTF),
("QWIX", "QWIX", "GB", false, 'A', i::QWIX),
("RBSX", "RBSX", "GB", false, 'A', i::RBSX),
("RICX", "RICX", "US", false, 'E', i::RICX),
("RICD", "RICX", "US", true, 'E', i::RICD),
("ROCO", "ROCO", "TW", false, 'A', i::ROCO),
("ROFX", "ROFX", "AR", false, 'A', i::ROFX),
("ROTC", "ROTC", "RW", false, 'A', i::ROTC),
("RPDX", "RPDX", "RU", false, 'A', i::RPDX),
("RSEX", "RSEX", "RW", false, 'A', i::RSEX),
("RTSP", "RTSP", "SG", false, 'A', i::RTSP),
("S3FM", "S3FM", "CH", false, 'A', i::S3FM),
("SECC", "SECC", "SC", false, 'A', i::SECC),
("SECD", "SECD", "SC", false, 'A', i::SECD),
("SECE", "SECE", "SC", false, 'A', i::SECE),
("SECF", "SECF", "GB", false, 'A', i::SECF),
("SEDC", "SEDC", "SC", false, 'A', i::SEDC),
("SELC", "SELC", "BR", false, 'A', i::SELC),
("SEPE", "SEPE", "UA", false, 'A', i::SEPE),
("SGEX", "SGEX", "CN", false, 'A', i::SGEX),
("SGMA", "SGMA", "US", false, 'A', i::SGMA),
("SHAR", "SHAR", "GB", false, 'A', i::SHAR),
("SHAW", "SHAW", "US", false, 'A', i::SHAW),
("SHAD", "SHAW", "US", true, 'A', i::SHAD),
("SIGA", "SIGA", "AU", false, 'A', i::SIGA),
("SIGJ", "SIGJ", "JP", false, 'A', i::SIGJ),
("SIGX", "SIGX", "US", false, 'E', i::SIGX),
("SIMV", "SIMV", "AU", false, 'A', i::SIMV),
("SLXT", "SLXT", "GB", false, 'E', i::SLXT),
("SMEX", "SMEX", "SG", false, 'A', i::SMEX),
("SOHO", "SOHO", "US", false, 'A', i::SOHO),
("SPIM", "SPIM", "RU", false, 'A', i::SPIM),
("SPRZ", "SPRZ", "GB", false, 'A', i::SPRZ),
("SPXE", "SPXE", "SK", false, 'A', i::SPXE),
("SSEX", "SSEX", "GB", false, 'A', i::SSEX),
("SSTX", "SSTX", "US", false, 'A', i::SSTX),
("XSTV", "STOX", "CH", true, 'A', i::XSTV),
("STOX", "STOX", "CH", false, 'A', i::STOX),
("XSCU", "STOX", "CH", true, 'A', i::XSCU),
("XSTX", "STOX", "CH", true, 'A', i::XSTX),
("SWAP", "SWAP", "GB", false, 'A', i::SWAP),
("SXSI", "SXSI", "DK", false, 'A', i::SXSI),
("TERA", "TERA", "US", false, 'A', i::TERA),
("TFEX", "TFEX", "TH", false, 'A', i::TFEX),
("TFSA", "TFSA", "SG", false, 'A', i::TFSA),
("TFSU", "TFSU", "US", false, 'A', i::TFSU),
("TFSV", "TFSV", "GB", false, 'E', i::TFSV),
("TLAB", "TLAB", "IT", false, 'E', i::TLAB),
("TMID", "TMID", "US", false, 'A', i::TMID),
("TOCP", "TOCP", "HK", false, 'A', i::TOCP),
("TPIE", "TPIE", "GB", false, 'A', i::TPIE),
("TPIM", "TPIM", "GB", false, 'E', i::TPIM),
("TPSE", "TPSE", "US", false, 'A', i::TPSE),
("TPSV", "TPSE", "US", true, 'A', i::TPSV),
("TRCK", "TRCK", "US", false, 'A', i::TRCK),
("TFSS", "TRDE", "GB", true, 'E', i::TFSS),
("DBVX", "TRDE", "GB", true, 'E', i::DBVX),
("TFSC", "TRDE", "GB", true, 'E', i::TFSC),
("OILX", "TRDE", "GB", true, 'E', i::OILX),
("TCME", "TRDE", "GB", true, 'E', i::TCME),
("TFSE", "TRDE", "GB", true, 'E', i::TFSE),
("TREU", "TREU", "GB", false, 'A', i::TREU),
("TRQX", "TRQX", "GB", false, 'A', i::TRQX),
("TRQD", "TRQX", "GB", true, 'E', i::TRQD),
("TRU2", "TRUX", "US", true, 'A', i::TRU2),
("TRU1", "TRUX", "US", true, 'A', i::TRU1),
("TRUX", "TRUX", "US", false, 'A', i::TRUX),
("BNDD", "TRWB", "US", true, 'A', i::BNDD),
("TRWB", "TRWB", "US", false, 'A', i::TRWB),
("TWSF", "TRWB", "US", true, 'A', i::TWSF),
("DWSF", "TRWB", "US", true, 'A', i::DWSF),
("TRFX", "TRWB", "US", true, 'E', i::TRFX),
("TSEF", "TSEF", "US", false, 'A', i::TSEF),
("TWEU", "TWEU", "NL", false, 'A', i::TWEU),
("TWEM", "TWEU", "NL", true, 'A', i::TWEM),
("TWEA", "TWEU", "NL", true, 'A', i::TWEA),
("TWEO", "TWEU", "NL", true, 'A', i::TWEO),
("UBSP", "UBSA", "US", true, 'A', i::UBSP),
("UBSC", "UBSG", "CH", true, 'A', i::UBSC),
("UBSG", "UBSG", "CH", false, 'A', i::UBSG),
("UBSF", "UBSG", "CH", true, 'A', i::UBSF),
("UBST", "UBST", "CH", false, 'E', i::UBST),
("UBSX", "UBSX", "HK", false, 'A', i::UBSX),
("UKEX", "UKEX", "UA", false, 'A', i::UKEX),
("UKPX", "UKPX", "GB", false, 'A', i::UKPX),
("ULTX", "ULTX", "UG", false, 'A', i::ULTX),
("VEGA", "VEGA", "GB", false, 'A', i::VEGA),
("VFCM", "VFCM", "US", false, 'A', i::VFCM),
("VMFX", "VMFX", "FO", false, 'A', i::VMFX),
("WSAG", "WSAG", "US", false, 'A', i::WSAG),
("XABJ", "XABJ", "CI", false, 'E', i::XABJ),
("XACE", "XACE", "NL", false, 'E', i::XACE),
("XADS", "XADS", "AE", false, 'A', i::XADS),
("XAEX", "XAEX", "NL", false, 'E', i::XAEX),
("XAFR", "XAFR", "FR", false, 'A', i::XAFR),
("XAFX", "XAFX", "MU", false, 'A', i::XAFX),
("XALB", "XALB", "CA", false, 'E', i::XALB),
("XALG", "XALG", "DZ", false, 'A', i::XALG),
("XEUC", "XAMS", "NL", true, 'A', i::XEUC),
("XAMS", "XAMS", "NL", false, 'A', i::XAMS),
("XEUI", "XAMS", "NL", true, 'A', i::XEUI),
("TNLA", "XAMS", "NL", true, 'A', i::TNLA),
("XHFT", "XAMS", "NL", true, 'E', i::XHFT),
("XEUE", "XAMS", "NL", true, 'A', i::XEUE),
("XANT", "XANT", "BE", false, 'E', i::XANT),
("XAOM", "XAOM", "AU", false, 'E', i::XAOM),
("XAPI", "XAPI", "RU", false, 'E', i::XAPI),
("XAQS", "XAQS", "US", false, 'A', i::XAQS),
("XARC", "XARC", "US", false, 'E', i::XARC),
("XARM", "XARM", "AM", false, 'A', i::XARM),
("XASX", "XASX", "AU", false, 'A', i::XASX),
("ASXT", "XASX", "AU", true, 'A', i::ASXT),
("ASXB", "XASX", "AU", true, 'A', i::ASXB),
("ASXV", "XASX", "AU", true, 'A', i::ASXV),
("ASXP", "XASX", "AU", true, 'A', i::ASXP),
("XSFE", "XASX", "AU", true, 'A', i::XSFE),
("XATS", "XATS", "CA", false, 'A', i::XATS),
("XAUK", "XAUK", "NZ", false, 'E', i::XAUK),
("XAZX", "XAZX", "US", false, 'E', i::XAZX),
("XBAA", "XBAA", "BS", false, 'A', i::XBAA),
("XBAB", "XBAB", "BB", false, 'A', i::XBAB),
("BAJM", "XBAB", "BB", true, 'A', i::BAJM),
("XBAH", "XBAH", "BH", false, 'A', i::XBAH),
("XBAN", "XBAN", "IN", false, 'A', i::XBAN),
("XBAV", "XBAV", "ES", false, 'E', i::XBAV),
("XBBF", "XBBF", "BR", false, 'E', i::XBBF),
("XBBJ", "XBBJ", "ID", false, 'A', i::XBBJ),
("XBBK", "XBBK", "CA", false, 'A', i::XBBK),
("XBCC", "XBCC", "AR", false, 'A', i::XBCC),
("MVCX", "XBCC", "AR", true, 'A', i::MVCX),
("XBCE", "XBCE", "HU", false, 'E', i::XBCE),
("XBCL", "XBCL", "CL", false, 'A', i::XBCL),
("XBCM", "XBCM", "AR", false, 'A', i::XBCM),
("XBCX", "XBCM", "AR", true, 'A', i::XBCX),
("XBCV", "XBCV", "HN", false, 'A', i::XBCV),
("XBDA", "XBDA", "BM", false, 'A', i::XBDA),
("BERA", "XBER", "DE", true, 'A', i::BERA),
("BERB", "XBER", "DE", true, 'A', i::BERB),
("BERC", "XBER", "DE", true, 'A', i::BERC),
("XBER", "XBER", "DE", false, 'A', i::XBER),
("ZOBX", "XBER", "DE", true, 'A', i::ZOBX),
("EQTA", "XBER", "DE", true, 'A', i::EQTA),
("EQTB", "XBER", "DE", true, 'A', i::EQTB),
("EQTC", "XBER", "DE", true, 'A', i::EQTC),
("EQTD", "XBER", "DE", true, 'A', i::EQTD),
("XEQT", "XBER", "DE", true, 'A', i::XEQT),
("XBEY", "XBEY", "LB", false, 'A', i::XBEY),
("XBFO", "XBFO", "BE", false, 'E', i::XBFO),
("XMAI", "XBKK", "TH", true, 'A', i::XMAI),
("XBKK", "XBKK", "TH", false, 'A', i::XBKK),
("XBKF", "XBKK", "TH", true, 'A', i::XBKF),
("XBLN", "XBLN", "FR", false, 'A', i::XBLN),
("XBNV", "XBNV", "CR", false, 'A', i::XBNV),
("XBOG", "XBOG", "CO", false, 'A', i::XBOG),
("XBOL", "XBOL", "BO", false, 'A', i::XBOL),
("XBOM", "XBOM", "IN", false, 'A', i::XBOM),
("BSME", "XBOM", "IN", true, 'A', i::BSME),
("BOTE", "XBOT", "BW", true, 'A', i::BOTE),
("XBOT", "XBOT", "BW", false, 'A', i::XBOT),
("BOTV", "XBOT", "BW", true, 'A', i::BOTV),
("XBRA", "XBRA", "SK", false, 'A', i::XBRA),
("XBRE", "XBRE", "DE", false, 'E', i::XBRE),
("XBRM", "XBRM", "RO", false, 'A', i::XBRM),
("EQWB", "XBRN", "CH", true, 'E', i::EQWB),
("XBRN", "XBRN", "CH", false, 'A', i::XBRN),
("VPXB", "XBRU", "BE", true, 'A', i::VPXB),
("TNLB", "XBRU", "BE", true, 'A', i::TNLB),
("XBRU", "XBRU", "BE", false, 'A', i::XBRU),
("XBRD", "XBRU", "BE", true, 'A', i::XBRD),
("XBRV", "XBRV", "CI", false, 'A', i::XBRV),
("XRAS", "XBSE", "RO", true, 'A', i::XRAS),
("XBSE", "XBSE", "RO", false, 'A', i::XBSE),
("XBSD", "XBSE", "RO", true, 'A', i::XBSD),
("XBTF", "XBTF", "US", false, 'E', i::XBTF),
("XBUD", "XBUD", "HU", false, 'A', i::XBUD),
("XTND", "XBUD", "HU", true, 'A', i::XTND),
("XBUE", "XBUE", "AR", false, 'A', i::XBUE),
("XMEV", "XBUE", "AR", true, 'A', i::XMEV),
("XBUL", "XBUL", "BG", false, 'A', i::XBUL),
("ABUL", "XBUL", "BG", true, 'A', i::ABUL),
("XBVC", "XBVC", "CV", false, 'A', i::XBVC),
("XBVP", "XBVP", "BR", false, 'E', i::XBVP),
("XBVR", "XBVR", "DO", false, 'A', i::XBVR),
("XCAI", "XCAI", "EG", false, 'A', i::XCAI),
("XCAL", "XCAL", "IN", false, 'A', i::XCAL),
("XCAS", "XCAS", "MA", false, 'A', i::XCAS),
("XCAY", "XCAY", "KY", false, 'A', i::XCAY),
("CBSX", "XCBO", "US", true, 'A', i::CBSX),
("XCBF", "XCBO", "US", true, 'A', i::XCBF),
("XCBT", "XCBT", "US", false, 'A', i::XCBT),
("FCBT", "XCBT", "US", true, 'A', i::FCBT),
("XKBT", "XCBT", "US", true, 'A', i::XKBT),
("XCCE", "XCCE", "JP", false, 'E', i::XCCE),
("XCCX", "XCCX", "US", false, 'E', i::XCCX),
("XCDE", "XCDE", "IE", false, 'A', i::XCDE),
("XCET", "XCET", "UZ", false, 'A', i::XCET),
("XCFE", "XCFE", "CN", false, 'A', i::XCFE),
("XCFF", "XCFF", "US", false, 'A', i::XCFF),
("XCGS", "XCGS", "HK", false, 'A', i::XCGS),
("XCHG", "XCHG", "BD", false, 'A', i::XCHG),
("XCIE", "XCIE", "GG", false, 'A', i::XCIE),
("FCME", "XCME", "US", true, 'A', i::FCME),
("XIMM", "XCME", "US", true, 'A', i::XIMM),
("XCME", "XCME", "US", false, 'A', i::XCME),
("GLBX", "XCME", "US", true, 'A', i::GLBX),
("XIOM", "XCME", "US", true, 'A', i::XIOM),
("CMES", "XCME", "US", true, 'A', i::CMES),
("CBTS", "XCME", "US", true, 'A', i::CBTS),
("NYMS", "XCME", "US", true, 'A', i::NYMS),
("CECS", "XCME", "US", true, 'A', i::CECS),
("XCNF", "XCNF", "AR", false, 'A', i::XCNF),
("XCOL", "XCOL", "LK", false, 'A', i::XCOL),
("XCOR", "XCOR", "GB", false, 'A', i::XCOR),
("XCRC", "XCRC", "US", false, 'E', i::XCRC),
("XCRO", "XCRO", "HR", false, 'A', i::XCRO),
("XCSC", "XCSC", "US", false, 'E', i::XCSC),
("DCSE", "XCSE", "DK", true, 'A', i::DCSE),
("XCSE", "XCSE", "DK", false, 'A', i::XCSE),
("MNDK", "XCSE", "DK", true, 'A', i::MNDK),
("FNDK", "XCSE", "DK", true, 'A', i::FNDK),
("DNDK", "XCSE", "DK", true, 'A', i::DNDK),
("MCSE", "XCSE", "DK", true, 'A', i::MCSE),
("XFND", "XCSE", "DK", true, 'E', i::XFND),
("XCSX", "XCSX", "KH", false, 'A', i::XCSX),
("XCUE", "XCUE", "UZ", false, 'A', i::XCUE),
("XCUR", "XCUR", "US", false, 'A', i::XCUR),
("XCXD", "XCXD", "CA", false, 'A', i::XCXD),
("XCYO", "XCYS", "CY", true, 'A', i::XCYO),
("XCYS", "XCYS", "CY", false, 'A', i::XCYS),
("XECM", "XCYS", "CY", true, 'A', i::XECM),
("XDAR", "XDAR", "TZ", false, 'A', i::XDAR),
("XDCE", "XDCE", "CN", false, 'A', i::XDCE),
("XDES", "XDES", "IN", false, 'A', i::XDES),
("XDFB", "XDFB", "UA", false, 'A', i::XDFB),
("XDFM", "XDFM", "AE", false, 'A', i::XDFM),
("XDHA", "XDHA", "BD", false, 'A', i::XDHA),
("XDPA", "XDPA", "ES", false, 'A', i::XDPA),
("XDSE", "XDSE", "SY", false, 'A', i::XDSE),
("XDSX", "XDSX", "CM", false, 'A', i::XDSX),
("XDTB", "XDTB", "DE", false, 'E', i::XDTB),
("DUSA", "XDUS", "DE", true, 'A', i::DUSA),
("DUSB", "XDUS", "DE", true, 'A', i::DUSB),
("DUSC", "XDUS", "DE", true, 'A', i::DUSC),
("DUSD", "XDUS", "DE", true, 'A', i::DUSD),
("XDUS", "XDUS", "DE", false, 'A', i::XDUS),
("XQTX", "XDUS", "DE", true, 'A', i::XQTX),
("XDWZ", "XDWZ", "DE", false, 'E', i::XDWZ),
("XEBI", "XEBI", "IE", false, 'A', i::XEBI),
("XECB", "XECB", "DE", false, 'A', i::XECB),
("XECC", "XECC", "DE", false, 'A', i::XECC),
("XECS", "XECS", "KN", false, 'A', i::XECS),
("XELX", "XELX", "US", false, 'A', i::XELX),
("XEMD", "XEMD", "MX", false, 'A', i::XEMD),
("XEMS", "XEMS", "NL", false, 'A', i::XEMS),
("XETD", "XETI", "DE", true, 'E', i::XETD),
("XETI", "XETI", "DE", false, 'E', i::XETI),
("XETC", "XETI", "DE", true, 'E', i::XETC),
("XETR", "XETR", "DE", false, 'A', i::XETR),
("XETB", "XETR", "DE", true, 'A', i::XETB),
("XETA", "XETR", "DE", true, 'A', i::XETA),
("XERT", "XEUP", "DE", true, 'A', i::XERT),
("XERE", "XEUP", "DE", true, 'A', i::XERE),
("XEUM", "XEUP", "DE", true, 'A', i::XEUM),
("XEUP", "XEUP", "DE", false, 'A', i::XEUP),
("XEUR", "XEUR", "DE", false, 'A', i::XEUR),
("XFCM", "XFCM", "ES", false, 'E', i::XFCM),
("XFFE", "XFFE", "JP", false, 'E', i::XFFE),
("XFKA", "XFKA", "JP", false, 'A', i::XFKA),
("XFMN", "XFMN", "FR", false, 'E', i::XFMN),
("XFOM", "XFOM", "FI", false, 'E', i::XFOM),
("XDBC", "XFRA", "DE", true, 'E', i::XDBC),
("XFRA", "XFRA", "DE", false, 'A', i::XFRA),
("XDBV", "XFRA", "DE", true, 'E', i::XDBV),
("FRAA", "XFRA", "DE", true, 'A', i::FRAA),
("FRAD", "XFRA", "DE", true, 'E', i::FRAD),
("FRAB", "XFRA", "DE", true, 'A', i::FRAB),
("XDBX", "XFRA", "DE", true, 'E', i::XDBX),
("XNEW", "XFRA", "DE", true, 'E', i::XNEW),
("XFTA", "XFTA", "NL", false, 'E', i::XFTA),
("XGAS", "XGAS", "HU", false, 'A', i::XGAS),
("XGCL", "XGCL", "GB", false, 'A', i::XGCL),
("XGHA", "XGHA", "GH", false, 'A', i::XGHA),
("XGME", "XGME", "IT", false, 'A', i::XGME),
("XGMX", "XGMX", "US", false, 'A', i::XGMX),
("XGSE", "XGSE", "GE", false, 'A', i::XGSE),
("XGTG", "XGTG", "GT", false, 'A', i::XGTG),
("XGUA", "XGUA", "EC", false, 'A', i::XGUA),
("HAMA", "XHAM", "DE", true, 'A', i::HAMA),
("HAMB", "XHAM", "DE", true, 'A', i::HAMB),
("XHAM", "XHAM", "DE", false, 'A', i::XHAM),
("HAMM", "XHAM", "DE", true, 'A', i::HAMM),
("HAML", "XHAM", "DE", true, 'E', i::HAML),
("HAMN", "XHAM", "DE", true, 'A', i::HAMN),
("HANB", "XHAN", "DE", true, 'A', i::HANB),
("HANA", "XHAN", "DE", true, 'A', i::HANA),
("XHAN", "XHAN", "DE", false, 'A', i::XHAN),
("MNFI", "XHEL", "FI", true, 'A', i::MNFI),
("FNFI", "XHEL", "FI", true, 'A', i::FNFI),
("DNFI", "XHEL", "FI", true, 'A', i::DNFI),
("XHEL", "XHEL", "FI", false, 'A', i::XHEL),
("DHEL", "XHEL", "FI", true, 'A', i::DHEL),
("MHEL", "XHEL", "FI", true, 'A', i::MHEL),
("XHIR", "XHIR", "JP", false, 'E', i::XHIR),
("XHKF", "XHKF", "HK", false, 'A', i::XHKF),
("XHKG", "XHKG", "HK", false, 'A', i::XHKG),
("SHSC", "XHKG", "HK", true, 'A', i::SHSC),
("SZSC", "XHKG", "HK", true, 'A', i::SZSC),
("XGEM", "XHKG", "HK", true, 'A', i::XGEM),
("XIAB", "XIAB", "TR", false, 'E', i::XIAB),
("XIBE", "XIBE", "AZ", false, 'A', i::XIBE),
("FNIS", "XICE", "IS", true, 'A', i::FNIS),
("MICE", "XICE", "IS", true, 'A', i::MICE),
("XICE", "XICE", "IS", false, 'A', i::XICE),
("DNIS", "XICE", "IS", true, 'A', i::DNIS),
("ISEC", "XICE", "IS", true, 'E', i::ISEC),
("DICE", "XICE", "IS", true, 'A', i::DICE),
("MNIS", "XICE", "IS", true, 'A', i::MNIS),
("XICX", "XICX", "CA", false, 'A', i::XICX),
("XIDX", "XIDX", "ID", false, 'A', i::XIDX),
("XIHK", "XIHK", "HK", false, 'A', i::XIHK),
("XIMA", "XIMA", "NO", false, 'A', i::XIMA),
("XIMC", "XIMC", "IN", false, 'A', i::XIMC),
("XIME", "XIME", "TW", false, 'E', i::XIME),
("ICRO", "XINS", "US", true, 'A', i::ICRO),
("XINS", "XINS", "US", false, 'A', i::XINS),
("ICBX", "XINS", "US", true, 'A', i::ICBX),
("MOCX", "XINS", "US", true, 'A', i::MOCX),
("XINV", "XINV", "DE", false, 'A', i::XINV),
("XIPE", "XIPE", "GB", false, 'E', i::XIPE),
("XIQS", "XIQS", "IQ", false, 'A', i::XIQS),
("XPMS", "XIST", "TR", true, 'A', i::XPMS),
("XFNO", "XIST", "TR", true, 'A', i::XFNO),
("XDSM", "XIST", "TR", true, 'A', i::XDSM),
("XIST", "XIST", "TR", false, 'A', i::XIST),
("XEQY", "XIST", "TR", true, 'A', i::XEQY),
("XISE", "XISX", "US", true, 'A', i::XISE),
("GMNI", "XISX", "US", true, 'A', i::GMNI),
("XTPZ", "XISX", "US", true, 'E', i::XTPZ),
("MCRY", "XISX", "US", true, 'A', i::MCRY),
("XISA", "XISX", "US", true, 'A', i::XISA),
("XISX", "XISX", "US", false, 'A', i::XISX),
("XJAM", "XJAM", "JM", false, 'A', i::XJAM),
("XJNB", "XJNB", "ID", false, 'A', i::XJNB),
("XTK1", "XJPX", "JP", true, 'A', i::XTK1),
("XJAS", "XJPX", "JP", true, 'E', i::XJAS),
("XTKS", "XJPX", "JP", true, 'A', i::XTKS),
("XOSE", "XJPX", "JP", true, 'A', i::XOSE),
("XTAM", "XJPX", "JP", true, 'A', i::XTAM),
("XTK3", "XJPX", "JP", true, 'A', i::XTK3),
("XTK2", "XJPX", "JP", true, 'A', i::XTK2),
("XJPX", "XJPX", "JP", false, 'A', i::XJPX),
("XOSJ", "XJPX", "JP", true, 'A', i::XOSJ),
("XBES", "XJSE", "ZA", true, 'A', i::XBES),
("XJSE", "XJSE", "ZA", false, 'A', i::XJSE),
("ALTX", "XJSE", "ZA", true, 'A', i::ALTX),
("XSAF", "XJSE", "ZA", true, 'A', i::XSAF),
("XSFA", "XJSE", "ZA", true, 'A', i::XSFA),
("YLDX", "XJSE", "ZA", true, 'A', i::YLDX),
("XJWY", "XJWY", "GB", false, 'E', i::XJWY),
("XKAC", "XKAC", "JP", false, 'A', i::XKAC),
("XKAZ", "XKAZ", "KZ", false, 'A', i::XKAZ),
("XKCE", "XKCE", "UZ", false, 'A', i::XKCE),
("XKFB", "XKFB", "KR", false, 'A', i::XKFB),
("XKGT", "XKGT", "JP", false, 'E', i::XKGT),
("XKHA", "XKHA", "SD", false, 'A', i::XKHA),
("XKHR", "XKHR", "UA", false, 'A', i::XKHR),
("XKIE", "XKIE", "UA", false, 'A', i::XKIE),
("XKIS", "XKIS", "UA", false, 'A', i::XKIS),
("XKKT", "XKKT", "JP", false, 'E', i::XKKT),
("XKLS", "XKLS", "MY", false, 'A', i::XKLS),
("MESQ", "XKLS", "MY", true, 'A', i::MESQ),
("XKOR", "XKOR", "KR", false, 'E', i::XKOR),
("XKON", "XKRX", "KR", true, 'A', i::XKON),
("XKRX", "XKRX", "KR", false, 'A', i::XKRX),
("XKFE", "XKRX", "KR", true, 'A', i::XKFE),
("XKOS", "XKRX", "KR", true, 'A', i::XKOS),
("XKCM", "XKRX", "KR", true, 'A', i::XKCM),
("XKEM", "XKRX", "KR", true, 'A', i::XKEM),
("XKSE", "XKSE", "KG", false, 'A', i::XKSE),
("XKST", "XKST", "JP", false, 'E', i::XKST),
("XKUW", "XKUW", "KW", false, 'A', i::XKUW),
("XKYO", "XKYO", "JP", false, 'E', i::XKYO),
("XLAO", "XLAO", "LA", false, 'A', i::XLAO),
("XLBM", "XLBM", "GB", false, 'A', i::XLBM),
("XLCE", "XLCE", "GB", false, 'E', i::XLCE),
("XLDN", "XLDN", "GB", false, 'E', i::XLDN),
("XLIF", "XLDN", "GB", true, 'E', i::XLIF),
("XLFX", "XLFX", "MY", false, 'A', i::XLFX),
("XLIM", "XLIM", "PE", false, 'A', i::XLIM),
("MFOX", "XLIS", "PT", true, 'A', i::MFOX),
("WQXL", "XLIS", "PT", true, 'A', i::WQXL),
("FNLT", "XLIT", "LT", true, 'A', i::FNLT),
("XLIT", "XLIT", "LT", false, 'A', i::XLIT),
("XLJM", "XLJU", "SI", true, 'A', i::XLJM),
("XLJU", "XLJU", "SI", false, 'A', i::XLJU),
("XLME", "XLME", "GB", false, 'A', i::XLME),
("XLON", "XLON", "GB", false, 'A', i::XLON),
("XLSM", "XLSM", "LY", false, 'A', i::XLSM),
("XLTO", "XLTO", "GB", false, 'E', i::XLTO),
("XLUS", "XLUS", "ZM", false, 'A', i::XLUS),
("XLUX", "XLUX", "LU", false, 'A', i::XLUX),
("EMTF", "XLUX", "LU", true, 'A', i::EMTF),
("XMAB", "XMAB", "AR", false, 'A', i::XMAB),
("XMAC", "XMAC", "US", false, 'E', i::XMAC),
("XMAE", "XMAE", "MK", false, 'A', i::XMAE),
("PROS", "XMAL", "MT", true, 'A', i::PROS),
("XMAN", "XMAN", "NI", false, 'A', i::XMAN),
("XMAP", "XMAP", "MZ", false, 'E', i::XMAP),
("XMAU", "XMAU", "MU", false, 'A', i::XMAU),
("XMDG", "XMDG", "MG", false, 'A', i::XMDG),
("XMDS", "XMDS", "IN", false, 'A', i::XMDS),
("XMER", "XMER", "US", false, 'A', i::XMER),
("XMEX", "XMEX", "MX", false, 'A', i::XMEX),
("XMGE", "XMGE", "US", false, 'A', i::XMGE),
("XMID", "XMID", "US", false, 'E', i::XMID),
("XMIF", "XMIF", "IT", false, 'E', i::XMIF),
("MTAH", "XMIL", "IT", true, 'A', i::MTAH),
("ATFX", "XMIL", "IT", true, 'A', i::ATFX),
("XMIL", "XMIL", "IT", false, 'A', i::XMIL),
("MIVX", "XMIL", "IT", true, 'A', i::MIVX),
("XAIM", "XMIL", "IT", true, 'E', i::XAIM),
("XDMI", "XMIL", "IT", true, 'A', i::XDMI),
("MACX", "XMIL", "IT", true, 'E', i::MACX),
("MTAA", "XMIL", "IT", true, 'A', i::MTAA),
("XMLX", "XMLX", "GB", false, 'E', i::XMLX),
("XMNT", "XMNT", "UY", false, 'A', i::XMNT),
("XMNX", "XMNX", "ME", false, 'A', i::XMNX),
("XMOC", "XMOC", "CA", false, 'A', i::XMOC),
("XMOD", "XMOD", "CA", false, 'A', i::XMOD),
("XMOL", "XMOL", "MD", false, 'A', i::XMOL),
("XMOO", "XMOO", "CA", false, 'E', i::XMOO),
("XMSW", "XMSW", "MW", false, 'A', i::XMSW),
("XMTB", "XMTB", "AR", false, 'A', i::XMTB),
("CMTS", "XMTS", "GB", true, 'E', i::CMTS),
("TMTS", "XMTS", "GB", true, 'E', i::TMTS),
("LMTS", "XMTS", "GB", true, 'E', i::LMTS),
("EACM", "XMTS", "GB", true, 'E', i::EACM),
("BVUK", "XMTS", "GB", true, 'A', i::BVUK),
("XMTS", "XMTS", "GB", false, 'A', i::XMTS),
("NMTS", "XMTS", "GB", true, 'E', i::NMTS),
("PLUS", "XMUN", "DE", true, 'E', i::PLUS),
("XMUS", "XMUS", "OM", false, 'A', i::XMUS),
("XNAF", "XNAF", "ES", false, 'A', i::XNAF),
("XNAI", "XNAI", "KE", false, 'A', i::XNAI),
("XNAM", "XNAM", "NA", false, 'A', i::XNAM),
("NASD", "XNAS", "US", true, 'A', i::NASD),
("XNMS", "XNAS", "US", true, 'A', i::XNMS),
("XNAS", "XNAS", "US", false, 'A', i::XNAS),
("XNDQ", "XNAS", "US", true, 'A', i::XNDQ),
("XNGS", "XNAS", "US", true, 'A', i::XNGS),
("XNCM", "XNAS", "US", true, 'A', i::XNCM),
("XNIM", "XNAS", "US", true, 'A', i::XNIM),
("XBOS", "XNAS", "US", true, 'A', i::XBOS),
("BOSD", "XNAS", "US", true, 'A', i::BOSD),
("XBXO", "XNAS", "US", true, 'A', i::XBXO),
("XPOR", "XNAS", "US", true, 'A', i::XPOR),
("XPSX", "XNAS", "US", true, 'A', i::XPSX),
("XBRT", "XNAS", "US", true, 'A', i::XBRT),
("PSXD", "XNAS", "US", true, 'A', i::PSXD),
("XPBT", "XNAS", "US", true, 'A', i::XPBT),
("XPHO", "XNAS", "US", true, 'A', i::XPHO),
("XPHL", "XNAS", "US", true, 'A', i::XPHL),
("XNCD", "XNCD", "IN", false, 'A', i::XNCD),
("XNEC", "XNEC", "AU", false, 'A', i::XNEC),
("XNEE", "XNEE", "NZ", false, 'E', i::XNEE),
("XNEP", "XNEP", "NP", false, 'A', i::XNEP),
("XNGM", "XNGM", "SE", false, 'A', i::XNGM),
("NMTF", "XNGM", "SE", true, 'A', i::NMTF),
("XNGO", "XNGO", "JP", false, 'A', i::XNGO),
("XNII", "XNII", "JP", false, 'E', i::XNII),
("XNKS", "XNKS", "JP", false, 'A', i::XNKS),
("XNQL", "XNQL", "US", false, 'E', i::XNQL),
("XNSA", "XNSA", "NG", false, 'A', i::XNSA),
("INSE", "XNSE", "IN", true, 'A', i::INSE),
("XNSE", "XNSE", "IN", false, 'A', i::XNSE),
("XNST", "XNST", "JP", false, 'E', i::XNST),
("XNYC", "XNYC", "US", false, 'E', i::XNYC),
("XNYM", "XNYM", "US", false, 'A', i::XNYM),
("XCEC", "XNYM", "US", true, 'A', i::XCEC),
("XNYE", "XNYM", "US", true, 'A', i::XNYE),
("XNYL", "XNYM", "US", true, 'A', i::XNYL),
("ALDP", "XNYS", "US", true, 'A', i::ALDP),
("ARCX", "XNYS", "US", true, 'A', i::ARCX),
("XNYS", "XNYS", "US", false, 'A', i::XNYS),
("XASE", "XNYS", "US", true, 'A', i::XASE),
("XNLI", "XNYS", "US", true, 'A', i::XNLI),
("NYSD", "XNYS", "US", true, 'A', i::NYSD),
("AMXO", "XNYS", "US", true, 'A', i::AMXO),
("ARCD", "XNYS", "US", true, 'A', i::ARCD),
("ARCO", "XNYS", "US", true, 'A', i::ARCO),
("XNZE", "XNZE", "NZ", false, 'A', i::XNZE),
("XODE", "XODE", "UA", false, 'A', i::XODE),
("XOFF", "XOFF", "ZZ", false, 'A', i::XOFF),
("XOME", "XOME", "SE", false, 'E', i::XOME),
("BURG", "XOSL", "NO", true, 'E', i::BURG),
("MERD", "XOSL", "NO", true, 'A', i::MERD),
("XOAM", "XOSL", "NO", true, 'A', i::XOAM),
("BURM", "XOSL", "NO", true, 'E', i::BURM),
("XOSC", "XOSL", "NO", true, 'A', i::XOSC),
("XOAD", "XOSL", "NO", true, 'A', i::XOAD),
("XOSD", "XOSL", "NO", true, 'A', i::XOSD),
("NIBR", "XOSL", "NO", true, 'A', i::NIBR),
("XOSM", "XOSM", "JP", false, 'E', i::XOSM),
("XOST", "XOST", "JP", false, 'E', i::XOST),
("XOTB", "XOTB", "AT", false, 'E', i::XOTB),
("XOTC", "XOTC", "US", false, 'E', i::XOTC),
("XPAE", "XPAE", "PS", false, 'A', i::XPAE),
("XSPM", "XPAR", "FR", true, 'A', i::XSPM),
("MTCH", "XPAR", "FR", true, 'A', i::MTCH),
("XPAR", "XPAR", "FR", false, 'A', i::XPAR),
("XMAT", "XPAR", "FR", true, 'A', i::XMAT),
("XMON", "XPAR", "FR", true, 'A', i::XMON),
("XPHS", "XPHS", "PH", false, 'A', i::XPHS),
("XPIC", "XPIC", "RU", false, 'A', i::XPIC),
("XPOW", "XPOW", "FR", false, 'A', i::XPOW),
("XPRA", "XPRA", "CZ", false, 'A', i::XPRA),
("XPRM", "XPRA", "CZ", true, 'A', i::XPRM),
("STRT", "XPRA", "CZ", true, 'E', i::STRT),
("SPAD", "XPRA", "CZ", true, 'E', i::SPAD),
("XPRI", "XPRI", "UA", false, 'A', i::XPRI),
("XPSE", "XPSE", "US", false, 'E', i::XPSE),
("XPST", "XPST", "HK", false, 'A', i::XPST),
("XPTY", "XPTY", "PA", false, 'A', i::XPTY),
("XPXE", "XPXE", "CZ", false, 'A', i::XPXE),
("XQUI", "XQUI", "EC", false, 'A', i::XQUI),
("XRBM", "XRBM", "MY", false, 'A', i::XRBM),
("XRIO", "XRIO", "BR", false, 'E', i::XRIO),
("XRIS", "XRIS", "LV", false, 'A', i::XRIS),
("FNLV", "XRIS", "LV", true, 'A', i::FNLV),
("XRMZ", "XRMZ", "CZ", false, 'A', i::XRMZ),
("XROS", "XROS", "AR", false, 'A', i::XROS),
("XROX", "XROS", "AR", true, 'A', i::XROX),
("XTUC", "XROS", "AR", true, 'A', i::XTUC),
("XRPM", "XRPM", "RO", false, 'A', i::XRPM),
("XRUS", "XRUS", "RU", false, 'A', i::XRUS),
("XSAM", "XSAM", "RU", false, 'A', i::XSAM),
("XSAP", "XSAP", "JP", false, 'A', i::XSAP),
("XSAU", "XSAU", "SA", false, 'A', i::XSAU),
("XSC2", "XSCO", "DE", true, 'A', i::XSC2),
("XSC3", "XSCO", "DE", true, 'A', i::XSC3),
("XSC1", "XSCO", "DE", true, 'A', i::XSC1),
("XSCO", "XSCO", "DE", false, 'A', i::XSCO),
("XSEF", "XSEF", "US", false, 'E', i::XSEF),
("XSCL", "XSES", "SG", true, 'E', i::XSCL),
("XSES", "XSES", "SG", false, 'A', i::XSES),
("XSIM", "XSES", "SG", true, 'A', i::XSIM),
("XSCE", "XSES", "SG", true, 'A', i::XSCE),
("XINE", "XSGE", "CN", true, 'A', i::XINE),
("XSGE", "XSGE", "CN", false, 'A', i::XSGE),
("XSGO", "XSGO", "CL", false, 'A', i::XSGO),
("XSEC", "XSHE", "CN", true, 'A', i::XSEC),
("XSHE", "XSHE", "CN", false, 'A', i::XSHE),
("XSSC", "XSHG", "CN", true, 'A', i::XSSC),
("XSHG", "XSHG", "CN", false, 'A', i::XSHG),
("XSIB", "XSIB", "RU", false, 'A', i::XSIB),
("XSME", "XSME", "CN", false, 'E', i::XSME),
("XSOM", "XSOM", "BR", false, 'E', i::XSOM),
("XSOP", "XSOP", "SI", false, 'A', i::XSOP),
("XSPS", "XSPS", "FJ", false, 'A', i::XSPS),
("XSRM", "XSRM", "ES", false, 'E', i::XSRM),
("XSSE", "XSSE", "BA", false, 'A', i::XSSE),
("XSTC", "XSTC", "VN", false, 'A', i::XSTC),
("XSTE", "XSTE", "UZ", false, 'A', i::XSTE),
("DNSE", "XSTO", "SE", true, 'A', i::DNSE),
("FNSE", "XSTO", "SE", true, 'A', i::FNSE),
("CSTO", "XSTO", "SE", true, 'A', i::CSTO),
("MNSE", "XSTO", "SE", true, 'A', i::MNSE),
("MSTO", "XSTO", "SE", true, 'A', i::MSTO),
("XSTO", "XSTO", "SE", false, 'A', i::XSTO),
("DSTO", "XSTO", "SE", true, 'A', i::DSTO),
("STUB", "XSTU", "DE", true, 'A', i::STUB),
("STUA", "XSTU", "DE", true, 'A', i::STUA),
("XSTU", "XSTU", "DE", false, 'A', i::XSTU),
("EUWX", "XSTU", "DE", true, 'A', i::EUWX),
("XSVA", "XSVA", "SV", false, 'A', i::XSVA),
("XSWA", "XSWA", "SZ", false, 'A', i::XSWA),
("XSWB", "XSWB", "GB", false, 'A', i::XSWB),
("XSWO", "XSWO", "CH", false, 'E', i::XSWO),
("XTAD", "XTAD", "TW", false, 'E', i::XTAD),
("XTAE", "XTAE", "IL", false, 'A', i::XTAE),
("XTAF", "XTAF", "TW", false, 'A', i::XTAF),
("XTAI", "XTAI", "TW", false, 'A', i::XTAI),
("XTAL", "XTAL", "EE", false, 'A', i::XTAL),
("FNEE", "XTAL", "EE", true, 'A', i::FNEE),
("XTEH", "XTEH", "IR", false, 'A', i::XTEH),
("XTFE", "XTFE", "CA", false, 'E', i::XTFE),
("XTFF", "XTFF", "JP", false, 'A', i::XTFF),
("XTFN", "XTFN", "GB", false, 'E', i::XTFN),
("XTIR", "XTIR", "AL", false, 'A', i::XTIR),
("XTKA", "XTKA", "JP", false, 'E', i::XTKA),
("XTKO", "XTKO", "JP", false, 'E', i::XTKO),
("XTKT", "XTKT", "JP", false, 'A', i::XTKT),
("XTOE", "XTOE", "CA", false, 'E', i::XTOE),
("XTRA", "XTRA", "DK", false, 'E', i::XTRA),
("XTRN", "XTRN", "TT", false, 'A', i::XTRN),
("XTRZ", "XTRZ", "HR", false, 'A', i::XTRZ),
("XTSE", "XTSE", "CA", false, 'A', i::XTSE),
("XTSX", "XTSX", "CA", false, 'A', i::XTSX),
("XTNX", "XTSX", "CA", true, 'A', i::XTNX),
("XTUN", "XTUN", "TN", false, 'A', i::XTUN),
("TPCD", "XTUP", "GB", true, 'E', i::TPCD),
("TBLA", "XTUP", "GB", true, 'E', i::TBLA),
("TPFD", "XTUP", "GB", true, 'E', i::TPFD),
("TPSP", "XTUP", "GB", true, 'E', i::TPSP),
("XTUP", "XTUP", "GB", false, 'E', i::XTUP),
("TPSD", "XTUP", "GB", true, 'E', i::TPSD),
("TPRE", "XTUP", "GB", true, 'E', i::TPRE),
("TPEQ", "XTUP", "GB", true, 'E', i::TPEQ),
("XTPE", "XTUP", "GB", true, 'E', i::XTPE),
("TBEN", "XTUP", "GB", true, 'E', i::TBEN),
("XTUR", "XTUR", "TR", false, 'E', i::XTUR),
("XUAX", "XUAX", "UA", false, 'A', i::XUAX),
("XUGA", "XUGA", "UG", false, 'A', i::XUGA),
("XUKR", "XUKR", "UA", false, 'A', i::XUKR),
("XULA", "XULA", "MN", false, 'A', i::XULA),
("XUNI", "XUNI", "UZ", false, 'A', i::XUNI),
("XUSE", "XUSE", "IN", false, 'A', i::XUSE),
("XVAR", "XVAR", "HR", false, 'E', i::XVAR),
("XVLA", "XVLA", "RU", false, 'E', i::XVLA),
("XVPA", "XVPA", "PY", false, 'A', i::XVPA),
("XVSE", "XVSE", "CA", false, 'E', i::XVSE),
("RPWC", "XWAR", "PL", true, 'A', i::RPWC),
("TBSP", "XWAR", "PL", true, 'A', i::TBSP),
("TBSA", "XWAR", "PL", true, 'A', i::TBSA),
("BOSP", "XWAR", "PL", true, 'A', i::BOSP),
("WETP", "XWAR", "PL", true, 'A', i::WETP),
("XWAR", "XWAR", "PL", false, 'A', i::XWAR),
("PLPO", "XWAR", "PL", true, 'A', i::PLPO),
("PLPS", "XWAR", "PL", true, 'A', i::PLPS),
("WBLC", "XWAR", "PL", true, 'E', i::WBLC),
("WBCL", "XWAR", "PL", true, 'A', i::WBCL),
("WBON", "XWAR", "PL", true, 'A', i::WBON),
("WMTF", "XWAR", "PL", true, 'A', i::WMTF),
("WDER", "XWAR", "PL", true, 'A', i::WDER),
("WCDE", "XWAR", "PL", true, 'E', i::WCDE),
("POEE", "XWAR", "PL", true, 'E', i::POEE),
("WGAS", "XWAR", "PL", true, 'E', i::WGAS),
("PLPX", "XWAR", "PL", true, 'E', i::PLPX),
("EXAA", "XWBO", "AT", true, 'A', i::EXAA),
("XWBO", "XWBO", "AT", false, 'A', i::XWBO),
("WBAH", "XWBO", "AT", true, 'A', i::WBAH),
("WBDM", "XWBO", "AT", true, 'A', i::WBDM),
("XVIE", "XWBO", "AT", true, 'A', i::XVIE),
("XXSC", "XXSC", "DE", false, 'A', i::XXSC),
("XXXX", "XXXX", "ZZ", false, 'A', i::XXXX),
("XYIE", "XYIE", "AU", false, 'A', i::XYIE),
("XYKT", "XYKT", "JP", false, 'E', i::XYKT),
("XZAG", "XZAG", "HR", false, 'A', i::XZAG),
("XZCE", "XZCE", "CN", false, 'A', i::XZCE),
("XZIM", "XZIM", "ZW", false, 'A', i::XZIM),
("ZKBX", "ZKBX", "CH", false, 'A', i::ZKBX),
("KMUX", "ZKBX", "CH", true, 'A', i::KMUX),
("UKCA", "UKCA", "GB", false, 'A', i::UKCA),
("ASEF", "ASEF", "US", false, 'A', i::ASEF),
("MEMM", "MEMX", "US", true, 'A', i::MEMM),
("XEBS", "XEBS", "GB", false, 'A', i::XEBS),
("NSPO", "NSPO", "SE", false, 'A', i::NSPO),
("OTCI", "OTCI", "US", false, 'A', i::OTCI),
("GFOX", "GFOX", "GB", false, 'A', i::GFOX),
("FNFT", "BGCF", "US", true, 'A', i::FNFT),
("HGSP", "HEMO", "GR", true, 'A', i::HGSP),
("TERM", "TERM", "SG", false, 'A', i::TERM),
("PATF", "PATF", "CZ", false, 'A', i::PATF),
("BBVX", "BBVX", "GB", false, 'U', i::BBVX),
("ODXE", "ODXE", "JP", false, 'A', i::ODXE),
("HPSX", "HPSX", "GB", false, 'A', i::HPSX),
("DBDX", "DBDX", "DE", false, 'A', i::DBDX),
("EMCE", "XBRM", "RO", true, 'A', i::EMCE),
("HPSO", "HPSX", "GB", true, 'A', i::HPSO),
("ARTX", "ARTX", "LI", false, 'A', i::ARTX),
("SPTX", "SPTX", "US", false, 'A', i::SPTX),
("TSIR", "TPSO", "GB", true, 'A', i::TSIR),
("STXS", "STXS", "NL", false, 'A', i::STXS),
("EUFN", "EUFN", "BG", false, 'A', i::EUFN),
("TSFX", "TPSO", "GB", true, 'E', i::TSFX),
("GFAU", "GFAU", "AU", false, 'A', i::GFAU),
("CSE2", "XCNQ", "CA", true, 'A', i::CSE2),
("XIGG", "XIGG", "DE", false, 'A', i::XIGG),
("SMBC", "SMBC", "JP", false, 'A', i::SMBC),
("FNXB", "BGCF", "US", true, 'A', i::FNXB),
("BGCA", "BGCA", "AU", false, 'A', i::BGCA),
("AQXD", "AQXE", "GB", true, 'A', i::AQXD),
("XFTX", "XFTX", "AG", false, 'A', i::XFTX),
("NABP", "NABP", "FR", false, 'A', i::NABP),
("USOB", "XSTO", "SE", true, 'A', i::USOB),
("BTUN", "XTUN", "TN", true, 'A', i::BTUN),
("ECNL", "RTSL", "GB", true, 'A', i::ECNL),
("RITS", "RITS", "IN", false, 'A', i::RITS),
("FXSM", "RTSP", "SG", true, 'A', i::FXSM),
("FXNM", "THRE", "US", true, 'A', i::FXNM),
("MSWP", "MTSO", "IT", true, 'A', i::MSWP),
("CAST", "CAST", "US", false, 'A', i::CAST),
("XABX", "XABX", "SG", false, 'A', i::XABX),
("CILH", "CILH", "JP", false, 'A', i::CILH),
("USWP", "XMTS", "GB", true, 'A', i::USWP),
("CBAE", "CBAE", "NL", false, 'A', i::CBAE),
("TRDC", "TRDC", "SG", false, 'A', i::TRDC),
("USEF", "USEF", "US", false, 'E', i::USEF),
("NSSA", "NSSA", "PL", false, 'A', i::NSSA),
("CMCM", "CMCM", "GB", false, 'A', i::CMCM),
("EBLX", "XIGG", "DE", true, 'A', i::EBLX),
("ERFQ", "XIGG", "DE", true, 'A', i::ERFQ),
("ENTW", "XIGG", "DE", true, 'A', i::ENTW),
("FUSD", "LEDG", "US", true, 'A', i::FUSD),
("XETE", "XETR", "DE", true, 'A', i::XETE),
("XETX", "XETR", "DE", true, 'A', i::XETX),
("SFOX", "SFOX", "US", false, 'A', i::SFOX),
("BJSE", "BJSE", "CN", false, 'A', i::BJSE),
("NEEQ", "NEEQ", "CN", false, 'A', i::NEEQ),
("VFEX", "VFEX", "ZW", false, 'A', i::VFEX),
("MSDM", "MSDM", "PL", false, 'A', i::MSDM),
("LNEQ", "TPIC", "FR", true, 'A', i::LNEQ),
("LNFI", "TPIC", "FR", true, 'A', i::LNFI),
("IBSI", "IBSI", "IE", false, 'A', i::IBSI),
("RAJA", "RAJA", "US", false, 'A', i::RAJA),
("LPSF", "LPSF", "US", false, 'A', i::LPSF),
("GBSI", "GBSI", "IE", false, 'A', i::GBSI),
("TPID", "TPID", "GB", false, 'A', i::TPID),
("INGU", "INGU", "GB", false, 'A', i::INGU),
("SISU", "SISU", "GB", false, 'A', i::SISU),
("SEWB", "XSTO", "SE", true, 'A', i::SEWB),
("DKWB", "XSTO", "SE", true, 'A', i::DKWB),
("NOWB", "XSTO", "SE", true, 'A', i::NOWB),
("SEOB", "XSTO", "SE", true, 'A', i::SEOB),
("DKOB", "XSTO", "SE", true, 'A', i::DKOB),
("EUOB", "XSTO", "SE", true, 'A', i::EUOB),
("GBOB", "XSTO", "SE", true, 'A', i::GBOB),
("NOOB", "XSTO", "SE", true, 'A', i::NOOB),
("OTXT", "OTXT", "GB", false, 'A', i::OTXT),
("MXOP", "MEMX", "US", true, 'A', i::MXOP),
("BOCF", "BOCF", "DE", false, 'A', i::BOCF),
("FPWB", "FPWB", "AT", false, 'A', i::FPWB),
("SPAX", "SPAX", "US", false, 'A', i::SPAX),
("LEBV", "LEBV", "NL", false, 'A', i::LEBV),
("LESI", "LESI", "US", false, 'A', i::LESI),
("BGEM", "XMIL", "IT", true, 'A', i::BGEM),
("JLEQ", "JLQD", "US", true, 'A', i::JLEQ),
("GMGE", "GMGE", "NL", false, 'A', i::GMGE),
("IEXC", "IEXG", "US", true, 'A', i::IEXC),
("INTL", "INTL", "US", false, 'A', i::INTL),
("BRMF", "XBRM", "RO", true, 'A', i::BRMF),
("CXAB", "CHIA", "AU", true, 'A', i::CXAB),
("CXAI", "CHIA", "AU", true, 'A', i::CXAI),
("TMUK", "TMUK", "GB", false, 'A', i::TMUK),
("XCBD", "XCBO", "US", true, 'A', i::XCBD),
("U360", "U360", "US", false, 'A', i::U360),
("BDPL", "BDPL", "LU", false, 'A', i::BDPL),
("VMEX", "VMEX", "AE", false, 'A', i::VMEX),
("IEOS", "IBKR", "US", true, 'A', i::IEOS),
("INFT", "INFT", "NO", false, 'A', i::INFT),
("EDXM", "EDXM", "US", false, 'A', i::EDXM),
("IBKR", "IBKR", "US", false, 'A', i::IBKR),
("ALGO", "ALGO", "GB", false, 'A', i::ALGO),
("XAND", "XAND", "SG", false, 'A', i::XAND),
("FNDS", "INFT", "NO", true, 'A', i::FNDS),
("IFFX", "INFT", "NO", true, 'A', i::IFFX),
("QUNT", "INFT", "NO", true, 'A', i::QUNT),
("GSLO", "GSLO", "GB", false, 'A', i::GSLO),
("RTXF", "RTXF", "US", false, 'A', i::RTXF),
("ARDA", "ARCH", "GB", true, 'A', i::ARDA),
("VUBA", "VUBA", "SK", false, 'A', i::VUBA),
("G360", "G360", "GB", false, 'A', i::G360),
("ACXL", "ACXL", "AE", false, 'A', i::ACXL),
("ACXC", "ACXC", "AE", false, 'A', i::ACXC),
("ATAD", "ATAD", "CZ", false, 'A', i::ATAD),
("GSXN", "GSXN", "HK", false, 'A', i::GSXN),
("RULE", "RULE", "CH", false, 'A', i::RULE),
("MSXB", "XMUS", "OM", true, 'A', i::MSXB),
("XCVD", "XCVD", "DO", false, 'A', i::XCVD),
("MSLC", "MSCO", "US", true, 'A', i::MSLC),
("XANM", "XANM", "SG", false, 'A', i::XANM),
("CFIM", "CFIM", "US", false, 'A', i::CFIM),
("MSXO", "XMUS", "OM", true, 'A', i::MSXO),
("XATX", "XATS", "CA", true, 'A', i::XATX),
("ADRK", "XATS", "CA", true, 'A', i::ADRK),
("RFIM", "RFIM", "AE", false, 'A', i::RFIM),
("BNDS", "BNDS", "US", false, 'A', i::BNDS),
("SPHR", "MIHI", "US", true, 'A', i::SPHR),
("AFTS", "AFTS", "GB", false, 'A', i::AFTS),
("TMEU", "TMEU", "IE", false, 'A', i::TMEU),
("NXFO", "NMRJ", "JP", true, 'A', i::NXFO),
("TPDA", "TPID", "GB", true, 'A', i::TPDA),
("TICT", "TICT", "JP", false, 'A', i::TICT),
("XBRY", "XBRY", "PL", false, 'A', i::XBRY),
("XMME", "XCYS", "CY", true, 'A', i::XMME),
("GSXM", "GSAL", "HK", true, 'A', i::GSXM),
("NTRL", "INCR", "US", true, 'A', i::NTRL),
("SCLE", "BMEX", "ES", true, 'A', i::SCLE),
("NXBX", "NMRJ", "JP", true, 'A', i::NXBX),
("ACCX", "ACCX", "GB", false, 'A', i::ACCX),
("POTL", "POTL", "AU", false, 'A', i::POTL),
("NPMS", "NPMS", "US", false, 'A', i::NPMS),
("LBUL", "XBUL", "BG", true, 'A', i::LBUL),
("RRSI", "RRSI", "RO", false, 'A', i::RRSI),
("OCTL", "OCTL", "US", false, 'A', i::OCTL),
("BXDA", "BXDA", "CH", false, 'A', i::BXDA),
("BGCJ", "BGCJ", "JP", false, 'A', i::BGCJ),
("LMAS", "LMAS", "SG", false, 'A', i::LMAS),
("GFSG", "GFSG", "SG", false, 'A', i::GFSG),
("BGSG", "BGSG", "SG", false, 'A', i::BGSG),
("EESX", "EESX", "ZA", false, 'A', i::EESX),
("BNPH", "BNPH", "US", false, 'A', i::BNPH),
("SPDK", "XSAT", "SE", true, 'A', i::SPDK),
("SPNO", "XSAT", "SE", true, 'A', i::SPNO),
("SPFI", "XSAT", "SE", true, 'A', i::SPFI),
("SPEU", "XSAT", "SE", true, 'A', i::SPEU),
("PHSI", "PEEL", "GB", true, 'A', i::PHSI),
("ETOR", "ETOR", "CY", false, 'A', i::ETOR),
];
