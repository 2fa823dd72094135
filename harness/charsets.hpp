// generated by tools/gen_charsets.py
#ifndef VF_CHARSETS_HPP
#define VF_CHARSETS_HPP
namespace vf {
struct CsChar { unsigned cp; unsigned char len; const char* bytes; };
struct CsTable { const char* name; const CsChar* chars; unsigned n; };
static const CsChar cs_0[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,2,"\xc2\x80"},{129,2,"\xc2\x81"},{130,2,"\xc2\x82"},{131,2,"\xc2\x83"},{132,2,"\xc2\x84"},{133,2,"\xc2\x85"},{134,2,"\xc2\x86"},{135,2,"\xc2\x87"},{136,2,"\xc2\x88"},{137,2,"\xc2\x89"},{138,2,"\xc2\x8a"},{139,2,"\xc2\x8b"},{140,2,"\xc2\x8c"},{141,2,"\xc2\x8d"},{142,2,"\xc2\x8e"},{143,2,"\xc2\x8f"},{144,2,"\xc2\x90"},{145,2,"\xc2\x91"},{146,2,"\xc2\x92"},{147,2,"\xc2\x93"},{148,2,"\xc2\x94"},{149,2,"\xc2\x95"},{150,2,"\xc2\x96"},{151,2,"\xc2\x97"},{152,2,"\xc2\x98"},{153,2,"\xc2\x99"},{154,2,"\xc2\x9a"},{155,2,"\xc2\x9b"},{156,2,"\xc2\x9c"},{157,2,"\xc2\x9d"},{158,2,"\xc2\x9e"},{159,2,"\xc2\x9f"},{160,2,"\xc2\xa0"},{161,2,"\xc2\xa1"},{162,2,"\xc2\xa2"},{163,2,"\xc2\xa3"},{164,2,"\xc2\xa4"},{165,2,"\xc2\xa5"},{166,2,"\xc2\xa6"},{167,2,"\xc2\xa7"},{168,2,"\xc2\xa8"},{169,2,"\xc2\xa9"},{170,2,"\xc2\xaa"},{171,2,"\xc2\xab"},{172,2,"\xc2\xac"},{173,2,"\xc2\xad"},{174,2,"\xc2\xae"},{175,2,"\xc2\xaf"},{176,2,"\xc2\xb0"},{177,2,"\xc2\xb1"},{178,2,"\xc2\xb2"},{179,2,"\xc2\xb3"},{180,2,"\xc2\xb4"},{181,2,"\xc2\xb5"},{182,2,"\xc2\xb6"},{183,2,"\xc2\xb7"},{184,2,"\xc2\xb8"},{185,2,"\xc2\xb9"},{186,2,"\xc2\xba"},{187,2,"\xc2\xbb"},{188,2,"\xc2\xbc"},{189,2,"\xc2\xbd"},{190,2,"\xc2\xbe"},{191,2,"\xc2\xbf"},{192,2,"\xc3\x80"},{193,2,"\xc3\x81"},{194,2,"\xc3\x82"},{195,2,"\xc3\x83"},{196,2,"\xc3\x84"},{197,2,"\xc3\x85"},{198,2,"\xc3\x86"},{199,2,"\xc3\x87"},{200,2,"\xc3\x88"},{201,2,"\xc3\x89"},{202,2,"\xc3\x8a"},{203,2,"\xc3\x8b"},{204,2,"\xc3\x8c"},{205,2,"\xc3\x8d"},{206,2,"\xc3\x8e"},{207,2,"\xc3\x8f"},{208,2,"\xc3\x90"},{209,2,"\xc3\x91"},{210,2,"\xc3\x92"},
{211,2,"\xc3\x93"},{212,2,"\xc3\x94"},{213,2,"\xc3\x95"},{214,2,"\xc3\x96"},{215,2,"\xc3\x97"},{216,2,"\xc3\x98"},{217,2,"\xc3\x99"},{218,2,"\xc3\x9a"},{219,2,"\xc3\x9b"},{220,2,"\xc3\x9c"},{221,2,"\xc3\x9d"},{222,2,"\xc3\x9e"},{223,2,"\xc3\x9f"},{224,2,"\xc3\xa0"},{225,2,"\xc3\xa1"},{226,2,"\xc3\xa2"},{227,2,"\xc3\xa3"},{228,2,"\xc3\xa4"},{229,2,"\xc3\xa5"},{230,2,"\xc3\xa6"},{231,2,"\xc3\xa7"},{232,2,"\xc3\xa8"},{233,2,"\xc3\xa9"},{234,2,"\xc3\xaa"},{235,2,"\xc3\xab"},{236,2,"\xc3\xac"},{237,2,"\xc3\xad"},{238,2,"\xc3\xae"},{239,2,"\xc3\xaf"},{240,2,"\xc3\xb0"},{241,2,"\xc3\xb1"},{242,2,"\xc3\xb2"},{243,2,"\xc3\xb3"},{244,2,"\xc3\xb4"},{245,2,"\xc3\xb5"},{246,2,"\xc3\xb6"},{247,2,"\xc3\xb7"},{248,2,"\xc3\xb8"},{249,2,"\xc3\xb9"},{250,2,"\xc3\xba"},{251,2,"\xc3\xbb"},{252,2,"\xc3\xbc"},{253,2,"\xc3\xbd"},{254,2,"\xc3\xbe"},{255,2,"\xc3\xbf"},{256,2,"\xc4\x80"},{257,2,"\xc4\x81"},{258,2,"\xc4\x82"},{259,2,"\xc4\x83"},{260,2,"\xc4\x84"},{261,2,"\xc4\x85"},{262,2,"\xc4\x86"},{263,2,"\xc4\x87"},{264,2,"\xc4\x88"},{265,2,"\xc4\x89"},{266,2,"\xc4\x8a"},{267,2,"\xc4\x8b"},{268,2,"\xc4\x8c"},{269,2,"\xc4\x8d"},{270,2,"\xc4\x8e"},{271,2,"\xc4\x8f"},{272,2,"\xc4\x90"},{273,2,"\xc4\x91"},{274,2,"\xc4\x92"},{275,2,"\xc4\x93"},{276,2,"\xc4\x94"},{277,2,"\xc4\x95"},{278,2,"\xc4\x96"},{279,2,"\xc4\x97"},{280,2,"\xc4\x98"},{281,2,"\xc4\x99"},{282,2,"\xc4\x9a"},{283,2,"\xc4\x9b"},{284,2,"\xc4\x9c"},{285,2,"\xc4\x9d"},{286,2,"\xc4\x9e"},{287,2,"\xc4\x9f"},{288,2,"\xc4\xa0"},{289,2,"\xc4\xa1"},{290,2,"\xc4\xa2"},{291,2,"\xc4\xa3"},{292,2,"\xc4\xa4"},{293,2,"\xc4\xa5"},{294,2,"\xc4\xa6"},{295,2,"\xc4\xa7"},{296,2,"\xc4\xa8"},{297,2,"\xc4\xa9"},{298,2,"\xc4\xaa"},{299,2,"\xc4\xab"},{300,2,"\xc4\xac"},{301,2,"\xc4\xad"},{302,2,"\xc4\xae"},{303,2,"\xc4\xaf"},{304,2,"\xc4\xb0"},{305,2,"\xc4\xb1"},{306,2,"\xc4\xb2"},{307,2,"\xc4\xb3"},{308,2,"\xc4\xb4"},{309,2,"\xc4\xb5"},{310,2,"\xc4\xb6"},{311,2,"\xc4\xb7"},{312,2,"\xc4\xb8"},{313,2,"\xc4\xb9"},{314,2,"\xc4\xba"},{315,2,"\xc4\xbb"},{316,2,"\xc4\xbc"},{317,2,"\xc4\xbd"},{318,2,"\xc4\xbe"},{319,2,"\xc4\xbf"},{320,2,"\xc5\x80"},{321,2,"\xc5\x81"},{322,2,"\xc5\x82"},{323,2,"\xc5\x83"},{324,2,"\xc5\x84"},{325,2,"\xc5\x85"},{326,2,"\xc5\x86"},{327,2,"\xc5\x87"},{328,2,"\xc5\x88"},{329,2,"\xc5\x89"},{330,2,"\xc5\x8a"},{331,2,"\xc5\x8b"},{332,2,"\xc5\x8c"},{333,2,"\xc5\x8d"},{334,2,"\xc5\x8e"},{335,2,"\xc5\x8f"},{336,2,"\xc5\x90"},{337,2,"\xc5\x91"},{338,2,"\xc5\x92"},{339,2,"\xc5\x93"},{340,2,"\xc5\x94"},{341,2,"\xc5\x95"},{342,2,"\xc5\x96"},{343,2,"\xc5\x97"},{344,2,"\xc5\x98"},{345,2,"\xc5\x99"},{346,2,"\xc5\x9a"},{347,2,"\xc5\x9b"},{348,2,"\xc5\x9c"},{349,2,"\xc5\x9d"},{350,2,"\xc5\x9e"},{351,2,"\xc5\x9f"},{352,2,"\xc5\xa0"},{353,2,"\xc5\xa1"},{354,2,"\xc5\xa2"},{355,2,"\xc5\xa3"},{356,2,"\xc5\xa4"},{357,2,"\xc5\xa5"},{358,2,"\xc5\xa6"},{359,2,"\xc5\xa7"},{360,2,"\xc5\xa8"},{361,2,"\xc5\xa9"},{362,2,"\xc5\xaa"},{363,2,"\xc5\xab"},{364,2,"\xc5\xac"},{365,2,"\xc5\xad"},{366,2,"\xc5\xae"},{367,2,"\xc5\xaf"},{368,2,"\xc5\xb0"},
{369,2,"\xc5\xb1"},{370,2,"\xc5\xb2"},{371,2,"\xc5\xb3"},{372,2,"\xc5\xb4"},{373,2,"\xc5\xb5"},{374,2,"\xc5\xb6"},{375,2,"\xc5\xb7"},{376,2,"\xc5\xb8"},{377,2,"\xc5\xb9"},{378,2,"\xc5\xba"},{379,2,"\xc5\xbb"},{380,2,"\xc5\xbc"},{381,2,"\xc5\xbd"},{382,2,"\xc5\xbe"},{383,2,"\xc5\xbf"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{900,2,"\xce\x84"},{901,2,"\xce\x85"},{902,2,"\xce\x86"},{903,2,"\xce\x87"},{904,2,"\xce\x88"},{905,2,"\xce\x89"},{906,2,"\xce\x8a"},{907,2,"\xce\x8b"},{908,2,"\xce\x8c"},{909,2,"\xce\x8d"},{910,2,"\xce\x8e"},{911,2,"\xce\x8f"},{912,2,"\xce\x90"},{913,2,"\xce\x91"},{914,2,"\xce\x92"},{915,2,"\xce\x93"},{916,2,"\xce\x94"},{917,2,"\xce\x95"},{918,2,"\xce\x96"},{919,2,"\xce\x97"},{920,2,"\xce\x98"},{921,2,"\xce\x99"},{922,2,"\xce\x9a"},{923,2,"\xce\x9b"},{924,2,"\xce\x9c"},{925,2,"\xce\x9d"},{926,2,"\xce\x9e"},{927,2,"\xce\x9f"},{928,2,"\xce\xa0"},{929,2,"\xce\xa1"},{930,2,"\xce\xa2"},{931,2,"\xce\xa3"},{932,2,"\xce\xa4"},{933,2,"\xce\xa5"},{934,2,"\xce\xa6"},{935,2,"\xce\xa7"},{936,2,"\xce\xa8"},{937,2,"\xce\xa9"},{938,2,"\xce\xaa"},{939,2,"\xce\xab"},{940,2,"\xce\xac"},{941,2,"\xce\xad"},{942,2,"\xce\xae"},{943,2,"\xce\xaf"},{944,2,"\xce\xb0"},{945,2,"\xce\xb1"},{946,2,"\xce\xb2"},{947,2,"\xce\xb3"},{948,2,"\xce\xb4"},{949,2,"\xce\xb5"},{950,2,"\xce\xb6"},{951,2,"\xce\xb7"},{952,2,"\xce\xb8"},{953,2,"\xce\xb9"},{954,2,"\xce\xba"},{955,2,"\xce\xbb"},{956,2,"\xce\xbc"},{957,2,"\xce\xbd"},{958,2,"\xce\xbe"},{959,2,"\xce\xbf"},{960,2,"\xcf\x80"},{961,2,"\xcf\x81"},{962,2,"\xcf\x82"},{963,2,"\xcf\x83"},{964,2,"\xcf\x84"},{965,2,"\xcf\x85"},{966,2,"\xcf\x86"},{967,2,"\xcf\x87"},{968,2,"\xcf\x88"},{969,2,"\xcf\x89"},{970,2,"\xcf\x8a"},{971,2,"\xcf\x8b"},{972,2,"\xcf\x8c"},{973,2,"\xcf\x8d"},{974,2,"\xcf\x8e"},{1025,2,"\xd0\x81"},{1026,2,"\xd0\x82"},{1027,2,"\xd0\x83"},{1028,2,"\xd0\x84"},{1029,2,"\xd0\x85"},{1030,2,"\xd0\x86"},{1031,2,"\xd0\x87"},{1032,2,"\xd0\x88"},{1033,2,"\xd0\x89"},{1034,2,"\xd0\x8a"},{1035,2,"\xd0\x8b"},{1036,2,"\xd0\x8c"},{1037,2,"\xd0\x8d"},{1038,2,"\xd0\x8e"},{1039,2,"\xd0\x8f"},{1040,2,"\xd0\x90"},{1041,2,"\xd0\x91"},{1042,2,"\xd0\x92"},{1043,2,"\xd0\x93"},{1044,2,"\xd0\x94"},{1045,2,"\xd0\x95"},{1046,2,"\xd0\x96"},{1047,2,"\xd0\x97"},{1048,2,"\xd0\x98"},{1049,2,"\xd0\x99"},{1050,2,"\xd0\x9a"},{1051,2,"\xd0\x9b"},{1052,2,"\xd0\x9c"},{1053,2,"\xd0\x9d"},{1054,2,"\xd0\x9e"},{1055,2,"\xd0\x9f"},{1056,2,"\xd0\xa0"},{1057,2,"\xd0\xa1"},{1058,2,"\xd0\xa2"},{1059,2,"\xd0\xa3"},{1060,2,"\xd0\xa4"},{1061,2,"\xd0\xa5"},{1062,2,"\xd0\xa6"},{1063,2,"\xd0\xa7"},{1064,2,"\xd0\xa8"},{1065,2,"\xd0\xa9"},{1066,2,"\xd0\xaa"},{1067,2,"\xd0\xab"},{1068,2,"\xd0\xac"},{1069,2,"\xd0\xad"},{1070,2,"\xd0\xae"},{1071,2,"\xd0\xaf"},{1072,2,"\xd0\xb0"},{1073,2,"\xd0\xb1"},{1074,2,"\xd0\xb2"},{1075,2,"\xd0\xb3"},{1076,2,"\xd0\xb4"},{1077,2,"\xd0\xb5"},{1078,2,"\xd0\xb6"},{1079,2,"\xd0\xb7"},{1080,2,"\xd0\xb8"},{1081,2,"\xd0\xb9"},{1082,2,"\xd0\xba"},{1083,2,"\xd0\xbb"},{1084,2,"\xd0\xbc"},{1085,2,"\xd0\xbd"},
{1086,2,"\xd0\xbe"},{1087,2,"\xd0\xbf"},{1088,2,"\xd1\x80"},{1089,2,"\xd1\x81"},{1090,2,"\xd1\x82"},{1091,2,"\xd1\x83"},{1092,2,"\xd1\x84"},{1093,2,"\xd1\x85"},{1094,2,"\xd1\x86"},{1095,2,"\xd1\x87"},{1096,2,"\xd1\x88"},{1097,2,"\xd1\x89"},{1098,2,"\xd1\x8a"},{1099,2,"\xd1\x8b"},{1100,2,"\xd1\x8c"},{1101,2,"\xd1\x8d"},{1102,2,"\xd1\x8e"},{1103,2,"\xd1\x8f"},{1104,2,"\xd1\x90"},{1105,2,"\xd1\x91"},{1106,2,"\xd1\x92"},{1107,2,"\xd1\x93"},{1108,2,"\xd1\x94"},{1109,2,"\xd1\x95"},{1110,2,"\xd1\x96"},{1111,2,"\xd1\x97"},{1112,2,"\xd1\x98"},{1113,2,"\xd1\x99"},{1114,2,"\xd1\x9a"},{1115,2,"\xd1\x9b"},{1116,2,"\xd1\x9c"},{1117,2,"\xd1\x9d"},{1118,2,"\xd1\x9e"},{8211,3,"\xe2\x80\x93"},{8212,3,"\xe2\x80\x94"},{8216,3,"\xe2\x80\x98"},{8217,3,"\xe2\x80\x99"},{8220,3,"\xe2\x80\x9c"},{8221,3,"\xe2\x80\x9d"},{8222,3,"\xe2\x80\x9e"},{8224,3,"\xe2\x80\xa0"},{8225,3,"\xe2\x80\xa1"},{8226,3,"\xe2\x80\xa2"},{8230,3,"\xe2\x80\xa6"},{8240,3,"\xe2\x80\xb0"},{8249,3,"\xe2\x80\xb9"},{8250,3,"\xe2\x80\xba"},{8364,3,"\xe2\x82\xac"},{8482,3,"\xe2\x84\xa2"},{1488,2,"\xd7\x90"},{1489,2,"\xd7\x91"},{1490,2,"\xd7\x92"},{1491,2,"\xd7\x93"},{1492,2,"\xd7\x94"},{1493,2,"\xd7\x95"},{1494,2,"\xd7\x96"},{1495,2,"\xd7\x97"},{1496,2,"\xd7\x98"},{1497,2,"\xd7\x99"},{1498,2,"\xd7\x9a"},{1499,2,"\xd7\x9b"},{1500,2,"\xd7\x9c"},{1501,2,"\xd7\x9d"},{1502,2,"\xd7\x9e"},{1503,2,"\xd7\x9f"},{1504,2,"\xd7\xa0"},{1505,2,"\xd7\xa1"},{1506,2,"\xd7\xa2"},{1507,2,"\xd7\xa3"},{1508,2,"\xd7\xa4"},{1509,2,"\xd7\xa5"},{1510,2,"\xd7\xa6"},{1511,2,"\xd7\xa7"},{1512,2,"\xd7\xa8"},{1513,2,"\xd7\xa9"},{1514,2,"\xd7\xaa"},{3585,3,"\xe0\xb8\x81"},{3586,3,"\xe0\xb8\x82"},{3587,3,"\xe0\xb8\x83"},{3588,3,"\xe0\xb8\x84"},{3589,3,"\xe0\xb8\x85"},{3590,3,"\xe0\xb8\x86"},{3591,3,"\xe0\xb8\x87"},{3592,3,"\xe0\xb8\x88"},{3593,3,"\xe0\xb8\x89"},{3594,3,"\xe0\xb8\x8a"},{3595,3,"\xe0\xb8\x8b"},{3596,3,"\xe0\xb8\x8c"},{3597,3,"\xe0\xb8\x8d"},{3598,3,"\xe0\xb8\x8e"},{3599,3,"\xe0\xb8\x8f"},{3600,3,"\xe0\xb8\x90"},{3601,3,"\xe0\xb8\x91"},{3602,3,"\xe0\xb8\x92"},{3603,3,"\xe0\xb8\x93"},{3604,3,"\xe0\xb8\x94"},{3605,3,"\xe0\xb8\x95"},{3606,3,"\xe0\xb8\x96"},{3607,3,"\xe0\xb8\x97"},{3608,3,"\xe0\xb8\x98"},{3609,3,"\xe0\xb8\x99"},{3610,3,"\xe0\xb8\x9a"},{3611,3,"\xe0\xb8\x9b"},{3612,3,"\xe0\xb8\x9c"},{3613,3,"\xe0\xb8\x9d"},{3614,3,"\xe0\xb8\x9e"},{3615,3,"\xe0\xb8\x9f"},{3616,3,"\xe0\xb8\xa0"},{3617,3,"\xe0\xb8\xa1"},{3618,3,"\xe0\xb8\xa2"},{3619,3,"\xe0\xb8\xa3"},{3620,3,"\xe0\xb8\xa4"},{3621,3,"\xe0\xb8\xa5"},{3622,3,"\xe0\xb8\xa6"},{3623,3,"\xe0\xb8\xa7"},{3624,3,"\xe0\xb8\xa8"},{3625,3,"\xe0\xb8\xa9"},{3626,3,"\xe0\xb8\xaa"},{3627,3,"\xe0\xb8\xab"},{3628,3,"\xe0\xb8\xac"},{3629,3,"\xe0\xb8\xad"},{3630,3,"\xe0\xb8\xae"},{12353,3,"\xe3\x81\x81"},{12354,3,"\xe3\x81\x82"},{12355,3,"\xe3\x81\x83"},{12356,3,"\xe3\x81\x84"},{12357,3,"\xe3\x81\x85"},{12358,3,"\xe3\x81\x86"},{12359,3,"\xe3\x81\x87"},{12360,3,"\xe3\x81\x88"},{12361,3,"\xe3\x81\x89"},{12362,3,"\xe3\x81\x8a"},{12363,3,"\xe3\x81\x8b"},{12364,3,"\xe3\x81\x8c"},{12365,3,"\xe3\x81\x8d"},
{12366,3,"\xe3\x81\x8e"},{12367,3,"\xe3\x81\x8f"},{12368,3,"\xe3\x81\x90"},{12369,3,"\xe3\x81\x91"},{12370,3,"\xe3\x81\x92"},{12371,3,"\xe3\x81\x93"},{12372,3,"\xe3\x81\x94"},{12373,3,"\xe3\x81\x95"},{12374,3,"\xe3\x81\x96"},{12375,3,"\xe3\x81\x97"},{12376,3,"\xe3\x81\x98"},{12377,3,"\xe3\x81\x99"},{12378,3,"\xe3\x81\x9a"},{12379,3,"\xe3\x81\x9b"},{12380,3,"\xe3\x81\x9c"},{12381,3,"\xe3\x81\x9d"},{12382,3,"\xe3\x81\x9e"},{12383,3,"\xe3\x81\x9f"},{12384,3,"\xe3\x81\xa0"},{12385,3,"\xe3\x81\xa1"},{12386,3,"\xe3\x81\xa2"},{12387,3,"\xe3\x81\xa3"},{12388,3,"\xe3\x81\xa4"},{12389,3,"\xe3\x81\xa5"},{12390,3,"\xe3\x81\xa6"},{12391,3,"\xe3\x81\xa7"},{12392,3,"\xe3\x81\xa8"},{12393,3,"\xe3\x81\xa9"},{12394,3,"\xe3\x81\xaa"},{12395,3,"\xe3\x81\xab"},{12396,3,"\xe3\x81\xac"},{12397,3,"\xe3\x81\xad"},{12398,3,"\xe3\x81\xae"},{12399,3,"\xe3\x81\xaf"},{12400,3,"\xe3\x81\xb0"},{12401,3,"\xe3\x81\xb1"},{12402,3,"\xe3\x81\xb2"},{12403,3,"\xe3\x81\xb3"},{12404,3,"\xe3\x81\xb4"},{12405,3,"\xe3\x81\xb5"},{12406,3,"\xe3\x81\xb6"},{12407,3,"\xe3\x81\xb7"},{12408,3,"\xe3\x81\xb8"},{12409,3,"\xe3\x81\xb9"},{12410,3,"\xe3\x81\xba"},{12411,3,"\xe3\x81\xbb"},{12412,3,"\xe3\x81\xbc"},{12413,3,"\xe3\x81\xbd"},{12414,3,"\xe3\x81\xbe"},{12415,3,"\xe3\x81\xbf"},{12416,3,"\xe3\x82\x80"},{12417,3,"\xe3\x82\x81"},{12418,3,"\xe3\x82\x82"},{12419,3,"\xe3\x82\x83"},{12420,3,"\xe3\x82\x84"},{12421,3,"\xe3\x82\x85"},{12422,3,"\xe3\x82\x86"},{12423,3,"\xe3\x82\x87"},{12424,3,"\xe3\x82\x88"},{12425,3,"\xe3\x82\x89"},{12426,3,"\xe3\x82\x8a"},{12427,3,"\xe3\x82\x8b"},{12428,3,"\xe3\x82\x8c"},{12429,3,"\xe3\x82\x8d"},{12430,3,"\xe3\x82\x8e"},{12431,3,"\xe3\x82\x8f"},{12432,3,"\xe3\x82\x90"},{12433,3,"\xe3\x82\x91"},{12434,3,"\xe3\x82\x92"},{12435,3,"\xe3\x82\x93"},{12449,3,"\xe3\x82\xa1"},{12450,3,"\xe3\x82\xa2"},{12451,3,"\xe3\x82\xa3"},{12452,3,"\xe3\x82\xa4"},{12453,3,"\xe3\x82\xa5"},{12454,3,"\xe3\x82\xa6"},{12455,3,"\xe3\x82\xa7"},{12456,3,"\xe3\x82\xa8"},{12457,3,"\xe3\x82\xa9"},{12458,3,"\xe3\x82\xaa"},{12459,3,"\xe3\x82\xab"},{12460,3,"\xe3\x82\xac"},{12461,3,"\xe3\x82\xad"},{12462,3,"\xe3\x82\xae"},{12463,3,"\xe3\x82\xaf"},{12464,3,"\xe3\x82\xb0"},{12465,3,"\xe3\x82\xb1"},{12466,3,"\xe3\x82\xb2"},{12467,3,"\xe3\x82\xb3"},{12468,3,"\xe3\x82\xb4"},{12469,3,"\xe3\x82\xb5"},{12470,3,"\xe3\x82\xb6"},{12471,3,"\xe3\x82\xb7"},{12472,3,"\xe3\x82\xb8"},{12473,3,"\xe3\x82\xb9"},{12474,3,"\xe3\x82\xba"},{12475,3,"\xe3\x82\xbb"},{12476,3,"\xe3\x82\xbc"},{12477,3,"\xe3\x82\xbd"},{12478,3,"\xe3\x82\xbe"},{12479,3,"\xe3\x82\xbf"},{12480,3,"\xe3\x83\x80"},{12481,3,"\xe3\x83\x81"},{12482,3,"\xe3\x83\x82"},{12483,3,"\xe3\x83\x83"},{12484,3,"\xe3\x83\x84"},{12485,3,"\xe3\x83\x85"},{12486,3,"\xe3\x83\x86"},{12487,3,"\xe3\x83\x87"},{12488,3,"\xe3\x83\x88"},{12489,3,"\xe3\x83\x89"},{12490,3,"\xe3\x83\x8a"},{12491,3,"\xe3\x83\x8b"},{12492,3,"\xe3\x83\x8c"},{12493,3,"\xe3\x83\x8d"},{12494,3,"\xe3\x83\x8e"},{12495,3,"\xe3\x83\x8f"},{12496,3,"\xe3\x83\x90"},{12497,3,"\xe3\x83\x91"},{12498,3,"\xe3\x83\x92"},{12499,3,"\xe3\x83\x93"},
{12500,3,"\xe3\x83\x94"},{12501,3,"\xe3\x83\x95"},{12502,3,"\xe3\x83\x96"},{12503,3,"\xe3\x83\x97"},{12504,3,"\xe3\x83\x98"},{12505,3,"\xe3\x83\x99"},{12506,3,"\xe3\x83\x9a"},{12507,3,"\xe3\x83\x9b"},{12508,3,"\xe3\x83\x9c"},{12509,3,"\xe3\x83\x9d"},{12510,3,"\xe3\x83\x9e"},{12511,3,"\xe3\x83\x9f"},{12512,3,"\xe3\x83\xa0"},{12513,3,"\xe3\x83\xa1"},{12514,3,"\xe3\x83\xa2"},{12515,3,"\xe3\x83\xa3"},{12516,3,"\xe3\x83\xa4"},{12517,3,"\xe3\x83\xa5"},{12518,3,"\xe3\x83\xa6"},{12519,3,"\xe3\x83\xa7"},{12520,3,"\xe3\x83\xa8"},{12521,3,"\xe3\x83\xa9"},{12522,3,"\xe3\x83\xaa"},{12523,3,"\xe3\x83\xab"},{12524,3,"\xe3\x83\xac"},{12525,3,"\xe3\x83\xad"},{12526,3,"\xe3\x83\xae"},{12527,3,"\xe3\x83\xaf"},{12528,3,"\xe3\x83\xb0"},{12529,3,"\xe3\x83\xb1"},{12530,3,"\xe3\x83\xb2"},{12531,3,"\xe3\x83\xb3"},{12532,3,"\xe3\x83\xb4"},{12533,3,"\xe3\x83\xb5"},{12534,3,"\xe3\x83\xb6"},{12289,3,"\xe3\x80\x81"},{12290,3,"\xe3\x80\x82"},{12300,3,"\xe3\x80\x8c"},{12301,3,"\xe3\x80\x8d"},{26085,3,"\xe6\x97\xa5"},{26412,3,"\xe6\x9c\xac"},{35486,3,"\xe8\xaa\x9e"},{28450,3,"\xe6\xbc\xa2"},{23383,3,"\xe5\xad\x97"},{20013,3,"\xe4\xb8\xad"},{25991,3,"\xe6\x96\x87"},{22283,3,"\xe5\x9c\x8b"},{22269,3,"\xe5\x9b\xbd"},{35821,3,"\xe8\xaf\xad"},{31616,3,"\xe7\xae\x80"},{39636,3,"\xe9\xab\x94"},{20307,3,"\xe4\xbd\x93"},{32321,3,"\xe7\xb9\x81"},{21488,3,"\xe5\x8f\xb0"},{28771,3,"\xe7\x81\xa3"},{28286,3,"\xe6\xb9\xbe"},{39321,3,"\xe9\xa6\x99"},{28207,3,"\xe6\xb8\xaf"},{32763,3,"\xe7\xbf\xbb"},{35695,3,"\xe8\xad\xaf"},{35793,3,"\xe8\xaf\x91"},{36938,3,"\xe9\x81\x8a"},{28216,3,"\xe6\xb8\xb8"},{25103,3,"\xe6\x88\x8f"},{25138,3,"\xe6\x88\xb2"},{38283,3,"\xe9\x96\x8b"},{24320,3,"\xe5\xbc\x80"},{22987,3,"\xe5\xa7\x8b"},{26032,3,"\xe6\x96\xb0"},{38306,3,"\xe9\x96\xa2"},{38364,3,"\xe9\x97\x9c"},{35373,3,"\xe8\xa8\xad"},{32622,3,"\xe7\xbd\xae"},{23450,3,"\xe5\xae\x9a"},{35328,3,"\xe8\xa8\x80"},{21517,3,"\xe5\x90\x8d"},{21069,3,"\xe5\x89\x8d"},{20445,3,"\xe4\xbf\x9d"},{23384,3,"\xe5\xad\x98"},{21151,3,"\xe5\x8a\x9f"},{35377,3,"\xe8\xa8\xb1"},{33995,3,"\xe8\x93\x8b"},{20040,3,"\xe4\xb9\x88"},{32946,3,"\xe8\x82\xb2"},{21522,3,"\xe5\x90\x92"},{21549,3,"\xe5\x90\xad"},{23049,3,"\xe5\xa8\x89"},{35961,3,"\xe8\xb1\xb9"},{29854,3,"\xe7\x92\x9e"},{25850,3,"\xe6\x93\xba"},{39184,3,"\xe9\xa4\x90"},{39631,3,"\xe9\xab\x8f"},{29749,3,"\xe7\x90\xb5"},{26543,3,"\xe6\x9e\xaf"},{27519,3,"\xe6\xad\xbf"},{19968,3,"\xe4\xb8\x80"},{20108,3,"\xe4\xba\x8c"},{19977,3,"\xe4\xb8\x89"},{22235,3,"\xe5\x9b\x9b"},{20116,3,"\xe4\xba\x94"},{20845,3,"\xe5\x85\xad"},{19971,3,"\xe4\xb8\x83"},{20843,3,"\xe5\x85\xab"},{20061,3,"\xe4\xb9\x9d"},{21313,3,"\xe5\x8d\x81"},{44032,3,"\xea\xb0\x80"},{44033,3,"\xea\xb0\x81"},{44034,3,"\xea\xb0\x82"},{44035,3,"\xea\xb0\x83"},{44036,3,"\xea\xb0\x84"},{44037,3,"\xea\xb0\x85"},{44038,3,"\xea\xb0\x86"},{44039,3,"\xea\xb0\x87"},{44040,3,"\xea\xb0\x88"},{44041,3,"\xea\xb0\x89"},{44042,3,"\xea\xb0\x8a"},{44043,3,"\xea\xb0\x8b"},{44044,3,"\xea\xb0\x8c"},{44045,3,"\xea\xb0\x8d"},{44046,3,"\xea\xb0\x8e"},{44047,3,"\xea\xb0\x8f"},
{44048,3,"\xea\xb0\x90"},{44049,3,"\xea\xb0\x91"},{44050,3,"\xea\xb0\x92"},{44051,3,"\xea\xb0\x93"},{44052,3,"\xea\xb0\x94"},{44053,3,"\xea\xb0\x95"},{44054,3,"\xea\xb0\x96"},{44055,3,"\xea\xb0\x97"},{44056,3,"\xea\xb0\x98"},{44057,3,"\xea\xb0\x99"},{44058,3,"\xea\xb0\x9a"},{44059,3,"\xea\xb0\x9b"},{44060,3,"\xea\xb0\x9c"},{44061,3,"\xea\xb0\x9d"},{44062,3,"\xea\xb0\x9e"},{44063,3,"\xea\xb0\x9f"},{54620,3,"\xed\x95\x9c"},{44397,3,"\xea\xb5\xad"},{50612,3,"\xec\x96\xb4"},{44172,3,"\xea\xb2\x8c"},{51076,3,"\xec\x9e\x84"},{49884,3,"\xec\x8b\x9c"},{51089,3,"\xec\x9e\x91"},{49444,3,"\xec\x84\xa4"},{51221,3,"\xec\xa0\x95"},{51200,3,"\xec\xa0\x80"},{51109,3,"\xec\x9e\xa5"},{1569,2,"\xd8\xa1"},{1570,2,"\xd8\xa2"},{1571,2,"\xd8\xa3"},{1572,2,"\xd8\xa4"},{1573,2,"\xd8\xa5"},{1574,2,"\xd8\xa6"},{1575,2,"\xd8\xa7"},{1576,2,"\xd8\xa8"},{1577,2,"\xd8\xa9"},{1578,2,"\xd8\xaa"},{1579,2,"\xd8\xab"},{1580,2,"\xd8\xac"},{1581,2,"\xd8\xad"},{1582,2,"\xd8\xae"},{1583,2,"\xd8\xaf"},{1584,2,"\xd8\xb0"},{1585,2,"\xd8\xb1"},{1586,2,"\xd8\xb2"},{1587,2,"\xd8\xb3"},{1588,2,"\xd8\xb4"},{1589,2,"\xd8\xb5"},{1590,2,"\xd8\xb6"},{1591,2,"\xd8\xb7"},{1592,2,"\xd8\xb8"},{1593,2,"\xd8\xb9"},{1594,2,"\xd8\xba"},{1600,2,"\xd9\x80"},{1601,2,"\xd9\x81"},{1602,2,"\xd9\x82"},{1603,2,"\xd9\x83"},{1604,2,"\xd9\x84"},{1605,2,"\xd9\x85"},{1606,2,"\xd9\x86"},{1607,2,"\xd9\x87"},{1608,2,"\xd9\x88"},{1609,2,"\xd9\x89"},{1610,2,"\xd9\x8a"},{1168,2,"\xd2\x90"},{1169,2,"\xd2\x91"},{1170,2,"\xd2\x92"},{1171,2,"\xd2\x93"},{1172,2,"\xd2\x94"},{1173,2,"\xd2\x95"},{1174,2,"\xd2\x96"},{1175,2,"\xd2\x97"},{1176,2,"\xd2\x98"},{1177,2,"\xd2\x99"},{1178,2,"\xd2\x9a"},{1179,2,"\xd2\x9b"},{1180,2,"\xd2\x9c"},{1181,2,"\xd2\x9d"},{1182,2,"\xd2\x9e"},{1183,2,"\xd2\x9f"},{1184,2,"\xd2\xa0"},{1185,2,"\xd2\xa1"},{1186,2,"\xd2\xa2"},{1187,2,"\xd2\xa3"},{1188,2,"\xd2\xa4"},{1189,2,"\xd2\xa5"},{1190,2,"\xd2\xa6"},{1191,2,"\xd2\xa7"},{1192,2,"\xd2\xa8"},{1193,2,"\xd2\xa9"},{1194,2,"\xd2\xaa"},{1195,2,"\xd2\xab"},{1196,2,"\xd2\xac"},{1197,2,"\xd2\xad"},{1198,2,"\xd2\xae"},{1199,2,"\xd2\xaf"},{7840,3,"\xe1\xba\xa0"},{7841,3,"\xe1\xba\xa1"},{7842,3,"\xe1\xba\xa2"},{7843,3,"\xe1\xba\xa3"},{7844,3,"\xe1\xba\xa4"},{7845,3,"\xe1\xba\xa5"},{7846,3,"\xe1\xba\xa6"},{7847,3,"\xe1\xba\xa7"},{7848,3,"\xe1\xba\xa8"},{7849,3,"\xe1\xba\xa9"},{7850,3,"\xe1\xba\xaa"},{7851,3,"\xe1\xba\xab"},{7852,3,"\xe1\xba\xac"},{7853,3,"\xe1\xba\xad"},{7854,3,"\xe1\xba\xae"},{7855,3,"\xe1\xba\xaf"},{7856,3,"\xe1\xba\xb0"},{7857,3,"\xe1\xba\xb1"},{7858,3,"\xe1\xba\xb2"},{7859,3,"\xe1\xba\xb3"},{7860,3,"\xe1\xba\xb4"},{7861,3,"\xe1\xba\xb5"},{7862,3,"\xe1\xba\xb6"},{7863,3,"\xe1\xba\xb7"},{7864,3,"\xe1\xba\xb8"},{7865,3,"\xe1\xba\xb9"},{7866,3,"\xe1\xba\xba"},{7867,3,"\xe1\xba\xbb"},{7868,3,"\xe1\xba\xbc"},{7869,3,"\xe1\xba\xbd"},{7870,3,"\xe1\xba\xbe"},{7871,3,"\xe1\xba\xbf"},{9472,3,"\xe2\x94\x80"},{9473,3,"\xe2\x94\x81"},{9474,3,"\xe2\x94\x82"},{9475,3,"\xe2\x94\x83"},{9476,3,"\xe2\x94\x84"},{9477,3,"\xe2\x94\x85"},{9478,3,"\xe2\x94\x86"},{9479,3,"\xe2\x94\x87"},
{9480,3,"\xe2\x94\x88"},{9481,3,"\xe2\x94\x89"},{9482,3,"\xe2\x94\x8a"},{9483,3,"\xe2\x94\x8b"},{9484,3,"\xe2\x94\x8c"},{9485,3,"\xe2\x94\x8d"},{9486,3,"\xe2\x94\x8e"},{9487,3,"\xe2\x94\x8f"},{9488,3,"\xe2\x94\x90"},{9489,3,"\xe2\x94\x91"},{9490,3,"\xe2\x94\x92"},{9491,3,"\xe2\x94\x93"},{9492,3,"\xe2\x94\x94"},{9493,3,"\xe2\x94\x95"},{9494,3,"\xe2\x94\x96"},{9495,3,"\xe2\x94\x97"},{9496,3,"\xe2\x94\x98"},{9497,3,"\xe2\x94\x99"},{9498,3,"\xe2\x94\x9a"},{9499,3,"\xe2\x94\x9b"},{9500,3,"\xe2\x94\x9c"},{9501,3,"\xe2\x94\x9d"},{9502,3,"\xe2\x94\x9e"},{9503,3,"\xe2\x94\x9f"},{9504,3,"\xe2\x94\xa0"},{9505,3,"\xe2\x94\xa1"},{9506,3,"\xe2\x94\xa2"},{9507,3,"\xe2\x94\xa3"},{9508,3,"\xe2\x94\xa4"},{9509,3,"\xe2\x94\xa5"},{9510,3,"\xe2\x94\xa6"},{9511,3,"\xe2\x94\xa7"},{9512,3,"\xe2\x94\xa8"},{9513,3,"\xe2\x94\xa9"},{9514,3,"\xe2\x94\xaa"},{9515,3,"\xe2\x94\xab"},{9516,3,"\xe2\x94\xac"},{9517,3,"\xe2\x94\xad"},{9518,3,"\xe2\x94\xae"},{9519,3,"\xe2\x94\xaf"},{9520,3,"\xe2\x94\xb0"},{9521,3,"\xe2\x94\xb1"},{9522,3,"\xe2\x94\xb2"},{9523,3,"\xe2\x94\xb3"},{9524,3,"\xe2\x94\xb4"},{9525,3,"\xe2\x94\xb5"},{9526,3,"\xe2\x94\xb6"},{9527,3,"\xe2\x94\xb7"},{9528,3,"\xe2\x94\xb8"},{9529,3,"\xe2\x94\xb9"},{9530,3,"\xe2\x94\xba"},{9531,3,"\xe2\x94\xbb"},{9532,3,"\xe2\x94\xbc"},{9533,3,"\xe2\x94\xbd"},{9534,3,"\xe2\x94\xbe"},{9535,3,"\xe2\x94\xbf"},{9536,3,"\xe2\x95\x80"},{9537,3,"\xe2\x95\x81"},{9538,3,"\xe2\x95\x82"},{9539,3,"\xe2\x95\x83"},{9540,3,"\xe2\x95\x84"},{9541,3,"\xe2\x95\x85"},{9542,3,"\xe2\x95\x86"},{9543,3,"\xe2\x95\x87"},{9544,3,"\xe2\x95\x88"},{9545,3,"\xe2\x95\x89"},{9546,3,"\xe2\x95\x8a"},{9547,3,"\xe2\x95\x8b"},{9548,3,"\xe2\x95\x8c"},{9549,3,"\xe2\x95\x8d"},{9550,3,"\xe2\x95\x8e"},{9551,3,"\xe2\x95\x8f"},{8470,3,"\xe2\x84\x96"},{8734,3,"\xe2\x88\x9e"},{8776,3,"\xe2\x89\x88"},{8800,3,"\xe2\x89\xa0"},{8804,3,"\xe2\x89\xa4"},{8805,3,"\xe2\x89\xa5"},{8730,3,"\xe2\x88\x9a"},{8706,3,"\xe2\x88\x82"},{8721,3,"\xe2\x88\x91"},{8719,3,"\xe2\x88\x8f"},{8747,3,"\xe2\x88\xab"},{9674,3,"\xe2\x97\x8a"},{64257,3,"\xef\xac\x81"},{64258,3,"\xef\xac\x82"},{12288,3,"\xe3\x80\x80"},{65345,3,"\xef\xbd\x81"},{65346,3,"\xef\xbd\x82"},{65347,3,"\xef\xbd\x83"},{65340,3,"\xef\xbc\xbc"},{65374,3,"\xef\xbd\x9e"},{65372,3,"\xef\xbd\x9c"},{65509,3,"\xef\xbf\xa5"},{65377,3,"\xef\xbd\xa1"},{65378,3,"\xef\xbd\xa2"},{65379,3,"\xef\xbd\xa3"},{65393,3,"\xef\xbd\xb1"},{65394,3,"\xef\xbd\xb2"},{65395,3,"\xef\xbd\xb3"},{9312,3,"\xe2\x91\xa0"},{9313,3,"\xe2\x91\xa1"},{9314,3,"\xe2\x91\xa2"},{8544,3,"\xe2\x85\xa0"},{8545,3,"\xe2\x85\xa1"},{8546,3,"\xe2\x85\xa2"},{13212,3,"\xe3\x8e\x9c"},{12849,3,"\xe3\x88\xb1"},{34920,3,"\xe8\xa1\xa8"},{20104,3,"\xe4\xba\x88"},{30003,3,"\xe7\x94\xb3"},{33021,3,"\xe8\x83\xbd"},{36028,3,"\xe8\xb2\xbc"},{26292,3,"\xe6\x9a\xb4"},{27083,3,"\xe6\xa7\x8b"},{22082,3,"\xe5\x99\x82"},{28012,3,"\xe6\xb5\xac"},{27450,3,"\xe6\xac\xba"},{22317,3,"\xe5\x9c\xad"},{29674,3,"\xe7\x8f\xaa"},{21682,3,"\xe5\x92\xb2"},{31168,3,"\xe7\xa7\x80"},{29410,3,"\xe7\x8b\xa2"},{34444,3,"\xe8\x9a\x8c"},
{37675,3,"\xe9\x8c\xab"},{25088,3,"\xe6\x88\x80"},{33399,3,"\xe8\x89\xb7"},{32114,3,"\xe7\xb5\xb2"},{40786,3,"\xe9\xbd\x92"},{40845,3,"\xe9\xbe\x8d"},{40860,3,"\xe9\xbe\x9c"},{38000,3,"\xe9\x91\xb0"},{39729,3,"\xe9\xac\xb1"},{128512,4,"\xf0\x9f\x98\x80"},{127918,4,"\xf0\x9f\x8e\xae"},{119070,4,"\xf0\x9d\x84\x9e"},
};
static const CsChar cs_1[] = {
{32,2,"\x20\x00"},{33,2,"\x21\x00"},{34,2,"\x22\x00"},{35,2,"\x23\x00"},{36,2,"\x24\x00"},{37,2,"\x25\x00"},{38,2,"\x26\x00"},{39,2,"\x27\x00"},{40,2,"\x28\x00"},{41,2,"\x29\x00"},{42,2,"\x2a\x00"},{43,2,"\x2b\x00"},{44,2,"\x2c\x00"},{45,2,"\x2d\x00"},{46,2,"\x2e\x00"},{47,2,"\x2f\x00"},{48,2,"\x30\x00"},{49,2,"\x31\x00"},{50,2,"\x32\x00"},{51,2,"\x33\x00"},{52,2,"\x34\x00"},{53,2,"\x35\x00"},{54,2,"\x36\x00"},{55,2,"\x37\x00"},{56,2,"\x38\x00"},{57,2,"\x39\x00"},{58,2,"\x3a\x00"},{59,2,"\x3b\x00"},{60,2,"\x3c\x00"},{61,2,"\x3d\x00"},{62,2,"\x3e\x00"},{63,2,"\x3f\x00"},{64,2,"\x40\x00"},{65,2,"\x41\x00"},{66,2,"\x42\x00"},{67,2,"\x43\x00"},{68,2,"\x44\x00"},{69,2,"\x45\x00"},{70,2,"\x46\x00"},{71,2,"\x47\x00"},{72,2,"\x48\x00"},{73,2,"\x49\x00"},{74,2,"\x4a\x00"},{75,2,"\x4b\x00"},{76,2,"\x4c\x00"},{77,2,"\x4d\x00"},{78,2,"\x4e\x00"},{79,2,"\x4f\x00"},{80,2,"\x50\x00"},{81,2,"\x51\x00"},{82,2,"\x52\x00"},{83,2,"\x53\x00"},{84,2,"\x54\x00"},{85,2,"\x55\x00"},{86,2,"\x56\x00"},{87,2,"\x57\x00"},{88,2,"\x58\x00"},{89,2,"\x59\x00"},{90,2,"\x5a\x00"},{91,2,"\x5b\x00"},{92,2,"\x5c\x00"},{93,2,"\x5d\x00"},{94,2,"\x5e\x00"},{95,2,"\x5f\x00"},{96,2,"\x60\x00"},{97,2,"\x61\x00"},{98,2,"\x62\x00"},{99,2,"\x63\x00"},{100,2,"\x64\x00"},{101,2,"\x65\x00"},{102,2,"\x66\x00"},{103,2,"\x67\x00"},{104,2,"\x68\x00"},{105,2,"\x69\x00"},{106,2,"\x6a\x00"},{107,2,"\x6b\x00"},{108,2,"\x6c\x00"},{109,2,"\x6d\x00"},{110,2,"\x6e\x00"},{111,2,"\x6f\x00"},{112,2,"\x70\x00"},{113,2,"\x71\x00"},{114,2,"\x72\x00"},{115,2,"\x73\x00"},{116,2,"\x74\x00"},{117,2,"\x75\x00"},{118,2,"\x76\x00"},{119,2,"\x77\x00"},{120,2,"\x78\x00"},{121,2,"\x79\x00"},{122,2,"\x7a\x00"},{123,2,"\x7b\x00"},{124,2,"\x7c\x00"},{125,2,"\x7d\x00"},{126,2,"\x7e\x00"},{9,2,"\x09\x00"},{10,2,"\x0a\x00"},{13,2,"\x0d\x00"},{7,2,"\x07\x00"},{8,2,"\x08\x00"},{11,2,"\x0b\x00"},{128,2,"\x80\x00"},{129,2,"\x81\x00"},{130,2,"\x82\x00"},{131,2,"\x83\x00"},{132,2,"\x84\x00"},{133,2,"\x85\x00"},{134,2,"\x86\x00"},{135,2,"\x87\x00"},{136,2,"\x88\x00"},{137,2,"\x89\x00"},{138,2,"\x8a\x00"},{139,2,"\x8b\x00"},{140,2,"\x8c\x00"},{141,2,"\x8d\x00"},{142,2,"\x8e\x00"},{143,2,"\x8f\x00"},{144,2,"\x90\x00"},{145,2,"\x91\x00"},{146,2,"\x92\x00"},{147,2,"\x93\x00"},{148,2,"\x94\x00"},{149,2,"\x95\x00"},{150,2,"\x96\x00"},{151,2,"\x97\x00"},{152,2,"\x98\x00"},{153,2,"\x99\x00"},{154,2,"\x9a\x00"},{155,2,"\x9b\x00"},{156,2,"\x9c\x00"},{157,2,"\x9d\x00"},{158,2,"\x9e\x00"},{159,2,"\x9f\x00"},{160,2,"\xa0\x00"},{161,2,"\xa1\x00"},{162,2,"\xa2\x00"},{163,2,"\xa3\x00"},{164,2,"\xa4\x00"},{165,2,"\xa5\x00"},{166,2,"\xa6\x00"},{167,2,"\xa7\x00"},{168,2,"\xa8\x00"},{169,2,"\xa9\x00"},{170,2,"\xaa\x00"},{171,2,"\xab\x00"},{172,2,"\xac\x00"},{173,2,"\xad\x00"},{174,2,"\xae\x00"},{175,2,"\xaf\x00"},{176,2,"\xb0\x00"},{177,2,"\xb1\x00"},{178,2,"\xb2\x00"},{179,2,"\xb3\x00"},{180,2,"\xb4\x00"},{181,2,"\xb5\x00"},{182,2,"\xb6\x00"},{183,2,"\xb7\x00"},{184,2,"\xb8\x00"},{185,2,"\xb9\x00"},{186,2,"\xba\x00"},{187,2,"\xbb\x00"},{188,2,"\xbc\x00"},
{189,2,"\xbd\x00"},{190,2,"\xbe\x00"},{191,2,"\xbf\x00"},{192,2,"\xc0\x00"},{193,2,"\xc1\x00"},{194,2,"\xc2\x00"},{195,2,"\xc3\x00"},{196,2,"\xc4\x00"},{197,2,"\xc5\x00"},{198,2,"\xc6\x00"},{199,2,"\xc7\x00"},{200,2,"\xc8\x00"},{201,2,"\xc9\x00"},{202,2,"\xca\x00"},{203,2,"\xcb\x00"},{204,2,"\xcc\x00"},{205,2,"\xcd\x00"},{206,2,"\xce\x00"},{207,2,"\xcf\x00"},{208,2,"\xd0\x00"},{209,2,"\xd1\x00"},{210,2,"\xd2\x00"},{211,2,"\xd3\x00"},{212,2,"\xd4\x00"},{213,2,"\xd5\x00"},{214,2,"\xd6\x00"},{215,2,"\xd7\x00"},{216,2,"\xd8\x00"},{217,2,"\xd9\x00"},{218,2,"\xda\x00"},{219,2,"\xdb\x00"},{220,2,"\xdc\x00"},{221,2,"\xdd\x00"},{222,2,"\xde\x00"},{223,2,"\xdf\x00"},{224,2,"\xe0\x00"},{225,2,"\xe1\x00"},{226,2,"\xe2\x00"},{227,2,"\xe3\x00"},{228,2,"\xe4\x00"},{229,2,"\xe5\x00"},{230,2,"\xe6\x00"},{231,2,"\xe7\x00"},{232,2,"\xe8\x00"},{233,2,"\xe9\x00"},{234,2,"\xea\x00"},{235,2,"\xeb\x00"},{236,2,"\xec\x00"},{237,2,"\xed\x00"},{238,2,"\xee\x00"},{239,2,"\xef\x00"},{240,2,"\xf0\x00"},{241,2,"\xf1\x00"},{242,2,"\xf2\x00"},{243,2,"\xf3\x00"},{244,2,"\xf4\x00"},{245,2,"\xf5\x00"},{246,2,"\xf6\x00"},{247,2,"\xf7\x00"},{248,2,"\xf8\x00"},{249,2,"\xf9\x00"},{250,2,"\xfa\x00"},{251,2,"\xfb\x00"},{252,2,"\xfc\x00"},{253,2,"\xfd\x00"},{254,2,"\xfe\x00"},{255,2,"\xff\x00"},{256,2,"\x00\x01"},{257,2,"\x01\x01"},{258,2,"\x02\x01"},{259,2,"\x03\x01"},{260,2,"\x04\x01"},{261,2,"\x05\x01"},{262,2,"\x06\x01"},{263,2,"\x07\x01"},{264,2,"\x08\x01"},{265,2,"\x09\x01"},{266,2,"\x0a\x01"},{267,2,"\x0b\x01"},{268,2,"\x0c\x01"},{269,2,"\x0d\x01"},{270,2,"\x0e\x01"},{271,2,"\x0f\x01"},{272,2,"\x10\x01"},{273,2,"\x11\x01"},{274,2,"\x12\x01"},{275,2,"\x13\x01"},{276,2,"\x14\x01"},{277,2,"\x15\x01"},{278,2,"\x16\x01"},{279,2,"\x17\x01"},{280,2,"\x18\x01"},{281,2,"\x19\x01"},{282,2,"\x1a\x01"},{283,2,"\x1b\x01"},{284,2,"\x1c\x01"},{285,2,"\x1d\x01"},{286,2,"\x1e\x01"},{287,2,"\x1f\x01"},{288,2,"\x20\x01"},{289,2,"\x21\x01"},{290,2,"\x22\x01"},{291,2,"\x23\x01"},{292,2,"\x24\x01"},{293,2,"\x25\x01"},{294,2,"\x26\x01"},{295,2,"\x27\x01"},{296,2,"\x28\x01"},{297,2,"\x29\x01"},{298,2,"\x2a\x01"},{299,2,"\x2b\x01"},{300,2,"\x2c\x01"},{301,2,"\x2d\x01"},{302,2,"\x2e\x01"},{303,2,"\x2f\x01"},{304,2,"\x30\x01"},{305,2,"\x31\x01"},{306,2,"\x32\x01"},{307,2,"\x33\x01"},{308,2,"\x34\x01"},{309,2,"\x35\x01"},{310,2,"\x36\x01"},{311,2,"\x37\x01"},{312,2,"\x38\x01"},{313,2,"\x39\x01"},{314,2,"\x3a\x01"},{315,2,"\x3b\x01"},{316,2,"\x3c\x01"},{317,2,"\x3d\x01"},{318,2,"\x3e\x01"},{319,2,"\x3f\x01"},{320,2,"\x40\x01"},{321,2,"\x41\x01"},{322,2,"\x42\x01"},{323,2,"\x43\x01"},{324,2,"\x44\x01"},{325,2,"\x45\x01"},{326,2,"\x46\x01"},{327,2,"\x47\x01"},{328,2,"\x48\x01"},{329,2,"\x49\x01"},{330,2,"\x4a\x01"},{331,2,"\x4b\x01"},{332,2,"\x4c\x01"},{333,2,"\x4d\x01"},{334,2,"\x4e\x01"},{335,2,"\x4f\x01"},{336,2,"\x50\x01"},{337,2,"\x51\x01"},{338,2,"\x52\x01"},{339,2,"\x53\x01"},{340,2,"\x54\x01"},{341,2,"\x55\x01"},{342,2,"\x56\x01"},{343,2,"\x57\x01"},{344,2,"\x58\x01"},{345,2,"\x59\x01"},{346,2,"\x5a\x01"},
{347,2,"\x5b\x01"},{348,2,"\x5c\x01"},{349,2,"\x5d\x01"},{350,2,"\x5e\x01"},{351,2,"\x5f\x01"},{352,2,"\x60\x01"},{353,2,"\x61\x01"},{354,2,"\x62\x01"},{355,2,"\x63\x01"},{356,2,"\x64\x01"},{357,2,"\x65\x01"},{358,2,"\x66\x01"},{359,2,"\x67\x01"},{360,2,"\x68\x01"},{361,2,"\x69\x01"},{362,2,"\x6a\x01"},{363,2,"\x6b\x01"},{364,2,"\x6c\x01"},{365,2,"\x6d\x01"},{366,2,"\x6e\x01"},{367,2,"\x6f\x01"},{368,2,"\x70\x01"},{369,2,"\x71\x01"},{370,2,"\x72\x01"},{371,2,"\x73\x01"},{372,2,"\x74\x01"},{373,2,"\x75\x01"},{374,2,"\x76\x01"},{375,2,"\x77\x01"},{376,2,"\x78\x01"},{377,2,"\x79\x01"},{378,2,"\x7a\x01"},{379,2,"\x7b\x01"},{380,2,"\x7c\x01"},{381,2,"\x7d\x01"},{382,2,"\x7e\x01"},{383,2,"\x7f\x01"},{127,2,"\x7f\x00"},{1,2,"\x01\x00"},{4,2,"\x04\x00"},{27,2,"\x1b\x00"},{26,2,"\x1a\x00"},{12,2,"\x0c\x00"},{900,2,"\x84\x03"},{901,2,"\x85\x03"},{902,2,"\x86\x03"},{903,2,"\x87\x03"},{904,2,"\x88\x03"},{905,2,"\x89\x03"},{906,2,"\x8a\x03"},{907,2,"\x8b\x03"},{908,2,"\x8c\x03"},{909,2,"\x8d\x03"},{910,2,"\x8e\x03"},{911,2,"\x8f\x03"},{912,2,"\x90\x03"},{913,2,"\x91\x03"},{914,2,"\x92\x03"},{915,2,"\x93\x03"},{916,2,"\x94\x03"},{917,2,"\x95\x03"},{918,2,"\x96\x03"},{919,2,"\x97\x03"},{920,2,"\x98\x03"},{921,2,"\x99\x03"},{922,2,"\x9a\x03"},{923,2,"\x9b\x03"},{924,2,"\x9c\x03"},{925,2,"\x9d\x03"},{926,2,"\x9e\x03"},{927,2,"\x9f\x03"},{928,2,"\xa0\x03"},{929,2,"\xa1\x03"},{930,2,"\xa2\x03"},{931,2,"\xa3\x03"},{932,2,"\xa4\x03"},{933,2,"\xa5\x03"},{934,2,"\xa6\x03"},{935,2,"\xa7\x03"},{936,2,"\xa8\x03"},{937,2,"\xa9\x03"},{938,2,"\xaa\x03"},{939,2,"\xab\x03"},{940,2,"\xac\x03"},{941,2,"\xad\x03"},{942,2,"\xae\x03"},{943,2,"\xaf\x03"},{944,2,"\xb0\x03"},{945,2,"\xb1\x03"},{946,2,"\xb2\x03"},{947,2,"\xb3\x03"},{948,2,"\xb4\x03"},{949,2,"\xb5\x03"},{950,2,"\xb6\x03"},{951,2,"\xb7\x03"},{952,2,"\xb8\x03"},{953,2,"\xb9\x03"},{954,2,"\xba\x03"},{955,2,"\xbb\x03"},{956,2,"\xbc\x03"},{957,2,"\xbd\x03"},{958,2,"\xbe\x03"},{959,2,"\xbf\x03"},{960,2,"\xc0\x03"},{961,2,"\xc1\x03"},{962,2,"\xc2\x03"},{963,2,"\xc3\x03"},{964,2,"\xc4\x03"},{965,2,"\xc5\x03"},{966,2,"\xc6\x03"},{967,2,"\xc7\x03"},{968,2,"\xc8\x03"},{969,2,"\xc9\x03"},{970,2,"\xca\x03"},{971,2,"\xcb\x03"},{972,2,"\xcc\x03"},{973,2,"\xcd\x03"},{974,2,"\xce\x03"},{1025,2,"\x01\x04"},{1026,2,"\x02\x04"},{1027,2,"\x03\x04"},{1028,2,"\x04\x04"},{1029,2,"\x05\x04"},{1030,2,"\x06\x04"},{1031,2,"\x07\x04"},{1032,2,"\x08\x04"},{1033,2,"\x09\x04"},{1034,2,"\x0a\x04"},{1035,2,"\x0b\x04"},{1036,2,"\x0c\x04"},{1037,2,"\x0d\x04"},{1038,2,"\x0e\x04"},{1039,2,"\x0f\x04"},{1040,2,"\x10\x04"},{1041,2,"\x11\x04"},{1042,2,"\x12\x04"},{1043,2,"\x13\x04"},{1044,2,"\x14\x04"},{1045,2,"\x15\x04"},{1046,2,"\x16\x04"},{1047,2,"\x17\x04"},{1048,2,"\x18\x04"},{1049,2,"\x19\x04"},{1050,2,"\x1a\x04"},{1051,2,"\x1b\x04"},{1052,2,"\x1c\x04"},{1053,2,"\x1d\x04"},{1054,2,"\x1e\x04"},{1055,2,"\x1f\x04"},{1056,2,"\x20\x04"},{1057,2,"\x21\x04"},{1058,2,"\x22\x04"},{1059,2,"\x23\x04"},{1060,2,"\x24\x04"},{1061,2,"\x25\x04"},{1062,2,"\x26\x04"},{1063,2,"\x27\x04"},
{1064,2,"\x28\x04"},{1065,2,"\x29\x04"},{1066,2,"\x2a\x04"},{1067,2,"\x2b\x04"},{1068,2,"\x2c\x04"},{1069,2,"\x2d\x04"},{1070,2,"\x2e\x04"},{1071,2,"\x2f\x04"},{1072,2,"\x30\x04"},{1073,2,"\x31\x04"},{1074,2,"\x32\x04"},{1075,2,"\x33\x04"},{1076,2,"\x34\x04"},{1077,2,"\x35\x04"},{1078,2,"\x36\x04"},{1079,2,"\x37\x04"},{1080,2,"\x38\x04"},{1081,2,"\x39\x04"},{1082,2,"\x3a\x04"},{1083,2,"\x3b\x04"},{1084,2,"\x3c\x04"},{1085,2,"\x3d\x04"},{1086,2,"\x3e\x04"},{1087,2,"\x3f\x04"},{1088,2,"\x40\x04"},{1089,2,"\x41\x04"},{1090,2,"\x42\x04"},{1091,2,"\x43\x04"},{1092,2,"\x44\x04"},{1093,2,"\x45\x04"},{1094,2,"\x46\x04"},{1095,2,"\x47\x04"},{1096,2,"\x48\x04"},{1097,2,"\x49\x04"},{1098,2,"\x4a\x04"},{1099,2,"\x4b\x04"},{1100,2,"\x4c\x04"},{1101,2,"\x4d\x04"},{1102,2,"\x4e\x04"},{1103,2,"\x4f\x04"},{1104,2,"\x50\x04"},{1105,2,"\x51\x04"},{1106,2,"\x52\x04"},{1107,2,"\x53\x04"},{1108,2,"\x54\x04"},{1109,2,"\x55\x04"},{1110,2,"\x56\x04"},{1111,2,"\x57\x04"},{1112,2,"\x58\x04"},{1113,2,"\x59\x04"},{1114,2,"\x5a\x04"},{1115,2,"\x5b\x04"},{1116,2,"\x5c\x04"},{1117,2,"\x5d\x04"},{1118,2,"\x5e\x04"},{8211,2,"\x13\x20"},{8212,2,"\x14\x20"},{8216,2,"\x18\x20"},{8217,2,"\x19\x20"},{8220,2,"\x1c\x20"},{8221,2,"\x1d\x20"},{8222,2,"\x1e\x20"},{8224,2,"\x20\x20"},{8225,2,"\x21\x20"},{8226,2,"\x22\x20"},{8230,2,"\x26\x20"},{8240,2,"\x30\x20"},{8249,2,"\x39\x20"},{8250,2,"\x3a\x20"},{8364,2,"\xac\x20"},{8482,2,"\x22\x21"},{1488,2,"\xd0\x05"},{1489,2,"\xd1\x05"},{1490,2,"\xd2\x05"},{1491,2,"\xd3\x05"},{1492,2,"\xd4\x05"},{1493,2,"\xd5\x05"},{1494,2,"\xd6\x05"},{1495,2,"\xd7\x05"},{1496,2,"\xd8\x05"},{1497,2,"\xd9\x05"},{1498,2,"\xda\x05"},{1499,2,"\xdb\x05"},{1500,2,"\xdc\x05"},{1501,2,"\xdd\x05"},{1502,2,"\xde\x05"},{1503,2,"\xdf\x05"},{1504,2,"\xe0\x05"},{1505,2,"\xe1\x05"},{1506,2,"\xe2\x05"},{1507,2,"\xe3\x05"},{1508,2,"\xe4\x05"},{1509,2,"\xe5\x05"},{1510,2,"\xe6\x05"},{1511,2,"\xe7\x05"},{1512,2,"\xe8\x05"},{1513,2,"\xe9\x05"},{1514,2,"\xea\x05"},{3585,2,"\x01\x0e"},{3586,2,"\x02\x0e"},{3587,2,"\x03\x0e"},{3588,2,"\x04\x0e"},{3589,2,"\x05\x0e"},{3590,2,"\x06\x0e"},{3591,2,"\x07\x0e"},{3592,2,"\x08\x0e"},{3593,2,"\x09\x0e"},{3594,2,"\x0a\x0e"},{3595,2,"\x0b\x0e"},{3596,2,"\x0c\x0e"},{3597,2,"\x0d\x0e"},{3598,2,"\x0e\x0e"},{3599,2,"\x0f\x0e"},{3600,2,"\x10\x0e"},{3601,2,"\x11\x0e"},{3602,2,"\x12\x0e"},{3603,2,"\x13\x0e"},{3604,2,"\x14\x0e"},{3605,2,"\x15\x0e"},{3606,2,"\x16\x0e"},{3607,2,"\x17\x0e"},{3608,2,"\x18\x0e"},{3609,2,"\x19\x0e"},{3610,2,"\x1a\x0e"},{3611,2,"\x1b\x0e"},{3612,2,"\x1c\x0e"},{3613,2,"\x1d\x0e"},{3614,2,"\x1e\x0e"},{3615,2,"\x1f\x0e"},{3616,2,"\x20\x0e"},{3617,2,"\x21\x0e"},{3618,2,"\x22\x0e"},{3619,2,"\x23\x0e"},{3620,2,"\x24\x0e"},{3621,2,"\x25\x0e"},{3622,2,"\x26\x0e"},{3623,2,"\x27\x0e"},{3624,2,"\x28\x0e"},{3625,2,"\x29\x0e"},{3626,2,"\x2a\x0e"},{3627,2,"\x2b\x0e"},{3628,2,"\x2c\x0e"},{3629,2,"\x2d\x0e"},{3630,2,"\x2e\x0e"},{12353,2,"\x41\x30"},{12354,2,"\x42\x30"},{12355,2,"\x43\x30"},{12356,2,"\x44\x30"},{12357,2,"\x45\x30"},{12358,2,"\x46\x30"},
{12359,2,"\x47\x30"},{12360,2,"\x48\x30"},{12361,2,"\x49\x30"},{12362,2,"\x4a\x30"},{12363,2,"\x4b\x30"},{12364,2,"\x4c\x30"},{12365,2,"\x4d\x30"},{12366,2,"\x4e\x30"},{12367,2,"\x4f\x30"},{12368,2,"\x50\x30"},{12369,2,"\x51\x30"},{12370,2,"\x52\x30"},{12371,2,"\x53\x30"},{12372,2,"\x54\x30"},{12373,2,"\x55\x30"},{12374,2,"\x56\x30"},{12375,2,"\x57\x30"},{12376,2,"\x58\x30"},{12377,2,"\x59\x30"},{12378,2,"\x5a\x30"},{12379,2,"\x5b\x30"},{12380,2,"\x5c\x30"},{12381,2,"\x5d\x30"},{12382,2,"\x5e\x30"},{12383,2,"\x5f\x30"},{12384,2,"\x60\x30"},{12385,2,"\x61\x30"},{12386,2,"\x62\x30"},{12387,2,"\x63\x30"},{12388,2,"\x64\x30"},{12389,2,"\x65\x30"},{12390,2,"\x66\x30"},{12391,2,"\x67\x30"},{12392,2,"\x68\x30"},{12393,2,"\x69\x30"},{12394,2,"\x6a\x30"},{12395,2,"\x6b\x30"},{12396,2,"\x6c\x30"},{12397,2,"\x6d\x30"},{12398,2,"\x6e\x30"},{12399,2,"\x6f\x30"},{12400,2,"\x70\x30"},{12401,2,"\x71\x30"},{12402,2,"\x72\x30"},{12403,2,"\x73\x30"},{12404,2,"\x74\x30"},{12405,2,"\x75\x30"},{12406,2,"\x76\x30"},{12407,2,"\x77\x30"},{12408,2,"\x78\x30"},{12409,2,"\x79\x30"},{12410,2,"\x7a\x30"},{12411,2,"\x7b\x30"},{12412,2,"\x7c\x30"},{12413,2,"\x7d\x30"},{12414,2,"\x7e\x30"},{12415,2,"\x7f\x30"},{12416,2,"\x80\x30"},{12417,2,"\x81\x30"},{12418,2,"\x82\x30"},{12419,2,"\x83\x30"},{12420,2,"\x84\x30"},{12421,2,"\x85\x30"},{12422,2,"\x86\x30"},{12423,2,"\x87\x30"},{12424,2,"\x88\x30"},{12425,2,"\x89\x30"},{12426,2,"\x8a\x30"},{12427,2,"\x8b\x30"},{12428,2,"\x8c\x30"},{12429,2,"\x8d\x30"},{12430,2,"\x8e\x30"},{12431,2,"\x8f\x30"},{12432,2,"\x90\x30"},{12433,2,"\x91\x30"},{12434,2,"\x92\x30"},{12435,2,"\x93\x30"},{12449,2,"\xa1\x30"},{12450,2,"\xa2\x30"},{12451,2,"\xa3\x30"},{12452,2,"\xa4\x30"},{12453,2,"\xa5\x30"},{12454,2,"\xa6\x30"},{12455,2,"\xa7\x30"},{12456,2,"\xa8\x30"},{12457,2,"\xa9\x30"},{12458,2,"\xaa\x30"},{12459,2,"\xab\x30"},{12460,2,"\xac\x30"},{12461,2,"\xad\x30"},{12462,2,"\xae\x30"},{12463,2,"\xaf\x30"},{12464,2,"\xb0\x30"},{12465,2,"\xb1\x30"},{12466,2,"\xb2\x30"},{12467,2,"\xb3\x30"},{12468,2,"\xb4\x30"},{12469,2,"\xb5\x30"},{12470,2,"\xb6\x30"},{12471,2,"\xb7\x30"},{12472,2,"\xb8\x30"},{12473,2,"\xb9\x30"},{12474,2,"\xba\x30"},{12475,2,"\xbb\x30"},{12476,2,"\xbc\x30"},{12477,2,"\xbd\x30"},{12478,2,"\xbe\x30"},{12479,2,"\xbf\x30"},{12480,2,"\xc0\x30"},{12481,2,"\xc1\x30"},{12482,2,"\xc2\x30"},{12483,2,"\xc3\x30"},{12484,2,"\xc4\x30"},{12485,2,"\xc5\x30"},{12486,2,"\xc6\x30"},{12487,2,"\xc7\x30"},{12488,2,"\xc8\x30"},{12489,2,"\xc9\x30"},{12490,2,"\xca\x30"},{12491,2,"\xcb\x30"},{12492,2,"\xcc\x30"},{12493,2,"\xcd\x30"},{12494,2,"\xce\x30"},{12495,2,"\xcf\x30"},{12496,2,"\xd0\x30"},{12497,2,"\xd1\x30"},{12498,2,"\xd2\x30"},{12499,2,"\xd3\x30"},{12500,2,"\xd4\x30"},{12501,2,"\xd5\x30"},{12502,2,"\xd6\x30"},{12503,2,"\xd7\x30"},{12504,2,"\xd8\x30"},{12505,2,"\xd9\x30"},{12506,2,"\xda\x30"},{12507,2,"\xdb\x30"},{12508,2,"\xdc\x30"},{12509,2,"\xdd\x30"},{12510,2,"\xde\x30"},{12511,2,"\xdf\x30"},{12512,2,"\xe0\x30"},{12513,2,"\xe1\x30"},{12514,2,"\xe2\x30"},
{12515,2,"\xe3\x30"},{12516,2,"\xe4\x30"},{12517,2,"\xe5\x30"},{12518,2,"\xe6\x30"},{12519,2,"\xe7\x30"},{12520,2,"\xe8\x30"},{12521,2,"\xe9\x30"},{12522,2,"\xea\x30"},{12523,2,"\xeb\x30"},{12524,2,"\xec\x30"},{12525,2,"\xed\x30"},{12526,2,"\xee\x30"},{12527,2,"\xef\x30"},{12528,2,"\xf0\x30"},{12529,2,"\xf1\x30"},{12530,2,"\xf2\x30"},{12531,2,"\xf3\x30"},{12532,2,"\xf4\x30"},{12533,2,"\xf5\x30"},{12534,2,"\xf6\x30"},{12289,2,"\x01\x30"},{12290,2,"\x02\x30"},{12300,2,"\x0c\x30"},{12301,2,"\x0d\x30"},{26085,2,"\xe5\x65"},{26412,2,"\x2c\x67"},{35486,2,"\x9e\x8a"},{28450,2,"\x22\x6f"},{23383,2,"\x57\x5b"},{20013,2,"\x2d\x4e"},{25991,2,"\x87\x65"},{22283,2,"\x0b\x57"},{22269,2,"\xfd\x56"},{35821,2,"\xed\x8b"},{31616,2,"\x80\x7b"},{39636,2,"\xd4\x9a"},{20307,2,"\x53\x4f"},{32321,2,"\x41\x7e"},{21488,2,"\xf0\x53"},{28771,2,"\x63\x70"},{28286,2,"\x7e\x6e"},{39321,2,"\x99\x99"},{28207,2,"\x2f\x6e"},{32763,2,"\xfb\x7f"},{35695,2,"\x6f\x8b"},{35793,2,"\xd1\x8b"},{36938,2,"\x4a\x90"},{28216,2,"\x38\x6e"},{25103,2,"\x0f\x62"},{25138,2,"\x32\x62"},{38283,2,"\x8b\x95"},{24320,2,"\x00\x5f"},{22987,2,"\xcb\x59"},{26032,2,"\xb0\x65"},{38306,2,"\xa2\x95"},{38364,2,"\xdc\x95"},{35373,2,"\x2d\x8a"},{32622,2,"\x6e\x7f"},{23450,2,"\x9a\x5b"},{35328,2,"\x00\x8a"},{21517,2,"\x0d\x54"},{21069,2,"\x4d\x52"},{20445,2,"\xdd\x4f"},{23384,2,"\x58\x5b"},{21151,2,"\x9f\x52"},{35377,2,"\x31\x8a"},{33995,2,"\xcb\x84"},{20040,2,"\x48\x4e"},{32946,2,"\xb2\x80"},{21522,2,"\x12\x54"},{21549,2,"\x2d\x54"},{23049,2,"\x09\x5a"},{35961,2,"\x79\x8c"},{29854,2,"\x9e\x74"},{25850,2,"\xfa\x64"},{39184,2,"\x10\x99"},{39631,2,"\xcf\x9a"},{29749,2,"\x35\x74"},{26543,2,"\xaf\x67"},{27519,2,"\x7f\x6b"},{19968,2,"\x00\x4e"},{20108,2,"\x8c\x4e"},{19977,2,"\x09\x4e"},{22235,2,"\xdb\x56"},{20116,2,"\x94\x4e"},{20845,2,"\x6d\x51"},{19971,2,"\x03\x4e"},{20843,2,"\x6b\x51"},{20061,2,"\x5d\x4e"},{21313,2,"\x41\x53"},{44032,2,"\x00\xac"},{44033,2,"\x01\xac"},{44034,2,"\x02\xac"},{44035,2,"\x03\xac"},{44036,2,"\x04\xac"},{44037,2,"\x05\xac"},{44038,2,"\x06\xac"},{44039,2,"\x07\xac"},{44040,2,"\x08\xac"},{44041,2,"\x09\xac"},{44042,2,"\x0a\xac"},{44043,2,"\x0b\xac"},{44044,2,"\x0c\xac"},{44045,2,"\x0d\xac"},{44046,2,"\x0e\xac"},{44047,2,"\x0f\xac"},{44048,2,"\x10\xac"},{44049,2,"\x11\xac"},{44050,2,"\x12\xac"},{44051,2,"\x13\xac"},{44052,2,"\x14\xac"},{44053,2,"\x15\xac"},{44054,2,"\x16\xac"},{44055,2,"\x17\xac"},{44056,2,"\x18\xac"},{44057,2,"\x19\xac"},{44058,2,"\x1a\xac"},{44059,2,"\x1b\xac"},{44060,2,"\x1c\xac"},{44061,2,"\x1d\xac"},{44062,2,"\x1e\xac"},{44063,2,"\x1f\xac"},{54620,2,"\x5c\xd5"},{44397,2,"\x6d\xad"},{50612,2,"\xb4\xc5"},{44172,2,"\x8c\xac"},{51076,2,"\x84\xc7"},{49884,2,"\xdc\xc2"},{51089,2,"\x91\xc7"},{49444,2,"\x24\xc1"},{51221,2,"\x15\xc8"},{51200,2,"\x00\xc8"},{51109,2,"\xa5\xc7"},{1569,2,"\x21\x06"},{1570,2,"\x22\x06"},{1571,2,"\x23\x06"},{1572,2,"\x24\x06"},{1573,2,"\x25\x06"},{1574,2,"\x26\x06"},{1575,2,"\x27\x06"},{1576,2,"\x28\x06"},{1577,2,"\x29\x06"},{1578,2,"\x2a\x06"},{1579,2,"\x2b\x06"},
{1580,2,"\x2c\x06"},{1581,2,"\x2d\x06"},{1582,2,"\x2e\x06"},{1583,2,"\x2f\x06"},{1584,2,"\x30\x06"},{1585,2,"\x31\x06"},{1586,2,"\x32\x06"},{1587,2,"\x33\x06"},{1588,2,"\x34\x06"},{1589,2,"\x35\x06"},{1590,2,"\x36\x06"},{1591,2,"\x37\x06"},{1592,2,"\x38\x06"},{1593,2,"\x39\x06"},{1594,2,"\x3a\x06"},{1600,2,"\x40\x06"},{1601,2,"\x41\x06"},{1602,2,"\x42\x06"},{1603,2,"\x43\x06"},{1604,2,"\x44\x06"},{1605,2,"\x45\x06"},{1606,2,"\x46\x06"},{1607,2,"\x47\x06"},{1608,2,"\x48\x06"},{1609,2,"\x49\x06"},{1610,2,"\x4a\x06"},{1168,2,"\x90\x04"},{1169,2,"\x91\x04"},{1170,2,"\x92\x04"},{1171,2,"\x93\x04"},{1172,2,"\x94\x04"},{1173,2,"\x95\x04"},{1174,2,"\x96\x04"},{1175,2,"\x97\x04"},{1176,2,"\x98\x04"},{1177,2,"\x99\x04"},{1178,2,"\x9a\x04"},{1179,2,"\x9b\x04"},{1180,2,"\x9c\x04"},{1181,2,"\x9d\x04"},{1182,2,"\x9e\x04"},{1183,2,"\x9f\x04"},{1184,2,"\xa0\x04"},{1185,2,"\xa1\x04"},{1186,2,"\xa2\x04"},{1187,2,"\xa3\x04"},{1188,2,"\xa4\x04"},{1189,2,"\xa5\x04"},{1190,2,"\xa6\x04"},{1191,2,"\xa7\x04"},{1192,2,"\xa8\x04"},{1193,2,"\xa9\x04"},{1194,2,"\xaa\x04"},{1195,2,"\xab\x04"},{1196,2,"\xac\x04"},{1197,2,"\xad\x04"},{1198,2,"\xae\x04"},{1199,2,"\xaf\x04"},{7840,2,"\xa0\x1e"},{7841,2,"\xa1\x1e"},{7842,2,"\xa2\x1e"},{7843,2,"\xa3\x1e"},{7844,2,"\xa4\x1e"},{7845,2,"\xa5\x1e"},{7846,2,"\xa6\x1e"},{7847,2,"\xa7\x1e"},{7848,2,"\xa8\x1e"},{7849,2,"\xa9\x1e"},{7850,2,"\xaa\x1e"},{7851,2,"\xab\x1e"},{7852,2,"\xac\x1e"},{7853,2,"\xad\x1e"},{7854,2,"\xae\x1e"},{7855,2,"\xaf\x1e"},{7856,2,"\xb0\x1e"},{7857,2,"\xb1\x1e"},{7858,2,"\xb2\x1e"},{7859,2,"\xb3\x1e"},{7860,2,"\xb4\x1e"},{7861,2,"\xb5\x1e"},{7862,2,"\xb6\x1e"},{7863,2,"\xb7\x1e"},{7864,2,"\xb8\x1e"},{7865,2,"\xb9\x1e"},{7866,2,"\xba\x1e"},{7867,2,"\xbb\x1e"},{7868,2,"\xbc\x1e"},{7869,2,"\xbd\x1e"},{7870,2,"\xbe\x1e"},{7871,2,"\xbf\x1e"},{9472,2,"\x00\x25"},{9473,2,"\x01\x25"},{9474,2,"\x02\x25"},{9475,2,"\x03\x25"},{9476,2,"\x04\x25"},{9477,2,"\x05\x25"},{9478,2,"\x06\x25"},{9479,2,"\x07\x25"},{9480,2,"\x08\x25"},{9481,2,"\x09\x25"},{9482,2,"\x0a\x25"},{9483,2,"\x0b\x25"},{9484,2,"\x0c\x25"},{9485,2,"\x0d\x25"},{9486,2,"\x0e\x25"},{9487,2,"\x0f\x25"},{9488,2,"\x10\x25"},{9489,2,"\x11\x25"},{9490,2,"\x12\x25"},{9491,2,"\x13\x25"},{9492,2,"\x14\x25"},{9493,2,"\x15\x25"},{9494,2,"\x16\x25"},{9495,2,"\x17\x25"},{9496,2,"\x18\x25"},{9497,2,"\x19\x25"},{9498,2,"\x1a\x25"},{9499,2,"\x1b\x25"},{9500,2,"\x1c\x25"},{9501,2,"\x1d\x25"},{9502,2,"\x1e\x25"},{9503,2,"\x1f\x25"},{9504,2,"\x20\x25"},{9505,2,"\x21\x25"},{9506,2,"\x22\x25"},{9507,2,"\x23\x25"},{9508,2,"\x24\x25"},{9509,2,"\x25\x25"},{9510,2,"\x26\x25"},{9511,2,"\x27\x25"},{9512,2,"\x28\x25"},{9513,2,"\x29\x25"},{9514,2,"\x2a\x25"},{9515,2,"\x2b\x25"},{9516,2,"\x2c\x25"},{9517,2,"\x2d\x25"},{9518,2,"\x2e\x25"},{9519,2,"\x2f\x25"},{9520,2,"\x30\x25"},{9521,2,"\x31\x25"},{9522,2,"\x32\x25"},{9523,2,"\x33\x25"},{9524,2,"\x34\x25"},{9525,2,"\x35\x25"},{9526,2,"\x36\x25"},{9527,2,"\x37\x25"},{9528,2,"\x38\x25"},{9529,2,"\x39\x25"},{9530,2,"\x3a\x25"},{9531,2,"\x3b\x25"},{9532,2,"\x3c\x25"},
{9533,2,"\x3d\x25"},{9534,2,"\x3e\x25"},{9535,2,"\x3f\x25"},{9536,2,"\x40\x25"},{9537,2,"\x41\x25"},{9538,2,"\x42\x25"},{9539,2,"\x43\x25"},{9540,2,"\x44\x25"},{9541,2,"\x45\x25"},{9542,2,"\x46\x25"},{9543,2,"\x47\x25"},{9544,2,"\x48\x25"},{9545,2,"\x49\x25"},{9546,2,"\x4a\x25"},{9547,2,"\x4b\x25"},{9548,2,"\x4c\x25"},{9549,2,"\x4d\x25"},{9550,2,"\x4e\x25"},{9551,2,"\x4f\x25"},{8470,2,"\x16\x21"},{8734,2,"\x1e\x22"},{8776,2,"\x48\x22"},{8800,2,"\x60\x22"},{8804,2,"\x64\x22"},{8805,2,"\x65\x22"},{8730,2,"\x1a\x22"},{8706,2,"\x02\x22"},{8721,2,"\x11\x22"},{8719,2,"\x0f\x22"},{8747,2,"\x2b\x22"},{9674,2,"\xca\x25"},{64257,2,"\x01\xfb"},{64258,2,"\x02\xfb"},{12288,2,"\x00\x30"},{65345,2,"\x41\xff"},{65346,2,"\x42\xff"},{65347,2,"\x43\xff"},{65340,2,"\x3c\xff"},{65374,2,"\x5e\xff"},{65372,2,"\x5c\xff"},{65509,2,"\xe5\xff"},{65377,2,"\x61\xff"},{65378,2,"\x62\xff"},{65379,2,"\x63\xff"},{65393,2,"\x71\xff"},{65394,2,"\x72\xff"},{65395,2,"\x73\xff"},{9312,2,"\x60\x24"},{9313,2,"\x61\x24"},{9314,2,"\x62\x24"},{8544,2,"\x60\x21"},{8545,2,"\x61\x21"},{8546,2,"\x62\x21"},{13212,2,"\x9c\x33"},{12849,2,"\x31\x32"},{34920,2,"\x68\x88"},{20104,2,"\x88\x4e"},{30003,2,"\x33\x75"},{33021,2,"\xfd\x80"},{36028,2,"\xbc\x8c"},{26292,2,"\xb4\x66"},{27083,2,"\xcb\x69"},{22082,2,"\x42\x56"},{28012,2,"\x6c\x6d"},{27450,2,"\x3a\x6b"},{22317,2,"\x2d\x57"},{29674,2,"\xea\x73"},{21682,2,"\xb2\x54"},{31168,2,"\xc0\x79"},{29410,2,"\xe2\x72"},{34444,2,"\x8c\x86"},{37675,2,"\x2b\x93"},{25088,2,"\x00\x62"},{33399,2,"\x77\x82"},{32114,2,"\x72\x7d"},{40786,2,"\x52\x9f"},{40845,2,"\x8d\x9f"},{40860,2,"\x9c\x9f"},{38000,2,"\x70\x94"},{39729,2,"\x31\x9b"},{128512,4,"\x3d\xd8\x00\xde"},{127918,4,"\x3c\xd8\xae\xdf"},{119070,4,"\x34\xd8\x1e\xdd"},
};
static const CsChar cs_2[] = {
{32,2,"\x00\x20"},{33,2,"\x00\x21"},{34,2,"\x00\x22"},{35,2,"\x00\x23"},{36,2,"\x00\x24"},{37,2,"\x00\x25"},{38,2,"\x00\x26"},{39,2,"\x00\x27"},{40,2,"\x00\x28"},{41,2,"\x00\x29"},{42,2,"\x00\x2a"},{43,2,"\x00\x2b"},{44,2,"\x00\x2c"},{45,2,"\x00\x2d"},{46,2,"\x00\x2e"},{47,2,"\x00\x2f"},{48,2,"\x00\x30"},{49,2,"\x00\x31"},{50,2,"\x00\x32"},{51,2,"\x00\x33"},{52,2,"\x00\x34"},{53,2,"\x00\x35"},{54,2,"\x00\x36"},{55,2,"\x00\x37"},{56,2,"\x00\x38"},{57,2,"\x00\x39"},{58,2,"\x00\x3a"},{59,2,"\x00\x3b"},{60,2,"\x00\x3c"},{61,2,"\x00\x3d"},{62,2,"\x00\x3e"},{63,2,"\x00\x3f"},{64,2,"\x00\x40"},{65,2,"\x00\x41"},{66,2,"\x00\x42"},{67,2,"\x00\x43"},{68,2,"\x00\x44"},{69,2,"\x00\x45"},{70,2,"\x00\x46"},{71,2,"\x00\x47"},{72,2,"\x00\x48"},{73,2,"\x00\x49"},{74,2,"\x00\x4a"},{75,2,"\x00\x4b"},{76,2,"\x00\x4c"},{77,2,"\x00\x4d"},{78,2,"\x00\x4e"},{79,2,"\x00\x4f"},{80,2,"\x00\x50"},{81,2,"\x00\x51"},{82,2,"\x00\x52"},{83,2,"\x00\x53"},{84,2,"\x00\x54"},{85,2,"\x00\x55"},{86,2,"\x00\x56"},{87,2,"\x00\x57"},{88,2,"\x00\x58"},{89,2,"\x00\x59"},{90,2,"\x00\x5a"},{91,2,"\x00\x5b"},{92,2,"\x00\x5c"},{93,2,"\x00\x5d"},{94,2,"\x00\x5e"},{95,2,"\x00\x5f"},{96,2,"\x00\x60"},{97,2,"\x00\x61"},{98,2,"\x00\x62"},{99,2,"\x00\x63"},{100,2,"\x00\x64"},{101,2,"\x00\x65"},{102,2,"\x00\x66"},{103,2,"\x00\x67"},{104,2,"\x00\x68"},{105,2,"\x00\x69"},{106,2,"\x00\x6a"},{107,2,"\x00\x6b"},{108,2,"\x00\x6c"},{109,2,"\x00\x6d"},{110,2,"\x00\x6e"},{111,2,"\x00\x6f"},{112,2,"\x00\x70"},{113,2,"\x00\x71"},{114,2,"\x00\x72"},{115,2,"\x00\x73"},{116,2,"\x00\x74"},{117,2,"\x00\x75"},{118,2,"\x00\x76"},{119,2,"\x00\x77"},{120,2,"\x00\x78"},{121,2,"\x00\x79"},{122,2,"\x00\x7a"},{123,2,"\x00\x7b"},{124,2,"\x00\x7c"},{125,2,"\x00\x7d"},{126,2,"\x00\x7e"},{9,2,"\x00\x09"},{10,2,"\x00\x0a"},{13,2,"\x00\x0d"},{7,2,"\x00\x07"},{8,2,"\x00\x08"},{11,2,"\x00\x0b"},{128,2,"\x00\x80"},{129,2,"\x00\x81"},{130,2,"\x00\x82"},{131,2,"\x00\x83"},{132,2,"\x00\x84"},{133,2,"\x00\x85"},{134,2,"\x00\x86"},{135,2,"\x00\x87"},{136,2,"\x00\x88"},{137,2,"\x00\x89"},{138,2,"\x00\x8a"},{139,2,"\x00\x8b"},{140,2,"\x00\x8c"},{141,2,"\x00\x8d"},{142,2,"\x00\x8e"},{143,2,"\x00\x8f"},{144,2,"\x00\x90"},{145,2,"\x00\x91"},{146,2,"\x00\x92"},{147,2,"\x00\x93"},{148,2,"\x00\x94"},{149,2,"\x00\x95"},{150,2,"\x00\x96"},{151,2,"\x00\x97"},{152,2,"\x00\x98"},{153,2,"\x00\x99"},{154,2,"\x00\x9a"},{155,2,"\x00\x9b"},{156,2,"\x00\x9c"},{157,2,"\x00\x9d"},{158,2,"\x00\x9e"},{159,2,"\x00\x9f"},{160,2,"\x00\xa0"},{161,2,"\x00\xa1"},{162,2,"\x00\xa2"},{163,2,"\x00\xa3"},{164,2,"\x00\xa4"},{165,2,"\x00\xa5"},{166,2,"\x00\xa6"},{167,2,"\x00\xa7"},{168,2,"\x00\xa8"},{169,2,"\x00\xa9"},{170,2,"\x00\xaa"},{171,2,"\x00\xab"},{172,2,"\x00\xac"},{173,2,"\x00\xad"},{174,2,"\x00\xae"},{175,2,"\x00\xaf"},{176,2,"\x00\xb0"},{177,2,"\x00\xb1"},{178,2,"\x00\xb2"},{179,2,"\x00\xb3"},{180,2,"\x00\xb4"},{181,2,"\x00\xb5"},{182,2,"\x00\xb6"},{183,2,"\x00\xb7"},{184,2,"\x00\xb8"},{185,2,"\x00\xb9"},{186,2,"\x00\xba"},{187,2,"\x00\xbb"},{188,2,"\x00\xbc"},
{189,2,"\x00\xbd"},{190,2,"\x00\xbe"},{191,2,"\x00\xbf"},{192,2,"\x00\xc0"},{193,2,"\x00\xc1"},{194,2,"\x00\xc2"},{195,2,"\x00\xc3"},{196,2,"\x00\xc4"},{197,2,"\x00\xc5"},{198,2,"\x00\xc6"},{199,2,"\x00\xc7"},{200,2,"\x00\xc8"},{201,2,"\x00\xc9"},{202,2,"\x00\xca"},{203,2,"\x00\xcb"},{204,2,"\x00\xcc"},{205,2,"\x00\xcd"},{206,2,"\x00\xce"},{207,2,"\x00\xcf"},{208,2,"\x00\xd0"},{209,2,"\x00\xd1"},{210,2,"\x00\xd2"},{211,2,"\x00\xd3"},{212,2,"\x00\xd4"},{213,2,"\x00\xd5"},{214,2,"\x00\xd6"},{215,2,"\x00\xd7"},{216,2,"\x00\xd8"},{217,2,"\x00\xd9"},{218,2,"\x00\xda"},{219,2,"\x00\xdb"},{220,2,"\x00\xdc"},{221,2,"\x00\xdd"},{222,2,"\x00\xde"},{223,2,"\x00\xdf"},{224,2,"\x00\xe0"},{225,2,"\x00\xe1"},{226,2,"\x00\xe2"},{227,2,"\x00\xe3"},{228,2,"\x00\xe4"},{229,2,"\x00\xe5"},{230,2,"\x00\xe6"},{231,2,"\x00\xe7"},{232,2,"\x00\xe8"},{233,2,"\x00\xe9"},{234,2,"\x00\xea"},{235,2,"\x00\xeb"},{236,2,"\x00\xec"},{237,2,"\x00\xed"},{238,2,"\x00\xee"},{239,2,"\x00\xef"},{240,2,"\x00\xf0"},{241,2,"\x00\xf1"},{242,2,"\x00\xf2"},{243,2,"\x00\xf3"},{244,2,"\x00\xf4"},{245,2,"\x00\xf5"},{246,2,"\x00\xf6"},{247,2,"\x00\xf7"},{248,2,"\x00\xf8"},{249,2,"\x00\xf9"},{250,2,"\x00\xfa"},{251,2,"\x00\xfb"},{252,2,"\x00\xfc"},{253,2,"\x00\xfd"},{254,2,"\x00\xfe"},{255,2,"\x00\xff"},{256,2,"\x01\x00"},{257,2,"\x01\x01"},{258,2,"\x01\x02"},{259,2,"\x01\x03"},{260,2,"\x01\x04"},{261,2,"\x01\x05"},{262,2,"\x01\x06"},{263,2,"\x01\x07"},{264,2,"\x01\x08"},{265,2,"\x01\x09"},{266,2,"\x01\x0a"},{267,2,"\x01\x0b"},{268,2,"\x01\x0c"},{269,2,"\x01\x0d"},{270,2,"\x01\x0e"},{271,2,"\x01\x0f"},{272,2,"\x01\x10"},{273,2,"\x01\x11"},{274,2,"\x01\x12"},{275,2,"\x01\x13"},{276,2,"\x01\x14"},{277,2,"\x01\x15"},{278,2,"\x01\x16"},{279,2,"\x01\x17"},{280,2,"\x01\x18"},{281,2,"\x01\x19"},{282,2,"\x01\x1a"},{283,2,"\x01\x1b"},{284,2,"\x01\x1c"},{285,2,"\x01\x1d"},{286,2,"\x01\x1e"},{287,2,"\x01\x1f"},{288,2,"\x01\x20"},{289,2,"\x01\x21"},{290,2,"\x01\x22"},{291,2,"\x01\x23"},{292,2,"\x01\x24"},{293,2,"\x01\x25"},{294,2,"\x01\x26"},{295,2,"\x01\x27"},{296,2,"\x01\x28"},{297,2,"\x01\x29"},{298,2,"\x01\x2a"},{299,2,"\x01\x2b"},{300,2,"\x01\x2c"},{301,2,"\x01\x2d"},{302,2,"\x01\x2e"},{303,2,"\x01\x2f"},{304,2,"\x01\x30"},{305,2,"\x01\x31"},{306,2,"\x01\x32"},{307,2,"\x01\x33"},{308,2,"\x01\x34"},{309,2,"\x01\x35"},{310,2,"\x01\x36"},{311,2,"\x01\x37"},{312,2,"\x01\x38"},{313,2,"\x01\x39"},{314,2,"\x01\x3a"},{315,2,"\x01\x3b"},{316,2,"\x01\x3c"},{317,2,"\x01\x3d"},{318,2,"\x01\x3e"},{319,2,"\x01\x3f"},{320,2,"\x01\x40"},{321,2,"\x01\x41"},{322,2,"\x01\x42"},{323,2,"\x01\x43"},{324,2,"\x01\x44"},{325,2,"\x01\x45"},{326,2,"\x01\x46"},{327,2,"\x01\x47"},{328,2,"\x01\x48"},{329,2,"\x01\x49"},{330,2,"\x01\x4a"},{331,2,"\x01\x4b"},{332,2,"\x01\x4c"},{333,2,"\x01\x4d"},{334,2,"\x01\x4e"},{335,2,"\x01\x4f"},{336,2,"\x01\x50"},{337,2,"\x01\x51"},{338,2,"\x01\x52"},{339,2,"\x01\x53"},{340,2,"\x01\x54"},{341,2,"\x01\x55"},{342,2,"\x01\x56"},{343,2,"\x01\x57"},{344,2,"\x01\x58"},{345,2,"\x01\x59"},{346,2,"\x01\x5a"},
{347,2,"\x01\x5b"},{348,2,"\x01\x5c"},{349,2,"\x01\x5d"},{350,2,"\x01\x5e"},{351,2,"\x01\x5f"},{352,2,"\x01\x60"},{353,2,"\x01\x61"},{354,2,"\x01\x62"},{355,2,"\x01\x63"},{356,2,"\x01\x64"},{357,2,"\x01\x65"},{358,2,"\x01\x66"},{359,2,"\x01\x67"},{360,2,"\x01\x68"},{361,2,"\x01\x69"},{362,2,"\x01\x6a"},{363,2,"\x01\x6b"},{364,2,"\x01\x6c"},{365,2,"\x01\x6d"},{366,2,"\x01\x6e"},{367,2,"\x01\x6f"},{368,2,"\x01\x70"},{369,2,"\x01\x71"},{370,2,"\x01\x72"},{371,2,"\x01\x73"},{372,2,"\x01\x74"},{373,2,"\x01\x75"},{374,2,"\x01\x76"},{375,2,"\x01\x77"},{376,2,"\x01\x78"},{377,2,"\x01\x79"},{378,2,"\x01\x7a"},{379,2,"\x01\x7b"},{380,2,"\x01\x7c"},{381,2,"\x01\x7d"},{382,2,"\x01\x7e"},{383,2,"\x01\x7f"},{127,2,"\x00\x7f"},{1,2,"\x00\x01"},{4,2,"\x00\x04"},{27,2,"\x00\x1b"},{26,2,"\x00\x1a"},{12,2,"\x00\x0c"},{900,2,"\x03\x84"},{901,2,"\x03\x85"},{902,2,"\x03\x86"},{903,2,"\x03\x87"},{904,2,"\x03\x88"},{905,2,"\x03\x89"},{906,2,"\x03\x8a"},{907,2,"\x03\x8b"},{908,2,"\x03\x8c"},{909,2,"\x03\x8d"},{910,2,"\x03\x8e"},{911,2,"\x03\x8f"},{912,2,"\x03\x90"},{913,2,"\x03\x91"},{914,2,"\x03\x92"},{915,2,"\x03\x93"},{916,2,"\x03\x94"},{917,2,"\x03\x95"},{918,2,"\x03\x96"},{919,2,"\x03\x97"},{920,2,"\x03\x98"},{921,2,"\x03\x99"},{922,2,"\x03\x9a"},{923,2,"\x03\x9b"},{924,2,"\x03\x9c"},{925,2,"\x03\x9d"},{926,2,"\x03\x9e"},{927,2,"\x03\x9f"},{928,2,"\x03\xa0"},{929,2,"\x03\xa1"},{930,2,"\x03\xa2"},{931,2,"\x03\xa3"},{932,2,"\x03\xa4"},{933,2,"\x03\xa5"},{934,2,"\x03\xa6"},{935,2,"\x03\xa7"},{936,2,"\x03\xa8"},{937,2,"\x03\xa9"},{938,2,"\x03\xaa"},{939,2,"\x03\xab"},{940,2,"\x03\xac"},{941,2,"\x03\xad"},{942,2,"\x03\xae"},{943,2,"\x03\xaf"},{944,2,"\x03\xb0"},{945,2,"\x03\xb1"},{946,2,"\x03\xb2"},{947,2,"\x03\xb3"},{948,2,"\x03\xb4"},{949,2,"\x03\xb5"},{950,2,"\x03\xb6"},{951,2,"\x03\xb7"},{952,2,"\x03\xb8"},{953,2,"\x03\xb9"},{954,2,"\x03\xba"},{955,2,"\x03\xbb"},{956,2,"\x03\xbc"},{957,2,"\x03\xbd"},{958,2,"\x03\xbe"},{959,2,"\x03\xbf"},{960,2,"\x03\xc0"},{961,2,"\x03\xc1"},{962,2,"\x03\xc2"},{963,2,"\x03\xc3"},{964,2,"\x03\xc4"},{965,2,"\x03\xc5"},{966,2,"\x03\xc6"},{967,2,"\x03\xc7"},{968,2,"\x03\xc8"},{969,2,"\x03\xc9"},{970,2,"\x03\xca"},{971,2,"\x03\xcb"},{972,2,"\x03\xcc"},{973,2,"\x03\xcd"},{974,2,"\x03\xce"},{1025,2,"\x04\x01"},{1026,2,"\x04\x02"},{1027,2,"\x04\x03"},{1028,2,"\x04\x04"},{1029,2,"\x04\x05"},{1030,2,"\x04\x06"},{1031,2,"\x04\x07"},{1032,2,"\x04\x08"},{1033,2,"\x04\x09"},{1034,2,"\x04\x0a"},{1035,2,"\x04\x0b"},{1036,2,"\x04\x0c"},{1037,2,"\x04\x0d"},{1038,2,"\x04\x0e"},{1039,2,"\x04\x0f"},{1040,2,"\x04\x10"},{1041,2,"\x04\x11"},{1042,2,"\x04\x12"},{1043,2,"\x04\x13"},{1044,2,"\x04\x14"},{1045,2,"\x04\x15"},{1046,2,"\x04\x16"},{1047,2,"\x04\x17"},{1048,2,"\x04\x18"},{1049,2,"\x04\x19"},{1050,2,"\x04\x1a"},{1051,2,"\x04\x1b"},{1052,2,"\x04\x1c"},{1053,2,"\x04\x1d"},{1054,2,"\x04\x1e"},{1055,2,"\x04\x1f"},{1056,2,"\x04\x20"},{1057,2,"\x04\x21"},{1058,2,"\x04\x22"},{1059,2,"\x04\x23"},{1060,2,"\x04\x24"},{1061,2,"\x04\x25"},{1062,2,"\x04\x26"},{1063,2,"\x04\x27"},
{1064,2,"\x04\x28"},{1065,2,"\x04\x29"},{1066,2,"\x04\x2a"},{1067,2,"\x04\x2b"},{1068,2,"\x04\x2c"},{1069,2,"\x04\x2d"},{1070,2,"\x04\x2e"},{1071,2,"\x04\x2f"},{1072,2,"\x04\x30"},{1073,2,"\x04\x31"},{1074,2,"\x04\x32"},{1075,2,"\x04\x33"},{1076,2,"\x04\x34"},{1077,2,"\x04\x35"},{1078,2,"\x04\x36"},{1079,2,"\x04\x37"},{1080,2,"\x04\x38"},{1081,2,"\x04\x39"},{1082,2,"\x04\x3a"},{1083,2,"\x04\x3b"},{1084,2,"\x04\x3c"},{1085,2,"\x04\x3d"},{1086,2,"\x04\x3e"},{1087,2,"\x04\x3f"},{1088,2,"\x04\x40"},{1089,2,"\x04\x41"},{1090,2,"\x04\x42"},{1091,2,"\x04\x43"},{1092,2,"\x04\x44"},{1093,2,"\x04\x45"},{1094,2,"\x04\x46"},{1095,2,"\x04\x47"},{1096,2,"\x04\x48"},{1097,2,"\x04\x49"},{1098,2,"\x04\x4a"},{1099,2,"\x04\x4b"},{1100,2,"\x04\x4c"},{1101,2,"\x04\x4d"},{1102,2,"\x04\x4e"},{1103,2,"\x04\x4f"},{1104,2,"\x04\x50"},{1105,2,"\x04\x51"},{1106,2,"\x04\x52"},{1107,2,"\x04\x53"},{1108,2,"\x04\x54"},{1109,2,"\x04\x55"},{1110,2,"\x04\x56"},{1111,2,"\x04\x57"},{1112,2,"\x04\x58"},{1113,2,"\x04\x59"},{1114,2,"\x04\x5a"},{1115,2,"\x04\x5b"},{1116,2,"\x04\x5c"},{1117,2,"\x04\x5d"},{1118,2,"\x04\x5e"},{8211,2,"\x20\x13"},{8212,2,"\x20\x14"},{8216,2,"\x20\x18"},{8217,2,"\x20\x19"},{8220,2,"\x20\x1c"},{8221,2,"\x20\x1d"},{8222,2,"\x20\x1e"},{8224,2,"\x20\x20"},{8225,2,"\x20\x21"},{8226,2,"\x20\x22"},{8230,2,"\x20\x26"},{8240,2,"\x20\x30"},{8249,2,"\x20\x39"},{8250,2,"\x20\x3a"},{8364,2,"\x20\xac"},{8482,2,"\x21\x22"},{1488,2,"\x05\xd0"},{1489,2,"\x05\xd1"},{1490,2,"\x05\xd2"},{1491,2,"\x05\xd3"},{1492,2,"\x05\xd4"},{1493,2,"\x05\xd5"},{1494,2,"\x05\xd6"},{1495,2,"\x05\xd7"},{1496,2,"\x05\xd8"},{1497,2,"\x05\xd9"},{1498,2,"\x05\xda"},{1499,2,"\x05\xdb"},{1500,2,"\x05\xdc"},{1501,2,"\x05\xdd"},{1502,2,"\x05\xde"},{1503,2,"\x05\xdf"},{1504,2,"\x05\xe0"},{1505,2,"\x05\xe1"},{1506,2,"\x05\xe2"},{1507,2,"\x05\xe3"},{1508,2,"\x05\xe4"},{1509,2,"\x05\xe5"},{1510,2,"\x05\xe6"},{1511,2,"\x05\xe7"},{1512,2,"\x05\xe8"},{1513,2,"\x05\xe9"},{1514,2,"\x05\xea"},{3585,2,"\x0e\x01"},{3586,2,"\x0e\x02"},{3587,2,"\x0e\x03"},{3588,2,"\x0e\x04"},{3589,2,"\x0e\x05"},{3590,2,"\x0e\x06"},{3591,2,"\x0e\x07"},{3592,2,"\x0e\x08"},{3593,2,"\x0e\x09"},{3594,2,"\x0e\x0a"},{3595,2,"\x0e\x0b"},{3596,2,"\x0e\x0c"},{3597,2,"\x0e\x0d"},{3598,2,"\x0e\x0e"},{3599,2,"\x0e\x0f"},{3600,2,"\x0e\x10"},{3601,2,"\x0e\x11"},{3602,2,"\x0e\x12"},{3603,2,"\x0e\x13"},{3604,2,"\x0e\x14"},{3605,2,"\x0e\x15"},{3606,2,"\x0e\x16"},{3607,2,"\x0e\x17"},{3608,2,"\x0e\x18"},{3609,2,"\x0e\x19"},{3610,2,"\x0e\x1a"},{3611,2,"\x0e\x1b"},{3612,2,"\x0e\x1c"},{3613,2,"\x0e\x1d"},{3614,2,"\x0e\x1e"},{3615,2,"\x0e\x1f"},{3616,2,"\x0e\x20"},{3617,2,"\x0e\x21"},{3618,2,"\x0e\x22"},{3619,2,"\x0e\x23"},{3620,2,"\x0e\x24"},{3621,2,"\x0e\x25"},{3622,2,"\x0e\x26"},{3623,2,"\x0e\x27"},{3624,2,"\x0e\x28"},{3625,2,"\x0e\x29"},{3626,2,"\x0e\x2a"},{3627,2,"\x0e\x2b"},{3628,2,"\x0e\x2c"},{3629,2,"\x0e\x2d"},{3630,2,"\x0e\x2e"},{12353,2,"\x30\x41"},{12354,2,"\x30\x42"},{12355,2,"\x30\x43"},{12356,2,"\x30\x44"},{12357,2,"\x30\x45"},{12358,2,"\x30\x46"},
{12359,2,"\x30\x47"},{12360,2,"\x30\x48"},{12361,2,"\x30\x49"},{12362,2,"\x30\x4a"},{12363,2,"\x30\x4b"},{12364,2,"\x30\x4c"},{12365,2,"\x30\x4d"},{12366,2,"\x30\x4e"},{12367,2,"\x30\x4f"},{12368,2,"\x30\x50"},{12369,2,"\x30\x51"},{12370,2,"\x30\x52"},{12371,2,"\x30\x53"},{12372,2,"\x30\x54"},{12373,2,"\x30\x55"},{12374,2,"\x30\x56"},{12375,2,"\x30\x57"},{12376,2,"\x30\x58"},{12377,2,"\x30\x59"},{12378,2,"\x30\x5a"},{12379,2,"\x30\x5b"},{12380,2,"\x30\x5c"},{12381,2,"\x30\x5d"},{12382,2,"\x30\x5e"},{12383,2,"\x30\x5f"},{12384,2,"\x30\x60"},{12385,2,"\x30\x61"},{12386,2,"\x30\x62"},{12387,2,"\x30\x63"},{12388,2,"\x30\x64"},{12389,2,"\x30\x65"},{12390,2,"\x30\x66"},{12391,2,"\x30\x67"},{12392,2,"\x30\x68"},{12393,2,"\x30\x69"},{12394,2,"\x30\x6a"},{12395,2,"\x30\x6b"},{12396,2,"\x30\x6c"},{12397,2,"\x30\x6d"},{12398,2,"\x30\x6e"},{12399,2,"\x30\x6f"},{12400,2,"\x30\x70"},{12401,2,"\x30\x71"},{12402,2,"\x30\x72"},{12403,2,"\x30\x73"},{12404,2,"\x30\x74"},{12405,2,"\x30\x75"},{12406,2,"\x30\x76"},{12407,2,"\x30\x77"},{12408,2,"\x30\x78"},{12409,2,"\x30\x79"},{12410,2,"\x30\x7a"},{12411,2,"\x30\x7b"},{12412,2,"\x30\x7c"},{12413,2,"\x30\x7d"},{12414,2,"\x30\x7e"},{12415,2,"\x30\x7f"},{12416,2,"\x30\x80"},{12417,2,"\x30\x81"},{12418,2,"\x30\x82"},{12419,2,"\x30\x83"},{12420,2,"\x30\x84"},{12421,2,"\x30\x85"},{12422,2,"\x30\x86"},{12423,2,"\x30\x87"},{12424,2,"\x30\x88"},{12425,2,"\x30\x89"},{12426,2,"\x30\x8a"},{12427,2,"\x30\x8b"},{12428,2,"\x30\x8c"},{12429,2,"\x30\x8d"},{12430,2,"\x30\x8e"},{12431,2,"\x30\x8f"},{12432,2,"\x30\x90"},{12433,2,"\x30\x91"},{12434,2,"\x30\x92"},{12435,2,"\x30\x93"},{12449,2,"\x30\xa1"},{12450,2,"\x30\xa2"},{12451,2,"\x30\xa3"},{12452,2,"\x30\xa4"},{12453,2,"\x30\xa5"},{12454,2,"\x30\xa6"},{12455,2,"\x30\xa7"},{12456,2,"\x30\xa8"},{12457,2,"\x30\xa9"},{12458,2,"\x30\xaa"},{12459,2,"\x30\xab"},{12460,2,"\x30\xac"},{12461,2,"\x30\xad"},{12462,2,"\x30\xae"},{12463,2,"\x30\xaf"},{12464,2,"\x30\xb0"},{12465,2,"\x30\xb1"},{12466,2,"\x30\xb2"},{12467,2,"\x30\xb3"},{12468,2,"\x30\xb4"},{12469,2,"\x30\xb5"},{12470,2,"\x30\xb6"},{12471,2,"\x30\xb7"},{12472,2,"\x30\xb8"},{12473,2,"\x30\xb9"},{12474,2,"\x30\xba"},{12475,2,"\x30\xbb"},{12476,2,"\x30\xbc"},{12477,2,"\x30\xbd"},{12478,2,"\x30\xbe"},{12479,2,"\x30\xbf"},{12480,2,"\x30\xc0"},{12481,2,"\x30\xc1"},{12482,2,"\x30\xc2"},{12483,2,"\x30\xc3"},{12484,2,"\x30\xc4"},{12485,2,"\x30\xc5"},{12486,2,"\x30\xc6"},{12487,2,"\x30\xc7"},{12488,2,"\x30\xc8"},{12489,2,"\x30\xc9"},{12490,2,"\x30\xca"},{12491,2,"\x30\xcb"},{12492,2,"\x30\xcc"},{12493,2,"\x30\xcd"},{12494,2,"\x30\xce"},{12495,2,"\x30\xcf"},{12496,2,"\x30\xd0"},{12497,2,"\x30\xd1"},{12498,2,"\x30\xd2"},{12499,2,"\x30\xd3"},{12500,2,"\x30\xd4"},{12501,2,"\x30\xd5"},{12502,2,"\x30\xd6"},{12503,2,"\x30\xd7"},{12504,2,"\x30\xd8"},{12505,2,"\x30\xd9"},{12506,2,"\x30\xda"},{12507,2,"\x30\xdb"},{12508,2,"\x30\xdc"},{12509,2,"\x30\xdd"},{12510,2,"\x30\xde"},{12511,2,"\x30\xdf"},{12512,2,"\x30\xe0"},{12513,2,"\x30\xe1"},{12514,2,"\x30\xe2"},
{12515,2,"\x30\xe3"},{12516,2,"\x30\xe4"},{12517,2,"\x30\xe5"},{12518,2,"\x30\xe6"},{12519,2,"\x30\xe7"},{12520,2,"\x30\xe8"},{12521,2,"\x30\xe9"},{12522,2,"\x30\xea"},{12523,2,"\x30\xeb"},{12524,2,"\x30\xec"},{12525,2,"\x30\xed"},{12526,2,"\x30\xee"},{12527,2,"\x30\xef"},{12528,2,"\x30\xf0"},{12529,2,"\x30\xf1"},{12530,2,"\x30\xf2"},{12531,2,"\x30\xf3"},{12532,2,"\x30\xf4"},{12533,2,"\x30\xf5"},{12534,2,"\x30\xf6"},{12289,2,"\x30\x01"},{12290,2,"\x30\x02"},{12300,2,"\x30\x0c"},{12301,2,"\x30\x0d"},{26085,2,"\x65\xe5"},{26412,2,"\x67\x2c"},{35486,2,"\x8a\x9e"},{28450,2,"\x6f\x22"},{23383,2,"\x5b\x57"},{20013,2,"\x4e\x2d"},{25991,2,"\x65\x87"},{22283,2,"\x57\x0b"},{22269,2,"\x56\xfd"},{35821,2,"\x8b\xed"},{31616,2,"\x7b\x80"},{39636,2,"\x9a\xd4"},{20307,2,"\x4f\x53"},{32321,2,"\x7e\x41"},{21488,2,"\x53\xf0"},{28771,2,"\x70\x63"},{28286,2,"\x6e\x7e"},{39321,2,"\x99\x99"},{28207,2,"\x6e\x2f"},{32763,2,"\x7f\xfb"},{35695,2,"\x8b\x6f"},{35793,2,"\x8b\xd1"},{36938,2,"\x90\x4a"},{28216,2,"\x6e\x38"},{25103,2,"\x62\x0f"},{25138,2,"\x62\x32"},{38283,2,"\x95\x8b"},{24320,2,"\x5f\x00"},{22987,2,"\x59\xcb"},{26032,2,"\x65\xb0"},{38306,2,"\x95\xa2"},{38364,2,"\x95\xdc"},{35373,2,"\x8a\x2d"},{32622,2,"\x7f\x6e"},{23450,2,"\x5b\x9a"},{35328,2,"\x8a\x00"},{21517,2,"\x54\x0d"},{21069,2,"\x52\x4d"},{20445,2,"\x4f\xdd"},{23384,2,"\x5b\x58"},{21151,2,"\x52\x9f"},{35377,2,"\x8a\x31"},{33995,2,"\x84\xcb"},{20040,2,"\x4e\x48"},{32946,2,"\x80\xb2"},{21522,2,"\x54\x12"},{21549,2,"\x54\x2d"},{23049,2,"\x5a\x09"},{35961,2,"\x8c\x79"},{29854,2,"\x74\x9e"},{25850,2,"\x64\xfa"},{39184,2,"\x99\x10"},{39631,2,"\x9a\xcf"},{29749,2,"\x74\x35"},{26543,2,"\x67\xaf"},{27519,2,"\x6b\x7f"},{19968,2,"\x4e\x00"},{20108,2,"\x4e\x8c"},{19977,2,"\x4e\x09"},{22235,2,"\x56\xdb"},{20116,2,"\x4e\x94"},{20845,2,"\x51\x6d"},{19971,2,"\x4e\x03"},{20843,2,"\x51\x6b"},{20061,2,"\x4e\x5d"},{21313,2,"\x53\x41"},{44032,2,"\xac\x00"},{44033,2,"\xac\x01"},{44034,2,"\xac\x02"},{44035,2,"\xac\x03"},{44036,2,"\xac\x04"},{44037,2,"\xac\x05"},{44038,2,"\xac\x06"},{44039,2,"\xac\x07"},{44040,2,"\xac\x08"},{44041,2,"\xac\x09"},{44042,2,"\xac\x0a"},{44043,2,"\xac\x0b"},{44044,2,"\xac\x0c"},{44045,2,"\xac\x0d"},{44046,2,"\xac\x0e"},{44047,2,"\xac\x0f"},{44048,2,"\xac\x10"},{44049,2,"\xac\x11"},{44050,2,"\xac\x12"},{44051,2,"\xac\x13"},{44052,2,"\xac\x14"},{44053,2,"\xac\x15"},{44054,2,"\xac\x16"},{44055,2,"\xac\x17"},{44056,2,"\xac\x18"},{44057,2,"\xac\x19"},{44058,2,"\xac\x1a"},{44059,2,"\xac\x1b"},{44060,2,"\xac\x1c"},{44061,2,"\xac\x1d"},{44062,2,"\xac\x1e"},{44063,2,"\xac\x1f"},{54620,2,"\xd5\x5c"},{44397,2,"\xad\x6d"},{50612,2,"\xc5\xb4"},{44172,2,"\xac\x8c"},{51076,2,"\xc7\x84"},{49884,2,"\xc2\xdc"},{51089,2,"\xc7\x91"},{49444,2,"\xc1\x24"},{51221,2,"\xc8\x15"},{51200,2,"\xc8\x00"},{51109,2,"\xc7\xa5"},{1569,2,"\x06\x21"},{1570,2,"\x06\x22"},{1571,2,"\x06\x23"},{1572,2,"\x06\x24"},{1573,2,"\x06\x25"},{1574,2,"\x06\x26"},{1575,2,"\x06\x27"},{1576,2,"\x06\x28"},{1577,2,"\x06\x29"},{1578,2,"\x06\x2a"},{1579,2,"\x06\x2b"},
{1580,2,"\x06\x2c"},{1581,2,"\x06\x2d"},{1582,2,"\x06\x2e"},{1583,2,"\x06\x2f"},{1584,2,"\x06\x30"},{1585,2,"\x06\x31"},{1586,2,"\x06\x32"},{1587,2,"\x06\x33"},{1588,2,"\x06\x34"},{1589,2,"\x06\x35"},{1590,2,"\x06\x36"},{1591,2,"\x06\x37"},{1592,2,"\x06\x38"},{1593,2,"\x06\x39"},{1594,2,"\x06\x3a"},{1600,2,"\x06\x40"},{1601,2,"\x06\x41"},{1602,2,"\x06\x42"},{1603,2,"\x06\x43"},{1604,2,"\x06\x44"},{1605,2,"\x06\x45"},{1606,2,"\x06\x46"},{1607,2,"\x06\x47"},{1608,2,"\x06\x48"},{1609,2,"\x06\x49"},{1610,2,"\x06\x4a"},{1168,2,"\x04\x90"},{1169,2,"\x04\x91"},{1170,2,"\x04\x92"},{1171,2,"\x04\x93"},{1172,2,"\x04\x94"},{1173,2,"\x04\x95"},{1174,2,"\x04\x96"},{1175,2,"\x04\x97"},{1176,2,"\x04\x98"},{1177,2,"\x04\x99"},{1178,2,"\x04\x9a"},{1179,2,"\x04\x9b"},{1180,2,"\x04\x9c"},{1181,2,"\x04\x9d"},{1182,2,"\x04\x9e"},{1183,2,"\x04\x9f"},{1184,2,"\x04\xa0"},{1185,2,"\x04\xa1"},{1186,2,"\x04\xa2"},{1187,2,"\x04\xa3"},{1188,2,"\x04\xa4"},{1189,2,"\x04\xa5"},{1190,2,"\x04\xa6"},{1191,2,"\x04\xa7"},{1192,2,"\x04\xa8"},{1193,2,"\x04\xa9"},{1194,2,"\x04\xaa"},{1195,2,"\x04\xab"},{1196,2,"\x04\xac"},{1197,2,"\x04\xad"},{1198,2,"\x04\xae"},{1199,2,"\x04\xaf"},{7840,2,"\x1e\xa0"},{7841,2,"\x1e\xa1"},{7842,2,"\x1e\xa2"},{7843,2,"\x1e\xa3"},{7844,2,"\x1e\xa4"},{7845,2,"\x1e\xa5"},{7846,2,"\x1e\xa6"},{7847,2,"\x1e\xa7"},{7848,2,"\x1e\xa8"},{7849,2,"\x1e\xa9"},{7850,2,"\x1e\xaa"},{7851,2,"\x1e\xab"},{7852,2,"\x1e\xac"},{7853,2,"\x1e\xad"},{7854,2,"\x1e\xae"},{7855,2,"\x1e\xaf"},{7856,2,"\x1e\xb0"},{7857,2,"\x1e\xb1"},{7858,2,"\x1e\xb2"},{7859,2,"\x1e\xb3"},{7860,2,"\x1e\xb4"},{7861,2,"\x1e\xb5"},{7862,2,"\x1e\xb6"},{7863,2,"\x1e\xb7"},{7864,2,"\x1e\xb8"},{7865,2,"\x1e\xb9"},{7866,2,"\x1e\xba"},{7867,2,"\x1e\xbb"},{7868,2,"\x1e\xbc"},{7869,2,"\x1e\xbd"},{7870,2,"\x1e\xbe"},{7871,2,"\x1e\xbf"},{9472,2,"\x25\x00"},{9473,2,"\x25\x01"},{9474,2,"\x25\x02"},{9475,2,"\x25\x03"},{9476,2,"\x25\x04"},{9477,2,"\x25\x05"},{9478,2,"\x25\x06"},{9479,2,"\x25\x07"},{9480,2,"\x25\x08"},{9481,2,"\x25\x09"},{9482,2,"\x25\x0a"},{9483,2,"\x25\x0b"},{9484,2,"\x25\x0c"},{9485,2,"\x25\x0d"},{9486,2,"\x25\x0e"},{9487,2,"\x25\x0f"},{9488,2,"\x25\x10"},{9489,2,"\x25\x11"},{9490,2,"\x25\x12"},{9491,2,"\x25\x13"},{9492,2,"\x25\x14"},{9493,2,"\x25\x15"},{9494,2,"\x25\x16"},{9495,2,"\x25\x17"},{9496,2,"\x25\x18"},{9497,2,"\x25\x19"},{9498,2,"\x25\x1a"},{9499,2,"\x25\x1b"},{9500,2,"\x25\x1c"},{9501,2,"\x25\x1d"},{9502,2,"\x25\x1e"},{9503,2,"\x25\x1f"},{9504,2,"\x25\x20"},{9505,2,"\x25\x21"},{9506,2,"\x25\x22"},{9507,2,"\x25\x23"},{9508,2,"\x25\x24"},{9509,2,"\x25\x25"},{9510,2,"\x25\x26"},{9511,2,"\x25\x27"},{9512,2,"\x25\x28"},{9513,2,"\x25\x29"},{9514,2,"\x25\x2a"},{9515,2,"\x25\x2b"},{9516,2,"\x25\x2c"},{9517,2,"\x25\x2d"},{9518,2,"\x25\x2e"},{9519,2,"\x25\x2f"},{9520,2,"\x25\x30"},{9521,2,"\x25\x31"},{9522,2,"\x25\x32"},{9523,2,"\x25\x33"},{9524,2,"\x25\x34"},{9525,2,"\x25\x35"},{9526,2,"\x25\x36"},{9527,2,"\x25\x37"},{9528,2,"\x25\x38"},{9529,2,"\x25\x39"},{9530,2,"\x25\x3a"},{9531,2,"\x25\x3b"},{9532,2,"\x25\x3c"},
{9533,2,"\x25\x3d"},{9534,2,"\x25\x3e"},{9535,2,"\x25\x3f"},{9536,2,"\x25\x40"},{9537,2,"\x25\x41"},{9538,2,"\x25\x42"},{9539,2,"\x25\x43"},{9540,2,"\x25\x44"},{9541,2,"\x25\x45"},{9542,2,"\x25\x46"},{9543,2,"\x25\x47"},{9544,2,"\x25\x48"},{9545,2,"\x25\x49"},{9546,2,"\x25\x4a"},{9547,2,"\x25\x4b"},{9548,2,"\x25\x4c"},{9549,2,"\x25\x4d"},{9550,2,"\x25\x4e"},{9551,2,"\x25\x4f"},{8470,2,"\x21\x16"},{8734,2,"\x22\x1e"},{8776,2,"\x22\x48"},{8800,2,"\x22\x60"},{8804,2,"\x22\x64"},{8805,2,"\x22\x65"},{8730,2,"\x22\x1a"},{8706,2,"\x22\x02"},{8721,2,"\x22\x11"},{8719,2,"\x22\x0f"},{8747,2,"\x22\x2b"},{9674,2,"\x25\xca"},{64257,2,"\xfb\x01"},{64258,2,"\xfb\x02"},{12288,2,"\x30\x00"},{65345,2,"\xff\x41"},{65346,2,"\xff\x42"},{65347,2,"\xff\x43"},{65340,2,"\xff\x3c"},{65374,2,"\xff\x5e"},{65372,2,"\xff\x5c"},{65509,2,"\xff\xe5"},{65377,2,"\xff\x61"},{65378,2,"\xff\x62"},{65379,2,"\xff\x63"},{65393,2,"\xff\x71"},{65394,2,"\xff\x72"},{65395,2,"\xff\x73"},{9312,2,"\x24\x60"},{9313,2,"\x24\x61"},{9314,2,"\x24\x62"},{8544,2,"\x21\x60"},{8545,2,"\x21\x61"},{8546,2,"\x21\x62"},{13212,2,"\x33\x9c"},{12849,2,"\x32\x31"},{34920,2,"\x88\x68"},{20104,2,"\x4e\x88"},{30003,2,"\x75\x33"},{33021,2,"\x80\xfd"},{36028,2,"\x8c\xbc"},{26292,2,"\x66\xb4"},{27083,2,"\x69\xcb"},{22082,2,"\x56\x42"},{28012,2,"\x6d\x6c"},{27450,2,"\x6b\x3a"},{22317,2,"\x57\x2d"},{29674,2,"\x73\xea"},{21682,2,"\x54\xb2"},{31168,2,"\x79\xc0"},{29410,2,"\x72\xe2"},{34444,2,"\x86\x8c"},{37675,2,"\x93\x2b"},{25088,2,"\x62\x00"},{33399,2,"\x82\x77"},{32114,2,"\x7d\x72"},{40786,2,"\x9f\x52"},{40845,2,"\x9f\x8d"},{40860,2,"\x9f\x9c"},{38000,2,"\x94\x70"},{39729,2,"\x9b\x31"},{128512,4,"\xd8\x3d\xde\x00"},{127918,4,"\xd8\x3c\xdf\xae"},{119070,4,"\xd8\x34\xdd\x1e"},
};
static const CsChar cs_3[] = {
{32,4,"\x20\x00\x00\x00"},{33,4,"\x21\x00\x00\x00"},{34,4,"\x22\x00\x00\x00"},{35,4,"\x23\x00\x00\x00"},{36,4,"\x24\x00\x00\x00"},{37,4,"\x25\x00\x00\x00"},{38,4,"\x26\x00\x00\x00"},{39,4,"\x27\x00\x00\x00"},{40,4,"\x28\x00\x00\x00"},{41,4,"\x29\x00\x00\x00"},{42,4,"\x2a\x00\x00\x00"},{43,4,"\x2b\x00\x00\x00"},{44,4,"\x2c\x00\x00\x00"},{45,4,"\x2d\x00\x00\x00"},{46,4,"\x2e\x00\x00\x00"},{47,4,"\x2f\x00\x00\x00"},{48,4,"\x30\x00\x00\x00"},{49,4,"\x31\x00\x00\x00"},{50,4,"\x32\x00\x00\x00"},{51,4,"\x33\x00\x00\x00"},{52,4,"\x34\x00\x00\x00"},{53,4,"\x35\x00\x00\x00"},{54,4,"\x36\x00\x00\x00"},{55,4,"\x37\x00\x00\x00"},{56,4,"\x38\x00\x00\x00"},{57,4,"\x39\x00\x00\x00"},{58,4,"\x3a\x00\x00\x00"},{59,4,"\x3b\x00\x00\x00"},{60,4,"\x3c\x00\x00\x00"},{61,4,"\x3d\x00\x00\x00"},{62,4,"\x3e\x00\x00\x00"},{63,4,"\x3f\x00\x00\x00"},{64,4,"\x40\x00\x00\x00"},{65,4,"\x41\x00\x00\x00"},{66,4,"\x42\x00\x00\x00"},{67,4,"\x43\x00\x00\x00"},{68,4,"\x44\x00\x00\x00"},{69,4,"\x45\x00\x00\x00"},{70,4,"\x46\x00\x00\x00"},{71,4,"\x47\x00\x00\x00"},{72,4,"\x48\x00\x00\x00"},{73,4,"\x49\x00\x00\x00"},{74,4,"\x4a\x00\x00\x00"},{75,4,"\x4b\x00\x00\x00"},{76,4,"\x4c\x00\x00\x00"},{77,4,"\x4d\x00\x00\x00"},{78,4,"\x4e\x00\x00\x00"},{79,4,"\x4f\x00\x00\x00"},{80,4,"\x50\x00\x00\x00"},{81,4,"\x51\x00\x00\x00"},{82,4,"\x52\x00\x00\x00"},{83,4,"\x53\x00\x00\x00"},{84,4,"\x54\x00\x00\x00"},{85,4,"\x55\x00\x00\x00"},{86,4,"\x56\x00\x00\x00"},{87,4,"\x57\x00\x00\x00"},{88,4,"\x58\x00\x00\x00"},{89,4,"\x59\x00\x00\x00"},{90,4,"\x5a\x00\x00\x00"},{91,4,"\x5b\x00\x00\x00"},{92,4,"\x5c\x00\x00\x00"},{93,4,"\x5d\x00\x00\x00"},{94,4,"\x5e\x00\x00\x00"},{95,4,"\x5f\x00\x00\x00"},{96,4,"\x60\x00\x00\x00"},{97,4,"\x61\x00\x00\x00"},{98,4,"\x62\x00\x00\x00"},{99,4,"\x63\x00\x00\x00"},{100,4,"\x64\x00\x00\x00"},{101,4,"\x65\x00\x00\x00"},{102,4,"\x66\x00\x00\x00"},{103,4,"\x67\x00\x00\x00"},{104,4,"\x68\x00\x00\x00"},{105,4,"\x69\x00\x00\x00"},{106,4,"\x6a\x00\x00\x00"},{107,4,"\x6b\x00\x00\x00"},{108,4,"\x6c\x00\x00\x00"},{109,4,"\x6d\x00\x00\x00"},{110,4,"\x6e\x00\x00\x00"},{111,4,"\x6f\x00\x00\x00"},{112,4,"\x70\x00\x00\x00"},{113,4,"\x71\x00\x00\x00"},{114,4,"\x72\x00\x00\x00"},{115,4,"\x73\x00\x00\x00"},{116,4,"\x74\x00\x00\x00"},{117,4,"\x75\x00\x00\x00"},{118,4,"\x76\x00\x00\x00"},{119,4,"\x77\x00\x00\x00"},{120,4,"\x78\x00\x00\x00"},{121,4,"\x79\x00\x00\x00"},{122,4,"\x7a\x00\x00\x00"},{123,4,"\x7b\x00\x00\x00"},{124,4,"\x7c\x00\x00\x00"},{125,4,"\x7d\x00\x00\x00"},{126,4,"\x7e\x00\x00\x00"},{9,4,"\x09\x00\x00\x00"},{10,4,"\x0a\x00\x00\x00"},{13,4,"\x0d\x00\x00\x00"},{7,4,"\x07\x00\x00\x00"},{8,4,"\x08\x00\x00\x00"},{11,4,"\x0b\x00\x00\x00"},{128,4,"\x80\x00\x00\x00"},{129,4,"\x81\x00\x00\x00"},{130,4,"\x82\x00\x00\x00"},{131,4,"\x83\x00\x00\x00"},{132,4,"\x84\x00\x00\x00"},{133,4,"\x85\x00\x00\x00"},{134,4,"\x86\x00\x00\x00"},{135,4,"\x87\x00\x00\x00"},{136,4,"\x88\x00\x00\x00"},{137,4,"\x89\x00\x00\x00"},{138,4,"\x8a\x00\x00\x00"},{139,4,"\x8b\x00\x00\x00"},{140,4,"\x8c\x00\x00\x00"},
{141,4,"\x8d\x00\x00\x00"},{142,4,"\x8e\x00\x00\x00"},{143,4,"\x8f\x00\x00\x00"},{144,4,"\x90\x00\x00\x00"},{145,4,"\x91\x00\x00\x00"},{146,4,"\x92\x00\x00\x00"},{147,4,"\x93\x00\x00\x00"},{148,4,"\x94\x00\x00\x00"},{149,4,"\x95\x00\x00\x00"},{150,4,"\x96\x00\x00\x00"},{151,4,"\x97\x00\x00\x00"},{152,4,"\x98\x00\x00\x00"},{153,4,"\x99\x00\x00\x00"},{154,4,"\x9a\x00\x00\x00"},{155,4,"\x9b\x00\x00\x00"},{156,4,"\x9c\x00\x00\x00"},{157,4,"\x9d\x00\x00\x00"},{158,4,"\x9e\x00\x00\x00"},{159,4,"\x9f\x00\x00\x00"},{160,4,"\xa0\x00\x00\x00"},{161,4,"\xa1\x00\x00\x00"},{162,4,"\xa2\x00\x00\x00"},{163,4,"\xa3\x00\x00\x00"},{164,4,"\xa4\x00\x00\x00"},{165,4,"\xa5\x00\x00\x00"},{166,4,"\xa6\x00\x00\x00"},{167,4,"\xa7\x00\x00\x00"},{168,4,"\xa8\x00\x00\x00"},{169,4,"\xa9\x00\x00\x00"},{170,4,"\xaa\x00\x00\x00"},{171,4,"\xab\x00\x00\x00"},{172,4,"\xac\x00\x00\x00"},{173,4,"\xad\x00\x00\x00"},{174,4,"\xae\x00\x00\x00"},{175,4,"\xaf\x00\x00\x00"},{176,4,"\xb0\x00\x00\x00"},{177,4,"\xb1\x00\x00\x00"},{178,4,"\xb2\x00\x00\x00"},{179,4,"\xb3\x00\x00\x00"},{180,4,"\xb4\x00\x00\x00"},{181,4,"\xb5\x00\x00\x00"},{182,4,"\xb6\x00\x00\x00"},{183,4,"\xb7\x00\x00\x00"},{184,4,"\xb8\x00\x00\x00"},{185,4,"\xb9\x00\x00\x00"},{186,4,"\xba\x00\x00\x00"},{187,4,"\xbb\x00\x00\x00"},{188,4,"\xbc\x00\x00\x00"},{189,4,"\xbd\x00\x00\x00"},{190,4,"\xbe\x00\x00\x00"},{191,4,"\xbf\x00\x00\x00"},{192,4,"\xc0\x00\x00\x00"},{193,4,"\xc1\x00\x00\x00"},{194,4,"\xc2\x00\x00\x00"},{195,4,"\xc3\x00\x00\x00"},{196,4,"\xc4\x00\x00\x00"},{197,4,"\xc5\x00\x00\x00"},{198,4,"\xc6\x00\x00\x00"},{199,4,"\xc7\x00\x00\x00"},{200,4,"\xc8\x00\x00\x00"},{201,4,"\xc9\x00\x00\x00"},{202,4,"\xca\x00\x00\x00"},{203,4,"\xcb\x00\x00\x00"},{204,4,"\xcc\x00\x00\x00"},{205,4,"\xcd\x00\x00\x00"},{206,4,"\xce\x00\x00\x00"},{207,4,"\xcf\x00\x00\x00"},{208,4,"\xd0\x00\x00\x00"},{209,4,"\xd1\x00\x00\x00"},{210,4,"\xd2\x00\x00\x00"},{211,4,"\xd3\x00\x00\x00"},{212,4,"\xd4\x00\x00\x00"},{213,4,"\xd5\x00\x00\x00"},{214,4,"\xd6\x00\x00\x00"},{215,4,"\xd7\x00\x00\x00"},{216,4,"\xd8\x00\x00\x00"},{217,4,"\xd9\x00\x00\x00"},{218,4,"\xda\x00\x00\x00"},{219,4,"\xdb\x00\x00\x00"},{220,4,"\xdc\x00\x00\x00"},{221,4,"\xdd\x00\x00\x00"},{222,4,"\xde\x00\x00\x00"},{223,4,"\xdf\x00\x00\x00"},{224,4,"\xe0\x00\x00\x00"},{225,4,"\xe1\x00\x00\x00"},{226,4,"\xe2\x00\x00\x00"},{227,4,"\xe3\x00\x00\x00"},{228,4,"\xe4\x00\x00\x00"},{229,4,"\xe5\x00\x00\x00"},{230,4,"\xe6\x00\x00\x00"},{231,4,"\xe7\x00\x00\x00"},{232,4,"\xe8\x00\x00\x00"},{233,4,"\xe9\x00\x00\x00"},{234,4,"\xea\x00\x00\x00"},{235,4,"\xeb\x00\x00\x00"},{236,4,"\xec\x00\x00\x00"},{237,4,"\xed\x00\x00\x00"},{238,4,"\xee\x00\x00\x00"},{239,4,"\xef\x00\x00\x00"},{240,4,"\xf0\x00\x00\x00"},{241,4,"\xf1\x00\x00\x00"},{242,4,"\xf2\x00\x00\x00"},{243,4,"\xf3\x00\x00\x00"},{244,4,"\xf4\x00\x00\x00"},{245,4,"\xf5\x00\x00\x00"},{246,4,"\xf6\x00\x00\x00"},{247,4,"\xf7\x00\x00\x00"},{248,4,"\xf8\x00\x00\x00"},{249,4,"\xf9\x00\x00\x00"},{250,4,"\xfa\x00\x00\x00"},{251,4,"\xfb\x00\x00\x00"},{252,4,"\xfc\x00\x00\x00"},
{253,4,"\xfd\x00\x00\x00"},{254,4,"\xfe\x00\x00\x00"},{255,4,"\xff\x00\x00\x00"},{256,4,"\x00\x01\x00\x00"},{257,4,"\x01\x01\x00\x00"},{258,4,"\x02\x01\x00\x00"},{259,4,"\x03\x01\x00\x00"},{260,4,"\x04\x01\x00\x00"},{261,4,"\x05\x01\x00\x00"},{262,4,"\x06\x01\x00\x00"},{263,4,"\x07\x01\x00\x00"},{264,4,"\x08\x01\x00\x00"},{265,4,"\x09\x01\x00\x00"},{266,4,"\x0a\x01\x00\x00"},{267,4,"\x0b\x01\x00\x00"},{268,4,"\x0c\x01\x00\x00"},{269,4,"\x0d\x01\x00\x00"},{270,4,"\x0e\x01\x00\x00"},{271,4,"\x0f\x01\x00\x00"},{272,4,"\x10\x01\x00\x00"},{273,4,"\x11\x01\x00\x00"},{274,4,"\x12\x01\x00\x00"},{275,4,"\x13\x01\x00\x00"},{276,4,"\x14\x01\x00\x00"},{277,4,"\x15\x01\x00\x00"},{278,4,"\x16\x01\x00\x00"},{279,4,"\x17\x01\x00\x00"},{280,4,"\x18\x01\x00\x00"},{281,4,"\x19\x01\x00\x00"},{282,4,"\x1a\x01\x00\x00"},{283,4,"\x1b\x01\x00\x00"},{284,4,"\x1c\x01\x00\x00"},{285,4,"\x1d\x01\x00\x00"},{286,4,"\x1e\x01\x00\x00"},{287,4,"\x1f\x01\x00\x00"},{288,4,"\x20\x01\x00\x00"},{289,4,"\x21\x01\x00\x00"},{290,4,"\x22\x01\x00\x00"},{291,4,"\x23\x01\x00\x00"},{292,4,"\x24\x01\x00\x00"},{293,4,"\x25\x01\x00\x00"},{294,4,"\x26\x01\x00\x00"},{295,4,"\x27\x01\x00\x00"},{296,4,"\x28\x01\x00\x00"},{297,4,"\x29\x01\x00\x00"},{298,4,"\x2a\x01\x00\x00"},{299,4,"\x2b\x01\x00\x00"},{300,4,"\x2c\x01\x00\x00"},{301,4,"\x2d\x01\x00\x00"},{302,4,"\x2e\x01\x00\x00"},{303,4,"\x2f\x01\x00\x00"},{304,4,"\x30\x01\x00\x00"},{305,4,"\x31\x01\x00\x00"},{306,4,"\x32\x01\x00\x00"},{307,4,"\x33\x01\x00\x00"},{308,4,"\x34\x01\x00\x00"},{309,4,"\x35\x01\x00\x00"},{310,4,"\x36\x01\x00\x00"},{311,4,"\x37\x01\x00\x00"},{312,4,"\x38\x01\x00\x00"},{313,4,"\x39\x01\x00\x00"},{314,4,"\x3a\x01\x00\x00"},{315,4,"\x3b\x01\x00\x00"},{316,4,"\x3c\x01\x00\x00"},{317,4,"\x3d\x01\x00\x00"},{318,4,"\x3e\x01\x00\x00"},{319,4,"\x3f\x01\x00\x00"},{320,4,"\x40\x01\x00\x00"},{321,4,"\x41\x01\x00\x00"},{322,4,"\x42\x01\x00\x00"},{323,4,"\x43\x01\x00\x00"},{324,4,"\x44\x01\x00\x00"},{325,4,"\x45\x01\x00\x00"},{326,4,"\x46\x01\x00\x00"},{327,4,"\x47\x01\x00\x00"},{328,4,"\x48\x01\x00\x00"},{329,4,"\x49\x01\x00\x00"},{330,4,"\x4a\x01\x00\x00"},{331,4,"\x4b\x01\x00\x00"},{332,4,"\x4c\x01\x00\x00"},{333,4,"\x4d\x01\x00\x00"},{334,4,"\x4e\x01\x00\x00"},{335,4,"\x4f\x01\x00\x00"},{336,4,"\x50\x01\x00\x00"},{337,4,"\x51\x01\x00\x00"},{338,4,"\x52\x01\x00\x00"},{339,4,"\x53\x01\x00\x00"},{340,4,"\x54\x01\x00\x00"},{341,4,"\x55\x01\x00\x00"},{342,4,"\x56\x01\x00\x00"},{343,4,"\x57\x01\x00\x00"},{344,4,"\x58\x01\x00\x00"},{345,4,"\x59\x01\x00\x00"},{346,4,"\x5a\x01\x00\x00"},{347,4,"\x5b\x01\x00\x00"},{348,4,"\x5c\x01\x00\x00"},{349,4,"\x5d\x01\x00\x00"},{350,4,"\x5e\x01\x00\x00"},{351,4,"\x5f\x01\x00\x00"},{352,4,"\x60\x01\x00\x00"},{353,4,"\x61\x01\x00\x00"},{354,4,"\x62\x01\x00\x00"},{355,4,"\x63\x01\x00\x00"},{356,4,"\x64\x01\x00\x00"},{357,4,"\x65\x01\x00\x00"},{358,4,"\x66\x01\x00\x00"},{359,4,"\x67\x01\x00\x00"},{360,4,"\x68\x01\x00\x00"},{361,4,"\x69\x01\x00\x00"},{362,4,"\x6a\x01\x00\x00"},{363,4,"\x6b\x01\x00\x00"},{364,4,"\x6c\x01\x00\x00"},
{365,4,"\x6d\x01\x00\x00"},{366,4,"\x6e\x01\x00\x00"},{367,4,"\x6f\x01\x00\x00"},{368,4,"\x70\x01\x00\x00"},{369,4,"\x71\x01\x00\x00"},{370,4,"\x72\x01\x00\x00"},{371,4,"\x73\x01\x00\x00"},{372,4,"\x74\x01\x00\x00"},{373,4,"\x75\x01\x00\x00"},{374,4,"\x76\x01\x00\x00"},{375,4,"\x77\x01\x00\x00"},{376,4,"\x78\x01\x00\x00"},{377,4,"\x79\x01\x00\x00"},{378,4,"\x7a\x01\x00\x00"},{379,4,"\x7b\x01\x00\x00"},{380,4,"\x7c\x01\x00\x00"},{381,4,"\x7d\x01\x00\x00"},{382,4,"\x7e\x01\x00\x00"},{383,4,"\x7f\x01\x00\x00"},{127,4,"\x7f\x00\x00\x00"},{1,4,"\x01\x00\x00\x00"},{4,4,"\x04\x00\x00\x00"},{27,4,"\x1b\x00\x00\x00"},{26,4,"\x1a\x00\x00\x00"},{12,4,"\x0c\x00\x00\x00"},{900,4,"\x84\x03\x00\x00"},{901,4,"\x85\x03\x00\x00"},{902,4,"\x86\x03\x00\x00"},{903,4,"\x87\x03\x00\x00"},{904,4,"\x88\x03\x00\x00"},{905,4,"\x89\x03\x00\x00"},{906,4,"\x8a\x03\x00\x00"},{907,4,"\x8b\x03\x00\x00"},{908,4,"\x8c\x03\x00\x00"},{909,4,"\x8d\x03\x00\x00"},{910,4,"\x8e\x03\x00\x00"},{911,4,"\x8f\x03\x00\x00"},{912,4,"\x90\x03\x00\x00"},{913,4,"\x91\x03\x00\x00"},{914,4,"\x92\x03\x00\x00"},{915,4,"\x93\x03\x00\x00"},{916,4,"\x94\x03\x00\x00"},{917,4,"\x95\x03\x00\x00"},{918,4,"\x96\x03\x00\x00"},{919,4,"\x97\x03\x00\x00"},{920,4,"\x98\x03\x00\x00"},{921,4,"\x99\x03\x00\x00"},{922,4,"\x9a\x03\x00\x00"},{923,4,"\x9b\x03\x00\x00"},{924,4,"\x9c\x03\x00\x00"},{925,4,"\x9d\x03\x00\x00"},{926,4,"\x9e\x03\x00\x00"},{927,4,"\x9f\x03\x00\x00"},{928,4,"\xa0\x03\x00\x00"},{929,4,"\xa1\x03\x00\x00"},{930,4,"\xa2\x03\x00\x00"},{931,4,"\xa3\x03\x00\x00"},{932,4,"\xa4\x03\x00\x00"},{933,4,"\xa5\x03\x00\x00"},{934,4,"\xa6\x03\x00\x00"},{935,4,"\xa7\x03\x00\x00"},{936,4,"\xa8\x03\x00\x00"},{937,4,"\xa9\x03\x00\x00"},{938,4,"\xaa\x03\x00\x00"},{939,4,"\xab\x03\x00\x00"},{940,4,"\xac\x03\x00\x00"},{941,4,"\xad\x03\x00\x00"},{942,4,"\xae\x03\x00\x00"},{943,4,"\xaf\x03\x00\x00"},{944,4,"\xb0\x03\x00\x00"},{945,4,"\xb1\x03\x00\x00"},{946,4,"\xb2\x03\x00\x00"},{947,4,"\xb3\x03\x00\x00"},{948,4,"\xb4\x03\x00\x00"},{949,4,"\xb5\x03\x00\x00"},{950,4,"\xb6\x03\x00\x00"},{951,4,"\xb7\x03\x00\x00"},{952,4,"\xb8\x03\x00\x00"},{953,4,"\xb9\x03\x00\x00"},{954,4,"\xba\x03\x00\x00"},{955,4,"\xbb\x03\x00\x00"},{956,4,"\xbc\x03\x00\x00"},{957,4,"\xbd\x03\x00\x00"},{958,4,"\xbe\x03\x00\x00"},{959,4,"\xbf\x03\x00\x00"},{960,4,"\xc0\x03\x00\x00"},{961,4,"\xc1\x03\x00\x00"},{962,4,"\xc2\x03\x00\x00"},{963,4,"\xc3\x03\x00\x00"},{964,4,"\xc4\x03\x00\x00"},{965,4,"\xc5\x03\x00\x00"},{966,4,"\xc6\x03\x00\x00"},{967,4,"\xc7\x03\x00\x00"},{968,4,"\xc8\x03\x00\x00"},{969,4,"\xc9\x03\x00\x00"},{970,4,"\xca\x03\x00\x00"},{971,4,"\xcb\x03\x00\x00"},{972,4,"\xcc\x03\x00\x00"},{973,4,"\xcd\x03\x00\x00"},{974,4,"\xce\x03\x00\x00"},{1025,4,"\x01\x04\x00\x00"},{1026,4,"\x02\x04\x00\x00"},{1027,4,"\x03\x04\x00\x00"},{1028,4,"\x04\x04\x00\x00"},{1029,4,"\x05\x04\x00\x00"},{1030,4,"\x06\x04\x00\x00"},{1031,4,"\x07\x04\x00\x00"},{1032,4,"\x08\x04\x00\x00"},{1033,4,"\x09\x04\x00\x00"},{1034,4,"\x0a\x04\x00\x00"},{1035,4,"\x0b\x04\x00\x00"},
{1036,4,"\x0c\x04\x00\x00"},{1037,4,"\x0d\x04\x00\x00"},{1038,4,"\x0e\x04\x00\x00"},{1039,4,"\x0f\x04\x00\x00"},{1040,4,"\x10\x04\x00\x00"},{1041,4,"\x11\x04\x00\x00"},{1042,4,"\x12\x04\x00\x00"},{1043,4,"\x13\x04\x00\x00"},{1044,4,"\x14\x04\x00\x00"},{1045,4,"\x15\x04\x00\x00"},{1046,4,"\x16\x04\x00\x00"},{1047,4,"\x17\x04\x00\x00"},{1048,4,"\x18\x04\x00\x00"},{1049,4,"\x19\x04\x00\x00"},{1050,4,"\x1a\x04\x00\x00"},{1051,4,"\x1b\x04\x00\x00"},{1052,4,"\x1c\x04\x00\x00"},{1053,4,"\x1d\x04\x00\x00"},{1054,4,"\x1e\x04\x00\x00"},{1055,4,"\x1f\x04\x00\x00"},{1056,4,"\x20\x04\x00\x00"},{1057,4,"\x21\x04\x00\x00"},{1058,4,"\x22\x04\x00\x00"},{1059,4,"\x23\x04\x00\x00"},{1060,4,"\x24\x04\x00\x00"},{1061,4,"\x25\x04\x00\x00"},{1062,4,"\x26\x04\x00\x00"},{1063,4,"\x27\x04\x00\x00"},{1064,4,"\x28\x04\x00\x00"},{1065,4,"\x29\x04\x00\x00"},{1066,4,"\x2a\x04\x00\x00"},{1067,4,"\x2b\x04\x00\x00"},{1068,4,"\x2c\x04\x00\x00"},{1069,4,"\x2d\x04\x00\x00"},{1070,4,"\x2e\x04\x00\x00"},{1071,4,"\x2f\x04\x00\x00"},{1072,4,"\x30\x04\x00\x00"},{1073,4,"\x31\x04\x00\x00"},{1074,4,"\x32\x04\x00\x00"},{1075,4,"\x33\x04\x00\x00"},{1076,4,"\x34\x04\x00\x00"},{1077,4,"\x35\x04\x00\x00"},{1078,4,"\x36\x04\x00\x00"},{1079,4,"\x37\x04\x00\x00"},{1080,4,"\x38\x04\x00\x00"},{1081,4,"\x39\x04\x00\x00"},{1082,4,"\x3a\x04\x00\x00"},{1083,4,"\x3b\x04\x00\x00"},{1084,4,"\x3c\x04\x00\x00"},{1085,4,"\x3d\x04\x00\x00"},{1086,4,"\x3e\x04\x00\x00"},{1087,4,"\x3f\x04\x00\x00"},{1088,4,"\x40\x04\x00\x00"},{1089,4,"\x41\x04\x00\x00"},{1090,4,"\x42\x04\x00\x00"},{1091,4,"\x43\x04\x00\x00"},{1092,4,"\x44\x04\x00\x00"},{1093,4,"\x45\x04\x00\x00"},{1094,4,"\x46\x04\x00\x00"},{1095,4,"\x47\x04\x00\x00"},{1096,4,"\x48\x04\x00\x00"},{1097,4,"\x49\x04\x00\x00"},{1098,4,"\x4a\x04\x00\x00"},{1099,4,"\x4b\x04\x00\x00"},{1100,4,"\x4c\x04\x00\x00"},{1101,4,"\x4d\x04\x00\x00"},{1102,4,"\x4e\x04\x00\x00"},{1103,4,"\x4f\x04\x00\x00"},{1104,4,"\x50\x04\x00\x00"},{1105,4,"\x51\x04\x00\x00"},{1106,4,"\x52\x04\x00\x00"},{1107,4,"\x53\x04\x00\x00"},{1108,4,"\x54\x04\x00\x00"},{1109,4,"\x55\x04\x00\x00"},{1110,4,"\x56\x04\x00\x00"},{1111,4,"\x57\x04\x00\x00"},{1112,4,"\x58\x04\x00\x00"},{1113,4,"\x59\x04\x00\x00"},{1114,4,"\x5a\x04\x00\x00"},{1115,4,"\x5b\x04\x00\x00"},{1116,4,"\x5c\x04\x00\x00"},{1117,4,"\x5d\x04\x00\x00"},{1118,4,"\x5e\x04\x00\x00"},{8211,4,"\x13\x20\x00\x00"},{8212,4,"\x14\x20\x00\x00"},{8216,4,"\x18\x20\x00\x00"},{8217,4,"\x19\x20\x00\x00"},{8220,4,"\x1c\x20\x00\x00"},{8221,4,"\x1d\x20\x00\x00"},{8222,4,"\x1e\x20\x00\x00"},{8224,4,"\x20\x20\x00\x00"},{8225,4,"\x21\x20\x00\x00"},{8226,4,"\x22\x20\x00\x00"},{8230,4,"\x26\x20\x00\x00"},{8240,4,"\x30\x20\x00\x00"},{8249,4,"\x39\x20\x00\x00"},{8250,4,"\x3a\x20\x00\x00"},{8364,4,"\xac\x20\x00\x00"},{8482,4,"\x22\x21\x00\x00"},{1488,4,"\xd0\x05\x00\x00"},{1489,4,"\xd1\x05\x00\x00"},{1490,4,"\xd2\x05\x00\x00"},{1491,4,"\xd3\x05\x00\x00"},{1492,4,"\xd4\x05\x00\x00"},{1493,4,"\xd5\x05\x00\x00"},{1494,4,"\xd6\x05\x00\x00"},{1495,4,"\xd7\x05\x00\x00"},{1496,4,"\xd8\x05\x00\x00"},
{1497,4,"\xd9\x05\x00\x00"},{1498,4,"\xda\x05\x00\x00"},{1499,4,"\xdb\x05\x00\x00"},{1500,4,"\xdc\x05\x00\x00"},{1501,4,"\xdd\x05\x00\x00"},{1502,4,"\xde\x05\x00\x00"},{1503,4,"\xdf\x05\x00\x00"},{1504,4,"\xe0\x05\x00\x00"},{1505,4,"\xe1\x05\x00\x00"},{1506,4,"\xe2\x05\x00\x00"},{1507,4,"\xe3\x05\x00\x00"},{1508,4,"\xe4\x05\x00\x00"},{1509,4,"\xe5\x05\x00\x00"},{1510,4,"\xe6\x05\x00\x00"},{1511,4,"\xe7\x05\x00\x00"},{1512,4,"\xe8\x05\x00\x00"},{1513,4,"\xe9\x05\x00\x00"},{1514,4,"\xea\x05\x00\x00"},{3585,4,"\x01\x0e\x00\x00"},{3586,4,"\x02\x0e\x00\x00"},{3587,4,"\x03\x0e\x00\x00"},{3588,4,"\x04\x0e\x00\x00"},{3589,4,"\x05\x0e\x00\x00"},{3590,4,"\x06\x0e\x00\x00"},{3591,4,"\x07\x0e\x00\x00"},{3592,4,"\x08\x0e\x00\x00"},{3593,4,"\x09\x0e\x00\x00"},{3594,4,"\x0a\x0e\x00\x00"},{3595,4,"\x0b\x0e\x00\x00"},{3596,4,"\x0c\x0e\x00\x00"},{3597,4,"\x0d\x0e\x00\x00"},{3598,4,"\x0e\x0e\x00\x00"},{3599,4,"\x0f\x0e\x00\x00"},{3600,4,"\x10\x0e\x00\x00"},{3601,4,"\x11\x0e\x00\x00"},{3602,4,"\x12\x0e\x00\x00"},{3603,4,"\x13\x0e\x00\x00"},{3604,4,"\x14\x0e\x00\x00"},{3605,4,"\x15\x0e\x00\x00"},{3606,4,"\x16\x0e\x00\x00"},{3607,4,"\x17\x0e\x00\x00"},{3608,4,"\x18\x0e\x00\x00"},{3609,4,"\x19\x0e\x00\x00"},{3610,4,"\x1a\x0e\x00\x00"},{3611,4,"\x1b\x0e\x00\x00"},{3612,4,"\x1c\x0e\x00\x00"},{3613,4,"\x1d\x0e\x00\x00"},{3614,4,"\x1e\x0e\x00\x00"},{3615,4,"\x1f\x0e\x00\x00"},{3616,4,"\x20\x0e\x00\x00"},{3617,4,"\x21\x0e\x00\x00"},{3618,4,"\x22\x0e\x00\x00"},{3619,4,"\x23\x0e\x00\x00"},{3620,4,"\x24\x0e\x00\x00"},{3621,4,"\x25\x0e\x00\x00"},{3622,4,"\x26\x0e\x00\x00"},{3623,4,"\x27\x0e\x00\x00"},{3624,4,"\x28\x0e\x00\x00"},{3625,4,"\x29\x0e\x00\x00"},{3626,4,"\x2a\x0e\x00\x00"},{3627,4,"\x2b\x0e\x00\x00"},{3628,4,"\x2c\x0e\x00\x00"},{3629,4,"\x2d\x0e\x00\x00"},{3630,4,"\x2e\x0e\x00\x00"},{12353,4,"\x41\x30\x00\x00"},{12354,4,"\x42\x30\x00\x00"},{12355,4,"\x43\x30\x00\x00"},{12356,4,"\x44\x30\x00\x00"},{12357,4,"\x45\x30\x00\x00"},{12358,4,"\x46\x30\x00\x00"},{12359,4,"\x47\x30\x00\x00"},{12360,4,"\x48\x30\x00\x00"},{12361,4,"\x49\x30\x00\x00"},{12362,4,"\x4a\x30\x00\x00"},{12363,4,"\x4b\x30\x00\x00"},{12364,4,"\x4c\x30\x00\x00"},{12365,4,"\x4d\x30\x00\x00"},{12366,4,"\x4e\x30\x00\x00"},{12367,4,"\x4f\x30\x00\x00"},{12368,4,"\x50\x30\x00\x00"},{12369,4,"\x51\x30\x00\x00"},{12370,4,"\x52\x30\x00\x00"},{12371,4,"\x53\x30\x00\x00"},{12372,4,"\x54\x30\x00\x00"},{12373,4,"\x55\x30\x00\x00"},{12374,4,"\x56\x30\x00\x00"},{12375,4,"\x57\x30\x00\x00"},{12376,4,"\x58\x30\x00\x00"},{12377,4,"\x59\x30\x00\x00"},{12378,4,"\x5a\x30\x00\x00"},{12379,4,"\x5b\x30\x00\x00"},{12380,4,"\x5c\x30\x00\x00"},{12381,4,"\x5d\x30\x00\x00"},{12382,4,"\x5e\x30\x00\x00"},{12383,4,"\x5f\x30\x00\x00"},{12384,4,"\x60\x30\x00\x00"},{12385,4,"\x61\x30\x00\x00"},{12386,4,"\x62\x30\x00\x00"},{12387,4,"\x63\x30\x00\x00"},{12388,4,"\x64\x30\x00\x00"},{12389,4,"\x65\x30\x00\x00"},{12390,4,"\x66\x30\x00\x00"},{12391,4,"\x67\x30\x00\x00"},{12392,4,"\x68\x30\x00\x00"},{12393,4,"\x69\x30\x00\x00"},{12394,4,"\x6a\x30\x00\x00"},
{12395,4,"\x6b\x30\x00\x00"},{12396,4,"\x6c\x30\x00\x00"},{12397,4,"\x6d\x30\x00\x00"},{12398,4,"\x6e\x30\x00\x00"},{12399,4,"\x6f\x30\x00\x00"},{12400,4,"\x70\x30\x00\x00"},{12401,4,"\x71\x30\x00\x00"},{12402,4,"\x72\x30\x00\x00"},{12403,4,"\x73\x30\x00\x00"},{12404,4,"\x74\x30\x00\x00"},{12405,4,"\x75\x30\x00\x00"},{12406,4,"\x76\x30\x00\x00"},{12407,4,"\x77\x30\x00\x00"},{12408,4,"\x78\x30\x00\x00"},{12409,4,"\x79\x30\x00\x00"},{12410,4,"\x7a\x30\x00\x00"},{12411,4,"\x7b\x30\x00\x00"},{12412,4,"\x7c\x30\x00\x00"},{12413,4,"\x7d\x30\x00\x00"},{12414,4,"\x7e\x30\x00\x00"},{12415,4,"\x7f\x30\x00\x00"},{12416,4,"\x80\x30\x00\x00"},{12417,4,"\x81\x30\x00\x00"},{12418,4,"\x82\x30\x00\x00"},{12419,4,"\x83\x30\x00\x00"},{12420,4,"\x84\x30\x00\x00"},{12421,4,"\x85\x30\x00\x00"},{12422,4,"\x86\x30\x00\x00"},{12423,4,"\x87\x30\x00\x00"},{12424,4,"\x88\x30\x00\x00"},{12425,4,"\x89\x30\x00\x00"},{12426,4,"\x8a\x30\x00\x00"},{12427,4,"\x8b\x30\x00\x00"},{12428,4,"\x8c\x30\x00\x00"},{12429,4,"\x8d\x30\x00\x00"},{12430,4,"\x8e\x30\x00\x00"},{12431,4,"\x8f\x30\x00\x00"},{12432,4,"\x90\x30\x00\x00"},{12433,4,"\x91\x30\x00\x00"},{12434,4,"\x92\x30\x00\x00"},{12435,4,"\x93\x30\x00\x00"},{12449,4,"\xa1\x30\x00\x00"},{12450,4,"\xa2\x30\x00\x00"},{12451,4,"\xa3\x30\x00\x00"},{12452,4,"\xa4\x30\x00\x00"},{12453,4,"\xa5\x30\x00\x00"},{12454,4,"\xa6\x30\x00\x00"},{12455,4,"\xa7\x30\x00\x00"},{12456,4,"\xa8\x30\x00\x00"},{12457,4,"\xa9\x30\x00\x00"},{12458,4,"\xaa\x30\x00\x00"},{12459,4,"\xab\x30\x00\x00"},{12460,4,"\xac\x30\x00\x00"},{12461,4,"\xad\x30\x00\x00"},{12462,4,"\xae\x30\x00\x00"},{12463,4,"\xaf\x30\x00\x00"},{12464,4,"\xb0\x30\x00\x00"},{12465,4,"\xb1\x30\x00\x00"},{12466,4,"\xb2\x30\x00\x00"},{12467,4,"\xb3\x30\x00\x00"},{12468,4,"\xb4\x30\x00\x00"},{12469,4,"\xb5\x30\x00\x00"},{12470,4,"\xb6\x30\x00\x00"},{12471,4,"\xb7\x30\x00\x00"},{12472,4,"\xb8\x30\x00\x00"},{12473,4,"\xb9\x30\x00\x00"},{12474,4,"\xba\x30\x00\x00"},{12475,4,"\xbb\x30\x00\x00"},{12476,4,"\xbc\x30\x00\x00"},{12477,4,"\xbd\x30\x00\x00"},{12478,4,"\xbe\x30\x00\x00"},{12479,4,"\xbf\x30\x00\x00"},{12480,4,"\xc0\x30\x00\x00"},{12481,4,"\xc1\x30\x00\x00"},{12482,4,"\xc2\x30\x00\x00"},{12483,4,"\xc3\x30\x00\x00"},{12484,4,"\xc4\x30\x00\x00"},{12485,4,"\xc5\x30\x00\x00"},{12486,4,"\xc6\x30\x00\x00"},{12487,4,"\xc7\x30\x00\x00"},{12488,4,"\xc8\x30\x00\x00"},{12489,4,"\xc9\x30\x00\x00"},{12490,4,"\xca\x30\x00\x00"},{12491,4,"\xcb\x30\x00\x00"},{12492,4,"\xcc\x30\x00\x00"},{12493,4,"\xcd\x30\x00\x00"},{12494,4,"\xce\x30\x00\x00"},{12495,4,"\xcf\x30\x00\x00"},{12496,4,"\xd0\x30\x00\x00"},{12497,4,"\xd1\x30\x00\x00"},{12498,4,"\xd2\x30\x00\x00"},{12499,4,"\xd3\x30\x00\x00"},{12500,4,"\xd4\x30\x00\x00"},{12501,4,"\xd5\x30\x00\x00"},{12502,4,"\xd6\x30\x00\x00"},{12503,4,"\xd7\x30\x00\x00"},{12504,4,"\xd8\x30\x00\x00"},{12505,4,"\xd9\x30\x00\x00"},{12506,4,"\xda\x30\x00\x00"},{12507,4,"\xdb\x30\x00\x00"},{12508,4,"\xdc\x30\x00\x00"},{12509,4,"\xdd\x30\x00\x00"},{12510,4,"\xde\x30\x00\x00"},{12511,4,"\xdf\x30\x00\x00"},
{12512,4,"\xe0\x30\x00\x00"},{12513,4,"\xe1\x30\x00\x00"},{12514,4,"\xe2\x30\x00\x00"},{12515,4,"\xe3\x30\x00\x00"},{12516,4,"\xe4\x30\x00\x00"},{12517,4,"\xe5\x30\x00\x00"},{12518,4,"\xe6\x30\x00\x00"},{12519,4,"\xe7\x30\x00\x00"},{12520,4,"\xe8\x30\x00\x00"},{12521,4,"\xe9\x30\x00\x00"},{12522,4,"\xea\x30\x00\x00"},{12523,4,"\xeb\x30\x00\x00"},{12524,4,"\xec\x30\x00\x00"},{12525,4,"\xed\x30\x00\x00"},{12526,4,"\xee\x30\x00\x00"},{12527,4,"\xef\x30\x00\x00"},{12528,4,"\xf0\x30\x00\x00"},{12529,4,"\xf1\x30\x00\x00"},{12530,4,"\xf2\x30\x00\x00"},{12531,4,"\xf3\x30\x00\x00"},{12532,4,"\xf4\x30\x00\x00"},{12533,4,"\xf5\x30\x00\x00"},{12534,4,"\xf6\x30\x00\x00"},{12289,4,"\x01\x30\x00\x00"},{12290,4,"\x02\x30\x00\x00"},{12300,4,"\x0c\x30\x00\x00"},{12301,4,"\x0d\x30\x00\x00"},{26085,4,"\xe5\x65\x00\x00"},{26412,4,"\x2c\x67\x00\x00"},{35486,4,"\x9e\x8a\x00\x00"},{28450,4,"\x22\x6f\x00\x00"},{23383,4,"\x57\x5b\x00\x00"},{20013,4,"\x2d\x4e\x00\x00"},{25991,4,"\x87\x65\x00\x00"},{22283,4,"\x0b\x57\x00\x00"},{22269,4,"\xfd\x56\x00\x00"},{35821,4,"\xed\x8b\x00\x00"},{31616,4,"\x80\x7b\x00\x00"},{39636,4,"\xd4\x9a\x00\x00"},{20307,4,"\x53\x4f\x00\x00"},{32321,4,"\x41\x7e\x00\x00"},{21488,4,"\xf0\x53\x00\x00"},{28771,4,"\x63\x70\x00\x00"},{28286,4,"\x7e\x6e\x00\x00"},{39321,4,"\x99\x99\x00\x00"},{28207,4,"\x2f\x6e\x00\x00"},{32763,4,"\xfb\x7f\x00\x00"},{35695,4,"\x6f\x8b\x00\x00"},{35793,4,"\xd1\x8b\x00\x00"},{36938,4,"\x4a\x90\x00\x00"},{28216,4,"\x38\x6e\x00\x00"},{25103,4,"\x0f\x62\x00\x00"},{25138,4,"\x32\x62\x00\x00"},{38283,4,"\x8b\x95\x00\x00"},{24320,4,"\x00\x5f\x00\x00"},{22987,4,"\xcb\x59\x00\x00"},{26032,4,"\xb0\x65\x00\x00"},{38306,4,"\xa2\x95\x00\x00"},{38364,4,"\xdc\x95\x00\x00"},{35373,4,"\x2d\x8a\x00\x00"},{32622,4,"\x6e\x7f\x00\x00"},{23450,4,"\x9a\x5b\x00\x00"},{35328,4,"\x00\x8a\x00\x00"},{21517,4,"\x0d\x54\x00\x00"},{21069,4,"\x4d\x52\x00\x00"},{20445,4,"\xdd\x4f\x00\x00"},{23384,4,"\x58\x5b\x00\x00"},{21151,4,"\x9f\x52\x00\x00"},{35377,4,"\x31\x8a\x00\x00"},{33995,4,"\xcb\x84\x00\x00"},{20040,4,"\x48\x4e\x00\x00"},{32946,4,"\xb2\x80\x00\x00"},{21522,4,"\x12\x54\x00\x00"},{21549,4,"\x2d\x54\x00\x00"},{23049,4,"\x09\x5a\x00\x00"},{35961,4,"\x79\x8c\x00\x00"},{29854,4,"\x9e\x74\x00\x00"},{25850,4,"\xfa\x64\x00\x00"},{39184,4,"\x10\x99\x00\x00"},{39631,4,"\xcf\x9a\x00\x00"},{29749,4,"\x35\x74\x00\x00"},{26543,4,"\xaf\x67\x00\x00"},{27519,4,"\x7f\x6b\x00\x00"},{19968,4,"\x00\x4e\x00\x00"},{20108,4,"\x8c\x4e\x00\x00"},{19977,4,"\x09\x4e\x00\x00"},{22235,4,"\xdb\x56\x00\x00"},{20116,4,"\x94\x4e\x00\x00"},{20845,4,"\x6d\x51\x00\x00"},{19971,4,"\x03\x4e\x00\x00"},{20843,4,"\x6b\x51\x00\x00"},{20061,4,"\x5d\x4e\x00\x00"},{21313,4,"\x41\x53\x00\x00"},{44032,4,"\x00\xac\x00\x00"},{44033,4,"\x01\xac\x00\x00"},{44034,4,"\x02\xac\x00\x00"},{44035,4,"\x03\xac\x00\x00"},{44036,4,"\x04\xac\x00\x00"},{44037,4,"\x05\xac\x00\x00"},{44038,4,"\x06\xac\x00\x00"},{44039,4,"\x07\xac\x00\x00"},{44040,4,"\x08\xac\x00\x00"},{44041,4,"\x09\xac\x00\x00"},{44042,4,"\x0a\xac\x00\x00"},
{44043,4,"\x0b\xac\x00\x00"},{44044,4,"\x0c\xac\x00\x00"},{44045,4,"\x0d\xac\x00\x00"},{44046,4,"\x0e\xac\x00\x00"},{44047,4,"\x0f\xac\x00\x00"},{44048,4,"\x10\xac\x00\x00"},{44049,4,"\x11\xac\x00\x00"},{44050,4,"\x12\xac\x00\x00"},{44051,4,"\x13\xac\x00\x00"},{44052,4,"\x14\xac\x00\x00"},{44053,4,"\x15\xac\x00\x00"},{44054,4,"\x16\xac\x00\x00"},{44055,4,"\x17\xac\x00\x00"},{44056,4,"\x18\xac\x00\x00"},{44057,4,"\x19\xac\x00\x00"},{44058,4,"\x1a\xac\x00\x00"},{44059,4,"\x1b\xac\x00\x00"},{44060,4,"\x1c\xac\x00\x00"},{44061,4,"\x1d\xac\x00\x00"},{44062,4,"\x1e\xac\x00\x00"},{44063,4,"\x1f\xac\x00\x00"},{54620,4,"\x5c\xd5\x00\x00"},{44397,4,"\x6d\xad\x00\x00"},{50612,4,"\xb4\xc5\x00\x00"},{44172,4,"\x8c\xac\x00\x00"},{51076,4,"\x84\xc7\x00\x00"},{49884,4,"\xdc\xc2\x00\x00"},{51089,4,"\x91\xc7\x00\x00"},{49444,4,"\x24\xc1\x00\x00"},{51221,4,"\x15\xc8\x00\x00"},{51200,4,"\x00\xc8\x00\x00"},{51109,4,"\xa5\xc7\x00\x00"},{1569,4,"\x21\x06\x00\x00"},{1570,4,"\x22\x06\x00\x00"},{1571,4,"\x23\x06\x00\x00"},{1572,4,"\x24\x06\x00\x00"},{1573,4,"\x25\x06\x00\x00"},{1574,4,"\x26\x06\x00\x00"},{1575,4,"\x27\x06\x00\x00"},{1576,4,"\x28\x06\x00\x00"},{1577,4,"\x29\x06\x00\x00"},{1578,4,"\x2a\x06\x00\x00"},{1579,4,"\x2b\x06\x00\x00"},{1580,4,"\x2c\x06\x00\x00"},{1581,4,"\x2d\x06\x00\x00"},{1582,4,"\x2e\x06\x00\x00"},{1583,4,"\x2f\x06\x00\x00"},{1584,4,"\x30\x06\x00\x00"},{1585,4,"\x31\x06\x00\x00"},{1586,4,"\x32\x06\x00\x00"},{1587,4,"\x33\x06\x00\x00"},{1588,4,"\x34\x06\x00\x00"},{1589,4,"\x35\x06\x00\x00"},{1590,4,"\x36\x06\x00\x00"},{1591,4,"\x37\x06\x00\x00"},{1592,4,"\x38\x06\x00\x00"},{1593,4,"\x39\x06\x00\x00"},{1594,4,"\x3a\x06\x00\x00"},{1600,4,"\x40\x06\x00\x00"},{1601,4,"\x41\x06\x00\x00"},{1602,4,"\x42\x06\x00\x00"},{1603,4,"\x43\x06\x00\x00"},{1604,4,"\x44\x06\x00\x00"},{1605,4,"\x45\x06\x00\x00"},{1606,4,"\x46\x06\x00\x00"},{1607,4,"\x47\x06\x00\x00"},{1608,4,"\x48\x06\x00\x00"},{1609,4,"\x49\x06\x00\x00"},{1610,4,"\x4a\x06\x00\x00"},{1168,4,"\x90\x04\x00\x00"},{1169,4,"\x91\x04\x00\x00"},{1170,4,"\x92\x04\x00\x00"},{1171,4,"\x93\x04\x00\x00"},{1172,4,"\x94\x04\x00\x00"},{1173,4,"\x95\x04\x00\x00"},{1174,4,"\x96\x04\x00\x00"},{1175,4,"\x97\x04\x00\x00"},{1176,4,"\x98\x04\x00\x00"},{1177,4,"\x99\x04\x00\x00"},{1178,4,"\x9a\x04\x00\x00"},{1179,4,"\x9b\x04\x00\x00"},{1180,4,"\x9c\x04\x00\x00"},{1181,4,"\x9d\x04\x00\x00"},{1182,4,"\x9e\x04\x00\x00"},{1183,4,"\x9f\x04\x00\x00"},{1184,4,"\xa0\x04\x00\x00"},{1185,4,"\xa1\x04\x00\x00"},{1186,4,"\xa2\x04\x00\x00"},{1187,4,"\xa3\x04\x00\x00"},{1188,4,"\xa4\x04\x00\x00"},{1189,4,"\xa5\x04\x00\x00"},{1190,4,"\xa6\x04\x00\x00"},{1191,4,"\xa7\x04\x00\x00"},{1192,4,"\xa8\x04\x00\x00"},{1193,4,"\xa9\x04\x00\x00"},{1194,4,"\xaa\x04\x00\x00"},{1195,4,"\xab\x04\x00\x00"},{1196,4,"\xac\x04\x00\x00"},{1197,4,"\xad\x04\x00\x00"},{1198,4,"\xae\x04\x00\x00"},{1199,4,"\xaf\x04\x00\x00"},{7840,4,"\xa0\x1e\x00\x00"},{7841,4,"\xa1\x1e\x00\x00"},{7842,4,"\xa2\x1e\x00\x00"},{7843,4,"\xa3\x1e\x00\x00"},{7844,4,"\xa4\x1e\x00\x00"},{7845,4,"\xa5\x1e\x00\x00"},
{7846,4,"\xa6\x1e\x00\x00"},{7847,4,"\xa7\x1e\x00\x00"},{7848,4,"\xa8\x1e\x00\x00"},{7849,4,"\xa9\x1e\x00\x00"},{7850,4,"\xaa\x1e\x00\x00"},{7851,4,"\xab\x1e\x00\x00"},{7852,4,"\xac\x1e\x00\x00"},{7853,4,"\xad\x1e\x00\x00"},{7854,4,"\xae\x1e\x00\x00"},{7855,4,"\xaf\x1e\x00\x00"},{7856,4,"\xb0\x1e\x00\x00"},{7857,4,"\xb1\x1e\x00\x00"},{7858,4,"\xb2\x1e\x00\x00"},{7859,4,"\xb3\x1e\x00\x00"},{7860,4,"\xb4\x1e\x00\x00"},{7861,4,"\xb5\x1e\x00\x00"},{7862,4,"\xb6\x1e\x00\x00"},{7863,4,"\xb7\x1e\x00\x00"},{7864,4,"\xb8\x1e\x00\x00"},{7865,4,"\xb9\x1e\x00\x00"},{7866,4,"\xba\x1e\x00\x00"},{7867,4,"\xbb\x1e\x00\x00"},{7868,4,"\xbc\x1e\x00\x00"},{7869,4,"\xbd\x1e\x00\x00"},{7870,4,"\xbe\x1e\x00\x00"},{7871,4,"\xbf\x1e\x00\x00"},{9472,4,"\x00\x25\x00\x00"},{9473,4,"\x01\x25\x00\x00"},{9474,4,"\x02\x25\x00\x00"},{9475,4,"\x03\x25\x00\x00"},{9476,4,"\x04\x25\x00\x00"},{9477,4,"\x05\x25\x00\x00"},{9478,4,"\x06\x25\x00\x00"},{9479,4,"\x07\x25\x00\x00"},{9480,4,"\x08\x25\x00\x00"},{9481,4,"\x09\x25\x00\x00"},{9482,4,"\x0a\x25\x00\x00"},{9483,4,"\x0b\x25\x00\x00"},{9484,4,"\x0c\x25\x00\x00"},{9485,4,"\x0d\x25\x00\x00"},{9486,4,"\x0e\x25\x00\x00"},{9487,4,"\x0f\x25\x00\x00"},{9488,4,"\x10\x25\x00\x00"},{9489,4,"\x11\x25\x00\x00"},{9490,4,"\x12\x25\x00\x00"},{9491,4,"\x13\x25\x00\x00"},{9492,4,"\x14\x25\x00\x00"},{9493,4,"\x15\x25\x00\x00"},{9494,4,"\x16\x25\x00\x00"},{9495,4,"\x17\x25\x00\x00"},{9496,4,"\x18\x25\x00\x00"},{9497,4,"\x19\x25\x00\x00"},{9498,4,"\x1a\x25\x00\x00"},{9499,4,"\x1b\x25\x00\x00"},{9500,4,"\x1c\x25\x00\x00"},{9501,4,"\x1d\x25\x00\x00"},{9502,4,"\x1e\x25\x00\x00"},{9503,4,"\x1f\x25\x00\x00"},{9504,4,"\x20\x25\x00\x00"},{9505,4,"\x21\x25\x00\x00"},{9506,4,"\x22\x25\x00\x00"},{9507,4,"\x23\x25\x00\x00"},{9508,4,"\x24\x25\x00\x00"},{9509,4,"\x25\x25\x00\x00"},{9510,4,"\x26\x25\x00\x00"},{9511,4,"\x27\x25\x00\x00"},{9512,4,"\x28\x25\x00\x00"},{9513,4,"\x29\x25\x00\x00"},{9514,4,"\x2a\x25\x00\x00"},{9515,4,"\x2b\x25\x00\x00"},{9516,4,"\x2c\x25\x00\x00"},{9517,4,"\x2d\x25\x00\x00"},{9518,4,"\x2e\x25\x00\x00"},{9519,4,"\x2f\x25\x00\x00"},{9520,4,"\x30\x25\x00\x00"},{9521,4,"\x31\x25\x00\x00"},{9522,4,"\x32\x25\x00\x00"},{9523,4,"\x33\x25\x00\x00"},{9524,4,"\x34\x25\x00\x00"},{9525,4,"\x35\x25\x00\x00"},{9526,4,"\x36\x25\x00\x00"},{9527,4,"\x37\x25\x00\x00"},{9528,4,"\x38\x25\x00\x00"},{9529,4,"\x39\x25\x00\x00"},{9530,4,"\x3a\x25\x00\x00"},{9531,4,"\x3b\x25\x00\x00"},{9532,4,"\x3c\x25\x00\x00"},{9533,4,"\x3d\x25\x00\x00"},{9534,4,"\x3e\x25\x00\x00"},{9535,4,"\x3f\x25\x00\x00"},{9536,4,"\x40\x25\x00\x00"},{9537,4,"\x41\x25\x00\x00"},{9538,4,"\x42\x25\x00\x00"},{9539,4,"\x43\x25\x00\x00"},{9540,4,"\x44\x25\x00\x00"},{9541,4,"\x45\x25\x00\x00"},{9542,4,"\x46\x25\x00\x00"},{9543,4,"\x47\x25\x00\x00"},{9544,4,"\x48\x25\x00\x00"},{9545,4,"\x49\x25\x00\x00"},{9546,4,"\x4a\x25\x00\x00"},{9547,4,"\x4b\x25\x00\x00"},{9548,4,"\x4c\x25\x00\x00"},{9549,4,"\x4d\x25\x00\x00"},{9550,4,"\x4e\x25\x00\x00"},{9551,4,"\x4f\x25\x00\x00"},{8470,4,"\x16\x21\x00\x00"},{8734,4,"\x1e\x22\x00\x00"},
{8776,4,"\x48\x22\x00\x00"},{8800,4,"\x60\x22\x00\x00"},{8804,4,"\x64\x22\x00\x00"},{8805,4,"\x65\x22\x00\x00"},{8730,4,"\x1a\x22\x00\x00"},{8706,4,"\x02\x22\x00\x00"},{8721,4,"\x11\x22\x00\x00"},{8719,4,"\x0f\x22\x00\x00"},{8747,4,"\x2b\x22\x00\x00"},{9674,4,"\xca\x25\x00\x00"},{64257,4,"\x01\xfb\x00\x00"},{64258,4,"\x02\xfb\x00\x00"},{12288,4,"\x00\x30\x00\x00"},{65345,4,"\x41\xff\x00\x00"},{65346,4,"\x42\xff\x00\x00"},{65347,4,"\x43\xff\x00\x00"},{65340,4,"\x3c\xff\x00\x00"},{65374,4,"\x5e\xff\x00\x00"},{65372,4,"\x5c\xff\x00\x00"},{65509,4,"\xe5\xff\x00\x00"},{65377,4,"\x61\xff\x00\x00"},{65378,4,"\x62\xff\x00\x00"},{65379,4,"\x63\xff\x00\x00"},{65393,4,"\x71\xff\x00\x00"},{65394,4,"\x72\xff\x00\x00"},{65395,4,"\x73\xff\x00\x00"},{9312,4,"\x60\x24\x00\x00"},{9313,4,"\x61\x24\x00\x00"},{9314,4,"\x62\x24\x00\x00"},{8544,4,"\x60\x21\x00\x00"},{8545,4,"\x61\x21\x00\x00"},{8546,4,"\x62\x21\x00\x00"},{13212,4,"\x9c\x33\x00\x00"},{12849,4,"\x31\x32\x00\x00"},{34920,4,"\x68\x88\x00\x00"},{20104,4,"\x88\x4e\x00\x00"},{30003,4,"\x33\x75\x00\x00"},{33021,4,"\xfd\x80\x00\x00"},{36028,4,"\xbc\x8c\x00\x00"},{26292,4,"\xb4\x66\x00\x00"},{27083,4,"\xcb\x69\x00\x00"},{22082,4,"\x42\x56\x00\x00"},{28012,4,"\x6c\x6d\x00\x00"},{27450,4,"\x3a\x6b\x00\x00"},{22317,4,"\x2d\x57\x00\x00"},{29674,4,"\xea\x73\x00\x00"},{21682,4,"\xb2\x54\x00\x00"},{31168,4,"\xc0\x79\x00\x00"},{29410,4,"\xe2\x72\x00\x00"},{34444,4,"\x8c\x86\x00\x00"},{37675,4,"\x2b\x93\x00\x00"},{25088,4,"\x00\x62\x00\x00"},{33399,4,"\x77\x82\x00\x00"},{32114,4,"\x72\x7d\x00\x00"},{40786,4,"\x52\x9f\x00\x00"},{40845,4,"\x8d\x9f\x00\x00"},{40860,4,"\x9c\x9f\x00\x00"},{38000,4,"\x70\x94\x00\x00"},{39729,4,"\x31\x9b\x00\x00"},{128512,4,"\x00\xf6\x01\x00"},{127918,4,"\xae\xf3\x01\x00"},{119070,4,"\x1e\xd1\x01\x00"},
};
static const CsChar cs_4[] = {
{32,4,"\x00\x00\x00\x20"},{33,4,"\x00\x00\x00\x21"},{34,4,"\x00\x00\x00\x22"},{35,4,"\x00\x00\x00\x23"},{36,4,"\x00\x00\x00\x24"},{37,4,"\x00\x00\x00\x25"},{38,4,"\x00\x00\x00\x26"},{39,4,"\x00\x00\x00\x27"},{40,4,"\x00\x00\x00\x28"},{41,4,"\x00\x00\x00\x29"},{42,4,"\x00\x00\x00\x2a"},{43,4,"\x00\x00\x00\x2b"},{44,4,"\x00\x00\x00\x2c"},{45,4,"\x00\x00\x00\x2d"},{46,4,"\x00\x00\x00\x2e"},{47,4,"\x00\x00\x00\x2f"},{48,4,"\x00\x00\x00\x30"},{49,4,"\x00\x00\x00\x31"},{50,4,"\x00\x00\x00\x32"},{51,4,"\x00\x00\x00\x33"},{52,4,"\x00\x00\x00\x34"},{53,4,"\x00\x00\x00\x35"},{54,4,"\x00\x00\x00\x36"},{55,4,"\x00\x00\x00\x37"},{56,4,"\x00\x00\x00\x38"},{57,4,"\x00\x00\x00\x39"},{58,4,"\x00\x00\x00\x3a"},{59,4,"\x00\x00\x00\x3b"},{60,4,"\x00\x00\x00\x3c"},{61,4,"\x00\x00\x00\x3d"},{62,4,"\x00\x00\x00\x3e"},{63,4,"\x00\x00\x00\x3f"},{64,4,"\x00\x00\x00\x40"},{65,4,"\x00\x00\x00\x41"},{66,4,"\x00\x00\x00\x42"},{67,4,"\x00\x00\x00\x43"},{68,4,"\x00\x00\x00\x44"},{69,4,"\x00\x00\x00\x45"},{70,4,"\x00\x00\x00\x46"},{71,4,"\x00\x00\x00\x47"},{72,4,"\x00\x00\x00\x48"},{73,4,"\x00\x00\x00\x49"},{74,4,"\x00\x00\x00\x4a"},{75,4,"\x00\x00\x00\x4b"},{76,4,"\x00\x00\x00\x4c"},{77,4,"\x00\x00\x00\x4d"},{78,4,"\x00\x00\x00\x4e"},{79,4,"\x00\x00\x00\x4f"},{80,4,"\x00\x00\x00\x50"},{81,4,"\x00\x00\x00\x51"},{82,4,"\x00\x00\x00\x52"},{83,4,"\x00\x00\x00\x53"},{84,4,"\x00\x00\x00\x54"},{85,4,"\x00\x00\x00\x55"},{86,4,"\x00\x00\x00\x56"},{87,4,"\x00\x00\x00\x57"},{88,4,"\x00\x00\x00\x58"},{89,4,"\x00\x00\x00\x59"},{90,4,"\x00\x00\x00\x5a"},{91,4,"\x00\x00\x00\x5b"},{92,4,"\x00\x00\x00\x5c"},{93,4,"\x00\x00\x00\x5d"},{94,4,"\x00\x00\x00\x5e"},{95,4,"\x00\x00\x00\x5f"},{96,4,"\x00\x00\x00\x60"},{97,4,"\x00\x00\x00\x61"},{98,4,"\x00\x00\x00\x62"},{99,4,"\x00\x00\x00\x63"},{100,4,"\x00\x00\x00\x64"},{101,4,"\x00\x00\x00\x65"},{102,4,"\x00\x00\x00\x66"},{103,4,"\x00\x00\x00\x67"},{104,4,"\x00\x00\x00\x68"},{105,4,"\x00\x00\x00\x69"},{106,4,"\x00\x00\x00\x6a"},{107,4,"\x00\x00\x00\x6b"},{108,4,"\x00\x00\x00\x6c"},{109,4,"\x00\x00\x00\x6d"},{110,4,"\x00\x00\x00\x6e"},{111,4,"\x00\x00\x00\x6f"},{112,4,"\x00\x00\x00\x70"},{113,4,"\x00\x00\x00\x71"},{114,4,"\x00\x00\x00\x72"},{115,4,"\x00\x00\x00\x73"},{116,4,"\x00\x00\x00\x74"},{117,4,"\x00\x00\x00\x75"},{118,4,"\x00\x00\x00\x76"},{119,4,"\x00\x00\x00\x77"},{120,4,"\x00\x00\x00\x78"},{121,4,"\x00\x00\x00\x79"},{122,4,"\x00\x00\x00\x7a"},{123,4,"\x00\x00\x00\x7b"},{124,4,"\x00\x00\x00\x7c"},{125,4,"\x00\x00\x00\x7d"},{126,4,"\x00\x00\x00\x7e"},{9,4,"\x00\x00\x00\x09"},{10,4,"\x00\x00\x00\x0a"},{13,4,"\x00\x00\x00\x0d"},{7,4,"\x00\x00\x00\x07"},{8,4,"\x00\x00\x00\x08"},{11,4,"\x00\x00\x00\x0b"},{128,4,"\x00\x00\x00\x80"},{129,4,"\x00\x00\x00\x81"},{130,4,"\x00\x00\x00\x82"},{131,4,"\x00\x00\x00\x83"},{132,4,"\x00\x00\x00\x84"},{133,4,"\x00\x00\x00\x85"},{134,4,"\x00\x00\x00\x86"},{135,4,"\x00\x00\x00\x87"},{136,4,"\x00\x00\x00\x88"},{137,4,"\x00\x00\x00\x89"},{138,4,"\x00\x00\x00\x8a"},{139,4,"\x00\x00\x00\x8b"},{140,4,"\x00\x00\x00\x8c"},
{141,4,"\x00\x00\x00\x8d"},{142,4,"\x00\x00\x00\x8e"},{143,4,"\x00\x00\x00\x8f"},{144,4,"\x00\x00\x00\x90"},{145,4,"\x00\x00\x00\x91"},{146,4,"\x00\x00\x00\x92"},{147,4,"\x00\x00\x00\x93"},{148,4,"\x00\x00\x00\x94"},{149,4,"\x00\x00\x00\x95"},{150,4,"\x00\x00\x00\x96"},{151,4,"\x00\x00\x00\x97"},{152,4,"\x00\x00\x00\x98"},{153,4,"\x00\x00\x00\x99"},{154,4,"\x00\x00\x00\x9a"},{155,4,"\x00\x00\x00\x9b"},{156,4,"\x00\x00\x00\x9c"},{157,4,"\x00\x00\x00\x9d"},{158,4,"\x00\x00\x00\x9e"},{159,4,"\x00\x00\x00\x9f"},{160,4,"\x00\x00\x00\xa0"},{161,4,"\x00\x00\x00\xa1"},{162,4,"\x00\x00\x00\xa2"},{163,4,"\x00\x00\x00\xa3"},{164,4,"\x00\x00\x00\xa4"},{165,4,"\x00\x00\x00\xa5"},{166,4,"\x00\x00\x00\xa6"},{167,4,"\x00\x00\x00\xa7"},{168,4,"\x00\x00\x00\xa8"},{169,4,"\x00\x00\x00\xa9"},{170,4,"\x00\x00\x00\xaa"},{171,4,"\x00\x00\x00\xab"},{172,4,"\x00\x00\x00\xac"},{173,4,"\x00\x00\x00\xad"},{174,4,"\x00\x00\x00\xae"},{175,4,"\x00\x00\x00\xaf"},{176,4,"\x00\x00\x00\xb0"},{177,4,"\x00\x00\x00\xb1"},{178,4,"\x00\x00\x00\xb2"},{179,4,"\x00\x00\x00\xb3"},{180,4,"\x00\x00\x00\xb4"},{181,4,"\x00\x00\x00\xb5"},{182,4,"\x00\x00\x00\xb6"},{183,4,"\x00\x00\x00\xb7"},{184,4,"\x00\x00\x00\xb8"},{185,4,"\x00\x00\x00\xb9"},{186,4,"\x00\x00\x00\xba"},{187,4,"\x00\x00\x00\xbb"},{188,4,"\x00\x00\x00\xbc"},{189,4,"\x00\x00\x00\xbd"},{190,4,"\x00\x00\x00\xbe"},{191,4,"\x00\x00\x00\xbf"},{192,4,"\x00\x00\x00\xc0"},{193,4,"\x00\x00\x00\xc1"},{194,4,"\x00\x00\x00\xc2"},{195,4,"\x00\x00\x00\xc3"},{196,4,"\x00\x00\x00\xc4"},{197,4,"\x00\x00\x00\xc5"},{198,4,"\x00\x00\x00\xc6"},{199,4,"\x00\x00\x00\xc7"},{200,4,"\x00\x00\x00\xc8"},{201,4,"\x00\x00\x00\xc9"},{202,4,"\x00\x00\x00\xca"},{203,4,"\x00\x00\x00\xcb"},{204,4,"\x00\x00\x00\xcc"},{205,4,"\x00\x00\x00\xcd"},{206,4,"\x00\x00\x00\xce"},{207,4,"\x00\x00\x00\xcf"},{208,4,"\x00\x00\x00\xd0"},{209,4,"\x00\x00\x00\xd1"},{210,4,"\x00\x00\x00\xd2"},{211,4,"\x00\x00\x00\xd3"},{212,4,"\x00\x00\x00\xd4"},{213,4,"\x00\x00\x00\xd5"},{214,4,"\x00\x00\x00\xd6"},{215,4,"\x00\x00\x00\xd7"},{216,4,"\x00\x00\x00\xd8"},{217,4,"\x00\x00\x00\xd9"},{218,4,"\x00\x00\x00\xda"},{219,4,"\x00\x00\x00\xdb"},{220,4,"\x00\x00\x00\xdc"},{221,4,"\x00\x00\x00\xdd"},{222,4,"\x00\x00\x00\xde"},{223,4,"\x00\x00\x00\xdf"},{224,4,"\x00\x00\x00\xe0"},{225,4,"\x00\x00\x00\xe1"},{226,4,"\x00\x00\x00\xe2"},{227,4,"\x00\x00\x00\xe3"},{228,4,"\x00\x00\x00\xe4"},{229,4,"\x00\x00\x00\xe5"},{230,4,"\x00\x00\x00\xe6"},{231,4,"\x00\x00\x00\xe7"},{232,4,"\x00\x00\x00\xe8"},{233,4,"\x00\x00\x00\xe9"},{234,4,"\x00\x00\x00\xea"},{235,4,"\x00\x00\x00\xeb"},{236,4,"\x00\x00\x00\xec"},{237,4,"\x00\x00\x00\xed"},{238,4,"\x00\x00\x00\xee"},{239,4,"\x00\x00\x00\xef"},{240,4,"\x00\x00\x00\xf0"},{241,4,"\x00\x00\x00\xf1"},{242,4,"\x00\x00\x00\xf2"},{243,4,"\x00\x00\x00\xf3"},{244,4,"\x00\x00\x00\xf4"},{245,4,"\x00\x00\x00\xf5"},{246,4,"\x00\x00\x00\xf6"},{247,4,"\x00\x00\x00\xf7"},{248,4,"\x00\x00\x00\xf8"},{249,4,"\x00\x00\x00\xf9"},{250,4,"\x00\x00\x00\xfa"},{251,4,"\x00\x00\x00\xfb"},{252,4,"\x00\x00\x00\xfc"},
{253,4,"\x00\x00\x00\xfd"},{254,4,"\x00\x00\x00\xfe"},{255,4,"\x00\x00\x00\xff"},{256,4,"\x00\x00\x01\x00"},{257,4,"\x00\x00\x01\x01"},{258,4,"\x00\x00\x01\x02"},{259,4,"\x00\x00\x01\x03"},{260,4,"\x00\x00\x01\x04"},{261,4,"\x00\x00\x01\x05"},{262,4,"\x00\x00\x01\x06"},{263,4,"\x00\x00\x01\x07"},{264,4,"\x00\x00\x01\x08"},{265,4,"\x00\x00\x01\x09"},{266,4,"\x00\x00\x01\x0a"},{267,4,"\x00\x00\x01\x0b"},{268,4,"\x00\x00\x01\x0c"},{269,4,"\x00\x00\x01\x0d"},{270,4,"\x00\x00\x01\x0e"},{271,4,"\x00\x00\x01\x0f"},{272,4,"\x00\x00\x01\x10"},{273,4,"\x00\x00\x01\x11"},{274,4,"\x00\x00\x01\x12"},{275,4,"\x00\x00\x01\x13"},{276,4,"\x00\x00\x01\x14"},{277,4,"\x00\x00\x01\x15"},{278,4,"\x00\x00\x01\x16"},{279,4,"\x00\x00\x01\x17"},{280,4,"\x00\x00\x01\x18"},{281,4,"\x00\x00\x01\x19"},{282,4,"\x00\x00\x01\x1a"},{283,4,"\x00\x00\x01\x1b"},{284,4,"\x00\x00\x01\x1c"},{285,4,"\x00\x00\x01\x1d"},{286,4,"\x00\x00\x01\x1e"},{287,4,"\x00\x00\x01\x1f"},{288,4,"\x00\x00\x01\x20"},{289,4,"\x00\x00\x01\x21"},{290,4,"\x00\x00\x01\x22"},{291,4,"\x00\x00\x01\x23"},{292,4,"\x00\x00\x01\x24"},{293,4,"\x00\x00\x01\x25"},{294,4,"\x00\x00\x01\x26"},{295,4,"\x00\x00\x01\x27"},{296,4,"\x00\x00\x01\x28"},{297,4,"\x00\x00\x01\x29"},{298,4,"\x00\x00\x01\x2a"},{299,4,"\x00\x00\x01\x2b"},{300,4,"\x00\x00\x01\x2c"},{301,4,"\x00\x00\x01\x2d"},{302,4,"\x00\x00\x01\x2e"},{303,4,"\x00\x00\x01\x2f"},{304,4,"\x00\x00\x01\x30"},{305,4,"\x00\x00\x01\x31"},{306,4,"\x00\x00\x01\x32"},{307,4,"\x00\x00\x01\x33"},{308,4,"\x00\x00\x01\x34"},{309,4,"\x00\x00\x01\x35"},{310,4,"\x00\x00\x01\x36"},{311,4,"\x00\x00\x01\x37"},{312,4,"\x00\x00\x01\x38"},{313,4,"\x00\x00\x01\x39"},{314,4,"\x00\x00\x01\x3a"},{315,4,"\x00\x00\x01\x3b"},{316,4,"\x00\x00\x01\x3c"},{317,4,"\x00\x00\x01\x3d"},{318,4,"\x00\x00\x01\x3e"},{319,4,"\x00\x00\x01\x3f"},{320,4,"\x00\x00\x01\x40"},{321,4,"\x00\x00\x01\x41"},{322,4,"\x00\x00\x01\x42"},{323,4,"\x00\x00\x01\x43"},{324,4,"\x00\x00\x01\x44"},{325,4,"\x00\x00\x01\x45"},{326,4,"\x00\x00\x01\x46"},{327,4,"\x00\x00\x01\x47"},{328,4,"\x00\x00\x01\x48"},{329,4,"\x00\x00\x01\x49"},{330,4,"\x00\x00\x01\x4a"},{331,4,"\x00\x00\x01\x4b"},{332,4,"\x00\x00\x01\x4c"},{333,4,"\x00\x00\x01\x4d"},{334,4,"\x00\x00\x01\x4e"},{335,4,"\x00\x00\x01\x4f"},{336,4,"\x00\x00\x01\x50"},{337,4,"\x00\x00\x01\x51"},{338,4,"\x00\x00\x01\x52"},{339,4,"\x00\x00\x01\x53"},{340,4,"\x00\x00\x01\x54"},{341,4,"\x00\x00\x01\x55"},{342,4,"\x00\x00\x01\x56"},{343,4,"\x00\x00\x01\x57"},{344,4,"\x00\x00\x01\x58"},{345,4,"\x00\x00\x01\x59"},{346,4,"\x00\x00\x01\x5a"},{347,4,"\x00\x00\x01\x5b"},{348,4,"\x00\x00\x01\x5c"},{349,4,"\x00\x00\x01\x5d"},{350,4,"\x00\x00\x01\x5e"},{351,4,"\x00\x00\x01\x5f"},{352,4,"\x00\x00\x01\x60"},{353,4,"\x00\x00\x01\x61"},{354,4,"\x00\x00\x01\x62"},{355,4,"\x00\x00\x01\x63"},{356,4,"\x00\x00\x01\x64"},{357,4,"\x00\x00\x01\x65"},{358,4,"\x00\x00\x01\x66"},{359,4,"\x00\x00\x01\x67"},{360,4,"\x00\x00\x01\x68"},{361,4,"\x00\x00\x01\x69"},{362,4,"\x00\x00\x01\x6a"},{363,4,"\x00\x00\x01\x6b"},{364,4,"\x00\x00\x01\x6c"},
{365,4,"\x00\x00\x01\x6d"},{366,4,"\x00\x00\x01\x6e"},{367,4,"\x00\x00\x01\x6f"},{368,4,"\x00\x00\x01\x70"},{369,4,"\x00\x00\x01\x71"},{370,4,"\x00\x00\x01\x72"},{371,4,"\x00\x00\x01\x73"},{372,4,"\x00\x00\x01\x74"},{373,4,"\x00\x00\x01\x75"},{374,4,"\x00\x00\x01\x76"},{375,4,"\x00\x00\x01\x77"},{376,4,"\x00\x00\x01\x78"},{377,4,"\x00\x00\x01\x79"},{378,4,"\x00\x00\x01\x7a"},{379,4,"\x00\x00\x01\x7b"},{380,4,"\x00\x00\x01\x7c"},{381,4,"\x00\x00\x01\x7d"},{382,4,"\x00\x00\x01\x7e"},{383,4,"\x00\x00\x01\x7f"},{127,4,"\x00\x00\x00\x7f"},{1,4,"\x00\x00\x00\x01"},{4,4,"\x00\x00\x00\x04"},{27,4,"\x00\x00\x00\x1b"},{26,4,"\x00\x00\x00\x1a"},{12,4,"\x00\x00\x00\x0c"},{900,4,"\x00\x00\x03\x84"},{901,4,"\x00\x00\x03\x85"},{902,4,"\x00\x00\x03\x86"},{903,4,"\x00\x00\x03\x87"},{904,4,"\x00\x00\x03\x88"},{905,4,"\x00\x00\x03\x89"},{906,4,"\x00\x00\x03\x8a"},{907,4,"\x00\x00\x03\x8b"},{908,4,"\x00\x00\x03\x8c"},{909,4,"\x00\x00\x03\x8d"},{910,4,"\x00\x00\x03\x8e"},{911,4,"\x00\x00\x03\x8f"},{912,4,"\x00\x00\x03\x90"},{913,4,"\x00\x00\x03\x91"},{914,4,"\x00\x00\x03\x92"},{915,4,"\x00\x00\x03\x93"},{916,4,"\x00\x00\x03\x94"},{917,4,"\x00\x00\x03\x95"},{918,4,"\x00\x00\x03\x96"},{919,4,"\x00\x00\x03\x97"},{920,4,"\x00\x00\x03\x98"},{921,4,"\x00\x00\x03\x99"},{922,4,"\x00\x00\x03\x9a"},{923,4,"\x00\x00\x03\x9b"},{924,4,"\x00\x00\x03\x9c"},{925,4,"\x00\x00\x03\x9d"},{926,4,"\x00\x00\x03\x9e"},{927,4,"\x00\x00\x03\x9f"},{928,4,"\x00\x00\x03\xa0"},{929,4,"\x00\x00\x03\xa1"},{930,4,"\x00\x00\x03\xa2"},{931,4,"\x00\x00\x03\xa3"},{932,4,"\x00\x00\x03\xa4"},{933,4,"\x00\x00\x03\xa5"},{934,4,"\x00\x00\x03\xa6"},{935,4,"\x00\x00\x03\xa7"},{936,4,"\x00\x00\x03\xa8"},{937,4,"\x00\x00\x03\xa9"},{938,4,"\x00\x00\x03\xaa"},{939,4,"\x00\x00\x03\xab"},{940,4,"\x00\x00\x03\xac"},{941,4,"\x00\x00\x03\xad"},{942,4,"\x00\x00\x03\xae"},{943,4,"\x00\x00\x03\xaf"},{944,4,"\x00\x00\x03\xb0"},{945,4,"\x00\x00\x03\xb1"},{946,4,"\x00\x00\x03\xb2"},{947,4,"\x00\x00\x03\xb3"},{948,4,"\x00\x00\x03\xb4"},{949,4,"\x00\x00\x03\xb5"},{950,4,"\x00\x00\x03\xb6"},{951,4,"\x00\x00\x03\xb7"},{952,4,"\x00\x00\x03\xb8"},{953,4,"\x00\x00\x03\xb9"},{954,4,"\x00\x00\x03\xba"},{955,4,"\x00\x00\x03\xbb"},{956,4,"\x00\x00\x03\xbc"},{957,4,"\x00\x00\x03\xbd"},{958,4,"\x00\x00\x03\xbe"},{959,4,"\x00\x00\x03\xbf"},{960,4,"\x00\x00\x03\xc0"},{961,4,"\x00\x00\x03\xc1"},{962,4,"\x00\x00\x03\xc2"},{963,4,"\x00\x00\x03\xc3"},{964,4,"\x00\x00\x03\xc4"},{965,4,"\x00\x00\x03\xc5"},{966,4,"\x00\x00\x03\xc6"},{967,4,"\x00\x00\x03\xc7"},{968,4,"\x00\x00\x03\xc8"},{969,4,"\x00\x00\x03\xc9"},{970,4,"\x00\x00\x03\xca"},{971,4,"\x00\x00\x03\xcb"},{972,4,"\x00\x00\x03\xcc"},{973,4,"\x00\x00\x03\xcd"},{974,4,"\x00\x00\x03\xce"},{1025,4,"\x00\x00\x04\x01"},{1026,4,"\x00\x00\x04\x02"},{1027,4,"\x00\x00\x04\x03"},{1028,4,"\x00\x00\x04\x04"},{1029,4,"\x00\x00\x04\x05"},{1030,4,"\x00\x00\x04\x06"},{1031,4,"\x00\x00\x04\x07"},{1032,4,"\x00\x00\x04\x08"},{1033,4,"\x00\x00\x04\x09"},{1034,4,"\x00\x00\x04\x0a"},{1035,4,"\x00\x00\x04\x0b"},
{1036,4,"\x00\x00\x04\x0c"},{1037,4,"\x00\x00\x04\x0d"},{1038,4,"\x00\x00\x04\x0e"},{1039,4,"\x00\x00\x04\x0f"},{1040,4,"\x00\x00\x04\x10"},{1041,4,"\x00\x00\x04\x11"},{1042,4,"\x00\x00\x04\x12"},{1043,4,"\x00\x00\x04\x13"},{1044,4,"\x00\x00\x04\x14"},{1045,4,"\x00\x00\x04\x15"},{1046,4,"\x00\x00\x04\x16"},{1047,4,"\x00\x00\x04\x17"},{1048,4,"\x00\x00\x04\x18"},{1049,4,"\x00\x00\x04\x19"},{1050,4,"\x00\x00\x04\x1a"},{1051,4,"\x00\x00\x04\x1b"},{1052,4,"\x00\x00\x04\x1c"},{1053,4,"\x00\x00\x04\x1d"},{1054,4,"\x00\x00\x04\x1e"},{1055,4,"\x00\x00\x04\x1f"},{1056,4,"\x00\x00\x04\x20"},{1057,4,"\x00\x00\x04\x21"},{1058,4,"\x00\x00\x04\x22"},{1059,4,"\x00\x00\x04\x23"},{1060,4,"\x00\x00\x04\x24"},{1061,4,"\x00\x00\x04\x25"},{1062,4,"\x00\x00\x04\x26"},{1063,4,"\x00\x00\x04\x27"},{1064,4,"\x00\x00\x04\x28"},{1065,4,"\x00\x00\x04\x29"},{1066,4,"\x00\x00\x04\x2a"},{1067,4,"\x00\x00\x04\x2b"},{1068,4,"\x00\x00\x04\x2c"},{1069,4,"\x00\x00\x04\x2d"},{1070,4,"\x00\x00\x04\x2e"},{1071,4,"\x00\x00\x04\x2f"},{1072,4,"\x00\x00\x04\x30"},{1073,4,"\x00\x00\x04\x31"},{1074,4,"\x00\x00\x04\x32"},{1075,4,"\x00\x00\x04\x33"},{1076,4,"\x00\x00\x04\x34"},{1077,4,"\x00\x00\x04\x35"},{1078,4,"\x00\x00\x04\x36"},{1079,4,"\x00\x00\x04\x37"},{1080,4,"\x00\x00\x04\x38"},{1081,4,"\x00\x00\x04\x39"},{1082,4,"\x00\x00\x04\x3a"},{1083,4,"\x00\x00\x04\x3b"},{1084,4,"\x00\x00\x04\x3c"},{1085,4,"\x00\x00\x04\x3d"},{1086,4,"\x00\x00\x04\x3e"},{1087,4,"\x00\x00\x04\x3f"},{1088,4,"\x00\x00\x04\x40"},{1089,4,"\x00\x00\x04\x41"},{1090,4,"\x00\x00\x04\x42"},{1091,4,"\x00\x00\x04\x43"},{1092,4,"\x00\x00\x04\x44"},{1093,4,"\x00\x00\x04\x45"},{1094,4,"\x00\x00\x04\x46"},{1095,4,"\x00\x00\x04\x47"},{1096,4,"\x00\x00\x04\x48"},{1097,4,"\x00\x00\x04\x49"},{1098,4,"\x00\x00\x04\x4a"},{1099,4,"\x00\x00\x04\x4b"},{1100,4,"\x00\x00\x04\x4c"},{1101,4,"\x00\x00\x04\x4d"},{1102,4,"\x00\x00\x04\x4e"},{1103,4,"\x00\x00\x04\x4f"},{1104,4,"\x00\x00\x04\x50"},{1105,4,"\x00\x00\x04\x51"},{1106,4,"\x00\x00\x04\x52"},{1107,4,"\x00\x00\x04\x53"},{1108,4,"\x00\x00\x04\x54"},{1109,4,"\x00\x00\x04\x55"},{1110,4,"\x00\x00\x04\x56"},{1111,4,"\x00\x00\x04\x57"},{1112,4,"\x00\x00\x04\x58"},{1113,4,"\x00\x00\x04\x59"},{1114,4,"\x00\x00\x04\x5a"},{1115,4,"\x00\x00\x04\x5b"},{1116,4,"\x00\x00\x04\x5c"},{1117,4,"\x00\x00\x04\x5d"},{1118,4,"\x00\x00\x04\x5e"},{8211,4,"\x00\x00\x20\x13"},{8212,4,"\x00\x00\x20\x14"},{8216,4,"\x00\x00\x20\x18"},{8217,4,"\x00\x00\x20\x19"},{8220,4,"\x00\x00\x20\x1c"},{8221,4,"\x00\x00\x20\x1d"},{8222,4,"\x00\x00\x20\x1e"},{8224,4,"\x00\x00\x20\x20"},{8225,4,"\x00\x00\x20\x21"},{8226,4,"\x00\x00\x20\x22"},{8230,4,"\x00\x00\x20\x26"},{8240,4,"\x00\x00\x20\x30"},{8249,4,"\x00\x00\x20\x39"},{8250,4,"\x00\x00\x20\x3a"},{8364,4,"\x00\x00\x20\xac"},{8482,4,"\x00\x00\x21\x22"},{1488,4,"\x00\x00\x05\xd0"},{1489,4,"\x00\x00\x05\xd1"},{1490,4,"\x00\x00\x05\xd2"},{1491,4,"\x00\x00\x05\xd3"},{1492,4,"\x00\x00\x05\xd4"},{1493,4,"\x00\x00\x05\xd5"},{1494,4,"\x00\x00\x05\xd6"},{1495,4,"\x00\x00\x05\xd7"},{1496,4,"\x00\x00\x05\xd8"},
{1497,4,"\x00\x00\x05\xd9"},{1498,4,"\x00\x00\x05\xda"},{1499,4,"\x00\x00\x05\xdb"},{1500,4,"\x00\x00\x05\xdc"},{1501,4,"\x00\x00\x05\xdd"},{1502,4,"\x00\x00\x05\xde"},{1503,4,"\x00\x00\x05\xdf"},{1504,4,"\x00\x00\x05\xe0"},{1505,4,"\x00\x00\x05\xe1"},{1506,4,"\x00\x00\x05\xe2"},{1507,4,"\x00\x00\x05\xe3"},{1508,4,"\x00\x00\x05\xe4"},{1509,4,"\x00\x00\x05\xe5"},{1510,4,"\x00\x00\x05\xe6"},{1511,4,"\x00\x00\x05\xe7"},{1512,4,"\x00\x00\x05\xe8"},{1513,4,"\x00\x00\x05\xe9"},{1514,4,"\x00\x00\x05\xea"},{3585,4,"\x00\x00\x0e\x01"},{3586,4,"\x00\x00\x0e\x02"},{3587,4,"\x00\x00\x0e\x03"},{3588,4,"\x00\x00\x0e\x04"},{3589,4,"\x00\x00\x0e\x05"},{3590,4,"\x00\x00\x0e\x06"},{3591,4,"\x00\x00\x0e\x07"},{3592,4,"\x00\x00\x0e\x08"},{3593,4,"\x00\x00\x0e\x09"},{3594,4,"\x00\x00\x0e\x0a"},{3595,4,"\x00\x00\x0e\x0b"},{3596,4,"\x00\x00\x0e\x0c"},{3597,4,"\x00\x00\x0e\x0d"},{3598,4,"\x00\x00\x0e\x0e"},{3599,4,"\x00\x00\x0e\x0f"},{3600,4,"\x00\x00\x0e\x10"},{3601,4,"\x00\x00\x0e\x11"},{3602,4,"\x00\x00\x0e\x12"},{3603,4,"\x00\x00\x0e\x13"},{3604,4,"\x00\x00\x0e\x14"},{3605,4,"\x00\x00\x0e\x15"},{3606,4,"\x00\x00\x0e\x16"},{3607,4,"\x00\x00\x0e\x17"},{3608,4,"\x00\x00\x0e\x18"},{3609,4,"\x00\x00\x0e\x19"},{3610,4,"\x00\x00\x0e\x1a"},{3611,4,"\x00\x00\x0e\x1b"},{3612,4,"\x00\x00\x0e\x1c"},{3613,4,"\x00\x00\x0e\x1d"},{3614,4,"\x00\x00\x0e\x1e"},{3615,4,"\x00\x00\x0e\x1f"},{3616,4,"\x00\x00\x0e\x20"},{3617,4,"\x00\x00\x0e\x21"},{3618,4,"\x00\x00\x0e\x22"},{3619,4,"\x00\x00\x0e\x23"},{3620,4,"\x00\x00\x0e\x24"},{3621,4,"\x00\x00\x0e\x25"},{3622,4,"\x00\x00\x0e\x26"},{3623,4,"\x00\x00\x0e\x27"},{3624,4,"\x00\x00\x0e\x28"},{3625,4,"\x00\x00\x0e\x29"},{3626,4,"\x00\x00\x0e\x2a"},{3627,4,"\x00\x00\x0e\x2b"},{3628,4,"\x00\x00\x0e\x2c"},{3629,4,"\x00\x00\x0e\x2d"},{3630,4,"\x00\x00\x0e\x2e"},{12353,4,"\x00\x00\x30\x41"},{12354,4,"\x00\x00\x30\x42"},{12355,4,"\x00\x00\x30\x43"},{12356,4,"\x00\x00\x30\x44"},{12357,4,"\x00\x00\x30\x45"},{12358,4,"\x00\x00\x30\x46"},{12359,4,"\x00\x00\x30\x47"},{12360,4,"\x00\x00\x30\x48"},{12361,4,"\x00\x00\x30\x49"},{12362,4,"\x00\x00\x30\x4a"},{12363,4,"\x00\x00\x30\x4b"},{12364,4,"\x00\x00\x30\x4c"},{12365,4,"\x00\x00\x30\x4d"},{12366,4,"\x00\x00\x30\x4e"},{12367,4,"\x00\x00\x30\x4f"},{12368,4,"\x00\x00\x30\x50"},{12369,4,"\x00\x00\x30\x51"},{12370,4,"\x00\x00\x30\x52"},{12371,4,"\x00\x00\x30\x53"},{12372,4,"\x00\x00\x30\x54"},{12373,4,"\x00\x00\x30\x55"},{12374,4,"\x00\x00\x30\x56"},{12375,4,"\x00\x00\x30\x57"},{12376,4,"\x00\x00\x30\x58"},{12377,4,"\x00\x00\x30\x59"},{12378,4,"\x00\x00\x30\x5a"},{12379,4,"\x00\x00\x30\x5b"},{12380,4,"\x00\x00\x30\x5c"},{12381,4,"\x00\x00\x30\x5d"},{12382,4,"\x00\x00\x30\x5e"},{12383,4,"\x00\x00\x30\x5f"},{12384,4,"\x00\x00\x30\x60"},{12385,4,"\x00\x00\x30\x61"},{12386,4,"\x00\x00\x30\x62"},{12387,4,"\x00\x00\x30\x63"},{12388,4,"\x00\x00\x30\x64"},{12389,4,"\x00\x00\x30\x65"},{12390,4,"\x00\x00\x30\x66"},{12391,4,"\x00\x00\x30\x67"},{12392,4,"\x00\x00\x30\x68"},{12393,4,"\x00\x00\x30\x69"},{12394,4,"\x00\x00\x30\x6a"},
{12395,4,"\x00\x00\x30\x6b"},{12396,4,"\x00\x00\x30\x6c"},{12397,4,"\x00\x00\x30\x6d"},{12398,4,"\x00\x00\x30\x6e"},{12399,4,"\x00\x00\x30\x6f"},{12400,4,"\x00\x00\x30\x70"},{12401,4,"\x00\x00\x30\x71"},{12402,4,"\x00\x00\x30\x72"},{12403,4,"\x00\x00\x30\x73"},{12404,4,"\x00\x00\x30\x74"},{12405,4,"\x00\x00\x30\x75"},{12406,4,"\x00\x00\x30\x76"},{12407,4,"\x00\x00\x30\x77"},{12408,4,"\x00\x00\x30\x78"},{12409,4,"\x00\x00\x30\x79"},{12410,4,"\x00\x00\x30\x7a"},{12411,4,"\x00\x00\x30\x7b"},{12412,4,"\x00\x00\x30\x7c"},{12413,4,"\x00\x00\x30\x7d"},{12414,4,"\x00\x00\x30\x7e"},{12415,4,"\x00\x00\x30\x7f"},{12416,4,"\x00\x00\x30\x80"},{12417,4,"\x00\x00\x30\x81"},{12418,4,"\x00\x00\x30\x82"},{12419,4,"\x00\x00\x30\x83"},{12420,4,"\x00\x00\x30\x84"},{12421,4,"\x00\x00\x30\x85"},{12422,4,"\x00\x00\x30\x86"},{12423,4,"\x00\x00\x30\x87"},{12424,4,"\x00\x00\x30\x88"},{12425,4,"\x00\x00\x30\x89"},{12426,4,"\x00\x00\x30\x8a"},{12427,4,"\x00\x00\x30\x8b"},{12428,4,"\x00\x00\x30\x8c"},{12429,4,"\x00\x00\x30\x8d"},{12430,4,"\x00\x00\x30\x8e"},{12431,4,"\x00\x00\x30\x8f"},{12432,4,"\x00\x00\x30\x90"},{12433,4,"\x00\x00\x30\x91"},{12434,4,"\x00\x00\x30\x92"},{12435,4,"\x00\x00\x30\x93"},{12449,4,"\x00\x00\x30\xa1"},{12450,4,"\x00\x00\x30\xa2"},{12451,4,"\x00\x00\x30\xa3"},{12452,4,"\x00\x00\x30\xa4"},{12453,4,"\x00\x00\x30\xa5"},{12454,4,"\x00\x00\x30\xa6"},{12455,4,"\x00\x00\x30\xa7"},{12456,4,"\x00\x00\x30\xa8"},{12457,4,"\x00\x00\x30\xa9"},{12458,4,"\x00\x00\x30\xaa"},{12459,4,"\x00\x00\x30\xab"},{12460,4,"\x00\x00\x30\xac"},{12461,4,"\x00\x00\x30\xad"},{12462,4,"\x00\x00\x30\xae"},{12463,4,"\x00\x00\x30\xaf"},{12464,4,"\x00\x00\x30\xb0"},{12465,4,"\x00\x00\x30\xb1"},{12466,4,"\x00\x00\x30\xb2"},{12467,4,"\x00\x00\x30\xb3"},{12468,4,"\x00\x00\x30\xb4"},{12469,4,"\x00\x00\x30\xb5"},{12470,4,"\x00\x00\x30\xb6"},{12471,4,"\x00\x00\x30\xb7"},{12472,4,"\x00\x00\x30\xb8"},{12473,4,"\x00\x00\x30\xb9"},{12474,4,"\x00\x00\x30\xba"},{12475,4,"\x00\x00\x30\xbb"},{12476,4,"\x00\x00\x30\xbc"},{12477,4,"\x00\x00\x30\xbd"},{12478,4,"\x00\x00\x30\xbe"},{12479,4,"\x00\x00\x30\xbf"},{12480,4,"\x00\x00\x30\xc0"},{12481,4,"\x00\x00\x30\xc1"},{12482,4,"\x00\x00\x30\xc2"},{12483,4,"\x00\x00\x30\xc3"},{12484,4,"\x00\x00\x30\xc4"},{12485,4,"\x00\x00\x30\xc5"},{12486,4,"\x00\x00\x30\xc6"},{12487,4,"\x00\x00\x30\xc7"},{12488,4,"\x00\x00\x30\xc8"},{12489,4,"\x00\x00\x30\xc9"},{12490,4,"\x00\x00\x30\xca"},{12491,4,"\x00\x00\x30\xcb"},{12492,4,"\x00\x00\x30\xcc"},{12493,4,"\x00\x00\x30\xcd"},{12494,4,"\x00\x00\x30\xce"},{12495,4,"\x00\x00\x30\xcf"},{12496,4,"\x00\x00\x30\xd0"},{12497,4,"\x00\x00\x30\xd1"},{12498,4,"\x00\x00\x30\xd2"},{12499,4,"\x00\x00\x30\xd3"},{12500,4,"\x00\x00\x30\xd4"},{12501,4,"\x00\x00\x30\xd5"},{12502,4,"\x00\x00\x30\xd6"},{12503,4,"\x00\x00\x30\xd7"},{12504,4,"\x00\x00\x30\xd8"},{12505,4,"\x00\x00\x30\xd9"},{12506,4,"\x00\x00\x30\xda"},{12507,4,"\x00\x00\x30\xdb"},{12508,4,"\x00\x00\x30\xdc"},{12509,4,"\x00\x00\x30\xdd"},{12510,4,"\x00\x00\x30\xde"},{12511,4,"\x00\x00\x30\xdf"},
{12512,4,"\x00\x00\x30\xe0"},{12513,4,"\x00\x00\x30\xe1"},{12514,4,"\x00\x00\x30\xe2"},{12515,4,"\x00\x00\x30\xe3"},{12516,4,"\x00\x00\x30\xe4"},{12517,4,"\x00\x00\x30\xe5"},{12518,4,"\x00\x00\x30\xe6"},{12519,4,"\x00\x00\x30\xe7"},{12520,4,"\x00\x00\x30\xe8"},{12521,4,"\x00\x00\x30\xe9"},{12522,4,"\x00\x00\x30\xea"},{12523,4,"\x00\x00\x30\xeb"},{12524,4,"\x00\x00\x30\xec"},{12525,4,"\x00\x00\x30\xed"},{12526,4,"\x00\x00\x30\xee"},{12527,4,"\x00\x00\x30\xef"},{12528,4,"\x00\x00\x30\xf0"},{12529,4,"\x00\x00\x30\xf1"},{12530,4,"\x00\x00\x30\xf2"},{12531,4,"\x00\x00\x30\xf3"},{12532,4,"\x00\x00\x30\xf4"},{12533,4,"\x00\x00\x30\xf5"},{12534,4,"\x00\x00\x30\xf6"},{12289,4,"\x00\x00\x30\x01"},{12290,4,"\x00\x00\x30\x02"},{12300,4,"\x00\x00\x30\x0c"},{12301,4,"\x00\x00\x30\x0d"},{26085,4,"\x00\x00\x65\xe5"},{26412,4,"\x00\x00\x67\x2c"},{35486,4,"\x00\x00\x8a\x9e"},{28450,4,"\x00\x00\x6f\x22"},{23383,4,"\x00\x00\x5b\x57"},{20013,4,"\x00\x00\x4e\x2d"},{25991,4,"\x00\x00\x65\x87"},{22283,4,"\x00\x00\x57\x0b"},{22269,4,"\x00\x00\x56\xfd"},{35821,4,"\x00\x00\x8b\xed"},{31616,4,"\x00\x00\x7b\x80"},{39636,4,"\x00\x00\x9a\xd4"},{20307,4,"\x00\x00\x4f\x53"},{32321,4,"\x00\x00\x7e\x41"},{21488,4,"\x00\x00\x53\xf0"},{28771,4,"\x00\x00\x70\x63"},{28286,4,"\x00\x00\x6e\x7e"},{39321,4,"\x00\x00\x99\x99"},{28207,4,"\x00\x00\x6e\x2f"},{32763,4,"\x00\x00\x7f\xfb"},{35695,4,"\x00\x00\x8b\x6f"},{35793,4,"\x00\x00\x8b\xd1"},{36938,4,"\x00\x00\x90\x4a"},{28216,4,"\x00\x00\x6e\x38"},{25103,4,"\x00\x00\x62\x0f"},{25138,4,"\x00\x00\x62\x32"},{38283,4,"\x00\x00\x95\x8b"},{24320,4,"\x00\x00\x5f\x00"},{22987,4,"\x00\x00\x59\xcb"},{26032,4,"\x00\x00\x65\xb0"},{38306,4,"\x00\x00\x95\xa2"},{38364,4,"\x00\x00\x95\xdc"},{35373,4,"\x00\x00\x8a\x2d"},{32622,4,"\x00\x00\x7f\x6e"},{23450,4,"\x00\x00\x5b\x9a"},{35328,4,"\x00\x00\x8a\x00"},{21517,4,"\x00\x00\x54\x0d"},{21069,4,"\x00\x00\x52\x4d"},{20445,4,"\x00\x00\x4f\xdd"},{23384,4,"\x00\x00\x5b\x58"},{21151,4,"\x00\x00\x52\x9f"},{35377,4,"\x00\x00\x8a\x31"},{33995,4,"\x00\x00\x84\xcb"},{20040,4,"\x00\x00\x4e\x48"},{32946,4,"\x00\x00\x80\xb2"},{21522,4,"\x00\x00\x54\x12"},{21549,4,"\x00\x00\x54\x2d"},{23049,4,"\x00\x00\x5a\x09"},{35961,4,"\x00\x00\x8c\x79"},{29854,4,"\x00\x00\x74\x9e"},{25850,4,"\x00\x00\x64\xfa"},{39184,4,"\x00\x00\x99\x10"},{39631,4,"\x00\x00\x9a\xcf"},{29749,4,"\x00\x00\x74\x35"},{26543,4,"\x00\x00\x67\xaf"},{27519,4,"\x00\x00\x6b\x7f"},{19968,4,"\x00\x00\x4e\x00"},{20108,4,"\x00\x00\x4e\x8c"},{19977,4,"\x00\x00\x4e\x09"},{22235,4,"\x00\x00\x56\xdb"},{20116,4,"\x00\x00\x4e\x94"},{20845,4,"\x00\x00\x51\x6d"},{19971,4,"\x00\x00\x4e\x03"},{20843,4,"\x00\x00\x51\x6b"},{20061,4,"\x00\x00\x4e\x5d"},{21313,4,"\x00\x00\x53\x41"},{44032,4,"\x00\x00\xac\x00"},{44033,4,"\x00\x00\xac\x01"},{44034,4,"\x00\x00\xac\x02"},{44035,4,"\x00\x00\xac\x03"},{44036,4,"\x00\x00\xac\x04"},{44037,4,"\x00\x00\xac\x05"},{44038,4,"\x00\x00\xac\x06"},{44039,4,"\x00\x00\xac\x07"},{44040,4,"\x00\x00\xac\x08"},{44041,4,"\x00\x00\xac\x09"},{44042,4,"\x00\x00\xac\x0a"},
{44043,4,"\x00\x00\xac\x0b"},{44044,4,"\x00\x00\xac\x0c"},{44045,4,"\x00\x00\xac\x0d"},{44046,4,"\x00\x00\xac\x0e"},{44047,4,"\x00\x00\xac\x0f"},{44048,4,"\x00\x00\xac\x10"},{44049,4,"\x00\x00\xac\x11"},{44050,4,"\x00\x00\xac\x12"},{44051,4,"\x00\x00\xac\x13"},{44052,4,"\x00\x00\xac\x14"},{44053,4,"\x00\x00\xac\x15"},{44054,4,"\x00\x00\xac\x16"},{44055,4,"\x00\x00\xac\x17"},{44056,4,"\x00\x00\xac\x18"},{44057,4,"\x00\x00\xac\x19"},{44058,4,"\x00\x00\xac\x1a"},{44059,4,"\x00\x00\xac\x1b"},{44060,4,"\x00\x00\xac\x1c"},{44061,4,"\x00\x00\xac\x1d"},{44062,4,"\x00\x00\xac\x1e"},{44063,4,"\x00\x00\xac\x1f"},{54620,4,"\x00\x00\xd5\x5c"},{44397,4,"\x00\x00\xad\x6d"},{50612,4,"\x00\x00\xc5\xb4"},{44172,4,"\x00\x00\xac\x8c"},{51076,4,"\x00\x00\xc7\x84"},{49884,4,"\x00\x00\xc2\xdc"},{51089,4,"\x00\x00\xc7\x91"},{49444,4,"\x00\x00\xc1\x24"},{51221,4,"\x00\x00\xc8\x15"},{51200,4,"\x00\x00\xc8\x00"},{51109,4,"\x00\x00\xc7\xa5"},{1569,4,"\x00\x00\x06\x21"},{1570,4,"\x00\x00\x06\x22"},{1571,4,"\x00\x00\x06\x23"},{1572,4,"\x00\x00\x06\x24"},{1573,4,"\x00\x00\x06\x25"},{1574,4,"\x00\x00\x06\x26"},{1575,4,"\x00\x00\x06\x27"},{1576,4,"\x00\x00\x06\x28"},{1577,4,"\x00\x00\x06\x29"},{1578,4,"\x00\x00\x06\x2a"},{1579,4,"\x00\x00\x06\x2b"},{1580,4,"\x00\x00\x06\x2c"},{1581,4,"\x00\x00\x06\x2d"},{1582,4,"\x00\x00\x06\x2e"},{1583,4,"\x00\x00\x06\x2f"},{1584,4,"\x00\x00\x06\x30"},{1585,4,"\x00\x00\x06\x31"},{1586,4,"\x00\x00\x06\x32"},{1587,4,"\x00\x00\x06\x33"},{1588,4,"\x00\x00\x06\x34"},{1589,4,"\x00\x00\x06\x35"},{1590,4,"\x00\x00\x06\x36"},{1591,4,"\x00\x00\x06\x37"},{1592,4,"\x00\x00\x06\x38"},{1593,4,"\x00\x00\x06\x39"},{1594,4,"\x00\x00\x06\x3a"},{1600,4,"\x00\x00\x06\x40"},{1601,4,"\x00\x00\x06\x41"},{1602,4,"\x00\x00\x06\x42"},{1603,4,"\x00\x00\x06\x43"},{1604,4,"\x00\x00\x06\x44"},{1605,4,"\x00\x00\x06\x45"},{1606,4,"\x00\x00\x06\x46"},{1607,4,"\x00\x00\x06\x47"},{1608,4,"\x00\x00\x06\x48"},{1609,4,"\x00\x00\x06\x49"},{1610,4,"\x00\x00\x06\x4a"},{1168,4,"\x00\x00\x04\x90"},{1169,4,"\x00\x00\x04\x91"},{1170,4,"\x00\x00\x04\x92"},{1171,4,"\x00\x00\x04\x93"},{1172,4,"\x00\x00\x04\x94"},{1173,4,"\x00\x00\x04\x95"},{1174,4,"\x00\x00\x04\x96"},{1175,4,"\x00\x00\x04\x97"},{1176,4,"\x00\x00\x04\x98"},{1177,4,"\x00\x00\x04\x99"},{1178,4,"\x00\x00\x04\x9a"},{1179,4,"\x00\x00\x04\x9b"},{1180,4,"\x00\x00\x04\x9c"},{1181,4,"\x00\x00\x04\x9d"},{1182,4,"\x00\x00\x04\x9e"},{1183,4,"\x00\x00\x04\x9f"},{1184,4,"\x00\x00\x04\xa0"},{1185,4,"\x00\x00\x04\xa1"},{1186,4,"\x00\x00\x04\xa2"},{1187,4,"\x00\x00\x04\xa3"},{1188,4,"\x00\x00\x04\xa4"},{1189,4,"\x00\x00\x04\xa5"},{1190,4,"\x00\x00\x04\xa6"},{1191,4,"\x00\x00\x04\xa7"},{1192,4,"\x00\x00\x04\xa8"},{1193,4,"\x00\x00\x04\xa9"},{1194,4,"\x00\x00\x04\xaa"},{1195,4,"\x00\x00\x04\xab"},{1196,4,"\x00\x00\x04\xac"},{1197,4,"\x00\x00\x04\xad"},{1198,4,"\x00\x00\x04\xae"},{1199,4,"\x00\x00\x04\xaf"},{7840,4,"\x00\x00\x1e\xa0"},{7841,4,"\x00\x00\x1e\xa1"},{7842,4,"\x00\x00\x1e\xa2"},{7843,4,"\x00\x00\x1e\xa3"},{7844,4,"\x00\x00\x1e\xa4"},{7845,4,"\x00\x00\x1e\xa5"},
{7846,4,"\x00\x00\x1e\xa6"},{7847,4,"\x00\x00\x1e\xa7"},{7848,4,"\x00\x00\x1e\xa8"},{7849,4,"\x00\x00\x1e\xa9"},{7850,4,"\x00\x00\x1e\xaa"},{7851,4,"\x00\x00\x1e\xab"},{7852,4,"\x00\x00\x1e\xac"},{7853,4,"\x00\x00\x1e\xad"},{7854,4,"\x00\x00\x1e\xae"},{7855,4,"\x00\x00\x1e\xaf"},{7856,4,"\x00\x00\x1e\xb0"},{7857,4,"\x00\x00\x1e\xb1"},{7858,4,"\x00\x00\x1e\xb2"},{7859,4,"\x00\x00\x1e\xb3"},{7860,4,"\x00\x00\x1e\xb4"},{7861,4,"\x00\x00\x1e\xb5"},{7862,4,"\x00\x00\x1e\xb6"},{7863,4,"\x00\x00\x1e\xb7"},{7864,4,"\x00\x00\x1e\xb8"},{7865,4,"\x00\x00\x1e\xb9"},{7866,4,"\x00\x00\x1e\xba"},{7867,4,"\x00\x00\x1e\xbb"},{7868,4,"\x00\x00\x1e\xbc"},{7869,4,"\x00\x00\x1e\xbd"},{7870,4,"\x00\x00\x1e\xbe"},{7871,4,"\x00\x00\x1e\xbf"},{9472,4,"\x00\x00\x25\x00"},{9473,4,"\x00\x00\x25\x01"},{9474,4,"\x00\x00\x25\x02"},{9475,4,"\x00\x00\x25\x03"},{9476,4,"\x00\x00\x25\x04"},{9477,4,"\x00\x00\x25\x05"},{9478,4,"\x00\x00\x25\x06"},{9479,4,"\x00\x00\x25\x07"},{9480,4,"\x00\x00\x25\x08"},{9481,4,"\x00\x00\x25\x09"},{9482,4,"\x00\x00\x25\x0a"},{9483,4,"\x00\x00\x25\x0b"},{9484,4,"\x00\x00\x25\x0c"},{9485,4,"\x00\x00\x25\x0d"},{9486,4,"\x00\x00\x25\x0e"},{9487,4,"\x00\x00\x25\x0f"},{9488,4,"\x00\x00\x25\x10"},{9489,4,"\x00\x00\x25\x11"},{9490,4,"\x00\x00\x25\x12"},{9491,4,"\x00\x00\x25\x13"},{9492,4,"\x00\x00\x25\x14"},{9493,4,"\x00\x00\x25\x15"},{9494,4,"\x00\x00\x25\x16"},{9495,4,"\x00\x00\x25\x17"},{9496,4,"\x00\x00\x25\x18"},{9497,4,"\x00\x00\x25\x19"},{9498,4,"\x00\x00\x25\x1a"},{9499,4,"\x00\x00\x25\x1b"},{9500,4,"\x00\x00\x25\x1c"},{9501,4,"\x00\x00\x25\x1d"},{9502,4,"\x00\x00\x25\x1e"},{9503,4,"\x00\x00\x25\x1f"},{9504,4,"\x00\x00\x25\x20"},{9505,4,"\x00\x00\x25\x21"},{9506,4,"\x00\x00\x25\x22"},{9507,4,"\x00\x00\x25\x23"},{9508,4,"\x00\x00\x25\x24"},{9509,4,"\x00\x00\x25\x25"},{9510,4,"\x00\x00\x25\x26"},{9511,4,"\x00\x00\x25\x27"},{9512,4,"\x00\x00\x25\x28"},{9513,4,"\x00\x00\x25\x29"},{9514,4,"\x00\x00\x25\x2a"},{9515,4,"\x00\x00\x25\x2b"},{9516,4,"\x00\x00\x25\x2c"},{9517,4,"\x00\x00\x25\x2d"},{9518,4,"\x00\x00\x25\x2e"},{9519,4,"\x00\x00\x25\x2f"},{9520,4,"\x00\x00\x25\x30"},{9521,4,"\x00\x00\x25\x31"},{9522,4,"\x00\x00\x25\x32"},{9523,4,"\x00\x00\x25\x33"},{9524,4,"\x00\x00\x25\x34"},{9525,4,"\x00\x00\x25\x35"},{9526,4,"\x00\x00\x25\x36"},{9527,4,"\x00\x00\x25\x37"},{9528,4,"\x00\x00\x25\x38"},{9529,4,"\x00\x00\x25\x39"},{9530,4,"\x00\x00\x25\x3a"},{9531,4,"\x00\x00\x25\x3b"},{9532,4,"\x00\x00\x25\x3c"},{9533,4,"\x00\x00\x25\x3d"},{9534,4,"\x00\x00\x25\x3e"},{9535,4,"\x00\x00\x25\x3f"},{9536,4,"\x00\x00\x25\x40"},{9537,4,"\x00\x00\x25\x41"},{9538,4,"\x00\x00\x25\x42"},{9539,4,"\x00\x00\x25\x43"},{9540,4,"\x00\x00\x25\x44"},{9541,4,"\x00\x00\x25\x45"},{9542,4,"\x00\x00\x25\x46"},{9543,4,"\x00\x00\x25\x47"},{9544,4,"\x00\x00\x25\x48"},{9545,4,"\x00\x00\x25\x49"},{9546,4,"\x00\x00\x25\x4a"},{9547,4,"\x00\x00\x25\x4b"},{9548,4,"\x00\x00\x25\x4c"},{9549,4,"\x00\x00\x25\x4d"},{9550,4,"\x00\x00\x25\x4e"},{9551,4,"\x00\x00\x25\x4f"},{8470,4,"\x00\x00\x21\x16"},{8734,4,"\x00\x00\x22\x1e"},
{8776,4,"\x00\x00\x22\x48"},{8800,4,"\x00\x00\x22\x60"},{8804,4,"\x00\x00\x22\x64"},{8805,4,"\x00\x00\x22\x65"},{8730,4,"\x00\x00\x22\x1a"},{8706,4,"\x00\x00\x22\x02"},{8721,4,"\x00\x00\x22\x11"},{8719,4,"\x00\x00\x22\x0f"},{8747,4,"\x00\x00\x22\x2b"},{9674,4,"\x00\x00\x25\xca"},{64257,4,"\x00\x00\xfb\x01"},{64258,4,"\x00\x00\xfb\x02"},{12288,4,"\x00\x00\x30\x00"},{65345,4,"\x00\x00\xff\x41"},{65346,4,"\x00\x00\xff\x42"},{65347,4,"\x00\x00\xff\x43"},{65340,4,"\x00\x00\xff\x3c"},{65374,4,"\x00\x00\xff\x5e"},{65372,4,"\x00\x00\xff\x5c"},{65509,4,"\x00\x00\xff\xe5"},{65377,4,"\x00\x00\xff\x61"},{65378,4,"\x00\x00\xff\x62"},{65379,4,"\x00\x00\xff\x63"},{65393,4,"\x00\x00\xff\x71"},{65394,4,"\x00\x00\xff\x72"},{65395,4,"\x00\x00\xff\x73"},{9312,4,"\x00\x00\x24\x60"},{9313,4,"\x00\x00\x24\x61"},{9314,4,"\x00\x00\x24\x62"},{8544,4,"\x00\x00\x21\x60"},{8545,4,"\x00\x00\x21\x61"},{8546,4,"\x00\x00\x21\x62"},{13212,4,"\x00\x00\x33\x9c"},{12849,4,"\x00\x00\x32\x31"},{34920,4,"\x00\x00\x88\x68"},{20104,4,"\x00\x00\x4e\x88"},{30003,4,"\x00\x00\x75\x33"},{33021,4,"\x00\x00\x80\xfd"},{36028,4,"\x00\x00\x8c\xbc"},{26292,4,"\x00\x00\x66\xb4"},{27083,4,"\x00\x00\x69\xcb"},{22082,4,"\x00\x00\x56\x42"},{28012,4,"\x00\x00\x6d\x6c"},{27450,4,"\x00\x00\x6b\x3a"},{22317,4,"\x00\x00\x57\x2d"},{29674,4,"\x00\x00\x73\xea"},{21682,4,"\x00\x00\x54\xb2"},{31168,4,"\x00\x00\x79\xc0"},{29410,4,"\x00\x00\x72\xe2"},{34444,4,"\x00\x00\x86\x8c"},{37675,4,"\x00\x00\x93\x2b"},{25088,4,"\x00\x00\x62\x00"},{33399,4,"\x00\x00\x82\x77"},{32114,4,"\x00\x00\x7d\x72"},{40786,4,"\x00\x00\x9f\x52"},{40845,4,"\x00\x00\x9f\x8d"},{40860,4,"\x00\x00\x9f\x9c"},{38000,4,"\x00\x00\x94\x70"},{39729,4,"\x00\x00\x9b\x31"},{128512,4,"\x00\x01\xf6\x00"},{127918,4,"\x00\x01\xf3\xae"},{119070,4,"\x00\x01\xd1\x1e"},
};
static const CsChar cs_5[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{161,1,"\xa1"},{162,1,"\xa2"},{163,1,"\xa3"},{164,1,"\xa4"},{165,1,"\xa5"},{166,1,"\xa6"},{167,1,"\xa7"},{168,1,"\xa8"},{169,1,"\xa9"},{170,1,"\xaa"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{174,1,"\xae"},{175,1,"\xaf"},{176,1,"\xb0"},{177,1,"\xb1"},{178,1,"\xb2"},{179,1,"\xb3"},{180,1,"\xb4"},{181,1,"\xb5"},{182,1,"\xb6"},{183,1,"\xb7"},{184,1,"\xb8"},{185,1,"\xb9"},{186,1,"\xba"},{187,1,"\xbb"},{188,1,"\xbc"},{189,1,"\xbd"},{190,1,"\xbe"},{191,1,"\xbf"},{192,1,"\xc0"},{193,1,"\xc1"},{194,1,"\xc2"},{195,1,"\xc3"},{196,1,"\xc4"},{197,1,"\xc5"},{198,1,"\xc6"},{199,1,"\xc7"},{200,1,"\xc8"},{201,1,"\xc9"},{202,1,"\xca"},{203,1,"\xcb"},{204,1,"\xcc"},{205,1,"\xcd"},{206,1,"\xce"},{207,1,"\xcf"},{208,1,"\xd0"},{209,1,"\xd1"},{210,1,"\xd2"},{211,1,"\xd3"},{212,1,"\xd4"},{213,1,"\xd5"},{214,1,"\xd6"},{215,1,"\xd7"},{216,1,"\xd8"},{217,1,"\xd9"},{218,1,"\xda"},{219,1,"\xdb"},{220,1,"\xdc"},{221,1,"\xdd"},{222,1,"\xde"},{223,1,"\xdf"},{224,1,"\xe0"},{225,1,"\xe1"},{226,1,"\xe2"},{227,1,"\xe3"},{228,1,"\xe4"},{229,1,"\xe5"},{230,1,"\xe6"},{231,1,"\xe7"},{232,1,"\xe8"},
{233,1,"\xe9"},{234,1,"\xea"},{235,1,"\xeb"},{236,1,"\xec"},{237,1,"\xed"},{238,1,"\xee"},{239,1,"\xef"},{240,1,"\xf0"},{241,1,"\xf1"},{242,1,"\xf2"},{243,1,"\xf3"},{244,1,"\xf4"},{245,1,"\xf5"},{246,1,"\xf6"},{247,1,"\xf7"},{248,1,"\xf8"},{249,1,"\xf9"},{250,1,"\xfa"},{251,1,"\xfb"},{252,1,"\xfc"},{253,1,"\xfd"},{254,1,"\xfe"},{255,1,"\xff"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},
};
static const CsChar cs_6[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{164,1,"\xa4"},{167,1,"\xa7"},{168,1,"\xa8"},{173,1,"\xad"},{176,1,"\xb0"},{180,1,"\xb4"},{184,1,"\xb8"},{193,1,"\xc1"},{194,1,"\xc2"},{196,1,"\xc4"},{199,1,"\xc7"},{201,1,"\xc9"},{203,1,"\xcb"},{205,1,"\xcd"},{206,1,"\xce"},{211,1,"\xd3"},{212,1,"\xd4"},{214,1,"\xd6"},{215,1,"\xd7"},{218,1,"\xda"},{220,1,"\xdc"},{221,1,"\xdd"},{223,1,"\xdf"},{225,1,"\xe1"},{226,1,"\xe2"},{228,1,"\xe4"},{231,1,"\xe7"},{233,1,"\xe9"},{235,1,"\xeb"},{237,1,"\xed"},{238,1,"\xee"},{243,1,"\xf3"},{244,1,"\xf4"},{246,1,"\xf6"},{247,1,"\xf7"},{250,1,"\xfa"},{252,1,"\xfc"},{253,1,"\xfd"},{258,1,"\xc3"},{259,1,"\xe3"},{260,1,"\xa1"},{261,1,"\xb1"},{262,1,"\xc6"},{263,1,"\xe6"},{268,1,"\xc8"},{269,1,"\xe8"},{270,1,"\xcf"},{271,1,"\xef"},{272,1,"\xd0"},{273,1,"\xf0"},{280,1,"\xca"},{281,1,"\xea"},{282,1,"\xcc"},{283,1,"\xec"},{313,1,"\xc5"},{314,1,"\xe5"},{317,1,"\xa5"},{318,1,"\xb5"},{321,1,"\xa3"},{322,1,"\xb3"},{323,1,"\xd1"},{324,1,"\xf1"},{327,1,"\xd2"},{328,1,"\xf2"},{336,1,"\xd5"},{337,1,"\xf5"},{340,1,"\xc0"},{341,1,"\xe0"},{344,1,"\xd8"},{345,1,"\xf8"},{346,1,"\xa6"},{347,1,"\xb6"},
{350,1,"\xaa"},{351,1,"\xba"},{352,1,"\xa9"},{353,1,"\xb9"},{354,1,"\xde"},{355,1,"\xfe"},{356,1,"\xab"},{357,1,"\xbb"},{366,1,"\xd9"},{367,1,"\xf9"},{368,1,"\xdb"},{369,1,"\xfb"},{377,1,"\xac"},{378,1,"\xbc"},{379,1,"\xaf"},{380,1,"\xbf"},{381,1,"\xae"},{382,1,"\xbe"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},
};
static const CsChar cs_7[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{163,1,"\xa3"},{164,1,"\xa4"},{167,1,"\xa7"},{168,1,"\xa8"},{173,1,"\xad"},{176,1,"\xb0"},{178,1,"\xb2"},{179,1,"\xb3"},{180,1,"\xb4"},{181,1,"\xb5"},{183,1,"\xb7"},{184,1,"\xb8"},{189,1,"\xbd"},{192,1,"\xc0"},{193,1,"\xc1"},{194,1,"\xc2"},{196,1,"\xc4"},{199,1,"\xc7"},{200,1,"\xc8"},{201,1,"\xc9"},{202,1,"\xca"},{203,1,"\xcb"},{204,1,"\xcc"},{205,1,"\xcd"},{206,1,"\xce"},{207,1,"\xcf"},{209,1,"\xd1"},{210,1,"\xd2"},{211,1,"\xd3"},{212,1,"\xd4"},{214,1,"\xd6"},{215,1,"\xd7"},{217,1,"\xd9"},{218,1,"\xda"},{219,1,"\xdb"},{220,1,"\xdc"},{223,1,"\xdf"},{224,1,"\xe0"},{225,1,"\xe1"},{226,1,"\xe2"},{228,1,"\xe4"},{231,1,"\xe7"},{232,1,"\xe8"},{233,1,"\xe9"},{234,1,"\xea"},{235,1,"\xeb"},{236,1,"\xec"},{237,1,"\xed"},{238,1,"\xee"},{239,1,"\xef"},{241,1,"\xf1"},{242,1,"\xf2"},{243,1,"\xf3"},{244,1,"\xf4"},{246,1,"\xf6"},{247,1,"\xf7"},{249,1,"\xf9"},{250,1,"\xfa"},{251,1,"\xfb"},{252,1,"\xfc"},{264,1,"\xc6"},{265,1,"\xe6"},{266,1,"\xc5"},{267,1,"\xe5"},{284,1,"\xd8"},{285,1,"\xf8"},{286,1,"\xab"},{287,1,"\xbb"},{288,1,"\xd5"},{289,1,"\xf5"},{292,1,"\xa6"},{293,1,"\xb6"},
{294,1,"\xa1"},{295,1,"\xb1"},{304,1,"\xa9"},{305,1,"\xb9"},{308,1,"\xac"},{309,1,"\xbc"},{348,1,"\xde"},{349,1,"\xfe"},{350,1,"\xaa"},{351,1,"\xba"},{364,1,"\xdd"},{365,1,"\xfd"},{379,1,"\xaf"},{380,1,"\xbf"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},
};
static const CsChar cs_8[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{164,1,"\xa4"},{167,1,"\xa7"},{168,1,"\xa8"},{173,1,"\xad"},{175,1,"\xaf"},{176,1,"\xb0"},{180,1,"\xb4"},{184,1,"\xb8"},{193,1,"\xc1"},{194,1,"\xc2"},{195,1,"\xc3"},{196,1,"\xc4"},{197,1,"\xc5"},{198,1,"\xc6"},{201,1,"\xc9"},{203,1,"\xcb"},{205,1,"\xcd"},{206,1,"\xce"},{212,1,"\xd4"},{213,1,"\xd5"},{214,1,"\xd6"},{215,1,"\xd7"},{216,1,"\xd8"},{218,1,"\xda"},{219,1,"\xdb"},{220,1,"\xdc"},{223,1,"\xdf"},{225,1,"\xe1"},{226,1,"\xe2"},{227,1,"\xe3"},{228,1,"\xe4"},{229,1,"\xe5"},{230,1,"\xe6"},{233,1,"\xe9"},{235,1,"\xeb"},{237,1,"\xed"},{238,1,"\xee"},{244,1,"\xf4"},{245,1,"\xf5"},{246,1,"\xf6"},{247,1,"\xf7"},{248,1,"\xf8"},{250,1,"\xfa"},{251,1,"\xfb"},{252,1,"\xfc"},{256,1,"\xc0"},{257,1,"\xe0"},{260,1,"\xa1"},{261,1,"\xb1"},{268,1,"\xc8"},{269,1,"\xe8"},{272,1,"\xd0"},{273,1,"\xf0"},{274,1,"\xaa"},{275,1,"\xba"},{278,1,"\xcc"},{279,1,"\xec"},{280,1,"\xca"},{281,1,"\xea"},{290,1,"\xab"},{291,1,"\xbb"},{296,1,"\xa5"},{297,1,"\xb5"},{298,1,"\xcf"},{299,1,"\xef"},{302,1,"\xc7"},{303,1,"\xe7"},{310,1,"\xd3"},{311,1,"\xf3"},{312,1,"\xa2"},{315,1,"\xa6"},{316,1,"\xb6"},
{325,1,"\xd1"},{326,1,"\xf1"},{330,1,"\xbd"},{331,1,"\xbf"},{332,1,"\xd2"},{333,1,"\xf2"},{342,1,"\xa3"},{343,1,"\xb3"},{352,1,"\xa9"},{353,1,"\xb9"},{358,1,"\xac"},{359,1,"\xbc"},{360,1,"\xdd"},{361,1,"\xfd"},{362,1,"\xde"},{363,1,"\xfe"},{370,1,"\xd9"},{371,1,"\xf9"},{381,1,"\xae"},{382,1,"\xbe"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},
};
static const CsChar cs_9[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{167,1,"\xfd"},{173,1,"\xad"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{1025,1,"\xa1"},{1026,1,"\xa2"},{1027,1,"\xa3"},{1028,1,"\xa4"},{1029,1,"\xa5"},{1030,1,"\xa6"},{1031,1,"\xa7"},{1032,1,"\xa8"},{1033,1,"\xa9"},{1034,1,"\xaa"},{1035,1,"\xab"},{1036,1,"\xac"},{1038,1,"\xae"},{1039,1,"\xaf"},{1040,1,"\xb0"},{1041,1,"\xb1"},{1042,1,"\xb2"},{1043,1,"\xb3"},{1044,1,"\xb4"},{1045,1,"\xb5"},{1046,1,"\xb6"},{1047,1,"\xb7"},{1048,1,"\xb8"},{1049,1,"\xb9"},{1050,1,"\xba"},{1051,1,"\xbb"},{1052,1,"\xbc"},{1053,1,"\xbd"},{1054,1,"\xbe"},{1055,1,"\xbf"},{1056,1,"\xc0"},{1057,1,"\xc1"},{1058,1,"\xc2"},{1059,1,"\xc3"},{1060,1,"\xc4"},{1061,1,"\xc5"},{1062,1,"\xc6"},{1063,1,"\xc7"},{1064,1,"\xc8"},{1065,1,"\xc9"},{1066,1,"\xca"},{1067,1,"\xcb"},{1068,1,"\xcc"},{1069,1,"\xcd"},{1070,1,"\xce"},{1071,1,"\xcf"},{1072,1,"\xd0"},{1073,1,"\xd1"},{1074,1,"\xd2"},{1075,1,"\xd3"},{1076,1,"\xd4"},{1077,1,"\xd5"},{1078,1,"\xd6"},{1079,1,"\xd7"},{1080,1,"\xd8"},{1081,1,"\xd9"},{1082,1,"\xda"},{1083,1,"\xdb"},{1084,1,"\xdc"},{1085,1,"\xdd"},
{1086,1,"\xde"},{1087,1,"\xdf"},{1088,1,"\xe0"},{1089,1,"\xe1"},{1090,1,"\xe2"},{1091,1,"\xe3"},{1092,1,"\xe4"},{1093,1,"\xe5"},{1094,1,"\xe6"},{1095,1,"\xe7"},{1096,1,"\xe8"},{1097,1,"\xe9"},{1098,1,"\xea"},{1099,1,"\xeb"},{1100,1,"\xec"},{1101,1,"\xed"},{1102,1,"\xee"},{1103,1,"\xef"},{1105,1,"\xf1"},{1106,1,"\xf2"},{1107,1,"\xf3"},{1108,1,"\xf4"},{1109,1,"\xf5"},{1110,1,"\xf6"},{1111,1,"\xf7"},{1112,1,"\xf8"},{1113,1,"\xf9"},{1114,1,"\xfa"},{1115,1,"\xfb"},{1116,1,"\xfc"},{1118,1,"\xfe"},{8470,1,"\xf0"},
};
static const CsChar cs_10[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{164,1,"\xa4"},{173,1,"\xad"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{1569,1,"\xc1"},{1570,1,"\xc2"},{1571,1,"\xc3"},{1572,1,"\xc4"},{1573,1,"\xc5"},{1574,1,"\xc6"},{1575,1,"\xc7"},{1576,1,"\xc8"},{1577,1,"\xc9"},{1578,1,"\xca"},{1579,1,"\xcb"},{1580,1,"\xcc"},{1581,1,"\xcd"},{1582,1,"\xce"},{1583,1,"\xcf"},{1584,1,"\xd0"},{1585,1,"\xd1"},{1586,1,"\xd2"},{1587,1,"\xd3"},{1588,1,"\xd4"},{1589,1,"\xd5"},{1590,1,"\xd6"},{1591,1,"\xd7"},{1592,1,"\xd8"},{1593,1,"\xd9"},{1594,1,"\xda"},{1600,1,"\xe0"},{1601,1,"\xe1"},{1602,1,"\xe2"},{1603,1,"\xe3"},{1604,1,"\xe4"},{1605,1,"\xe5"},{1606,1,"\xe6"},{1607,1,"\xe7"},{1608,1,"\xe8"},{1609,1,"\xe9"},{1610,1,"\xea"},
};
static const CsChar cs_11[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{163,1,"\xa3"},{166,1,"\xa6"},{167,1,"\xa7"},{168,1,"\xa8"},{169,1,"\xa9"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{176,1,"\xb0"},{177,1,"\xb1"},{178,1,"\xb2"},{179,1,"\xb3"},{183,1,"\xb7"},{187,1,"\xbb"},{189,1,"\xbd"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{900,1,"\xb4"},{901,1,"\xb5"},{902,1,"\xb6"},{904,1,"\xb8"},{905,1,"\xb9"},{906,1,"\xba"},{908,1,"\xbc"},{910,1,"\xbe"},{911,1,"\xbf"},{912,1,"\xc0"},{913,1,"\xc1"},{914,1,"\xc2"},{915,1,"\xc3"},{916,1,"\xc4"},{917,1,"\xc5"},{918,1,"\xc6"},{919,1,"\xc7"},{920,1,"\xc8"},{921,1,"\xc9"},{922,1,"\xca"},{923,1,"\xcb"},{924,1,"\xcc"},{925,1,"\xcd"},{926,1,"\xce"},{927,1,"\xcf"},{928,1,"\xd0"},{929,1,"\xd1"},{931,1,"\xd3"},{932,1,"\xd4"},{933,1,"\xd5"},{934,1,"\xd6"},{935,1,"\xd7"},{936,1,"\xd8"},{937,1,"\xd9"},{938,1,"\xda"},{939,1,"\xdb"},{940,1,"\xdc"},{941,1,"\xdd"},{942,1,"\xde"},{943,1,"\xdf"},{944,1,"\xe0"},{945,1,"\xe1"},{946,1,"\xe2"},{947,1,"\xe3"},{948,1,"\xe4"},{949,1,"\xe5"},{950,1,"\xe6"},{951,1,"\xe7"},{952,1,"\xe8"},{953,1,"\xe9"},{954,1,"\xea"},
{955,1,"\xeb"},{956,1,"\xec"},{957,1,"\xed"},{958,1,"\xee"},{959,1,"\xef"},{960,1,"\xf0"},{961,1,"\xf1"},{962,1,"\xf2"},{963,1,"\xf3"},{964,1,"\xf4"},{965,1,"\xf5"},{966,1,"\xf6"},{967,1,"\xf7"},{968,1,"\xf8"},{969,1,"\xf9"},{970,1,"\xfa"},{971,1,"\xfb"},{972,1,"\xfc"},{973,1,"\xfd"},{974,1,"\xfe"},{8216,1,"\xa1"},{8217,1,"\xa2"},{8364,1,"\xa4"},
};
static const CsChar cs_12[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{162,1,"\xa2"},{163,1,"\xa3"},{164,1,"\xa4"},{165,1,"\xa5"},{166,1,"\xa6"},{167,1,"\xa7"},{168,1,"\xa8"},{169,1,"\xa9"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{174,1,"\xae"},{175,1,"\xaf"},{176,1,"\xb0"},{177,1,"\xb1"},{178,1,"\xb2"},{179,1,"\xb3"},{180,1,"\xb4"},{181,1,"\xb5"},{182,1,"\xb6"},{183,1,"\xb7"},{184,1,"\xb8"},{185,1,"\xb9"},{187,1,"\xbb"},{188,1,"\xbc"},{189,1,"\xbd"},{190,1,"\xbe"},{215,1,"\xaa"},{247,1,"\xba"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{1488,1,"\xe0"},{1489,1,"\xe1"},{1490,1,"\xe2"},{1491,1,"\xe3"},{1492,1,"\xe4"},{1493,1,"\xe5"},{1494,1,"\xe6"},{1495,1,"\xe7"},{1496,1,"\xe8"},{1497,1,"\xe9"},{1498,1,"\xea"},{1499,1,"\xeb"},{1500,1,"\xec"},{1501,1,"\xed"},{1502,1,"\xee"},{1503,1,"\xef"},{1504,1,"\xf0"},{1505,1,"\xf1"},{1506,1,"\xf2"},{1507,1,"\xf3"},{1508,1,"\xf4"},{1509,1,"\xf5"},{1510,1,"\xf6"},{1511,1,"\xf7"},{1512,1,"\xf8"},{1513,1,"\xf9"},{1514,1,"\xfa"},
};
static const CsChar cs_13[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{161,1,"\xa1"},{162,1,"\xa2"},{163,1,"\xa3"},{164,1,"\xa4"},{165,1,"\xa5"},{166,1,"\xa6"},{167,1,"\xa7"},{168,1,"\xa8"},{169,1,"\xa9"},{170,1,"\xaa"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{174,1,"\xae"},{175,1,"\xaf"},{176,1,"\xb0"},{177,1,"\xb1"},{178,1,"\xb2"},{179,1,"\xb3"},{180,1,"\xb4"},{181,1,"\xb5"},{182,1,"\xb6"},{183,1,"\xb7"},{184,1,"\xb8"},{185,1,"\xb9"},{186,1,"\xba"},{187,1,"\xbb"},{188,1,"\xbc"},{189,1,"\xbd"},{190,1,"\xbe"},{191,1,"\xbf"},{192,1,"\xc0"},{193,1,"\xc1"},{194,1,"\xc2"},{195,1,"\xc3"},{196,1,"\xc4"},{197,1,"\xc5"},{198,1,"\xc6"},{199,1,"\xc7"},{200,1,"\xc8"},{201,1,"\xc9"},{202,1,"\xca"},{203,1,"\xcb"},{204,1,"\xcc"},{205,1,"\xcd"},{206,1,"\xce"},{207,1,"\xcf"},{209,1,"\xd1"},{210,1,"\xd2"},{211,1,"\xd3"},{212,1,"\xd4"},{213,1,"\xd5"},{214,1,"\xd6"},{215,1,"\xd7"},{216,1,"\xd8"},{217,1,"\xd9"},{218,1,"\xda"},{219,1,"\xdb"},{220,1,"\xdc"},{223,1,"\xdf"},{224,1,"\xe0"},{225,1,"\xe1"},{226,1,"\xe2"},{227,1,"\xe3"},{228,1,"\xe4"},{229,1,"\xe5"},{230,1,"\xe6"},{231,1,"\xe7"},{232,1,"\xe8"},{233,1,"\xe9"},{234,1,"\xea"},{235,1,"\xeb"},
{236,1,"\xec"},{237,1,"\xed"},{238,1,"\xee"},{239,1,"\xef"},{241,1,"\xf1"},{242,1,"\xf2"},{243,1,"\xf3"},{244,1,"\xf4"},{245,1,"\xf5"},{246,1,"\xf6"},{247,1,"\xf7"},{248,1,"\xf8"},{249,1,"\xf9"},{250,1,"\xfa"},{251,1,"\xfb"},{252,1,"\xfc"},{255,1,"\xff"},{286,1,"\xd0"},{287,1,"\xf0"},{304,1,"\xdd"},{305,1,"\xfd"},{350,1,"\xde"},{351,1,"\xfe"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},
};
static const CsChar cs_14[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{167,1,"\xa7"},{173,1,"\xad"},{176,1,"\xb0"},{183,1,"\xb7"},{193,1,"\xc1"},{194,1,"\xc2"},{195,1,"\xc3"},{196,1,"\xc4"},{197,1,"\xc5"},{198,1,"\xc6"},{201,1,"\xc9"},{203,1,"\xcb"},{205,1,"\xcd"},{206,1,"\xce"},{207,1,"\xcf"},{208,1,"\xd0"},{211,1,"\xd3"},{212,1,"\xd4"},{213,1,"\xd5"},{214,1,"\xd6"},{216,1,"\xd8"},{218,1,"\xda"},{219,1,"\xdb"},{220,1,"\xdc"},{221,1,"\xdd"},{222,1,"\xde"},{223,1,"\xdf"},{225,1,"\xe1"},{226,1,"\xe2"},{227,1,"\xe3"},{228,1,"\xe4"},{229,1,"\xe5"},{230,1,"\xe6"},{233,1,"\xe9"},{235,1,"\xeb"},{237,1,"\xed"},{238,1,"\xee"},{239,1,"\xef"},{240,1,"\xf0"},{243,1,"\xf3"},{244,1,"\xf4"},{245,1,"\xf5"},{246,1,"\xf6"},{248,1,"\xf8"},{250,1,"\xfa"},{251,1,"\xfb"},{252,1,"\xfc"},{253,1,"\xfd"},{254,1,"\xfe"},{256,1,"\xc0"},{257,1,"\xe0"},{260,1,"\xa1"},{261,1,"\xb1"},{268,1,"\xc8"},{269,1,"\xe8"},{272,1,"\xa9"},{273,1,"\xb9"},{274,1,"\xa2"},{275,1,"\xb2"},{278,1,"\xcc"},{279,1,"\xec"},{280,1,"\xca"},{281,1,"\xea"},{290,1,"\xa3"},{291,1,"\xb3"},{296,1,"\xa5"},{297,1,"\xb5"},{298,1,"\xa4"},{299,1,"\xb4"},{302,1,"\xc7"},{303,1,"\xe7"},{310,1,"\xa6"},
{311,1,"\xb6"},{312,1,"\xff"},{315,1,"\xa8"},{316,1,"\xb8"},{325,1,"\xd1"},{326,1,"\xf1"},{330,1,"\xaf"},{331,1,"\xbf"},{332,1,"\xd2"},{333,1,"\xf2"},{352,1,"\xaa"},{353,1,"\xba"},{358,1,"\xab"},{359,1,"\xbb"},{360,1,"\xd7"},{361,1,"\xf7"},{362,1,"\xae"},{363,1,"\xbe"},{370,1,"\xd9"},{371,1,"\xf9"},{381,1,"\xac"},{382,1,"\xbc"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},
};
static const CsChar cs_15[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{3585,1,"\xa1"},{3586,1,"\xa2"},{3587,1,"\xa3"},{3588,1,"\xa4"},{3589,1,"\xa5"},{3590,1,"\xa6"},{3591,1,"\xa7"},{3592,1,"\xa8"},{3593,1,"\xa9"},{3594,1,"\xaa"},{3595,1,"\xab"},{3596,1,"\xac"},{3597,1,"\xad"},{3598,1,"\xae"},{3599,1,"\xaf"},{3600,1,"\xb0"},{3601,1,"\xb1"},{3602,1,"\xb2"},{3603,1,"\xb3"},{3604,1,"\xb4"},{3605,1,"\xb5"},{3606,1,"\xb6"},{3607,1,"\xb7"},{3608,1,"\xb8"},{3609,1,"\xb9"},{3610,1,"\xba"},{3611,1,"\xbb"},{3612,1,"\xbc"},{3613,1,"\xbd"},{3614,1,"\xbe"},{3615,1,"\xbf"},{3616,1,"\xc0"},{3617,1,"\xc1"},{3618,1,"\xc2"},{3619,1,"\xc3"},{3620,1,"\xc4"},{3621,1,"\xc5"},{3622,1,"\xc6"},{3623,1,"\xc7"},{3624,1,"\xc8"},{3625,1,"\xc9"},{3626,1,"\xca"},{3627,1,"\xcb"},{3628,1,"\xcc"},{3629,1,"\xcd"},{3630,1,"\xce"},
};
static const CsChar cs_16[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{162,1,"\xa2"},{163,1,"\xa3"},{164,1,"\xa4"},{166,1,"\xa6"},{167,1,"\xa7"},{169,1,"\xa9"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{174,1,"\xae"},{176,1,"\xb0"},{177,1,"\xb1"},{178,1,"\xb2"},{179,1,"\xb3"},{181,1,"\xb5"},{182,1,"\xb6"},{183,1,"\xb7"},{185,1,"\xb9"},{187,1,"\xbb"},{188,1,"\xbc"},{189,1,"\xbd"},{190,1,"\xbe"},{196,1,"\xc4"},{197,1,"\xc5"},{198,1,"\xaf"},{201,1,"\xc9"},{211,1,"\xd3"},{213,1,"\xd5"},{214,1,"\xd6"},{215,1,"\xd7"},{216,1,"\xa8"},{220,1,"\xdc"},{223,1,"\xdf"},{228,1,"\xe4"},{229,1,"\xe5"},{230,1,"\xbf"},{233,1,"\xe9"},{243,1,"\xf3"},{245,1,"\xf5"},{246,1,"\xf6"},{247,1,"\xf7"},{248,1,"\xb8"},{252,1,"\xfc"},{256,1,"\xc2"},{257,1,"\xe2"},{260,1,"\xc0"},{261,1,"\xe0"},{262,1,"\xc3"},{263,1,"\xe3"},{268,1,"\xc8"},{269,1,"\xe8"},{274,1,"\xc7"},{275,1,"\xe7"},{278,1,"\xcb"},{279,1,"\xeb"},{280,1,"\xc6"},{281,1,"\xe6"},{290,1,"\xcc"},{291,1,"\xec"},{298,1,"\xce"},{299,1,"\xee"},{302,1,"\xc1"},{303,1,"\xe1"},{310,1,"\xcd"},{311,1,"\xed"},{315,1,"\xcf"},{316,1,"\xef"},{321,1,"\xd9"},{322,1,"\xf9"},{323,1,"\xd1"},{324,1,"\xf1"},{325,1,"\xd2"},
{326,1,"\xf2"},{332,1,"\xd4"},{333,1,"\xf4"},{342,1,"\xaa"},{343,1,"\xba"},{346,1,"\xda"},{347,1,"\xfa"},{352,1,"\xd0"},{353,1,"\xf0"},{362,1,"\xdb"},{363,1,"\xfb"},{370,1,"\xd8"},{371,1,"\xf8"},{377,1,"\xca"},{378,1,"\xea"},{379,1,"\xdd"},{380,1,"\xfd"},{381,1,"\xde"},{382,1,"\xfe"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{8217,1,"\xff"},{8220,1,"\xb4"},{8221,1,"\xa1"},{8222,1,"\xa5"},
};
static const CsChar cs_17[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{163,1,"\xa3"},{167,1,"\xa7"},{169,1,"\xa9"},{173,1,"\xad"},{174,1,"\xae"},{182,1,"\xb6"},{192,1,"\xc0"},{193,1,"\xc1"},{194,1,"\xc2"},{195,1,"\xc3"},{196,1,"\xc4"},{197,1,"\xc5"},{198,1,"\xc6"},{199,1,"\xc7"},{200,1,"\xc8"},{201,1,"\xc9"},{202,1,"\xca"},{203,1,"\xcb"},{204,1,"\xcc"},{205,1,"\xcd"},{206,1,"\xce"},{207,1,"\xcf"},{209,1,"\xd1"},{210,1,"\xd2"},{211,1,"\xd3"},{212,1,"\xd4"},{213,1,"\xd5"},{214,1,"\xd6"},{216,1,"\xd8"},{217,1,"\xd9"},{218,1,"\xda"},{219,1,"\xdb"},{220,1,"\xdc"},{221,1,"\xdd"},{223,1,"\xdf"},{224,1,"\xe0"},{225,1,"\xe1"},{226,1,"\xe2"},{227,1,"\xe3"},{228,1,"\xe4"},{229,1,"\xe5"},{230,1,"\xe6"},{231,1,"\xe7"},{232,1,"\xe8"},{233,1,"\xe9"},{234,1,"\xea"},{235,1,"\xeb"},{236,1,"\xec"},{237,1,"\xed"},{238,1,"\xee"},{239,1,"\xef"},{241,1,"\xf1"},{242,1,"\xf2"},{243,1,"\xf3"},{244,1,"\xf4"},{245,1,"\xf5"},{246,1,"\xf6"},{248,1,"\xf8"},{249,1,"\xf9"},{250,1,"\xfa"},{251,1,"\xfb"},{252,1,"\xfc"},{253,1,"\xfd"},{255,1,"\xff"},{266,1,"\xa4"},{267,1,"\xa5"},{288,1,"\xb2"},{289,1,"\xb3"},{372,1,"\xd0"},{373,1,"\xf0"},{374,1,"\xde"},{375,1,"\xfe"},
{376,1,"\xaf"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},
};
static const CsChar cs_18[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{161,1,"\xa1"},{162,1,"\xa2"},{163,1,"\xa3"},{165,1,"\xa5"},{167,1,"\xa7"},{169,1,"\xa9"},{170,1,"\xaa"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{174,1,"\xae"},{175,1,"\xaf"},{176,1,"\xb0"},{177,1,"\xb1"},{178,1,"\xb2"},{179,1,"\xb3"},{181,1,"\xb5"},{182,1,"\xb6"},{183,1,"\xb7"},{185,1,"\xb9"},{186,1,"\xba"},{187,1,"\xbb"},{191,1,"\xbf"},{192,1,"\xc0"},{193,1,"\xc1"},{194,1,"\xc2"},{195,1,"\xc3"},{196,1,"\xc4"},{197,1,"\xc5"},{198,1,"\xc6"},{199,1,"\xc7"},{200,1,"\xc8"},{201,1,"\xc9"},{202,1,"\xca"},{203,1,"\xcb"},{204,1,"\xcc"},{205,1,"\xcd"},{206,1,"\xce"},{207,1,"\xcf"},{208,1,"\xd0"},{209,1,"\xd1"},{210,1,"\xd2"},{211,1,"\xd3"},{212,1,"\xd4"},{213,1,"\xd5"},{214,1,"\xd6"},{215,1,"\xd7"},{216,1,"\xd8"},{217,1,"\xd9"},{218,1,"\xda"},{219,1,"\xdb"},{220,1,"\xdc"},{221,1,"\xdd"},{222,1,"\xde"},{223,1,"\xdf"},{224,1,"\xe0"},{225,1,"\xe1"},{226,1,"\xe2"},{227,1,"\xe3"},{228,1,"\xe4"},{229,1,"\xe5"},{230,1,"\xe6"},{231,1,"\xe7"},{232,1,"\xe8"},{233,1,"\xe9"},{234,1,"\xea"},{235,1,"\xeb"},{236,1,"\xec"},{237,1,"\xed"},{238,1,"\xee"},{239,1,"\xef"},{240,1,"\xf0"},
{241,1,"\xf1"},{242,1,"\xf2"},{243,1,"\xf3"},{244,1,"\xf4"},{245,1,"\xf5"},{246,1,"\xf6"},{247,1,"\xf7"},{248,1,"\xf8"},{249,1,"\xf9"},{250,1,"\xfa"},{251,1,"\xfb"},{252,1,"\xfc"},{253,1,"\xfd"},{254,1,"\xfe"},{255,1,"\xff"},{338,1,"\xbc"},{339,1,"\xbd"},{352,1,"\xa6"},{353,1,"\xa8"},{376,1,"\xbe"},{381,1,"\xb4"},{382,1,"\xb8"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{8364,1,"\xa4"},
};
static const CsChar cs_19[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,1,"\x80"},{129,1,"\x81"},{130,1,"\x82"},{131,1,"\x83"},{132,1,"\x84"},{133,1,"\x85"},{134,1,"\x86"},{135,1,"\x87"},{136,1,"\x88"},{137,1,"\x89"},{138,1,"\x8a"},{139,1,"\x8b"},{140,1,"\x8c"},{141,1,"\x8d"},{142,1,"\x8e"},{143,1,"\x8f"},{144,1,"\x90"},{145,1,"\x91"},{146,1,"\x92"},{147,1,"\x93"},{148,1,"\x94"},{149,1,"\x95"},{150,1,"\x96"},{151,1,"\x97"},{152,1,"\x98"},{153,1,"\x99"},{154,1,"\x9a"},{155,1,"\x9b"},{156,1,"\x9c"},{157,1,"\x9d"},{158,1,"\x9e"},{159,1,"\x9f"},{160,1,"\xa0"},{167,1,"\xa7"},{169,1,"\xa9"},{171,1,"\xab"},{173,1,"\xad"},{176,1,"\xb0"},{177,1,"\xb1"},{182,1,"\xb6"},{183,1,"\xb7"},{187,1,"\xbb"},{192,1,"\xc0"},{193,1,"\xc1"},{194,1,"\xc2"},{196,1,"\xc4"},{198,1,"\xc6"},{199,1,"\xc7"},{200,1,"\xc8"},{201,1,"\xc9"},{202,1,"\xca"},{203,1,"\xcb"},{204,1,"\xcc"},{205,1,"\xcd"},{206,1,"\xce"},{207,1,"\xcf"},{210,1,"\xd2"},{211,1,"\xd3"},{212,1,"\xd4"},{214,1,"\xd6"},{217,1,"\xd9"},{218,1,"\xda"},{219,1,"\xdb"},{220,1,"\xdc"},{223,1,"\xdf"},{224,1,"\xe0"},{225,1,"\xe1"},{226,1,"\xe2"},{228,1,"\xe4"},{230,1,"\xe6"},{231,1,"\xe7"},{232,1,"\xe8"},{233,1,"\xe9"},{234,1,"\xea"},{235,1,"\xeb"},{236,1,"\xec"},{237,1,"\xed"},{238,1,"\xee"},{239,1,"\xef"},{242,1,"\xf2"},{243,1,"\xf3"},{244,1,"\xf4"},{246,1,"\xf6"},{249,1,"\xf9"},{250,1,"\xfa"},{251,1,"\xfb"},{252,1,"\xfc"},{255,1,"\xff"},{258,1,"\xc3"},{259,1,"\xe3"},{260,1,"\xa1"},{261,1,"\xa2"},{262,1,"\xc5"},{263,1,"\xe5"},{268,1,"\xb2"},{269,1,"\xb9"},{272,1,"\xd0"},{273,1,"\xf0"},{280,1,"\xdd"},{281,1,"\xfd"},{321,1,"\xa3"},{322,1,"\xb3"},{323,1,"\xd1"},{324,1,"\xf1"},{336,1,"\xd5"},
{337,1,"\xf5"},{338,1,"\xbc"},{339,1,"\xbd"},{346,1,"\xd7"},{347,1,"\xf7"},{352,1,"\xa6"},{353,1,"\xa8"},{368,1,"\xd8"},{369,1,"\xf8"},{376,1,"\xbe"},{377,1,"\xac"},{378,1,"\xae"},{379,1,"\xaf"},{380,1,"\xbf"},{381,1,"\xb4"},{382,1,"\xb8"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{8221,1,"\xb5"},{8222,1,"\xa5"},{8364,1,"\xa4"},
};
static const CsChar cs_20[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xa0"},{164,1,"\xa4"},{166,1,"\xa6"},{167,1,"\xa7"},{168,1,"\xa8"},{169,1,"\xa9"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{174,1,"\xae"},{176,1,"\xb0"},{177,1,"\xb1"},{180,1,"\xb4"},{181,1,"\xb5"},{182,1,"\xb6"},{183,1,"\xb7"},{184,1,"\xb8"},{187,1,"\xbb"},{193,1,"\xc1"},{194,1,"\xc2"},{196,1,"\xc4"},{199,1,"\xc7"},{201,1,"\xc9"},{203,1,"\xcb"},{205,1,"\xcd"},{206,1,"\xce"},{211,1,"\xd3"},{212,1,"\xd4"},{214,1,"\xd6"},{215,1,"\xd7"},{218,1,"\xda"},{220,1,"\xdc"},{221,1,"\xdd"},{223,1,"\xdf"},{225,1,"\xe1"},{226,1,"\xe2"},{228,1,"\xe4"},{231,1,"\xe7"},{233,1,"\xe9"},{235,1,"\xeb"},{237,1,"\xed"},{238,1,"\xee"},{243,1,"\xf3"},{244,1,"\xf4"},{246,1,"\xf6"},{247,1,"\xf7"},{250,1,"\xfa"},{252,1,"\xfc"},{253,1,"\xfd"},{258,1,"\xc3"},{259,1,"\xe3"},{260,1,"\xa5"},{261,1,"\xb9"},{262,1,"\xc6"},{263,1,"\xe6"},{268,1,"\xc8"},{269,1,"\xe8"},{270,1,"\xcf"},{271,1,"\xef"},{272,1,"\xd0"},{273,1,"\xf0"},{280,1,"\xca"},{281,1,"\xea"},{282,1,"\xcc"},{283,1,"\xec"},{313,1,"\xc5"},{314,1,"\xe5"},{317,1,"\xbc"},{318,1,"\xbe"},{321,1,"\xa3"},{322,1,"\xb3"},{323,1,"\xd1"},{324,1,"\xf1"},{327,1,"\xd2"},{328,1,"\xf2"},{336,1,"\xd5"},{337,1,"\xf5"},{340,1,"\xc0"},{341,1,"\xe0"},{344,1,"\xd8"},{345,1,"\xf8"},{346,1,"\x8c"},{347,1,"\x9c"},{350,1,"\xaa"},{351,1,"\xba"},{352,1,"\x8a"},{353,1,"\x9a"},{354,1,"\xde"},{355,1,"\xfe"},{356,1,"\x8d"},{357,1,"\x9d"},{366,1,"\xd9"},{367,1,"\xf9"},{368,1,"\xdb"},{369,1,"\xfb"},{377,1,"\x8f"},{378,1,"\x9f"},{379,1,"\xaf"},{380,1,"\xbf"},{381,1,"\x8e"},{382,1,"\x9e"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},
{26,1,"\x1a"},{12,1,"\x0c"},{8211,1,"\x96"},{8212,1,"\x97"},{8216,1,"\x91"},{8217,1,"\x92"},{8220,1,"\x93"},{8221,1,"\x94"},{8222,1,"\x84"},{8224,1,"\x86"},{8225,1,"\x87"},{8226,1,"\x95"},{8230,1,"\x85"},{8240,1,"\x89"},{8249,1,"\x8b"},{8250,1,"\x9b"},{8364,1,"\x80"},{8482,1,"\x99"},
};
static const CsChar cs_21[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xa0"},{164,1,"\xa4"},{166,1,"\xa6"},{167,1,"\xa7"},{169,1,"\xa9"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{174,1,"\xae"},{176,1,"\xb0"},{177,1,"\xb1"},{181,1,"\xb5"},{182,1,"\xb6"},{183,1,"\xb7"},{187,1,"\xbb"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{1025,1,"\xa8"},{1026,1,"\x80"},{1027,1,"\x81"},{1028,1,"\xaa"},{1029,1,"\xbd"},{1030,1,"\xb2"},{1031,1,"\xaf"},{1032,1,"\xa3"},{1033,1,"\x8a"},{1034,1,"\x8c"},{1035,1,"\x8e"},{1036,1,"\x8d"},{1038,1,"\xa1"},{1039,1,"\x8f"},{1040,1,"\xc0"},{1041,1,"\xc1"},{1042,1,"\xc2"},{1043,1,"\xc3"},{1044,1,"\xc4"},{1045,1,"\xc5"},{1046,1,"\xc6"},{1047,1,"\xc7"},{1048,1,"\xc8"},{1049,1,"\xc9"},{1050,1,"\xca"},{1051,1,"\xcb"},{1052,1,"\xcc"},{1053,1,"\xcd"},{1054,1,"\xce"},{1055,1,"\xcf"},{1056,1,"\xd0"},{1057,1,"\xd1"},{1058,1,"\xd2"},{1059,1,"\xd3"},{1060,1,"\xd4"},{1061,1,"\xd5"},{1062,1,"\xd6"},{1063,1,"\xd7"},{1064,1,"\xd8"},{1065,1,"\xd9"},{1066,1,"\xda"},{1067,1,"\xdb"},{1068,1,"\xdc"},{1069,1,"\xdd"},{1070,1,"\xde"},{1071,1,"\xdf"},{1072,1,"\xe0"},{1073,1,"\xe1"},{1074,1,"\xe2"},{1075,1,"\xe3"},{1076,1,"\xe4"},{1077,1,"\xe5"},{1078,1,"\xe6"},{1079,1,"\xe7"},{1080,1,"\xe8"},{1081,1,"\xe9"},{1082,1,"\xea"},{1083,1,"\xeb"},{1084,1,"\xec"},{1085,1,"\xed"},{1086,1,"\xee"},{1087,1,"\xef"},{1088,1,"\xf0"},{1089,1,"\xf1"},{1090,1,"\xf2"},{1091,1,"\xf3"},{1092,1,"\xf4"},{1093,1,"\xf5"},{1094,1,"\xf6"},{1095,1,"\xf7"},{1096,1,"\xf8"},{1097,1,"\xf9"},{1098,1,"\xfa"},{1099,1,"\xfb"},{1100,1,"\xfc"},{1101,1,"\xfd"},{1102,1,"\xfe"},{1103,1,"\xff"},{1105,1,"\xb8"},
{1106,1,"\x90"},{1107,1,"\x83"},{1108,1,"\xba"},{1109,1,"\xbe"},{1110,1,"\xb3"},{1111,1,"\xbf"},{1112,1,"\xbc"},{1113,1,"\x9a"},{1114,1,"\x9c"},{1115,1,"\x9e"},{1116,1,"\x9d"},{1118,1,"\xa2"},{8211,1,"\x96"},{8212,1,"\x97"},{8216,1,"\x91"},{8217,1,"\x92"},{8220,1,"\x93"},{8221,1,"\x94"},{8222,1,"\x84"},{8224,1,"\x86"},{8225,1,"\x87"},{8226,1,"\x95"},{8230,1,"\x85"},{8240,1,"\x89"},{8249,1,"\x8b"},{8250,1,"\x9b"},{8364,1,"\x88"},{8482,1,"\x99"},{1168,1,"\xa5"},{1169,1,"\xb4"},{8470,1,"\xb9"},
};
static const CsChar cs_22[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xa0"},{161,1,"\xa1"},{162,1,"\xa2"},{163,1,"\xa3"},{164,1,"\xa4"},{165,1,"\xa5"},{166,1,"\xa6"},{167,1,"\xa7"},{168,1,"\xa8"},{169,1,"\xa9"},{170,1,"\xaa"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{174,1,"\xae"},{175,1,"\xaf"},{176,1,"\xb0"},{177,1,"\xb1"},{178,1,"\xb2"},{179,1,"\xb3"},{180,1,"\xb4"},{181,1,"\xb5"},{182,1,"\xb6"},{183,1,"\xb7"},{184,1,"\xb8"},{185,1,"\xb9"},{186,1,"\xba"},{187,1,"\xbb"},{188,1,"\xbc"},{189,1,"\xbd"},{190,1,"\xbe"},{191,1,"\xbf"},{192,1,"\xc0"},{193,1,"\xc1"},{194,1,"\xc2"},{195,1,"\xc3"},{196,1,"\xc4"},{197,1,"\xc5"},{198,1,"\xc6"},{199,1,"\xc7"},{200,1,"\xc8"},{201,1,"\xc9"},{202,1,"\xca"},{203,1,"\xcb"},{204,1,"\xcc"},{205,1,"\xcd"},{206,1,"\xce"},{207,1,"\xcf"},{208,1,"\xd0"},{209,1,"\xd1"},{210,1,"\xd2"},{211,1,"\xd3"},{212,1,"\xd4"},{213,1,"\xd5"},{214,1,"\xd6"},{215,1,"\xd7"},{216,1,"\xd8"},{217,1,"\xd9"},{218,1,"\xda"},{219,1,"\xdb"},{220,1,"\xdc"},{221,1,"\xdd"},{222,1,"\xde"},{223,1,"\xdf"},{224,1,"\xe0"},{225,1,"\xe1"},{226,1,"\xe2"},{227,1,"\xe3"},{228,1,"\xe4"},{229,1,"\xe5"},{230,1,"\xe6"},{231,1,"\xe7"},{232,1,"\xe8"},{233,1,"\xe9"},{234,1,"\xea"},{235,1,"\xeb"},{236,1,"\xec"},{237,1,"\xed"},{238,1,"\xee"},{239,1,"\xef"},{240,1,"\xf0"},{241,1,"\xf1"},{242,1,"\xf2"},{243,1,"\xf3"},{244,1,"\xf4"},{245,1,"\xf5"},{246,1,"\xf6"},{247,1,"\xf7"},{248,1,"\xf8"},{249,1,"\xf9"},{250,1,"\xfa"},{251,1,"\xfb"},{252,1,"\xfc"},{253,1,"\xfd"},{254,1,"\xfe"},{255,1,"\xff"},{338,1,"\x8c"},{339,1,"\x9c"},{352,1,"\x8a"},{353,1,"\x9a"},{376,1,"\x9f"},{381,1,"\x8e"},{382,1,"\x9e"},{127,1,"\x7f"},{1,1,"\x01"},
{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{8211,1,"\x96"},{8212,1,"\x97"},{8216,1,"\x91"},{8217,1,"\x92"},{8220,1,"\x93"},{8221,1,"\x94"},{8222,1,"\x84"},{8224,1,"\x86"},{8225,1,"\x87"},{8226,1,"\x95"},{8230,1,"\x85"},{8240,1,"\x89"},{8249,1,"\x8b"},{8250,1,"\x9b"},{8364,1,"\x80"},{8482,1,"\x99"},
};
static const CsChar cs_23[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xa0"},{163,1,"\xa3"},{164,1,"\xa4"},{165,1,"\xa5"},{166,1,"\xa6"},{167,1,"\xa7"},{168,1,"\xa8"},{169,1,"\xa9"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{174,1,"\xae"},{176,1,"\xb0"},{177,1,"\xb1"},{178,1,"\xb2"},{179,1,"\xb3"},{181,1,"\xb5"},{182,1,"\xb6"},{183,1,"\xb7"},{187,1,"\xbb"},{189,1,"\xbd"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{900,1,"\xb4"},{901,1,"\xa1"},{902,1,"\xa2"},{904,1,"\xb8"},{905,1,"\xb9"},{906,1,"\xba"},{908,1,"\xbc"},{910,1,"\xbe"},{911,1,"\xbf"},{912,1,"\xc0"},{913,1,"\xc1"},{914,1,"\xc2"},{915,1,"\xc3"},{916,1,"\xc4"},{917,1,"\xc5"},{918,1,"\xc6"},{919,1,"\xc7"},{920,1,"\xc8"},{921,1,"\xc9"},{922,1,"\xca"},{923,1,"\xcb"},{924,1,"\xcc"},{925,1,"\xcd"},{926,1,"\xce"},{927,1,"\xcf"},{928,1,"\xd0"},{929,1,"\xd1"},{931,1,"\xd3"},{932,1,"\xd4"},{933,1,"\xd5"},{934,1,"\xd6"},{935,1,"\xd7"},{936,1,"\xd8"},{937,1,"\xd9"},{938,1,"\xda"},{939,1,"\xdb"},{940,1,"\xdc"},{941,1,"\xdd"},{942,1,"\xde"},{943,1,"\xdf"},{944,1,"\xe0"},{945,1,"\xe1"},{946,1,"\xe2"},{947,1,"\xe3"},{948,1,"\xe4"},{949,1,"\xe5"},{950,1,"\xe6"},{951,1,"\xe7"},{952,1,"\xe8"},{953,1,"\xe9"},{954,1,"\xea"},{955,1,"\xeb"},{956,1,"\xec"},{957,1,"\xed"},{958,1,"\xee"},{959,1,"\xef"},{960,1,"\xf0"},{961,1,"\xf1"},{962,1,"\xf2"},{963,1,"\xf3"},{964,1,"\xf4"},{965,1,"\xf5"},{966,1,"\xf6"},{967,1,"\xf7"},{968,1,"\xf8"},{969,1,"\xf9"},{970,1,"\xfa"},{971,1,"\xfb"},{972,1,"\xfc"},{973,1,"\xfd"},{974,1,"\xfe"},{8211,1,"\x96"},{8212,1,"\x97"},{8216,1,"\x91"},{8217,1,"\x92"},{8220,1,"\x93"},{8221,1,"\x94"},{8222,1,"\x84"},
{8224,1,"\x86"},{8225,1,"\x87"},{8226,1,"\x95"},{8230,1,"\x85"},{8240,1,"\x89"},{8249,1,"\x8b"},{8250,1,"\x9b"},{8364,1,"\x80"},{8482,1,"\x99"},
};
static const CsChar cs_24[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xa0"},{161,1,"\xa1"},{162,1,"\xa2"},{163,1,"\xa3"},{164,1,"\xa4"},{165,1,"\xa5"},{166,1,"\xa6"},{167,1,"\xa7"},{168,1,"\xa8"},{169,1,"\xa9"},{170,1,"\xaa"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{174,1,"\xae"},{175,1,"\xaf"},{176,1,"\xb0"},{177,1,"\xb1"},{178,1,"\xb2"},{179,1,"\xb3"},{180,1,"\xb4"},{181,1,"\xb5"},{182,1,"\xb6"},{183,1,"\xb7"},{184,1,"\xb8"},{185,1,"\xb9"},{186,1,"\xba"},{187,1,"\xbb"},{188,1,"\xbc"},{189,1,"\xbd"},{190,1,"\xbe"},{191,1,"\xbf"},{192,1,"\xc0"},{193,1,"\xc1"},{194,1,"\xc2"},{195,1,"\xc3"},{196,1,"\xc4"},{197,1,"\xc5"},{198,1,"\xc6"},{199,1,"\xc7"},{200,1,"\xc8"},{201,1,"\xc9"},{202,1,"\xca"},{203,1,"\xcb"},{204,1,"\xcc"},{205,1,"\xcd"},{206,1,"\xce"},{207,1,"\xcf"},{209,1,"\xd1"},{210,1,"\xd2"},{211,1,"\xd3"},{212,1,"\xd4"},{213,1,"\xd5"},{214,1,"\xd6"},{215,1,"\xd7"},{216,1,"\xd8"},{217,1,"\xd9"},{218,1,"\xda"},{219,1,"\xdb"},{220,1,"\xdc"},{223,1,"\xdf"},{224,1,"\xe0"},{225,1,"\xe1"},{226,1,"\xe2"},{227,1,"\xe3"},{228,1,"\xe4"},{229,1,"\xe5"},{230,1,"\xe6"},{231,1,"\xe7"},{232,1,"\xe8"},{233,1,"\xe9"},{234,1,"\xea"},{235,1,"\xeb"},{236,1,"\xec"},{237,1,"\xed"},{238,1,"\xee"},{239,1,"\xef"},{241,1,"\xf1"},{242,1,"\xf2"},{243,1,"\xf3"},{244,1,"\xf4"},{245,1,"\xf5"},{246,1,"\xf6"},{247,1,"\xf7"},{248,1,"\xf8"},{249,1,"\xf9"},{250,1,"\xfa"},{251,1,"\xfb"},{252,1,"\xfc"},{255,1,"\xff"},{286,1,"\xd0"},{287,1,"\xf0"},{304,1,"\xdd"},{305,1,"\xfd"},{338,1,"\x8c"},{339,1,"\x9c"},{350,1,"\xde"},{351,1,"\xfe"},{352,1,"\x8a"},{353,1,"\x9a"},{376,1,"\x9f"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},
{26,1,"\x1a"},{12,1,"\x0c"},{8211,1,"\x96"},{8212,1,"\x97"},{8216,1,"\x91"},{8217,1,"\x92"},{8220,1,"\x93"},{8221,1,"\x94"},{8222,1,"\x84"},{8224,1,"\x86"},{8225,1,"\x87"},{8226,1,"\x95"},{8230,1,"\x85"},{8240,1,"\x89"},{8249,1,"\x8b"},{8250,1,"\x9b"},{8364,1,"\x80"},{8482,1,"\x99"},
};
static const CsChar cs_25[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xa0"},{162,1,"\xa2"},{163,1,"\xa3"},{164,1,"\xa4"},{165,1,"\xa5"},{166,1,"\xa6"},{167,1,"\xa7"},{168,1,"\xa8"},{169,1,"\xa9"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{174,1,"\xae"},{175,1,"\xaf"},{176,1,"\xb0"},{177,1,"\xb1"},{178,1,"\xb2"},{179,1,"\xb3"},{180,1,"\xb4"},{181,1,"\xb5"},{182,1,"\xb6"},{183,1,"\xb7"},{184,1,"\xb8"},{185,1,"\xb9"},{187,1,"\xbb"},{188,1,"\xbc"},{189,1,"\xbd"},{190,1,"\xbe"},{215,1,"\xd7"},{224,1,"\xe0"},{226,1,"\xe2"},{231,1,"\xe7"},{232,1,"\xe8"},{233,1,"\xe9"},{234,1,"\xea"},{235,1,"\xeb"},{238,1,"\xee"},{239,1,"\xef"},{244,1,"\xf4"},{247,1,"\xf7"},{249,1,"\xf9"},{251,1,"\xfb"},{252,1,"\xfc"},{338,1,"\x8c"},{339,1,"\x9c"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{8211,1,"\x96"},{8212,1,"\x97"},{8216,1,"\x91"},{8217,1,"\x92"},{8220,1,"\x93"},{8221,1,"\x94"},{8222,1,"\x84"},{8224,1,"\x86"},{8225,1,"\x87"},{8226,1,"\x95"},{8230,1,"\x85"},{8240,1,"\x89"},{8249,1,"\x8b"},{8250,1,"\x9b"},{8364,1,"\x80"},{8482,1,"\x99"},{1569,1,"\xc1"},{1570,1,"\xc2"},{1571,1,"\xc3"},{1572,1,"\xc4"},{1573,1,"\xc5"},{1574,1,"\xc6"},{1575,1,"\xc7"},{1576,1,"\xc8"},{1577,1,"\xc9"},{1578,1,"\xca"},{1579,1,"\xcb"},{1580,1,"\xcc"},{1581,1,"\xcd"},{1582,1,"\xce"},{1583,1,"\xcf"},{1584,1,"\xd0"},{1585,1,"\xd1"},{1586,1,"\xd2"},{1587,1,"\xd3"},{1588,1,"\xd4"},{1589,1,"\xd5"},{1590,1,"\xd6"},{1591,1,"\xd8"},{1592,1,"\xd9"},{1593,1,"\xda"},{1594,1,"\xdb"},{1600,1,"\xdc"},{1601,1,"\xdd"},{1602,1,"\xde"},{1603,1,"\xdf"},{1604,1,"\xe1"},{1605,1,"\xe3"},{1606,1,"\xe4"},{1607,1,"\xe5"},{1608,1,"\xe6"},
{1609,1,"\xec"},{1610,1,"\xed"},
};
static const CsChar cs_26[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xa0"},{162,1,"\xa2"},{163,1,"\xa3"},{164,1,"\xa4"},{166,1,"\xa6"},{167,1,"\xa7"},{168,1,"\x8d"},{169,1,"\xa9"},{171,1,"\xab"},{172,1,"\xac"},{173,1,"\xad"},{174,1,"\xae"},{175,1,"\x9d"},{176,1,"\xb0"},{177,1,"\xb1"},{178,1,"\xb2"},{179,1,"\xb3"},{180,1,"\xb4"},{181,1,"\xb5"},{182,1,"\xb6"},{183,1,"\xb7"},{184,1,"\x8f"},{185,1,"\xb9"},{187,1,"\xbb"},{188,1,"\xbc"},{189,1,"\xbd"},{190,1,"\xbe"},{196,1,"\xc4"},{197,1,"\xc5"},{198,1,"\xaf"},{201,1,"\xc9"},{211,1,"\xd3"},{213,1,"\xd5"},{214,1,"\xd6"},{215,1,"\xd7"},{216,1,"\xa8"},{220,1,"\xdc"},{223,1,"\xdf"},{228,1,"\xe4"},{229,1,"\xe5"},{230,1,"\xbf"},{233,1,"\xe9"},{243,1,"\xf3"},{245,1,"\xf5"},{246,1,"\xf6"},{247,1,"\xf7"},{248,1,"\xb8"},{252,1,"\xfc"},{256,1,"\xc2"},{257,1,"\xe2"},{260,1,"\xc0"},{261,1,"\xe0"},{262,1,"\xc3"},{263,1,"\xe3"},{268,1,"\xc8"},{269,1,"\xe8"},{274,1,"\xc7"},{275,1,"\xe7"},{278,1,"\xcb"},{279,1,"\xeb"},{280,1,"\xc6"},{281,1,"\xe6"},{290,1,"\xcc"},{291,1,"\xec"},{298,1,"\xce"},{299,1,"\xee"},{302,1,"\xc1"},{303,1,"\xe1"},{310,1,"\xcd"},{311,1,"\xed"},{315,1,"\xcf"},{316,1,"\xef"},{321,1,"\xd9"},{322,1,"\xf9"},{323,1,"\xd1"},{324,1,"\xf1"},{325,1,"\xd2"},{326,1,"\xf2"},{332,1,"\xd4"},{333,1,"\xf4"},{342,1,"\xaa"},{343,1,"\xba"},{346,1,"\xda"},{347,1,"\xfa"},{352,1,"\xd0"},{353,1,"\xf0"},{362,1,"\xdb"},{363,1,"\xfb"},{370,1,"\xd8"},{371,1,"\xf8"},{377,1,"\xca"},{378,1,"\xea"},{379,1,"\xdd"},{380,1,"\xfd"},{381,1,"\xde"},{382,1,"\xfe"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{8211,1,"\x96"},{8212,1,"\x97"},{8216,1,"\x91"},
{8217,1,"\x92"},{8220,1,"\x93"},{8221,1,"\x94"},{8222,1,"\x84"},{8224,1,"\x86"},{8225,1,"\x87"},{8226,1,"\x95"},{8230,1,"\x85"},{8240,1,"\x89"},{8249,1,"\x8b"},{8250,1,"\x9b"},{8364,1,"\x80"},{8482,1,"\x99"},
};
static const CsChar cs_27[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xff"},{161,1,"\xad"},{162,1,"\x9b"},{163,1,"\x9c"},{165,1,"\x9d"},{170,1,"\xa6"},{171,1,"\xae"},{172,1,"\xaa"},{176,1,"\xf8"},{177,1,"\xf1"},{178,1,"\xfd"},{181,1,"\xe6"},{183,1,"\xfa"},{186,1,"\xa7"},{187,1,"\xaf"},{188,1,"\xac"},{189,1,"\xab"},{191,1,"\xa8"},{196,1,"\x8e"},{197,1,"\x8f"},{198,1,"\x92"},{199,1,"\x80"},{201,1,"\x90"},{209,1,"\xa5"},{214,1,"\x99"},{220,1,"\x9a"},{223,1,"\xe1"},{224,1,"\x85"},{225,1,"\xa0"},{226,1,"\x83"},{228,1,"\x84"},{229,1,"\x86"},{230,1,"\x91"},{231,1,"\x87"},{232,1,"\x8a"},{233,1,"\x82"},{234,1,"\x88"},{235,1,"\x89"},{236,1,"\x8d"},{237,1,"\xa1"},{238,1,"\x8c"},{239,1,"\x8b"},{241,1,"\xa4"},{242,1,"\x95"},{243,1,"\xa2"},{244,1,"\x93"},{246,1,"\x94"},{247,1,"\xf6"},{249,1,"\x97"},{250,1,"\xa3"},{251,1,"\x96"},{252,1,"\x81"},{255,1,"\x98"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{915,1,"\xe2"},{920,1,"\xe9"},{931,1,"\xe4"},{934,1,"\xe8"},{937,1,"\xea"},{945,1,"\xe0"},{948,1,"\xeb"},{949,1,"\xee"},{960,1,"\xe3"},{963,1,"\xe5"},{964,1,"\xe7"},{966,1,"\xed"},{9472,1,"\xc4"},{9474,1,"\xb3"},{9484,1,"\xda"},{9488,1,"\xbf"},{9492,1,"\xc0"},{9496,1,"\xd9"},{9500,1,"\xc3"},{9508,1,"\xb4"},{9516,1,"\xc2"},{9524,1,"\xc1"},{9532,1,"\xc5"},{8734,1,"\xec"},{8776,1,"\xf7"},{8804,1,"\xf3"},{8805,1,"\xf2"},{8730,1,"\xfb"},
};
static const CsChar cs_28[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xff"},{161,1,"\xad"},{162,1,"\xbd"},{163,1,"\x9c"},{164,1,"\xcf"},{165,1,"\xbe"},{166,1,"\xdd"},{167,1,"\xf5"},{168,1,"\xf9"},{169,1,"\xb8"},{170,1,"\xa6"},{171,1,"\xae"},{172,1,"\xaa"},{173,1,"\xf0"},{174,1,"\xa9"},{175,1,"\xee"},{176,1,"\xf8"},{177,1,"\xf1"},{178,1,"\xfd"},{179,1,"\xfc"},{180,1,"\xef"},{181,1,"\xe6"},{182,1,"\xf4"},{183,1,"\xfa"},{184,1,"\xf7"},{185,1,"\xfb"},{186,1,"\xa7"},{187,1,"\xaf"},{188,1,"\xac"},{189,1,"\xab"},{190,1,"\xf3"},{191,1,"\xa8"},{192,1,"\xb7"},{193,1,"\xb5"},{194,1,"\xb6"},{195,1,"\xc7"},{196,1,"\x8e"},{197,1,"\x8f"},{198,1,"\x92"},{199,1,"\x80"},{200,1,"\xd4"},{201,1,"\x90"},{202,1,"\xd2"},{203,1,"\xd3"},{204,1,"\xde"},{205,1,"\xd6"},{206,1,"\xd7"},{207,1,"\xd8"},{208,1,"\xd1"},{209,1,"\xa5"},{210,1,"\xe3"},{211,1,"\xe0"},{212,1,"\xe2"},{213,1,"\xe5"},{214,1,"\x99"},{215,1,"\x9e"},{216,1,"\x9d"},{217,1,"\xeb"},{218,1,"\xe9"},{219,1,"\xea"},{220,1,"\x9a"},{221,1,"\xed"},{222,1,"\xe8"},{223,1,"\xe1"},{224,1,"\x85"},{225,1,"\xa0"},{226,1,"\x83"},{227,1,"\xc6"},{228,1,"\x84"},{229,1,"\x86"},{230,1,"\x91"},{231,1,"\x87"},{232,1,"\x8a"},{233,1,"\x82"},{234,1,"\x88"},{235,1,"\x89"},{236,1,"\x8d"},{237,1,"\xa1"},{238,1,"\x8c"},{239,1,"\x8b"},{240,1,"\xd0"},{241,1,"\xa4"},{242,1,"\x95"},{243,1,"\xa2"},{244,1,"\x93"},{245,1,"\xe4"},{246,1,"\x94"},{247,1,"\xf6"},{248,1,"\x9b"},{249,1,"\x97"},{250,1,"\xa3"},{251,1,"\x96"},{252,1,"\x81"},{253,1,"\xec"},{254,1,"\xe7"},{255,1,"\x98"},{305,1,"\xd5"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{9472,1,"\xc4"},{9474,1,"\xb3"},
{9484,1,"\xda"},{9488,1,"\xbf"},{9492,1,"\xc0"},{9496,1,"\xd9"},{9500,1,"\xc3"},{9508,1,"\xb4"},{9516,1,"\xc2"},{9524,1,"\xc1"},{9532,1,"\xc5"},
};
static const CsChar cs_29[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xff"},{164,1,"\xcf"},{167,1,"\xf5"},{168,1,"\xf9"},{171,1,"\xae"},{172,1,"\xaa"},{173,1,"\xf0"},{176,1,"\xf8"},{180,1,"\xef"},{184,1,"\xf7"},{187,1,"\xaf"},{193,1,"\xb5"},{194,1,"\xb6"},{196,1,"\x8e"},{199,1,"\x80"},{201,1,"\x90"},{203,1,"\xd3"},{205,1,"\xd6"},{206,1,"\xd7"},{211,1,"\xe0"},{212,1,"\xe2"},{214,1,"\x99"},{215,1,"\x9e"},{218,1,"\xe9"},{220,1,"\x9a"},{221,1,"\xed"},{223,1,"\xe1"},{225,1,"\xa0"},{226,1,"\x83"},{228,1,"\x84"},{231,1,"\x87"},{233,1,"\x82"},{235,1,"\x89"},{237,1,"\xa1"},{238,1,"\x8c"},{243,1,"\xa2"},{244,1,"\x93"},{246,1,"\x94"},{247,1,"\xf6"},{250,1,"\xa3"},{252,1,"\x81"},{253,1,"\xec"},{258,1,"\xc6"},{259,1,"\xc7"},{260,1,"\xa4"},{261,1,"\xa5"},{262,1,"\x8f"},{263,1,"\x86"},{268,1,"\xac"},{269,1,"\x9f"},{270,1,"\xd2"},{271,1,"\xd4"},{272,1,"\xd1"},{273,1,"\xd0"},{280,1,"\xa8"},{281,1,"\xa9"},{282,1,"\xb7"},{283,1,"\xd8"},{313,1,"\x91"},{314,1,"\x92"},{317,1,"\x95"},{318,1,"\x96"},{321,1,"\x9d"},{322,1,"\x88"},{323,1,"\xe3"},{324,1,"\xe4"},{327,1,"\xd5"},{328,1,"\xe5"},{336,1,"\x8a"},{337,1,"\x8b"},{340,1,"\xe8"},{341,1,"\xea"},{344,1,"\xfc"},{345,1,"\xfd"},{346,1,"\x97"},{347,1,"\x98"},{350,1,"\xb8"},{351,1,"\xad"},{352,1,"\xe6"},{353,1,"\xe7"},{354,1,"\xdd"},{355,1,"\xee"},{356,1,"\x9b"},{357,1,"\x9c"},{366,1,"\xde"},{367,1,"\x85"},{368,1,"\xeb"},{369,1,"\xfb"},{377,1,"\x8d"},{378,1,"\xab"},{379,1,"\xbd"},{380,1,"\xbe"},{381,1,"\xa6"},{382,1,"\xa7"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{9472,1,"\xc4"},{9474,1,"\xb3"},{9484,1,"\xda"},{9488,1,"\xbf"},{9492,1,"\xc0"},
{9496,1,"\xd9"},{9500,1,"\xc3"},{9508,1,"\xb4"},{9516,1,"\xc2"},{9524,1,"\xc1"},{9532,1,"\xc5"},
};
static const CsChar cs_30[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xff"},{164,1,"\xcf"},{167,1,"\xfd"},{171,1,"\xae"},{173,1,"\xf0"},{187,1,"\xaf"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{1025,1,"\x85"},{1026,1,"\x81"},{1027,1,"\x83"},{1028,1,"\x87"},{1029,1,"\x89"},{1030,1,"\x8b"},{1031,1,"\x8d"},{1032,1,"\x8f"},{1033,1,"\x91"},{1034,1,"\x93"},{1035,1,"\x95"},{1036,1,"\x97"},{1038,1,"\x99"},{1039,1,"\x9b"},{1040,1,"\xa1"},{1041,1,"\xa3"},{1042,1,"\xec"},{1043,1,"\xad"},{1044,1,"\xa7"},{1045,1,"\xa9"},{1046,1,"\xea"},{1047,1,"\xf4"},{1048,1,"\xb8"},{1049,1,"\xbe"},{1050,1,"\xc7"},{1051,1,"\xd1"},{1052,1,"\xd3"},{1053,1,"\xd5"},{1054,1,"\xd7"},{1055,1,"\xdd"},{1056,1,"\xe2"},{1057,1,"\xe4"},{1058,1,"\xe6"},{1059,1,"\xe8"},{1060,1,"\xab"},{1061,1,"\xb6"},{1062,1,"\xa5"},{1063,1,"\xfc"},{1064,1,"\xf6"},{1065,1,"\xfa"},{1066,1,"\x9f"},{1067,1,"\xf2"},{1068,1,"\xee"},{1069,1,"\xf8"},{1070,1,"\x9d"},{1071,1,"\xe0"},{1072,1,"\xa0"},{1073,1,"\xa2"},{1074,1,"\xeb"},{1075,1,"\xac"},{1076,1,"\xa6"},{1077,1,"\xa8"},{1078,1,"\xe9"},{1079,1,"\xf3"},{1080,1,"\xb7"},{1081,1,"\xbd"},{1082,1,"\xc6"},{1083,1,"\xd0"},{1084,1,"\xd2"},{1085,1,"\xd4"},{1086,1,"\xd6"},{1087,1,"\xd8"},{1088,1,"\xe1"},{1089,1,"\xe3"},{1090,1,"\xe5"},{1091,1,"\xe7"},{1092,1,"\xaa"},{1093,1,"\xb5"},{1094,1,"\xa4"},{1095,1,"\xfb"},{1096,1,"\xf5"},{1097,1,"\xf9"},{1098,1,"\x9e"},{1099,1,"\xf1"},{1100,1,"\xed"},{1101,1,"\xf7"},{1102,1,"\x9c"},{1103,1,"\xde"},{1105,1,"\x84"},{1106,1,"\x80"},{1107,1,"\x82"},{1108,1,"\x86"},{1109,1,"\x88"},{1110,1,"\x8a"},{1111,1,"\x8c"},{1112,1,"\x8e"},{1113,1,"\x90"},
{1114,1,"\x92"},{1115,1,"\x94"},{1116,1,"\x96"},{1118,1,"\x98"},{9472,1,"\xc4"},{9474,1,"\xb3"},{9484,1,"\xda"},{9488,1,"\xbf"},{9492,1,"\xc0"},{9496,1,"\xd9"},{9500,1,"\xc3"},{9508,1,"\xb4"},{9516,1,"\xc2"},{9524,1,"\xc1"},{9532,1,"\xc5"},{8470,1,"\xef"},
};
static const CsChar cs_31[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xff"},{161,1,"\xad"},{162,1,"\xbd"},{163,1,"\x9c"},{164,1,"\xcf"},{165,1,"\xbe"},{166,1,"\xdd"},{167,1,"\xf5"},{168,1,"\xf9"},{169,1,"\xb8"},{170,1,"\xd1"},{171,1,"\xae"},{172,1,"\xaa"},{173,1,"\xf0"},{174,1,"\xa9"},{175,1,"\xee"},{176,1,"\xf8"},{177,1,"\xf1"},{178,1,"\xfd"},{179,1,"\xfc"},{180,1,"\xef"},{181,1,"\xe6"},{182,1,"\xf4"},{183,1,"\xfa"},{184,1,"\xf7"},{185,1,"\xfb"},{186,1,"\xd0"},{187,1,"\xaf"},{188,1,"\xac"},{189,1,"\xab"},{190,1,"\xf3"},{191,1,"\xa8"},{192,1,"\xb7"},{193,1,"\xb5"},{194,1,"\xb6"},{195,1,"\xc7"},{196,1,"\x8e"},{197,1,"\x8f"},{198,1,"\x92"},{199,1,"\x80"},{200,1,"\xd4"},{201,1,"\x90"},{202,1,"\xd2"},{203,1,"\xd3"},{204,1,"\xde"},{205,1,"\xd6"},{206,1,"\xd7"},{207,1,"\xd8"},{209,1,"\xa5"},{210,1,"\xe3"},{211,1,"\xe0"},{212,1,"\xe2"},{213,1,"\xe5"},{214,1,"\x99"},{215,1,"\xe8"},{216,1,"\x9d"},{217,1,"\xeb"},{218,1,"\xe9"},{219,1,"\xea"},{220,1,"\x9a"},{223,1,"\xe1"},{224,1,"\x85"},{225,1,"\xa0"},{226,1,"\x83"},{227,1,"\xc6"},{228,1,"\x84"},{229,1,"\x86"},{230,1,"\x91"},{231,1,"\x87"},{232,1,"\x8a"},{233,1,"\x82"},{234,1,"\x88"},{235,1,"\x89"},{236,1,"\xec"},{237,1,"\xa1"},{238,1,"\x8c"},{239,1,"\x8b"},{241,1,"\xa4"},{242,1,"\x95"},{243,1,"\xa2"},{244,1,"\x93"},{245,1,"\xe4"},{246,1,"\x94"},{247,1,"\xf6"},{248,1,"\x9b"},{249,1,"\x97"},{250,1,"\xa3"},{251,1,"\x96"},{252,1,"\x81"},{255,1,"\xed"},{286,1,"\xa6"},{287,1,"\xa7"},{304,1,"\x98"},{305,1,"\x8d"},{350,1,"\x9e"},{351,1,"\x9f"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{9472,1,"\xc4"},{9474,1,"\xb3"},{9484,1,"\xda"},
{9488,1,"\xbf"},{9492,1,"\xc0"},{9496,1,"\xd9"},{9500,1,"\xc3"},{9508,1,"\xb4"},{9516,1,"\xc2"},{9524,1,"\xc1"},{9532,1,"\xc5"},
};
static const CsChar cs_32[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xff"},{161,1,"\xad"},{162,1,"\x9b"},{163,1,"\x9c"},{165,1,"\x9d"},{170,1,"\xa6"},{171,1,"\xae"},{172,1,"\xaa"},{176,1,"\xf8"},{177,1,"\xf1"},{178,1,"\xfd"},{181,1,"\xe6"},{183,1,"\xfa"},{186,1,"\xa7"},{187,1,"\xaf"},{188,1,"\xac"},{189,1,"\xab"},{191,1,"\xa8"},{209,1,"\xa5"},{223,1,"\xe1"},{225,1,"\xa0"},{237,1,"\xa1"},{241,1,"\xa4"},{243,1,"\xa2"},{247,1,"\xf6"},{250,1,"\xa3"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{915,1,"\xe2"},{920,1,"\xe9"},{931,1,"\xe4"},{934,1,"\xe8"},{937,1,"\xea"},{945,1,"\xe0"},{948,1,"\xeb"},{949,1,"\xee"},{960,1,"\xe3"},{963,1,"\xe5"},{964,1,"\xe7"},{966,1,"\xed"},{1488,1,"\x80"},{1489,1,"\x81"},{1490,1,"\x82"},{1491,1,"\x83"},{1492,1,"\x84"},{1493,1,"\x85"},{1494,1,"\x86"},{1495,1,"\x87"},{1496,1,"\x88"},{1497,1,"\x89"},{1498,1,"\x8a"},{1499,1,"\x8b"},{1500,1,"\x8c"},{1501,1,"\x8d"},{1502,1,"\x8e"},{1503,1,"\x8f"},{1504,1,"\x90"},{1505,1,"\x91"},{1506,1,"\x92"},{1507,1,"\x93"},{1508,1,"\x94"},{1509,1,"\x95"},{1510,1,"\x96"},{1511,1,"\x97"},{1512,1,"\x98"},{1513,1,"\x99"},{1514,1,"\x9a"},{9472,1,"\xc4"},{9474,1,"\xb3"},{9484,1,"\xda"},{9488,1,"\xbf"},{9492,1,"\xc0"},{9496,1,"\xd9"},{9500,1,"\xc3"},{9508,1,"\xb4"},{9516,1,"\xc2"},{9524,1,"\xc1"},{9532,1,"\xc5"},{8734,1,"\xec"},{8776,1,"\xf7"},{8804,1,"\xf3"},{8805,1,"\xf2"},{8730,1,"\xfb"},
};
static const CsChar cs_33[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xff"},{164,1,"\xfd"},{176,1,"\xf8"},{183,1,"\xfa"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{1025,1,"\xf0"},{1028,1,"\xf2"},{1031,1,"\xf4"},{1038,1,"\xf6"},{1040,1,"\x80"},{1041,1,"\x81"},{1042,1,"\x82"},{1043,1,"\x83"},{1044,1,"\x84"},{1045,1,"\x85"},{1046,1,"\x86"},{1047,1,"\x87"},{1048,1,"\x88"},{1049,1,"\x89"},{1050,1,"\x8a"},{1051,1,"\x8b"},{1052,1,"\x8c"},{1053,1,"\x8d"},{1054,1,"\x8e"},{1055,1,"\x8f"},{1056,1,"\x90"},{1057,1,"\x91"},{1058,1,"\x92"},{1059,1,"\x93"},{1060,1,"\x94"},{1061,1,"\x95"},{1062,1,"\x96"},{1063,1,"\x97"},{1064,1,"\x98"},{1065,1,"\x99"},{1066,1,"\x9a"},{1067,1,"\x9b"},{1068,1,"\x9c"},{1069,1,"\x9d"},{1070,1,"\x9e"},{1071,1,"\x9f"},{1072,1,"\xa0"},{1073,1,"\xa1"},{1074,1,"\xa2"},{1075,1,"\xa3"},{1076,1,"\xa4"},{1077,1,"\xa5"},{1078,1,"\xa6"},{1079,1,"\xa7"},{1080,1,"\xa8"},{1081,1,"\xa9"},{1082,1,"\xaa"},{1083,1,"\xab"},{1084,1,"\xac"},{1085,1,"\xad"},{1086,1,"\xae"},{1087,1,"\xaf"},{1088,1,"\xe0"},{1089,1,"\xe1"},{1090,1,"\xe2"},{1091,1,"\xe3"},{1092,1,"\xe4"},{1093,1,"\xe5"},{1094,1,"\xe6"},{1095,1,"\xe7"},{1096,1,"\xe8"},{1097,1,"\xe9"},{1098,1,"\xea"},{1099,1,"\xeb"},{1100,1,"\xec"},{1101,1,"\xed"},{1102,1,"\xee"},{1103,1,"\xef"},{1105,1,"\xf1"},{1108,1,"\xf3"},{1111,1,"\xf5"},{1118,1,"\xf7"},{9472,1,"\xc4"},{9474,1,"\xb3"},{9484,1,"\xda"},{9488,1,"\xbf"},{9492,1,"\xc0"},{9496,1,"\xd9"},{9500,1,"\xc3"},{9508,1,"\xb4"},{9516,1,"\xc2"},{9524,1,"\xc1"},{9532,1,"\xc5"},{8470,1,"\xfc"},{8730,1,"\xfb"},
};
static const CsChar cs_34[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\x9a"},{169,1,"\xbf"},{176,1,"\x9c"},{178,1,"\x9d"},{183,1,"\x9e"},{247,1,"\x9f"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{1025,1,"\xb3"},{1040,1,"\xe1"},{1041,1,"\xe2"},{1042,1,"\xf7"},{1043,1,"\xe7"},{1044,1,"\xe4"},{1045,1,"\xe5"},{1046,1,"\xf6"},{1047,1,"\xfa"},{1048,1,"\xe9"},{1049,1,"\xea"},{1050,1,"\xeb"},{1051,1,"\xec"},{1052,1,"\xed"},{1053,1,"\xee"},{1054,1,"\xef"},{1055,1,"\xf0"},{1056,1,"\xf2"},{1057,1,"\xf3"},{1058,1,"\xf4"},{1059,1,"\xf5"},{1060,1,"\xe6"},{1061,1,"\xe8"},{1062,1,"\xe3"},{1063,1,"\xfe"},{1064,1,"\xfb"},{1065,1,"\xfd"},{1066,1,"\xff"},{1067,1,"\xf9"},{1068,1,"\xf8"},{1069,1,"\xfc"},{1070,1,"\xe0"},{1071,1,"\xf1"},{1072,1,"\xc1"},{1073,1,"\xc2"},{1074,1,"\xd7"},{1075,1,"\xc7"},{1076,1,"\xc4"},{1077,1,"\xc5"},{1078,1,"\xd6"},{1079,1,"\xda"},{1080,1,"\xc9"},{1081,1,"\xca"},{1082,1,"\xcb"},{1083,1,"\xcc"},{1084,1,"\xcd"},{1085,1,"\xce"},{1086,1,"\xcf"},{1087,1,"\xd0"},{1088,1,"\xd2"},{1089,1,"\xd3"},{1090,1,"\xd4"},{1091,1,"\xd5"},{1092,1,"\xc6"},{1093,1,"\xc8"},{1094,1,"\xc3"},{1095,1,"\xde"},{1096,1,"\xdb"},{1097,1,"\xdd"},{1098,1,"\xdf"},{1099,1,"\xd9"},{1100,1,"\xd8"},{1101,1,"\xdc"},{1102,1,"\xc0"},{1103,1,"\xd1"},{1105,1,"\xa3"},{9472,1,"\x80"},{9474,1,"\x81"},{9484,1,"\x82"},{9488,1,"\x83"},{9492,1,"\x84"},{9496,1,"\x85"},{9500,1,"\x86"},{9508,1,"\x87"},{9516,1,"\x88"},{9524,1,"\x89"},{9532,1,"\x8a"},{8776,1,"\x97"},{8804,1,"\x98"},{8805,1,"\x99"},{8730,1,"\x96"},
};
static const CsChar cs_35[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\x9a"},{169,1,"\xbf"},{176,1,"\x9c"},{178,1,"\x9d"},{183,1,"\x9e"},{247,1,"\x9f"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{1025,1,"\xb3"},{1028,1,"\xb4"},{1030,1,"\xb6"},{1031,1,"\xb7"},{1040,1,"\xe1"},{1041,1,"\xe2"},{1042,1,"\xf7"},{1043,1,"\xe7"},{1044,1,"\xe4"},{1045,1,"\xe5"},{1046,1,"\xf6"},{1047,1,"\xfa"},{1048,1,"\xe9"},{1049,1,"\xea"},{1050,1,"\xeb"},{1051,1,"\xec"},{1052,1,"\xed"},{1053,1,"\xee"},{1054,1,"\xef"},{1055,1,"\xf0"},{1056,1,"\xf2"},{1057,1,"\xf3"},{1058,1,"\xf4"},{1059,1,"\xf5"},{1060,1,"\xe6"},{1061,1,"\xe8"},{1062,1,"\xe3"},{1063,1,"\xfe"},{1064,1,"\xfb"},{1065,1,"\xfd"},{1066,1,"\xff"},{1067,1,"\xf9"},{1068,1,"\xf8"},{1069,1,"\xfc"},{1070,1,"\xe0"},{1071,1,"\xf1"},{1072,1,"\xc1"},{1073,1,"\xc2"},{1074,1,"\xd7"},{1075,1,"\xc7"},{1076,1,"\xc4"},{1077,1,"\xc5"},{1078,1,"\xd6"},{1079,1,"\xda"},{1080,1,"\xc9"},{1081,1,"\xca"},{1082,1,"\xcb"},{1083,1,"\xcc"},{1084,1,"\xcd"},{1085,1,"\xce"},{1086,1,"\xcf"},{1087,1,"\xd0"},{1088,1,"\xd2"},{1089,1,"\xd3"},{1090,1,"\xd4"},{1091,1,"\xd5"},{1092,1,"\xc6"},{1093,1,"\xc8"},{1094,1,"\xc3"},{1095,1,"\xde"},{1096,1,"\xdb"},{1097,1,"\xdd"},{1098,1,"\xdf"},{1099,1,"\xd9"},{1100,1,"\xd8"},{1101,1,"\xdc"},{1102,1,"\xc0"},{1103,1,"\xd1"},{1105,1,"\xa3"},{1108,1,"\xa4"},{1110,1,"\xa6"},{1111,1,"\xa7"},{1168,1,"\xbd"},{1169,1,"\xad"},{9472,1,"\x80"},{9474,1,"\x81"},{9484,1,"\x82"},{9488,1,"\x83"},{9492,1,"\x84"},{9496,1,"\x85"},{9500,1,"\x86"},{9508,1,"\x87"},{9516,1,"\x88"},{9524,1,"\x89"},{9532,1,"\x8a"},{8776,1,"\x97"},{8804,1,"\x98"},
{8805,1,"\x99"},{8730,1,"\x96"},
};
static const CsChar cs_36[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{3585,1,"\xa1"},{3586,1,"\xa2"},{3587,1,"\xa3"},{3588,1,"\xa4"},{3589,1,"\xa5"},{3590,1,"\xa6"},{3591,1,"\xa7"},{3592,1,"\xa8"},{3593,1,"\xa9"},{3594,1,"\xaa"},{3595,1,"\xab"},{3596,1,"\xac"},{3597,1,"\xad"},{3598,1,"\xae"},{3599,1,"\xaf"},{3600,1,"\xb0"},{3601,1,"\xb1"},{3602,1,"\xb2"},{3603,1,"\xb3"},{3604,1,"\xb4"},{3605,1,"\xb5"},{3606,1,"\xb6"},{3607,1,"\xb7"},{3608,1,"\xb8"},{3609,1,"\xb9"},{3610,1,"\xba"},{3611,1,"\xbb"},{3612,1,"\xbc"},{3613,1,"\xbd"},{3614,1,"\xbe"},{3615,1,"\xbf"},{3616,1,"\xc0"},{3617,1,"\xc1"},{3618,1,"\xc2"},{3619,1,"\xc3"},{3620,1,"\xc4"},{3621,1,"\xc5"},{3622,1,"\xc6"},{3623,1,"\xc7"},{3624,1,"\xc8"},{3625,1,"\xc9"},{3626,1,"\xca"},{3627,1,"\xcb"},{3628,1,"\xcc"},{3629,1,"\xcd"},{3630,1,"\xce"},
};
static const CsChar cs_37[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{160,1,"\xca"},{161,1,"\xc1"},{162,1,"\xa2"},{163,1,"\xa3"},{165,1,"\xb4"},{167,1,"\xa4"},{168,1,"\xac"},{169,1,"\xa9"},{170,1,"\xbb"},{171,1,"\xc7"},{172,1,"\xc2"},{174,1,"\xa8"},{175,1,"\xf8"},{176,1,"\xa1"},{177,1,"\xb1"},{180,1,"\xab"},{181,1,"\xb5"},{182,1,"\xa6"},{183,1,"\xe1"},{184,1,"\xfc"},{186,1,"\xbc"},{187,1,"\xc8"},{191,1,"\xc0"},{192,1,"\xcb"},{193,1,"\xe7"},{194,1,"\xe5"},{195,1,"\xcc"},{196,1,"\x80"},{197,1,"\x81"},{198,1,"\xae"},{199,1,"\x82"},{200,1,"\xe9"},{201,1,"\x83"},{202,1,"\xe6"},{203,1,"\xe8"},{204,1,"\xed"},{205,1,"\xea"},{206,1,"\xeb"},{207,1,"\xec"},{209,1,"\x84"},{210,1,"\xf1"},{211,1,"\xee"},{212,1,"\xef"},{213,1,"\xcd"},{214,1,"\x85"},{216,1,"\xaf"},{217,1,"\xf4"},{218,1,"\xf2"},{219,1,"\xf3"},{220,1,"\x86"},{223,1,"\xa7"},{224,1,"\x88"},{225,1,"\x87"},{226,1,"\x89"},{227,1,"\x8b"},{228,1,"\x8a"},{229,1,"\x8c"},{230,1,"\xbe"},{231,1,"\x8d"},{232,1,"\x8f"},{233,1,"\x8e"},{234,1,"\x90"},{235,1,"\x91"},{236,1,"\x93"},{237,1,"\x92"},{238,1,"\x94"},{239,1,"\x95"},{241,1,"\x96"},{242,1,"\x98"},{243,1,"\x97"},{244,1,"\x99"},{245,1,"\x9b"},{246,1,"\x9a"},{247,1,"\xd6"},{248,1,"\xbf"},{249,1,"\x9d"},{250,1,"\x9c"},{251,1,"\x9e"},{252,1,"\x9f"},{255,1,"\xd8"},{305,1,"\xf5"},{338,1,"\xce"},{339,1,"\xcf"},{376,1,"\xd9"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{937,1,"\xbd"},{960,1,"\xb9"},{8211,1,"\xd0"},{8212,1,"\xd1"},{8216,1,"\xd4"},{8217,1,"\xd5"},{8220,1,"\xd2"},{8221,1,"\xd3"},{8222,1,"\xe3"},{8224,1,"\xa0"},{8225,1,"\xe0"},{8226,1,"\xa5"},{8230,1,"\xc9"},{8240,1,"\xe4"},
{8249,1,"\xdc"},{8250,1,"\xdd"},{8364,1,"\xdb"},{8482,1,"\xaa"},{8734,1,"\xb0"},{8776,1,"\xc5"},{8800,1,"\xad"},{8804,1,"\xb2"},{8805,1,"\xb3"},{8730,1,"\xc3"},{8706,1,"\xb6"},{8721,1,"\xb7"},{8719,1,"\xb8"},{8747,1,"\xba"},{9674,1,"\xd7"},{64257,1,"\xde"},{64258,1,"\xdf"},
};
static const CsChar cs_38[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},
};
static const CsChar cs_39[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{161,3,"\x8f\xa2\xc2"},{162,2,"\xa1\xf1"},{163,2,"\xa1\xf2"},{164,3,"\x8f\xa2\xf0"},{166,3,"\x8f\xa2\xc3"},{167,2,"\xa1\xf8"},{168,2,"\xa1\xaf"},{169,3,"\x8f\xa2\xed"},{170,3,"\x8f\xa2\xec"},{172,2,"\xa2\xcc"},{174,3,"\x8f\xa2\xee"},{175,3,"\x8f\xa2\xb4"},{176,2,"\xa1\xeb"},{177,2,"\xa1\xde"},{180,2,"\xa1\xad"},{182,2,"\xa2\xf9"},{184,3,"\x8f\xa2\xb1"},{186,3,"\x8f\xa2\xeb"},{191,3,"\x8f\xa2\xc4"},{192,3,"\x8f\xaa\xa2"},{193,3,"\x8f\xaa\xa1"},{194,3,"\x8f\xaa\xa4"},{195,3,"\x8f\xaa\xaa"},{196,3,"\x8f\xaa\xa3"},{197,3,"\x8f\xaa\xa9"},{198,3,"\x8f\xa9\xa1"},{199,3,"\x8f\xaa\xae"},{200,3,"\x8f\xaa\xb2"},{201,3,"\x8f\xaa\xb1"},{202,3,"\x8f\xaa\xb4"},{203,3,"\x8f\xaa\xb3"},{204,3,"\x8f\xaa\xc0"},{205,3,"\x8f\xaa\xbf"},{206,3,"\x8f\xaa\xc2"},{207,3,"\x8f\xaa\xc1"},{209,3,"\x8f\xaa\xd0"},{210,3,"\x8f\xaa\xd2"},{211,3,"\x8f\xaa\xd1"},{212,3,"\x8f\xaa\xd4"},{213,3,"\x8f\xaa\xd8"},{214,3,"\x8f\xaa\xd3"},{215,2,"\xa1\xdf"},{216,3,"\x8f\xa9\xac"},{217,3,"\x8f\xaa\xe3"},{218,3,"\x8f\xaa\xe2"},{219,3,"\x8f\xaa\xe5"},{220,3,"\x8f\xaa\xe4"},{221,3,"\x8f\xaa\xf2"},{222,3,"\x8f\xa9\xb0"},{223,3,"\x8f\xa9\xce"},{224,3,"\x8f\xab\xa2"},{225,3,"\x8f\xab\xa1"},{226,3,"\x8f\xab\xa4"},{227,3,"\x8f\xab\xaa"},{228,3,"\x8f\xab\xa3"},{229,3,"\x8f\xab\xa9"},{230,3,"\x8f\xa9\xc1"},{231,3,"\x8f\xab\xae"},{232,3,"\x8f\xab\xb2"},{233,3,"\x8f\xab\xb1"},{234,3,"\x8f\xab\xb4"},{235,3,"\x8f\xab\xb3"},{236,3,"\x8f\xab\xc0"},{237,3,"\x8f\xab\xbf"},{238,3,"\x8f\xab\xc2"},{239,3,"\x8f\xab\xc1"},{240,3,"\x8f\xa9\xc3"},{241,3,"\x8f\xab\xd0"},{242,3,"\x8f\xab\xd2"},{243,3,"\x8f\xab\xd1"},
{244,3,"\x8f\xab\xd4"},{245,3,"\x8f\xab\xd8"},{246,3,"\x8f\xab\xd3"},{247,2,"\xa1\xe0"},{248,3,"\x8f\xa9\xcc"},{249,3,"\x8f\xab\xe3"},{250,3,"\x8f\xab\xe2"},{251,3,"\x8f\xab\xe5"},{252,3,"\x8f\xab\xe4"},{253,3,"\x8f\xab\xf2"},{254,3,"\x8f\xa9\xd0"},{255,3,"\x8f\xab\xf3"},{256,3,"\x8f\xaa\xa7"},{257,3,"\x8f\xab\xa7"},{258,3,"\x8f\xaa\xa5"},{259,3,"\x8f\xab\xa5"},{260,3,"\x8f\xaa\xa8"},{261,3,"\x8f\xab\xa8"},{262,3,"\x8f\xaa\xab"},{263,3,"\x8f\xab\xab"},{264,3,"\x8f\xaa\xac"},{265,3,"\x8f\xab\xac"},{266,3,"\x8f\xaa\xaf"},{267,3,"\x8f\xab\xaf"},{268,3,"\x8f\xaa\xad"},{269,3,"\x8f\xab\xad"},{270,3,"\x8f\xaa\xb0"},{271,3,"\x8f\xab\xb0"},{272,3,"\x8f\xa9\xa2"},{273,3,"\x8f\xa9\xc2"},{274,3,"\x8f\xaa\xb7"},{275,3,"\x8f\xab\xb7"},{278,3,"\x8f\xaa\xb6"},{279,3,"\x8f\xab\xb6"},{280,3,"\x8f\xaa\xb8"},{281,3,"\x8f\xab\xb8"},{282,3,"\x8f\xaa\xb5"},{283,3,"\x8f\xab\xb5"},{284,3,"\x8f\xaa\xba"},{285,3,"\x8f\xab\xba"},{286,3,"\x8f\xaa\xbb"},{287,3,"\x8f\xab\xbb"},{288,3,"\x8f\xaa\xbd"},{289,3,"\x8f\xab\xbd"},{290,3,"\x8f\xaa\xbc"},{292,3,"\x8f\xaa\xbe"},{293,3,"\x8f\xab\xbe"},{294,3,"\x8f\xa9\xa4"},{295,3,"\x8f\xa9\xc4"},{296,3,"\x8f\xaa\xc7"},{297,3,"\x8f\xab\xc7"},{298,3,"\x8f\xaa\xc5"},{299,3,"\x8f\xab\xc5"},{302,3,"\x8f\xaa\xc6"},{303,3,"\x8f\xab\xc6"},{304,3,"\x8f\xaa\xc4"},{305,3,"\x8f\xa9\xc5"},{306,3,"\x8f\xa9\xa6"},{307,3,"\x8f\xa9\xc6"},{308,3,"\x8f\xaa\xc8"},{309,3,"\x8f\xab\xc8"},{310,3,"\x8f\xaa\xc9"},{311,3,"\x8f\xab\xc9"},{312,3,"\x8f\xa9\xc7"},{313,3,"\x8f\xaa\xca"},{314,3,"\x8f\xab\xca"},{315,3,"\x8f\xaa\xcc"},{316,3,"\x8f\xab\xcc"},{317,3,"\x8f\xaa\xcb"},{318,3,"\x8f\xab\xcb"},{319,3,"\x8f\xa9\xa9"},{320,3,"\x8f\xa9\xc9"},{321,3,"\x8f\xa9\xa8"},{322,3,"\x8f\xa9\xc8"},{323,3,"\x8f\xaa\xcd"},{324,3,"\x8f\xab\xcd"},{325,3,"\x8f\xaa\xcf"},{326,3,"\x8f\xab\xcf"},{327,3,"\x8f\xaa\xce"},{328,3,"\x8f\xab\xce"},{329,3,"\x8f\xa9\xca"},{330,3,"\x8f\xa9\xab"},{331,3,"\x8f\xa9\xcb"},{332,3,"\x8f\xaa\xd7"},{333,3,"\x8f\xab\xd7"},{336,3,"\x8f\xaa\xd6"},{337,3,"\x8f\xab\xd6"},{338,3,"\x8f\xa9\xad"},{339,3,"\x8f\xa9\xcd"},{340,3,"\x8f\xaa\xd9"},{341,3,"\x8f\xab\xd9"},{342,3,"\x8f\xaa\xdb"},{343,3,"\x8f\xab\xdb"},{344,3,"\x8f\xaa\xda"},{345,3,"\x8f\xab\xda"},{346,3,"\x8f\xaa\xdc"},{347,3,"\x8f\xab\xdc"},{348,3,"\x8f\xaa\xdd"},{349,3,"\x8f\xab\xdd"},{350,3,"\x8f\xaa\xdf"},{351,3,"\x8f\xab\xdf"},{352,3,"\x8f\xaa\xde"},{353,3,"\x8f\xab\xde"},{354,3,"\x8f\xaa\xe1"},{355,3,"\x8f\xab\xe1"},{356,3,"\x8f\xaa\xe0"},{357,3,"\x8f\xab\xe0"},{358,3,"\x8f\xa9\xaf"},{359,3,"\x8f\xa9\xcf"},{360,3,"\x8f\xaa\xec"},{361,3,"\x8f\xab\xec"},{362,3,"\x8f\xaa\xe9"},{363,3,"\x8f\xab\xe9"},{364,3,"\x8f\xaa\xe6"},{365,3,"\x8f\xab\xe6"},{366,3,"\x8f\xaa\xeb"},{367,3,"\x8f\xab\xeb"},{368,3,"\x8f\xaa\xe8"},{369,3,"\x8f\xab\xe8"},{370,3,"\x8f\xaa\xea"},{371,3,"\x8f\xab\xea"},{372,3,"\x8f\xaa\xf1"},{373,3,"\x8f\xab\xf1"},{374,3,"\x8f\xaa\xf4"},{375,3,"\x8f\xab\xf4"},{376,3,"\x8f\xaa\xf3"},{377,3,"\x8f\xaa\xf5"},{378,3,"\x8f\xab\xf5"},{379,3,"\x8f\xaa\xf7"},{380,3,"\x8f\xab\xf7"},{381,3,"\x8f\xaa\xf6"},
{382,3,"\x8f\xab\xf6"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{900,3,"\x8f\xa2\xb8"},{901,3,"\x8f\xa2\xb9"},{902,3,"\x8f\xa6\xe1"},{904,3,"\x8f\xa6\xe2"},{905,3,"\x8f\xa6\xe3"},{906,3,"\x8f\xa6\xe4"},{908,3,"\x8f\xa6\xe7"},{910,3,"\x8f\xa6\xe9"},{911,3,"\x8f\xa6\xec"},{912,3,"\x8f\xa6\xf6"},{913,2,"\xa6\xa1"},{914,2,"\xa6\xa2"},{915,2,"\xa6\xa3"},{916,2,"\xa6\xa4"},{917,2,"\xa6\xa5"},{918,2,"\xa6\xa6"},{919,2,"\xa6\xa7"},{920,2,"\xa6\xa8"},{921,2,"\xa6\xa9"},{922,2,"\xa6\xaa"},{923,2,"\xa6\xab"},{924,2,"\xa6\xac"},{925,2,"\xa6\xad"},{926,2,"\xa6\xae"},{927,2,"\xa6\xaf"},{928,2,"\xa6\xb0"},{929,2,"\xa6\xb1"},{931,2,"\xa6\xb2"},{932,2,"\xa6\xb3"},{933,2,"\xa6\xb4"},{934,2,"\xa6\xb5"},{935,2,"\xa6\xb6"},{936,2,"\xa6\xb7"},{937,2,"\xa6\xb8"},{938,3,"\x8f\xa6\xe5"},{939,3,"\x8f\xa6\xea"},{940,3,"\x8f\xa6\xf1"},{941,3,"\x8f\xa6\xf2"},{942,3,"\x8f\xa6\xf3"},{943,3,"\x8f\xa6\xf4"},{944,3,"\x8f\xa6\xfb"},{945,2,"\xa6\xc1"},{946,2,"\xa6\xc2"},{947,2,"\xa6\xc3"},{948,2,"\xa6\xc4"},{949,2,"\xa6\xc5"},{950,2,"\xa6\xc6"},{951,2,"\xa6\xc7"},{952,2,"\xa6\xc8"},{953,2,"\xa6\xc9"},{954,2,"\xa6\xca"},{955,2,"\xa6\xcb"},{956,2,"\xa6\xcc"},{957,2,"\xa6\xcd"},{958,2,"\xa6\xce"},{959,2,"\xa6\xcf"},{960,2,"\xa6\xd0"},{961,2,"\xa6\xd1"},{962,3,"\x8f\xa6\xf8"},{963,2,"\xa6\xd2"},{964,2,"\xa6\xd3"},{965,2,"\xa6\xd4"},{966,2,"\xa6\xd5"},{967,2,"\xa6\xd6"},{968,2,"\xa6\xd7"},{969,2,"\xa6\xd8"},{970,3,"\x8f\xa6\xf5"},{971,3,"\x8f\xa6\xfa"},{972,3,"\x8f\xa6\xf7"},{973,3,"\x8f\xa6\xf9"},{974,3,"\x8f\xa6\xfc"},{1025,2,"\xa7\xa7"},{1026,3,"\x8f\xa7\xc2"},{1027,3,"\x8f\xa7\xc3"},{1028,3,"\x8f\xa7\xc4"},{1029,3,"\x8f\xa7\xc5"},{1030,3,"\x8f\xa7\xc6"},{1031,3,"\x8f\xa7\xc7"},{1032,3,"\x8f\xa7\xc8"},{1033,3,"\x8f\xa7\xc9"},{1034,3,"\x8f\xa7\xca"},{1035,3,"\x8f\xa7\xcb"},{1036,3,"\x8f\xa7\xcc"},{1038,3,"\x8f\xa7\xcd"},{1039,3,"\x8f\xa7\xce"},{1040,2,"\xa7\xa1"},{1041,2,"\xa7\xa2"},{1042,2,"\xa7\xa3"},{1043,2,"\xa7\xa4"},{1044,2,"\xa7\xa5"},{1045,2,"\xa7\xa6"},{1046,2,"\xa7\xa8"},{1047,2,"\xa7\xa9"},{1048,2,"\xa7\xaa"},{1049,2,"\xa7\xab"},{1050,2,"\xa7\xac"},{1051,2,"\xa7\xad"},{1052,2,"\xa7\xae"},{1053,2,"\xa7\xaf"},{1054,2,"\xa7\xb0"},{1055,2,"\xa7\xb1"},{1056,2,"\xa7\xb2"},{1057,2,"\xa7\xb3"},{1058,2,"\xa7\xb4"},{1059,2,"\xa7\xb5"},{1060,2,"\xa7\xb6"},{1061,2,"\xa7\xb7"},{1062,2,"\xa7\xb8"},{1063,2,"\xa7\xb9"},{1064,2,"\xa7\xba"},{1065,2,"\xa7\xbb"},{1066,2,"\xa7\xbc"},{1067,2,"\xa7\xbd"},{1068,2,"\xa7\xbe"},{1069,2,"\xa7\xbf"},{1070,2,"\xa7\xc0"},{1071,2,"\xa7\xc1"},{1072,2,"\xa7\xd1"},{1073,2,"\xa7\xd2"},{1074,2,"\xa7\xd3"},{1075,2,"\xa7\xd4"},{1076,2,"\xa7\xd5"},{1077,2,"\xa7\xd6"},{1078,2,"\xa7\xd8"},{1079,2,"\xa7\xd9"},{1080,2,"\xa7\xda"},{1081,2,"\xa7\xdb"},{1082,2,"\xa7\xdc"},{1083,2,"\xa7\xdd"},{1084,2,"\xa7\xde"},{1085,2,"\xa7\xdf"},{1086,2,"\xa7\xe0"},{1087,2,"\xa7\xe1"},{1088,2,"\xa7\xe2"},{1089,2,"\xa7\xe3"},{1090,2,"\xa7\xe4"},{1091,2,"\xa7\xe5"},{1092,2,"\xa7\xe6"},{1093,2,"\xa7\xe7"},{1094,2,"\xa7\xe8"},{1095,2,"\xa7\xe9"},{1096,2,"\xa7\xea"},
{1097,2,"\xa7\xeb"},{1098,2,"\xa7\xec"},{1099,2,"\xa7\xed"},{1100,2,"\xa7\xee"},{1101,2,"\xa7\xef"},{1102,2,"\xa7\xf0"},{1103,2,"\xa7\xf1"},{1105,2,"\xa7\xd7"},{1106,3,"\x8f\xa7\xf2"},{1107,3,"\x8f\xa7\xf3"},{1108,3,"\x8f\xa7\xf4"},{1109,3,"\x8f\xa7\xf5"},{1110,3,"\x8f\xa7\xf6"},{1111,3,"\x8f\xa7\xf7"},{1112,3,"\x8f\xa7\xf8"},{1113,3,"\x8f\xa7\xf9"},{1114,3,"\x8f\xa7\xfa"},{1115,3,"\x8f\xa7\xfb"},{1116,3,"\x8f\xa7\xfc"},{1118,3,"\x8f\xa7\xfd"},{8216,2,"\xa1\xc6"},{8217,2,"\xa1\xc7"},{8220,2,"\xa1\xc8"},{8221,2,"\xa1\xc9"},{8224,2,"\xa2\xf7"},{8225,2,"\xa2\xf8"},{8230,2,"\xa1\xc4"},{8240,2,"\xa2\xf3"},{8482,3,"\x8f\xa2\xef"},{12353,2,"\xa4\xa1"},{12354,2,"\xa4\xa2"},{12355,2,"\xa4\xa3"},{12356,2,"\xa4\xa4"},{12357,2,"\xa4\xa5"},{12358,2,"\xa4\xa6"},{12359,2,"\xa4\xa7"},{12360,2,"\xa4\xa8"},{12361,2,"\xa4\xa9"},{12362,2,"\xa4\xaa"},{12363,2,"\xa4\xab"},{12364,2,"\xa4\xac"},{12365,2,"\xa4\xad"},{12366,2,"\xa4\xae"},{12367,2,"\xa4\xaf"},{12368,2,"\xa4\xb0"},{12369,2,"\xa4\xb1"},{12370,2,"\xa4\xb2"},{12371,2,"\xa4\xb3"},{12372,2,"\xa4\xb4"},{12373,2,"\xa4\xb5"},{12374,2,"\xa4\xb6"},{12375,2,"\xa4\xb7"},{12376,2,"\xa4\xb8"},{12377,2,"\xa4\xb9"},{12378,2,"\xa4\xba"},{12379,2,"\xa4\xbb"},{12380,2,"\xa4\xbc"},{12381,2,"\xa4\xbd"},{12382,2,"\xa4\xbe"},{12383,2,"\xa4\xbf"},{12384,2,"\xa4\xc0"},{12385,2,"\xa4\xc1"},{12386,2,"\xa4\xc2"},{12387,2,"\xa4\xc3"},{12388,2,"\xa4\xc4"},{12389,2,"\xa4\xc5"},{12390,2,"\xa4\xc6"},{12391,2,"\xa4\xc7"},{12392,2,"\xa4\xc8"},{12393,2,"\xa4\xc9"},{12394,2,"\xa4\xca"},{12395,2,"\xa4\xcb"},{12396,2,"\xa4\xcc"},{12397,2,"\xa4\xcd"},{12398,2,"\xa4\xce"},{12399,2,"\xa4\xcf"},{12400,2,"\xa4\xd0"},{12401,2,"\xa4\xd1"},{12402,2,"\xa4\xd2"},{12403,2,"\xa4\xd3"},{12404,2,"\xa4\xd4"},{12405,2,"\xa4\xd5"},{12406,2,"\xa4\xd6"},{12407,2,"\xa4\xd7"},{12408,2,"\xa4\xd8"},{12409,2,"\xa4\xd9"},{12410,2,"\xa4\xda"},{12411,2,"\xa4\xdb"},{12412,2,"\xa4\xdc"},{12413,2,"\xa4\xdd"},{12414,2,"\xa4\xde"},{12415,2,"\xa4\xdf"},{12416,2,"\xa4\xe0"},{12417,2,"\xa4\xe1"},{12418,2,"\xa4\xe2"},{12419,2,"\xa4\xe3"},{12420,2,"\xa4\xe4"},{12421,2,"\xa4\xe5"},{12422,2,"\xa4\xe6"},{12423,2,"\xa4\xe7"},{12424,2,"\xa4\xe8"},{12425,2,"\xa4\xe9"},{12426,2,"\xa4\xea"},{12427,2,"\xa4\xeb"},{12428,2,"\xa4\xec"},{12429,2,"\xa4\xed"},{12430,2,"\xa4\xee"},{12431,2,"\xa4\xef"},{12432,2,"\xa4\xf0"},{12433,2,"\xa4\xf1"},{12434,2,"\xa4\xf2"},{12435,2,"\xa4\xf3"},{12449,2,"\xa5\xa1"},{12450,2,"\xa5\xa2"},{12451,2,"\xa5\xa3"},{12452,2,"\xa5\xa4"},{12453,2,"\xa5\xa5"},{12454,2,"\xa5\xa6"},{12455,2,"\xa5\xa7"},{12456,2,"\xa5\xa8"},{12457,2,"\xa5\xa9"},{12458,2,"\xa5\xaa"},{12459,2,"\xa5\xab"},{12460,2,"\xa5\xac"},{12461,2,"\xa5\xad"},{12462,2,"\xa5\xae"},{12463,2,"\xa5\xaf"},{12464,2,"\xa5\xb0"},{12465,2,"\xa5\xb1"},{12466,2,"\xa5\xb2"},{12467,2,"\xa5\xb3"},{12468,2,"\xa5\xb4"},{12469,2,"\xa5\xb5"},{12470,2,"\xa5\xb6"},{12471,2,"\xa5\xb7"},{12472,2,"\xa5\xb8"},{12473,2,"\xa5\xb9"},{12474,2,"\xa5\xba"},{12475,2,"\xa5\xbb"},{12476,2,"\xa5\xbc"},{12477,2,"\xa5\xbd"},{12478,2,"\xa5\xbe"},
{12479,2,"\xa5\xbf"},{12480,2,"\xa5\xc0"},{12481,2,"\xa5\xc1"},{12482,2,"\xa5\xc2"},{12483,2,"\xa5\xc3"},{12484,2,"\xa5\xc4"},{12485,2,"\xa5\xc5"},{12486,2,"\xa5\xc6"},{12487,2,"\xa5\xc7"},{12488,2,"\xa5\xc8"},{12489,2,"\xa5\xc9"},{12490,2,"\xa5\xca"},{12491,2,"\xa5\xcb"},{12492,2,"\xa5\xcc"},{12493,2,"\xa5\xcd"},{12494,2,"\xa5\xce"},{12495,2,"\xa5\xcf"},{12496,2,"\xa5\xd0"},{12497,2,"\xa5\xd1"},{12498,2,"\xa5\xd2"},{12499,2,"\xa5\xd3"},{12500,2,"\xa5\xd4"},{12501,2,"\xa5\xd5"},{12502,2,"\xa5\xd6"},{12503,2,"\xa5\xd7"},{12504,2,"\xa5\xd8"},{12505,2,"\xa5\xd9"},{12506,2,"\xa5\xda"},{12507,2,"\xa5\xdb"},{12508,2,"\xa5\xdc"},{12509,2,"\xa5\xdd"},{12510,2,"\xa5\xde"},{12511,2,"\xa5\xdf"},{12512,2,"\xa5\xe0"},{12513,2,"\xa5\xe1"},{12514,2,"\xa5\xe2"},{12515,2,"\xa5\xe3"},{12516,2,"\xa5\xe4"},{12517,2,"\xa5\xe5"},{12518,2,"\xa5\xe6"},{12519,2,"\xa5\xe7"},{12520,2,"\xa5\xe8"},{12521,2,"\xa5\xe9"},{12522,2,"\xa5\xea"},{12523,2,"\xa5\xeb"},{12524,2,"\xa5\xec"},{12525,2,"\xa5\xed"},{12526,2,"\xa5\xee"},{12527,2,"\xa5\xef"},{12528,2,"\xa5\xf0"},{12529,2,"\xa5\xf1"},{12530,2,"\xa5\xf2"},{12531,2,"\xa5\xf3"},{12532,2,"\xa5\xf4"},{12533,2,"\xa5\xf5"},{12534,2,"\xa5\xf6"},{12289,2,"\xa1\xa2"},{12290,2,"\xa1\xa3"},{12300,2,"\xa1\xd6"},{12301,2,"\xa1\xd7"},{26085,2,"\xc6\xfc"},{26412,2,"\xcb\xdc"},{35486,2,"\xb8\xec"},{28450,2,"\xb4\xc1"},{23383,2,"\xbb\xfa"},{20013,2,"\xc3\xe6"},{25991,2,"\xca\xb8"},{22283,2,"\xd4\xa2"},{22269,2,"\xb9\xf1"},{39636,2,"\xf1\xf3"},{20307,2,"\xc2\xce"},{32321,2,"\xc8\xcb"},{21488,2,"\xc2\xe6"},{28771,2,"\xdf\xd4"},{28286,2,"\xcf\xd1"},{39321,2,"\xb9\xe1"},{28207,2,"\xb9\xc1"},{32763,2,"\xcb\xdd"},{35695,2,"\xec\xa3"},{36938,2,"\xcd\xb7"},{28216,2,"\xde\xe2"},{25138,2,"\xd9\xa6"},{38283,2,"\xb3\xab"},{22987,2,"\xbb\xcf"},{26032,2,"\xbf\xb7"},{38306,2,"\xb4\xd8"},{38364,2,"\xef\xf0"},{35373,2,"\xc0\xdf"},{32622,2,"\xc3\xd6"},{23450,2,"\xc4\xea"},{35328,2,"\xb8\xc0"},{21517,2,"\xcc\xbe"},{21069,2,"\xc1\xb0"},{20445,2,"\xca\xdd"},{23384,2,"\xc2\xb8"},{21151,2,"\xb8\xf9"},{35377,2,"\xb5\xf6"},{33995,2,"\xb3\xb8"},{32946,2,"\xb0\xe9"},{21549,2,"\xd2\xe2"},{23049,2,"\xd5\xb2"},{35961,2,"\xc9\xbf"},{29854,2,"\xe0\xf9"},{25850,2,"\xda\xb4"},{39184,2,"\xbb\xc1"},{39631,2,"\xf1\xf0"},{29749,2,"\xc8\xfc"},{26543,2,"\xb8\xcf"},{27519,2,"\xdd\xc7"},{19968,2,"\xb0\xec"},{20108,2,"\xc6\xf3"},{19977,2,"\xbb\xb0"},{22235,2,"\xbb\xcd"},{20116,2,"\xb8\xde"},{20845,2,"\xcf\xbb"},{19971,2,"\xbc\xb7"},{20843,2,"\xc8\xac"},{20061,2,"\xb6\xe5"},{21313,2,"\xbd\xbd"},{9472,2,"\xa8\xa1"},{9473,2,"\xa8\xac"},{9474,2,"\xa8\xa2"},{9475,2,"\xa8\xad"},{9484,2,"\xa8\xa3"},{9487,2,"\xa8\xae"},{9488,2,"\xa8\xa4"},{9491,2,"\xa8\xaf"},{9492,2,"\xa8\xa6"},{9495,2,"\xa8\xb1"},{9496,2,"\xa8\xa5"},{9499,2,"\xa8\xb0"},{9500,2,"\xa8\xa7"},{9501,2,"\xa8\xbc"},{9504,2,"\xa8\xb7"},{9507,2,"\xa8\xb2"},{9508,2,"\xa8\xa9"},{9509,2,"\xa8\xbe"},{9512,2,"\xa8\xb9"},{9515,2,"\xa8\xb4"},{9516,2,"\xa8\xa8"},{9519,2,"\xa8\xb8"},{9520,2,"\xa8\xbd"},{9523,2,"\xa8\xb3"},{9524,2,"\xa8\xaa"},{9527,2,"\xa8\xba"},
{9528,2,"\xa8\xbf"},{9531,2,"\xa8\xb5"},{9532,2,"\xa8\xab"},{9535,2,"\xa8\xbb"},{9538,2,"\xa8\xc0"},{9547,2,"\xa8\xb6"},{8470,3,"\x8f\xa2\xf1"},{8734,2,"\xa1\xe7"},{8800,2,"\xa1\xe2"},{8730,2,"\xa2\xe5"},{8706,2,"\xa2\xdf"},{8747,2,"\xa2\xe9"},{12288,2,"\xa1\xa1"},{65345,2,"\xa3\xe1"},{65346,2,"\xa3\xe2"},{65347,2,"\xa3\xe3"},{65340,2,"\xa1\xc0"},{65372,2,"\xa1\xc3"},{65509,2,"\xa1\xef"},{65377,2,"\x8e\xa1"},{65378,2,"\x8e\xa2"},{65379,2,"\x8e\xa3"},{65393,2,"\x8e\xb1"},{65394,2,"\x8e\xb2"},{65395,2,"\x8e\xb3"},{34920,2,"\xc9\xbd"},{20104,2,"\xcd\xbd"},{30003,2,"\xbf\xbd"},{33021,2,"\xc7\xbd"},{36028,2,"\xc5\xbd"},{26292,2,"\xcb\xbd"},{27083,2,"\xb9\xbd"},{22082,2,"\xb1\xbd"},{28012,2,"\xb3\xbd"},{27450,2,"\xb5\xbd"},{22317,2,"\xb7\xbd"},{29674,2,"\xb7\xbe"},{21682,2,"\xba\xe9"},{31168,2,"\xbd\xa8"},{29410,2,"\xe0\xc2"},{34444,2,"\xe9\xd3"},{37675,2,"\xbc\xe2"},{25088,2,"\xd8\xf8"},{33399,2,"\xe7\xe6"},{32114,2,"\xe5\xaf"},{40786,2,"\xf3\xef"},{40845,2,"\xce\xb6"},{40860,2,"\xf3\xfd"},{38000,2,"\xef\xd0"},{39729,2,"\xdd\xb5"},
};
static const CsChar cs_40[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{162,2,"\x81\x91"},{163,2,"\x81\x92"},{167,2,"\x81\x98"},{168,2,"\x81\x4e"},{172,2,"\x81\xca"},{176,2,"\x81\x8b"},{177,2,"\x81\x7d"},{180,2,"\x81\x4c"},{182,2,"\x81\xf7"},{215,2,"\x81\x7e"},{247,2,"\x81\x80"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{913,2,"\x83\x9f"},{914,2,"\x83\xa0"},{915,2,"\x83\xa1"},{916,2,"\x83\xa2"},{917,2,"\x83\xa3"},{918,2,"\x83\xa4"},{919,2,"\x83\xa5"},{920,2,"\x83\xa6"},{921,2,"\x83\xa7"},{922,2,"\x83\xa8"},{923,2,"\x83\xa9"},{924,2,"\x83\xaa"},{925,2,"\x83\xab"},{926,2,"\x83\xac"},{927,2,"\x83\xad"},{928,2,"\x83\xae"},{929,2,"\x83\xaf"},{931,2,"\x83\xb0"},{932,2,"\x83\xb1"},{933,2,"\x83\xb2"},{934,2,"\x83\xb3"},{935,2,"\x83\xb4"},{936,2,"\x83\xb5"},{937,2,"\x83\xb6"},{945,2,"\x83\xbf"},{946,2,"\x83\xc0"},{947,2,"\x83\xc1"},{948,2,"\x83\xc2"},{949,2,"\x83\xc3"},{950,2,"\x83\xc4"},{951,2,"\x83\xc5"},{952,2,"\x83\xc6"},{953,2,"\x83\xc7"},{954,2,"\x83\xc8"},{955,2,"\x83\xc9"},{956,2,"\x83\xca"},{957,2,"\x83\xcb"},{958,2,"\x83\xcc"},{959,2,"\x83\xcd"},{960,2,"\x83\xce"},{961,2,"\x83\xcf"},{963,2,"\x83\xd0"},{964,2,"\x83\xd1"},{965,2,"\x83\xd2"},{966,2,"\x83\xd3"},{967,2,"\x83\xd4"},{968,2,"\x83\xd5"},{969,2,"\x83\xd6"},{1025,2,"\x84\x46"},{1040,2,"\x84\x40"},{1041,2,"\x84\x41"},{1042,2,"\x84\x42"},{1043,2,"\x84\x43"},{1044,2,"\x84\x44"},{1045,2,"\x84\x45"},{1046,2,"\x84\x47"},{1047,2,"\x84\x48"},{1048,2,"\x84\x49"},{1049,2,"\x84\x4a"},{1050,2,"\x84\x4b"},{1051,2,"\x84\x4c"},{1052,2,"\x84\x4d"},{1053,2,"\x84\x4e"},{1054,2,"\x84\x4f"},{1055,2,"\x84\x50"},{1056,2,"\x84\x51"},{1057,2,"\x84\x52"},{1058,2,"\x84\x53"},
{1059,2,"\x84\x54"},{1060,2,"\x84\x55"},{1061,2,"\x84\x56"},{1062,2,"\x84\x57"},{1063,2,"\x84\x58"},{1064,2,"\x84\x59"},{1065,2,"\x84\x5a"},{1066,2,"\x84\x5b"},{1067,2,"\x84\x5c"},{1068,2,"\x84\x5d"},{1069,2,"\x84\x5e"},{1070,2,"\x84\x5f"},{1071,2,"\x84\x60"},{1072,2,"\x84\x70"},{1073,2,"\x84\x71"},{1074,2,"\x84\x72"},{1075,2,"\x84\x73"},{1076,2,"\x84\x74"},{1077,2,"\x84\x75"},{1078,2,"\x84\x77"},{1079,2,"\x84\x78"},{1080,2,"\x84\x79"},{1081,2,"\x84\x7a"},{1082,2,"\x84\x7b"},{1083,2,"\x84\x7c"},{1084,2,"\x84\x7d"},{1085,2,"\x84\x7e"},{1086,2,"\x84\x80"},{1087,2,"\x84\x81"},{1088,2,"\x84\x82"},{1089,2,"\x84\x83"},{1090,2,"\x84\x84"},{1091,2,"\x84\x85"},{1092,2,"\x84\x86"},{1093,2,"\x84\x87"},{1094,2,"\x84\x88"},{1095,2,"\x84\x89"},{1096,2,"\x84\x8a"},{1097,2,"\x84\x8b"},{1098,2,"\x84\x8c"},{1099,2,"\x84\x8d"},{1100,2,"\x84\x8e"},{1101,2,"\x84\x8f"},{1102,2,"\x84\x90"},{1103,2,"\x84\x91"},{1105,2,"\x84\x76"},{8216,2,"\x81\x65"},{8217,2,"\x81\x66"},{8220,2,"\x81\x67"},{8221,2,"\x81\x68"},{8224,2,"\x81\xf5"},{8225,2,"\x81\xf6"},{8230,2,"\x81\x63"},{8240,2,"\x81\xf1"},{12353,2,"\x82\x9f"},{12354,2,"\x82\xa0"},{12355,2,"\x82\xa1"},{12356,2,"\x82\xa2"},{12357,2,"\x82\xa3"},{12358,2,"\x82\xa4"},{12359,2,"\x82\xa5"},{12360,2,"\x82\xa6"},{12361,2,"\x82\xa7"},{12362,2,"\x82\xa8"},{12363,2,"\x82\xa9"},{12364,2,"\x82\xaa"},{12365,2,"\x82\xab"},{12366,2,"\x82\xac"},{12367,2,"\x82\xad"},{12368,2,"\x82\xae"},{12369,2,"\x82\xaf"},{12370,2,"\x82\xb0"},{12371,2,"\x82\xb1"},{12372,2,"\x82\xb2"},{12373,2,"\x82\xb3"},{12374,2,"\x82\xb4"},{12375,2,"\x82\xb5"},{12376,2,"\x82\xb6"},{12377,2,"\x82\xb7"},{12378,2,"\x82\xb8"},{12379,2,"\x82\xb9"},{12380,2,"\x82\xba"},{12381,2,"\x82\xbb"},{12382,2,"\x82\xbc"},{12383,2,"\x82\xbd"},{12384,2,"\x82\xbe"},{12385,2,"\x82\xbf"},{12386,2,"\x82\xc0"},{12387,2,"\x82\xc1"},{12388,2,"\x82\xc2"},{12389,2,"\x82\xc3"},{12390,2,"\x82\xc4"},{12391,2,"\x82\xc5"},{12392,2,"\x82\xc6"},{12393,2,"\x82\xc7"},{12394,2,"\x82\xc8"},{12395,2,"\x82\xc9"},{12396,2,"\x82\xca"},{12397,2,"\x82\xcb"},{12398,2,"\x82\xcc"},{12399,2,"\x82\xcd"},{12400,2,"\x82\xce"},{12401,2,"\x82\xcf"},{12402,2,"\x82\xd0"},{12403,2,"\x82\xd1"},{12404,2,"\x82\xd2"},{12405,2,"\x82\xd3"},{12406,2,"\x82\xd4"},{12407,2,"\x82\xd5"},{12408,2,"\x82\xd6"},{12409,2,"\x82\xd7"},{12410,2,"\x82\xd8"},{12411,2,"\x82\xd9"},{12412,2,"\x82\xda"},{12413,2,"\x82\xdb"},{12414,2,"\x82\xdc"},{12415,2,"\x82\xdd"},{12416,2,"\x82\xde"},{12417,2,"\x82\xdf"},{12418,2,"\x82\xe0"},{12419,2,"\x82\xe1"},{12420,2,"\x82\xe2"},{12421,2,"\x82\xe3"},{12422,2,"\x82\xe4"},{12423,2,"\x82\xe5"},{12424,2,"\x82\xe6"},{12425,2,"\x82\xe7"},{12426,2,"\x82\xe8"},{12427,2,"\x82\xe9"},{12428,2,"\x82\xea"},{12429,2,"\x82\xeb"},{12430,2,"\x82\xec"},{12431,2,"\x82\xed"},{12432,2,"\x82\xee"},{12433,2,"\x82\xef"},{12434,2,"\x82\xf0"},{12435,2,"\x82\xf1"},{12449,2,"\x83\x40"},{12450,2,"\x83\x41"},{12451,2,"\x83\x42"},{12452,2,"\x83\x43"},{12453,2,"\x83\x44"},{12454,2,"\x83\x45"},{12455,2,"\x83\x46"},{12456,2,"\x83\x47"},{12457,2,"\x83\x48"},
{12458,2,"\x83\x49"},{12459,2,"\x83\x4a"},{12460,2,"\x83\x4b"},{12461,2,"\x83\x4c"},{12462,2,"\x83\x4d"},{12463,2,"\x83\x4e"},{12464,2,"\x83\x4f"},{12465,2,"\x83\x50"},{12466,2,"\x83\x51"},{12467,2,"\x83\x52"},{12468,2,"\x83\x53"},{12469,2,"\x83\x54"},{12470,2,"\x83\x55"},{12471,2,"\x83\x56"},{12472,2,"\x83\x57"},{12473,2,"\x83\x58"},{12474,2,"\x83\x59"},{12475,2,"\x83\x5a"},{12476,2,"\x83\x5b"},{12477,2,"\x83\x5c"},{12478,2,"\x83\x5d"},{12479,2,"\x83\x5e"},{12480,2,"\x83\x5f"},{12481,2,"\x83\x60"},{12482,2,"\x83\x61"},{12483,2,"\x83\x62"},{12484,2,"\x83\x63"},{12485,2,"\x83\x64"},{12486,2,"\x83\x65"},{12487,2,"\x83\x66"},{12488,2,"\x83\x67"},{12489,2,"\x83\x68"},{12490,2,"\x83\x69"},{12491,2,"\x83\x6a"},{12492,2,"\x83\x6b"},{12493,2,"\x83\x6c"},{12494,2,"\x83\x6d"},{12495,2,"\x83\x6e"},{12496,2,"\x83\x6f"},{12497,2,"\x83\x70"},{12498,2,"\x83\x71"},{12499,2,"\x83\x72"},{12500,2,"\x83\x73"},{12501,2,"\x83\x74"},{12502,2,"\x83\x75"},{12503,2,"\x83\x76"},{12504,2,"\x83\x77"},{12505,2,"\x83\x78"},{12506,2,"\x83\x79"},{12507,2,"\x83\x7a"},{12508,2,"\x83\x7b"},{12509,2,"\x83\x7c"},{12510,2,"\x83\x7d"},{12511,2,"\x83\x7e"},{12512,2,"\x83\x80"},{12513,2,"\x83\x81"},{12514,2,"\x83\x82"},{12515,2,"\x83\x83"},{12516,2,"\x83\x84"},{12517,2,"\x83\x85"},{12518,2,"\x83\x86"},{12519,2,"\x83\x87"},{12520,2,"\x83\x88"},{12521,2,"\x83\x89"},{12522,2,"\x83\x8a"},{12523,2,"\x83\x8b"},{12524,2,"\x83\x8c"},{12525,2,"\x83\x8d"},{12526,2,"\x83\x8e"},{12527,2,"\x83\x8f"},{12528,2,"\x83\x90"},{12529,2,"\x83\x91"},{12530,2,"\x83\x92"},{12531,2,"\x83\x93"},{12532,2,"\x83\x94"},{12533,2,"\x83\x95"},{12534,2,"\x83\x96"},{12289,2,"\x81\x41"},{12290,2,"\x81\x42"},{12300,2,"\x81\x75"},{12301,2,"\x81\x76"},{26085,2,"\x93\xfa"},{26412,2,"\x96\x7b"},{35486,2,"\x8c\xea"},{28450,2,"\x8a\xbf"},{23383,2,"\x8e\x9a"},{20013,2,"\x92\x86"},{25991,2,"\x95\xb6"},{22283,2,"\x9a\xa0"},{22269,2,"\x8d\x91"},{39636,2,"\xe9\x93"},{20307,2,"\x91\xcc"},{32321,2,"\x94\xc9"},{21488,2,"\x91\xe4"},{28771,2,"\xe0\x73"},{28286,2,"\x98\x70"},{39321,2,"\x8d\x81"},{28207,2,"\x8d\x60"},{32763,2,"\x96\x7c"},{35695,2,"\xe6\xa1"},{36938,2,"\x97\x56"},{28216,2,"\x9f\xe0"},{25138,2,"\x9d\x45"},{38283,2,"\x8a\x4a"},{22987,2,"\x8e\x6e"},{26032,2,"\x90\x56"},{38306,2,"\x8a\xd6"},{38364,2,"\xe8\x90"},{35373,2,"\x90\xdd"},{32622,2,"\x92\x75"},{23450,2,"\x92\xe8"},{35328,2,"\x8c\xbe"},{21517,2,"\x96\xbc"},{21069,2,"\x91\x4f"},{20445,2,"\x95\xdb"},{23384,2,"\x91\xb6"},{21151,2,"\x8c\xf7"},{35377,2,"\x8b\x96"},{33995,2,"\x8a\x57"},{32946,2,"\x88\xe7"},{21549,2,"\x99\xe0"},{23049,2,"\x9b\x51"},{35961,2,"\x95\x5e"},{29854,2,"\xe0\xf7"},{25850,2,"\x9d\xb2"},{39184,2,"\x8e\x60"},{39631,2,"\xe9\x90"},{29749,2,"\x94\xfa"},{26543,2,"\x8c\xcd"},{27519,2,"\x9f\x66"},{19968,2,"\x88\xea"},{20108,2,"\x93\xf1"},{19977,2,"\x8e\x4f"},{22235,2,"\x8e\x6c"},{20116,2,"\x8c\xdc"},{20845,2,"\x98\x5a"},{19971,2,"\x8e\xb5"},{20843,2,"\x94\xaa"},{20061,2,"\x8b\xe3"},{21313,2,"\x8f\x5c"},{9472,2,"\x84\x9f"},{9473,2,"\x84\xaa"},{9474,2,"\x84\xa0"},{9475,2,"\x84\xab"},
{9484,2,"\x84\xa1"},{9487,2,"\x84\xac"},{9488,2,"\x84\xa2"},{9491,2,"\x84\xad"},{9492,2,"\x84\xa4"},{9495,2,"\x84\xaf"},{9496,2,"\x84\xa3"},{9499,2,"\x84\xae"},{9500,2,"\x84\xa5"},{9501,2,"\x84\xba"},{9504,2,"\x84\xb5"},{9507,2,"\x84\xb0"},{9508,2,"\x84\xa7"},{9509,2,"\x84\xbc"},{9512,2,"\x84\xb7"},{9515,2,"\x84\xb2"},{9516,2,"\x84\xa6"},{9519,2,"\x84\xb6"},{9520,2,"\x84\xbb"},{9523,2,"\x84\xb1"},{9524,2,"\x84\xa8"},{9527,2,"\x84\xb8"},{9528,2,"\x84\xbd"},{9531,2,"\x84\xb3"},{9532,2,"\x84\xa9"},{9535,2,"\x84\xb9"},{9538,2,"\x84\xbe"},{9547,2,"\x84\xb4"},{8734,2,"\x81\x87"},{8800,2,"\x81\x82"},{8730,2,"\x81\xe3"},{8706,2,"\x81\xdd"},{8747,2,"\x81\xe7"},{12288,2,"\x81\x40"},{65345,2,"\x82\x81"},{65346,2,"\x82\x82"},{65347,2,"\x82\x83"},{65340,2,"\x81\x5f"},{65372,2,"\x81\x62"},{65509,2,"\x81\x8f"},{65377,1,"\xa1"},{65378,1,"\xa2"},{65379,1,"\xa3"},{65393,1,"\xb1"},{65394,1,"\xb2"},{65395,1,"\xb3"},{34920,2,"\x95\x5c"},{20104,2,"\x97\x5c"},{30003,2,"\x90\x5c"},{33021,2,"\x94\x5c"},{36028,2,"\x93\x5c"},{26292,2,"\x96\x5c"},{27083,2,"\x8d\x5c"},{22082,2,"\x89\x5c"},{28012,2,"\x8a\x5c"},{27450,2,"\x8b\x5c"},{22317,2,"\x8c\x5c"},{29674,2,"\x8c\x5d"},{21682,2,"\x8d\xe7"},{31168,2,"\x8f\x47"},{29410,2,"\xe0\xc0"},{34444,2,"\xe5\x72"},{37675,2,"\x8e\xe0"},{25088,2,"\x9c\xf6"},{33399,2,"\xe4\x86"},{32114,2,"\xe3\x4e"},{40786,2,"\xea\x8f"},{40845,2,"\x97\xb4"},{40860,2,"\xea\x9d"},{38000,2,"\xe8\x6f"},{39729,2,"\x9f\x54"},
};
static const CsChar cs_41[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{161,2,"\xa2\xae"},{164,2,"\xa2\xb4"},{167,2,"\xa1\xd7"},{168,2,"\xa1\xa7"},{170,2,"\xa8\xa3"},{173,2,"\xa1\xa9"},{174,2,"\xa2\xe7"},{176,2,"\xa1\xc6"},{177,2,"\xa1\xbe"},{178,2,"\xa9\xf7"},{179,2,"\xa9\xf8"},{180,2,"\xa2\xa5"},{182,2,"\xa2\xd2"},{183,2,"\xa1\xa4"},{184,2,"\xa2\xac"},{185,2,"\xa9\xf6"},{186,2,"\xa8\xac"},{188,2,"\xa8\xf9"},{189,2,"\xa8\xf6"},{190,2,"\xa8\xfa"},{191,2,"\xa2\xaf"},{198,2,"\xa8\xa1"},{208,2,"\xa8\xa2"},{215,2,"\xa1\xbf"},{216,2,"\xa8\xaa"},{222,2,"\xa8\xad"},{223,2,"\xa9\xac"},{230,2,"\xa9\xa1"},{240,2,"\xa9\xa3"},{247,2,"\xa1\xc0"},{248,2,"\xa9\xaa"},{254,2,"\xa9\xad"},{273,2,"\xa9\xa2"},{294,2,"\xa8\xa4"},{295,2,"\xa9\xa4"},{305,2,"\xa9\xa5"},{306,2,"\xa8\xa6"},{307,2,"\xa9\xa6"},{312,2,"\xa9\xa7"},{319,2,"\xa8\xa8"},{320,2,"\xa9\xa8"},{321,2,"\xa8\xa9"},{322,2,"\xa9\xa9"},{329,2,"\xa9\xb0"},{330,2,"\xa8\xaf"},{331,2,"\xa9\xaf"},{338,2,"\xa8\xab"},{339,2,"\xa9\xab"},{358,2,"\xa8\xae"},{359,2,"\xa9\xae"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{913,2,"\xa5\xc1"},{914,2,"\xa5\xc2"},{915,2,"\xa5\xc3"},{916,2,"\xa5\xc4"},{917,2,"\xa5\xc5"},{918,2,"\xa5\xc6"},{919,2,"\xa5\xc7"},{920,2,"\xa5\xc8"},{921,2,"\xa5\xc9"},{922,2,"\xa5\xca"},{923,2,"\xa5\xcb"},{924,2,"\xa5\xcc"},{925,2,"\xa5\xcd"},{926,2,"\xa5\xce"},{927,2,"\xa5\xcf"},{928,2,"\xa5\xd0"},{929,2,"\xa5\xd1"},{931,2,"\xa5\xd2"},{932,2,"\xa5\xd3"},{933,2,"\xa5\xd4"},{934,2,"\xa5\xd5"},{935,2,"\xa5\xd6"},{936,2,"\xa5\xd7"},{937,2,"\xa5\xd8"},{945,2,"\xa5\xe1"},{946,2,"\xa5\xe2"},{947,2,"\xa5\xe3"},{948,2,"\xa5\xe4"},
{949,2,"\xa5\xe5"},{950,2,"\xa5\xe6"},{951,2,"\xa5\xe7"},{952,2,"\xa5\xe8"},{953,2,"\xa5\xe9"},{954,2,"\xa5\xea"},{955,2,"\xa5\xeb"},{956,2,"\xa5\xec"},{957,2,"\xa5\xed"},{958,2,"\xa5\xee"},{959,2,"\xa5\xef"},{960,2,"\xa5\xf0"},{961,2,"\xa5\xf1"},{963,2,"\xa5\xf2"},{964,2,"\xa5\xf3"},{965,2,"\xa5\xf4"},{966,2,"\xa5\xf5"},{967,2,"\xa5\xf6"},{968,2,"\xa5\xf7"},{969,2,"\xa5\xf8"},{1025,2,"\xac\xa7"},{1040,2,"\xac\xa1"},{1041,2,"\xac\xa2"},{1042,2,"\xac\xa3"},{1043,2,"\xac\xa4"},{1044,2,"\xac\xa5"},{1045,2,"\xac\xa6"},{1046,2,"\xac\xa8"},{1047,2,"\xac\xa9"},{1048,2,"\xac\xaa"},{1049,2,"\xac\xab"},{1050,2,"\xac\xac"},{1051,2,"\xac\xad"},{1052,2,"\xac\xae"},{1053,2,"\xac\xaf"},{1054,2,"\xac\xb0"},{1055,2,"\xac\xb1"},{1056,2,"\xac\xb2"},{1057,2,"\xac\xb3"},{1058,2,"\xac\xb4"},{1059,2,"\xac\xb5"},{1060,2,"\xac\xb6"},{1061,2,"\xac\xb7"},{1062,2,"\xac\xb8"},{1063,2,"\xac\xb9"},{1064,2,"\xac\xba"},{1065,2,"\xac\xbb"},{1066,2,"\xac\xbc"},{1067,2,"\xac\xbd"},{1068,2,"\xac\xbe"},{1069,2,"\xac\xbf"},{1070,2,"\xac\xc0"},{1071,2,"\xac\xc1"},{1072,2,"\xac\xd1"},{1073,2,"\xac\xd2"},{1074,2,"\xac\xd3"},{1075,2,"\xac\xd4"},{1076,2,"\xac\xd5"},{1077,2,"\xac\xd6"},{1078,2,"\xac\xd8"},{1079,2,"\xac\xd9"},{1080,2,"\xac\xda"},{1081,2,"\xac\xdb"},{1082,2,"\xac\xdc"},{1083,2,"\xac\xdd"},{1084,2,"\xac\xde"},{1085,2,"\xac\xdf"},{1086,2,"\xac\xe0"},{1087,2,"\xac\xe1"},{1088,2,"\xac\xe2"},{1089,2,"\xac\xe3"},{1090,2,"\xac\xe4"},{1091,2,"\xac\xe5"},{1092,2,"\xac\xe6"},{1093,2,"\xac\xe7"},{1094,2,"\xac\xe8"},{1095,2,"\xac\xe9"},{1096,2,"\xac\xea"},{1097,2,"\xac\xeb"},{1098,2,"\xac\xec"},{1099,2,"\xac\xed"},{1100,2,"\xac\xee"},{1101,2,"\xac\xef"},{1102,2,"\xac\xf0"},{1103,2,"\xac\xf1"},{1105,2,"\xac\xd7"},{8216,2,"\xa1\xae"},{8217,2,"\xa1\xaf"},{8220,2,"\xa1\xb0"},{8221,2,"\xa1\xb1"},{8224,2,"\xa2\xd3"},{8225,2,"\xa2\xd4"},{8230,2,"\xa1\xa6"},{8240,2,"\xa2\xb6"},{8364,2,"\xa2\xe6"},{8482,2,"\xa2\xe2"},{12353,2,"\xaa\xa1"},{12354,2,"\xaa\xa2"},{12355,2,"\xaa\xa3"},{12356,2,"\xaa\xa4"},{12357,2,"\xaa\xa5"},{12358,2,"\xaa\xa6"},{12359,2,"\xaa\xa7"},{12360,2,"\xaa\xa8"},{12361,2,"\xaa\xa9"},{12362,2,"\xaa\xaa"},{12363,2,"\xaa\xab"},{12364,2,"\xaa\xac"},{12365,2,"\xaa\xad"},{12366,2,"\xaa\xae"},{12367,2,"\xaa\xaf"},{12368,2,"\xaa\xb0"},{12369,2,"\xaa\xb1"},{12370,2,"\xaa\xb2"},{12371,2,"\xaa\xb3"},{12372,2,"\xaa\xb4"},{12373,2,"\xaa\xb5"},{12374,2,"\xaa\xb6"},{12375,2,"\xaa\xb7"},{12376,2,"\xaa\xb8"},{12377,2,"\xaa\xb9"},{12378,2,"\xaa\xba"},{12379,2,"\xaa\xbb"},{12380,2,"\xaa\xbc"},{12381,2,"\xaa\xbd"},{12382,2,"\xaa\xbe"},{12383,2,"\xaa\xbf"},{12384,2,"\xaa\xc0"},{12385,2,"\xaa\xc1"},{12386,2,"\xaa\xc2"},{12387,2,"\xaa\xc3"},{12388,2,"\xaa\xc4"},{12389,2,"\xaa\xc5"},{12390,2,"\xaa\xc6"},{12391,2,"\xaa\xc7"},{12392,2,"\xaa\xc8"},{12393,2,"\xaa\xc9"},{12394,2,"\xaa\xca"},{12395,2,"\xaa\xcb"},{12396,2,"\xaa\xcc"},{12397,2,"\xaa\xcd"},{12398,2,"\xaa\xce"},{12399,2,"\xaa\xcf"},{12400,2,"\xaa\xd0"},{12401,2,"\xaa\xd1"},{12402,2,"\xaa\xd2"},{12403,2,"\xaa\xd3"},{12404,2,"\xaa\xd4"},{12405,2,"\xaa\xd5"},
{12406,2,"\xaa\xd6"},{12407,2,"\xaa\xd7"},{12408,2,"\xaa\xd8"},{12409,2,"\xaa\xd9"},{12410,2,"\xaa\xda"},{12411,2,"\xaa\xdb"},{12412,2,"\xaa\xdc"},{12413,2,"\xaa\xdd"},{12414,2,"\xaa\xde"},{12415,2,"\xaa\xdf"},{12416,2,"\xaa\xe0"},{12417,2,"\xaa\xe1"},{12418,2,"\xaa\xe2"},{12419,2,"\xaa\xe3"},{12420,2,"\xaa\xe4"},{12421,2,"\xaa\xe5"},{12422,2,"\xaa\xe6"},{12423,2,"\xaa\xe7"},{12424,2,"\xaa\xe8"},{12425,2,"\xaa\xe9"},{12426,2,"\xaa\xea"},{12427,2,"\xaa\xeb"},{12428,2,"\xaa\xec"},{12429,2,"\xaa\xed"},{12430,2,"\xaa\xee"},{12431,2,"\xaa\xef"},{12432,2,"\xaa\xf0"},{12433,2,"\xaa\xf1"},{12434,2,"\xaa\xf2"},{12435,2,"\xaa\xf3"},{12449,2,"\xab\xa1"},{12450,2,"\xab\xa2"},{12451,2,"\xab\xa3"},{12452,2,"\xab\xa4"},{12453,2,"\xab\xa5"},{12454,2,"\xab\xa6"},{12455,2,"\xab\xa7"},{12456,2,"\xab\xa8"},{12457,2,"\xab\xa9"},{12458,2,"\xab\xaa"},{12459,2,"\xab\xab"},{12460,2,"\xab\xac"},{12461,2,"\xab\xad"},{12462,2,"\xab\xae"},{12463,2,"\xab\xaf"},{12464,2,"\xab\xb0"},{12465,2,"\xab\xb1"},{12466,2,"\xab\xb2"},{12467,2,"\xab\xb3"},{12468,2,"\xab\xb4"},{12469,2,"\xab\xb5"},{12470,2,"\xab\xb6"},{12471,2,"\xab\xb7"},{12472,2,"\xab\xb8"},{12473,2,"\xab\xb9"},{12474,2,"\xab\xba"},{12475,2,"\xab\xbb"},{12476,2,"\xab\xbc"},{12477,2,"\xab\xbd"},{12478,2,"\xab\xbe"},{12479,2,"\xab\xbf"},{12480,2,"\xab\xc0"},{12481,2,"\xab\xc1"},{12482,2,"\xab\xc2"},{12483,2,"\xab\xc3"},{12484,2,"\xab\xc4"},{12485,2,"\xab\xc5"},{12486,2,"\xab\xc6"},{12487,2,"\xab\xc7"},{12488,2,"\xab\xc8"},{12489,2,"\xab\xc9"},{12490,2,"\xab\xca"},{12491,2,"\xab\xcb"},{12492,2,"\xab\xcc"},{12493,2,"\xab\xcd"},{12494,2,"\xab\xce"},{12495,2,"\xab\xcf"},{12496,2,"\xab\xd0"},{12497,2,"\xab\xd1"},{12498,2,"\xab\xd2"},{12499,2,"\xab\xd3"},{12500,2,"\xab\xd4"},{12501,2,"\xab\xd5"},{12502,2,"\xab\xd6"},{12503,2,"\xab\xd7"},{12504,2,"\xab\xd8"},{12505,2,"\xab\xd9"},{12506,2,"\xab\xda"},{12507,2,"\xab\xdb"},{12508,2,"\xab\xdc"},{12509,2,"\xab\xdd"},{12510,2,"\xab\xde"},{12511,2,"\xab\xdf"},{12512,2,"\xab\xe0"},{12513,2,"\xab\xe1"},{12514,2,"\xab\xe2"},{12515,2,"\xab\xe3"},{12516,2,"\xab\xe4"},{12517,2,"\xab\xe5"},{12518,2,"\xab\xe6"},{12519,2,"\xab\xe7"},{12520,2,"\xab\xe8"},{12521,2,"\xab\xe9"},{12522,2,"\xab\xea"},{12523,2,"\xab\xeb"},{12524,2,"\xab\xec"},{12525,2,"\xab\xed"},{12526,2,"\xab\xee"},{12527,2,"\xab\xef"},{12528,2,"\xab\xf0"},{12529,2,"\xab\xf1"},{12530,2,"\xab\xf2"},{12531,2,"\xab\xf3"},{12532,2,"\xab\xf4"},{12533,2,"\xab\xf5"},{12534,2,"\xab\xf6"},{12289,2,"\xa1\xa2"},{12290,2,"\xa1\xa3"},{12300,2,"\xa1\xb8"},{12301,2,"\xa1\xb9"},{26085,2,"\xec\xed"},{26412,2,"\xdc\xe2"},{35486,2,"\xe5\xde"},{28450,2,"\xf9\xd3"},{23383,2,"\xed\xae"},{20013,2,"\xf1\xe9"},{25991,2,"\xd9\xfe"},{22283,2,"\xcf\xd0"},{39636,2,"\xf4\xf7"},{32321,2,"\xdb\xe5"},{21488,2,"\xf7\xbb"},{28771,2,"\xd8\xbd"},{39321,2,"\xfa\xc5"},{28207,2,"\xf9\xfb"},{35695,2,"\xe6\xbb"},{36938,2,"\xeb\xb4"},{28216,2,"\xea\xfd"},{38283,2,"\xcb\xd2"},{22987,2,"\xe3\xb7"},{26032,2,"\xe3\xe6"},{38364,2,"\xce\xbc"},{35373,2,"\xe0\xe2"},{32622,2,"\xf6\xc7"},
{23450,2,"\xef\xd2"},{35328,2,"\xe5\xeb"},{21517,2,"\xd9\xa3"},{21069,2,"\xee\xf1"},{20445,2,"\xdc\xc1"},{23384,2,"\xf0\xed"},{21151,2,"\xcd\xed"},{35377,2,"\xfa\xc9"},{33995,2,"\xcb\xcf"},{32946,2,"\xeb\xc0"},{35961,2,"\xf8\xfb"},{29854,2,"\xda\xd7"},{25850,2,"\xf7\xec"},{39184,2,"\xf3\xc9"},{29749,2,"\xdd\xf5"},{26543,2,"\xcd\xbd"},{27519,2,"\xd9\xd1"},{19968,2,"\xec\xe9"},{20108,2,"\xec\xa3"},{19977,2,"\xdf\xb2"},{22235,2,"\xde\xcc"},{20116,2,"\xe7\xe9"},{20845,2,"\xd7\xbf"},{19971,2,"\xf6\xd2"},{20843,2,"\xf8\xa2"},{20061,2,"\xce\xfa"},{21313,2,"\xe4\xa8"},{44032,2,"\xb0\xa1"},{44033,2,"\xb0\xa2"},{44036,2,"\xb0\xa3"},{44039,2,"\xb0\xa4"},{44040,2,"\xb0\xa5"},{44041,2,"\xb0\xa6"},{44042,2,"\xb0\xa7"},{44048,2,"\xb0\xa8"},{44049,2,"\xb0\xa9"},{44050,2,"\xb0\xaa"},{44051,2,"\xb0\xab"},{44052,2,"\xb0\xac"},{44053,2,"\xb0\xad"},{44054,2,"\xb0\xae"},{44055,2,"\xb0\xaf"},{44057,2,"\xb0\xb0"},{44058,2,"\xb0\xb1"},{44059,2,"\xb0\xb2"},{44060,2,"\xb0\xb3"},{44061,2,"\xb0\xb4"},{54620,2,"\xc7\xd1"},{44397,2,"\xb1\xb9"},{50612,2,"\xbe\xee"},{44172,2,"\xb0\xd4"},{51076,2,"\xc0\xd3"},{49884,2,"\xbd\xc3"},{51089,2,"\xc0\xdb"},{49444,2,"\xbc\xb3"},{51221,2,"\xc1\xa4"},{51200,2,"\xc0\xfa"},{51109,2,"\xc0\xe5"},{9472,2,"\xa6\xa1"},{9473,2,"\xa6\xac"},{9474,2,"\xa6\xa2"},{9475,2,"\xa6\xad"},{9484,2,"\xa6\xa3"},{9485,2,"\xa6\xc8"},{9486,2,"\xa6\xc7"},{9487,2,"\xa6\xae"},{9488,2,"\xa6\xa4"},{9489,2,"\xa6\xc2"},{9490,2,"\xa6\xc1"},{9491,2,"\xa6\xaf"},{9492,2,"\xa6\xa6"},{9493,2,"\xa6\xc6"},{9494,2,"\xa6\xc5"},{9495,2,"\xa6\xb1"},{9496,2,"\xa6\xa5"},{9497,2,"\xa6\xc4"},{9498,2,"\xa6\xc3"},{9499,2,"\xa6\xb0"},{9500,2,"\xa6\xa7"},{9501,2,"\xa6\xbc"},{9502,2,"\xa6\xc9"},{9503,2,"\xa6\xca"},{9504,2,"\xa6\xb7"},{9505,2,"\xa6\xcb"},{9506,2,"\xa6\xcc"},{9507,2,"\xa6\xb2"},{9508,2,"\xa6\xa9"},{9509,2,"\xa6\xbe"},{9510,2,"\xa6\xcd"},{9511,2,"\xa6\xce"},{9512,2,"\xa6\xb9"},{9513,2,"\xa6\xcf"},{9514,2,"\xa6\xd0"},{9515,2,"\xa6\xb4"},{9516,2,"\xa6\xa8"},{9517,2,"\xa6\xd1"},{9518,2,"\xa6\xd2"},{9519,2,"\xa6\xb8"},{9520,2,"\xa6\xbd"},{9521,2,"\xa6\xd3"},{9522,2,"\xa6\xd4"},{9523,2,"\xa6\xb3"},{9524,2,"\xa6\xaa"},{9525,2,"\xa6\xd5"},{9526,2,"\xa6\xd6"},{9527,2,"\xa6\xba"},{9528,2,"\xa6\xbf"},{9529,2,"\xa6\xd7"},{9530,2,"\xa6\xd8"},{9531,2,"\xa6\xb5"},{9532,2,"\xa6\xab"},{9533,2,"\xa6\xd9"},{9534,2,"\xa6\xda"},{9535,2,"\xa6\xbb"},{9536,2,"\xa6\xdb"},{9537,2,"\xa6\xdc"},{9538,2,"\xa6\xc0"},{9539,2,"\xa6\xdd"},{9540,2,"\xa6\xde"},{9541,2,"\xa6\xdf"},{9542,2,"\xa6\xe0"},{9543,2,"\xa6\xe1"},{9544,2,"\xa6\xe2"},{9545,2,"\xa6\xe3"},{9546,2,"\xa6\xe4"},{9547,2,"\xa6\xb6"},{8470,2,"\xa2\xe0"},{8734,2,"\xa1\xc4"},{8800,2,"\xa1\xc1"},{8804,2,"\xa1\xc2"},{8805,2,"\xa1\xc3"},{8730,2,"\xa1\xee"},{8706,2,"\xa1\xd3"},{8721,2,"\xa2\xb2"},{8719,2,"\xa2\xb3"},{8747,2,"\xa1\xf2"},{12288,2,"\xa1\xa1"},{65345,2,"\xa3\xe1"},{65346,2,"\xa3\xe2"},{65347,2,"\xa3\xe3"},{65340,2,"\xa1\xac"},{65374,2,"\xa2\xa6"},{65372,2,"\xa3\xfc"},{65509,2,"\xa1\xcd"},{9312,2,"\xa8\xe7"},{9313,2,"\xa8\xe8"},{9314,2,"\xa8\xe9"},
{8544,2,"\xa5\xb0"},{8545,2,"\xa5\xb1"},{8546,2,"\xa5\xb2"},{13212,2,"\xa7\xae"},{34920,2,"\xf8\xfa"},{20104,2,"\xe5\xf8"},{30003,2,"\xe3\xe9"},{33021,2,"\xd2\xf6"},{36028,2,"\xf4\xe4"},{26292,2,"\xf8\xec"},{27083,2,"\xcf\xb0"},{28012,2,"\xd7\xdf"},{27450,2,"\xd1\xa7"},{22317,2,"\xd0\xa4"},{29674,2,"\xd0\xa8"},{31168,2,"\xe2\xb3"},{34444,2,"\xdb\xbd"},{37675,2,"\xe0\xb8"},{25088,2,"\xd5\xfc"},{32114,2,"\xde\xea"},{40786,2,"\xf6\xcd"},{40845,2,"\xd7\xa3"},{40860,2,"\xcf\xcf"},{39729,2,"\xea\xa6"},
};
static const CsChar cs_42[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{161,2,"\xa2\xae"},{164,2,"\xa2\xb4"},{167,2,"\xa1\xd7"},{168,2,"\xa1\xa7"},{170,2,"\xa8\xa3"},{173,2,"\xa1\xa9"},{174,2,"\xa2\xe7"},{176,2,"\xa1\xc6"},{177,2,"\xa1\xbe"},{178,2,"\xa9\xf7"},{179,2,"\xa9\xf8"},{180,2,"\xa2\xa5"},{182,2,"\xa2\xd2"},{183,2,"\xa1\xa4"},{184,2,"\xa2\xac"},{185,2,"\xa9\xf6"},{186,2,"\xa8\xac"},{188,2,"\xa8\xf9"},{189,2,"\xa8\xf6"},{190,2,"\xa8\xfa"},{191,2,"\xa2\xaf"},{198,2,"\xa8\xa1"},{208,2,"\xa8\xa2"},{215,2,"\xa1\xbf"},{216,2,"\xa8\xaa"},{222,2,"\xa8\xad"},{223,2,"\xa9\xac"},{230,2,"\xa9\xa1"},{240,2,"\xa9\xa3"},{247,2,"\xa1\xc0"},{248,2,"\xa9\xaa"},{254,2,"\xa9\xad"},{273,2,"\xa9\xa2"},{294,2,"\xa8\xa4"},{295,2,"\xa9\xa4"},{305,2,"\xa9\xa5"},{306,2,"\xa8\xa6"},{307,2,"\xa9\xa6"},{312,2,"\xa9\xa7"},{319,2,"\xa8\xa8"},{320,2,"\xa9\xa8"},{321,2,"\xa8\xa9"},{322,2,"\xa9\xa9"},{329,2,"\xa9\xb0"},{330,2,"\xa8\xaf"},{331,2,"\xa9\xaf"},{338,2,"\xa8\xab"},{339,2,"\xa9\xab"},{358,2,"\xa8\xae"},{359,2,"\xa9\xae"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{913,2,"\xa5\xc1"},{914,2,"\xa5\xc2"},{915,2,"\xa5\xc3"},{916,2,"\xa5\xc4"},{917,2,"\xa5\xc5"},{918,2,"\xa5\xc6"},{919,2,"\xa5\xc7"},{920,2,"\xa5\xc8"},{921,2,"\xa5\xc9"},{922,2,"\xa5\xca"},{923,2,"\xa5\xcb"},{924,2,"\xa5\xcc"},{925,2,"\xa5\xcd"},{926,2,"\xa5\xce"},{927,2,"\xa5\xcf"},{928,2,"\xa5\xd0"},{929,2,"\xa5\xd1"},{931,2,"\xa5\xd2"},{932,2,"\xa5\xd3"},{933,2,"\xa5\xd4"},{934,2,"\xa5\xd5"},{935,2,"\xa5\xd6"},{936,2,"\xa5\xd7"},{937,2,"\xa5\xd8"},{945,2,"\xa5\xe1"},{946,2,"\xa5\xe2"},{947,2,"\xa5\xe3"},{948,2,"\xa5\xe4"},
{949,2,"\xa5\xe5"},{950,2,"\xa5\xe6"},{951,2,"\xa5\xe7"},{952,2,"\xa5\xe8"},{953,2,"\xa5\xe9"},{954,2,"\xa5\xea"},{955,2,"\xa5\xeb"},{956,2,"\xa5\xec"},{957,2,"\xa5\xed"},{958,2,"\xa5\xee"},{959,2,"\xa5\xef"},{960,2,"\xa5\xf0"},{961,2,"\xa5\xf1"},{963,2,"\xa5\xf2"},{964,2,"\xa5\xf3"},{965,2,"\xa5\xf4"},{966,2,"\xa5\xf5"},{967,2,"\xa5\xf6"},{968,2,"\xa5\xf7"},{969,2,"\xa5\xf8"},{1025,2,"\xac\xa7"},{1040,2,"\xac\xa1"},{1041,2,"\xac\xa2"},{1042,2,"\xac\xa3"},{1043,2,"\xac\xa4"},{1044,2,"\xac\xa5"},{1045,2,"\xac\xa6"},{1046,2,"\xac\xa8"},{1047,2,"\xac\xa9"},{1048,2,"\xac\xaa"},{1049,2,"\xac\xab"},{1050,2,"\xac\xac"},{1051,2,"\xac\xad"},{1052,2,"\xac\xae"},{1053,2,"\xac\xaf"},{1054,2,"\xac\xb0"},{1055,2,"\xac\xb1"},{1056,2,"\xac\xb2"},{1057,2,"\xac\xb3"},{1058,2,"\xac\xb4"},{1059,2,"\xac\xb5"},{1060,2,"\xac\xb6"},{1061,2,"\xac\xb7"},{1062,2,"\xac\xb8"},{1063,2,"\xac\xb9"},{1064,2,"\xac\xba"},{1065,2,"\xac\xbb"},{1066,2,"\xac\xbc"},{1067,2,"\xac\xbd"},{1068,2,"\xac\xbe"},{1069,2,"\xac\xbf"},{1070,2,"\xac\xc0"},{1071,2,"\xac\xc1"},{1072,2,"\xac\xd1"},{1073,2,"\xac\xd2"},{1074,2,"\xac\xd3"},{1075,2,"\xac\xd4"},{1076,2,"\xac\xd5"},{1077,2,"\xac\xd6"},{1078,2,"\xac\xd8"},{1079,2,"\xac\xd9"},{1080,2,"\xac\xda"},{1081,2,"\xac\xdb"},{1082,2,"\xac\xdc"},{1083,2,"\xac\xdd"},{1084,2,"\xac\xde"},{1085,2,"\xac\xdf"},{1086,2,"\xac\xe0"},{1087,2,"\xac\xe1"},{1088,2,"\xac\xe2"},{1089,2,"\xac\xe3"},{1090,2,"\xac\xe4"},{1091,2,"\xac\xe5"},{1092,2,"\xac\xe6"},{1093,2,"\xac\xe7"},{1094,2,"\xac\xe8"},{1095,2,"\xac\xe9"},{1096,2,"\xac\xea"},{1097,2,"\xac\xeb"},{1098,2,"\xac\xec"},{1099,2,"\xac\xed"},{1100,2,"\xac\xee"},{1101,2,"\xac\xef"},{1102,2,"\xac\xf0"},{1103,2,"\xac\xf1"},{1105,2,"\xac\xd7"},{8216,2,"\xa1\xae"},{8217,2,"\xa1\xaf"},{8220,2,"\xa1\xb0"},{8221,2,"\xa1\xb1"},{8224,2,"\xa2\xd3"},{8225,2,"\xa2\xd4"},{8230,2,"\xa1\xa6"},{8240,2,"\xa2\xb6"},{8364,2,"\xa2\xe6"},{8482,2,"\xa2\xe2"},{12353,2,"\xaa\xa1"},{12354,2,"\xaa\xa2"},{12355,2,"\xaa\xa3"},{12356,2,"\xaa\xa4"},{12357,2,"\xaa\xa5"},{12358,2,"\xaa\xa6"},{12359,2,"\xaa\xa7"},{12360,2,"\xaa\xa8"},{12361,2,"\xaa\xa9"},{12362,2,"\xaa\xaa"},{12363,2,"\xaa\xab"},{12364,2,"\xaa\xac"},{12365,2,"\xaa\xad"},{12366,2,"\xaa\xae"},{12367,2,"\xaa\xaf"},{12368,2,"\xaa\xb0"},{12369,2,"\xaa\xb1"},{12370,2,"\xaa\xb2"},{12371,2,"\xaa\xb3"},{12372,2,"\xaa\xb4"},{12373,2,"\xaa\xb5"},{12374,2,"\xaa\xb6"},{12375,2,"\xaa\xb7"},{12376,2,"\xaa\xb8"},{12377,2,"\xaa\xb9"},{12378,2,"\xaa\xba"},{12379,2,"\xaa\xbb"},{12380,2,"\xaa\xbc"},{12381,2,"\xaa\xbd"},{12382,2,"\xaa\xbe"},{12383,2,"\xaa\xbf"},{12384,2,"\xaa\xc0"},{12385,2,"\xaa\xc1"},{12386,2,"\xaa\xc2"},{12387,2,"\xaa\xc3"},{12388,2,"\xaa\xc4"},{12389,2,"\xaa\xc5"},{12390,2,"\xaa\xc6"},{12391,2,"\xaa\xc7"},{12392,2,"\xaa\xc8"},{12393,2,"\xaa\xc9"},{12394,2,"\xaa\xca"},{12395,2,"\xaa\xcb"},{12396,2,"\xaa\xcc"},{12397,2,"\xaa\xcd"},{12398,2,"\xaa\xce"},{12399,2,"\xaa\xcf"},{12400,2,"\xaa\xd0"},{12401,2,"\xaa\xd1"},{12402,2,"\xaa\xd2"},{12403,2,"\xaa\xd3"},{12404,2,"\xaa\xd4"},{12405,2,"\xaa\xd5"},
{12406,2,"\xaa\xd6"},{12407,2,"\xaa\xd7"},{12408,2,"\xaa\xd8"},{12409,2,"\xaa\xd9"},{12410,2,"\xaa\xda"},{12411,2,"\xaa\xdb"},{12412,2,"\xaa\xdc"},{12413,2,"\xaa\xdd"},{12414,2,"\xaa\xde"},{12415,2,"\xaa\xdf"},{12416,2,"\xaa\xe0"},{12417,2,"\xaa\xe1"},{12418,2,"\xaa\xe2"},{12419,2,"\xaa\xe3"},{12420,2,"\xaa\xe4"},{12421,2,"\xaa\xe5"},{12422,2,"\xaa\xe6"},{12423,2,"\xaa\xe7"},{12424,2,"\xaa\xe8"},{12425,2,"\xaa\xe9"},{12426,2,"\xaa\xea"},{12427,2,"\xaa\xeb"},{12428,2,"\xaa\xec"},{12429,2,"\xaa\xed"},{12430,2,"\xaa\xee"},{12431,2,"\xaa\xef"},{12432,2,"\xaa\xf0"},{12433,2,"\xaa\xf1"},{12434,2,"\xaa\xf2"},{12435,2,"\xaa\xf3"},{12449,2,"\xab\xa1"},{12450,2,"\xab\xa2"},{12451,2,"\xab\xa3"},{12452,2,"\xab\xa4"},{12453,2,"\xab\xa5"},{12454,2,"\xab\xa6"},{12455,2,"\xab\xa7"},{12456,2,"\xab\xa8"},{12457,2,"\xab\xa9"},{12458,2,"\xab\xaa"},{12459,2,"\xab\xab"},{12460,2,"\xab\xac"},{12461,2,"\xab\xad"},{12462,2,"\xab\xae"},{12463,2,"\xab\xaf"},{12464,2,"\xab\xb0"},{12465,2,"\xab\xb1"},{12466,2,"\xab\xb2"},{12467,2,"\xab\xb3"},{12468,2,"\xab\xb4"},{12469,2,"\xab\xb5"},{12470,2,"\xab\xb6"},{12471,2,"\xab\xb7"},{12472,2,"\xab\xb8"},{12473,2,"\xab\xb9"},{12474,2,"\xab\xba"},{12475,2,"\xab\xbb"},{12476,2,"\xab\xbc"},{12477,2,"\xab\xbd"},{12478,2,"\xab\xbe"},{12479,2,"\xab\xbf"},{12480,2,"\xab\xc0"},{12481,2,"\xab\xc1"},{12482,2,"\xab\xc2"},{12483,2,"\xab\xc3"},{12484,2,"\xab\xc4"},{12485,2,"\xab\xc5"},{12486,2,"\xab\xc6"},{12487,2,"\xab\xc7"},{12488,2,"\xab\xc8"},{12489,2,"\xab\xc9"},{12490,2,"\xab\xca"},{12491,2,"\xab\xcb"},{12492,2,"\xab\xcc"},{12493,2,"\xab\xcd"},{12494,2,"\xab\xce"},{12495,2,"\xab\xcf"},{12496,2,"\xab\xd0"},{12497,2,"\xab\xd1"},{12498,2,"\xab\xd2"},{12499,2,"\xab\xd3"},{12500,2,"\xab\xd4"},{12501,2,"\xab\xd5"},{12502,2,"\xab\xd6"},{12503,2,"\xab\xd7"},{12504,2,"\xab\xd8"},{12505,2,"\xab\xd9"},{12506,2,"\xab\xda"},{12507,2,"\xab\xdb"},{12508,2,"\xab\xdc"},{12509,2,"\xab\xdd"},{12510,2,"\xab\xde"},{12511,2,"\xab\xdf"},{12512,2,"\xab\xe0"},{12513,2,"\xab\xe1"},{12514,2,"\xab\xe2"},{12515,2,"\xab\xe3"},{12516,2,"\xab\xe4"},{12517,2,"\xab\xe5"},{12518,2,"\xab\xe6"},{12519,2,"\xab\xe7"},{12520,2,"\xab\xe8"},{12521,2,"\xab\xe9"},{12522,2,"\xab\xea"},{12523,2,"\xab\xeb"},{12524,2,"\xab\xec"},{12525,2,"\xab\xed"},{12526,2,"\xab\xee"},{12527,2,"\xab\xef"},{12528,2,"\xab\xf0"},{12529,2,"\xab\xf1"},{12530,2,"\xab\xf2"},{12531,2,"\xab\xf3"},{12532,2,"\xab\xf4"},{12533,2,"\xab\xf5"},{12534,2,"\xab\xf6"},{12289,2,"\xa1\xa2"},{12290,2,"\xa1\xa3"},{12300,2,"\xa1\xb8"},{12301,2,"\xa1\xb9"},{26085,2,"\xec\xed"},{26412,2,"\xdc\xe2"},{35486,2,"\xe5\xde"},{28450,2,"\xf9\xd3"},{23383,2,"\xed\xae"},{20013,2,"\xf1\xe9"},{25991,2,"\xd9\xfe"},{22283,2,"\xcf\xd0"},{39636,2,"\xf4\xf7"},{32321,2,"\xdb\xe5"},{21488,2,"\xf7\xbb"},{28771,2,"\xd8\xbd"},{39321,2,"\xfa\xc5"},{28207,2,"\xf9\xfb"},{35695,2,"\xe6\xbb"},{36938,2,"\xeb\xb4"},{28216,2,"\xea\xfd"},{38283,2,"\xcb\xd2"},{22987,2,"\xe3\xb7"},{26032,2,"\xe3\xe6"},{38364,2,"\xce\xbc"},{35373,2,"\xe0\xe2"},{32622,2,"\xf6\xc7"},
{23450,2,"\xef\xd2"},{35328,2,"\xe5\xeb"},{21517,2,"\xd9\xa3"},{21069,2,"\xee\xf1"},{20445,2,"\xdc\xc1"},{23384,2,"\xf0\xed"},{21151,2,"\xcd\xed"},{35377,2,"\xfa\xc9"},{33995,2,"\xcb\xcf"},{32946,2,"\xeb\xc0"},{35961,2,"\xf8\xfb"},{29854,2,"\xda\xd7"},{25850,2,"\xf7\xec"},{39184,2,"\xf3\xc9"},{29749,2,"\xdd\xf5"},{26543,2,"\xcd\xbd"},{27519,2,"\xd9\xd1"},{19968,2,"\xec\xe9"},{20108,2,"\xec\xa3"},{19977,2,"\xdf\xb2"},{22235,2,"\xde\xcc"},{20116,2,"\xe7\xe9"},{20845,2,"\xd7\xbf"},{19971,2,"\xf6\xd2"},{20843,2,"\xf8\xa2"},{20061,2,"\xce\xfa"},{21313,2,"\xe4\xa8"},{44032,2,"\xb0\xa1"},{44033,2,"\xb0\xa2"},{44034,2,"\x81\x41"},{44035,2,"\x81\x42"},{44036,2,"\xb0\xa3"},{44037,2,"\x81\x43"},{44038,2,"\x81\x44"},{44039,2,"\xb0\xa4"},{44040,2,"\xb0\xa5"},{44041,2,"\xb0\xa6"},{44042,2,"\xb0\xa7"},{44043,2,"\x81\x45"},{44044,2,"\x81\x46"},{44045,2,"\x81\x47"},{44046,2,"\x81\x48"},{44047,2,"\x81\x49"},{44048,2,"\xb0\xa8"},{44049,2,"\xb0\xa9"},{44050,2,"\xb0\xaa"},{44051,2,"\xb0\xab"},{44052,2,"\xb0\xac"},{44053,2,"\xb0\xad"},{44054,2,"\xb0\xae"},{44055,2,"\xb0\xaf"},{44056,2,"\x81\x4a"},{44057,2,"\xb0\xb0"},{44058,2,"\xb0\xb1"},{44059,2,"\xb0\xb2"},{44060,2,"\xb0\xb3"},{44061,2,"\xb0\xb4"},{44062,2,"\x81\x4b"},{44063,2,"\x81\x4c"},{54620,2,"\xc7\xd1"},{44397,2,"\xb1\xb9"},{50612,2,"\xbe\xee"},{44172,2,"\xb0\xd4"},{51076,2,"\xc0\xd3"},{49884,2,"\xbd\xc3"},{51089,2,"\xc0\xdb"},{49444,2,"\xbc\xb3"},{51221,2,"\xc1\xa4"},{51200,2,"\xc0\xfa"},{51109,2,"\xc0\xe5"},{9472,2,"\xa6\xa1"},{9473,2,"\xa6\xac"},{9474,2,"\xa6\xa2"},{9475,2,"\xa6\xad"},{9484,2,"\xa6\xa3"},{9485,2,"\xa6\xc8"},{9486,2,"\xa6\xc7"},{9487,2,"\xa6\xae"},{9488,2,"\xa6\xa4"},{9489,2,"\xa6\xc2"},{9490,2,"\xa6\xc1"},{9491,2,"\xa6\xaf"},{9492,2,"\xa6\xa6"},{9493,2,"\xa6\xc6"},{9494,2,"\xa6\xc5"},{9495,2,"\xa6\xb1"},{9496,2,"\xa6\xa5"},{9497,2,"\xa6\xc4"},{9498,2,"\xa6\xc3"},{9499,2,"\xa6\xb0"},{9500,2,"\xa6\xa7"},{9501,2,"\xa6\xbc"},{9502,2,"\xa6\xc9"},{9503,2,"\xa6\xca"},{9504,2,"\xa6\xb7"},{9505,2,"\xa6\xcb"},{9506,2,"\xa6\xcc"},{9507,2,"\xa6\xb2"},{9508,2,"\xa6\xa9"},{9509,2,"\xa6\xbe"},{9510,2,"\xa6\xcd"},{9511,2,"\xa6\xce"},{9512,2,"\xa6\xb9"},{9513,2,"\xa6\xcf"},{9514,2,"\xa6\xd0"},{9515,2,"\xa6\xb4"},{9516,2,"\xa6\xa8"},{9517,2,"\xa6\xd1"},{9518,2,"\xa6\xd2"},{9519,2,"\xa6\xb8"},{9520,2,"\xa6\xbd"},{9521,2,"\xa6\xd3"},{9522,2,"\xa6\xd4"},{9523,2,"\xa6\xb3"},{9524,2,"\xa6\xaa"},{9525,2,"\xa6\xd5"},{9526,2,"\xa6\xd6"},{9527,2,"\xa6\xba"},{9528,2,"\xa6\xbf"},{9529,2,"\xa6\xd7"},{9530,2,"\xa6\xd8"},{9531,2,"\xa6\xb5"},{9532,2,"\xa6\xab"},{9533,2,"\xa6\xd9"},{9534,2,"\xa6\xda"},{9535,2,"\xa6\xbb"},{9536,2,"\xa6\xdb"},{9537,2,"\xa6\xdc"},{9538,2,"\xa6\xc0"},{9539,2,"\xa6\xdd"},{9540,2,"\xa6\xde"},{9541,2,"\xa6\xdf"},{9542,2,"\xa6\xe0"},{9543,2,"\xa6\xe1"},{9544,2,"\xa6\xe2"},{9545,2,"\xa6\xe3"},{9546,2,"\xa6\xe4"},{9547,2,"\xa6\xb6"},{8470,2,"\xa2\xe0"},{8734,2,"\xa1\xc4"},{8800,2,"\xa1\xc1"},{8804,2,"\xa1\xc2"},{8805,2,"\xa1\xc3"},{8730,2,"\xa1\xee"},{8706,2,"\xa1\xd3"},{8721,2,"\xa2\xb2"},{8719,2,"\xa2\xb3"},
{8747,2,"\xa1\xf2"},{12288,2,"\xa1\xa1"},{65345,2,"\xa3\xe1"},{65346,2,"\xa3\xe2"},{65347,2,"\xa3\xe3"},{65340,2,"\xa1\xac"},{65374,2,"\xa2\xa6"},{65372,2,"\xa3\xfc"},{65509,2,"\xa1\xcd"},{9312,2,"\xa8\xe7"},{9313,2,"\xa8\xe8"},{9314,2,"\xa8\xe9"},{8544,2,"\xa5\xb0"},{8545,2,"\xa5\xb1"},{8546,2,"\xa5\xb2"},{13212,2,"\xa7\xae"},{34920,2,"\xf8\xfa"},{20104,2,"\xe5\xf8"},{30003,2,"\xe3\xe9"},{33021,2,"\xd2\xf6"},{36028,2,"\xf4\xe4"},{26292,2,"\xf8\xec"},{27083,2,"\xcf\xb0"},{28012,2,"\xd7\xdf"},{27450,2,"\xd1\xa7"},{22317,2,"\xd0\xa4"},{29674,2,"\xd0\xa8"},{31168,2,"\xe2\xb3"},{34444,2,"\xdb\xbd"},{37675,2,"\xe0\xb8"},{25088,2,"\xd5\xfc"},{32114,2,"\xde\xea"},{40786,2,"\xf6\xcd"},{40845,2,"\xd7\xa3"},{40860,2,"\xcf\xcf"},{39729,2,"\xea\xa6"},
};
static const CsChar cs_43[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{164,2,"\xa1\xe8"},{167,2,"\xa1\xec"},{168,2,"\xa1\xa7"},{176,2,"\xa1\xe3"},{177,2,"\xa1\xc0"},{215,2,"\xa1\xc1"},{224,2,"\xa8\xa4"},{225,2,"\xa8\xa2"},{232,2,"\xa8\xa8"},{233,2,"\xa8\xa6"},{234,2,"\xa8\xba"},{236,2,"\xa8\xac"},{237,2,"\xa8\xaa"},{242,2,"\xa8\xb0"},{243,2,"\xa8\xae"},{247,2,"\xa1\xc2"},{249,2,"\xa8\xb4"},{250,2,"\xa8\xb2"},{252,2,"\xa8\xb9"},{257,2,"\xa8\xa1"},{275,2,"\xa8\xa5"},{283,2,"\xa8\xa7"},{299,2,"\xa8\xa9"},{333,2,"\xa8\xad"},{363,2,"\xa8\xb1"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{913,2,"\xa6\xa1"},{914,2,"\xa6\xa2"},{915,2,"\xa6\xa3"},{916,2,"\xa6\xa4"},{917,2,"\xa6\xa5"},{918,2,"\xa6\xa6"},{919,2,"\xa6\xa7"},{920,2,"\xa6\xa8"},{921,2,"\xa6\xa9"},{922,2,"\xa6\xaa"},{923,2,"\xa6\xab"},{924,2,"\xa6\xac"},{925,2,"\xa6\xad"},{926,2,"\xa6\xae"},{927,2,"\xa6\xaf"},{928,2,"\xa6\xb0"},{929,2,"\xa6\xb1"},{931,2,"\xa6\xb2"},{932,2,"\xa6\xb3"},{933,2,"\xa6\xb4"},{934,2,"\xa6\xb5"},{935,2,"\xa6\xb6"},{936,2,"\xa6\xb7"},{937,2,"\xa6\xb8"},{945,2,"\xa6\xc1"},{946,2,"\xa6\xc2"},{947,2,"\xa6\xc3"},{948,2,"\xa6\xc4"},{949,2,"\xa6\xc5"},{950,2,"\xa6\xc6"},{951,2,"\xa6\xc7"},{952,2,"\xa6\xc8"},{953,2,"\xa6\xc9"},{954,2,"\xa6\xca"},{955,2,"\xa6\xcb"},{956,2,"\xa6\xcc"},{957,2,"\xa6\xcd"},{958,2,"\xa6\xce"},{959,2,"\xa6\xcf"},{960,2,"\xa6\xd0"},{961,2,"\xa6\xd1"},{963,2,"\xa6\xd2"},{964,2,"\xa6\xd3"},{965,2,"\xa6\xd4"},{966,2,"\xa6\xd5"},{967,2,"\xa6\xd6"},{968,2,"\xa6\xd7"},{969,2,"\xa6\xd8"},{1025,2,"\xa7\xa7"},{1040,2,"\xa7\xa1"},{1041,2,"\xa7\xa2"},{1042,2,"\xa7\xa3"},{1043,2,"\xa7\xa4"},
{1044,2,"\xa7\xa5"},{1045,2,"\xa7\xa6"},{1046,2,"\xa7\xa8"},{1047,2,"\xa7\xa9"},{1048,2,"\xa7\xaa"},{1049,2,"\xa7\xab"},{1050,2,"\xa7\xac"},{1051,2,"\xa7\xad"},{1052,2,"\xa7\xae"},{1053,2,"\xa7\xaf"},{1054,2,"\xa7\xb0"},{1055,2,"\xa7\xb1"},{1056,2,"\xa7\xb2"},{1057,2,"\xa7\xb3"},{1058,2,"\xa7\xb4"},{1059,2,"\xa7\xb5"},{1060,2,"\xa7\xb6"},{1061,2,"\xa7\xb7"},{1062,2,"\xa7\xb8"},{1063,2,"\xa7\xb9"},{1064,2,"\xa7\xba"},{1065,2,"\xa7\xbb"},{1066,2,"\xa7\xbc"},{1067,2,"\xa7\xbd"},{1068,2,"\xa7\xbe"},{1069,2,"\xa7\xbf"},{1070,2,"\xa7\xc0"},{1071,2,"\xa7\xc1"},{1072,2,"\xa7\xd1"},{1073,2,"\xa7\xd2"},{1074,2,"\xa7\xd3"},{1075,2,"\xa7\xd4"},{1076,2,"\xa7\xd5"},{1077,2,"\xa7\xd6"},{1078,2,"\xa7\xd8"},{1079,2,"\xa7\xd9"},{1080,2,"\xa7\xda"},{1081,2,"\xa7\xdb"},{1082,2,"\xa7\xdc"},{1083,2,"\xa7\xdd"},{1084,2,"\xa7\xde"},{1085,2,"\xa7\xdf"},{1086,2,"\xa7\xe0"},{1087,2,"\xa7\xe1"},{1088,2,"\xa7\xe2"},{1089,2,"\xa7\xe3"},{1090,2,"\xa7\xe4"},{1091,2,"\xa7\xe5"},{1092,2,"\xa7\xe6"},{1093,2,"\xa7\xe7"},{1094,2,"\xa7\xe8"},{1095,2,"\xa7\xe9"},{1096,2,"\xa7\xea"},{1097,2,"\xa7\xeb"},{1098,2,"\xa7\xec"},{1099,2,"\xa7\xed"},{1100,2,"\xa7\xee"},{1101,2,"\xa7\xef"},{1102,2,"\xa7\xf0"},{1103,2,"\xa7\xf1"},{1105,2,"\xa7\xd7"},{8216,2,"\xa1\xae"},{8217,2,"\xa1\xaf"},{8220,2,"\xa1\xb0"},{8221,2,"\xa1\xb1"},{8230,2,"\xa1\xad"},{8240,2,"\xa1\xeb"},{12353,2,"\xa4\xa1"},{12354,2,"\xa4\xa2"},{12355,2,"\xa4\xa3"},{12356,2,"\xa4\xa4"},{12357,2,"\xa4\xa5"},{12358,2,"\xa4\xa6"},{12359,2,"\xa4\xa7"},{12360,2,"\xa4\xa8"},{12361,2,"\xa4\xa9"},{12362,2,"\xa4\xaa"},{12363,2,"\xa4\xab"},{12364,2,"\xa4\xac"},{12365,2,"\xa4\xad"},{12366,2,"\xa4\xae"},{12367,2,"\xa4\xaf"},{12368,2,"\xa4\xb0"},{12369,2,"\xa4\xb1"},{12370,2,"\xa4\xb2"},{12371,2,"\xa4\xb3"},{12372,2,"\xa4\xb4"},{12373,2,"\xa4\xb5"},{12374,2,"\xa4\xb6"},{12375,2,"\xa4\xb7"},{12376,2,"\xa4\xb8"},{12377,2,"\xa4\xb9"},{12378,2,"\xa4\xba"},{12379,2,"\xa4\xbb"},{12380,2,"\xa4\xbc"},{12381,2,"\xa4\xbd"},{12382,2,"\xa4\xbe"},{12383,2,"\xa4\xbf"},{12384,2,"\xa4\xc0"},{12385,2,"\xa4\xc1"},{12386,2,"\xa4\xc2"},{12387,2,"\xa4\xc3"},{12388,2,"\xa4\xc4"},{12389,2,"\xa4\xc5"},{12390,2,"\xa4\xc6"},{12391,2,"\xa4\xc7"},{12392,2,"\xa4\xc8"},{12393,2,"\xa4\xc9"},{12394,2,"\xa4\xca"},{12395,2,"\xa4\xcb"},{12396,2,"\xa4\xcc"},{12397,2,"\xa4\xcd"},{12398,2,"\xa4\xce"},{12399,2,"\xa4\xcf"},{12400,2,"\xa4\xd0"},{12401,2,"\xa4\xd1"},{12402,2,"\xa4\xd2"},{12403,2,"\xa4\xd3"},{12404,2,"\xa4\xd4"},{12405,2,"\xa4\xd5"},{12406,2,"\xa4\xd6"},{12407,2,"\xa4\xd7"},{12408,2,"\xa4\xd8"},{12409,2,"\xa4\xd9"},{12410,2,"\xa4\xda"},{12411,2,"\xa4\xdb"},{12412,2,"\xa4\xdc"},{12413,2,"\xa4\xdd"},{12414,2,"\xa4\xde"},{12415,2,"\xa4\xdf"},{12416,2,"\xa4\xe0"},{12417,2,"\xa4\xe1"},{12418,2,"\xa4\xe2"},{12419,2,"\xa4\xe3"},{12420,2,"\xa4\xe4"},{12421,2,"\xa4\xe5"},{12422,2,"\xa4\xe6"},{12423,2,"\xa4\xe7"},{12424,2,"\xa4\xe8"},{12425,2,"\xa4\xe9"},{12426,2,"\xa4\xea"},{12427,2,"\xa4\xeb"},{12428,2,"\xa4\xec"},{12429,2,"\xa4\xed"},{12430,2,"\xa4\xee"},{12431,2,"\xa4\xef"},{12432,2,"\xa4\xf0"},
{12433,2,"\xa4\xf1"},{12434,2,"\xa4\xf2"},{12435,2,"\xa4\xf3"},{12449,2,"\xa5\xa1"},{12450,2,"\xa5\xa2"},{12451,2,"\xa5\xa3"},{12452,2,"\xa5\xa4"},{12453,2,"\xa5\xa5"},{12454,2,"\xa5\xa6"},{12455,2,"\xa5\xa7"},{12456,2,"\xa5\xa8"},{12457,2,"\xa5\xa9"},{12458,2,"\xa5\xaa"},{12459,2,"\xa5\xab"},{12460,2,"\xa5\xac"},{12461,2,"\xa5\xad"},{12462,2,"\xa5\xae"},{12463,2,"\xa5\xaf"},{12464,2,"\xa5\xb0"},{12465,2,"\xa5\xb1"},{12466,2,"\xa5\xb2"},{12467,2,"\xa5\xb3"},{12468,2,"\xa5\xb4"},{12469,2,"\xa5\xb5"},{12470,2,"\xa5\xb6"},{12471,2,"\xa5\xb7"},{12472,2,"\xa5\xb8"},{12473,2,"\xa5\xb9"},{12474,2,"\xa5\xba"},{12475,2,"\xa5\xbb"},{12476,2,"\xa5\xbc"},{12477,2,"\xa5\xbd"},{12478,2,"\xa5\xbe"},{12479,2,"\xa5\xbf"},{12480,2,"\xa5\xc0"},{12481,2,"\xa5\xc1"},{12482,2,"\xa5\xc2"},{12483,2,"\xa5\xc3"},{12484,2,"\xa5\xc4"},{12485,2,"\xa5\xc5"},{12486,2,"\xa5\xc6"},{12487,2,"\xa5\xc7"},{12488,2,"\xa5\xc8"},{12489,2,"\xa5\xc9"},{12490,2,"\xa5\xca"},{12491,2,"\xa5\xcb"},{12492,2,"\xa5\xcc"},{12493,2,"\xa5\xcd"},{12494,2,"\xa5\xce"},{12495,2,"\xa5\xcf"},{12496,2,"\xa5\xd0"},{12497,2,"\xa5\xd1"},{12498,2,"\xa5\xd2"},{12499,2,"\xa5\xd3"},{12500,2,"\xa5\xd4"},{12501,2,"\xa5\xd5"},{12502,2,"\xa5\xd6"},{12503,2,"\xa5\xd7"},{12504,2,"\xa5\xd8"},{12505,2,"\xa5\xd9"},{12506,2,"\xa5\xda"},{12507,2,"\xa5\xdb"},{12508,2,"\xa5\xdc"},{12509,2,"\xa5\xdd"},{12510,2,"\xa5\xde"},{12511,2,"\xa5\xdf"},{12512,2,"\xa5\xe0"},{12513,2,"\xa5\xe1"},{12514,2,"\xa5\xe2"},{12515,2,"\xa5\xe3"},{12516,2,"\xa5\xe4"},{12517,2,"\xa5\xe5"},{12518,2,"\xa5\xe6"},{12519,2,"\xa5\xe7"},{12520,2,"\xa5\xe8"},{12521,2,"\xa5\xe9"},{12522,2,"\xa5\xea"},{12523,2,"\xa5\xeb"},{12524,2,"\xa5\xec"},{12525,2,"\xa5\xed"},{12526,2,"\xa5\xee"},{12527,2,"\xa5\xef"},{12528,2,"\xa5\xf0"},{12529,2,"\xa5\xf1"},{12530,2,"\xa5\xf2"},{12531,2,"\xa5\xf3"},{12532,2,"\xa5\xf4"},{12533,2,"\xa5\xf5"},{12534,2,"\xa5\xf6"},{12289,2,"\xa1\xa2"},{12290,2,"\xa1\xa3"},{12300,2,"\xa1\xb8"},{12301,2,"\xa1\xb9"},{26085,2,"\xc8\xd5"},{26412,2,"\xb1\xbe"},{23383,2,"\xd7\xd6"},{20013,2,"\xd6\xd0"},{25991,2,"\xce\xc4"},{22269,2,"\xb9\xfa"},{35821,2,"\xd3\xef"},{31616,2,"\xbc\xf2"},{20307,2,"\xcc\xe5"},{32321,2,"\xb7\xb1"},{21488,2,"\xcc\xa8"},{28286,2,"\xcd\xe5"},{39321,2,"\xcf\xe3"},{28207,2,"\xb8\xdb"},{32763,2,"\xb7\xad"},{35793,2,"\xd2\xeb"},{28216,2,"\xd3\xce"},{25103,2,"\xcf\xb7"},{24320,2,"\xbf\xaa"},{22987,2,"\xca\xbc"},{26032,2,"\xd0\xc2"},{32622,2,"\xd6\xc3"},{23450,2,"\xb6\xa8"},{35328,2,"\xd1\xd4"},{21517,2,"\xc3\xfb"},{21069,2,"\xc7\xb0"},{20445,2,"\xb1\xa3"},{23384,2,"\xb4\xe6"},{21151,2,"\xb9\xa6"},{20040,2,"\xc3\xb4"},{32946,2,"\xd3\xfd"},{21522,2,"\xdf\xb8"},{21549,2,"\xbf\xd4"},{23049,2,"\xe6\xb3"},{35961,2,"\xb1\xaa"},{29854,2,"\xe8\xb1"},{39184,2,"\xb2\xcd"},{29749,2,"\xc5\xfd"},{26543,2,"\xbf\xdd"},{19968,2,"\xd2\xbb"},{20108,2,"\xb6\xfe"},{19977,2,"\xc8\xfd"},{22235,2,"\xcb\xc4"},{20116,2,"\xce\xe5"},{20845,2,"\xc1\xf9"},{19971,2,"\xc6\xdf"},{20843,2,"\xb0\xcb"},{20061,2,"\xbe\xc5"},{21313,2,"\xca\xae"},{9472,2,"\xa9\xa4"},
{9473,2,"\xa9\xa5"},{9474,2,"\xa9\xa6"},{9475,2,"\xa9\xa7"},{9476,2,"\xa9\xa8"},{9477,2,"\xa9\xa9"},{9478,2,"\xa9\xaa"},{9479,2,"\xa9\xab"},{9480,2,"\xa9\xac"},{9481,2,"\xa9\xad"},{9482,2,"\xa9\xae"},{9483,2,"\xa9\xaf"},{9484,2,"\xa9\xb0"},{9485,2,"\xa9\xb1"},{9486,2,"\xa9\xb2"},{9487,2,"\xa9\xb3"},{9488,2,"\xa9\xb4"},{9489,2,"\xa9\xb5"},{9490,2,"\xa9\xb6"},{9491,2,"\xa9\xb7"},{9492,2,"\xa9\xb8"},{9493,2,"\xa9\xb9"},{9494,2,"\xa9\xba"},{9495,2,"\xa9\xbb"},{9496,2,"\xa9\xbc"},{9497,2,"\xa9\xbd"},{9498,2,"\xa9\xbe"},{9499,2,"\xa9\xbf"},{9500,2,"\xa9\xc0"},{9501,2,"\xa9\xc1"},{9502,2,"\xa9\xc2"},{9503,2,"\xa9\xc3"},{9504,2,"\xa9\xc4"},{9505,2,"\xa9\xc5"},{9506,2,"\xa9\xc6"},{9507,2,"\xa9\xc7"},{9508,2,"\xa9\xc8"},{9509,2,"\xa9\xc9"},{9510,2,"\xa9\xca"},{9511,2,"\xa9\xcb"},{9512,2,"\xa9\xcc"},{9513,2,"\xa9\xcd"},{9514,2,"\xa9\xce"},{9515,2,"\xa9\xcf"},{9516,2,"\xa9\xd0"},{9517,2,"\xa9\xd1"},{9518,2,"\xa9\xd2"},{9519,2,"\xa9\xd3"},{9520,2,"\xa9\xd4"},{9521,2,"\xa9\xd5"},{9522,2,"\xa9\xd6"},{9523,2,"\xa9\xd7"},{9524,2,"\xa9\xd8"},{9525,2,"\xa9\xd9"},{9526,2,"\xa9\xda"},{9527,2,"\xa9\xdb"},{9528,2,"\xa9\xdc"},{9529,2,"\xa9\xdd"},{9530,2,"\xa9\xde"},{9531,2,"\xa9\xdf"},{9532,2,"\xa9\xe0"},{9533,2,"\xa9\xe1"},{9534,2,"\xa9\xe2"},{9535,2,"\xa9\xe3"},{9536,2,"\xa9\xe4"},{9537,2,"\xa9\xe5"},{9538,2,"\xa9\xe6"},{9539,2,"\xa9\xe7"},{9540,2,"\xa9\xe8"},{9541,2,"\xa9\xe9"},{9542,2,"\xa9\xea"},{9543,2,"\xa9\xeb"},{9544,2,"\xa9\xec"},{9545,2,"\xa9\xed"},{9546,2,"\xa9\xee"},{9547,2,"\xa9\xef"},{8470,2,"\xa1\xed"},{8734,2,"\xa1\xde"},{8776,2,"\xa1\xd6"},{8800,2,"\xa1\xd9"},{8804,2,"\xa1\xdc"},{8805,2,"\xa1\xdd"},{8730,2,"\xa1\xcc"},{8721,2,"\xa1\xc6"},{8719,2,"\xa1\xc7"},{8747,2,"\xa1\xd2"},{12288,2,"\xa1\xa1"},{65345,2,"\xa3\xe1"},{65346,2,"\xa3\xe2"},{65347,2,"\xa3\xe3"},{65340,2,"\xa3\xdc"},{65374,2,"\xa1\xab"},{65372,2,"\xa3\xfc"},{65509,2,"\xa3\xa4"},{9312,2,"\xa2\xd9"},{9313,2,"\xa2\xda"},{9314,2,"\xa2\xdb"},{8544,2,"\xa2\xf1"},{8545,2,"\xa2\xf2"},{8546,2,"\xa2\xf3"},{34920,2,"\xb1\xed"},{20104,2,"\xd3\xe8"},{30003,2,"\xc9\xea"},{33021,2,"\xc4\xdc"},{26292,2,"\xb1\xa9"},{27450,2,"\xc6\xdb"},{22317,2,"\xb9\xe7"},{31168,2,"\xd0\xe3"},{34444,2,"\xb0\xf6"},
};
static const CsChar cs_44[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{164,2,"\xa1\xe8"},{167,2,"\xa1\xec"},{168,2,"\xa1\xa7"},{176,2,"\xa1\xe3"},{177,2,"\xa1\xc0"},{183,2,"\xa1\xa4"},{215,2,"\xa1\xc1"},{224,2,"\xa8\xa4"},{225,2,"\xa8\xa2"},{232,2,"\xa8\xa8"},{233,2,"\xa8\xa6"},{234,2,"\xa8\xba"},{236,2,"\xa8\xac"},{237,2,"\xa8\xaa"},{242,2,"\xa8\xb0"},{243,2,"\xa8\xae"},{247,2,"\xa1\xc2"},{249,2,"\xa8\xb4"},{250,2,"\xa8\xb2"},{252,2,"\xa8\xb9"},{257,2,"\xa8\xa1"},{275,2,"\xa8\xa5"},{283,2,"\xa8\xa7"},{299,2,"\xa8\xa9"},{324,2,"\xa8\xbd"},{328,2,"\xa8\xbe"},{333,2,"\xa8\xad"},{363,2,"\xa8\xb1"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{913,2,"\xa6\xa1"},{914,2,"\xa6\xa2"},{915,2,"\xa6\xa3"},{916,2,"\xa6\xa4"},{917,2,"\xa6\xa5"},{918,2,"\xa6\xa6"},{919,2,"\xa6\xa7"},{920,2,"\xa6\xa8"},{921,2,"\xa6\xa9"},{922,2,"\xa6\xaa"},{923,2,"\xa6\xab"},{924,2,"\xa6\xac"},{925,2,"\xa6\xad"},{926,2,"\xa6\xae"},{927,2,"\xa6\xaf"},{928,2,"\xa6\xb0"},{929,2,"\xa6\xb1"},{931,2,"\xa6\xb2"},{932,2,"\xa6\xb3"},{933,2,"\xa6\xb4"},{934,2,"\xa6\xb5"},{935,2,"\xa6\xb6"},{936,2,"\xa6\xb7"},{937,2,"\xa6\xb8"},{945,2,"\xa6\xc1"},{946,2,"\xa6\xc2"},{947,2,"\xa6\xc3"},{948,2,"\xa6\xc4"},{949,2,"\xa6\xc5"},{950,2,"\xa6\xc6"},{951,2,"\xa6\xc7"},{952,2,"\xa6\xc8"},{953,2,"\xa6\xc9"},{954,2,"\xa6\xca"},{955,2,"\xa6\xcb"},{956,2,"\xa6\xcc"},{957,2,"\xa6\xcd"},{958,2,"\xa6\xce"},{959,2,"\xa6\xcf"},{960,2,"\xa6\xd0"},{961,2,"\xa6\xd1"},{963,2,"\xa6\xd2"},{964,2,"\xa6\xd3"},{965,2,"\xa6\xd4"},{966,2,"\xa6\xd5"},{967,2,"\xa6\xd6"},{968,2,"\xa6\xd7"},{969,2,"\xa6\xd8"},{1025,2,"\xa7\xa7"},{1040,2,"\xa7\xa1"},
{1041,2,"\xa7\xa2"},{1042,2,"\xa7\xa3"},{1043,2,"\xa7\xa4"},{1044,2,"\xa7\xa5"},{1045,2,"\xa7\xa6"},{1046,2,"\xa7\xa8"},{1047,2,"\xa7\xa9"},{1048,2,"\xa7\xaa"},{1049,2,"\xa7\xab"},{1050,2,"\xa7\xac"},{1051,2,"\xa7\xad"},{1052,2,"\xa7\xae"},{1053,2,"\xa7\xaf"},{1054,2,"\xa7\xb0"},{1055,2,"\xa7\xb1"},{1056,2,"\xa7\xb2"},{1057,2,"\xa7\xb3"},{1058,2,"\xa7\xb4"},{1059,2,"\xa7\xb5"},{1060,2,"\xa7\xb6"},{1061,2,"\xa7\xb7"},{1062,2,"\xa7\xb8"},{1063,2,"\xa7\xb9"},{1064,2,"\xa7\xba"},{1065,2,"\xa7\xbb"},{1066,2,"\xa7\xbc"},{1067,2,"\xa7\xbd"},{1068,2,"\xa7\xbe"},{1069,2,"\xa7\xbf"},{1070,2,"\xa7\xc0"},{1071,2,"\xa7\xc1"},{1072,2,"\xa7\xd1"},{1073,2,"\xa7\xd2"},{1074,2,"\xa7\xd3"},{1075,2,"\xa7\xd4"},{1076,2,"\xa7\xd5"},{1077,2,"\xa7\xd6"},{1078,2,"\xa7\xd8"},{1079,2,"\xa7\xd9"},{1080,2,"\xa7\xda"},{1081,2,"\xa7\xdb"},{1082,2,"\xa7\xdc"},{1083,2,"\xa7\xdd"},{1084,2,"\xa7\xde"},{1085,2,"\xa7\xdf"},{1086,2,"\xa7\xe0"},{1087,2,"\xa7\xe1"},{1088,2,"\xa7\xe2"},{1089,2,"\xa7\xe3"},{1090,2,"\xa7\xe4"},{1091,2,"\xa7\xe5"},{1092,2,"\xa7\xe6"},{1093,2,"\xa7\xe7"},{1094,2,"\xa7\xe8"},{1095,2,"\xa7\xe9"},{1096,2,"\xa7\xea"},{1097,2,"\xa7\xeb"},{1098,2,"\xa7\xec"},{1099,2,"\xa7\xed"},{1100,2,"\xa7\xee"},{1101,2,"\xa7\xef"},{1102,2,"\xa7\xf0"},{1103,2,"\xa7\xf1"},{1105,2,"\xa7\xd7"},{8211,2,"\xa8\x43"},{8212,2,"\xa1\xaa"},{8216,2,"\xa1\xae"},{8217,2,"\xa1\xaf"},{8220,2,"\xa1\xb0"},{8221,2,"\xa1\xb1"},{8230,2,"\xa1\xad"},{8240,2,"\xa1\xeb"},{12353,2,"\xa4\xa1"},{12354,2,"\xa4\xa2"},{12355,2,"\xa4\xa3"},{12356,2,"\xa4\xa4"},{12357,2,"\xa4\xa5"},{12358,2,"\xa4\xa6"},{12359,2,"\xa4\xa7"},{12360,2,"\xa4\xa8"},{12361,2,"\xa4\xa9"},{12362,2,"\xa4\xaa"},{12363,2,"\xa4\xab"},{12364,2,"\xa4\xac"},{12365,2,"\xa4\xad"},{12366,2,"\xa4\xae"},{12367,2,"\xa4\xaf"},{12368,2,"\xa4\xb0"},{12369,2,"\xa4\xb1"},{12370,2,"\xa4\xb2"},{12371,2,"\xa4\xb3"},{12372,2,"\xa4\xb4"},{12373,2,"\xa4\xb5"},{12374,2,"\xa4\xb6"},{12375,2,"\xa4\xb7"},{12376,2,"\xa4\xb8"},{12377,2,"\xa4\xb9"},{12378,2,"\xa4\xba"},{12379,2,"\xa4\xbb"},{12380,2,"\xa4\xbc"},{12381,2,"\xa4\xbd"},{12382,2,"\xa4\xbe"},{12383,2,"\xa4\xbf"},{12384,2,"\xa4\xc0"},{12385,2,"\xa4\xc1"},{12386,2,"\xa4\xc2"},{12387,2,"\xa4\xc3"},{12388,2,"\xa4\xc4"},{12389,2,"\xa4\xc5"},{12390,2,"\xa4\xc6"},{12391,2,"\xa4\xc7"},{12392,2,"\xa4\xc8"},{12393,2,"\xa4\xc9"},{12394,2,"\xa4\xca"},{12395,2,"\xa4\xcb"},{12396,2,"\xa4\xcc"},{12397,2,"\xa4\xcd"},{12398,2,"\xa4\xce"},{12399,2,"\xa4\xcf"},{12400,2,"\xa4\xd0"},{12401,2,"\xa4\xd1"},{12402,2,"\xa4\xd2"},{12403,2,"\xa4\xd3"},{12404,2,"\xa4\xd4"},{12405,2,"\xa4\xd5"},{12406,2,"\xa4\xd6"},{12407,2,"\xa4\xd7"},{12408,2,"\xa4\xd8"},{12409,2,"\xa4\xd9"},{12410,2,"\xa4\xda"},{12411,2,"\xa4\xdb"},{12412,2,"\xa4\xdc"},{12413,2,"\xa4\xdd"},{12414,2,"\xa4\xde"},{12415,2,"\xa4\xdf"},{12416,2,"\xa4\xe0"},{12417,2,"\xa4\xe1"},{12418,2,"\xa4\xe2"},{12419,2,"\xa4\xe3"},{12420,2,"\xa4\xe4"},{12421,2,"\xa4\xe5"},{12422,2,"\xa4\xe6"},{12423,2,"\xa4\xe7"},{12424,2,"\xa4\xe8"},{12425,2,"\xa4\xe9"},{12426,2,"\xa4\xea"},{12427,2,"\xa4\xeb"},
{12428,2,"\xa4\xec"},{12429,2,"\xa4\xed"},{12430,2,"\xa4\xee"},{12431,2,"\xa4\xef"},{12432,2,"\xa4\xf0"},{12433,2,"\xa4\xf1"},{12434,2,"\xa4\xf2"},{12435,2,"\xa4\xf3"},{12449,2,"\xa5\xa1"},{12450,2,"\xa5\xa2"},{12451,2,"\xa5\xa3"},{12452,2,"\xa5\xa4"},{12453,2,"\xa5\xa5"},{12454,2,"\xa5\xa6"},{12455,2,"\xa5\xa7"},{12456,2,"\xa5\xa8"},{12457,2,"\xa5\xa9"},{12458,2,"\xa5\xaa"},{12459,2,"\xa5\xab"},{12460,2,"\xa5\xac"},{12461,2,"\xa5\xad"},{12462,2,"\xa5\xae"},{12463,2,"\xa5\xaf"},{12464,2,"\xa5\xb0"},{12465,2,"\xa5\xb1"},{12466,2,"\xa5\xb2"},{12467,2,"\xa5\xb3"},{12468,2,"\xa5\xb4"},{12469,2,"\xa5\xb5"},{12470,2,"\xa5\xb6"},{12471,2,"\xa5\xb7"},{12472,2,"\xa5\xb8"},{12473,2,"\xa5\xb9"},{12474,2,"\xa5\xba"},{12475,2,"\xa5\xbb"},{12476,2,"\xa5\xbc"},{12477,2,"\xa5\xbd"},{12478,2,"\xa5\xbe"},{12479,2,"\xa5\xbf"},{12480,2,"\xa5\xc0"},{12481,2,"\xa5\xc1"},{12482,2,"\xa5\xc2"},{12483,2,"\xa5\xc3"},{12484,2,"\xa5\xc4"},{12485,2,"\xa5\xc5"},{12486,2,"\xa5\xc6"},{12487,2,"\xa5\xc7"},{12488,2,"\xa5\xc8"},{12489,2,"\xa5\xc9"},{12490,2,"\xa5\xca"},{12491,2,"\xa5\xcb"},{12492,2,"\xa5\xcc"},{12493,2,"\xa5\xcd"},{12494,2,"\xa5\xce"},{12495,2,"\xa5\xcf"},{12496,2,"\xa5\xd0"},{12497,2,"\xa5\xd1"},{12498,2,"\xa5\xd2"},{12499,2,"\xa5\xd3"},{12500,2,"\xa5\xd4"},{12501,2,"\xa5\xd5"},{12502,2,"\xa5\xd6"},{12503,2,"\xa5\xd7"},{12504,2,"\xa5\xd8"},{12505,2,"\xa5\xd9"},{12506,2,"\xa5\xda"},{12507,2,"\xa5\xdb"},{12508,2,"\xa5\xdc"},{12509,2,"\xa5\xdd"},{12510,2,"\xa5\xde"},{12511,2,"\xa5\xdf"},{12512,2,"\xa5\xe0"},{12513,2,"\xa5\xe1"},{12514,2,"\xa5\xe2"},{12515,2,"\xa5\xe3"},{12516,2,"\xa5\xe4"},{12517,2,"\xa5\xe5"},{12518,2,"\xa5\xe6"},{12519,2,"\xa5\xe7"},{12520,2,"\xa5\xe8"},{12521,2,"\xa5\xe9"},{12522,2,"\xa5\xea"},{12523,2,"\xa5\xeb"},{12524,2,"\xa5\xec"},{12525,2,"\xa5\xed"},{12526,2,"\xa5\xee"},{12527,2,"\xa5\xef"},{12528,2,"\xa5\xf0"},{12529,2,"\xa5\xf1"},{12530,2,"\xa5\xf2"},{12531,2,"\xa5\xf3"},{12532,2,"\xa5\xf4"},{12533,2,"\xa5\xf5"},{12534,2,"\xa5\xf6"},{12289,2,"\xa1\xa2"},{12290,2,"\xa1\xa3"},{12300,2,"\xa1\xb8"},{12301,2,"\xa1\xb9"},{26085,2,"\xc8\xd5"},{26412,2,"\xb1\xbe"},{35486,2,"\xd5\x5a"},{28450,2,"\x9d\x68"},{23383,2,"\xd7\xd6"},{20013,2,"\xd6\xd0"},{25991,2,"\xce\xc4"},{22283,2,"\x87\xf8"},{22269,2,"\xb9\xfa"},{35821,2,"\xd3\xef"},{31616,2,"\xbc\xf2"},{39636,2,"\xf3\x77"},{20307,2,"\xcc\xe5"},{32321,2,"\xb7\xb1"},{21488,2,"\xcc\xa8"},{28771,2,"\x9e\xb3"},{28286,2,"\xcd\xe5"},{39321,2,"\xcf\xe3"},{28207,2,"\xb8\xdb"},{32763,2,"\xb7\xad"},{35695,2,"\xd7\x67"},{35793,2,"\xd2\xeb"},{36938,2,"\xdf\x5b"},{28216,2,"\xd3\xce"},{25103,2,"\xcf\xb7"},{25138,2,"\x91\xf2"},{38283,2,"\xe9\x5f"},{24320,2,"\xbf\xaa"},{22987,2,"\xca\xbc"},{26032,2,"\xd0\xc2"},{38306,2,"\xe9\x76"},{38364,2,"\xea\x50"},{35373,2,"\xd4\x4f"},{32622,2,"\xd6\xc3"},{23450,2,"\xb6\xa8"},{35328,2,"\xd1\xd4"},{21517,2,"\xc3\xfb"},{21069,2,"\xc7\xb0"},{20445,2,"\xb1\xa3"},{23384,2,"\xb4\xe6"},{21151,2,"\xb9\xa6"},{35377,2,"\xd4\x53"},{33995,2,"\xc9\x77"},{20040,2,"\xc3\xb4"},{32946,2,"\xd3\xfd"},
{21522,2,"\xdf\xb8"},{21549,2,"\xbf\xd4"},{23049,2,"\xe6\xb3"},{35961,2,"\xb1\xaa"},{29854,2,"\xe8\xb1"},{25850,2,"\x94\x5b"},{39184,2,"\xb2\xcd"},{39631,2,"\xf3\x74"},{29749,2,"\xc5\xfd"},{26543,2,"\xbf\xdd"},{27519,2,"\x9a\x7b"},{19968,2,"\xd2\xbb"},{20108,2,"\xb6\xfe"},{19977,2,"\xc8\xfd"},{22235,2,"\xcb\xc4"},{20116,2,"\xce\xe5"},{20845,2,"\xc1\xf9"},{19971,2,"\xc6\xdf"},{20843,2,"\xb0\xcb"},{20061,2,"\xbe\xc5"},{21313,2,"\xca\xae"},{9472,2,"\xa9\xa4"},{9473,2,"\xa9\xa5"},{9474,2,"\xa9\xa6"},{9475,2,"\xa9\xa7"},{9476,2,"\xa9\xa8"},{9477,2,"\xa9\xa9"},{9478,2,"\xa9\xaa"},{9479,2,"\xa9\xab"},{9480,2,"\xa9\xac"},{9481,2,"\xa9\xad"},{9482,2,"\xa9\xae"},{9483,2,"\xa9\xaf"},{9484,2,"\xa9\xb0"},{9485,2,"\xa9\xb1"},{9486,2,"\xa9\xb2"},{9487,2,"\xa9\xb3"},{9488,2,"\xa9\xb4"},{9489,2,"\xa9\xb5"},{9490,2,"\xa9\xb6"},{9491,2,"\xa9\xb7"},{9492,2,"\xa9\xb8"},{9493,2,"\xa9\xb9"},{9494,2,"\xa9\xba"},{9495,2,"\xa9\xbb"},{9496,2,"\xa9\xbc"},{9497,2,"\xa9\xbd"},{9498,2,"\xa9\xbe"},{9499,2,"\xa9\xbf"},{9500,2,"\xa9\xc0"},{9501,2,"\xa9\xc1"},{9502,2,"\xa9\xc2"},{9503,2,"\xa9\xc3"},{9504,2,"\xa9\xc4"},{9505,2,"\xa9\xc5"},{9506,2,"\xa9\xc6"},{9507,2,"\xa9\xc7"},{9508,2,"\xa9\xc8"},{9509,2,"\xa9\xc9"},{9510,2,"\xa9\xca"},{9511,2,"\xa9\xcb"},{9512,2,"\xa9\xcc"},{9513,2,"\xa9\xcd"},{9514,2,"\xa9\xce"},{9515,2,"\xa9\xcf"},{9516,2,"\xa9\xd0"},{9517,2,"\xa9\xd1"},{9518,2,"\xa9\xd2"},{9519,2,"\xa9\xd3"},{9520,2,"\xa9\xd4"},{9521,2,"\xa9\xd5"},{9522,2,"\xa9\xd6"},{9523,2,"\xa9\xd7"},{9524,2,"\xa9\xd8"},{9525,2,"\xa9\xd9"},{9526,2,"\xa9\xda"},{9527,2,"\xa9\xdb"},{9528,2,"\xa9\xdc"},{9529,2,"\xa9\xdd"},{9530,2,"\xa9\xde"},{9531,2,"\xa9\xdf"},{9532,2,"\xa9\xe0"},{9533,2,"\xa9\xe1"},{9534,2,"\xa9\xe2"},{9535,2,"\xa9\xe3"},{9536,2,"\xa9\xe4"},{9537,2,"\xa9\xe5"},{9538,2,"\xa9\xe6"},{9539,2,"\xa9\xe7"},{9540,2,"\xa9\xe8"},{9541,2,"\xa9\xe9"},{9542,2,"\xa9\xea"},{9543,2,"\xa9\xeb"},{9544,2,"\xa9\xec"},{9545,2,"\xa9\xed"},{9546,2,"\xa9\xee"},{9547,2,"\xa9\xef"},{8470,2,"\xa1\xed"},{8734,2,"\xa1\xde"},{8776,2,"\xa1\xd6"},{8800,2,"\xa1\xd9"},{8804,2,"\xa1\xdc"},{8805,2,"\xa1\xdd"},{8730,2,"\xa1\xcc"},{8721,2,"\xa1\xc6"},{8719,2,"\xa1\xc7"},{8747,2,"\xa1\xd2"},{12288,2,"\xa1\xa1"},{65345,2,"\xa3\xe1"},{65346,2,"\xa3\xe2"},{65347,2,"\xa3\xe3"},{65340,2,"\xa3\xdc"},{65374,2,"\xa1\xab"},{65372,2,"\xa3\xfc"},{65509,2,"\xa3\xa4"},{9312,2,"\xa2\xd9"},{9313,2,"\xa2\xda"},{9314,2,"\xa2\xdb"},{8544,2,"\xa2\xf1"},{8545,2,"\xa2\xf2"},{8546,2,"\xa2\xf3"},{13212,2,"\xa9\x4c"},{12849,2,"\xa9\x5a"},{34920,2,"\xb1\xed"},{20104,2,"\xd3\xe8"},{30003,2,"\xc9\xea"},{33021,2,"\xc4\xdc"},{36028,2,"\xd9\x4e"},{26292,2,"\xb1\xa9"},{27083,2,"\x98\x8b"},{22082,2,"\x87\x67"},{28012,2,"\x9b\xc9"},{27450,2,"\xc6\xdb"},{22317,2,"\xb9\xe7"},{29674,2,"\xab\x95"},{21682,2,"\x86\x44"},{31168,2,"\xd0\xe3"},{29410,2,"\xaa\x43"},{34444,2,"\xb0\xf6"},{37675,2,"\xe5\x61"},{25088,2,"\x91\xd9"},{33399,2,"\xc6\x47"},{32114,2,"\xbd\x7a"},{40786,2,"\xfd\x58"},{40845,2,"\xfd\x88"},{40860,2,"\xfd\x94"},{38000,2,"\xe8\x80"},{39729,2,"\xf4\x64"},

};
static const CsChar cs_45[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{128,4,"\x81\x30\x81\x30"},{129,4,"\x81\x30\x81\x31"},{130,4,"\x81\x30\x81\x32"},{131,4,"\x81\x30\x81\x33"},{132,4,"\x81\x30\x81\x34"},{133,4,"\x81\x30\x81\x35"},{134,4,"\x81\x30\x81\x36"},{135,4,"\x81\x30\x81\x37"},{136,4,"\x81\x30\x81\x38"},{137,4,"\x81\x30\x81\x39"},{138,4,"\x81\x30\x82\x30"},{139,4,"\x81\x30\x82\x31"},{140,4,"\x81\x30\x82\x32"},{141,4,"\x81\x30\x82\x33"},{142,4,"\x81\x30\x82\x34"},{143,4,"\x81\x30\x82\x35"},{144,4,"\x81\x30\x82\x36"},{145,4,"\x81\x30\x82\x37"},{146,4,"\x81\x30\x82\x38"},{147,4,"\x81\x30\x82\x39"},{148,4,"\x81\x30\x83\x30"},{149,4,"\x81\x30\x83\x31"},{150,4,"\x81\x30\x83\x32"},{151,4,"\x81\x30\x83\x33"},{152,4,"\x81\x30\x83\x34"},{153,4,"\x81\x30\x83\x35"},{154,4,"\x81\x30\x83\x36"},{155,4,"\x81\x30\x83\x37"},{156,4,"\x81\x30\x83\x38"},{157,4,"\x81\x30\x83\x39"},{158,4,"\x81\x30\x84\x30"},{159,4,"\x81\x30\x84\x31"},{160,4,"\x81\x30\x84\x32"},{161,4,"\x81\x30\x84\x33"},{162,4,"\x81\x30\x84\x34"},{163,4,"\x81\x30\x84\x35"},{164,2,"\xa1\xe8"},{165,4,"\x81\x30\x84\x36"},{166,4,"\x81\x30\x84\x37"},{167,2,"\xa1\xec"},{168,2,"\xa1\xa7"},{169,4,"\x81\x30\x84\x38"},{170,4,"\x81\x30\x84\x39"},{171,4,"\x81\x30\x85\x30"},{172,4,"\x81\x30\x85\x31"},{173,4,"\x81\x30\x85\x32"},{174,4,"\x81\x30\x85\x33"},{175,4,"\x81\x30\x85\x34"},{176,2,"\xa1\xe3"},{177,2,"\xa1\xc0"},{178,4,"\x81\x30\x85\x35"},{179,4,"\x81\x30\x85\x36"},{180,4,"\x81\x30\x85\x37"},{181,4,"\x81\x30\x85\x38"},{182,4,"\x81\x30\x85\x39"},{183,2,"\xa1\xa4"},{184,4,"\x81\x30\x86\x30"},{185,4,"\x81\x30\x86\x31"},{186,4,"\x81\x30\x86\x32"},{187,4,"\x81\x30\x86\x33"},
{188,4,"\x81\x30\x86\x34"},{189,4,"\x81\x30\x86\x35"},{190,4,"\x81\x30\x86\x36"},{191,4,"\x81\x30\x86\x37"},{192,4,"\x81\x30\x86\x38"},{193,4,"\x81\x30\x86\x39"},{194,4,"\x81\x30\x87\x30"},{195,4,"\x81\x30\x87\x31"},{196,4,"\x81\x30\x87\x32"},{197,4,"\x81\x30\x87\x33"},{198,4,"\x81\x30\x87\x34"},{199,4,"\x81\x30\x87\x35"},{200,4,"\x81\x30\x87\x36"},{201,4,"\x81\x30\x87\x37"},{202,4,"\x81\x30\x87\x38"},{203,4,"\x81\x30\x87\x39"},{204,4,"\x81\x30\x88\x30"},{205,4,"\x81\x30\x88\x31"},{206,4,"\x81\x30\x88\x32"},{207,4,"\x81\x30\x88\x33"},{208,4,"\x81\x30\x88\x34"},{209,4,"\x81\x30\x88\x35"},{210,4,"\x81\x30\x88\x36"},{211,4,"\x81\x30\x88\x37"},{212,4,"\x81\x30\x88\x38"},{213,4,"\x81\x30\x88\x39"},{214,4,"\x81\x30\x89\x30"},{215,2,"\xa1\xc1"},{216,4,"\x81\x30\x89\x31"},{217,4,"\x81\x30\x89\x32"},{218,4,"\x81\x30\x89\x33"},{219,4,"\x81\x30\x89\x34"},{220,4,"\x81\x30\x89\x35"},{221,4,"\x81\x30\x89\x36"},{222,4,"\x81\x30\x89\x37"},{223,4,"\x81\x30\x89\x38"},{224,2,"\xa8\xa4"},{225,2,"\xa8\xa2"},{226,4,"\x81\x30\x89\x39"},{227,4,"\x81\x30\x8a\x30"},{228,4,"\x81\x30\x8a\x31"},{229,4,"\x81\x30\x8a\x32"},{230,4,"\x81\x30\x8a\x33"},{231,4,"\x81\x30\x8a\x34"},{232,2,"\xa8\xa8"},{233,2,"\xa8\xa6"},{234,2,"\xa8\xba"},{235,4,"\x81\x30\x8a\x35"},{236,2,"\xa8\xac"},{237,2,"\xa8\xaa"},{238,4,"\x81\x30\x8a\x36"},{239,4,"\x81\x30\x8a\x37"},{240,4,"\x81\x30\x8a\x38"},{241,4,"\x81\x30\x8a\x39"},{242,2,"\xa8\xb0"},{243,2,"\xa8\xae"},{244,4,"\x81\x30\x8b\x30"},{245,4,"\x81\x30\x8b\x31"},{246,4,"\x81\x30\x8b\x32"},{247,2,"\xa1\xc2"},{248,4,"\x81\x30\x8b\x33"},{249,2,"\xa8\xb4"},{250,2,"\xa8\xb2"},{251,4,"\x81\x30\x8b\x34"},{252,2,"\xa8\xb9"},{253,4,"\x81\x30\x8b\x35"},{254,4,"\x81\x30\x8b\x36"},{255,4,"\x81\x30\x8b\x37"},{256,4,"\x81\x30\x8b\x38"},{257,2,"\xa8\xa1"},{258,4,"\x81\x30\x8b\x39"},{259,4,"\x81\x30\x8c\x30"},{260,4,"\x81\x30\x8c\x31"},{261,4,"\x81\x30\x8c\x32"},{262,4,"\x81\x30\x8c\x33"},{263,4,"\x81\x30\x8c\x34"},{264,4,"\x81\x30\x8c\x35"},{265,4,"\x81\x30\x8c\x36"},{266,4,"\x81\x30\x8c\x37"},{267,4,"\x81\x30\x8c\x38"},{268,4,"\x81\x30\x8c\x39"},{269,4,"\x81\x30\x8d\x30"},{270,4,"\x81\x30\x8d\x31"},{271,4,"\x81\x30\x8d\x32"},{272,4,"\x81\x30\x8d\x33"},{273,4,"\x81\x30\x8d\x34"},{274,4,"\x81\x30\x8d\x35"},{275,2,"\xa8\xa5"},{276,4,"\x81\x30\x8d\x36"},{277,4,"\x81\x30\x8d\x37"},{278,4,"\x81\x30\x8d\x38"},{279,4,"\x81\x30\x8d\x39"},{280,4,"\x81\x30\x8e\x30"},{281,4,"\x81\x30\x8e\x31"},{282,4,"\x81\x30\x8e\x32"},{283,2,"\xa8\xa7"},{284,4,"\x81\x30\x8e\x33"},{285,4,"\x81\x30\x8e\x34"},{286,4,"\x81\x30\x8e\x35"},{287,4,"\x81\x30\x8e\x36"},{288,4,"\x81\x30\x8e\x37"},{289,4,"\x81\x30\x8e\x38"},{290,4,"\x81\x30\x8e\x39"},{291,4,"\x81\x30\x8f\x30"},{292,4,"\x81\x30\x8f\x31"},{293,4,"\x81\x30\x8f\x32"},{294,4,"\x81\x30\x8f\x33"},{295,4,"\x81\x30\x8f\x34"},{296,4,"\x81\x30\x8f\x35"},{297,4,"\x81\x30\x8f\x36"},{298,4,"\x81\x30\x8f\x37"},{299,2,"\xa8\xa9"},{300,4,"\x81\x30\x8f\x38"},{301,4,"\x81\x30\x8f\x39"},{302,4,"\x81\x30\x90\x30"},{303,4,"\x81\x30\x90\x31"},{304,4,"\x81\x30\x90\x32"},
{305,4,"\x81\x30\x90\x33"},{306,4,"\x81\x30\x90\x34"},{307,4,"\x81\x30\x90\x35"},{308,4,"\x81\x30\x90\x36"},{309,4,"\x81\x30\x90\x37"},{310,4,"\x81\x30\x90\x38"},{311,4,"\x81\x30\x90\x39"},{312,4,"\x81\x30\x91\x30"},{313,4,"\x81\x30\x91\x31"},{314,4,"\x81\x30\x91\x32"},{315,4,"\x81\x30\x91\x33"},{316,4,"\x81\x30\x91\x34"},{317,4,"\x81\x30\x91\x35"},{318,4,"\x81\x30\x91\x36"},{319,4,"\x81\x30\x91\x37"},{320,4,"\x81\x30\x91\x38"},{321,4,"\x81\x30\x91\x39"},{322,4,"\x81\x30\x92\x30"},{323,4,"\x81\x30\x92\x31"},{324,2,"\xa8\xbd"},{325,4,"\x81\x30\x92\x32"},{326,4,"\x81\x30\x92\x33"},{327,4,"\x81\x30\x92\x34"},{328,2,"\xa8\xbe"},{329,4,"\x81\x30\x92\x35"},{330,4,"\x81\x30\x92\x36"},{331,4,"\x81\x30\x92\x37"},{332,4,"\x81\x30\x92\x38"},{333,2,"\xa8\xad"},{334,4,"\x81\x30\x92\x39"},{335,4,"\x81\x30\x93\x30"},{336,4,"\x81\x30\x93\x31"},{337,4,"\x81\x30\x93\x32"},{338,4,"\x81\x30\x93\x33"},{339,4,"\x81\x30\x93\x34"},{340,4,"\x81\x30\x93\x35"},{341,4,"\x81\x30\x93\x36"},{342,4,"\x81\x30\x93\x37"},{343,4,"\x81\x30\x93\x38"},{344,4,"\x81\x30\x93\x39"},{345,4,"\x81\x30\x94\x30"},{346,4,"\x81\x30\x94\x31"},{347,4,"\x81\x30\x94\x32"},{348,4,"\x81\x30\x94\x33"},{349,4,"\x81\x30\x94\x34"},{350,4,"\x81\x30\x94\x35"},{351,4,"\x81\x30\x94\x36"},{352,4,"\x81\x30\x94\x37"},{353,4,"\x81\x30\x94\x38"},{354,4,"\x81\x30\x94\x39"},{355,4,"\x81\x30\x95\x30"},{356,4,"\x81\x30\x95\x31"},{357,4,"\x81\x30\x95\x32"},{358,4,"\x81\x30\x95\x33"},{359,4,"\x81\x30\x95\x34"},{360,4,"\x81\x30\x95\x35"},{361,4,"\x81\x30\x95\x36"},{362,4,"\x81\x30\x95\x37"},{363,2,"\xa8\xb1"},{364,4,"\x81\x30\x95\x38"},{365,4,"\x81\x30\x95\x39"},{366,4,"\x81\x30\x96\x30"},{367,4,"\x81\x30\x96\x31"},{368,4,"\x81\x30\x96\x32"},{369,4,"\x81\x30\x96\x33"},{370,4,"\x81\x30\x96\x34"},{371,4,"\x81\x30\x96\x35"},{372,4,"\x81\x30\x96\x36"},{373,4,"\x81\x30\x96\x37"},{374,4,"\x81\x30\x96\x38"},{375,4,"\x81\x30\x96\x39"},{376,4,"\x81\x30\x97\x30"},{377,4,"\x81\x30\x97\x31"},{378,4,"\x81\x30\x97\x32"},{379,4,"\x81\x30\x97\x33"},{380,4,"\x81\x30\x97\x34"},{381,4,"\x81\x30\x97\x35"},{382,4,"\x81\x30\x97\x36"},{383,4,"\x81\x30\x97\x37"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{900,4,"\x81\x30\xc9\x38"},{901,4,"\x81\x30\xc9\x39"},{902,4,"\x81\x30\xca\x30"},{903,4,"\x81\x30\xca\x31"},{904,4,"\x81\x30\xca\x32"},{905,4,"\x81\x30\xca\x33"},{906,4,"\x81\x30\xca\x34"},{907,4,"\x81\x30\xca\x35"},{908,4,"\x81\x30\xca\x36"},{909,4,"\x81\x30\xca\x37"},{910,4,"\x81\x30\xca\x38"},{911,4,"\x81\x30\xca\x39"},{912,4,"\x81\x30\xcb\x30"},{913,2,"\xa6\xa1"},{914,2,"\xa6\xa2"},{915,2,"\xa6\xa3"},{916,2,"\xa6\xa4"},{917,2,"\xa6\xa5"},{918,2,"\xa6\xa6"},{919,2,"\xa6\xa7"},{920,2,"\xa6\xa8"},{921,2,"\xa6\xa9"},{922,2,"\xa6\xaa"},{923,2,"\xa6\xab"},{924,2,"\xa6\xac"},{925,2,"\xa6\xad"},{926,2,"\xa6\xae"},{927,2,"\xa6\xaf"},{928,2,"\xa6\xb0"},{929,2,"\xa6\xb1"},{930,4,"\x81\x30\xcb\x31"},{931,2,"\xa6\xb2"},{932,2,"\xa6\xb3"},{933,2,"\xa6\xb4"},{934,2,"\xa6\xb5"},{935,2,"\xa6\xb6"},{936,2,"\xa6\xb7"},{937,2,"\xa6\xb8"},
{938,4,"\x81\x30\xcb\x32"},{939,4,"\x81\x30\xcb\x33"},{940,4,"\x81\x30\xcb\x34"},{941,4,"\x81\x30\xcb\x35"},{942,4,"\x81\x30\xcb\x36"},{943,4,"\x81\x30\xcb\x37"},{944,4,"\x81\x30\xcb\x38"},{945,2,"\xa6\xc1"},{946,2,"\xa6\xc2"},{947,2,"\xa6\xc3"},{948,2,"\xa6\xc4"},{949,2,"\xa6\xc5"},{950,2,"\xa6\xc6"},{951,2,"\xa6\xc7"},{952,2,"\xa6\xc8"},{953,2,"\xa6\xc9"},{954,2,"\xa6\xca"},{955,2,"\xa6\xcb"},{956,2,"\xa6\xcc"},{957,2,"\xa6\xcd"},{958,2,"\xa6\xce"},{959,2,"\xa6\xcf"},{960,2,"\xa6\xd0"},{961,2,"\xa6\xd1"},{962,4,"\x81\x30\xcb\x39"},{963,2,"\xa6\xd2"},{964,2,"\xa6\xd3"},{965,2,"\xa6\xd4"},{966,2,"\xa6\xd5"},{967,2,"\xa6\xd6"},{968,2,"\xa6\xd7"},{969,2,"\xa6\xd8"},{970,4,"\x81\x30\xcc\x30"},{971,4,"\x81\x30\xcc\x31"},{972,4,"\x81\x30\xcc\x32"},{973,4,"\x81\x30\xcc\x33"},{974,4,"\x81\x30\xcc\x34"},{1025,2,"\xa7\xa7"},{1026,4,"\x81\x30\xd1\x35"},{1027,4,"\x81\x30\xd1\x36"},{1028,4,"\x81\x30\xd1\x37"},{1029,4,"\x81\x30\xd1\x38"},{1030,4,"\x81\x30\xd1\x39"},{1031,4,"\x81\x30\xd2\x30"},{1032,4,"\x81\x30\xd2\x31"},{1033,4,"\x81\x30\xd2\x32"},{1034,4,"\x81\x30\xd2\x33"},{1035,4,"\x81\x30\xd2\x34"},{1036,4,"\x81\x30\xd2\x35"},{1037,4,"\x81\x30\xd2\x36"},{1038,4,"\x81\x30\xd2\x37"},{1039,4,"\x81\x30\xd2\x38"},{1040,2,"\xa7\xa1"},{1041,2,"\xa7\xa2"},{1042,2,"\xa7\xa3"},{1043,2,"\xa7\xa4"},{1044,2,"\xa7\xa5"},{1045,2,"\xa7\xa6"},{1046,2,"\xa7\xa8"},{1047,2,"\xa7\xa9"},{1048,2,"\xa7\xaa"},{1049,2,"\xa7\xab"},{1050,2,"\xa7\xac"},{1051,2,"\xa7\xad"},{1052,2,"\xa7\xae"},{1053,2,"\xa7\xaf"},{1054,2,"\xa7\xb0"},{1055,2,"\xa7\xb1"},{1056,2,"\xa7\xb2"},{1057,2,"\xa7\xb3"},{1058,2,"\xa7\xb4"},{1059,2,"\xa7\xb5"},{1060,2,"\xa7\xb6"},{1061,2,"\xa7\xb7"},{1062,2,"\xa7\xb8"},{1063,2,"\xa7\xb9"},{1064,2,"\xa7\xba"},{1065,2,"\xa7\xbb"},{1066,2,"\xa7\xbc"},{1067,2,"\xa7\xbd"},{1068,2,"\xa7\xbe"},{1069,2,"\xa7\xbf"},{1070,2,"\xa7\xc0"},{1071,2,"\xa7\xc1"},{1072,2,"\xa7\xd1"},{1073,2,"\xa7\xd2"},{1074,2,"\xa7\xd3"},{1075,2,"\xa7\xd4"},{1076,2,"\xa7\xd5"},{1077,2,"\xa7\xd6"},{1078,2,"\xa7\xd8"},{1079,2,"\xa7\xd9"},{1080,2,"\xa7\xda"},{1081,2,"\xa7\xdb"},{1082,2,"\xa7\xdc"},{1083,2,"\xa7\xdd"},{1084,2,"\xa7\xde"},{1085,2,"\xa7\xdf"},{1086,2,"\xa7\xe0"},{1087,2,"\xa7\xe1"},{1088,2,"\xa7\xe2"},{1089,2,"\xa7\xe3"},{1090,2,"\xa7\xe4"},{1091,2,"\xa7\xe5"},{1092,2,"\xa7\xe6"},{1093,2,"\xa7\xe7"},{1094,2,"\xa7\xe8"},{1095,2,"\xa7\xe9"},{1096,2,"\xa7\xea"},{1097,2,"\xa7\xeb"},{1098,2,"\xa7\xec"},{1099,2,"\xa7\xed"},{1100,2,"\xa7\xee"},{1101,2,"\xa7\xef"},{1102,2,"\xa7\xf0"},{1103,2,"\xa7\xf1"},{1104,4,"\x81\x30\xd2\x39"},{1105,2,"\xa7\xd7"},{1106,4,"\x81\x30\xd3\x30"},{1107,4,"\x81\x30\xd3\x31"},{1108,4,"\x81\x30\xd3\x32"},{1109,4,"\x81\x30\xd3\x33"},{1110,4,"\x81\x30\xd3\x34"},{1111,4,"\x81\x30\xd3\x35"},{1112,4,"\x81\x30\xd3\x36"},{1113,4,"\x81\x30\xd3\x37"},{1114,4,"\x81\x30\xd3\x38"},{1115,4,"\x81\x30\xd3\x39"},{1116,4,"\x81\x30\xd4\x30"},{1117,4,"\x81\x30\xd4\x31"},{1118,4,"\x81\x30\xd4\x32"},{8211,2,"\xa8\x43"},{8212,2,"\xa1\xaa"},{8216,2,"\xa1\xae"},{8217,2,"\xa1\xaf"},{8220,2,"\xa1\xb0"},
{8221,2,"\xa1\xb1"},{8222,4,"\x81\x36\xa5\x37"},{8224,4,"\x81\x36\xa5\x39"},{8225,4,"\x81\x36\xa6\x30"},{8226,4,"\x81\x36\xa6\x31"},{8230,2,"\xa1\xad"},{8240,2,"\xa1\xeb"},{8249,4,"\x81\x36\xa7\x38"},{8250,4,"\x81\x36\xa7\x39"},{8364,2,"\xa2\xe3"},{8482,4,"\x81\x36\xbe\x34"},{1488,4,"\x81\x30\xf9\x32"},{1489,4,"\x81\x30\xf9\x33"},{1490,4,"\x81\x30\xf9\x34"},{1491,4,"\x81\x30\xf9\x35"},{1492,4,"\x81\x30\xf9\x36"},{1493,4,"\x81\x30\xf9\x37"},{1494,4,"\x81\x30\xf9\x38"},{1495,4,"\x81\x30\xf9\x39"},{1496,4,"\x81\x30\xfa\x30"},{1497,4,"\x81\x30\xfa\x31"},{1498,4,"\x81\x30\xfa\x32"},{1499,4,"\x81\x30\xfa\x33"},{1500,4,"\x81\x30\xfa\x34"},{1501,4,"\x81\x30\xfa\x35"},{1502,4,"\x81\x30\xfa\x36"},{1503,4,"\x81\x30\xfa\x37"},{1504,4,"\x81\x30\xfa\x38"},{1505,4,"\x81\x30\xfa\x39"},{1506,4,"\x81\x30\xfb\x30"},{1507,4,"\x81\x30\xfb\x31"},{1508,4,"\x81\x30\xfb\x32"},{1509,4,"\x81\x30\xfb\x33"},{1510,4,"\x81\x30\xfb\x34"},{1511,4,"\x81\x30\xfb\x35"},{1512,4,"\x81\x30\xfb\x36"},{1513,4,"\x81\x30\xfb\x37"},{1514,4,"\x81\x30\xfb\x38"},{3585,4,"\x81\x32\xce\x39"},{3586,4,"\x81\x32\xcf\x30"},{3587,4,"\x81\x32\xcf\x31"},{3588,4,"\x81\x32\xcf\x32"},{3589,4,"\x81\x32\xcf\x33"},{3590,4,"\x81\x32\xcf\x34"},{3591,4,"\x81\x32\xcf\x35"},{3592,4,"\x81\x32\xcf\x36"},{3593,4,"\x81\x32\xcf\x37"},{3594,4,"\x81\x32\xcf\x38"},{3595,4,"\x81\x32\xcf\x39"},{3596,4,"\x81\x32\xd0\x30"},{3597,4,"\x81\x32\xd0\x31"},{3598,4,"\x81\x32\xd0\x32"},{3599,4,"\x81\x32\xd0\x33"},{3600,4,"\x81\x32\xd0\x34"},{3601,4,"\x81\x32\xd0\x35"},{3602,4,"\x81\x32\xd0\x36"},{3603,4,"\x81\x32\xd0\x37"},{3604,4,"\x81\x32\xd0\x38"},{3605,4,"\x81\x32\xd0\x39"},{3606,4,"\x81\x32\xd1\x30"},{3607,4,"\x81\x32\xd1\x31"},{3608,4,"\x81\x32\xd1\x32"},{3609,4,"\x81\x32\xd1\x33"},{3610,4,"\x81\x32\xd1\x34"},{3611,4,"\x81\x32\xd1\x35"},{3612,4,"\x81\x32\xd1\x36"},{3613,4,"\x81\x32\xd1\x37"},{3614,4,"\x81\x32\xd1\x38"},{3615,4,"\x81\x32\xd1\x39"},{3616,4,"\x81\x32\xd2\x30"},{3617,4,"\x81\x32\xd2\x31"},{3618,4,"\x81\x32\xd2\x32"},{3619,4,"\x81\x32\xd2\x33"},{3620,4,"\x81\x32\xd2\x34"},{3621,4,"\x81\x32\xd2\x35"},{3622,4,"\x81\x32\xd2\x36"},{3623,4,"\x81\x32\xd2\x37"},{3624,4,"\x81\x32\xd2\x38"},{3625,4,"\x81\x32\xd2\x39"},{3626,4,"\x81\x32\xd3\x30"},{3627,4,"\x81\x32\xd3\x31"},{3628,4,"\x81\x32\xd3\x32"},{3629,4,"\x81\x32\xd3\x33"},{3630,4,"\x81\x32\xd3\x34"},{12353,2,"\xa4\xa1"},{12354,2,"\xa4\xa2"},{12355,2,"\xa4\xa3"},{12356,2,"\xa4\xa4"},{12357,2,"\xa4\xa5"},{12358,2,"\xa4\xa6"},{12359,2,"\xa4\xa7"},{12360,2,"\xa4\xa8"},{12361,2,"\xa4\xa9"},{12362,2,"\xa4\xaa"},{12363,2,"\xa4\xab"},{12364,2,"\xa4\xac"},{12365,2,"\xa4\xad"},{12366,2,"\xa4\xae"},{12367,2,"\xa4\xaf"},{12368,2,"\xa4\xb0"},{12369,2,"\xa4\xb1"},{12370,2,"\xa4\xb2"},{12371,2,"\xa4\xb3"},{12372,2,"\xa4\xb4"},{12373,2,"\xa4\xb5"},{12374,2,"\xa4\xb6"},{12375,2,"\xa4\xb7"},{12376,2,"\xa4\xb8"},{12377,2,"\xa4\xb9"},{12378,2,"\xa4\xba"},{12379,2,"\xa4\xbb"},{12380,2,"\xa4\xbc"},{12381,2,"\xa4\xbd"},{12382,2,"\xa4\xbe"},{12383,2,"\xa4\xbf"},{12384,2,"\xa4\xc0"},{12385,2,"\xa4\xc1"},
{12386,2,"\xa4\xc2"},{12387,2,"\xa4\xc3"},{12388,2,"\xa4\xc4"},{12389,2,"\xa4\xc5"},{12390,2,"\xa4\xc6"},{12391,2,"\xa4\xc7"},{12392,2,"\xa4\xc8"},{12393,2,"\xa4\xc9"},{12394,2,"\xa4\xca"},{12395,2,"\xa4\xcb"},{12396,2,"\xa4\xcc"},{12397,2,"\xa4\xcd"},{12398,2,"\xa4\xce"},{12399,2,"\xa4\xcf"},{12400,2,"\xa4\xd0"},{12401,2,"\xa4\xd1"},{12402,2,"\xa4\xd2"},{12403,2,"\xa4\xd3"},{12404,2,"\xa4\xd4"},{12405,2,"\xa4\xd5"},{12406,2,"\xa4\xd6"},{12407,2,"\xa4\xd7"},{12408,2,"\xa4\xd8"},{12409,2,"\xa4\xd9"},{12410,2,"\xa4\xda"},{12411,2,"\xa4\xdb"},{12412,2,"\xa4\xdc"},{12413,2,"\xa4\xdd"},{12414,2,"\xa4\xde"},{12415,2,"\xa4\xdf"},{12416,2,"\xa4\xe0"},{12417,2,"\xa4\xe1"},{12418,2,"\xa4\xe2"},{12419,2,"\xa4\xe3"},{12420,2,"\xa4\xe4"},{12421,2,"\xa4\xe5"},{12422,2,"\xa4\xe6"},{12423,2,"\xa4\xe7"},{12424,2,"\xa4\xe8"},{12425,2,"\xa4\xe9"},{12426,2,"\xa4\xea"},{12427,2,"\xa4\xeb"},{12428,2,"\xa4\xec"},{12429,2,"\xa4\xed"},{12430,2,"\xa4\xee"},{12431,2,"\xa4\xef"},{12432,2,"\xa4\xf0"},{12433,2,"\xa4\xf1"},{12434,2,"\xa4\xf2"},{12435,2,"\xa4\xf3"},{12449,2,"\xa5\xa1"},{12450,2,"\xa5\xa2"},{12451,2,"\xa5\xa3"},{12452,2,"\xa5\xa4"},{12453,2,"\xa5\xa5"},{12454,2,"\xa5\xa6"},{12455,2,"\xa5\xa7"},{12456,2,"\xa5\xa8"},{12457,2,"\xa5\xa9"},{12458,2,"\xa5\xaa"},{12459,2,"\xa5\xab"},{12460,2,"\xa5\xac"},{12461,2,"\xa5\xad"},{12462,2,"\xa5\xae"},{12463,2,"\xa5\xaf"},{12464,2,"\xa5\xb0"},{12465,2,"\xa5\xb1"},{12466,2,"\xa5\xb2"},{12467,2,"\xa5\xb3"},{12468,2,"\xa5\xb4"},{12469,2,"\xa5\xb5"},{12470,2,"\xa5\xb6"},{12471,2,"\xa5\xb7"},{12472,2,"\xa5\xb8"},{12473,2,"\xa5\xb9"},{12474,2,"\xa5\xba"},{12475,2,"\xa5\xbb"},{12476,2,"\xa5\xbc"},{12477,2,"\xa5\xbd"},{12478,2,"\xa5\xbe"},{12479,2,"\xa5\xbf"},{12480,2,"\xa5\xc0"},{12481,2,"\xa5\xc1"},{12482,2,"\xa5\xc2"},{12483,2,"\xa5\xc3"},{12484,2,"\xa5\xc4"},{12485,2,"\xa5\xc5"},{12486,2,"\xa5\xc6"},{12487,2,"\xa5\xc7"},{12488,2,"\xa5\xc8"},{12489,2,"\xa5\xc9"},{12490,2,"\xa5\xca"},{12491,2,"\xa5\xcb"},{12492,2,"\xa5\xcc"},{12493,2,"\xa5\xcd"},{12494,2,"\xa5\xce"},{12495,2,"\xa5\xcf"},{12496,2,"\xa5\xd0"},{12497,2,"\xa5\xd1"},{12498,2,"\xa5\xd2"},{12499,2,"\xa5\xd3"},{12500,2,"\xa5\xd4"},{12501,2,"\xa5\xd5"},{12502,2,"\xa5\xd6"},{12503,2,"\xa5\xd7"},{12504,2,"\xa5\xd8"},{12505,2,"\xa5\xd9"},{12506,2,"\xa5\xda"},{12507,2,"\xa5\xdb"},{12508,2,"\xa5\xdc"},{12509,2,"\xa5\xdd"},{12510,2,"\xa5\xde"},{12511,2,"\xa5\xdf"},{12512,2,"\xa5\xe0"},{12513,2,"\xa5\xe1"},{12514,2,"\xa5\xe2"},{12515,2,"\xa5\xe3"},{12516,2,"\xa5\xe4"},{12517,2,"\xa5\xe5"},{12518,2,"\xa5\xe6"},{12519,2,"\xa5\xe7"},{12520,2,"\xa5\xe8"},{12521,2,"\xa5\xe9"},{12522,2,"\xa5\xea"},{12523,2,"\xa5\xeb"},{12524,2,"\xa5\xec"},{12525,2,"\xa5\xed"},{12526,2,"\xa5\xee"},{12527,2,"\xa5\xef"},{12528,2,"\xa5\xf0"},{12529,2,"\xa5\xf1"},{12530,2,"\xa5\xf2"},{12531,2,"\xa5\xf3"},{12532,2,"\xa5\xf4"},{12533,2,"\xa5\xf5"},{12534,2,"\xa5\xf6"},{12289,2,"\xa1\xa2"},{12290,2,"\xa1\xa3"},{12300,2,"\xa1\xb8"},{12301,2,"\xa1\xb9"},{26085,2,"\xc8\xd5"},{26412,2,"\xb1\xbe"},{35486,2,"\xd5\x5a"},
{28450,2,"\x9d\x68"},{23383,2,"\xd7\xd6"},{20013,2,"\xd6\xd0"},{25991,2,"\xce\xc4"},{22283,2,"\x87\xf8"},{22269,2,"\xb9\xfa"},{35821,2,"\xd3\xef"},{31616,2,"\xbc\xf2"},{39636,2,"\xf3\x77"},{20307,2,"\xcc\xe5"},{32321,2,"\xb7\xb1"},{21488,2,"\xcc\xa8"},{28771,2,"\x9e\xb3"},{28286,2,"\xcd\xe5"},{39321,2,"\xcf\xe3"},{28207,2,"\xb8\xdb"},{32763,2,"\xb7\xad"},{35695,2,"\xd7\x67"},{35793,2,"\xd2\xeb"},{36938,2,"\xdf\x5b"},{28216,2,"\xd3\xce"},{25103,2,"\xcf\xb7"},{25138,2,"\x91\xf2"},{38283,2,"\xe9\x5f"},{24320,2,"\xbf\xaa"},{22987,2,"\xca\xbc"},{26032,2,"\xd0\xc2"},{38306,2,"\xe9\x76"},{38364,2,"\xea\x50"},{35373,2,"\xd4\x4f"},{32622,2,"\xd6\xc3"},{23450,2,"\xb6\xa8"},{35328,2,"\xd1\xd4"},{21517,2,"\xc3\xfb"},{21069,2,"\xc7\xb0"},{20445,2,"\xb1\xa3"},{23384,2,"\xb4\xe6"},{21151,2,"\xb9\xa6"},{35377,2,"\xd4\x53"},{33995,2,"\xc9\x77"},{20040,2,"\xc3\xb4"},{32946,2,"\xd3\xfd"},{21522,2,"\xdf\xb8"},{21549,2,"\xbf\xd4"},{23049,2,"\xe6\xb3"},{35961,2,"\xb1\xaa"},{29854,2,"\xe8\xb1"},{25850,2,"\x94\x5b"},{39184,2,"\xb2\xcd"},{39631,2,"\xf3\x74"},{29749,2,"\xc5\xfd"},{26543,2,"\xbf\xdd"},{27519,2,"\x9a\x7b"},{19968,2,"\xd2\xbb"},{20108,2,"\xb6\xfe"},{19977,2,"\xc8\xfd"},{22235,2,"\xcb\xc4"},{20116,2,"\xce\xe5"},{20845,2,"\xc1\xf9"},{19971,2,"\xc6\xdf"},{20843,2,"\xb0\xcb"},{20061,2,"\xbe\xc5"},{21313,2,"\xca\xae"},{44032,4,"\x82\x37\xcf\x35"},{44033,4,"\x82\x37\xcf\x36"},{44034,4,"\x82\x37\xcf\x37"},{44035,4,"\x82\x37\xcf\x38"},{44036,4,"\x82\x37\xcf\x39"},{44037,4,"\x82\x37\xd0\x30"},{44038,4,"\x82\x37\xd0\x31"},{44039,4,"\x82\x37\xd0\x32"},{44040,4,"\x82\x37\xd0\x33"},{44041,4,"\x82\x37\xd0\x34"},{44042,4,"\x82\x37\xd0\x35"},{44043,4,"\x82\x37\xd0\x36"},{44044,4,"\x82\x37\xd0\x37"},{44045,4,"\x82\x37\xd0\x38"},{44046,4,"\x82\x37\xd0\x39"},{44047,4,"\x82\x37\xd1\x30"},{44048,4,"\x82\x37\xd1\x31"},{44049,4,"\x82\x37\xd1\x32"},{44050,4,"\x82\x37\xd1\x33"},{44051,4,"\x82\x37\xd1\x34"},{44052,4,"\x82\x37\xd1\x35"},{44053,4,"\x82\x37\xd1\x36"},{44054,4,"\x82\x37\xd1\x37"},{44055,4,"\x82\x37\xd1\x38"},{44056,4,"\x82\x37\xd1\x39"},{44057,4,"\x82\x37\xd2\x30"},{44058,4,"\x82\x37\xd2\x31"},{44059,4,"\x82\x37\xd2\x32"},{44060,4,"\x82\x37\xd2\x33"},{44061,4,"\x82\x37\xd2\x34"},{44062,4,"\x82\x37\xd2\x35"},{44063,4,"\x82\x37\xd2\x36"},{54620,4,"\x83\x36\x84\x33"},{44397,4,"\x82\x37\xf4\x30"},{50612,4,"\x83\x32\xeb\x35"},{44172,4,"\x82\x37\xdd\x35"},{51076,4,"\x83\x33\x9b\x39"},{49884,4,"\x83\x32\xa2\x37"},{51089,4,"\x83\x33\x9d\x32"},{49444,4,"\x83\x31\xf4\x37"},{51221,4,"\x83\x33\xaa\x34"},{51200,4,"\x83\x33\xa8\x33"},{51109,4,"\x83\x33\x9f\x32"},{1569,4,"\x81\x31\x83\x33"},{1570,4,"\x81\x31\x83\x34"},{1571,4,"\x81\x31\x83\x35"},{1572,4,"\x81\x31\x83\x36"},{1573,4,"\x81\x31\x83\x37"},{1574,4,"\x81\x31\x83\x38"},{1575,4,"\x81\x31\x83\x39"},{1576,4,"\x81\x31\x84\x30"},{1577,4,"\x81\x31\x84\x31"},{1578,4,"\x81\x31\x84\x32"},{1579,4,"\x81\x31\x84\x33"},{1580,4,"\x81\x31\x84\x34"},{1581,4,"\x81\x31\x84\x35"},{1582,4,"\x81\x31\x84\x36"},{1583,4,"\x81\x31\x84\x37"},{1584,4,"\x81\x31\x84\x38"},
{1585,4,"\x81\x31\x84\x39"},{1586,4,"\x81\x31\x85\x30"},{1587,4,"\x81\x31\x85\x31"},{1588,4,"\x81\x31\x85\x32"},{1589,4,"\x81\x31\x85\x33"},{1590,4,"\x81\x31\x85\x34"},{1591,4,"\x81\x31\x85\x35"},{1592,4,"\x81\x31\x85\x36"},{1593,4,"\x81\x31\x85\x37"},{1594,4,"\x81\x31\x85\x38"},{1600,4,"\x81\x31\x86\x34"},{1601,4,"\x81\x31\x86\x35"},{1602,4,"\x81\x31\x86\x36"},{1603,4,"\x81\x31\x86\x37"},{1604,4,"\x81\x31\x86\x38"},{1605,4,"\x81\x31\x86\x39"},{1606,4,"\x81\x31\x87\x30"},{1607,4,"\x81\x31\x87\x31"},{1608,4,"\x81\x31\x87\x32"},{1609,4,"\x81\x31\x87\x33"},{1610,4,"\x81\x31\x87\x34"},{1168,4,"\x81\x30\xd9\x32"},{1169,4,"\x81\x30\xd9\x33"},{1170,4,"\x81\x30\xd9\x34"},{1171,4,"\x81\x30\xd9\x35"},{1172,4,"\x81\x30\xd9\x36"},{1173,4,"\x81\x30\xd9\x37"},{1174,4,"\x81\x30\xd9\x38"},{1175,4,"\x81\x30\xd9\x39"},{1176,4,"\x81\x30\xda\x30"},{1177,4,"\x81\x30\xda\x31"},{1178,4,"\x81\x30\xda\x32"},{1179,4,"\x81\x30\xda\x33"},{1180,4,"\x81\x30\xda\x34"},{1181,4,"\x81\x30\xda\x35"},{1182,4,"\x81\x30\xda\x36"},{1183,4,"\x81\x30\xda\x37"},{1184,4,"\x81\x30\xda\x38"},{1185,4,"\x81\x30\xda\x39"},{1186,4,"\x81\x30\xdb\x30"},{1187,4,"\x81\x30\xdb\x31"},{1188,4,"\x81\x30\xdb\x32"},{1189,4,"\x81\x30\xdb\x33"},{1190,4,"\x81\x30\xdb\x34"},{1191,4,"\x81\x30\xdb\x35"},{1192,4,"\x81\x30\xdb\x36"},{1193,4,"\x81\x30\xdb\x37"},{1194,4,"\x81\x30\xdb\x38"},{1195,4,"\x81\x30\xdb\x39"},{1196,4,"\x81\x30\xdc\x30"},{1197,4,"\x81\x30\xdc\x31"},{1198,4,"\x81\x30\xdc\x32"},{1199,4,"\x81\x30\xdc\x33"},{7840,4,"\x81\x35\xfe\x34"},{7841,4,"\x81\x35\xfe\x35"},{7842,4,"\x81\x35\xfe\x36"},{7843,4,"\x81\x35\xfe\x37"},{7844,4,"\x81\x35\xfe\x38"},{7845,4,"\x81\x35\xfe\x39"},{7846,4,"\x81\x36\x81\x30"},{7847,4,"\x81\x36\x81\x31"},{7848,4,"\x81\x36\x81\x32"},{7849,4,"\x81\x36\x81\x33"},{7850,4,"\x81\x36\x81\x34"},{7851,4,"\x81\x36\x81\x35"},{7852,4,"\x81\x36\x81\x36"},{7853,4,"\x81\x36\x81\x37"},{7854,4,"\x81\x36\x81\x38"},{7855,4,"\x81\x36\x81\x39"},{7856,4,"\x81\x36\x82\x30"},{7857,4,"\x81\x36\x82\x31"},{7858,4,"\x81\x36\x82\x32"},{7859,4,"\x81\x36\x82\x33"},{7860,4,"\x81\x36\x82\x34"},{7861,4,"\x81\x36\x82\x35"},{7862,4,"\x81\x36\x82\x36"},{7863,4,"\x81\x36\x82\x37"},{7864,4,"\x81\x36\x82\x38"},{7865,4,"\x81\x36\x82\x39"},{7866,4,"\x81\x36\x83\x30"},{7867,4,"\x81\x36\x83\x31"},{7868,4,"\x81\x36\x83\x32"},{7869,4,"\x81\x36\x83\x33"},{7870,4,"\x81\x36\x83\x34"},{7871,4,"\x81\x36\x83\x35"},{9472,2,"\xa9\xa4"},{9473,2,"\xa9\xa5"},{9474,2,"\xa9\xa6"},{9475,2,"\xa9\xa7"},{9476,2,"\xa9\xa8"},{9477,2,"\xa9\xa9"},{9478,2,"\xa9\xaa"},{9479,2,"\xa9\xab"},{9480,2,"\xa9\xac"},{9481,2,"\xa9\xad"},{9482,2,"\xa9\xae"},{9483,2,"\xa9\xaf"},{9484,2,"\xa9\xb0"},{9485,2,"\xa9\xb1"},{9486,2,"\xa9\xb2"},{9487,2,"\xa9\xb3"},{9488,2,"\xa9\xb4"},{9489,2,"\xa9\xb5"},{9490,2,"\xa9\xb6"},{9491,2,"\xa9\xb7"},{9492,2,"\xa9\xb8"},{9493,2,"\xa9\xb9"},{9494,2,"\xa9\xba"},{9495,2,"\xa9\xbb"},{9496,2,"\xa9\xbc"},{9497,2,"\xa9\xbd"},{9498,2,"\xa9\xbe"},{9499,2,"\xa9\xbf"},{9500,2,"\xa9\xc0"},{9501,2,"\xa9\xc1"},{9502,2,"\xa9\xc2"},{9503,2,"\xa9\xc3"},
{9504,2,"\xa9\xc4"},{9505,2,"\xa9\xc5"},{9506,2,"\xa9\xc6"},{9507,2,"\xa9\xc7"},{9508,2,"\xa9\xc8"},{9509,2,"\xa9\xc9"},{9510,2,"\xa9\xca"},{9511,2,"\xa9\xcb"},{9512,2,"\xa9\xcc"},{9513,2,"\xa9\xcd"},{9514,2,"\xa9\xce"},{9515,2,"\xa9\xcf"},{9516,2,"\xa9\xd0"},{9517,2,"\xa9\xd1"},{9518,2,"\xa9\xd2"},{9519,2,"\xa9\xd3"},{9520,2,"\xa9\xd4"},{9521,2,"\xa9\xd5"},{9522,2,"\xa9\xd6"},{9523,2,"\xa9\xd7"},{9524,2,"\xa9\xd8"},{9525,2,"\xa9\xd9"},{9526,2,"\xa9\xda"},{9527,2,"\xa9\xdb"},{9528,2,"\xa9\xdc"},{9529,2,"\xa9\xdd"},{9530,2,"\xa9\xde"},{9531,2,"\xa9\xdf"},{9532,2,"\xa9\xe0"},{9533,2,"\xa9\xe1"},{9534,2,"\xa9\xe2"},{9535,2,"\xa9\xe3"},{9536,2,"\xa9\xe4"},{9537,2,"\xa9\xe5"},{9538,2,"\xa9\xe6"},{9539,2,"\xa9\xe7"},{9540,2,"\xa9\xe8"},{9541,2,"\xa9\xe9"},{9542,2,"\xa9\xea"},{9543,2,"\xa9\xeb"},{9544,2,"\xa9\xec"},{9545,2,"\xa9\xed"},{9546,2,"\xa9\xee"},{9547,2,"\xa9\xef"},{9548,4,"\x81\x37\x97\x36"},{9549,4,"\x81\x37\x97\x37"},{9550,4,"\x81\x37\x97\x38"},{9551,4,"\x81\x37\x97\x39"},{8470,2,"\xa1\xed"},{8734,2,"\xa1\xde"},{8776,2,"\xa1\xd6"},{8800,2,"\xa1\xd9"},{8804,2,"\xa1\xdc"},{8805,2,"\xa1\xdd"},{8730,2,"\xa1\xcc"},{8706,4,"\x81\x36\xd1\x38"},{8721,2,"\xa1\xc6"},{8719,2,"\xa1\xc7"},{8747,2,"\xa1\xd2"},{9674,4,"\x81\x37\x9e\x30"},{64257,4,"\x84\x30\xb2\x33"},{64258,4,"\x84\x30\xb2\x34"},{12288,2,"\xa1\xa1"},{65345,2,"\xa3\xe1"},{65346,2,"\xa3\xe2"},{65347,2,"\xa3\xe3"},{65340,2,"\xa3\xdc"},{65374,2,"\xa1\xab"},{65372,2,"\xa3\xfc"},{65509,2,"\xa3\xa4"},{65377,4,"\x84\x31\x95\x37"},{65378,4,"\x84\x31\x95\x38"},{65379,4,"\x84\x31\x95\x39"},{65393,4,"\x84\x31\x97\x33"},{65394,4,"\x84\x31\x97\x34"},{65395,4,"\x84\x31\x97\x35"},{9312,2,"\xa2\xd9"},{9313,2,"\xa2\xda"},{9314,2,"\xa2\xdb"},{8544,2,"\xa2\xf1"},{8545,2,"\xa2\xf2"},{8546,2,"\xa2\xf3"},{13212,2,"\xa9\x4c"},{12849,2,"\xa9\x5a"},{34920,2,"\xb1\xed"},{20104,2,"\xd3\xe8"},{30003,2,"\xc9\xea"},{33021,2,"\xc4\xdc"},{36028,2,"\xd9\x4e"},{26292,2,"\xb1\xa9"},{27083,2,"\x98\x8b"},{22082,2,"\x87\x67"},{28012,2,"\x9b\xc9"},{27450,2,"\xc6\xdb"},{22317,2,"\xb9\xe7"},{29674,2,"\xab\x95"},{21682,2,"\x86\x44"},{31168,2,"\xd0\xe3"},{29410,2,"\xaa\x43"},{34444,2,"\xb0\xf6"},{37675,2,"\xe5\x61"},{25088,2,"\x91\xd9"},{33399,2,"\xc6\x47"},{32114,2,"\xbd\x7a"},{40786,2,"\xfd\x58"},{40845,2,"\xfd\x88"},{40860,2,"\xfd\x94"},{38000,2,"\xe8\x80"},{39729,2,"\xf4\x64"},{128512,4,"\x94\x39\xfc\x36"},{127918,4,"\x94\x39\xc1\x32"},{119070,4,"\x94\x32\xbe\x34"},
};
static const CsChar cs_46[] = {
{32,1,"\x20"},{33,1,"\x21"},{34,1,"\x22"},{35,1,"\x23"},{36,1,"\x24"},{37,1,"\x25"},{38,1,"\x26"},{39,1,"\x27"},{40,1,"\x28"},{41,1,"\x29"},{42,1,"\x2a"},{43,1,"\x2b"},{44,1,"\x2c"},{45,1,"\x2d"},{46,1,"\x2e"},{47,1,"\x2f"},{48,1,"\x30"},{49,1,"\x31"},{50,1,"\x32"},{51,1,"\x33"},{52,1,"\x34"},{53,1,"\x35"},{54,1,"\x36"},{55,1,"\x37"},{56,1,"\x38"},{57,1,"\x39"},{58,1,"\x3a"},{59,1,"\x3b"},{60,1,"\x3c"},{61,1,"\x3d"},{62,1,"\x3e"},{63,1,"\x3f"},{64,1,"\x40"},{65,1,"\x41"},{66,1,"\x42"},{67,1,"\x43"},{68,1,"\x44"},{69,1,"\x45"},{70,1,"\x46"},{71,1,"\x47"},{72,1,"\x48"},{73,1,"\x49"},{74,1,"\x4a"},{75,1,"\x4b"},{76,1,"\x4c"},{77,1,"\x4d"},{78,1,"\x4e"},{79,1,"\x4f"},{80,1,"\x50"},{81,1,"\x51"},{82,1,"\x52"},{83,1,"\x53"},{84,1,"\x54"},{85,1,"\x55"},{86,1,"\x56"},{87,1,"\x57"},{88,1,"\x58"},{89,1,"\x59"},{90,1,"\x5a"},{91,1,"\x5b"},{92,1,"\x5c"},{93,1,"\x5d"},{94,1,"\x5e"},{95,1,"\x5f"},{96,1,"\x60"},{97,1,"\x61"},{98,1,"\x62"},{99,1,"\x63"},{100,1,"\x64"},{101,1,"\x65"},{102,1,"\x66"},{103,1,"\x67"},{104,1,"\x68"},{105,1,"\x69"},{106,1,"\x6a"},{107,1,"\x6b"},{108,1,"\x6c"},{109,1,"\x6d"},{110,1,"\x6e"},{111,1,"\x6f"},{112,1,"\x70"},{113,1,"\x71"},{114,1,"\x72"},{115,1,"\x73"},{116,1,"\x74"},{117,1,"\x75"},{118,1,"\x76"},{119,1,"\x77"},{120,1,"\x78"},{121,1,"\x79"},{122,1,"\x7a"},{123,1,"\x7b"},{124,1,"\x7c"},{125,1,"\x7d"},{126,1,"\x7e"},{9,1,"\x09"},{10,1,"\x0a"},{13,1,"\x0d"},{7,1,"\x07"},{8,1,"\x08"},{11,1,"\x0b"},{167,2,"\xa1\xb1"},{176,2,"\xa2\x58"},{177,2,"\xa1\xd3"},{183,2,"\xa1\x50"},{215,2,"\xa1\xd1"},{247,2,"\xa1\xd2"},{127,1,"\x7f"},{1,1,"\x01"},{4,1,"\x04"},{27,1,"\x1b"},{26,1,"\x1a"},{12,1,"\x0c"},{913,2,"\xa3\x44"},{914,2,"\xa3\x45"},{915,2,"\xa3\x46"},{916,2,"\xa3\x47"},{917,2,"\xa3\x48"},{918,2,"\xa3\x49"},{919,2,"\xa3\x4a"},{920,2,"\xa3\x4b"},{921,2,"\xa3\x4c"},{922,2,"\xa3\x4d"},{923,2,"\xa3\x4e"},{924,2,"\xa3\x4f"},{925,2,"\xa3\x50"},{926,2,"\xa3\x51"},{927,2,"\xa3\x52"},{928,2,"\xa3\x53"},{929,2,"\xa3\x54"},{931,2,"\xa3\x55"},{932,2,"\xa3\x56"},{933,2,"\xa3\x57"},{934,2,"\xa3\x58"},{935,2,"\xa3\x59"},{936,2,"\xa3\x5a"},{937,2,"\xa3\x5b"},{945,2,"\xa3\x5c"},{946,2,"\xa3\x5d"},{947,2,"\xa3\x5e"},{948,2,"\xa3\x5f"},{949,2,"\xa3\x60"},{950,2,"\xa3\x61"},{951,2,"\xa3\x62"},{952,2,"\xa3\x63"},{953,2,"\xa3\x64"},{954,2,"\xa3\x65"},{955,2,"\xa3\x66"},{956,2,"\xa3\x67"},{957,2,"\xa3\x68"},{958,2,"\xa3\x69"},{959,2,"\xa3\x6a"},{960,2,"\xa3\x6b"},{961,2,"\xa3\x6c"},{963,2,"\xa3\x6d"},{964,2,"\xa3\x6e"},{965,2,"\xa3\x6f"},{966,2,"\xa3\x70"},{967,2,"\xa3\x71"},{968,2,"\xa3\x72"},{969,2,"\xa3\x73"},{8211,2,"\xa1\x56"},{8212,2,"\xa1\x58"},{8216,2,"\xa1\xa5"},{8217,2,"\xa1\xa6"},{8220,2,"\xa1\xa7"},{8221,2,"\xa1\xa8"},{8230,2,"\xa1\x4b"},{12289,2,"\xa1\x42"},{12290,2,"\xa1\x43"},{12300,2,"\xa1\x75"},{12301,2,"\xa1\x76"},{26085,2,"\xa4\xe9"},{26412,2,"\xa5\xbb"},{35486,2,"\xbb\x79"},{28450,2,"\xba\x7e"},{23383,2,"\xa6\x72"},{20013,2,"\xa4\xa4"},{25991,2,"\xa4\xe5"},{22283,2,"\xb0\xea"},{39636,2,"\xc5\xe9"},{20307,2,"\xca\x5e"},{32321,2,"\xc1\x63"},
{21488,2,"\xa5\x78"},{28771,2,"\xc6\x57"},{39321,2,"\xad\xbb"},{28207,2,"\xb4\xe4"},{32763,2,"\xc2\xbd"},{35695,2,"\xc4\xb6"},{36938,2,"\xb9\x43"},{28216,2,"\xb4\xe5"},{25138,2,"\xc0\xb8"},{38283,2,"\xb6\x7d"},{22987,2,"\xa9\x6c"},{26032,2,"\xb7\x73"},{38364,2,"\xc3\xf6"},{35373,2,"\xb3\x5d"},{32622,2,"\xb8\x6d"},{23450,2,"\xa9\x77"},{35328,2,"\xa8\xa5"},{21517,2,"\xa6\x57"},{21069,2,"\xab\x65"},{20445,2,"\xab\x4f"},{23384,2,"\xa6\x73"},{21151,2,"\xa5\x5c"},{35377,2,"\xb3\x5c"},{33995,2,"\xbb\x5c"},{20040,2,"\xa4\x5c"},{32946,2,"\xa8\x7c"},{21522,2,"\xa6\x5c"},{21549,2,"\xa7\x5c"},{23049,2,"\xae\x5c"},{35961,2,"\xb0\x5c"},{29854,2,"\xbf\x5c"},{25850,2,"\xc2\x5c"},{39184,2,"\xc0\x5c"},{39631,2,"\xc5\x5c"},{29749,2,"\xb5\x5c"},{26543,2,"\xac\x5c"},{27519,2,"\xaa\x5c"},{19968,2,"\xa4\x40"},{20108,2,"\xa4\x47"},{19977,2,"\xa4\x54"},{22235,2,"\xa5\x7c"},{20116,2,"\xa4\xad"},{20845,2,"\xa4\xbb"},{19971,2,"\xa4\x43"},{20843,2,"\xa4\x4b"},{20061,2,"\xa4\x45"},{21313,2,"\xa4\x51"},{9472,2,"\xa2\x77"},{9474,2,"\xa2\x78"},{9484,2,"\xa2\x7a"},{9488,2,"\xa2\x7b"},{9492,2,"\xa2\x7c"},{9496,2,"\xa2\x7d"},{9500,2,"\xa2\x75"},{9508,2,"\xa2\x74"},{9516,2,"\xa2\x73"},{9524,2,"\xa2\x72"},{9532,2,"\xa2\x71"},{8734,2,"\xa1\xdb"},{8800,2,"\xa1\xda"},{8730,2,"\xa1\xd4"},{8747,2,"\xa1\xec"},{12288,2,"\xa1\x40"},{65345,2,"\xa2\xe9"},{65346,2,"\xa2\xea"},{65347,2,"\xa2\xeb"},{65372,2,"\xa1\x55"},{8544,2,"\xa2\xb9"},{8545,2,"\xa2\xba"},{8546,2,"\xa2\xbb"},{13212,2,"\xa2\x50"},{34920,2,"\xaa\xed"},{20104,2,"\xa4\xa9"},{30003,2,"\xa5\xd3"},{33021,2,"\xaf\xe0"},{36028,2,"\xb6\x4b"},{26292,2,"\xbc\xc9"},{27083,2,"\xba\x63"},{22082,2,"\xe4\xf7"},{28012,2,"\xaf\x40"},{27450,2,"\xb4\xdb"},{22317,2,"\xa6\x63"},{29674,2,"\xaf\x5e"},{31168,2,"\xa8\x71"},{34444,2,"\xb0\x46"},{37675,2,"\xbf\xfc"},{25088,2,"\xc5\xca"},{33399,2,"\xc6\x41"},{32114,2,"\xb5\xb7"},{40786,2,"\xbe\xa6"},{40845,2,"\xc0\x73"},{40860,2,"\xc0\x74"},{38000,2,"\xc6\x5f"},{39729,2,"\xc6\x7b"},
};
static const CsTable cs_tables[] = {
  {"UTF-8", cs_0, 1148},
  {"UTF-16LE", cs_1, 1148},
  {"UTF-16BE", cs_2, 1148},
  {"UTF-32LE", cs_3, 1148},
  {"UTF-32BE", cs_4, 1148},
  {"ISO-8859-1", cs_5, 235},
  {"ISO-8859-2", cs_6, 230},
  {"ISO-8859-3", cs_7, 226},
  {"ISO-8859-4", cs_8, 232},
  {"ISO-8859-5", cs_9, 234},
  {"ISO-8859-6", cs_10, 179},
  {"ISO-8859-7", cs_11, 229},
  {"ISO-8859-8", cs_12, 196},
  {"ISO-8859-9", cs_13, 235},
  {"ISO-8859-10", cs_14, 234},
  {"ISO-8859-11", cs_15, 186},
  {"ISO-8859-13", cs_16, 235},
  {"ISO-8859-14", cs_17, 213},
  {"ISO-8859-15", cs_18, 235},
  {"ISO-8859-16", cs_19, 231},
  {"CP1250", cs_20, 224},
  {"CP1251", cs_21, 232},
  {"CP1252", cs_22, 226},
  {"CP1253", cs_23, 215},
  {"CP1254", cs_24, 224},
  {"CP1256", cs_25, 205},
  {"CP1257", cs_26, 219},
  {"CP437", cs_27, 188},
  {"CP850", cs_28, 215},
  {"CP852", cs_29, 212},
  {"CP855", cs_30, 216},
  {"CP857", cs_31, 214},
  {"CP862", cs_32, 188},
  {"CP866", cs_33, 196},
  {"KOI8-R", cs_34, 194},
  {"KOI8-U", cs_35, 202},
  {"TIS-620", cs_36, 153},
  {"MACINTOSH", cs_37, 222},
  {"ASCII", cs_38, 107},
  {"EUC-JP", cs_39, 788},
  {"SHIFT_JIS", cs_40, 545},
  {"EUC-KR", cs_41, 648},
  {"CP949", cs_42, 660},
  {"GB2312", cs_43, 583},
  {"GBK", cs_44, 623},
  {"GB18030", cs_45, 1148},
  {"BIG5", cs_46, 277},
};
} // namespace vf
#endif
