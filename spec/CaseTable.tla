------------------------------ MODULE CaseTable ------------------------------
(* Simple case mappings of the Unicode character database, for the basic     *)
(* plane (characters assigned as of Unicode 3.2, the age of Pire's tables):  *)
(* <<first, last, step, distance to the other case>>.  Derived from the      *)
(* database, not from Pire.                                                  *)
EXTENDS Integers, Sequences
CaseRuns == <<
  <<65, 90, 1, 32>>, <<97, 122, 1, -32>>, <<181, 181, 1, 743>>, <<192, 214, 1, 32>>, <<216, 222, 1, 32>>,
  <<224, 246, 1, -32>>, <<248, 254, 1, -32>>, <<255, 255, 1, 121>>, <<256, 302, 2, 1>>, <<257, 303, 2, -1>>,
  <<304, 304, 1, -199>>, <<305, 305, 1, -232>>, <<306, 310, 2, 1>>, <<307, 311, 2, -1>>, <<313, 327, 2, 1>>,
  <<314, 328, 2, -1>>, <<330, 374, 2, 1>>, <<331, 375, 2, -1>>, <<376, 376, 1, -121>>, <<377, 381, 2, 1>>,
  <<378, 382, 2, -1>>, <<383, 383, 1, -300>>, <<385, 385, 1, 210>>, <<386, 388, 2, 1>>, <<387, 389, 2, -1>>,
  <<390, 390, 1, 206>>, <<391, 391, 1, 1>>, <<392, 392, 1, -1>>, <<393, 394, 1, 205>>, <<395, 395, 1, 1>>,
  <<396, 396, 1, -1>>, <<398, 398, 1, 79>>, <<399, 399, 1, 202>>, <<400, 400, 1, 203>>, <<401, 401, 1, 1>>,
  <<402, 402, 1, -1>>, <<403, 403, 1, 205>>, <<404, 404, 1, 207>>, <<405, 405, 1, 97>>, <<406, 406, 1, 211>>,
  <<407, 407, 1, 209>>, <<408, 416, 8, 1>>, <<409, 417, 8, -1>>, <<412, 412, 1, 211>>, <<413, 413, 1, 213>>,
  <<414, 414, 1, 130>>, <<415, 415, 1, 214>>, <<418, 420, 2, 1>>, <<419, 421, 2, -1>>, <<422, 422, 1, 218>>,
  <<423, 423, 1, 1>>, <<424, 424, 1, -1>>, <<425, 425, 1, 218>>, <<428, 428, 1, 1>>, <<429, 429, 1, -1>>,
  <<430, 430, 1, 218>>, <<431, 431, 1, 1>>, <<432, 432, 1, -1>>, <<433, 434, 1, 217>>, <<435, 437, 2, 1>>,
  <<436, 438, 2, -1>>, <<439, 439, 1, 219>>, <<440, 440, 1, 1>>, <<441, 441, 1, -1>>, <<444, 444, 1, 1>>,
  <<445, 453, 8, -1>>, <<447, 447, 1, 56>>, <<452, 452, 1, 2>>, <<453, 453, 1, 1>>, <<454, 454, 1, -2>>,
  <<455, 455, 1, 2>>, <<456, 456, 1, -1>>, <<456, 456, 1, 1>>, <<457, 457, 1, -2>>, <<458, 458, 1, 2>>,
  <<459, 459, 1, -1>>, <<459, 475, 2, 1>>, <<460, 460, 1, -2>>, <<462, 476, 2, -1>>, <<477, 477, 1, -79>>,
  <<478, 494, 2, 1>>, <<479, 495, 2, -1>>, <<497, 497, 1, 2>>, <<498, 498, 1, -1>>, <<498, 500, 2, 1>>,
  <<499, 499, 1, -2>>, <<501, 501, 1, -1>>, <<502, 502, 1, -97>>, <<503, 503, 1, -56>>, <<504, 542, 2, 1>>,
  <<505, 543, 2, -1>>, <<544, 544, 1, -130>>, <<546, 562, 2, 1>>, <<547, 563, 2, -1>>, <<595, 595, 1, -210>>,
  <<596, 596, 1, -206>>, <<598, 599, 1, -205>>, <<601, 601, 1, -202>>, <<603, 603, 1, -203>>,
  <<608, 608, 1, -205>>, <<611, 611, 1, -207>>, <<616, 616, 1, -209>>, <<617, 617, 1, -211>>,
  <<623, 623, 1, -211>>, <<626, 626, 1, -213>>, <<629, 629, 1, -214>>, <<640, 640, 1, -218>>,
  <<643, 643, 1, -218>>, <<648, 648, 1, -218>>, <<650, 651, 1, -217>>, <<658, 658, 1, -219>>,
  <<837, 837, 1, 84>>, <<902, 902, 1, 38>>, <<904, 906, 1, 37>>, <<908, 908, 1, 64>>, <<910, 911, 1, 63>>,
  <<913, 929, 1, 32>>, <<931, 939, 1, 32>>, <<940, 940, 1, -38>>, <<941, 943, 1, -37>>, <<945, 961, 1, -32>>,
  <<962, 962, 1, -31>>, <<963, 971, 1, -32>>, <<972, 972, 1, -64>>, <<973, 974, 1, -63>>,
  <<976, 976, 1, -62>>, <<977, 977, 1, -57>>, <<981, 981, 1, -47>>, <<982, 982, 1, -54>>,
  <<984, 1006, 2, 1>>, <<985, 1007, 2, -1>>, <<1008, 1008, 1, -86>>, <<1009, 1009, 1, -80>>,
  <<1012, 1012, 1, -60>>, <<1013, 1013, 1, -96>>, <<1024, 1039, 1, 80>>, <<1040, 1071, 1, 32>>,
  <<1072, 1103, 1, -32>>, <<1104, 1119, 1, -80>>, <<1120, 1152, 2, 1>>, <<1121, 1153, 2, -1>>,
  <<1162, 1214, 2, 1>>, <<1163, 1215, 2, -1>>, <<1217, 1229, 2, 1>>, <<1218, 1230, 2, -1>>,
  <<1232, 1268, 2, 1>>, <<1233, 1269, 2, -1>>, <<1272, 1280, 8, 1>>, <<1273, 1281, 8, -1>>,
  <<1282, 1294, 2, 1>>, <<1283, 1295, 2, -1>>, <<1329, 1366, 1, 48>>, <<1377, 1414, 1, -48>>,
  <<7680, 7828, 2, 1>>, <<7681, 7829, 2, -1>>, <<7835, 7835, 1, -59>>, <<7840, 7928, 2, 1>>,
  <<7841, 7929, 2, -1>>, <<7936, 7943, 1, 8>>, <<7944, 7951, 1, -8>>, <<7952, 7957, 1, 8>>,
  <<7960, 7965, 1, -8>>, <<7968, 7975, 1, 8>>, <<7976, 7983, 1, -8>>, <<7984, 7991, 1, 8>>,
  <<7992, 7999, 1, -8>>, <<8000, 8005, 1, 8>>, <<8008, 8013, 1, -8>>, <<8017, 8023, 2, 8>>,
  <<8025, 8031, 2, -8>>, <<8032, 8039, 1, 8>>, <<8040, 8047, 1, -8>>, <<8048, 8049, 1, 74>>,
  <<8050, 8053, 1, 86>>, <<8054, 8055, 1, 100>>, <<8056, 8057, 1, 128>>, <<8058, 8059, 1, 112>>,
  <<8060, 8061, 1, 126>>, <<8064, 8071, 1, 8>>, <<8072, 8079, 1, -8>>, <<8080, 8087, 1, 8>>,
  <<8088, 8095, 1, -8>>, <<8096, 8103, 1, 8>>, <<8104, 8111, 1, -8>>, <<8112, 8113, 1, 8>>,
  <<8115, 8115, 1, 9>>, <<8120, 8121, 1, -8>>, <<8122, 8123, 1, -74>>, <<8124, 8124, 1, -9>>,
  <<8126, 8126, 1, -7205>>, <<8131, 8131, 1, 9>>, <<8136, 8139, 1, -86>>, <<8140, 8140, 1, -9>>,
  <<8144, 8145, 1, 8>>, <<8152, 8153, 1, -8>>, <<8154, 8155, 1, -100>>, <<8160, 8161, 1, 8>>,
  <<8165, 8165, 1, 7>>, <<8168, 8169, 1, -8>>, <<8170, 8171, 1, -112>>, <<8172, 8172, 1, -7>>,
  <<8179, 8179, 1, 9>>, <<8184, 8185, 1, -128>>, <<8186, 8187, 1, -126>>, <<8188, 8188, 1, -9>>,
  <<8486, 8486, 1, -7517>>, <<8490, 8490, 1, -8383>>, <<8491, 8491, 1, -8262>>, <<8544, 8559, 1, 16>>,
  <<8560, 8575, 1, -16>>, <<9398, 9423, 1, 26>>, <<9424, 9449, 1, -26>>, <<65313, 65338, 1, 32>>,
  <<65345, 65370, 1, -32>> >>

CaseStarts(r) == {c \in r[1]..r[2] : (c - r[1]) % r[3] = 0}
CaseDomain == UNION {CaseStarts(CaseRuns[i]) : i \in 1..Len(CaseRuns)}
CaseMap == [c \in CaseDomain |-> {c + CaseRuns[i][4] : i \in {j \in 1..Len(CaseRuns) :
              LET r == CaseRuns[j] IN c >= r[1] /\ c <= r[2] /\ (c - r[1]) % r[3] = 0}}]
Case(c) == IF c < 65536 /\ c \in CaseDomain THEN CaseMap[c] ELSE {}
=============================================================================
