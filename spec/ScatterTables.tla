---------------------------- MODULE ScatterTables ----------------------------
(* Published parameters of the elastic scattering factors of the elements.      *)
(* WkA, WkB: Weickenmeier & Kohl (1991), 1e-5, elements 1 to 98.                *)
(* LvdA (1e-6), LvdB (mantissa, exponent): Lobato & Van Dyck (2014), 1 to 102.  *)
(* ItcS (1e-2), Itc (1e-3): International Tables C 4.3.1.1, elements 2 to 33.    *)
EXTENDS Integers
WkA == <<
  <<427, 957, 802, 209>>,
  <<1217, 2616, -884, 1841>>,
  <<251, 3576, 988, 2370>>,
  <<1596, 2959, 4024, 1001>>,
  <<3652, 1140, 5677, 1506>>,
  <<4102, 4911, 5296, 61>>,
  <<4123, 5740, 6529, 373>>,
  <<3547, 3133, 10865, 1615>>,
  <<3957, 7225, 9581, 792>>,
  <<2597, 2197, 13762, 5394>>,
  <<3283, 8858, 11688, 2516>>,
  <<3833, 17124, 3649, 4134>>,
  <<4388, 17743, 5047, 3957>>,
  <<3812, 17833, 6280, 5605>>,
  <<4166, 17817, 9479, 4463>>,
  <<4003, 18346, 12218, 3753>>,
  <<4245, 17645, 15814, 3011>>,
  <<5011, 16667, 17074, 4358>>,
  <<4058, 17582, 20943, 2922>>,
  <<4001, 17416, 20986, 5497>>,
  <<9685, 14777, 20981, 4852>>,
  <<6667, 17356, 22710, 5957>>,
  <<5118, 16791, 26700, 6476>>,
  <<3204, 18460, 30764, 5052>>,
  <<3866, 17782, 31329, 6898>>,
  <<5455, 16660, 33208, 6947>>,
  <<5942, 17472, 34423, 6828>>,
  <<6049, 16600, 37302, 7109>>,
  <<8034, 15838, 40116, 5467>>,
  <<2948, 19200, 42222, 7480>>,
  <<16157, 32976, 18964, 6148>>,
  <<16184, 35705, 17618, 7133>>,
  <<6190, 18452, 41600, 12793>>,
  <<15913, 41583, 13385, 10549>>,
  <<16514, 41202, 12900, 13209>>,
  <<15798, 41181, 14254, 14987>>,
  <<16535, 44674, 24245, 3161>>,
  <<16039, 44470, 24661, 5840>>,
  <<16619, 44376, 25613, 6797>>,
  <<16794, 44505, 27188, 7313>>,
  <<16552, 45008, 30474, 6161>>,
  <<17327, 44679, 32441, 6143>>,
  <<16424, 45046, 33749, 7766>>,
  <<18750, 44919, 36323, 5388>>,
  <<16081, 45211, 40343, 6140>>,
  <<16599, 43951, 41478, 8142>>,
  <<16547, 44658, 45401, 5959>>,
  <<17154, 43689, 46392, 7725>>,
  <<15752, 44821, 48186, 8596>>,
  <<15732, 44563, 48507, 10948>>,
  <<16971, 42742, 48779, 13653>>,
  <<14927, 43729, 49444, 16440>>,
  <<18053, 44724, 48163, 15995>>,
  <<13141, 43855, 50035, 22299>>,
  <<31397, 55648, 39828, 4852>>,
  <<32756, 53927, 39830, 7607>>,
  <<30887, 53804, 42265, 9559>>,
  <<28398, 53568, 46662, 10282>>,
  <<35160, 56889, 42010, 7246>>,
  <<33810, 58035, 44442, 7413>>,
  <<35449, 59626, 43868, 7152>>,
  <<35559, 60598, 45165, 7168>>,
  <<38379, 64088, 41710, 6708>>,
  <<40352, 64303, 40488, 8137>>,
  <<36838, 64761, 47222, 6854>>,
  <<38514, 68422, 44359, 6775>>,
  <<37280, 67528, 47337, 8320>>,
  <<39335, 70093, 46774, 6658>>,
  <<40587, 71223, 46598, 6847>>,
  <<39728, 73368, 47795, 6759>>,
  <<40697, 73576, 47481, 8291>>,
  <<40122, 78861, 44658, 8799>>,
  <<41127, 76965, 46563, 10180>>,
  <<39978, 77171, 48541, 11540>>,
  <<39130, 80752, 48702, 11041>>,
  <<40436, 80701, 48445, 12438>>,
  <<38816, 80163, 51922, 13514>>,
  <<39551, 80409, 53365, 13485>>,
  <<40850, 83052, 53325, 11978>>,
  <<40092, 85415, 53346, 12747>>,
  <<41872, 88168, 54551, 9404>>,
  <<43358, 88007, 52966, 12059>>,
  <<40858, 87837, 56392, 13698>>,
  <<41637, 85094, 57749, 16700>>,
  <<38951, 83297, 60557, 20770>>,
  <<41677, 88094, 55170, 21029>>,
  <<50089, 100860, 51420, 5996>>,
  <<47470, 99363, 54721, 9206>>,
  <<47810, 98385, 54905, 12055>>,
  <<47903, 97455, 55883, 14309>>,
  <<48351, 98292, 58877, 12425>>,
  <<48664, 98057, 61483, 12136>>,
  <<46078, 97139, 66506, 13012>>,
  <<49148, 98583, 67674, 9725>>,
  <<50865, 98574, 68109, 9977>>,
  <<46259, 97882, 73056, 12723>>,
  <<46221, 95749, 76259, 14086>>,
  <<48500, 95602, 77234, 13374>>
>>
WkB == <<
  <<417218, 1605892, 2678365, 6945643>>,
  <<183008, 720225, 1613585, 1875551>>,
  <<2620, 200907, 1080597, 13049226>>,
  <<38968, 199268, 4686913, 10884167>>,
  <<50627, 368297, 2790586, 7498296>>,
  <<41335, 1098289, 3480286, 17719113>>,
  <<29792, 784094, 2258809, 7259254>>,
  <<17964, 260856, 1179972, 3802912>>,
  <<16403, 396612, 1243903, 4005053>>,
  <<9101, 41253, 502463, 1752954>>,
  <<6008, 207182, 764444, 14600952>>,
  <<7424, 287177, 1806729, 9700854>>,
  <<9086, 253252, 3043883, 9826737>>,
  <<5396, 186461, 2254263, 7243144>>,
  <<5564, 162500, 2445354, 6438264>>,
  <<5214, 140793, 2335691, 5359676>>,
  <<4643, 115677, 1934091, 5288785>>,
  <<7991, 101436, 1567109, 3960819>>,
  <<3352, 82984, 1413679, 20097722>>,
  <<2289, 71288, 1118914, 13502390>>,
  <<12527, 134248, 1243524, 13171112>>,
  <<5198, 86467, 1059984, 10356776>>,
  <<3786, 57160, 830305, 9178068>>,
  <<240, 44931, 792251, 8664058>>,
  <<1836, 41203, 673736, 7630466>>,
  <<3947, 43294, 626864, 7129470>>,
  <<3962, 43253, 605175, 6872437>>,
  <<3558, 39976, 536660, 6246894>>,
  <<5475, 45736, 538252, 6043276>>,
  <<137, 26535, 448040, 5426088>>,
  <<10455, 218391, 904125, 7516958>>,
  <<9890, 206856, 989926, 6813783>>,
  <<1642, 32542, 351888, 4450604>>,
  <<7669, 189297, 1131554, 4632082>>,
  <<8199, 176568, 987254, 3810640>>,
  <<6939, 153446, 898025, 3304365>>,
  <<7044, 159236, 1753592, 21526198>>,
  <<6199, 141265, 1433812, 15280257>>,
  <<6364, 134205, 1366551, 12572522>>,
  <<6565, 125292, 1309355, 10950252>>,
  <<5921, 115624, 1324924, 9869958>>,
  <<6162, 111236, 1276149, 9092026>>,
  <<5081, 99771, 1128925, 8428943>>,
  <<5120, 108672, 1223172, 8527316>>,
  <<4662, 85252, 1051121, 7453949>>,
  <<4933, 79381, 930944, 4117414>>,
  <<4481, 75608, 934354, 6791975>>,
  <<4867, 71518, 840595, 6424400>>,
  <<3672, 64379, 783687, 7337281>>,
  <<3308, 60931, 704977, 6483582>>,
  <<4023, 58192, 629247, 5557061>>,
  <<2842, 50687, 560835, 4828004>>,
  <<3830, 58340, 647550, 4708820>>,
  <<2097, 41007, 452105, 3718178>>,
  <<7813, 145053, 1505933, 19948830>>,
  <<8444, 140227, 1312939, 16056676>>,
  <<7206, 119585, 1155866, 12731371>>,
  <<5717, 98756, 995556, 11731874>>,
  <<8249, 143427, 1237363, 15055968>>,
  <<7081, 131033, 1144403, 14417706>>,
  <<7442, 138680, 1154391, 14372185>>,
  <<7155, 134703, 1100432, 14009138>>,
  <<7794, 155042, 1189283, 14279585>>,
  <<8508, 160712, 1145367, 11664063>>,
  <<6520, 132571, 1016884, 13469034>>,
  <<6850, 143566, 1057719, 13188972>>,
  <<6264, 126756, 946411, 10750194>>,
  <<6750, 135829, 976480, 12740374>>,
  <<6958, 138750, 941888, 12210940>>,
  <<6574, 131578, 913448, 12098209>>,
  <<6517, 129452, 867569, 10034878>>,
  <<6213, 130860, 918871, 9120213>>,
  <<6292, 123499, 842904, 7759815>>,
  <<5693, 115762, 783077, 6714066>>,
  <<5145, 111240, 833441, 6571782>>,
  <<5573, 111159, 800221, 5735021>>,
  <<4855, 99356, 738693, 5175829>>,
  <<4981, 97669, 738024, 4452068>>,
  <<5151, 100803, 803707, 4501758>>,
  <<4693, 98398, 783562, 4651474>>,
  <<5161, 102127, 918455, 6488177>>,
  <<5154, 103252, 849678, 5879463>>,
  <<4200, 90939, 771158, 5779178>>,
  <<4661, 87289, 684038, 5136000>>,
  <<4168, 73697, 586112, 4378613>>,
  <<4488, 83871, 644020, 4351940>>,
  <<5786, 120028, 1385073, 17215909>>,
  <<5239, 103225, 1149796, 14312303>>,
  <<5167, 98867, 1052682, 11218267>>,
  <<4931, 95698, 961135, 9544649>>,
  <<4748, 93369, 989867, 10206961>>,
  <<4660, 89912, 969785, 10023434>>,
  <<4323, 78798, 871624, 9230811>>,
  <<4641, 85867, 951157, 11102754>>,
  <<4918, 87026, 941105, 10498576>>,
  <<3904, 72797, 800506, 8641747>>,
  <<3969, 68167, 729607, 7572682>>,
  <<4291, 69956, 738554, 7718528>>
>>
LvdA == <<
  <<6474, -490193, 573284, -379403, 554426>>,
  <<3057451, -62004478, 64005554, -5001326, 151799>>,
  <<3926223, -4548620, 2193353, 69945, 2099>>,
  <<3398250, -1908669, 39070, -11163, 9462>>,
  <<1472792, -401933, 305999, 19614, 977>>,
  <<124466089, -220352857, 195235352, -98107936, 14202>>,
  <<58132715, -147542409, 130143066, -39619567, 10596>>,
  <<29947405, -77610127, 99881776, -51212701, 8196>>,
  <<948985, -30133392, 52796508, -22706270, 6570>>,
  <<582741, 370677, -546745, 414053, 5199>>,
  <<23670060, -21853179, 592499, -24465, 4840>>,
  <<4855010, -2662209, 478001, -70231, 3989>>,
  <<2834096, -4280041, 4421917, -34577, 3524>>,
  <<2871891, -2061735, 2171140, -66307, 3011>>,
  <<2791518, -4365068, 4435585, -80964, 2679>>,
  <<2679714, -474253, 514836, -95836, 2489>>,
  <<2566248, -338876, 1145846, -923109, 2292>>,
  <<2459817, -364198, 250584, -57744, 2301>>,
  <<5811079, -50253710, 48860941, 74063, 728>>,
  <<21178116, -339043824, 322756959, 65008, 656>>,
  <<12603519, -276875382, 268871604, 55682, 577>>,
  <<8575958, -210331563, 206097173, 47777, 506>>,
  <<6527684, -200430577, 198015054, 41391, 447>>,
  <<3028318, -95539393, 96176156, 35978, 391>>,
  <<4374176, -160925511, 160273308, 31230, 347>>,
  <<3798101, -91689355, 91445425, 27275, 303>>,
  <<3330379, -77001760, 77072522, 23990, 268>>,
  <<2969081, -75747707, 76039829, 21016, 231>>,
  <<1752071, -43041052, 44070592, 18688, 202>>,
  <<2466371, -61467854, 62017695, 16416, 172>>,
  <<2760102, -34445261, 35226227, 13207, 126>>,
  <<3182416, -52451404, 52969083, 11410, 95>>,
  <<3456430, -33317604, 33571219, 9790, 65>>,
  <<3649050, -43685166, 43692029, 8449, 38>>,
  <<3838463, -52272347, 51986128, 7340, 16>>,
  <<4025410, -46304233, 45721368, 6353, 1>>,
  <<3389754, 2143483, 354323, 3740, 0>>,
  <<4770925, 1475979, 304451, 3595, 0>>,
  <<4607210, 1428019, 295581, 3390, 0>>,
  <<4311755, 1493316, 281236, 3093, 0>>,
  <<3111790, 2202591, 270331, 2688, 0>>,
  <<2831060, 2348581, 245106, 2353, 0>>,
  <<2571799, 2456337, 220658, 2055, 0>>,
  <<2332300, 2535780, 198208, 1761, 0>>,
  <<2113525, 2586363, 177064, 1497, 0>>,
  <<642160, 2979148, 168154, 1337, 0>>,
  <<1553172, 2639304, 142015, 1009, 0>>,
  <<61530785, -78601674, 21550129, 137685, 325>>,
  <<4222322, -26412132, 27285285, 121618, 307>>,
  <<5142221, -25494541, 25741449, 111778, 294>>,
  <<6241640, -93386872, 92633288, 103413, 282>>,
  <<7377433, -126025107, 124128405, 95998, 271>>,
  <<9644007, -122924435, 118682565, 89503, 261>>,
  <<15545175, -118241028, 108009525, 83626, 252>>,
  <<4287087, 3232507, 674030, 61891, 236>>,
  <<6244752, 2351723, 474279, 63811, 235>>,
  <<6097882, 2194952, 548173, 61667, 227>>,
  <<5795269, 2370227, 471399, 57437, 219>>,
  <<5604063, 2357963, 476001, 54412, 211>>,
  <<5429084, 2336873, 483374, 51465, 204>>,
  <<5267744, 2308558, 493265, 48636, 196>>,
  <<5126804, 2269255, 504209, 45692, 189>>,
  <<4979624, 2241831, 512934, 42980, 181>>,
  <<5078358, 1957440, 592826, 41950, 175>>,
  <<4711616, 2172620, 539718, 37980, 167>>,
  <<4590755, 2135724, 551356, 35606, 160>>,
  <<4484001, 2089043, 565933, 33270, 152>>,
  <<4376651, 2046452, 580663, 31239, 145>>,
  <<4283083, 1995380, 597054, 29095, 138>>,
  <<4195638, 1943333, 612447, 27152, 131>>,
  <<4356926, 1695892, 663905, 26302, 125>>,
  <<4331384, 1527649, 735796, 24953, 119>>,
  <<4197260, 1468548, 783931, 23249, 111>>,
  <<3976297, 1522927, 797706, 21367, 103>>,
  <<3751444, 1627688, 781757, 19517, 94>>,
  <<3484015, 1793779, 744878, 17543, 84>>,
  <<1599566, 2975345, 695093, 14878, 69>>,
  <<2040216, 2899226, 636344, 13207, 57>>,
  <<1675935, 3004866, 595340, 11716, 43>>,
  <<2235229, 2682766, 555195, 10727, 33>>,
  <<2803427, 2718828, 522476, 9845, 23>>,
  <<3608610, 2450568, 478640, 8872, 10>>,
  <<4242099, 2099943, 432837, 8020, 1>>,
  <<4636201, 1780633, 403730, 7685, 0>>,
  <<4965923, 1438156, 371299, 7473, 0>>,
  <<5306156, 1117332, 315859, 7203, 0>>,
  <<4520534, 4106954, 713947, 16929, 86>>,
  <<6524011, 3207871, 540479, 8783, 7>>,
  <<6896029, 2835142, 503507, 8023, 0>>,
  <<7093749, 2529124, 482108, 7719, 0>>,
  <<6434013, 2971000, 460797, 7240, 0>>,
  <<6210708, 3039345, 437340, 6807, 0>>,
  <<6004316, 3094317, 412808, 6409, 0>>,
  <<5200617, 3498494, 405415, 6223, 0>>,
  <<5025339, 3518440, 381950, 5821, 0>>,
  <<5346561, 3224685, 349462, 5293, 0>>,
  <<5225824, 3228189, 327099, 4889, 0>>,
  <<4586412, 3518696, 319262, 4730, 0>>,
  <<4457995, 3508672, 301375, 4408, 0>>,
  <<4338976, 3491851, 281471, 4002, 0>>,
  <<4227295, 3472492, 264822, 3691, 0>>,
  <<4109517, 3457991, 247087, 3304, 0>>
>>
LvdB == <<
  <<<<2785199, 6>>, <<2776204, 6>>, <<2775386, 6>>, <<2767593, 6>>, <<2765119, 6>>>>,
  <<<<1089672, 6>>, <<9398388, 7>>, <<9252890, 7>>, <<8229475, 7>>, <<5773931, 7>>>>,
  <<<<8142760, 6>>, <<4989411, 6>>, <<4144290, 6>>, <<4019223, 7>>, <<1564790, 7>>>>,
  <<<<4442702, 6>>, <<3324515, 6>>, <<1897729, 7>>, <<8719186, 8>>, <<8278091, 8>>>>,
  <<<<3749740, 6>>, <<5880665, 7>>, <<5156396, 7>>, <<1213776, 7>>, <<6809824, 8>>>>,
  <<<<2421208, 6>>, <<2305379, 6>>, <<2048519, 6>>, <<1933526, 6>>, <<7689768, 8>>>>,
  <<<<1700449, 6>>, <<1559039, 6>>, <<1415768, 6>>, <<1278418, 6>>, <<5655878, 8>>>>,
  <<<<1302840, 6>>, <<1157941, 6>>, <<1009885, 6>>, <<9433280, 7>>, <<4331976, 8>>>>,
  <<<<1458829, 6>>, <<6887800, 7>>, <<6542399, 7>>, <<6148361, 7>>, <<3428374, 8>>>>,
  <<<<1281186, 6>>, <<4445209, 7>>, <<1986509, 7>>, <<1854772, 7>>, <<2757384, 8>>>>,
  <<<<8451488, 6>>, <<8040966, 6>>, <<6249960, 7>>, <<1324504, 7>>, <<2339944, 8>>>>,
  <<<<5946393, 6>>, <<4171303, 6>>, <<3982698, 7>>, <<1618862, 7>>, <<1953451, 8>>>>,
  <<<<6662350, 6>>, <<5512947, 7>>, <<5093290, 7>>, <<1117848, 7>>, <<1676024, 8>>>>,
  <<<<5084871, 6>>, <<4291782, 7>>, <<3664854, 7>>, <<1197106, 7>>, <<1439945, 8>>>>,
  <<<<3900660, 6>>, <<3298260, 7>>, <<3060900, 7>>, <<1080832, 7>>, <<1258945, 8>>>>,
  <<<<3068891, 6>>, <<3782167, 7>>, <<1887218, 7>>, <<9233706, 8>>, <<1119209, 8>>>>,
  <<<<2415949, 6>>, <<4214142, 7>>, <<1095924, 7>>, <<9909555, 8>>, <<9996659, 9>>>>,
  <<<<1940046, 6>>, <<3992411, 7>>, <<1174724, 7>>, <<5678037, 8>>, <<9155798, 9>>>>,
  <<<<1266915, 5>>, <<3956410, 6>>, <<3683851, 6>>, <<1074585, 7>>, <<6655768, 9>>>>,
  <<<<6396086, 6>>, <<3740247, 6>>, <<3648884, 6>>, <<9450906, 8>>, <<5985206, 9>>>>,
  <<<<6156256, 6>>, <<3088736, 6>>, <<3027277, 6>>, <<8188747, 8>>, <<5382898, 9>>>>,
  <<<<6007807, 6>>, <<2602859, 6>>, <<2553523, 6>>, <<7114295, 8>>, <<4856284, 9>>>>,
  <<<<5835525, 6>>, <<2232560, 6>>, <<2197860, 6>>, <<6239739, 8>>, <<4403836, 9>>>>,
  <<<<8359115, 6>>, <<1802638, 6>>, <<1775095, 6>>, <<5481444, 8>>, <<3998290, 9>>>>,
  <<<<5510317, 6>>, <<1687982, 6>>, <<1666140, 6>>, <<4833704, 8>>, <<3647470, 9>>>>,
  <<<<5317126, 6>>, <<1497131, 6>>, <<1468092, 6>>, <<4272479, 8>>, <<3327919, 9>>>>,
  <<<<5181360, 6>>, <<1329151, 6>>, <<1302849, 6>>, <<3806455, 8>>, <<3050100, 9>>>>,
  <<<<5041809, 6>>, <<1182755, 6>>, <<1162165, 6>>, <<3374791, 8>>, <<2786809, 9>>>>,
  <<<<6187505, 6>>, <<1002663, 6>>, <<9853843, 7>>, <<3029847, 8>>, <<2558556, 9>>>>,
  <<<<4910281, 6>>, <<9678985, 7>>, <<9512838, 7>>, <<2696010, 8>>, <<2341096, 9>>>>,
  <<<<6101282, 6>>, <<7651433, 7>>, <<7513286, 7>>, <<2248796, 8>>, <<2067374, 9>>>>,
  <<<<5017190, 6>>, <<7123958, 7>>, <<7022802, 7>>, <<1967473, 8>>, <<1841466, 9>>>>,
  <<<<4013580, 6>>, <<6623558, 7>>, <<6457719, 7>>, <<1709194, 8>>, <<1603016, 9>>>>,
  <<<<3250433, 6>>, <<6096662, 7>>, <<5969713, 7>>, <<1485545, 8>>, <<1336256, 9>>>>,
  <<<<2611895, 6>>, <<5661951, 7>>, <<5552793, 7>>, <<1297465, 8>>, <<1029865, 9>>>>,
  <<<<2136484, 6>>, <<5265912, 7>>, <<5141368, 7>>, <<1128072, 8>>, <<4880899, 10>>>>,
  <<<<2057448, 5>>, <<1910799, 6>>, <<1974106, 7>>, <<8134595, 9>>, <<2926858, 10>>>>,
  <<<<1336689, 5>>, <<1337384, 6>>, <<1775324, 7>>, <<7791050, 9>>, <<2822551, 10>>>>,
  <<<<1086869, 5>>, <<1311375, 6>>, <<1680229, 7>>, <<7359645, 9>>, <<2623433, 10>>>>,
  <<<<9458966, 6>>, <<1330636, 6>>, <<1565069, 7>>, <<6824105, 9>>, <<2498189, 10>>>>,
  <<<<1069031, 5>>, <<1653164, 6>>, <<1451152, 7>>, <<6139564, 9>>, <<2322402, 10>>>>,
  <<<<1043572, 5>>, <<1604829, 6>>, <<1316969, 7>>, <<5549779, 9>>, <<2227475, 10>>>>,
  <<<<1016431, 5>>, <<1534419, 6>>, <<1191386, 7>>, <<5018532, 9>>, <<2145904, 10>>>>,
  <<<<9921675, 6>>, <<1455857, 6>>, <<1076822, 7>>, <<4472435, 9>>, <<1965747, 10>>>>,
  <<<<9659137, 6>>, <<1371067, 6>>, <<9703530, 8>>, <<3971285, 9>>, <<1913552, 10>>>>,
  <<<<5974798, 6>>, <<1433594, 6>>, <<9098684, 8>>, <<3624101, 9>>, <<1806889, 10>>>>,
  <<<<8156202, 6>>, <<1216009, 6>>, <<7900989, 8>>, <<2965479, 9>>, <<1745931, 10>>>>,
  <<<<3114681, 6>>, <<2760170, 6>>, <<1935513, 6>>, <<7224683, 8>>, <<1170016, 9>>>>,
  <<<<6072655, 6>>, <<1645502, 6>>, <<1522571, 6>>, <<6565079, 8>>, <<1120939, 9>>>>,
  <<<<5272726, 6>>, <<1531950, 6>>, <<1402575, 6>>, <<6116854, 8>>, <<1075608, 9>>>>,
  <<<<4269841, 6>>, <<1394077, 6>>, <<1355669, 6>>, <<5726679, 8>>, <<1033080, 9>>>>,
  <<<<3469178, 6>>, <<1297598, 6>>, <<1267711, 6>>, <<5377718, 8>>, <<9930846, 10>>>>,
  <<<<2726455, 6>>, <<1237234, 6>>, <<1200620, 6>>, <<5066787, 8>>, <<9554379, 10>>>>,
  <<<<2106373, 6>>, <<1208604, 6>>, <<1153953, 6>>, <<4781894, 8>>, <<9198863, 10>>>>,
  <<<<2265879, 5>>, <<2237974, 6>>, <<3689956, 7>>, <<4022666, 8>>, <<8837619, 10>>>>,
  <<<<1514314, 5>>, <<1453790, 6>>, <<3208356, 7>>, <<4043545, 8>>, <<8540811, 10>>>>,
  <<<<1242885, 5>>, <<1505360, 6>>, <<3337380, 7>>, <<3877446, 8>>, <<8240499, 10>>>>,
  <<<<1428011, 5>>, <<1359690, 6>>, <<3020173, 7>>, <<3664368, 8>>, <<7954345, 10>>>>,
  <<<<1395175, 5>>, <<1312398, 6>>, <<2949337, 7>>, <<3486015, 8>>, <<7682617, 10>>>>,
  <<<<1365036, 5>>, <<1267598, 6>>, <<2886107, 7>>, <<3312918, 8>>, <<7423485, 10>>>>,
  <<<<1336021, 5>>, <<1225859, 6>>, <<2829196, 7>>, <<3147354, 8>>, <<7176580, 10>>>>,
  <<<<1315815, 5>>, <<1181295, 6>>, <<2771070, 7>>, <<2979576, 8>>, <<6940111, 10>>>>,
  <<<<1283927, 5>>, <<1147054, 6>>, <<2703872, 7>>, <<2824187, 8>>, <<6714866, 10>>>>,
  <<<<1051327, 5>>, <<1117649, 6>>, <<2843867, 7>>, <<2726633, 8>>, <<6503109, 10>>>>,
  <<<<1231094, 5>>, <<1087438, 6>>, <<2598050, 7>>, <<2532899, 8>>, <<6292786, 10>>>>,
  <<<<1206567, 5>>, <<1058117, 6>>, <<2539944, 7>>, <<2395087, 8>>, <<6094827, 10>>>>,
  <<<<1187493, 5>>, <<1028285, 6>>, <<2489078, 7>>, <<2258441, 8>>, <<5903744, 10>>>>,
  <<<<1166531, 5>>, <<1003148, 6>>, <<2441533, 7>>, <<2136186, 8>>, <<5721103, 10>>>>,
  <<<<1149619, 5>>, <<9770391, 7>>, <<2394291, 7>>, <<2009122, 8>>, <<5543771, 10>>>>,
  <<<<1141078, 5>>, <<9490119, 7>>, <<2349503, 7>>, <<1890516, 8>>, <<5372336, 10>>>>,
  <<<<9294345, 6>>, <<9105000, 7>>, <<2387466, 7>>, <<1820985, 8>>, <<5215594, 10>>>>,
  <<<<7876844, 6>>, <<9425156, 7>>, <<2416995, 7>>, <<1728999, 8>>, <<5058346, 10>>>>,
  <<<<6936740, 6>>, <<1017253, 6>>, <<2389489, 7>>, <<1623324, 8>>, <<4902390, 10>>>>,
  <<<<6296858, 6>>, <<1112900, 6>>, <<2310570, 7>>, <<1510135, 8>>, <<4746825, 10>>>>,
  <<<<5797546, 6>>, <<1182236, 6>>, <<2199136, 7>>, <<1398105, 8>>, <<4591271, 10>>>>,
  <<<<5439988, 6>>, <<1227921, 6>>, <<2062089, 7>>, <<1278994, 8>>, <<4430322, 10>>>>,
  <<<<5792444, 6>>, <<1553010, 6>>, <<1886263, 7>>, <<1117635, 8>>, <<4227724, 10>>>>,
  <<<<6658194, 6>>, <<1413379, 6>>, <<1740001, 7>>, <<1006878, 8>>, <<4030771, 10>>>>,
  <<<<5522311, 6>>, <<1380072, 6>>, <<1622292, 7>>, <<9018149, 9>>, <<3792777, 10>>>>,
  <<<<5020310, 6>>, <<1230776, 6>>, <<1522481, 7>>, <<8283991, 9>>, <<3562419, 10>>>>,
  <<<<6558769, 6>>, <<1169724, 6>>, <<1435567, 7>>, <<7619765, 9>>, <<3296277, 10>>>>,
  <<<<6581626, 6>>, <<1027729, 6>>, <<1335337, 7>>, <<6848612, 9>>, <<2763889, 10>>>>,
  <<<<5752801, 6>>, <<8739015, 7>>, <<1236000, 7>>, <<6176003, 9>>, <<1414952, 10>>>>,
  <<<<4888253, 6>>, <<7563105, 7>>, <<1173024, 7>>, <<5930344, 9>>, <<7666687, 11>>>>,
  <<<<4091294, 6>>, <<6292290, 7>>, <<1110967, 7>>, <<5772350, 9>>, <<8085119, 11>>>>,
  <<<<3488007, 6>>, <<4811907, 7>>, <<1018745, 7>>, <<5592454, 9>>, <<7795067, 11>>>>,
  <<<<1944822, 5>>, <<1898247, 6>>, <<1695536, 7>>, <<1148196, 8>>, <<3461220, 10>>>>,
  <<<<1400926, 5>>, <<1326350, 6>>, <<1314086, 7>>, <<6286474, 9>>, <<2278400, 10>>>>,
  <<<<1107638, 5>>, <<1171326, 6>>, <<1234947, 7>>, <<5735156, 9>>, <<7197075, 11>>>>,
  <<<<9094738, 6>>, <<1063917, 6>>, <<1186194, 7>>, <<5539457, 9>>, <<6584947, 11>>>>,
  <<<<1025969, 5>>, <<1131775, 6>>, <<1127759, 7>>, <<5274596, 9>>, <<6192638, 11>>>>,
  <<<<1002141, 5>>, <<1103999, 6>>, <<1072190, 7>>, <<5024321, 9>>, <<6005070, 11>>>>,
  <<<<9817930, 6>>, <<1069787, 6>>, <<1016353, 7>>, <<4795248, 9>>, <<6028066, 11>>>>,
  <<<<1120383, 5>>, <<1128464, 6>>, <<9893335, 8>>, <<4659174, 9>>, <<5725906, 11>>>>,
  <<<<1097722, 5>>, <<1084772, 6>>, <<9367469, 8>>, <<4426823, 9>>, <<5738568, 11>>>>,
  <<<<9231184, 6>>, <<9728362, 7>>, <<8705962, 8>>, <<4130120, 9>>, <<5494639, 11>>>>,
  <<<<9071357, 6>>, <<9311243, 7>>, <<8207206, 8>>, <<3890297, 9>>, <<5103680, 11>>>>,
  <<<<1031861, 5>>, <<9572788, 7>>, <<7968074, 8>>, <<3771932, 9>>, <<5097509, 11>>>>,
  <<<<1008907, 5>>, <<9194464, 7>>, <<7564192, 8>>, <<3570265, 9>>, <<4804952, 11>>>>,
  <<<<9963309, 6>>, <<8780840, 7>>, <<7116371, 8>>, <<3321524, 9>>, <<4851032, 11>>>>,
  <<<<9724006, 6>>, <<8428738, 7>>, <<6735347, 8>>, <<3123646, 9>>, <<4912171, 11>>>>,
  <<<<9677360, 6>>, <<8069400, 7>>, <<6328154, 8>>, <<2875446, 9>>, <<4706792, 11>>>>
>>
ItcS == <<
  0,
  1,
  2,
  3,
  4,
  5,
  6,
  7,
  8,
  9,
  10,
  11,
  12,
  13,
  14,
  15,
  16,
  17,
  18,
  19,
  20,
  22,
  24,
  25,
  26,
  28,
  30,
  32,
  34,
  35,
  36,
  38,
  40,
  42,
  44,
  45,
  46,
  48,
  50,
  55,
  60,
  65,
  70,
  80,
  90,
  100,
  110,
  120,
  130,
  140,
  150,
  160,
  170,
  180,
  190,
  200
>>
Itc == <<
  <<418, 418, 417, 415, 413, 410, 407, 404, 399, 395, 390, 384, 378, 372, 366, 359, 352, 345, 338, 330, 323, 308, 293, 286, 278, 264, 250, 236, 224, 217, 211, 200, 189, 178, 169, 164, 159, 151, 143, 125, 110, 97, 86, 68, 55, 46, 38, 32, 28, 24, 21, 19, 16, 15, 13, 12>>,
  <<3286, 3265, 3200, 3097, 2961, 2800, 2622, 2435, 2245, 2058, 1879, 1710, 1554, 1411, 1282, 1166, 1063, 971, 889, 817, 753, 646, 562, 526, 494, 440, 396, 359, 328, 314, 301, 279, 259, 241, 226, 219, 212, 200, 188, 164, 145, 128, 115, 93, 77, 64, 54, 46, 40, 35, 31, 28, 24, 22, 19, 17>>,
  <<3052, 3042, 3011, 2961, 2892, 2807, 2710, 2601, 2484, 2362, 2237, 2111, 1987, 1865, 1748, 1635, 1528, 1427, 1332, 1243, 1161, 1013, 887, 832, 781, 690, 614, 549, 494, 469, 446, 406, 371, 341, 314, 302, 291, 271, 253, 215, 186, 164, 145, 117, 96, 81, 69, 59, 51, 45, 40, 35, 31, 28, 26, 23>>,
  <<2794, 2788, 2768, 2736, 2693, 2638, 2574, 2502, 2423, 2339, 2250, 2159, 2067, 1974, 1882, 1791, 1702, 1616, 1533, 1453, 1377, 1235, 1107, 1048, 993, 892, 803, 725, 657, 625, 596, 543, 497, 455, 419, 402, 387, 358, 333, 280, 239, 207, 182, 144, 118, 98, 83, 72, 62, 55, 48, 43, 38, 35, 31, 28>>,
  <<2509, 2505, 2492, 2471, 2442, 2406, 2363, 2313, 2259, 2200, 2138, 2072, 2005, 1936, 1866, 1796, 1727, 1658, 1591, 1524, 1460, 1337, 1222, 1168, 1117, 1020, 932, 853, 781, 748, 717, 658, 606, 559, 517, 497, 479, 444, 413, 348, 297, 256, 223, 175, 141, 117, 99, 85, 73, 64, 57, 51, 45, 41, 37, 34>>,
  <<2211, 2209, 2201, 2187, 2168, 2144, 2116, 2083, 2047, 2007, 1963, 1918, 1870, 1821, 1770, 1718, 1666, 1614, 1561, 1510, 1458, 1358, 1262, 1216, 1171, 1085, 1006, 932, 863, 831, 800, 742, 689, 641, 596, 575, 555, 518, 484, 411, 353, 305, 266, 208, 167, 137, 115, 98, 85, 74, 65, 58, 52, 47, 43, 39>>,
  <<1983, 1982, 1976, 1966, 1953, 1937, 1917, 1893, 1867, 1839, 1808, 1774, 1739, 1702, 1664, 1625, 1585, 1545, 1504, 1463, 1422, 1341, 1261, 1222, 1184, 1110, 1040, 974, 911, 881, 853, 798, 747, 700, 656, 635, 615, 577, 542, 466, 403, 350, 307, 241, 193, 159, 133, 113, 97, 85, 74, 66, 59, 53, 48, 44>>,
  <<1801, 1800, 1796, 1789, 1779, 1767, 1752, 1735, 1716, 1694, 1671, 1646, 1619, 1591, 1562, 1532, 1501, 1469, 1436, 1404, 1371, 1304, 1238, 1206, 1173, 1110, 1049, 991, 935, 908, 882, 831, 784, 739, 697, 677, 658, 621, 586, 510, 445, 390, 344, 272, 219, 180, 150, 128, 110, 95, 84, 74, 66, 60, 54, 49>>,
  <<1652, 1651, 1648, 1642, 1635, 1626, 1615, 1602, 1587, 1570, 1552, 1533, 1512, 1490, 1467, 1443, 1418, 1393, 1367, 1340, 1313, 1259, 1204, 1176, 1149, 1095, 1043, 991, 942, 918, 894, 849, 805, 764, 725, 706, 687, 652, 619, 544, 479, 424, 376, 300, 244, 201, 168, 143, 123, 106, 93, 83, 74, 66, 60, 54>>,
  <<4778, 4749, 4663, 4527, 4348, 4138, 3908, 3667, 3425, 3190, 2967, 2759, 2569, 2395, 2239, 2099, 1974, 1863, 1763, 1674, 1594, 1458, 1344, 1295, 1249, 1167, 1095, 1031, 973, 946, 921, 872, 827, 785, 746, 727, 709, 675, 642, 569, 505, 450, 403, 325, 266, 221, 185, 158, 135, 117, 103, 92, 81, 73, 65, 59>>,
  <<5207, 5187, 5124, 5022, 4884, 4717, 4527, 4320, 4102, 3879, 3656, 3437, 3226, 3025, 2835, 2657, 2492, 2340, 2199, 2071, 1953, 1748, 1577, 1502, 1434, 1313, 1211, 1123, 1047, 1013, 980, 921, 868, 821, 777, 757, 738, 701, 667, 592, 528, 473, 425, 347, 286, 239, 202, 172, 148, 129, 113, 100, 89, 80, 72, 65>>,
  <<5889, 5867, 5800, 5692, 5547, 5371, 5170, 4949, 4717, 4478, 4237, 3999, 3767, 3544, 3330, 3128, 2938, 2760, 2595, 2441, 2299, 2046, 1832, 1737, 1650, 1495, 1363, 1251, 1154, 1111, 1070, 997, 932, 875, 825, 801, 779, 737, 700, 618, 551, 494, 445, 366, 304, 255, 217, 185, 160, 139, 123, 109, 96, 87, 78, 70>>,
  <<5828, 5810, 5759, 5675, 5561, 5421, 5258, 5077, 4882, 4677, 4467, 4255, 4043, 3835, 3632, 3437, 3249, 3070, 2900, 2740, 2589, 2315, 2076, 1969, 1869, 1689, 1534, 1400, 1284, 1231, 1182, 1094, 1017, 949, 888, 861, 834, 786, 743, 651, 578, 517, 465, 383, 320, 270, 231, 198, 172, 150, 132, 117, 104, 93, 84, 76>>,
  <<5488, 5476, 5439, 5378, 5296, 5192, 5071, 4935, 4785, 4625, 4457, 4285, 4109, 3933, 3758, 3586, 3417, 3253, 3094, 2942, 2796, 2525, 2281, 2169, 2064, 1872, 1702, 1553, 1422, 1362, 1306, 1205, 1115, 1036, 965, 933, 903, 847, 797, 692, 610, 543, 487, 401, 335, 284, 243, 210, 183, 160, 141, 125, 111, 100, 90, 82>>,
  <<5161, 5152, 5124, 5079, 5016, 4938, 4845, 4740, 4623, 4496, 4362, 4222, 4078, 3931, 3783, 3635, 3487, 3342, 3200, 3061, 2927, 2671, 2436, 2326, 2221, 2026, 1851, 1694, 1554, 1490, 1429, 1318, 1218, 1130, 1051, 1014, 980, 917, 860, 741, 648, 573, 513, 419, 350, 298, 255, 221, 193, 169, 150, 133, 119, 107, 96, 87>>,
  <<4857, 4851, 4830, 4795, 4746, 4685, 4613, 4529, 4436, 4335, 4227, 4113, 3994, 3871, 3746, 3620, 3493, 3367, 3242, 3118, 2997, 2763, 2543, 2438, 2337, 2148, 1974, 1816, 1672, 1606, 1542, 1425, 1319, 1224, 1138, 1098, 1061, 991, 928, 796, 692, 609, 541, 440, 366, 311, 267, 232, 202, 178, 158, 141, 126, 113, 102, 93>>,
  <<4580, 4576, 4559, 4531, 4493, 4444, 4386, 4320, 4245, 4163, 4074, 3980, 3881, 3779, 3674, 3566, 3458, 3348, 3239, 3130, 3022, 2811, 2609, 2512, 2417, 2238, 2070, 1915, 1772, 1705, 1641, 1522, 1412, 1313, 1223, 1181, 1141, 1066, 998, 854, 740, 648, 574, 462, 383, 324, 278, 242, 212, 187, 166, 148, 132, 119, 108, 98>>,
  <<8984, 8921, 8731, 8434, 8054, 7619, 7157, 6691, 6239, 5815, 5426, 5073, 4756, 4474, 4222, 3997, 3795, 3612, 3446, 3295, 3154, 2902, 2680, 2578, 2481, 2299, 2134, 1982, 1842, 1776, 1714, 1595, 1487, 1387, 1295, 1252, 1211, 1134, 1064, 912, 790, 690, 609, 488, 402, 339, 290, 252, 220, 194, 174, 156, 138, 127, 112, 101>>,
  <<9913, 9860, 9699, 9442, 9104, 8703, 8258, 7789, 7312, 6841, 6388, 5959, 5560, 5192, 4855, 4550, 4273, 4023, 3797, 3593, 3408, 3086, 2815, 2695, 2584, 2383, 2206, 2048, 1905, 1838, 1775, 1657, 1548, 1449, 1357, 1314, 1272, 1194, 1123, 966, 838, 733, 647, 515, 422, 354, 303, 262, 230, 202, 181, 162, 144, 132, 118, 107>>,
  <<9307, 9264, 9134, 8926, 8649, 8318, 7946, 7548, 7139, 6729, 6328, 5944, 5580, 5239, 4924, 4633, 4366, 4122, 3899, 3695, 3509, 3183, 2906, 2783, 2669, 2462, 2281, 2119, 1974, 1906, 1842, 1722, 1612, 1511, 1418, 1374, 1332, 1252, 1179, 1018, 885, 775, 684, 544, 444, 371, 316, 273, 239, 211, 188, 169, 151, 137, 124, 112>>,
  <<8776, 8740, 8631, 8455, 8220, 7937, 7618, 7274, 6917, 6556, 6199, 5853, 5522, 5209, 4916, 4643, 4390, 4157, 3943, 3745, 3564, 3242, 2967, 2844, 2730, 2523, 2341, 2178, 2032, 1964, 1899, 1778, 1668, 1566, 1472, 1428, 1385, 1305, 1230, 1067, 930, 816, 721, 573, 467, 389, 330, 285, 249, 219, 195, 175, 157, 143, 129, 117>>,
  <<8305, 8274, 8180, 8029, 7826, 7581, 7303, 7002, 6686, 6365, 6045, 5732, 5430, 5142, 4871, 4616, 4378, 4158, 3953, 3763, 3588, 3276, 3006, 2885, 2772, 2568, 2386, 2225, 2079, 2011, 1947, 1826, 1716, 1614, 1520, 1476, 1433, 1352, 1277, 1111, 973, 856, 757, 602, 490, 408, 345, 297, 259, 228, 203, 182, 163, 148, 134, 122>>,
  <<6969, 6945, 6875, 6762, 6610, 6427, 6221, 5997, 5764, 5527, 5291, 5061, 4838, 4625, 4423, 4231, 4051, 3882, 3723, 3574, 3434, 3179, 2953, 2849, 2750, 2568, 2403, 2252, 2114, 2049, 1987, 1870, 1761, 1660, 1567, 1523, 1480, 1399, 1323, 1155, 1014, 894, 792, 631, 514, 427, 361, 310, 269, 237, 210, 188, 169, 154, 139, 127>>,
  <<7506, 7484, 7412, 7296, 7140, 6949, 6732, 6493, 6241, 5981, 5719, 5459, 5206, 4962, 4728, 4506, 4297, 4100, 3916, 3743, 3583, 3292, 3039, 2924, 2817, 2620, 2445, 2288, 2146, 2080, 2017, 1899, 1790, 1690, 1597, 1553, 1511, 1431, 1356, 1189, 1047, 927, 824, 659, 538, 446, 377, 323, 280, 246, 218, 195, 175, 159, 144, 132>>,
  <<7165, 7145, 7081, 6978, 6839, 6669, 6474, 6260, 6032, 5796, 5558, 5320, 5087, 4861, 4644, 4436, 4240, 4054, 3880, 3716, 3562, 3284, 3039, 2928, 2824, 2632, 2461, 2308, 2168, 2104, 2042, 1925, 1818, 1719, 1628, 1584, 1542, 1462, 1388, 1222, 1080, 959, 854, 686, 561, 466, 393, 336, 291, 255, 226, 202, 181, 165, 149, 136>>,
  <<6854, 6836, 6779, 6687, 6562, 6410, 6234, 6040, 5834, 5619, 5401, 5182, 4967, 4758, 4555, 4361, 4177, 4002, 3836, 3681, 3534, 3267, 3032, 2924, 2823, 2637, 2471, 2321, 2184, 2121, 2060, 1946, 1841, 1743, 1653, 1610, 1569, 1490, 1416, 1251, 1110, 988, 883, 712, 583, 485, 409, 350, 303, 265, 235, 209, 188, 170, 154, 141>>,
  <<6569, 6552, 6501, 6418, 6306, 6169, 6010, 5834, 5646, 5449, 5249, 5048, 4848, 4654, 4465, 4283, 4110, 3944, 3788, 3640, 3500, 3245, 3018, 2914, 2816, 2636, 2474, 2328, 2195, 2133, 2073, 1962, 1858, 1763, 1674, 1631, 1591, 1513, 1440, 1277, 1136, 1015, 909, 737, 605, 504, 425, 364, 315, 275, 243, 217, 194, 176, 160, 146>>,
  <<5600, 5587, 5547, 5482, 5395, 5287, 5165, 5029, 4886, 4737, 4585, 4434, 4285, 4139, 3998, 3862, 3731, 3607, 3488, 3375, 3267, 3067, 2885, 2800, 2719, 2568, 2428, 2299, 2180, 2123, 2069, 1965, 1868, 1777, 1691, 1651, 1611, 1535, 1464, 1303, 1163, 1041, 935, 761, 626, 523, 442, 378, 327, 285, 252, 224, 201, 182, 165, 150>>,
  <<6065, 6051, 6009, 5941, 5849, 5735, 5603, 5457, 5299, 5133, 4962, 4790, 4618, 4449, 4283, 4123, 3969, 3822, 3681, 3547, 3421, 3186, 2977, 2880, 2789, 2620, 2468, 2329, 2203, 2144, 2087, 1980, 1882, 1790, 1704, 1663, 1624, 1549, 1478, 1319, 1181, 1061, 955, 781, 646, 541, 457, 391, 339, 296, 261, 232, 208, 188, 170, 155>>,
  <<7108, 7088, 7027, 6927, 6792, 6629, 6441, 6236, 6017, 5792, 5564, 5337, 5113, 4896, 4686, 4486, 4295, 4114, 3942, 3781, 3629, 3352, 3108, 2997, 2892, 2701, 2531, 2379, 2242, 2179, 2119, 2006, 1903, 1808, 1720, 1679, 1639, 1563, 1492, 1334, 1197, 1078, 973, 800, 665, 558, 473, 405, 350, 306, 270, 240, 215, 194, 175, 160>>,
  <<7378, 7359, 7303, 7211, 7088, 6935, 6759, 6562, 6351, 6129, 5902, 5672, 5442, 5217, 4996, 4783, 4578, 4382, 4195, 4017, 3849, 3541, 3268, 3143, 3026, 2813, 2623, 2455, 2304, 2235, 2169, 2048, 1938, 1837, 1745, 1702, 1661, 1583, 1510, 1349, 1212, 1093, 989, 817, 681, 574, 488, 418, 362, 317, 279, 248, 222, 200, 181, 165>>,
  <<7320, 7306, 7260, 7184, 7081, 6953, 6803, 6634, 6449, 6253, 6048, 5838, 5625, 5411, 5200, 4992, 4789, 4593, 4404, 4222, 4048, 3724, 3433, 3299, 3172, 2940, 2733, 2548, 2384, 2308, 2237, 2105, 1986, 1878, 1780, 1734, 1691, 1608, 1533, 1367, 1228, 1108, 1004, 832, 697, 589, 502, 431, 374, 327, 288, 256, 229, 206, 187, 170>>
>>
=============================================================================
