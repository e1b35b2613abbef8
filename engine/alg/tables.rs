/// OEIS A046731: sum of the primes up to 10^k, k = 0..25
pub const PRIME_SUM: &[&str] = &[
    "0",
    "17",
    "1060",
    "76127",
    "5736396",
    "454396537",
    "37550402023",
    "3203324994356",
    "279209790387276",
    "24739512092254535",
    "2220822432581729238",
    "201467077743744681014",
    "18435588552550705911377",
    "1699246443377779418889494",
    "157589260710736940541561021",
    "14692398516908006398225702366",
    "1376110854313351899159632866552",
    "129408626276669278966252031311350",
    "12212914292949226570880576733896687",
    "1156251260549368082781614413945980126",
    "109778913483063648128485839045703833541",
    "10449550362130704786220283253063405651965",
    "996973504763259668279213971353794878368213",
    "95320530117168404458544684912403185555509650",
    "9131187511156941634384410084928380134453142199",
    "876268031750623105684911815303505535704119354853",
];
/// OEIS A006880: number of the primes up to 10^k, k = 0..27
pub const PRIME_COUNT: &[&str] = &[
    "0",
    "4",
    "25",
    "168",
    "1229",
    "9592",
    "78498",
    "664579",
    "5761455",
    "50847534",
    "455052511",
    "4118054813",
    "37607912018",
    "346065536839",
    "3204941750802",
    "29844570422669",
    "279238341033925",
    "2623557157654233",
    "24739954287740860",
    "234057667276344607",
    "2220819602560918840",
    "21127269486018731928",
    "201467286689315906290",
    "1925320391606803968923",
    "18435599767349200867866",
    "176846309399143769411680",
    "1699246750872437141327603",
    "16352460426841680446427399",
];

/// (n, sum of the primes up to n), by a segmented sieve; checked against the table of powers of ten
pub const PRIME_SUM_AT: &[(u64, u64)] = &[
    (1520, 166551),
    (1521, 166551),
    (1560, 175809),
    (1680, 203296),
    (1681, 203296),
    (1682, 203296),
    (1781, 224048),
    (1848, 238520),
    (1849, 238520),
    (1850, 238520),
    (1999, 277050),
    (2000, 277050),
    (2047, 289176),
    (2048, 289176),
    (2049, 289176),
    (2500, 420812),
    (2798, 527248),
    (2808, 532852),
    (2809, 532852),
    (2810, 532852),
    (3000, 593823),
    (3126, 639732),
    (3127, 639732),
    (3598, 835450),
    (3599, 835450),
    (3600, 835450),
    (3720, 894018),
    (3721, 894018),
    (3722, 894018),
    (3843, 943163),
    (3844, 943163),
    (3906, 970224),
    (4086, 1061907),
    (4087, 1061907),
    (4095, 1070091),
    (4096, 1070091),
    (4097, 1070091),
    (4488, 1263162),
    (4489, 1263162),
    (4490, 1263162),
    (5000, 1548136),
    (5040, 1578242),
    (5328, 1733802),
    (5329, 1733802),
    (5330, 1733802),
    (5716, 1993519),
    (5766, 2022206),
    (5767, 2022206),
    (6240, 2346066),
    (6241, 2346066),
    (6242, 2346066),
    (6888, 2838135),
    (6889, 2838135),
    (6890, 2838135),
    (7224, 3099124),
    (7225, 3099124),
    (7310, 3164529),
    (7397, 3215976),
    (7919, 3682913),
    (7920, 3682913),
    (7921, 3682913),
    (7922, 3682913),
    (8191, 3908641),
    (8192, 3908641),
    (8193, 3908641),
    (9408, 5097012),
    (9409, 5097012),
    (9410, 5097012),
    (9999, 5736396),
    (10001, 5736396),
    (10608, 6405679),
    (10609, 6405679),
    (10610, 6405679),
    (11020, 6859589),
    (11021, 6859589),
    (11448, 7365138),
    (11449, 7365138),
    (11450, 7365138),
    (11662, 7584569),
    (11663, 7584569),
    (11664, 7584569),
    (11772, 7689926),
    (12345, 8472683),
    (12423, 8584194),
    (12979, 9384209),
    (15000, 12295969),
    (16383, 14584641),
    (16384, 14584641),
    (16385, 14584641),
    (17160, 15859783),
    (17161, 15859783),
    (17162, 15859783),
    (17292, 16049150),
    (19320, 19755629),
    (19321, 19755629),
    (19322, 19755629),
    (20000, 21171191),
    (22800, 27272204),
    (22801, 27272204),
    (22802, 27272204),
    (23492, 28775367),
    (23647, 29223274),
    (23706, 29365330),
    (23707, 29365330),
    (23715, 29365330),
    (23716, 29365330),
    (23870, 29769773),
    (24648, 31586306),
    (24649, 31586306),
    (24650, 31586306),
    (25000, 32405717),
    (25029, 32430730),
    (25317, 33160705),
    (25590, 33822477),
    (25591, 33822477),
    (26568, 36351312),
    (26569, 36351312),
    (26570, 36351312),
    (27220, 38098457),
    (27221, 38098457),
    (27888, 39835662),
    (27889, 39835662),
    (27890, 39835662),
    (28890, 42733010),
    (28891, 42733010),
    (30030, 45765917),
    (31328, 49726454),
    (31329, 49726454),
    (31506, 50103344),
    (32040, 51595653),
    (32041, 51595653),
    (32042, 51595653),
    (32398, 52884463),
    (32399, 52884463),
    (32767, 54056763),
    (32768, 54056763),
    (32769, 54056763),
    (36862, 67832573),
    (36863, 67832573),
    (37248, 69203070),
    (37249, 69203070),
    (37250, 69203070),
    (38019, 71949559),
    (39214, 76200301),
    (39446, 77144129),
    (39600, 77618389),
    (39601, 77618389),
    (39602, 77618389),
    (39999, 79170666),
    (40000, 79170666),
    (40200, 79972822),
    (40681, 81469297),
    (42199, 87769543),
    (44520, 97085082),
    (44521, 97085082),
    (44522, 97085082),
    (46340, 104578593),
    (49728, 119667031),
    (49729, 119667031),
    (49730, 119667031),
    (49952, 120813368),
    (50000, 121013308),
    (52440, 132434797),
    (52441, 132434797),
    (52442, 132434797),
    (54186, 140964457),
    (54288, 141289951),
    (54289, 141289951),
    (54290, 141289951),
    (60515, 174499362),
    (60516, 174499362),
    (60762, 175954986),
    (62530, 185325330),
    (63000, 188024357),
    (63001, 188024357),
    (63002, 188024357),
    (64506, 196500902),
    (64507, 196500902),
    (65521, 202288087),
    (65535, 202288087),
    (65536, 202288087),
    (65537, 202353624),
    (66559, 208492921),
    (70746, 233885245),
    (70747, 233885245),
    (70751, 233885245),
    (72360, 244975676),
    (72361, 244975676),
    (72362, 244975676),
    (72630, 246425648),
    (72898, 248244517),
    (72899, 248244517),
    (74620, 259605465),
    (75996, 268869064),
    (77836, 281643978),
    (77837, 281643978),
    (80051, 296728319),
    (81256, 305763459),
    (85263, 334985852),
    (85264, 334985852),
    (85556, 336950549),
    (85848, 339350351),
    (85849, 339350351),
    (85850, 339350351),
    (86995, 347647689),
    (89406, 365904268),
    (96720, 426556336),
    (96721, 426556336),
    (96722, 426556336),
    (97968, 436971113),
    (97969, 436971113),
    (97970, 436971113),
    (99224, 447722100),
    (99225, 447722100),
    (99540, 450206535),
    (99999, 454396537),
    (100001, 454396537),
    (100003, 454496540),
    (101542, 467905423),
    (103610, 485745933),
    (104780, 496689226),
    (106230, 509244533),
    (109560, 540643512),
    (109561, 540643512),
    (109562, 540643512),
    (111546, 558886605),
    (111547, 558886605),
    (114024, 582681384),
    (114243, 584964088),
    (114244, 584964088),
    (114582, 587595447),
    (120408, 646448058),
    (120409, 646448058),
    (120410, 646448058),
    (121102, 654177958),
    (121103, 654177958),
    (123196, 676039235),
    (123197, 676039235),
    (125925, 705182003),
    (130320, 753230608),
    (130321, 753230608),
    (130682, 757928794),
    (131050, 761200499),
    (131071, 761593692),
    (131072, 761593692),
    (131073, 761593692),
    (133297, 786582897),
    (133718, 791389341),
    (133814, 792325772),
    (134025, 794066799),
    (135975, 816611614),
    (138800, 850678040),
    (139128, 853874151),
    (139129, 853874151),
    (139130, 853874151),
    (140224, 866724247),
    (147455, 953736476),
    (147456, 953736476),
    (147840, 958756798),
    (150524, 992929261),
    (154609, 1045554306),
    (155008, 1050817472),
    (155327, 1055007111),
    (157885, 1088207971),
    (163691, 1164915416),
    (165648, 1190766621),
    (165649, 1190766621),
    (165952, 1194911428),
    (166056, 1196073507),
    (166565, 1201894084),
    (170117, 1251377102),
    (173472, 1299121634),
    (173872, 1305721202),
    (181455, 1416569594),
    (184899, 1469314896),
    (184900, 1469314896),
    (185277, 1475607602),
    (185330, 1476719454),
    (185760, 1483771206),
    (185761, 1483771206),
    (185762, 1483771206),
    (187934, 1518334675),
    (188936, 1533035689),
    (189194, 1536627642),
    (190422, 1556554883),
    (191334, 1569916235),
    (193875, 1612097930),
    (198250, 1680929153),
    (198860, 1691849766),
    (199999, 1709600813),
    (205208, 1793681530),
    (205209, 1793681530),
    (205662, 1802515885),
    (208848, 1857447492),
    (208849, 1857447492),
    (208850, 1857447492),
    (210676, 1890801093),
    (210677, 1890801093),
    (212520, 1921690835),
    (212521, 1921690835),
    (212522, 1921690835),
    (218088, 2016210860),
    (218089, 2016210860),
    (218090, 2016210860),
    (226575, 2171151765),
    (226576, 2171151765),
    (227052, 2178862463),
    (233272, 2296428178),
    (233273, 2296428178),
    (237168, 2367935604),
    (237169, 2367935604),
    (237170, 2367935604),
    (239116, 2404137204),
    (239117, 2404137204),
    (241080, 2442793687),
    (241081, 2442793687),
    (241082, 2442793687),
    (249000, 2603070471),
    (249001, 2603070471),
    (249002, 2603070471),
    (249500, 2613041153),
    (250996, 2640818368),
    (250997, 2640818368),
    (256026, 2745266576),
    (256027, 2745266576),
    (259080, 2806573438),
    (259081, 2806573438),
    (259082, 2806573438),
    (262143, 2867816043),
    (262144, 2867816043),
    (262145, 2867816043),
    (265188, 2932415898),
    (265189, 2932415898),
    (271440, 3070583919),
    (271441, 3070583919),
    (271442, 3070583919),
    (272483, 3094791002),
    (272484, 3094791002),
    (273006, 3105429061),
    (273528, 3115539200),
    (273529, 3115539200),
    (273530, 3115539200),
    (279023, 3236281317),
    (297024, 3643232392),
    (297025, 3643232392),
    (297570, 3653935190),
    (299208, 3691231155),
    (299209, 3691231155),
    (299210, 3691231155),
    (300000, 3709507114),
    (304678, 3825007382),
    (304679, 3825007382),
    (310248, 3960574373),
    (310249, 3960574373),
    (310250, 3960574373),
    (322623, 4277076791),
    (322624, 4277076791),
    (323192, 4290315830),
    (324898, 4334067049),
    (324899, 4334067049),
    (330696, 4486155177),
    (344568, 4852133359),
    (344569, 4852133359),
    (344570, 4852133359),
    (348090, 4949803237),
    (348091, 4949803237),
    (349280, 4980486405),
    (349281, 4980486405),
    (349872, 4998314282),
    (351648, 5046720368),
    (351649, 5046720368),
    (351650, 5046720368),
    (358800, 5247044368),
    (358801, 5247044368),
    (358802, 5247044368),
    (375582, 5721544096),
    (375768, 5726803560),
    (375769, 5726803560),
    (375770, 5726803560),
    (376995, 5762939676),
    (376996, 5762939676),
    (377610, 5779919301),
    (380688, 5869022750),
    (380689, 5869022750),
    (380690, 5869022750),
    (381922, 5904483757),
    (381923, 5904483757),
    (383160, 5941211727),
    (383161, 5941211727),
    (383162, 5941211727),
    (398160, 6400237280),
    (398161, 6400237280),
    (398162, 6400237280),
    (400000, 6458901531),
    (405768, 6630550943),
    (405769, 6630550943),
    (406406, 6649230971),
    (412988, 6858177039),
    (416020, 6957669005),
    (416021, 6957669005),
    (418608, 7039470133),
    (418609, 7039470133),
    (418610, 7039470133),
    (426408, 7293792337),
    (426409, 7293792337),
    (426410, 7293792337),
    (434280, 7561932122),
    (434281, 7561932122),
    (434282, 7561932122),
    (435598, 7610646386),
    (435599, 7610646386),
    (435600, 7610646386),
    (436260, 7632441738),
    (436920, 7653834133),
    (436921, 7653834133),
    (436922, 7653834133),
    (462390, 8514670904),
    (462391, 8514670904),
    (466488, 8663745809),
    (466489, 8663745809),
    (467172, 8685219993),
    (498435, 9851335389),
    (498436, 9851335389),
    (499142, 9880265679),
    (500000, 9914236195),
    (509770, 10285838829),
    (509771, 10285838829),
    (516960, 10566151577),
    (516961, 10566151577),
    (516962, 10566151577),
    (524287, 10862883985),
    (524288, 10862883985),
    (524289, 10862883985),
    (531440, 11150031169),
    (531441, 11150031169),
    (532170, 11177153846),
    (549076, 11861546966),
    (549077, 11861546966),
    (556900, 12190023798),
    (557992, 12232389668),
    (557993, 12232389668),
    (564000, 12483694804),
    (564001, 12483694804),
    (564002, 12483694804),
    (565503, 12550336386),
    (565504, 12550336386),
    (566256, 12582024854),
    (568506, 12674513305),
    (568507, 12674513305),
    (573048, 12878864869),
    (573049, 12878864869),
    (573050, 12878864869),
    (579120, 13141579381),
    (579121, 13141579381),
    (579122, 13141579381),
    (585208, 13409962598),
    (585209, 13409962598),
    (594436, 13822206875),
    (594437, 13822206875),
    (597528, 13962851237),
    (597529, 13962851237),
    (597530, 13962851237),
    (600000, 14071826345),
    (600624, 14100041374),
    (600625, 14100041374),
    (601400, 14137305126),
    (619368, 14968077099),
    (619369, 14968077099),
    (619370, 14968077099),
    (635208, 15697042921),
    (635209, 15697042921),
    (635210, 15697042921),
    (636803, 15775903919),
    (636804, 15775903919),
    (637602, 15814774306),
    (640051, 15920827404),
    (654480, 16616684897),
    (654481, 16616684897),
    (654482, 16616684897),
    (656098, 16694656092),
    (656099, 16694656092),
    (657720, 16774799876),
    (657721, 16774799876),
    (657722, 16774799876),
    (665830, 17181824443),
    (665831, 17181824443),
    (674040, 17585164427),
    (674041, 17585164427),
    (674042, 17585164427),
    (674862, 17627656598),
    (677328, 17750030033),
    (677329, 17750030033),
    (677330, 17750030033),
    (683928, 18088991795),
    (683929, 18088991795),
    (683930, 18088991795),
    (687240, 18257652855),
    (687241, 18257652855),
    (687242, 18257652855),
    (695530, 18686321897),
    (695531, 18686321897),
    (700000, 18910286312),
    (703920, 19115959387),
    (703921, 19115959387),
    (703922, 19115959387),
    (712335, 19573387493),
    (712336, 19573387493),
    (713180, 19617578837),
    (715666, 19745464434),
    (715667, 19745464434),
    (727608, 20384169255),
    (727609, 20384169255),
    (727610, 20384169255),
    (741316, 21128902201),
    (741317, 21128902201),
    (744768, 21307221269),
    (744769, 21307221269),
    (744770, 21307221269),
    (750000, 21588259025),
    (751688, 21682869873),
    (751689, 21682869873),
    (752556, 21734012649),
    (758233, 22042192269),
    (769128, 22676018081),
    (769129, 22676018081),
    (769130, 22676018081),
    (776160, 23071586867),
    (776161, 23071586867),
    (776162, 23071586867),
    (779688, 23275404265),
    (779689, 23275404265),
    (779690, 23275404265),
    (783220, 23479359686),
    (783221, 23479359686),
    (786768, 23685802841),
    (786769, 23685802841),
    (786770, 23685802841),
    (792099, 23997625156),
    (792100, 23997625156),
    (792990, 24055479947),
    (800000, 24465663438),
    (826276, 26046571232),
    (826277, 26046571232),
    (833568, 26495586579),
    (833569, 26495586579),
    (834482, 26543124284),
    (876095, 29146949060),
    (876096, 29146949060),
    (877032, 29206553138),
    (877968, 29262712902),
    (877969, 29262712902),
    (877970, 29262712902),
    (885480, 29749382242),
    (885481, 29749382242),
    (885482, 29749382242),
    (896808, 30489899239),
    (896809, 30489899239),
    (896810, 30489899239),
    (900000, 30689332265),
    (902490, 30851551815),
    (902491, 30851551815),
    (908208, 31236357732),
    (908209, 31236357732),
    (908210, 31236357732),
    (919680, 31994879814),
    (919681, 31994879814),
    (920640, 32057449122),
    (921550, 32120081522),
    (921551, 32120081522),
    (942840, 33568592410),
    (942841, 33568592410),
    (942842, 33568592410),
    (948666, 33958219280),
    (948667, 33958219280),
    (954528, 34362645519),
    (954529, 34362645519),
    (954530, 34362645519),
    (960390, 34756175316),
    (960391, 34756175316),
    (964323, 35041034342),
    (964324, 35041034342),
    (965306, 35112431904),
    (974152, 35729187500),
    (974153, 35729187500),
    (988026, 36693555413),
    (988027, 36693555413),
    (994008, 37113735935),
    (994009, 37113735935),
    (994010, 37113735935),
    (999983, 37550402023),
    (999984, 37550402023),
    (999999, 37550402023),
    (1000001, 37550402023),
    (1000003, 37551402026),
    (1005972, 37991681737),
    (1005973, 37991681737),
    (1010024, 38308185237),
    (1010025, 38308185237),
    (1011030, 38376904361),
    (1018080, 38894309429),
    (1018081, 38894309429),
    (1018082, 38894309429),
    (1026168, 39503492353),
    (1026169, 39503492353),
    (1026170, 39503492353),
    (1048575, 41162256126),
    (1048576, 41162256126),
    (1048577, 41162256126),
    (1052650, 41464822226),
    (1052651, 41464822226),
    (1056783, 41773865779),
    (1056784, 41773865779),
    (1057812, 41844705082),
    (1073286, 43026413975),
    (1073287, 43026413975),
    (1079520, 43509707126),
    (1079521, 43509707126),
    (1079522, 43509707126),
    (1100400, 45162059986),
    (1100401, 45162059986),
    (1100402, 45162059986),
    (1102498, 45327284610),
    (1102499, 45327284610),
    (1104600, 45492815384),
    (1104601, 45492815384),
    (1104602, 45492815384),
    (1105652, 45587857160),
    (1115110, 46359574949),
    (1115111, 46359574949),
    (1127842, 47364432347),
    (1127843, 47364432347),
    (1153475, 49457457002),
    (1153476, 49457457002),
    (1154550, 49540546400),
    (1164441, 50397450155),
    (1181568, 51855652440),
    (1181569, 51855652440),
    (1181570, 51855652440),
    (1185916, 52233282385),
    (1185917, 52233282385),
    (1190280, 52602790022),
    (1190281, 52602790022),
    (1190282, 52602790022),
    (1203408, 53709798899),
    (1203409, 53709798899),
    (1204506, 53804909838),
    (1209990, 54247978155),
    (1209991, 54247978155),
    (1225757, 55631346785),
    (1254399, 58133926419),
    (1254400, 58133926419),
    (1255520, 58245617724),
    (1274640, 59992693647),
    (1274641, 59992693647),
    (1274642, 59992693647),
    (1306427, 62884853734),
    (1306448, 62888773049),
    (1306449, 62888773049),
    (1307592, 62992027128),
    (1329408, 65030442356),
    (1329409, 65030442356),
    (1329410, 65030442356),
    (1352568, 67210856944),
    (1352569, 67210856944),
    (1352570, 67210856944),
    (1359555, 67879384749),
    (1359556, 67879384749),
    (1360722, 67992275782),
    (1371240, 69018135137),
    (1371241, 69018135137),
    (1371242, 69018135137),
    (1394760, 71316692691),
    (1394761, 71316692691),
    (1394762, 71316692691),
    (1408968, 72733816176),
    (1408969, 72733816176),
    (1408970, 72733816176),
    (1413720, 73224974872),
    (1413721, 73224974872),
    (1414910, 73316903537),
    (1468943, 78830972451),
    (1468944, 78830972451),
    (1470156, 78954415027),
    (1471368, 79066194345),
    (1471369, 79066194345),
    (1471370, 79066194345),
    (1488390, 80849361342),
    (1488391, 80849361342),
    (1503066, 82415285195),
    (1503067, 82415285195),
    (1512898, 83487411350),
    (1512899, 83487411350),
    (1515360, 83747829868),
    (1515361, 83747829868),
    (1515362, 83747829868),
    (1525224, 84795340179),
    (1525225, 84795340179),
    (1526460, 84925038212),
    (1530168, 85311722807),
    (1530169, 85311722807),
    (1530170, 85311722807),
    (1545012, 86858535909),
    (1545013, 86858535909),
    (1560000, 88532117559),
    (1560001, 88532117559),
    (1560002, 88532117559),
    (1572490, 89885431441),
    (1572491, 89885431441),
    (1582563, 90977050235),
    (1582564, 90977050235),
    (1583822, 91113205525),
    (1585080, 91260558952),
    (1585081, 91260558952),
    (1585082, 91260558952),
    (1607742, 93792760354),
    (1607743, 93792760354),
    (1630728, 96390222402),
    (1630729, 96390222402),
    (1630730, 96390222402),
    (1640960, 97548315576),
    (1640961, 97548315576),
    (1642242, 97674720775),
    (1664098, 100212208684),
    (1664099, 100212208684),
    (1674426, 101419061775),
    (1674427, 101419061775),
    (1687396, 102955314385),
    (1687397, 102955314385),
    (1697808, 104174036761),
    (1697809, 104174036761),
    (1697810, 104174036761),
    (1700415, 104498564432),
    (1700416, 104498564432),
    (1701720, 104661868348),
    (1703020, 104826998319),
    (1703021, 104826998319),
    (1712916, 105976504192),
    (1742398, 109475018451),
    (1742399, 109475018451),
    (1760928, 111737930757),
    (1760929, 111737930757),
    (1762256, 111877097978),
    (1779651, 114034164256),
    (1822499, 119390281046),
    (1822500, 119390281046),
    (1823850, 119576248780),
    (1868688, 125384957042),
    (1868689, 125384957042),
    (1868690, 125384957042),
    (1876890, 126430009984),
    (1876891, 126430009984),
    (1885128, 127492753459),
    (1885129, 127492753459),
    (1886502, 127681330851),
    (1907160, 130365151090),
    (1907161, 130365151090),
    (1907162, 130365151090),
    (1948815, 136006364876),
    (1948816, 136006364876),
    (1950212, 136172079199),
    (2093250, 156054169329),
    (2097151, 156592635694),
    (2097152, 156592635694),
    (2097153, 156592635694),
    (2252249, 179664974023),
    (2429037, 207850531318),
    (2542633, 226991705456),
    (2826584, 278615567644),
    (2833046, 279829608767),
    (2872274, 287345653210),
    (2896475, 291992269885),
    (4012008, 547702451662),
    (4012009, 547702451662),
    (4012010, 547702451662),
    (4194303, 596946687124),
    (4194304, 596946687124),
    (4194305, 596946687124),
    (8388607, 2280311678414),
    (8388608, 2280311678414),
    (8388609, 2280311678414),
    (9006000, 2616582617058),
    (9006001, 2616582617058),
    (9006002, 2616582617058),
    (16008000, 7970472105014),
    (16008001, 7970472105014),
    (16008002, 7970472105014),
    (16777215, 8729068693022),
    (16777216, 8729068693022),
    (16777217, 8729068693022),
    (20000000, 12272577818052),
    (25030008, 18960282323210),
    (25030009, 18960282323210),
    (25030010, 18960282323210),
    (33554393, 33483086021512),
    (33554431, 33483086021512),
    (33554432, 33483086021512),
    (33554433, 33483086021512),
    (50000000, 72619548630277),
    (62710560, 112736127878459),
    (62710561, 112736127878459),
    (62710562, 112736127878459),
    (67108863, 128615914639624),
    (67108864, 128615914639624),
    (67108865, 128615914639624),
    (99460728, 276280919929504),
    (99460729, 276280919929504),
    (99460730, 276280919929504),
    (99999999, 279209790387276),
    (100000001, 279209790387276),
    (100000007, 279209890387283),
    (123456789, 420604415154383),
    (1000000007, 24739513092254542),
    (2147483648, 109930816131860852),
    (4294836224, 425624598133211515),
    (4294836225, 425624598133211515),
    (4294967295, 425649736193687430),
    (4294967296, 425649736193687430),
    (4294967311, 425649740488654741),
    (5000000000, 572840944428163514),
    (6074001000, 837894775305531335),
    (10000600009, 2221082640394268812),
];
