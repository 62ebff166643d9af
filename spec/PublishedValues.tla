---------------------------- MODULE PublishedValues --------------------------
(* The reference values published with t1ha 2.1, as limb tuples.             *)
V_2a64 == <<
  <<0, 0, 0, 0>>, <<65346, 48690, 29457, 30508>>, <<32259, 16160, 21458, 17479>>,
  <<62770, 41908, 57181, 29174>>, <<63072, 21349, 22883, 21848>>, <<50726, 52537, 2289, 59784>>,
  <<47881, 8547, 36783, 11953>>, <<40071, 51201, 55442, 31645>>, <<53594, 19876, 17180, 58033>>,
  <<32624, 42311, 59160, 6532>>, <<20345, 26184, 6066, 2269>>, <<54608, 30314, 41053, 19587>>,
  <<36989, 12753, 60337, 37596>>, <<34121, 34843, 50940, 54907>>, <<63083, 22011, 34917, 63145>>,
  <<57950, 32563, 24941, 28209>>, <<1181, 9955, 7028, 14051>>, <<16223, 18081, 20399, 20366>>,
  <<33183, 9535, 3251, 1003>>, <<28882, 36951, 30569, 25450>>, <<4424, 53613, 14209, 15071>>,
  <<51650, 33163, 40113, 37585>>, <<50483, 54361, 26868, 10302>>, <<43524, 36332, 43176, 64131>>,
  <<21388, 36524, 54, 35951>>, <<45858, 14231, 45263, 31590>>, <<41983, 64939, 57634, 20785>>,
  <<51113, 23560, 65361, 28249>>, <<30640, 45763, 21097, 47660>>, <<35371, 26878, 20435, 43474>>,
  <<59537, 11827, 5075, 8923>>, <<30437, 1208, 57288, 31639>>, <<13561, 53480, 48636, 50584>>,
  <<62887, 13959, 5693, 45654>>, <<20659, 27375, 42812, 26327>>, <<58019, 34265, 8220, 9639>>,
  <<39338, 41298, 29677, 37141>>, <<36428, 27105, 25270, 23552>>, <<20008, 2261, 19166, 6003>>,
  <<62523, 14467, 14051, 65520>>, <<61726, 30589, 22247, 65031>>, <<61737, 53283, 9330, 14231>>,
  <<32599, 46428, 57857, 27900>>, <<46049, 40706, 53720, 57369>>, <<47078, 64027, 50560, 44636>>,
  <<64570, 32345, 38395, 10582>>, <<54110, 41997, 51232, 30390>>, <<11031, 26694, 2583, 45416>>,
  <<56026, 37175, 44839, 12214>>, <<34101, 26311, 27459, 10491>>, <<16817, 37445, 36435, 60455>>,
  <<10421, 35370, 35499, 5711>>, <<30893, 44101, 12462, 46787>>, <<20612, 28680, 14096, 32623>>,
  <<18643, 49396, 44384, 38110>>, <<23023, 12997, 31426, 39283>>, <<56663, 51854, 42745, 28500>>,
  <<52748, 9919, 489, 38811>>, <<50612, 21561, 3016, 63442>>, <<31762, 55304, 45692, 25837>>,
  <<3042, 63388, 36325, 4424>>, <<46500, 5760, 7645, 9556>>, <<6515, 48797, 15667, 35683>>,
  <<63174, 44279, 12563, 16458>>, <<52566, 34128, 48623, 50589>>, <<39212, 36687, 9158, 925>>,
  <<64902, 48598, 18660, 23483>>, <<57178, 34688, 4644, 16867>>, <<59727, 30164, 37326, 54087>>,
  <<56575, 1244, 15965, 60754>>, <<55417, 24962, 52747, 31339>>, <<10456, 15532, 14152, 8699>>,
  <<30893, 36264, 46702, 6561>>, <<39614, 38320, 19538, 28544>>, <<47745, 16661, 58625, 10827>>,
  <<19424, 64658, 60613, 42616>>, <<28505, 39331, 42314, 20727>>, <<25682, 14758, 58938, 4055>>,
  <<50404, 56617, 45587, 23217>>, <<13509, 57189, 32985, 62445>>, <<5629, 63750, 45358, 50998>>
>>
V_2a128 == <<
  <<45066, 36403, 63140, 20167>>, <<35870, 48509, 64165, 47031>>, <<19062, 26195, 21311, 12905>>,
  <<15356, 34706, 50870, 27710>>, <<29097, 61348, 62951, 49302>>, <<42097, 20686, 44981, 31192>>,
  <<20761, 8445, 20602, 52960>>, <<62655, 5289, 53244, 64260>>, <<31474, 9088, 1769, 48452>>,
  <<1169, 4353, 767, 14172>>, <<29695, 23009, 19498, 42730>>, <<44511, 44, 1776, 57510>>,
  <<30871, 60352, 60134, 57659>>, <<59920, 15944, 49734, 61545>>, <<46586, 28809, 57769, 30142>>,
  <<32901, 56843, 8952, 14223>>, <<3467, 54589, 28612, 40050>>, <<63368, 11528, 4874, 29174>>,
  <<53097, 16374, 8259, 31387>>, <<28001, 22975, 47053, 65353>>, <<50867, 7337, 60941, 52394>>,
  <<53933, 24633, 35288, 51064>>, <<1141, 60059, 35675, 31543>>, <<44390, 40281, 49063, 25888>>,
  <<29287, 47267, 18700, 9281>>, <<62579, 32092, 42603, 42773>>, <<64871, 33588, 37576, 39656>>,
  <<5786, 49618, 59822, 54015>>, <<36027, 6321, 39231, 30987>>, <<45485, 63143, 12220, 41168>>,
  <<53441, 61777, 13286, 43272>>, <<39904, 31703, 44963, 6855>>, <<6692, 45704, 13864, 54584>>,
  <<63729, 25593, 28573, 58706>>, <<8013, 6765, 26016, 49649>>, <<41970, 16335, 63743, 27854>>,
  <<57160, 9702, 61827, 8240>>, <<45434, 3647, 1827, 10386>>, <<50361, 5027, 26359, 1915>>,
  <<5972, 44935, 33852, 40761>>, <<52467, 32906, 55823, 20783>>, <<7956, 53453, 32796, 62681>>,
  <<13880, 60722, 51017, 10400>>, <<61468, 42609, 19631, 38020>>, <<51793, 27530, 24967, 53474>>,
  <<11938, 42105, 42568, 36802>>, <<62974, 4970, 29314, 36600>>, <<27456, 40890, 42314, 24550>>,
  <<15700, 58914, 23439, 41932>>, <<45084, 25883, 49373, 43203>>, <<5875, 21319, 40925, 25182>>,
  <<15045, 33731, 24640, 6834>>, <<12050, 63593, 34899, 56841>>, <<30244, 7128, 5001, 19208>>,
  <<33453, 21457, 40005, 19128>>, <<31450, 41922, 23202, 37569>>, <<62937, 33169, 6358, 65321>>,
  <<49957, 63041, 12660, 1590>>, <<8281, 42826, 4781, 26225>>, <<15741, 46565, 1494, 19414>>,
  <<5320, 26170, 11347, 62033>>, <<26236, 6226, 31691, 8581>>, <<57896, 27054, 48387, 44990>>,
  <<64875, 18683, 13326, 28745>>, <<26964, 9460, 3609, 20593>>, <<27199, 19095, 30176, 34458>>,
  <<14473, 54839, 43965, 23105>>, <<45448, 35252, 30595, 42881>>, <<9654, 54985, 45006, 8611>>,
  <<2882, 11969, 9753, 4210>>, <<63921, 20162, 25320, 25256>>, <<28119, 22880, 59670, 11029>>,
  <<23106, 63980, 13521, 24889>>, <<7087, 50486, 43373, 19907>>, <<10499, 46577, 47692, 51211>>,
  <<27015, 39549, 56041, 15934>>, <<56496, 22849, 45781, 36759>>, <<20161, 19518, 34614, 19607>>,
  <<3239, 48809, 11527, 61194>>, <<60155, 28846, 62252, 24491>>, <<15348, 43250, 42447, 13142>>
>>
V_2s64 == <<
  <<5638, 15540, 9955, 15492>>, <<58903, 61043, 48752, 64884>>, <<1158, 55458, 58317, 62525>>,
  <<41915, 32398, 48307, 34863>>, <<15691, 19626, 52691, 6818>>, <<32469, 64224, 23339, 61045>>,
  <<57875, 3474, 9509, 54498>>, <<38491, 12805, 18696, 41115>>, <<60574, 20217, 8562, 54395>>,
  <<60945, 34188, 36803, 44168>>, <<62020, 22326, 8408, 38136>>, <<2354, 51858, 38172, 5895>>,
  <<30704, 16248, 17760, 36366>>, <<29202, 3642, 22828, 40914>>, <<54311, 15075, 14095, 39526>>,
  <<58039, 5661, 33490, 54067>>, <<4447, 40359, 48647, 39477>>, <<20163, 62859, 31871, 29509>>,
  <<52888, 21463, 4285, 48774>>, <<21361, 23757, 28158, 25936>>, <<55802, 63957, 12826, 10346>>,
  <<21357, 61244, 63911, 47134>>, <<28294, 33372, 46566, 11517>>, <<12346, 57309, 36031, 45733>>,
  <<1589, 11157, 38052, 53856>>, <<44442, 24322, 26218, 41805>>, <<29413, 60364, 57363, 337>>,
  <<27573, 32715, 42730, 37460>>, <<56363, 14441, 13851, 4297>>, <<25206, 24672, 21920, 55276>>,
  <<28669, 63639, 32651, 41727>>, <<52360, 34093, 7094, 46360>>, <<47871, 24952, 38075, 3811>>,
  <<47260, 3361, 19264, 14987>>, <<24829, 38665, 1121, 60455>>, <<34686, 45139, 26618, 24921>>,
  <<29004, 65204, 48924, 64081>>, <<62325, 12400, 43064, 10749>>, <<11994, 7109, 25350, 50102>>,
  <<31011, 61861, 47857, 6443>>, <<21423, 63804, 15186, 27929>>, <<51742, 65159, 22073, 32623>>,
  <<60872, 2866, 63764, 27127>>, <<9654, 45635, 16751, 53490>>, <<40947, 60884, 58239, 25280>>,
  <<14141, 32925, 27211, 22406>>, <<57655, 55605, 53835, 38984>>, <<54538, 26420, 1462, 57289>>,
  <<34089, 38054, 36305, 39571>>, <<21032, 61538, 50253, 33398>>, <<49323, 44391, 23808, 42163>>,
  <<46162, 33837, 45913, 15772>>, <<9855, 49723, 49064, 16961>>, <<22866, 48881, 42263, 25871>>,
  <<45537, 55495, 58027, 30765>>, <<15893, 26314, 17761, 20142>>, <<58167, 9748, 62368, 16589>>,
  <<8562, 17936, 2348, 44420>>, <<41319, 1017, 18331, 3176>>, <<6172, 29854, 41030, 32283>>,
  <<33473, 26995, 46106, 16186>>, <<64964, 34539, 56677, 50661>>, <<21852, 60162, 27860, 65426>>,
  <<28827, 63646, 65127, 860>>, <<7069, 17994, 27318, 35312>>, <<42840, 63454, 22771, 36607>>,
  <<2207, 30978, 44133, 35668>>, <<19812, 63706, 61945, 50884>>, <<51514, 35498, 10500, 48567>>,
  <<23766, 36702, 47714, 60022>>, <<43385, 10424, 22967, 29729>>, <<58685, 50976, 7379, 27925>>,
  <<56386, 26876, 65427, 59775>>, <<64474, 18708, 14385, 51803>>, <<36526, 35717, 51485, 56722>>,
  <<52210, 63047, 61564, 26341>>, <<23291, 62616, 39746, 54479>>, <<63159, 32146, 6060, 29358>>,
  <<29409, 43780, 27426, 47136>>, <<9337, 53204, 30389, 14424>>, <<27430, 40638, 18980, 809>>
>>
V_2s128 == <<
  <<14294, 47394, 467, 52520>>, <<21613, 55329, 54395, 4324>>, <<52486, 40293, 28747, 37120>>,
  <<5103, 355, 7348, 54933>>, <<29914, 38644, 25455, 9435>>, <<58402, 15433, 63455, 16202>>,
  <<17819, 61763, 23434, 49138>>, <<58697, 21387, 60435, 41303>>, <<54297, 18395, 62764, 54261>>,
  <<5493, 13743, 55255, 3827>>, <<31515, 33343, 47250, 18103>>, <<12937, 21793, 59974, 60962>>,
  <<10684, 12265, 30448, 22189>>, <<21614, 51334, 52506, 40182>>, <<47411, 44704, 52807, 44869>>,
  <<38583, 40761, 40384, 21343>>, <<57640, 26954, 15361, 7948>>, <<26359, 48647, 20585, 6217>>,
  <<19633, 55082, 65459, 14309>>, <<1801, 39411, 11922, 28012>>, <<16867, 62731, 59027, 20281>>,
  <<57622, 1624, 50415, 45343>>, <<1947, 30949, 43723, 18623>>, <<15056, 30747, 51356, 57780>>,
  <<13217, 35027, 62280, 33234>>, <<17564, 53994, 8816, 63184>>, <<5379, 50126, 50114, 51332>>,
  <<43449, 41303, 57707, 28954>>, <<35997, 16981, 16582, 7777>>, <<50523, 36701, 15651, 13739>>,
  <<4471, 61189, 31594, 13296>>, <<42780, 28399, 13943, 58739>>, <<14162, 6330, 24451, 27972>>,
  <<51592, 6452, 63075, 54517>>, <<50338, 22311, 24584, 54754>>, <<46330, 49536, 46110, 23380>>,
  <<43160, 39957, 30070, 32605>>, <<13254, 20682, 28088, 44634>>, <<13315, 17510, 52096, 908>>,
  <<37560, 13276, 12545, 55830>>, <<52779, 45751, 64378, 27183>>, <<44576, 8859, 13017, 56344>>,
  <<51684, 62891, 50297, 35938>>, <<40139, 34172, 46615, 24247>>, <<59405, 18849, 63447, 47004>>,
  <<20435, 38962, 44087, 56959>>, <<23814, 4968, 37144, 33144>>, <<17424, 14669, 27837, 27250>>,
  <<4371, 32986, 27442, 27838>>, <<4424, 4303, 47684, 26665>>, <<23494, 45676, 16766, 64126>>,
  <<14921, 19822, 34696, 8941>>, <<26269, 20757, 18221, 5617>>, <<54040, 49001, 46280, 11936>>,
  <<21763, 43604, 28784, 57320>>, <<19129, 63252, 5301, 27468>>, <<21786, 24870, 18880, 49645>>,
  <<14489, 16988, 6652, 13593>>, <<48446, 42737, 39951, 31574>>, <<53245, 2116, 49717, 28986>>,
  <<12275, 25484, 32666, 59702>>, <<1926, 23274, 32050, 38897>>, <<24465, 27895, 1996, 48313>>,
  <<30489, 44836, 20861, 3255>>, <<59561, 50267, 2364, 48662>>, <<54955, 13722, 61079, 30830>>,
  <<32376, 9913, 42227, 47023>>, <<20526, 57918, 46719, 9876>>, <<57524, 28312, 37506, 19636>>,
  <<5831, 29860, 4511, 33677>>, <<30717, 20054, 43294, 28886>>, <<230, 54016, 634, 62436>>,
  <<32631, 38272, 26919, 39903>>, <<19028, 28163, 8086, 27191>>, <<26607, 44621, 53057, 34697>>,
  <<24750, 18509, 34645, 616>>, <<52802, 19445, 19258, 54659>>, <<57949, 17421, 64609, 37893>>,
  <<31158, 5497, 10250, 13803>>, <<38828, 21074, 3434, 18644>>, <<47834, 20564, 56344, 27271>>
>>
V_1le == <<
  <<0, 0, 0, 0>>, <<34420, 54788, 1640, 27224>>, <<2169, 65293, 36938, 41726>>,
  <<53283, 64244, 39942, 58283>>, <<21570, 29897, 50696, 27377>>, <<23938, 6764, 32342, 45909>>,
  <<14272, 28477, 15465, 2791>>, <<18753, 25138, 24432, 24306>>, <<44851, 19686, 20283, 39800>>,
  <<61552, 27252, 47904, 27027>>, <<27724, 2311, 24049, 61929>>, <<34112, 22756, 46860, 19998>>,
  <<17636, 55532, 30281, 24541>>, <<13345, 1588, 8903, 21905>>, <<59709, 34405, 13269, 14337>>,
  <<23268, 51397, 17046, 40167>>, <<46800, 30074, 63909, 13654>>, <<18078, 62044, 20983, 63015>>,
  <<28052, 63057, 60519, 34078>>, <<34453, 33930, 16099, 60742>>, <<54188, 65422, 37374, 56455>>,
  <<33487, 57762, 51012, 9577>>, <<32953, 55050, 47041, 63758>>, <<2636, 47109, 42657, 26847>>,
  <<8500, 8461, 42472, 38092>>, <<40786, 48165, 3050, 62924>>, <<64935, 5656, 49653, 16603>>,
  <<21190, 61691, 37979, 2055>>, <<33933, 56944, 32265, 58863>>, <<39242, 65214, 57141, 25569>>,
  <<3418, 26994, 59191, 8229>>, <<21217, 47265, 8370, 44385>>, <<62135, 14681, 55793, 10865>>,
  <<9544, 10179, 33946, 35360>>, <<34894, 15191, 51710, 3019>>, <<44717, 22119, 36133, 3586>>,
  <<46740, 1082, 56019, 48742>>, <<58068, 14585, 19474, 45070>>, <<3714, 44584, 48613, 23636>>,
  <<15300, 21692, 47207, 3618>>, <<47181, 63576, 2027, 359>>, <<38382, 51680, 5627, 39168>>,
  <<1071, 59167, 61603, 35738>>, <<1380, 48440, 28296, 27301>>, <<6671, 15976, 22289, 43726>>,
  <<41517, 44969, 5396, 6648>>, <<44153, 25278, 47677, 32986>>, <<48966, 11435, 4161, 29010>>,
  <<43327, 40298, 2974, 55546>>, <<54178, 4255, 50596, 27695>>, <<56536, 46365, 24814, 23358>>,
  <<28647, 6005, 29040, 2684>>, <<6452, 23715, 29568, 42807>>, <<34301, 41758, 27575, 19901>>,
  <<11700, 54716, 6611, 9462>>, <<54838, 5752, 62298, 15946>>, <<37433, 36192, 43231, 33953>>,
  <<20429, 54206, 34348, 13724>>, <<49445, 49789, 14837, 53050>>, <<19575, 64863, 25336, 49407>>,
  <<5740, 56746, 9363, 24223>>, <<41574, 48668, 16722, 5954>>, <<57549, 46267, 64090, 42890>>,
  <<33606, 61201, 11820, 31739>>, <<53825, 62435, 15887, 25724>>, <<9262, 23571, 58373, 850>>,
  <<3640, 60262, 64624, 28482>>, <<9146, 44021, 44367, 3051>>, <<54813, 17428, 62497, 37481>>,
  <<108, 30694, 30210, 7336>>, <<31581, 23000, 9640, 31661>>, <<20253, 63297, 23260, 44388>>,
  <<44979, 35031, 20862, 45183>>, <<43868, 46591, 49263, 45857>>, <<55364, 7933, 5674, 54543>>,
  <<58137, 9467, 15641, 7677>>, <<32376, 2543, 43823, 57262>>, <<2846, 61562, 15194, 42848>>,
  <<20195, 3674, 1100, 16845>>, <<48947, 59411, 12166, 63053>>, <<45162, 12382, 56217, 65439>>
>>
V_1be == <<
  <<0, 0, 0, 0>>, <<34420, 54788, 1640, 27224>>, <<33143, 3643, 38746, 57036>>,
  <<53283, 64244, 39942, 58283>>, <<63849, 7018, 64143, 58369>>, <<38115, 22267, 7598, 26587>>,
  <<41075, 2487, 9834, 4358>>, <<31675, 61228, 14769, 21763>>, <<17851, 22784, 11183, 10506>>,
  <<62794, 35849, 49445, 41346>>, <<5178, 19431, 21443, 4989>>, <<48860, 28482, 46748, 63186>>,
  <<58548, 11426, 16047, 14692>>, <<38233, 39468, 7955, 8872>>, <<14343, 2803, 27375, 23357>>,
  <<15368, 26724, 63498, 22243>>, <<34688, 567, 15333, 40514>>, <<12245, 39515, 39023, 52656>>,
  <<10559, 31027, 51278, 54707>>, <<38722, 14750, 35984, 58875>>, <<53053, 30642, 15391, 23865>>,
  <<37478, 12272, 12123, 51400>>, <<46483, 42743, 8972, 44192>>, <<5717, 38413, 1506, 52056>>,
  <<31893, 1239, 54711, 32298>>, <<60253, 47289, 973, 50665>>, <<13585, 7360, 53458, 19655>>,
  <<16019, 11515, 57144, 33669>>, <<13450, 22093, 39376, 61814>>, <<19597, 10058, 59384, 63358>>,
  <<47806, 35075, 52964, 47576>>, <<53225, 33465, 48426, 65038>>, <<62821, 29296, 46649, 46239>>,
  <<4238, 49986, 13768, 5943>>, <<41706, 61120, 32699, 41852>>, <<2926, 25275, 26356, 49471>>,
  <<18046, 46417, 62402, 3076>>, <<51566, 26640, 51989, 30377>>, <<45393, 6576, 34057, 8248>>,
  <<25723, 28397, 40747, 52897>>, <<2468, 12193, 25965, 26438>>, <<32567, 8448, 14322, 61521>>,
  <<18760, 14907, 43489, 35119>>, <<35378, 14164, 46861, 19799>>, <<32998, 22117, 64317, 6780>>,
  <<16300, 42078, 626, 31923>>, <<16959, 40273, 53245, 4988>>, <<62054, 47149, 38643, 47229>>,
  <<60727, 29810, 39662, 13108>>, <<48135, 38229, 54217, 23744>>, <<25839, 38617, 20385, 19087>>,
  <<64506, 62081, 3428, 59434>>, <<9185, 50024, 47810, 14497>>, <<29566, 14845, 38850, 30673>>,
  <<57126, 19975, 29803, 64263>>, <<29373, 38518, 6542, 51362>>, <<41050, 5183, 5229, 24346>>,
  <<47020, 8218, 30625, 9912>>, <<9208, 8519, 45381, 29925>>, <<21692, 50946, 4323, 59854>>,
  <<31208, 49243, 37792, 10643>>, <<59362, 8869, 11160, 64813>>, <<58634, 20680, 20458, 34114>>,
  <<65509, 19231, 40561, 59011>>, <<4394, 18169, 7371, 10135>>, <<23209, 57457, 38306, 51590>>,
  <<33318, 20357, 7355, 13198>>, <<55302, 63400, 23644, 64619>>, <<42252, 56973, 51885, 35187>>,
  <<44658, 13035, 18350, 40045>>, <<28024, 8658, 8095, 7871>>, <<14425, 36373, 28747, 32937>>,
  <<16891, 14833, 8361, 27389>>, <<16111, 15189, 27691, 50015>>, <<19482, 3529, 40587, 22866>>,
  <<20385, 28348, 57091, 5481>>, <<6393, 37825, 47237, 55858>>, <<22112, 65370, 16725, 61470>>,
  <<45445, 56546, 9506, 30298>>, <<29679, 4736, 21844, 52969>>, <<56879, 51793, 29349, 24816>>
>>
V_0le == <<
  <<0, 0, 0, 0>>, <<42254, 4014, 10689, 51490>>, <<50243, 3581, 13643, 15857>>,
  <<31667, 24641, 365, 38543>>, <<30479, 50906, 64336, 34218>>, <<51158, 26690, 58299, 26316>>,
  <<49702, 5431, 14785, 56746>>, <<40076, 7948, 36136, 13717>>, <<24718, 37342, 25776, 35933>>,
  <<30827, 3385, 57192, 16532>>, <<57165, 10798, 62634, 4116>>, <<41744, 24922, 6289, 14802>>,
  <<51140, 50072, 8039, 32501>>, <<12701, 56767, 14736, 1558>>, <<28479, 3213, 51872, 57897>>,
  <<57589, 3412, 2891, 53796>>, <<44948, 24030, 32400, 59950>>, <<42446, 29059, 35464, 36175>>,
  <<33292, 25541, 32666, 17459>>, <<46999, 34473, 36126, 38035>>, <<4300, 23714, 51898, 38633>>,
  <<30472, 40591, 47564, 28411>>, <<35772, 33531, 59906, 15634>>, <<11336, 8282, 33262, 23975>>,
  <<65042, 9847, 20897, 64074>>, <<2856, 8294, 61518, 33237>>, <<14401, 15309, 36100, 22309>>,
  <<7890, 1436, 60258, 23707>>, <<19251, 63747, 8546, 22432>>, <<6584, 22478, 5092, 47658>>,
  <<7994, 63813, 9787, 58771>>, <<27589, 14688, 5973, 3009>>, <<10399, 40031, 37534, 41954>>,
  <<13815, 33630, 48390, 34493>>, <<43740, 46219, 38154, 41344>>, <<16424, 55698, 51604, 30738>>,
  <<62571, 5141, 26113, 12419>>, <<63833, 37317, 39577, 30718>>, <<45539, 28848, 13323, 37468>>,
  <<11792, 50206, 23460, 52636>>, <<52627, 35732, 59253, 31940>>, <<17957, 25322, 9049, 35211>>,
  <<12934, 8841, 58815, 55267>>, <<27748, 13061, 19677, 14703>>, <<52639, 12055, 45795, 29706>>,
  <<45857, 52501, 12281, 24785>>, <<33240, 36922, 42697, 48867>>, <<50014, 15155, 16529, 46192>>,
  <<15615, 52225, 35882, 6638>>, <<21956, 30779, 38085, 24044>>, <<24349, 22060, 4653, 30940>>,
  <<6174, 55836, 61448, 25888>>, <<49020, 41838, 61781, 30666>>, <<15526, 56200, 57387, 2569>>,
  <<47253, 32319, 39642, 64861>>, <<33717, 61099, 64985, 50933>>, <<43306, 40786, 39858, 33880>>,
  <<38932, 16270, 6129, 39717>>, <<12780, 42286, 10998, 28533>>, <<52874, 58148, 30617, 36465>>,
  <<11608, 14630, 2799, 34009>>, <<37965, 64552, 31507, 31170>>, <<1098, 14560, 57188, 59094>>,
  <<40100, 215, 996, 20918>>, <<45968, 50568, 11048, 27280>>, <<7555, 59083, 36329, 36223>>,
  <<61508, 7335, 19905, 53018>>, <<34545, 13927, 58428, 61186>>, <<58127, 48379, 23501, 35217>>,
  <<52351, 61865, 45830, 22824>>, <<20933, 39272, 37010, 43189>>, <<35621, 17022, 2592, 8709>>,
  <<59374, 35137, 25601, 28269>>, <<59462, 47130, 51352, 38808>>, <<4682, 56368, 8588, 33007>>,
  <<644, 54619, 24160, 64740>>, <<31797, 54036, 59189, 16400>>, <<56446, 40920, 32153, 60260>>,
  <<59655, 45391, 19914, 54100>>, <<28684, 33848, 45693, 46472>>, <<31308, 15877, 49092, 42142>>
>>
V_0be == <<
  <<0, 0, 0, 0>>, <<42254, 4014, 10689, 51490>>, <<32271, 3544, 4707, 4066>>,
  <<31667, 24641, 365, 38543>>, <<5035, 34969, 11052, 59057>>, <<41832, 31389, 34696, 43575>>,
  <<61241, 54588, 29186, 1774>>, <<26187, 49814, 44978, 24905>>, <<22533, 3994, 37665, 34504>>,
  <<41036, 39050, 58842, 33657>>, <<6752, 52801, 15015, 9334>>, <<19704, 14682, 50763, 40185>>,
  <<59652, 14557, 37571, 65473>>, <<58869, 45849, 30138, 2373>>, <<25873, 29324, 53223, 48058>>,
  <<62473, 48718, 50126, 14008>>, <<42192, 14715, 43171, 43531>>, <<58963, 4686, 23799, 63992>>,
  <<34734, 62120, 20349, 15071>>, <<39546, 25770, 3929, 43562>>, <<28344, 17107, 22079, 61835>>,
  <<20316, 63539, 26318, 835>>, <<3679, 3635, 34072, 44590>>, <<26040, 57180, 40895, 42446>>,
  <<39691, 43466, 40741, 24144>>, <<15314, 49665, 4952, 58125>>, <<4606, 60289, 1237, 47930>>,
  <<41613, 10773, 13544, 45122>>, <<3631, 53482, 27222, 34626>>, <<63992, 36359, 34406, 2384>>,
  <<44709, 46758, 14915, 62669>>, <<29350, 29908, 47542, 29689>>, <<19919, 39454, 17442, 21891>>,
  <<6170, 8825, 51547, 2772>>, <<51819, 2081, 6616, 24125>>, <<41560, 23531, 37586, 25892>>,
  <<18865, 60088, 19202, 61352>>, <<44076, 12377, 11557, 33197>>, <<62551, 57266, 52400, 5120>>,
  <<34318, 43065, 56434, 22152>>, <<45223, 4049, 4878, 26572>>, <<7785, 38114, 7738, 2693>>,
  <<14599, 27143, 11, 11936>>, <<53294, 39921, 30463, 44695>>, <<25372, 45408, 27494, 49321>>,
  <<51440, 20183, 16862, 43315>>, <<57665, 23429, 56719, 28602>>, <<3258, 49694, 38385, 47058>>,
  <<17231, 7054, 5209, 28001>>, <<31719, 25561, 37787, 62902>>, <<23988, 16142, 54533, 15488>>,
  <<63021, 27507, 2764, 44114>>, <<14694, 16847, 8024, 53509>>, <<59232, 25674, 23274, 25124>>,
  <<50733, 21655, 27617, 3285>>, <<36790, 50328, 13365, 23481>>, <<46354, 45453, 47246, 24493>>,
  <<30156, 9252, 51938, 51351>>, <<51643, 33901, 38127, 61856>>, <<31158, 37455, 35620, 11037>>,
  <<60243, 33878, 3086, 50911>>, <<39836, 12346, 296, 59044>>, <<31705, 61434, 31477, 25811>>,
  <<42392, 23266, 46858, 37118>>, <<65355, 9945, 42481, 60475>>, <<6953, 15045, 51436, 12577>>,
  <<28353, 8726, 50388, 15169>>, <<60790, 48968, 36316, 46215>>, <<25316, 31927, 20695, 23736>>,
  <<5919, 49629, 42044, 39463>>, <<16970, 39371, 64623, 12255>>, <<42939, 40926, 22496, 62794>>,
  <<28729, 11435, 58862, 24440>>, <<7354, 15795, 38280, 47290>>, <<34499, 33967, 25067, 4892>>,
  <<15783, 40033, 63054, 33969>>, <<31746, 49347, 6280, 59724>>, <<40158, 45571, 63679, 59912>>,
  <<51027, 9278, 53325, 52422>>, <<1577, 10635, 53509, 35191>>, <<36958, 38053, 38756, 31402>>
>>
V_aes == <<
  <<0, 0, 0, 0>>, <<65346, 48690, 29457, 30508>>, <<9141, 3675, 44134, 45617>>,
  <<62770, 41908, 57181, 29174>>, <<63072, 21349, 22883, 21848>>, <<50726, 52537, 2289, 59784>>,
  <<47881, 8547, 36783, 11953>>, <<40071, 51201, 55442, 31645>>, <<53594, 19876, 17180, 58033>>,
  <<32624, 42311, 59160, 6532>>, <<20345, 26184, 6066, 2269>>, <<54608, 30314, 41053, 19587>>,
  <<36989, 12753, 60337, 37596>>, <<34121, 34843, 50940, 54907>>, <<63083, 22011, 34917, 63145>>,
  <<57950, 32563, 24941, 28209>>, <<1181, 9955, 7028, 14051>>, <<16223, 18081, 20399, 20366>>,
  <<33183, 9535, 3251, 1003>>, <<28882, 36951, 30569, 25450>>, <<4424, 53613, 14209, 15071>>,
  <<51650, 33163, 40113, 37585>>, <<50483, 54361, 26868, 10302>>, <<43524, 36332, 43176, 64131>>,
  <<21388, 36524, 54, 35951>>, <<45858, 14231, 45263, 31590>>, <<41983, 64939, 57634, 20785>>,
  <<51113, 23560, 65361, 28249>>, <<30640, 45763, 21097, 47660>>, <<35371, 26878, 20435, 43474>>,
  <<59537, 11827, 5075, 8923>>, <<30437, 1208, 57288, 31639>>, <<13561, 53480, 48636, 50584>>,
  <<62887, 13959, 5693, 45654>>, <<20659, 27375, 42812, 26327>>, <<38354, 14694, 50852, 47924>>,
  <<22189, 7218, 57752, 32582>>, <<50612, 6054, 43442, 19237>>, <<7593, 53810, 27597, 31242>>,
  <<46158, 37031, 21990, 2591>>, <<21060, 55280, 6801, 36677>>, <<167, 39832, 23868, 25165>>,
  <<56357, 16541, 49846, 2525>>, <<8886, 34390, 22373, 15893>>, <<45953, 38161, 40876, 38481>>,
  <<64496, 12260, 22600, 20782>>, <<44572, 32084, 24810, 6834>>, <<48061, 52264, 28434, 26519>>,
  <<342, 58917, 46514, 1543>>, <<54126, 29050, 3050, 32368>>, <<43955, 54812, 22745, 1696>>,
  <<38703, 43044, 21284, 22490>>, <<63463, 56299, 47732, 4499>>, <<724, 3696, 49940, 49549>>,
  <<61207, 57248, 52241, 40828>>, <<41274, 1638, 54978, 50311>>, <<61640, 46350, 37092, 46705>>,
  <<47525, 36336, 43616, 42301>>, <<40659, 59519, 4125, 32275>>, <<2187, 12037, 21934, 32649>>,
  <<14399, 38829, 58784, 11767>>, <<5301, 8682, 26682, 61479>>, <<2370, 58166, 44739, 39864>>,
  <<59390, 18791, 14773, 37566>>, <<64807, 11898, 27955, 38796>>, <<44673, 27215, 12265, 60753>>,
  <<31651, 5133, 39352, 40464>>, <<59814, 7791, 42430, 57301>>, <<28116, 9142, 24590, 7554>>,
  <<21198, 61051, 50103, 16291>>, <<61260, 42581, 63442, 61060>>, <<15339, 30366, 25068, 10819>>,
  <<26370, 5731, 45961, 8932>>, <<41237, 23865, 2415, 99>>, <<21556, 43770, 45645, 27729>>,
  <<58180, 46097, 7601, 47867>>, <<50352, 6880, 40726, 65362>>, <<26735, 44042, 60131, 4752>>,
  <<53694, 21575, 54360, 42928>>, <<44371, 46796, 53644, 44755>>, <<48838, 35649, 54383, 64627>>
>>
V_avx2 == <<
  <<0, 0, 0, 0>>, <<65346, 48690, 29457, 30508>>, <<63274, 36022, 63018, 17304>>,
  <<62770, 41908, 57181, 29174>>, <<63072, 21349, 22883, 21848>>, <<50726, 52537, 2289, 59784>>,
  <<47881, 8547, 36783, 11953>>, <<40071, 51201, 55442, 31645>>, <<53594, 19876, 17180, 58033>>,
  <<32624, 42311, 59160, 6532>>, <<20345, 26184, 6066, 2269>>, <<54608, 30314, 41053, 19587>>,
  <<36989, 12753, 60337, 37596>>, <<34121, 34843, 50940, 54907>>, <<63083, 22011, 34917, 63145>>,
  <<57950, 32563, 24941, 28209>>, <<1181, 9955, 7028, 14051>>, <<16223, 18081, 20399, 20366>>,
  <<33183, 9535, 3251, 1003>>, <<28882, 36951, 30569, 25450>>, <<4424, 53613, 14209, 15071>>,
  <<51650, 33163, 40113, 37585>>, <<50483, 54361, 26868, 10302>>, <<43524, 36332, 43176, 64131>>,
  <<21388, 36524, 54, 35951>>, <<45858, 14231, 45263, 31590>>, <<41983, 64939, 57634, 20785>>,
  <<51113, 23560, 65361, 28249>>, <<30640, 45763, 21097, 47660>>, <<35371, 26878, 20435, 43474>>,
  <<59537, 11827, 5075, 8923>>, <<30437, 1208, 57288, 31639>>, <<13561, 53480, 48636, 50584>>,
  <<62887, 13959, 5693, 45654>>, <<20659, 27375, 42812, 26327>>, <<41242, 34254, 63630, 59408>>,
  <<17300, 47166, 63731, 18452>>, <<63120, 4258, 41517, 40107>>, <<33041, 4597, 805, 3344>>,
  <<52568, 61091, 28405, 59811>>, <<40316, 6477, 17118, 51090>>, <<58824, 17246, 6816, 50055>>,
  <<62669, 17356, 3053, 21129>>, <<54131, 6860, 53382, 1953>>, <<59885, 61694, 33135, 8827>>,
  <<49348, 43727, 49011, 23039>>, <<44300, 11245, 22095, 2475>>, <<33560, 12003, 29775, 49247>>,
  <<50785, 54599, 46625, 31568>>, <<58833, 20072, 29131, 3103>>, <<56234, 33236, 42104, 3635>>,
  <<31790, 36506, 48921, 62915>>, <<35473, 49398, 36824, 5682>>, <<39513, 43838, 39369, 41955>>,
  <<6328, 48315, 59164, 5690>>, <<63403, 35961, 32330, 6385>>, <<19269, 14081, 58090, 37456>>,
  <<996, 54795, 45329, 31675>>, <<48520, 29088, 18992, 15786>>, <<55004, 37026, 10455, 41608>>,
  <<58353, 63051, 64648, 48240>>, <<13255, 47683, 32776, 41956>>, <<31223, 51964, 17242, 29598>>,
  <<31942, 48640, 45920, 17083>>, <<60562, 44916, 28626, 20475>>, <<12614, 37991, 39465, 10873>>,
  <<36511, 27092, 1115, 48650>>, <<41592, 20422, 13045, 21652>>, <<50946, 13983, 15456, 14109>>,
  <<36007, 5552, 22484, 56133>>, <<2871, 33669, 12042, 59497>>, <<39595, 45934, 18094, 558>>,
  <<25901, 5348, 51640, 4474>>, <<36936, 26542, 1042, 41825>>, <<15834, 38428, 46364, 10108>>,
  <<35469, 30667, 38643, 45052>>, <<7079, 477, 31226, 33740>>, <<32812, 53067, 33834, 42132>>,
  <<19007, 58051, 40157, 64621>>, <<63399, 58453, 34364, 20182>>, <<44696, 56186, 5328, 25353>>
>>
PublishedValue(fn) ==
  CASE fn = "2a64" -> V_2a64
    [] fn = "2a128" -> V_2a128
    [] fn = "2s64" -> V_2s64
    [] fn = "2s128" -> V_2s128
    [] fn = "1le" -> V_1le
    [] fn = "1be" -> V_1be
    [] fn = "0le" -> V_0le
    [] fn = "0be" -> V_0be
    [] fn = "aes" -> V_aes
    [] fn = "avx2" -> V_avx2
    [] fn = "avx" -> V_aes
=============================================================================
