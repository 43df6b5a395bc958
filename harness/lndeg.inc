0.0,
0.0,
1.0986122886681097,
2.7080502011022101,
4.7273878187123406,
7.050122520269059,
9.6241042828990422,
12.412391451253999,
15.387330296492876,
18.527817971322763,
21.81719964892303,
25.241928604249279,
28.7907695492342,
32.454252335015352,
36.224281767814789,
40.093855079075322,
44.056852874142475,
48.107880512192079,
52.24214542701174,
56.455360784703611,
60.74366876717357,
65.103578702211873,
69.531916599189036,
74.025783570499097,
78.582521260207554,
83.199682858950332,
87.875008617069494,
92.606405013376125,
97.391926919934701,
102.22976224139481,
107.11821861286587,
112.05571182169509,
117.04075568186631,
122.07195313950541,
127.14798842739345,
132.26762011784529,
137.42967494859663,
142.63304231680367,
147.87666935292201,
153.15955649988075,
158.48075353421269,
163.83935597511357,
169.23450183515443,
174.66536867285339,
180.13117091275857,
185.63115740328819,
191.16460918646606,
196.73083745700039,
202.32918169097949,
207.95900792687794,
213.61970718364736,
219.3106940024597,
225.03140510022282,
230.78129812433438,
236.5598504993113,
242.36655835695436,
248.20093554260106,
254.06251269080421,
259.95083636446272,
265.86546825203866,
271.80598441803088,
277.77197460235037,
283.76304156466373,
289.77880047014541,
295.81887831341274,
301.8829133777153,
307.97055472671598,
314.08146172643927,
320.21530359517592,
326.37175897932511,
332.55051555332781,
338.75126964200107,
344.97372586372324,
351.21759679304755,
357.4826026414364,
363.76847095491307,
370.07493632752248,
376.40174012957868,
382.74863024975522,
389.11536085014608,
395.50169213348999,
401.90739012181076,
408.33222644578063,
414.77597814416365,
421.23842747274189,
427.71936172216936,
434.21857304423703,
440.73585828606788,
447.27101883179373,
453.82386045129547,
460.39419315561642,
466.9818310586839,
473.58659224499797,
480.20829864296826,
486.84677590359993,
493.50185328424875,
500.17336353718278,
506.86114280270407,
513.56503050659911,
520.28486926170055,
527.02050477335575,
533.7717857486099,
540.53856380892252,
547.3206934062469,
554.11803174231165,
560.93043869095275,
567.75777672335312,
574.59991083605448,
581.45670848161402,
588.32803950178526,
595.21377606310894,
602.11379259480616,
609.0279657288715,
615.9561742422694,
622.89829900114205,
629.85422290694202,
636.82383084440693,
643.80700963129812,
650.80364796982894,
657.81363639971214,
664.83686725275922,
671.8732346089682,
678.92263425403898,
685.98496363825875,
693.06012183670246,
700.14800951069624,
707.2485288704937,
714.36158363911802,
721.48707901732415,
728.62492164963844,
735.77501959143414,
742.93728227700368,
750.11162048859025,
757.2979463263427,
764.49617317915963,
771.70621569638995,
778.9279897603586,
786.16141245968752,
793.40640206338321,
800.66287799566362,
807.93076081149787,
815.20997217283407,
822.50043482549075,
829.80207257668921,
837.11481027320449,
844.43857378011377,
851.77328996012195,
859.11888665344494,
866.47529265823174,
873.84243771150768,
881.22025247062119,
888.60866849517789,
896.00761822944579,
903.41703498521655,
910.83685292510785,
918.267007046293,
925.70743316464395,
933.1580678992748,
940.61884865747306,
948.08971362000678,
955.57060172679559,
963.06145266293471,
970.56220684506092,
978.0728054080501,
985.59319019203643,
993.12330372974342,
1000.6630892341175,
1008.212490586255,
1015.7714523236146,
1023.3399196285055,
1030.9178383168444,
1038.5051548271736,
1046.101816209931,
1053.7077701169676,
1061.3229647913021,
1068.947349057109,
1076.5808723099312,
1084.2234845071128,
1091.8751361584438,
1099.5357783170126,
1107.2053625702606,
1114.8838410312311,
1122.5711663300103,
1130.2672916053532,
1137.9721704964893,
1145.6857571351051,
1153.408006137496,
1161.1388725968862,
1168.878312075909,
1176.6262805992458,
1184.3827346464182,
1192.1476311447301,
1199.9209274623549,
1207.7025814015653,
1215.492551192101,
1223.2907954846716,
1231.0972733445903,
1238.9119442455365,
1246.7347680634423,
1254.565705070502,
1262.404715929299,
1270.2517616870495,
1278.1068037699586,
1285.9698039776871,
1293.8407244779252,
1301.7195278010714,
1309.6061768350144,
1317.5006348200136,
1325.4028653436782,
1333.3128323360413,
1341.230500064727,
1349.1558331302076,
1357.0887964611509,
1365.0293553098525,
1372.9774752477538,
1380.9331221610421,
1388.896262246332,
1396.8668620064246,
1404.8448882461451,
1412.8303080682549,
1420.8230888694373,
1428.8231983363562,
1436.8306044417835,
1444.8452754407971,
1452.8671798670449,
1460.896286529075,
1468.9325645067307,
1476.9759831476077,
1485.0265120635734,
1493.0841211273465,
1501.1487804691348,
1509.2204604733318,
1517.299131775269,
1525.3847652580234,
1533.4773320492795,
1541.576803518244,
1549.6831512726122,
1557.7963471555856,
1565.9163632429385,
1574.0431718401335,
1582.1767454794853,
1590.3170569173698,
1598.4640791314804,
1606.6177853181278,
1614.7781488895843,
1622.9451434714713,
1631.1187429001881,
1639.2989212203825,
1647.4856526824621,
1655.6789117401444,
1663.8786730480462,
1672.0849114593116,
1680.2976020232761,
1688.5167199831682,
1696.7422407738468,
1704.9741400195734,
1713.2123935318188,
1721.4569773071045,
1729.7078675248756,
1737.965040545408,
1746.2284729077465,
1754.4981413276742,
1762.774022695713,
1771.0560940751545,
1779.3443327001192,
1787.6387159736465,
1795.9392214658115,
1804.245826911871,
1812.558510210436,
1820.8772494216721,
1829.2020227655252,
1837.5328086199739,
1845.8695855193075,
1854.2123321524281,
1862.5610273611783,
1870.9156501386925,
1879.2761796277715,
1887.6425951192814,
1896.0148760505743,
1904.3930020039318,
1912.776952705031,
1921.1667080214312,
1929.5622479610827,
1937.9635526708562,
1946.3706024350924,
1954.7833776741723,
1963.2018589431071,
1971.6260269301475,
1980.055862455412,
1988.4913464695345,
1996.9324600523301,
2005.3791844114788,
2013.8315008812274,
2022.289390921109,
2030.7528361146798,
2039.2218181682723,
2047.696318909766,
2056.1763202873739,
2064.6618043684456,
2073.1527533382858,
2081.6491494989887,
2090.1509752682879,
2098.6582131784209,
2107.170845875009,
2115.6888561159514,
2124.2122267703336,
2132.7409408173508,
2141.2749813452439,
2149.8143315502504,
2158.3589747355675,
2166.9088943103301,
2175.4640737886,
2184.0244967883695,
2192.5901470305766,
2201.1610083381331,
2209.7370646349648,
2218.3182999450637,
2226.9046983915522,
2235.4962441957588,
2244.0929216763056,
2252.6947152482062,
2261.3016094219764,
2269.9135888027538,
2278.5306380894301,
2287.1527420737925,
2295.7798856396768,
2304.4120537621299,
2313.0492315065828,
2321.6914040280338,
2330.3385565702409,
2338.9906744649249,
2347.647743130981,
2356.3097480737004,
2364.9766748840012,
2373.648509237668,
2382.3252368946011,
2391.006843698074,
2399.6933155739997,
2408.3846385302063,
2417.08079865572,
2425.7817821200573,
2434.4875751725249,
2443.1981641415282,
2451.9135354338874,
2460.6336755341613,
2469.35857100398,
2478.0882084813834,
2486.822574680169,
2495.5616563892463,
2504.3054404719983,
2513.0539138656509,
2521.807063580649,
2530.5648767000397,
2539.3273403788625,
2548.0944418435462,
2556.8661683913126,
2565.642507389587,
2574.4234462754148,
2583.2089725548853,
2591.999073802561,
2600.7937376609137,
2609.592951839767,
2618.3967041157441,
2627.2049823317224,
2636.0177743962939,
2644.835068283231,
2653.6568520309588,
2662.4831137420323,
2671.3138415826199,
2680.1490237819921,
2688.988648632016,
2697.8327044866545,
2706.6811797614718,
2715.5340629331434,
2724.3913425389716,
2733.2530071764061,
2742.1190455025696,
2750.9894462337885,
2759.8641981451285,
2768.7432900699346,
2777.6267108993768,
2786.5144495819999,
2795.4064951232779,
2804.3028365851734,
2813.2034630857012,
2822.1083637984967,
2831.0175279523887,
2839.930944830976,
2848.8486037722093,
2857.7704941679766,
2866.6966054636931,
2875.6269271578951,
2884.5614488018385,
2893.5001599991004,
2902.4430504051859,
2911.3901097271378,
2920.3413277231508,
2929.2966942021894,
2938.2561990236096,
2947.2198320967842,
2956.1875833807323
