------------------------------ MODULE Sigmoid -------------------------------
(* The logistic function in fixed point: 10^6 * sigmoid(k/32) for k = 0..320, *)
(* interpolated linearly (error below 13 units).  MCSigmoid checks the table  *)
(* against the law sigmoid' = sigmoid (1 - sigmoid).                          *)
EXTENDS Base
Sig6 == <<
   500000, 507812, 515620, 523420, 531209, 538983, 546738, 554470, 562177,
   569853, 577495, 585101, 592667, 600188, 607663, 615088, 622459, 629775,
   637031, 644225, 651355, 658418, 665411, 672332, 679179, 685949, 692642,
   699254, 705785, 712232, 718594, 724870, 731059, 737158, 743168, 749087,
   754915, 760651, 766294, 771843, 777300, 782662, 787931, 793106, 798187,
   803174, 808067, 812867, 817574, 822189, 826712, 831143, 835484, 839734,
   843895, 847968, 851953, 855851, 859664, 863392, 867036, 870597, 874077,
   877477, 880797, 884039, 887205, 890294, 893309, 896251, 899121, 901921,
   904651, 907312, 909907, 912436, 914901, 917303, 919643, 921922, 924142,
   926304, 928409, 930458, 932453, 934395, 936285, 938124, 939913, 941654,
   943348, 944995, 946597, 948155, 949669, 951142, 952574, 953966, 955319,
   956634, 957912, 959154, 960361, 961534, 962673, 963780, 964855, 965900,
   966914, 967899, 968856, 969785, 970688, 971564, 972415, 973241, 974043,
   974821, 975577, 976311, 977023, 977714, 978385, 979036, 979668, 980281,
   980876, 981453, 982014, 982558, 983085, 983597, 984094, 984575, 985043,
   985496, 985936, 986363, 986777, 987179, 987568, 987946, 988313, 988668,
   989013, 989347, 989672, 989986, 990292, 990587, 990874, 991153, 991423,
   991684, 991938, 992184, 992423, 992654, 992879, 993096, 993307, 993512,
   993710, 993902, 994089, 994270, 994445, 994615, 994780, 994940, 995095,
   995245, 995390, 995532, 995668, 995801, 995930, 996055, 996176, 996293,
   996406, 996517, 996623, 996727, 996827, 996925, 997019, 997110, 997199,
   997285, 997368, 997449, 997527, 997603, 997677, 997748, 997817, 997884,
   997949, 998012, 998073, 998132, 998190, 998245, 998299, 998352, 998402,
   998451, 998499, 998545, 998590, 998633, 998675, 998716, 998755, 998793,
   998830, 998866, 998901, 998935, 998968, 998999, 999030, 999060, 999089,
   999117, 999144, 999170, 999196, 999221, 999245, 999268, 999290, 999312,
   999333, 999354, 999374, 999393, 999412, 999430, 999447, 999464, 999481,
   999497, 999512, 999527, 999542, 999556, 999569, 999583, 999596, 999608,
   999620, 999632, 999643, 999654, 999665, 999675, 999685, 999695, 999704,
   999713, 999722, 999731, 999739, 999747, 999755, 999762, 999769, 999777,
   999783, 999790, 999797, 999803, 999809, 999815, 999820, 999826, 999831,
   999837, 999842, 999846, 999851, 999856, 999860, 999864, 999869, 999873,
   999877, 999880, 999884, 999888, 999891, 999894, 999898, 999901, 999904,
   999907, 999910, 999912, 999915, 999918, 999920, 999923, 999925, 999927,
   999930, 999932, 999934, 999936, 999938, 999940, 999942, 999944, 999945,
   999947, 999949, 999950, 999952, 999953, 999955>>
\* x is scaled by S (S divides 10^6, S >= 1000); result scaled by 10^6
SigPos(x, S) ==
  IF x >= 10 * S THEN 999978
  ELSE LET k == (32 * x) \div S
           r == 32 * x - k * S
       IN Sig6[k + 1] + ((Sig6[k + 2] - Sig6[k + 1]) * r) \div S
Sigmoid6(x, S) == IF x >= 0 THEN SigPos(x, S) ELSE 1000000 - SigPos(-x, S)
=============================================================================
