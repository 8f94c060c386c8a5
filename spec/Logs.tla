-------------------------------- MODULE Logs --------------------------------
(* 10^6 * ln n for n in 1..1600 (TLC has no reals).  MCLogs checks the table  *)
(* against the laws of the logarithm.                                         *)
EXTENDS Base
Ln6To200 == <<
   0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225,
   2302585, 2397895, 2484907, 2564949, 2639057, 2708050, 2772589, 2833213,
   2890372, 2944439, 2995732, 3044522, 3091042, 3135494, 3178054, 3218876,
   3258097, 3295837, 3332205, 3367296, 3401197, 3433987, 3465736, 3496508,
   3526361, 3555348, 3583519, 3610918, 3637586, 3663562, 3688879, 3713572,
   3737670, 3761200, 3784190, 3806662, 3828641, 3850148, 3871201, 3891820,
   3912023, 3931826, 3951244, 3970292, 3988984, 4007333, 4025352, 4043051,
   4060443, 4077537, 4094345, 4110874, 4127134, 4143135, 4158883, 4174387,
   4189655, 4204693, 4219508, 4234107, 4248495, 4262680, 4276666, 4290459,
   4304065, 4317488, 4330733, 4343805, 4356709, 4369448, 4382027, 4394449,
   4406719, 4418841, 4430817, 4442651, 4454347, 4465908, 4477337, 4488636,
   4499810, 4510860, 4521789, 4532599, 4543295, 4553877, 4564348, 4574711,
   4584967, 4595120, 4605170, 4615121, 4624973, 4634729, 4644391, 4653960,
   4663439, 4672829, 4682131, 4691348, 4700480, 4709530, 4718499, 4727388,
   4736198, 4744932, 4753590, 4762174, 4770685, 4779123, 4787492, 4795791,
   4804021, 4812184, 4820282, 4828314, 4836282, 4844187, 4852030, 4859812,
   4867534, 4875197, 4882802, 4890349, 4897840, 4905275, 4912655, 4919981,
   4927254, 4934474, 4941642, 4948760, 4955827, 4962845, 4969813, 4976734,
   4983607, 4990433, 4997212, 5003946, 5010635, 5017280, 5023881, 5030438,
   5036953, 5043425, 5049856, 5056246, 5062595, 5068904, 5075174, 5081404,
   5087596, 5093750, 5099866, 5105945, 5111988, 5117994, 5123964, 5129899,
   5135798, 5141664, 5147494, 5153292, 5159055, 5164786, 5170484, 5176150,
   5181784, 5187386, 5192957, 5198497, 5204007, 5209486, 5214936, 5220356,
   5225747, 5231109, 5236442, 5241747, 5247024, 5252273, 5257495, 5262690,
   5267858, 5273000, 5278115, 5283204, 5288267, 5293305, 5298317>>
\* ln(n+1) = ln n + 2/(2n+1) + 2/3/(2n+1)^3 + ..., summed at 10^-9
LnMore == FoldLeft(LAMBDA a, n : Append(a, a[Len(a)] + RDiv(2000000000, 2 * n + 1) + (IF n < 600 THEN RDiv(83333333, n * n * n) ELSE 0)),
                   <<0>>, [k \in 1..1400 |-> 199 + k])
Ln6 == Ln6To200 \o [k \in 1..1400 |-> Ln6To200[200] + RDiv(LnMore[k + 1], 1000)]
\* num/den as an integer scaled by 10^digits, by long division (num, den > 0, den < 2*10^8)
RECURSIVE FracRest(_, _, _)
FracRest(rem, den, digits) ==
  IF digits = 0 THEN 0
  ELSE ((10 * rem) \div den) * 10^(digits - 1) + FracRest((10 * rem) % den, den, digits - 1)
FracDiv(num, den, digits) == (num \div den) * 10^digits + FracRest(num % den, den, digits)
=============================================================================
