--------------------------------- MODULE Fns ---------------------------------
(* Elementary functions tabulated at the grid -2, -3/2, .., 2, rounded to    *)
(* 1/10000.  An argument is given in quarters.                               *)
EXTENDS Integers, Sequences
FAbs(x) == IF x < 0 THEN -x ELSE x
Undef == 99999999
Fns == <<"sin", "cos", "tan", "exp", "log", "sqrt", "atan", "asin", "acos", "sinh", "cosh", "tanh", "cube", "inv", "atan2y", "atan2x", "pow", "abs3", "min1", "max1", "quot",
         "pinv3", "pneg2", "quart", "exp2", "sinsq", "expsin", "logsq", "sqrtabs", "tanhcos", "powself">>
Partial == {"pow", "powself", "log", "sqrt", "asin", "acos", "inv", "pinv3", "pneg2"}
(* value * 10000 at -2, -1.5, .., 2 *)
Table(f) ==
  CASE
         f = "sin" -> <<-9093, -9975, -8415, -4794, 0, 4794, 8415, 9975, 9093>>
      [] f = "cos" -> <<-4161, 707, 5403, 8776, 10000, 8776, 5403, 707, -4161>>
      [] f = "tan" -> <<21850, -141014, -15574, -5463, 0, 5463, 15574, 141014, -21850>>
      [] f = "exp" -> <<1353, 2231, 3679, 6065, 10000, 16487, 27183, 44817, 73891>>
      [] f = "log" -> <<99999999, 99999999, 99999999, 99999999, 99999999, -6931, 0, 4055, 6931>>
      [] f = "sqrt" -> <<99999999, 99999999, 99999999, 99999999, 0, 7071, 10000, 12247, 14142>>
      [] f = "atan" -> <<-11071, -9828, -7854, -4636, 0, 4636, 7854, 9828, 11071>>
      [] f = "asin" -> <<99999999, 99999999, -15708, -5236, 0, 5236, 15708, 99999999, 99999999>>
      [] f = "acos" -> <<99999999, 99999999, 31416, 20944, 15708, 10472, 0, 99999999, 99999999>>
      [] f = "sinh" -> <<-36269, -21293, -11752, -5211, 0, 5211, 11752, 21293, 36269>>
      [] f = "cosh" -> <<37622, 23524, 15431, 11276, 10000, 11276, 15431, 23524, 37622>>
      [] f = "tanh" -> <<-9640, -9051, -7616, -4621, 0, 4621, 7616, 9051, 9640>>
      [] f = "cube" -> <<-80000, -33750, -10000, -1250, 0, 1250, 10000, 33750, 80000>>
      [] f = "inv" -> <<-5000, -6667, -10000, -20000, 99999999, 20000, 10000, 6667, 5000>>
      [] f = "atan2y" -> <<-13258, -12490, -11071, -7854, 0, 7854, 11071, 12490, 13258>>
      [] f = "atan2x" -> <<28966, 28198, 26779, 23562, 15708, 7854, 4636, 3218, 2450>>
      [] f = "pow" -> <<10000, 18371, 28284, 39528, 51962, 65479, 80000, 95459, 111803>>
      [] f = "abs3" -> <<25000, 20000, 15000, 10000, 5000, 0, 5000, 10000, 15000>>
      [] f = "min1" -> <<-20000, -15000, -10000, -5000, 0, 5000, 5000, 5000, 5000>>
      [] f = "max1" -> <<-5000, -5000, -5000, -5000, 0, 5000, 10000, 15000, 20000>>
      [] f = "quot" -> <<-2000, -1538, 0, 4000, 10000, 12000, 10000, 7692, 6000>>
      [] f = "pinv3" -> <<-1250, -2963, -10000, -80000, 99999999, 80000, 10000, 2963, 1250>>
      [] f = "pneg2" -> <<2500, 4444, 10000, 40000, 99999999, 40000, 10000, 4444, 2500>>
      [] f = "quart" -> <<160000, 50625, 10000, 625, 0, 625, 10000, 50625, 160000>>
      [] f = "exp2" -> <<2500, 3536, 5000, 7071, 10000, 14142, 20000, 28284, 40000>>
      [] f = "sinsq" -> <<-7568, 7781, 8415, 2474, 0, 2474, 8415, 7781, -7568>>
      [] f = "expsin" -> <<4028, 3688, 4311, 6191, 10000, 16151, 23198, 27115, 24826>>
      [] f = "logsq" -> <<16094, 11787, 6931, 2231, 0, 2231, 6931, 11787, 16094>>
      [] f = "sqrtabs" -> <<14142, 12247, 10000, 7071, 0, 7071, 10000, 12247, 14142>>
      [] f = "tanhcos" -> <<-3937, 706, 4932, 7052, 7616, 7052, 4932, 706, -3937>>
      [] f = "powself" -> <<10000, 5443, 5000, 6325, 10000, 18708, 40000, 95459, 250000>>
FnAt(f, x) == Table(f)[x \div 2 + 5]
(* the tabulated functions respect a few laws of the real ones *)
TableLaws ==
  \A k \in -4..4 : LET x == 2 * k IN
    /\ FAbs(FnAt("sin", x) + FnAt("sin", -x)) <= 1 /\ FnAt("cos", x) = FnAt("cos", -x)
    /\ FnAt("cosh", x) >= 10000 /\ FAbs(FnAt("tanh", x)) < 10000
    /\ FnAt("cube", x) = (x * x * x * 10000) \div 64
    /\ FAbs(FnAt("exp", x) - FnAt("sinh", x) - FnAt("cosh", x)) <= 2
    /\ (x > 0 => FnAt("inv", x) * x \in 39990..40010)
ASSUME TableLaws
=============================================================================
