-------------------------------- MODULE Number --------------------------------
(***************************************************************************)
(* The text of a number, over bytes, and what it converts to.              *)
(*   Scan(s)        grammar: -? digits (. digits)? ([eE] [+-]? digits)?    *)
(*   ToInt, ToUint  exact integers, as decimal digit sequences             *)
(*   Rounded(n, f)  f is the nearest binary float of a decimal, ties to    *)
(*                  even; decided exactly with natural numbers of any size *)
(***************************************************************************)
EXTENDS Integers, Sequences
D(c) == c \in 48..57
RECURSIVE Run(_, _)
Run(s, i) == IF i <= Len(s) /\ D(s[i]) THEN Run(s, i + 1) ELSE i      \* first position after a run of digits
Digits(s, i, j) == [k \in 1..(j - i) |-> s[i + k - 1] - 48]
RECURSIVE Small(_, _, _)
Small(d, i, acc) == IF i > Len(d) THEN acc ELSE Small(d, i + 1, IF acc > 100000 THEN acc ELSE 10 * acc + d[i])   \* saturates

Bad == [ok |-> FALSE, neg |-> FALSE, d |-> <<>>, point |-> 0, exp |-> FALSE]
\* d: all digits; point: how many of them are before the decimal point, after applying the exponent
Scan(s) ==
  LET i0 == IF Len(s) > 0 /\ s[1] = 45 THEN 2 ELSE 1
      i1 == Run(s, i0)
      dot == i1 <= Len(s) /\ s[i1] = 46
      i2 == IF dot THEN Run(s, i1 + 1) ELSE i1
      ex == i2 <= Len(s) /\ s[i2] \in {69, 101}
      sg == ex /\ i2 < Len(s) /\ s[i2 + 1] \in {43, 45}
      j0 == IF sg THEN i2 + 2 ELSE i2 + 1
      j1 == IF ex THEN Run(s, j0) ELSE i2
      mag == IF ex THEN Small(Digits(s, j0, j1), 1, 0) ELSE 0
  IN IF i1 = i0 \/ (dot /\ i2 = i1 + 1) \/ (ex /\ j1 = j0) \/ j1 # Len(s) + 1 THEN Bad
     ELSE [ok |-> TRUE, neg |-> i0 = 2, d |-> Digits(s, i0, i1) \o (IF dot THEN Digits(s, i1 + 1, i2) ELSE <<>>),
           point |-> (i1 - i0) + (IF sg /\ s[i2 + 1] = 45 THEN 0 - mag ELSE mag), exp |-> ex]

Lead(d) == IF \E i \in DOMAIN d : d[i] # 0 THEN CHOOSE i \in DOMAIN d : d[i] # 0 /\ \A j \in 1..(i - 1) : d[j] = 0 ELSE 0
IsZero(n) == Lead(n.d) = 0

\* ---- integers
MaxInt  == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MinInt  == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
MaxUint == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == i > Len(a) \/ a[i] < b[i] \/ (a[i] = b[i] /\ LexLeq(a, b, i + 1))
Leq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b, 1))     \* without leading zeros
\* digits of the absolute value, or <<>> if it is not an integer of at most 20 digits; zero is <<0>>
IntDigits(n) ==
  LET l == Lead(n.d) IN
  IF ~n.ok THEN <<>>
  ELSE IF l = 0 THEN <<0>>
  ELSE IF n.point - l + 1 > 20 \/ n.point < l \/ \E i \in DOMAIN n.d : i > n.point /\ n.d[i] # 0 THEN <<>>
  ELSE [k \in 1..(n.point - l + 1) |-> IF l + k - 1 <= Len(n.d) THEN n.d[l + k - 1] ELSE 0]
Text(neg, d) == (IF neg THEN <<45>> ELSE <<>>) \o [i \in DOMAIN d |-> 48 + d[i]]
\* the converted integer as decimal text, <<>> for failure
ToInt(s) ==
  LET n == Scan(s)  d == IntDigits(n) IN
  IF d = <<>> THEN <<>> ELSE IF d = <<0>> THEN <<48>>
  ELSE IF n.neg THEN IF Leq(d, MinInt) THEN Text(TRUE, d) ELSE <<>>
       ELSE IF Leq(d, MaxInt) THEN Text(FALSE, d) ELSE <<>>
ToUint(s) ==
  LET n == Scan(s)  d == IntDigits(n) IN
  IF d = <<>> THEN <<>> ELSE IF d = <<0>> THEN <<48>>
  ELSE IF ~n.neg /\ Leq(d, MaxUint) THEN Text(FALSE, d) ELSE <<>>

\* ---- natural numbers of any size: little-endian limbs, base 10^4
B == 10000
RECURSIVE MulAt(_, _, _, _)
MulAt(a, k, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == a[i] * k + c IN <<x % B>> \o MulAt(a, k, i + 1, x \div B)
Mul(a, k) == MulAt(a, k, 1, 0)                        \* k <= B
RECURSIVE AddAt(_, _, _)
AddAt(a, c, i) == IF c = 0 THEN a
                  ELSE IF i > Len(a) THEN Append(a, c)
                  ELSE LET x == a[i] + c IN AddAt([a EXCEPT ![i] = x % B], x \div B, i + 1)
Inc(a) == AddAt(a, 1, 1)
RECURSIVE DecAt(_, _)
DecAt(a, i) == IF a[i] > 0 THEN [a EXCEPT ![i] = @ - 1] ELSE DecAt([a EXCEPT ![i] = B - 1], i + 1)
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpAt(a, b, i - 1)
Cmp(a0, b0) == LET a == Trim(a0)  b == Trim(b0) IN
               IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpAt(a, b, Len(a))
RECURSIVE Times2(_, _)
Times2(a, n) == IF n = 0 THEN a ELSE IF n >= 13 THEN Times2(Mul(a, 8192), n - 13) ELSE Times2(Mul(a, 2), n - 1)
Times10(a, n) == LET z == [i \in 1..(n \div 4) |-> 0] \o a  r == n % 4 IN
                 Mul(z, IF r = 0 THEN 1 ELSE IF r = 1 THEN 10 ELSE IF r = 2 THEN 100 ELSE 1000)
RECURSIVE Limbs(_, _)                                  \* of decimal digits d[1..j]
Limbs(d, j) ==
  IF j <= 0 THEN <<>>
  ELSE LET g(k) == IF k >= 1 THEN d[k] ELSE 0 IN
       <<g(j) + 10 * g(j - 1) + 100 * g(j - 2) + 1000 * g(j - 3)>> \o Limbs(d, j - 4)
Odd(a) == a # <<>> /\ a[1] % 2 = 1

\* compares digits d times 10^k with m times 2^q
CmpScaled(d, k, m, q) ==
  LET x == Limbs(d, Len(d))
      x1 == IF k >= 0 THEN Times10(x, k) ELSE x
      y1 == IF k >= 0 THEN m ELSE Times10(m, 0 - k)
  IN Cmp(IF q >= 0 THEN x1 ELSE Times2(x1, 0 - q), IF q >= 0 THEN Times2(y1, q) ELSE y1)

\* a float is [nan, inf, neg, m limbs, e]: m * 2^e with m < 2^p, e >= emin, m >= 2^(p-1) or e = emin
F64 == [p |-> 53, emin |-> -1074, emax |-> 971]
F32 == [p |-> 24, emin |-> -149, emax |-> 104]
Pow2(n) == Times2(<<1>>, n)
Rounded(n, f, fmt) ==
  LET l == Lead(n.d)
      mag == n.point - l                                \* decimal exponent of the leading digit
      k == n.point - Len(n.d)
      two == Mul(f.m, 2)
      c(m, q) == CmpScaled(n.d, k, m, q)
  IN /\ f.neg = n.neg
     /\ ~f.nan
     /\ IF l = 0 \/ mag < -400 THEN ~f.inf /\ Trim(f.m) = <<>>
        ELSE IF mag > 400 THEN f.inf
        ELSE IF f.inf THEN c(DecAt(Pow2(fmt.p + 1), 1), fmt.emax - 1) >= 0
        ELSE IF Trim(f.m) = <<>> THEN c(<<1>>, fmt.emin - 1) <= 0
        ELSE LET up == c(Inc(two), f.e - 1)
                 lo == IF Cmp(f.m, Pow2(fmt.p - 1)) = 0 /\ f.e > fmt.emin THEN c(DecAt(Mul(f.m, 4), 1), f.e - 2) ELSE c(DecAt(two, 1), f.e - 1)
             IN IF Odd(f.m) THEN lo > 0 /\ up < 0 ELSE lo >= 0 /\ up <= 0

\* ---- formatting: s is the text of f
Formatted(s, f, fmt) ==
  LET n == Scan(s)  l == Lead(n.d)  mag == n.point - l
      first == IF n.neg THEN 2 ELSE 1
  IN /\ n.ok
     /\ (s[first] = 48 => Len(s) = first \/ ~D(s[first + 1]))           \* JSON: no leading zeros
     /\ n.exp = (l # 0 /\ (mag < -6 \/ mag >= 21))
     /\ Rounded(n, f, fmt)
=============================================================================
