------------------------------- MODULE MCNumber -------------------------------
(* All texts of up to N pieces, each printed as a test.                       *)
EXTENDS Number, TLC, Json
CONSTANTS N, Emit
Pieces == {<<45>>, <<48>>, <<49>>, <<46>>, <<101>>, <<69>>, <<43>>, <<32>>, <<120>>, <<48, 48>>, <<53>>,
           Text(FALSE, SubSeq(MaxInt, 1, 18)), <<55>>, <<56>>, Text(FALSE, SubSeq(MaxUint, 1, 19)), <<54>>, <<101, 49>>, <<101, 45, 49>>, <<101, 49, 56>>, <<46, 48>>}
VARIABLES s, n
Init == s = <<>> /\ n = 0
Next == n < N /\ n' = n + 1 /\ \E p \in Pieces : s' = s \o p
Spec == Init /\ [][Next]_<<s, n>>
View == s
Neg(t) == <<45>> \o t
\* a number, its negation and its tenfold shift are converted consistently
Inv ==
  LET i == ToInt(s)  u == ToUint(s)  x == Scan(s) IN
  /\ (i # <<>> \/ u # <<>>) => x.ok
  /\ i # <<>> => ToInt(i) = i
  /\ u # <<>> => ToUint(u) = u
  /\ (i # <<>> /\ i[1] # 45) => u = i
  /\ (u # <<>> /\ i = <<>>) => Len(u) >= 19
  /\ (i # <<>> /\ s[1] # 45 /\ i # <<48>>) => ToInt(Neg(s)) = Neg(i)
  /\ (x.ok /\ ~x.exp) => ToInt(s \o <<101, 48>>) = i
Test == Emit => PrintT("TEST " \o ToJson([s |-> s, ok |-> Scan(s).ok, i |-> ToInt(s), u |-> ToUint(s)]))
=============================================================================
