----------------------------- MODULE RegistryTrace -----------------------------
(* Judges recorded runs of several callers with a real registry: each record *)
(* is [bad, answers, of]; an answer is [t, c, ok] with the number of the     *)
(* codec (0: an error, -1: a codec without identity) and whether it worked   *)
(* as one for t; of tells which type a numbered codec works for.             *)
EXTENDS Integers, Sequences, FiniteSets, Judge
R == INSTANCE Registry WITH Proc <- {}, Type <- {}, Bad <- {}, todo <- 0, pc <- 0, mine <- 0, readers <- 0, writer <- 0, table <- 0, of <- 0, answers <- 0, step <- 0
Numbered(a) == SelectSeq(a, LAMBDA x : x.c > 0)
InBad(x, t) == \E n \in DOMAIN x.bad : x.bad[n] = t
Check(x) ==
  IF \E n \in DOMAIN x.answers : (x.answers[n].c = 0) # InBad(x, x.answers[n].t) THEN "a codec for a type that has none, or no codec for one that has"
  ELSE IF \E n \in DOMAIN x.answers : ~x.answers[n].ok THEN "a codec does not work as one for its type"
  ELSE IF ~R!Typed(Numbered(x.answers), x.of) THEN "a codec for another type"
  ELSE IF ~R!OneEach(Numbered(x.answers)) THEN "several codecs for one type"
  ELSE IF "same" \in DOMAIN x /\ ~x.same THEN "results differ from those of one caller at a time"
  ELSE ""
=============================================================================
