-------------------------------- MODULE Judge --------------------------------
(* Walks a log of independent records in parallel chunks.  A record the      *)
(* specification does not allow is printed; the driver reads the MISMATCH    *)
(* lines, and the postcondition requires that every record was looked at.    *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
CONSTANT Verdict(_)                  \* record -> "" or what is wrong with it

Log == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 64
VARIABLE i
JInit == i \in {k \in 1..Len(Log) : k % Chunk = 1}
JNext == i < Len(Log) /\ i % Chunk # 0 /\ i' = i + 1
JSpec == JInit /\ [][JNext]_i
Judged == LET v == Verdict(Log[i]) IN IF v = "" THEN TRUE ELSE PrintT("MISMATCH " \o ToString(i) \o " " \o v)
AllJudged == TLCGet("distinct") = Len(Log)
=============================================================================
