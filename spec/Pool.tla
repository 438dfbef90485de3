--------------------------------- MODULE Pool ---------------------------------
(* Pools of documents.  A document is handed out blank to one holder, who    *)
(* fills and changes it and returns it once; returning resets it and makes   *)
(* it available again, in two steps.  A reference names a document, its      *)
(* revision and a value in it, and shows nothing from the next reset on.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Proc, Name                 \* the pools
VARIABLES docs,     \* sequence of [rev, holder (0: nobody), vals, pool ("" : not in one)]
          refs,     \* holder -> sequence of [d, rev, n]: every reference it ever had
          wrote,    \* holder -> sequence of what it last wrote there
          at        \* holder -> the document it is about to put into a pool, <<>> for none
pvars == <<docs, refs, wrote, at>>
Blank == [rev |-> 0, holder |-> 0, vals |-> <<>>, pool |-> ""]
Free(pool) == {d \in DOMAIN docs : docs[d].pool = pool}
Held(p) == {d \in DOMAIN docs : docs[d].holder = p}
Nothing == "-"
Shows(ref) == IF docs[ref.d].rev = ref.rev /\ ref.n \in DOMAIN docs[ref.d].vals THEN docs[ref.d].vals[ref.n] ELSE Nothing

PoolInit == /\ docs = <<>> /\ refs = [p \in Proc |-> <<>>] /\ wrote = [p \in Proc |-> <<>>] /\ at = [p \in Proc |-> <<>>]
\* d is the next number for a new document
Get(p, pool, d) ==
  /\ \/ d = Len(docs) + 1 /\ docs' = Append(docs, [Blank EXCEPT !.holder = p])
     \/ d \in Free(pool) /\ docs' = [docs EXCEPT ![d].holder = p, ![d].pool = ""]
  /\ UNCHANGED <<refs, wrote, at>>
Parse(p, d, v) ==
  /\ docs[d].holder = p
  /\ docs' = [docs EXCEPT ![d].vals = Append(@, v)]
  /\ refs' = [refs EXCEPT ![p] = Append(@, [d |-> d, rev |-> docs[d].rev, n |-> Len(docs[d].vals) + 1])]
  /\ wrote' = [wrote EXCEPT ![p] = Append(@, v)]
  /\ UNCHANGED at
\* through a reference: without effect when it is inert
Edit(p, r, v) ==
  LET x == refs[p][r] IN
  /\ docs' = IF Shows(x) = Nothing THEN docs ELSE [docs EXCEPT ![x.d].vals[x.n] = v]
  /\ wrote' = IF Shows(x) = Nothing THEN wrote ELSE [wrote EXCEPT ![p][r] = v]
  /\ UNCHANGED <<refs, at>>
\* resets the document
PutBegin(p, d, pool) ==
  /\ docs[d].holder = p /\ at[p] = <<>>
  /\ docs' = [docs EXCEPT ![d].rev = @ + 1, ![d].vals = <<>>]
  /\ at' = [at EXCEPT ![p] = <<d, pool>>]
  /\ UNCHANGED <<refs, wrote>>
PutEnd(p) ==
  /\ at[p] # <<>>
  /\ docs' = [docs EXCEPT ![at[p][1]].holder = 0, ![at[p][1]].pool = at[p][2]]
  /\ at' = [at EXCEPT ![p] = <<>>]
  /\ UNCHANGED <<refs, wrote>>

\* ---------------------------------------------------------------- what holds
OneHolder == \A d \in DOMAIN docs : docs[d].pool # "" => docs[d].holder = 0 /\ docs[d].vals = <<>>
\* what a holder wrote shows as long as it holds the document, and nothing shows afterwards
OwnOnly == \A p \in Proc : \A r \in DOMAIN refs[p] :
             Shows(refs[p][r]) # Nothing => docs[refs[p][r].d].holder = p /\ Shows(refs[p][r]) = wrote[p][r]
Nobody == \A d \in DOMAIN docs : docs[d].holder = 0 => docs[d].pool # ""
PoolInv == OneHolder /\ OwnOnly /\ Nobody
=============================================================================
