------------------------------ MODULE Registry ------------------------------
(* A codec registry: any number of callers ask for the codec of a type.  The *)
(* abstract registry answers at once; the machine takes a read lock to look  *)
(* a codec up, builds a missing one without a lock, and publishes it under   *)
(* the write lock unless somebody else was faster.                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Proc, Type,
          Bad                        \* types that no codec can be built for
ASSUME Bad \subseteq Type
None == 0                            \* no codec

\* ---------------------------------------------------------------- what callers see
\* answers: sequence of [t, c]; c is a codec or None with an error
Typed(answers, of) == \A n \in DOMAIN answers : answers[n].c # None => of[answers[n].c] = answers[n].t
Failing(answers) == \A n \in DOMAIN answers : answers[n].c = None <=> answers[n].t \in Bad
OneEach(answers) == \A n, m \in DOMAIN answers : answers[n].t = answers[m].t => answers[n].c = answers[m].c
Good(answers, of) == Typed(answers, of) /\ Failing(answers) /\ OneEach(answers)

\* ---------------------------------------------------------------- the machine
VARIABLES todo,      \* the types each caller still asks for, the current first
          pc, mine,  \* where it is and the codec it holds
          readers, writer,
          table,     \* published codecs
          of,        \* the type every codec was built for
          answers,   \* in the order they were given
          step       \* who moved last
vars == <<todo, pc, mine, readers, writer, table, of, answers, step>>

Start(reqs) ==
  /\ todo = reqs
  /\ pc = [p \in Proc |-> "begin"] /\ mine = [p \in Proc |-> None]
  /\ readers = {} /\ writer = {} /\ table = [t \in Type |-> None] /\ of = <<>> /\ answers = <<>> /\ step = 0

T(p) == Head(todo[p])
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Answer(p, c) == /\ answers' = Append(answers, [t |-> T(p), c |-> c, p |-> p])
                /\ todo' = [todo EXCEPT ![p] = Tail(@)]
                /\ Goto(p, IF Tail(todo[p]) = <<>> THEN "done" ELSE "rlock")

Begin(p) == pc[p] = "begin" /\ Goto(p, IF todo[p] = <<>> THEN "done" ELSE "rlock") /\ UNCHANGED <<todo, mine, readers, writer, table, of, answers>>
RLock(p) == pc[p] = "rlock" /\ writer = {} /\ readers' = readers \cup {p}
            /\ mine' = [mine EXCEPT ![p] = table[T(p)]] /\ Goto(p, "runlock")
            /\ UNCHANGED <<todo, writer, table, of, answers>>
RUnlock(p) ==
  /\ pc[p] = "runlock" /\ readers' = readers \ {p}
  /\ IF mine[p] # None THEN Answer(p, mine[p]) /\ UNCHANGED <<mine, of>>
     ELSE IF T(p) \in Bad THEN Answer(p, None) /\ UNCHANGED <<mine, of>>
     ELSE of' = Append(of, T(p)) /\ mine' = [mine EXCEPT ![p] = Len(of) + 1] /\ Goto(p, "lock") /\ UNCHANGED <<todo, answers>>
  /\ UNCHANGED <<writer, table>>
Lock(p) ==
  /\ pc[p] = "lock" /\ writer = {} /\ readers = {} /\ writer' = {p}
  /\ IF table[T(p)] # None THEN mine' = [mine EXCEPT ![p] = table[T(p)]] /\ table' = table
     ELSE table' = [table EXCEPT ![T(p)] = mine[p]] /\ mine' = mine
  /\ Goto(p, "unlock") /\ UNCHANGED <<todo, readers, of, answers>>
Unlock(p) == pc[p] = "unlock" /\ writer' = {} /\ Answer(p, mine[p]) /\ UNCHANGED <<mine, readers, table, of>>

Move(p) == Begin(p) \/ RLock(p) \/ RUnlock(p) \/ Lock(p) \/ Unlock(p)
Next == \E p \in Proc : Move(p) /\ step' = p

Done == \A p \in Proc : pc[p] = "done"
\* ---------------------------------------------------------------- what holds
Locked == Cardinality(writer) <= 1 /\ (writer # {} => readers = {})
Stable == [][\A t \in Type : table[t] # None => table'[t] = table[t]]_vars
Built == \A t \in Type : table[t] # None => of[table[t]] = t
\* somebody can always go on
Live == Done \/ \E p \in Proc : ENABLED Move(p)
Fair == \A p \in Proc : SF_vars(Move(p) /\ step' = p)
Answered == <>Done
=============================================================================
