-------------------------- MODULE CommandLineTrace --------------------------
(* Recorded invocations. Events:                                                *)
(*  parse: one definition text, the values the tool read (err=1: rejected)       *)
(*  reset: a new, empty result store                                            *)
(*  run:   one invocation with the values of its definitions, what was analysed  *)
(*         and what the store holds afterwards                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
C == INSTANCE CommandLine WITH Kernels <- {}, Models <- {}, Cores <- {}, DefPool <- {},
       MaxDefs <- 0, MaxInv <- 0, Emit <- FALSE, store <- <<>>, runs <- <<>>, hist <- <<>>, failed <- FALSE
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, store
E == Trace[l]
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
Check(c, clause, want) == IF c THEN TRUE ELSE Bad(clause, want)
Empty == [x \in {} |-> 0]
(* identity of a result: kernel file, machine file, model, options, constants *)
Id(r) == <<r.kernel, r.machine, r.model, r.opts, r.consts>>
Wanted == LET req == C!Range(E.required) IN
          IF E.badargs = 1 \/ ~C!Complete(req, E.defs) THEN {}
          ELSE {<<E.kernel, E.machine, m, E.opts, c>> : m \in C!Range(E.models), c \in C!Combos(req, E.defs)}
MustFail == E.badargs = 1 \/ ~C!Complete(C!Range(E.required), E.defs)
Observed == [i \in DOMAIN E.runs |-> Id(E.runs[i])]
StoreOf(rs) == [id \in {Id(rs[i]) : i \in DOMAIN rs} |->
                 rs[CHOOSE i \in DOMAIN rs : Id(rs[i]) = id].stamp]
Next ==
  /\ l <= Len(Trace)
  /\ CASE E.ev = "parse" ->
            /\ IF C!Invalid(E.d) THEN Check(E.err = 1, "invalid-definition-accepted", E.d)
               ELSE /\ Check(E.err = 0, "valid-definition-rejected", E.d)
                    /\ IF E.err = 0 THEN Check(C!ValuesOk(E.d, E.vs), "values-of-definition", E.d) ELSE TRUE
            /\ UNCHANGED store
       [] E.ev = "reset" -> store' = Empty
       [] E.ev = "run" ->
            LET w == Wanted  o == C!Range(Observed)
                next == [id \in (DOMAIN store) \cup w |-> IF id \in w THEN E.stamp ELSE store[id]]
                seen == StoreOf(E.store) IN
            /\ IF MustFail THEN Check(E.err = 1, "incomplete-definitions-accepted", "error")
                           ELSE Check(E.err = 0, "invocation-failed", "success")
            /\ Check(w \subseteq o, "requested-combination-not-analysed", w \ o)
            /\ Check(o \subseteq w, "unrequested-combination-analysed", o \ w)
            /\ Check(Cardinality(o) = Len(E.runs), "combination-analysed-more-than-once", Len(E.runs))
            /\ Check(Cardinality(DOMAIN seen) = Len(E.store), "result-stored-under-several-keys", Len(E.store))
            /\ Check((DOMAIN store) \subseteq DOMAIN seen, "earlier-result-lost", (DOMAIN store) \ DOMAIN seen)
            /\ Check(DOMAIN seen = DOMAIN next, "stored-identities", DOMAIN next)
            /\ Check(\A id \in (DOMAIN seen) \cap (DOMAIN next) : seen[id] = next[id],
                     "stored-value-of-other-run", next)
            /\ store' = seen
  /\ l' = l + 1
  /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == l = 1 /\ store = Empty /\ [][Next]_<<l, store>>
=============================================================================
