----------------------------- MODULE BuildConf ------------------------------
(* Generated code builds: a line of the trace is the document of a protocol, *)
(* and per language what became of it: [who, made : the generator produced   *)
(* code, built : "yes", "no" or "untried" (no toolchain)]. Whatever is       *)
(* accepted (by the rules, and by the command line) must be built.           *)
EXTENDS WellFormed, Json, IOUtils
T == ndJsonDeserialize(IOEnv.VB_TRACE)
V(ok, r) == (IF ok /\ ~r.made THEN <<"build">> ELSE <<>>) \o (IF r.made /\ r.built = "no" THEN <<"build">> ELSE <<>>) \o (IF r.made /\ ~ok THEN <<"accepted">> ELSE <<>>)
VARIABLES l, bad, good
Init == l = 1 /\ bad = <<>> /\ good = 0
Next == /\ l <= Len(T) /\ l' = l + 1
        /\ LET ok == TLCEval(Accept(T[l].doc)) IN
           /\ good' = good + (IF ok THEN 1 ELSE 0)
           /\ bad' = TLCEval(SelectSeq([i \in 1..Len(T[l].obs) |-> [line |-> l, obs |-> i, clauses |-> V(ok, T[l].obs[i])]], LAMBDA x : x.clauses # <<>>))
Report == (l = 1 => TLCSet(1, <<>>)) /\ (bad # <<>> => TLCSet(1, TLCGet(1) \o bad)) /\ TLCSet(2, l) /\ TLCSet(3, good)
Done == JsonSerialize(IOEnv.VB_OUT, [consumed |-> TLCGet(2) - 1, lines |-> Len(T), bad |-> TLCGet(1), good |-> TLCGet(3)])
=============================================================================
