------------------------------ MODULE DocConf -------------------------------
(* Conformance of the command line to the rules of WellFormed: one line of   *)
(* the trace is a document and, per language, what an invocation with it did *)
(*   [who, end : "exit" or "hang" or "signal", code, err : stderr not empty, *)
(*    out : length of stdout, file : the output file appeared, len : its     *)
(*    length].                                                               *)
EXTENDS WellFormed, Json, IOUtils
T == ndJsonDeserialize(IOEnv.VB_TRACE)
If(c, name) == IF c THEN <<>> ELSE <<name>>

DocV(ok, r) ==
  IF r.end # "exit" THEN <<"hang">>
  ELSE IF ok THEN (IF r.code # 0 THEN <<"rejected">> ELSE If(r.file /\ r.len > 0, "nocode"))
  ELSE IF r.code = 0 THEN <<"accepted">> ELSE If(r.err, "silent") \o If(~r.file /\ r.out = 0, "residue")

VARIABLES l, bad, rules
Init == l = 1 /\ bad = <<>> /\ rules = ""
Next == /\ l <= Len(T) /\ l' = l + 1
        /\ rules' = TLCEval(Broken(T[l].doc))
        /\ bad' = TLCEval(LET c == T[l] vs == [i \in 1..Len(c.obs) |-> DocV(rules' = "none", c.obs[i])] IN
                          SelectSeq([i \in 1..Len(c.obs) |-> [line |-> l, obs |-> i, clauses |-> vs[i], rule |-> rules']], LAMBDA x : x.clauses # <<>>))
Report == (l = 1 => TLCSet(1, <<>>) /\ TLCSet(3, <<>>)) /\ (bad # <<>> => TLCSet(1, TLCGet(1) \o bad)) /\ (l > 1 => TLCSet(3, Append(TLCGet(3), rules))) /\ TLCSet(2, l)
Done == JsonSerialize(IOEnv.VB_OUT, [consumed |-> TLCGet(2) - 1, lines |-> Len(T), bad |-> TLCGet(1), rules |-> TLCGet(3)])
=============================================================================
