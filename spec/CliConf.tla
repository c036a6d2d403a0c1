------------------------------ MODULE CliConf -------------------------------
(* Conformance of recorded sessions to Cli. A line is a session of steps     *)
(* [pre : an output replaced by something else before, or "-", inv, obs];    *)
(* what is known of the text function is carried from session to session.    *)
EXTENDS Cli, Json, IOUtils
T == ndJsonDeserialize(IOEnv.VB_TRACE)
Before(fs, s) == IF s.pre = "-" THEN fs ELSE [fs EXCEPT ![s.pre] = "other"]
\* after a step that was judged, continue from what is really there
RECURSIVE Run(_, _, _, _, _)
Run(steps, j, fs, known, bad) ==
  IF j > Len(steps) THEN [known |-> known, bad |-> bad]
  ELSE LET s == steps[j] f0 == Before(fs, s) v == TLCEval(StepV(f0, known, s.inv, s.obs))
           t == IF s.inv.out = "-" THEN s.obs.text ELSE s.obs.fs[s.inv.out]
           kn == IF Succeeds(s.inv) /\ s.obs.code = 0 /\ Key(s.inv) \notin DOMAIN known THEN Learn(known, s.inv, t) ELSE known IN
       Run(steps, j + 1, TLCEval(s.obs.fs), TLCEval(kn), TLCEval(IF v = <<>> THEN bad ELSE Append(bad, [step |-> j, clauses |-> v])))
VARIABLES l, known, bad
Init == l = 1 /\ known = <<>> /\ bad = <<>>
Next == /\ l <= Len(T) /\ l' = l + 1
        /\ LET x == TLCEval(Run(T[l].steps, 1, [o \in Outputs |-> "absent"], known, <<>>)) IN
           known' = x.known /\ bad' = [j \in 1..Len(x.bad) |-> [line |-> l, step |-> x.bad[j].step, clauses |-> x.bad[j].clauses]]
Report == (l = 1 => TLCSet(1, <<>>)) /\ (bad # <<>> => TLCSet(1, TLCGet(1) \o bad)) /\ TLCSet(2, l) /\ TLCSet(3, Cardinality(DOMAIN known))
Done == JsonSerialize(IOEnv.VB_OUT, [consumed |-> TLCGet(2) - 1, lines |-> Len(T), bad |-> TLCGet(1), requests |-> TLCGet(3)])
=============================================================================
