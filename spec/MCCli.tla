------------------------------- MODULE MCCli --------------------------------
(* Exhaustive histories of the command line machine in a small scope: the    *)
(* text function is arbitrary but fixed; only complete texts are ever found  *)
(* in output files, failing invocations change nothing, and StepV accepts    *)
(* the machine's own behaviour and rejects every other outcome of a step.    *)
EXTENDS Cli
CONSTANT MaxOps
VARIABLES fs, known, ops, last
vars == <<fs, known, ops, last>>
L2 == {"go", "c"}
Inv == [lang : L2, proto : {"p", "q"}, good : BOOLEAN, out : {"-"} \cup Outputs, ns : {""}, indent : {""}, embed : {FALSE}, gonr : BOOLEAN, rustnr : {FALSE}, tsns : {FALSE}, fault : {"none", "nolang"}]
TextOf(c) == ToString(Key(c))
Init == fs = [o \in Outputs |-> "absent"] /\ known = <<>> /\ ops = 0 /\ last = <<>>
Obs(f, c) == [end |-> "exit", code |-> IF Succeeds(c) THEN 0 ELSE 1, err |-> ~Succeeds(c), out |-> IF Succeeds(c) /\ c.out = "-" THEN 9 ELSE 0,
              text |-> IF Succeeds(c) /\ c.out = "-" THEN TextOf(c) ELSE "empty", nl |-> Succeeds(c) /\ c.out = "-", fs |-> Files(f, c, TextOf(c)), more |-> 0]
Invoke(c) == ops < MaxOps /\ ops' = ops + 1 /\ fs' = Files(fs, c, TextOf(c)) /\ known' = Learn(known, c, TextOf(c)) /\ last' = <<c, fs, known>>
Meddle(o) == ops < MaxOps /\ ops' = ops + 1 /\ fs' = [fs EXCEPT ![o] = "other"] /\ UNCHANGED known /\ last' = <<>>
Next == (\E c \in Inv : Invoke(c)) \/ (\E o \in Outputs : Meddle(o))
OnlyComplete == \A o \in Outputs : fs[o] \in {"absent", "other"} \/ \E key \in DOMAIN known : known[key] = fs[o]
FailingChangesNothing == last = <<>> \/ Succeeds(last[1]) \/ (fs = last[2] /\ known = last[3])
\* wrong outcomes of the last step: a truncated file, an untouched file, other output, other status
Wrong(c, f) == LET r == Obs(f, c) IN
  {[r EXCEPT !.code = 1 - @], [r EXCEPT !.more = 1]} \cup {[r EXCEPT !.fs = [@ EXCEPT ![o] = "trunc"]] : o \in Outputs}
  \cup (IF c.out = "-" /\ Succeeds(c) THEN {[r EXCEPT !.nl = FALSE], [r EXCEPT !.text = "empty"]} ELSE {[r EXCEPT !.out = 3]}) \cup (IF Succeeds(c) THEN {} ELSE {[r EXCEPT !.err = FALSE]})
Judged == last = <<>> \/ (StepV(last[2], last[3], last[1], Obs(last[2], last[1])) = <<>>
   /\ \A r \in Wrong(last[1], last[2]) : StepV(last[2], Learn(last[3], last[1], TextOf(last[1])), last[1], r) # <<>>)
=============================================================================
