------------------------------- MODULE CliGen -------------------------------
(* Random sessions of invocations of the command line (steps of Cli) in one  *)
(* directory, between which the files are sometimes replaced by others.      *)
(* Environment: VB_N sessions, VB_LEN invocations each, VB_GOOD and VB_BAD   *)
(* numbers of acceptable and unacceptable protocols.                         *)
EXTENDS Cli, Json, IOUtils, Randomization
N == atoi(IOEnv.VB_N)
LEN == atoi(IOEnv.VB_LEN)
GOOD == atoi(IOEnv.VB_GOOD)
BAD == atoi(IOEnv.VB_BAD)
R(z, A) == RandomElement(IF z < 0 THEN {} ELSE A)
Yes(z, c) == R(z, 1..c) = 1
LangSeq == <<"c", "csharp", "go", "rust", "swift", "typescript", "assemblyscript", "zig">>
FaultSeq == <<"nolang", "noproto", "badlang", "upperlang", "missing", "directory", "nsblank", "nsbytes", "badoption", "dangling", "positional">>
Inv(z, protos) ==
  LET bad == TLCEval(Yes(z, 5)) fault == TLCEval(IF Yes(z, 4) THEN FaultSeq[R(z, 1..Len(FaultSeq))] ELSE "none") plain == TLCEval(Yes(z, 2)) IN
  [lang |-> LangSeq[R(z, 1..8)], proto |-> IF bad THEN "b" \o ToString(R(z, 1..BAD)) ELSE "p" \o ToString(R(z, protos)), good |-> ~bad,
   out |-> R(z, {"-", "o1", "o2"}), fault |-> fault,
   ns |-> IF plain THEN "" ELSE R(z, {"", "", "Other", "ns_x"}), indent |-> IF plain THEN "" ELSE R(z, {"", "", "\t", "  "}), embed |-> ~plain /\ Yes(z, 3),
   gonr |-> ~plain /\ Yes(z, 3), rustnr |-> ~plain /\ Yes(z, 3), tsns |-> ~plain /\ Yes(z, 3), form |-> R(z, 0..5)]
VARIABLES n, i, ses
vars == <<n, i, ses>>
Init == n = 0 /\ i = 0 /\ ses = <<>>
\* every session works with few protocols, so that requests recur
Begin == i = 0 /\ n < N /\ n' = n + 1 /\ i' = 1 /\ ses' = [mode |-> R(n, {"process", "process", "one"}), protos |-> {R(n, 1..GOOD), R(n + 1, 1..GOOD)}, steps |-> <<>>]
Step == i \in 1..LEN /\ i' = i + 1 /\ UNCHANGED n
  /\ ses' = TLCEval([ses EXCEPT !.steps = Append(@, [pre |-> IF Yes(n + i, 4) THEN R(n + i, Outputs) ELSE "-", inv |-> Inv(n + i, ses.protos)])])
End == i = LEN + 1 /\ i' = 0 /\ UNCHANGED <<n, ses>>
Next == Begin \/ Step \/ End
Emit == i = LEN + 1 => PrintT("@@" \o ToJson([k |-> "cli", mode |-> ses.mode, steps |-> ses.steps]))
=============================================================================
