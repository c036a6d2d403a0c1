------------------------------ MODULE Options -------------------------------
(* The configurations of the generator, enumerated; each one is a step. A    *)
(* configuration says which namespace the protocol declares, which one the   *)
(* command line asks for, the indent, whether the protocol is embedded, and  *)
(* whether the options of the single languages are given (to every language: *)
(* the options of the others must not matter).                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
FROM == atoi(IOEnv.VB_FROM)
N == atoi(IOEnv.VB_N)

FileNs == <<"own", "none">>
Over == <<"none", "other", "message", "struct">>
Indents == <<"", "\t", " ", "  ", "   ", "        ">>
Bools == <<FALSE, TRUE>>
Total == 2 * 4 * 6 * 2 * 2
Pick(s, i) == s[1 + (i % Len(s))]
Conf(c) == [file |-> Pick(FileNs, c), over |-> Pick(Over, c \div 2), indent |-> Pick(Indents, c \div 8), embed |-> Pick(Bools, c \div 48), own |-> Pick(Bools, c \div 96)]
\* the namespace the generated code lives in: what the command line asks for, else what the file says
Effective(o) == IF o.over # "none" THEN o.over ELSE o.file

VARIABLES n, cf
Init == n = FROM /\ cf = <<>>
Next == n < FROM + N /\ n < Total /\ n' = n + 1 /\ cf' = Conf(n)
Emit == n = FROM \/ PrintT("@@" \o ToJson([c |-> n - 1, eff |-> Effective(cf)] @@ cf))
\* no two numbers stand for the same configuration
Distinct == n = FROM \/ \A m \in 0..Total - 1 : Conf(m) = cf => m = n - 1
=============================================================================
