-------------------------------- MODULE Cli ---------------------------------
(* The command line as a state machine over the files it may write.          *)
(* fs : output name -> content; content is "absent", "other" (something the  *)
(* command did not write) or the identity of a generated text. known is what *)
(* has been seen so far of the function from what an invocation asks for to  *)
(* the text it produces: the same request always yields the same text.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CliLangs == {"c", "csharp", "go", "rust", "swift", "typescript", "assemblyscript", "zig"}
Outputs == {"o1", "o2"}

\* an invocation: [lang, proto, good : the protocol is acceptable, out : "-" or an output, ns, indent, embed, gonr, rustnr, tsns, fault]
Faults == {"none", "nolang", "noproto", "badlang", "upperlang", "missing", "directory", "nsblank", "nsbytes", "badoption", "dangling", "positional"}
\* bytes that are no text in the namespace: may fail, or not matter where the namespace is not used
Open(c) == c.fault = "nsbytes"
Succeeds(c) == c.fault = "none" /\ c.good
\* an option for another language, an empty namespace and an empty indent ask for nothing
Key(c) == <<c.lang, c.proto, c.ns, c.indent, c.embed, c.lang = "go" /\ c.gonr, c.lang = "rust" /\ c.rustnr, c.lang = "typescript" /\ c.tsns>>

\* effects of an invocation that produces text t
Files(fs, c, t) == IF Succeeds(c) /\ c.out # "-" THEN [fs EXCEPT ![c.out] = t] ELSE fs
Learn(known, c, t) == IF Succeeds(c) THEN [x \in DOMAIN known \cup {Key(c)} |-> IF x = Key(c) THEN t ELSE known[x]] ELSE known

If(c, name) == IF c THEN <<>> ELSE <<name>>
(* r: [end, code, err : stderr not empty, out : length of stdout, text : identity of stdout without its last line end, nl : it ended in one, *)
(*     fs : output name -> content after the invocation, more : number of other files that appeared]                                         *)
StepV(fs, known, c, r) ==
  LET new == IF c.out = "-" THEN r.text ELSE r.fs[c.out] IN
  IF r.end # "exit" THEN <<"hang">>
  ELSE IF Open(c) /\ c.good /\ r.code = 0 THEN If(\A o \in Outputs \ {c.out} : r.fs[o] = fs[o], "touched")
  ELSE IF ~Succeeds(c) THEN
    If(r.code # 0, "accepted") \o (IF r.code = 0 THEN <<>> ELSE If(r.err, "silent") \o If(r.out = 0, "stdout") \o If(r.fs = fs, "touched") \o If(r.more = 0, "stray"))
  ELSE IF r.code # 0 THEN <<"failed">> \o If(r.out = 0, "stdout") \o If(r.fs = fs, "touched") \o If(r.more = 0, "stray")
  ELSE If(new # "absent" /\ new # "other" /\ new # "empty", "nocode")
       \o (IF c.out = "-" THEN If(r.nl, "lineend") ELSE If(r.out = 0, "stdout"))
       \o If(r.fs = Files(fs, c, new), "touched") \o If(r.more = 0, "stray")
       \o If(Key(c) \notin DOMAIN known \/ known[Key(c)] = new, "differs")
=============================================================================
