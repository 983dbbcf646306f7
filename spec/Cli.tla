-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line: a command, its effect on the output files, its exit     *)
(* status, and what it prints.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Outputs,    \* names of output files that can be written
          MaxLen

Routines == {"dipole", "bipole", "loop", "analytical"}
\* Inputs, by what is in the file.
GoodIn == {"freq", "many", "time", "squeeze", "foreign", "verbose", "tuple"}
BadIn == {"absent", "suffix", "broken", "list", "missing", "unknown", "value",
          "number", "emptyfile", "nested"}
Flags == {"none", "version", "report", "both", "help", "wrongflag"}
Outs == {"stdout", "badsuffix", "baddir"} \cup Outputs

Cmd == [flag : Flags, n : 0..3,     \* how many of routine, input, output
        routine : Routines \cup {"gpr", "nothing"},
        input : GoodIn \cup BadIn, out : Outs]
VARIABLES files,   \* output file -> what it holds: 0 (absent), -1 (something
                   \* the user had there), or the number of the command
          log
vars == <<files, log>>

\* "tuple": a result of two parts, which can only be printed.
Splits(c) == c.input = "tuple" /\ c.routine = "analytical"
\* The effect of a command: [exit, prints, writes]
Outcome(c) ==
    LET R(e, p, w) == [exit |-> e, prints |-> p, writes |-> w]
    IN IF c.flag = "wrongflag" \/ (c.n >= 1 /\ c.routine \notin Routines)
       THEN IF c.flag = "help" THEN R("ok or usage", "usage", FALSE)
            ELSE R("usage", "nothing", FALSE)
       ELSE CASE c.flag = "help" -> R("ok", "usage", FALSE)
              [] c.flag \in {"version", "both"} -> R("ok", "version", FALSE)
              [] c.flag = "report" -> R("ok", "report", FALSE)
              [] c.flag = "none" ->
                 IF c.n < 2 THEN R("ok", "info", FALSE)
                 ELSE IF c.input \in BadIn THEN R("error", "nothing", FALSE)
                 ELSE IF c.n = 2 \/ c.out = "stdout" THEN R("ok", "result", FALSE)
                 ELSE IF c.out \notin Outputs \/ Splits(c)
                 THEN R("error", "nothing", FALSE)
                 ELSE R("ok", "nothing", TRUE)

Init == files \in [Outputs -> {0, -1}] /\ log = <<>>
Run(c) == LET o == Outcome(c)
          IN /\ files' = IF o.writes THEN [files EXCEPT ![c.out] = Len(log) + 1]
                         ELSE files
             /\ log' = Append(log, [cmd |-> c, o |-> o, before |-> files,
                                    after |-> files'])
\* (Commands are built from what matters for them.)
Next == /\ Len(log) < MaxLen
        /\ \E c \in Cmd :
             /\ (c.n < 1 => c.routine = "nothing") /\ (c.n >= 1 => c.routine # "nothing")
             /\ (c.n < 2 => c.input = "freq") /\ (c.n < 3 => c.out = "stdout")
             /\ (c.n = 3 => c.out # "stdout")
             /\ (c.flag # "none" => c.input \in {"freq", "absent"} /\ c.routine # "loop")
             /\ Run(c)
Spec == Init /\ [][Next]_vars

\* Whatever is not a success leaves all files; a success changes only its own.
Safe == [][\A f \in Outputs : files'[f] # files[f] =>
             /\ log'[Len(log')].o.exit = "ok" /\ log'[Len(log')].cmd.out = f
             /\ log'[Len(log')].cmd.n = 3]_vars
Export == Len(log) = MaxLen => PrintT("@C" \o ToJson([log |-> log]))
================================================================================
