-------------------------------- MODULE IoFaults --------------------------------
(* Loading from, and saving to, streams and files that deliver in pieces, are interrupted, and fail.
   The data is N parts long (the replay maps part boundaries to bytes).  The environment decides at each
   call what happens; the library goes on after pieces and interruptions and stops at a failure. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, MaxInt, Kinds, Chunks, Slices, OutFile
VARIABLES op,        \* "read", "write", "file" (written through save_file) or "path" (odd paths) or "sweep"
          form,      \* what is transferred
          chunk,     \* bytes per call
          script,    \* what the environment did: <<part, event>>
          pos,       \* parts transferred
          status     \* "run", "ok" or the failure
vars == <<op, form, chunk, script, pos, status>>
Forms == {"text12", "text2007", "text2018", "bin12", "bin2010", "dxb", "dxbblock", "dxbrec"}
Paths == {"fresh", "over", "nodir", "isdir", "full", "missing", "readdir", "empty", "again"}
Init == /\ pos = 0 /\ status = "run" /\ script = <<>> /\ form \in Forms
        /\ \/ op \in {"read", "write"} /\ chunk \in Chunks
           \/ op = "file" /\ chunk = 0
           \/ op = "path" /\ chunk = 0
           \/ op \in {"sweepread", "sweepwrite", "sweepfile"} /\ chunk = 0
        /\ (form = "dxbrec" => op \in {"read", "sweepread"})   \* records of other programs
Ints == Cardinality({k \in 1..Len(script) : script[k][2] = "interrupted"})
Transfer == /\ op \in {"read", "write", "file"} /\ status = "run" /\ pos < N /\ pos' = pos + 1
            /\ UNCHANGED <<op, form, chunk, script, status>>
Interrupt == /\ op \in {"read", "write"} /\ status = "run" /\ Ints < MaxInt /\ script' = Append(script, <<pos, "interrupted">>)
             /\ UNCHANGED <<op, form, chunk, pos, status>>
(* a write that takes nothing is a failure to write *)
Fail == /\ op \in {"read", "write", "file"} /\ status = "run" /\ pos < N
        /\ \E k \in (IF op = "file" THEN {"full"} ELSE IF op = "write" THEN Kinds \cup {"zero"} ELSE Kinds), again \in BOOLEAN :
              \* "once": the stream would work again afterwards; the library must not go on
              /\ script' = Append(script, <<pos, k, IF again THEN "always" ELSE "once">>) /\ status' = k
        /\ UNCHANGED <<op, form, chunk, pos>>
Finish == /\ op \in {"read", "write", "file"} /\ status = "run" /\ pos = N /\ status' = "ok"
          /\ UNCHANGED <<op, form, chunk, script, pos>>
(* a failure at each single byte of the data, in slices *)
Sweep == /\ op \in {"sweepread", "sweepwrite", "sweepfile"} /\ status = "run" /\ \E s \in 0..(Slices - 1) : script' = <<<<s, "slice">>>> /\ status' = "sweep"
         /\ UNCHANGED <<op, form, chunk, pos>>
OddPath == /\ op = "path" /\ status = "run" /\ \E w \in Paths : script' = <<<<0, w>>>> /\ status' = IF w \in {"fresh", "over", "again"} THEN "ok" ELSE "error"
           /\ UNCHANGED <<op, form, chunk, pos>>
Next == Transfer \/ Interrupt \/ Fail \/ Finish \/ Sweep \/ OddPath
Spec == Init /\ [][Next]_vars /\ WF_vars(Transfer \/ Fail \/ Finish \/ Sweep \/ OddPath)
(* ---- properties on the model *)
Failures == IF op = "path" THEN {} ELSE {k \in 1..Len(script) : script[k][2] \in Kinds \cup {"zero", "full"}}
Complete == status = "ok" => (op = "path" \/ (pos = N /\ Failures = {}))                  \* success means everything was transferred
Reported == (Failures # {} => status = script[Len(script)][2]) /\ Cardinality(Failures) <= 1   \* a failure ends it and is what is reported
Pieces == (status # "run" /\ op \in {"read", "write"} /\ Failures = {}) => status = "ok"    \* pieces and interruptions make no difference
Ends == <>(status # "run")
Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == IF status = "run" THEN TRUE ELSE Append1(ToJson([op |-> op, form |-> form, chunk |-> chunk, script |-> script, n |-> N, slices |-> Slices, status |-> status]))
=============================================================================
