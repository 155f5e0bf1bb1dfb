---------------------------- MODULE TraceProgram ----------------------------
(***************************************************************************)
(* Judges recorded runs of the server program and of the tunnel client     *)
(* program.                                                                *)
(***************************************************************************)
EXTENDS Program, Integers, Json, IOUtils, TLCExt

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, S, skip, ndev
vars == <<i, S, skip, ndev>>

SeqSet(q) == {q[k] : k \in 1..Len(q)}
D(dev, f, x, o) == [n |-> i, c |-> "", dev |-> dev, role |-> "", f |-> f, e |-> x, o |-> o, k |-> 0]
Diff(dev, f, x, o) == IF x # o THEN {D(dev, f, ToString(x), ToString(o))} ELSE {}

\* the state after an event
Do(e) ==
    CASE e.k = "launch" -> Launch(S, e.tls)
      [] e.k = "ready"  -> Ready(S)
      [] e.k = "signal" -> Signal(S, e.sig)
      [] e.k = "exit"   -> End(S, e.res, SeqSet(e.files))
      [] e.k = "attach" -> Attach(S, e.c)
      [] e.k = "away"   -> Away(S, e.c)
      [] e.k = "reg"    -> Register(S, e.c, e.role, e.u, e.s)
      [] e.k = "tool"   -> StartTool(S, e.c, e.a, e.u)
      [] e.k = "toolin" -> IF e.yes /\ CanAttach(S, e.c) THEN ToolIn(S, e.c) ELSE S
      [] e.k = "toolend" -> EndTool(S, e.c)
      [] OTHER -> S

Judge(e) ==
    CASE e.k = "ready"  -> Diff("ready", "", "serving", e.res)
      [] e.k = "exit"   -> IF e.res \notin Ends(S) THEN {D("exit", S.pend, ToString(Ends(S)), e.res)}
                           \* the socket files there are then
                           ELSE IF SeqSet(e.files) \notin Leaves(S, e.res) THEN {D("left", "files", ToString(Leaves(S, e.res)), ToString(SeqSet(e.files)))} ELSE {}
      \* after the end: who still accepts a connection, who is still connected
      [] e.k = "left"   -> Diff("left", "listening", {}, SeqSet(e.listening))
                           \cup Diff("left", "connected", S.conn, SeqSet(e.connected))
      [] e.k = "attach" -> Diff("attach", e.tr, Up(S), e.ok)
      [] e.k = "reg"    -> Diff("reg", e.role, Outcome(S, e.c, e.role, e.u, e.s), e.res)
      [] e.k = "tool"   -> Diff("tool", "", IF Refused(e.a) THEN "refused" ELSE "runs", e.res)
      \* the tool got registered, or did not within the time
      [] e.k = "toolin" -> Diff("toolin", "", CanAttach(S, e.c), e.yes)
                           \cup (IF e.yes /\ CanAttach(S, e.c) THEN Diff("toolin", "name", Name(S.tools[e.c].a), e.name) \cup Diff("toolin", "uuid", S.tools[e.c].u, e.u) ELSE {})
      \* what the monitor lists
      [] e.k = "list"   -> Diff("list", "servers", {S.reg[c].u : c \in Servers(S)}, SeqSet(e.servers))
                           \cup Diff("list", "clients", {S.reg[c].u : c \in Clients(S)}, SeqSet(e.clients))
      \* data sent by a tunnel client to a tool, and what came back
      [] e.k = "echo"   -> Diff("echo", "", Echo(S, CHOOSE t \in ServerOf(S, S.reg[e.c].s) : TRUE, e.sent), e.got)
      \* text a tool sent as a tunnel client: about 100 letters and digits a second
      [] e.k = "text"   -> Diff("text", "alphabet", TRUE, e.alnum) \cup Diff("text", "whole", 0, e.n % 100) \cup Diff("text", "some", TRUE, e.n >= 300) \cup Diff("text", "rate", TRUE, e.n <= 100 * (e.ms \div 950 + 1))
      [] OTHER -> {}

Init == i = 1 /\ S = P0 /\ skip = TRUE /\ ndev = 0
Step ==
    /\ i <= Len(Tr)
    /\ i' = i + 1
    /\ LET e == Tr[i] IN
       IF e.k = "reset" THEN S' = P0 /\ skip' = FALSE /\ UNCHANGED ndev
       ELSE IF skip THEN UNCHANGED <<S, skip, ndev>>
       ELSE LET d == Judge(e) IN
            IF d = {} THEN S' = Do(e) /\ UNCHANGED <<skip, ndev>>
            ELSE /\ skip' = TRUE /\ ndev' = ndev + 1 /\ UNCHANGED S
                 /\ \A x \in d : PrintT(<<"DEV", ToJson(x)>>)
Next == Step
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Tr) + 1
=============================================================================
