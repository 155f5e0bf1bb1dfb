------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* The programs as processes.                                              *)
(*                                                                         *)
(* The server program is launched, serves, is asked to end by a signal at  *)
(* any moment (also while it is busy) or is killed, and is launched again  *)
(* on the same machine, where a killed run has left its socket files.      *)
(*                                                                         *)
(* The tunnel client program attaches to it through the client library: as *)
(* a tunnel server that echoes or is silent, and that comes back after the *)
(* server program was away, or as a tunnel client that sends text.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Quits == {"SIGTERM", "SIGINT", "SIGQUIT", "SIGHUP"}
SocketFiles == {"unix", "monitor"}

\* phase: none, starting, serving, gone.  pend: the signal sent and not yet answered by the end of the process
\* files: the socket files there are.  conn: connections of peers.  reg: connection -> [u, role, s].  tools: the tunnel client programs
P0 == [phase |-> "none", pend |-> "", exit |-> "", files |-> {}, conn |-> {}, reg |-> <<>>, tools |-> <<>>, tls |-> FALSE]

Drop(f, ks) == [k \in DOMAIN f \ ks |-> f[k]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

----------------------------------------------------------------------------
(* the server program *)
Up(S) == S.phase = "serving"
Launch(S, tls) == [S EXCEPT !.phase = "starting", !.pend = "", !.exit = "", !.tls = tls]
\* stale socket files do not keep it from serving
Ready(S) == [S EXCEPT !.phase = "serving", !.files = SocketFiles]
Signal(S, sig) == IF S.phase \in {"starting", "serving"} THEN [S EXCEPT !.pend = sig] ELSE S

\* how the process may end: in good order if it was serving; before that the signal may find no handler yet
Ends(S) == IF S.pend = "" THEN {}
           ELSE IF S.pend = "SIGKILL" THEN {"by SIGKILL"}
           ELSE IF S.phase = "serving" THEN {"exit 0"} ELSE {"exit 0", "by " \o S.pend}
\* nothing of a run remains but the socket files of one that was killed
Leaves(S, how) == IF how = "exit 0" THEN {{}} ELSE IF S.phase = "starting" THEN SUBSET SocketFiles ELSE {S.files}
End(S, how, files) == [S EXCEPT !.phase = "gone", !.pend = "", !.exit = how, !.conn = {}, !.reg = <<>>, !.files = files]

----------------------------------------------------------------------------
(* peers *)
Servers(S) == {c \in DOMAIN S.reg : S.reg[c].role = "s"}
Clients(S) == {c \in DOMAIN S.reg : S.reg[c].role = "c"}
Holder(S, u) == {c \in DOMAIN S.reg : S.reg[c].u = u}
ServerOf(S, u) == {c \in Servers(S) : S.reg[c].u = u}
Outcome(S, c, role, u, s) ==
    IF c \in DOMAIN S.reg \/ Holder(S, u) # {} THEN "AlreadyRegistered"
    ELSE IF role = "c" /\ ServerOf(S, s) = {} THEN "ServerNotFound" ELSE "NoError"
Attach(S, c) == IF Up(S) THEN [S EXCEPT !.conn = @ \cup {c}] ELSE S
\* the clients of a tunnel server end with it
Away(S, c) ==
    LET u == IF c \in Servers(S) THEN S.reg[c].u ELSE ""
        gone == {c} \cup (IF u = "" THEN {} ELSE {x \in Clients(S) : S.reg[x].s = u})
    IN [S EXCEPT !.conn = @ \ gone, !.reg = Drop(@, gone)]
Register(S, c, role, u, s) ==
    IF c \notin S.conn THEN S
    ELSE IF Outcome(S, c, role, u, s) = "NoError" THEN [S EXCEPT !.reg = Put(@, c, [role |-> role, u |-> u, s |-> s])]
    ELSE Away(S, c)

----------------------------------------------------------------------------
(* the tunnel client program; an argument that was not given is "" *)
Refused(a) == \/ a.server /\ a.client
              \/ a.url = "bad"
              \/ a.client /\ a.suuid \in {"", "bad"}
Mode(a) == IF a.client THEN "c" ELSE "s"       \* without either it is a tunnel server
Name(a) == IF a.name # "" THEN a.name ELSE IF Mode(a) = "s" THEN "Server connection" ELSE "Client connection"
\* a certificate nobody vouches for is accepted only if told to
Trusts(S, a) == a.scheme \in (IF S.tls THEN {"ssl", "wss"} ELSE {"tcp", "ws"}) /\ (S.tls => a.insecure)
\* t: its connection; the UUID is the given one, or any other
StartTool(S, t, a, u) == IF Refused(a) THEN S ELSE [S EXCEPT !.tools = Put(@, t, [a |-> a, u |-> u])]
\* can it be registered with the proxy as things are?
CanAttach(S, t) == LET a == S.tools[t].a IN
    /\ Up(S) /\ Trusts(S, a) /\ t \notin S.conn
    /\ Outcome(S, t, Mode(a), S.tools[t].u, a.suuid) = "NoError"
ToolIn(S, t) == LET a == S.tools[t].a IN Register(Attach(S, t), t, Mode(a), S.tools[t].u, a.suuid)
EndTool(S, t) == [Away(S, t) EXCEPT !.tools = Drop(@, {t})]
\* what comes back from the tool when a tunnel client sends it data
Echo(S, t, data) == IF S.tools[t].a.random THEN data ELSE ""
============================================================================
