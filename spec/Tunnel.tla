------------------------------- MODULE Tunnel -------------------------------
(***************************************************************************)
(* What an application sees of the whole: tunnel servers (sv) and remote   *)
(* connections (rc) of the client library, joined by one proxy.  A tunnel  *)
(* is a pair of byte streams between a remote connection and a socket of   *)
(* its tunnel server.                                                      *)
(*                                                                         *)
(*   S.proxy   the proxy is up                                             *)
(*   S.sv[o]   u: uuid, want: started by the application, run: registered, *)
(*             reach: the proxy's address answers, since: when what it     *)
(*             needs in order to run has last become true                  *)
(*   S.rc[c]   u, n: uuid and name, reach, s: its tunnel server or ""      *)
(*   S.out     what the applications are told in this step                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Nil == [x \in {} |-> 0]
PutKey(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Quiet == [run |-> Nil, new |-> {}, gone |-> {}, rem |-> Nil, rx |-> Nil]
Init0 == [proxy |-> FALSE, now |-> 0, sv |-> Nil, rc |-> Nil, out |-> Quiet]
Begin(S) == [S EXCEPT !.out = Quiet]

\* ends of a tunnel: the remote connection c itself, and the socket at the server
SockOf(c) == c \o "/s"
OnServer(S, o) == {c \in DOMAIN S.rc : S.rc[c].s = o}

Tell(S, e, p) == [S EXCEPT !.out.rx = PutKey(@, e, (IF e \in DOMAIN @ THEN @[e] ELSE <<>>) \o <<p>>)]

NewSv(S, o, u) == [S EXCEPT !.sv = PutKey(@, o, [u |-> u, want |-> FALSE, run |-> FALSE, reach |-> TRUE, since |-> S.now])]
NewRc(S, c, u, n) == [S EXCEPT !.rc = PutKey(@, c, [u |-> u, n |-> n, reach |-> TRUE, s |-> ""])]

End(S, c) == IF S.rc[c].s = "" THEN S
             ELSE [S EXCEPT !.rc[c].s = "", !.out.gone = @ \cup {c}, !.out.rem = PutKey(@, c, FALSE)]
RECURSIVE EndAll(_, _)
EndAll(S, C) == IF C = {} THEN S ELSE LET c == CHOOSE c \in C : TRUE IN EndAll(End(S, c), C \ {c})

Lose(S, o) == IF ~S.sv[o].run THEN S
              ELSE LET T == EndAll(S, OnServer(S, o))
                   IN [T EXCEPT !.sv[o].run = FALSE, !.sv[o].since = S.now, !.out.run = PutKey(@, o, FALSE)]
RECURSIVE LoseAll(_, _)
LoseAll(S, O) == IF O = {} THEN S ELSE LET o == CHOOSE o \in O : TRUE IN LoseAll(Lose(S, o), O \ {o})

CanRun(S, o) == S.proxy /\ S.sv[o].want /\ S.sv[o].reach
Run(S, o) == IF S.sv[o].run THEN S ELSE [S EXCEPT !.sv[o].run = TRUE, !.out.run = PutKey(@, o, TRUE)]

\* --------------------------------------------------------- the applications
Start(S, o) == LET T == [S EXCEPT !.sv[o].want = TRUE, !.sv[o].since = IF S.sv[o].want THEN @ ELSE S.now] IN IF CanRun(T, o) THEN Run(T, o) ELSE T
Stop(S, o) == LET T == Lose(S, o) IN [T EXCEPT !.sv[o].want = FALSE]
Serving(S, u) == {o \in DOMAIN S.sv : S.sv[o].run /\ S.sv[o].u = u}
Connect(S, c, u) ==
    IF S.rc[c].s # "" \/ ~S.proxy \/ ~S.rc[c].reach \/ Serving(S, u) = {} THEN S
    ELSE LET o == CHOOSE o \in Serving(S, u) : TRUE
         IN [S EXCEPT !.rc[c].s = o, !.out.new = @ \cup {[o |-> o, u |-> S.rc[c].u, n |-> S.rc[c].n]}, !.out.rem = PutKey(@, c, TRUE)]
Disconnect(S, c) == End(S, c)
SendC(S, c, p) == IF S.rc[c].s = "" THEN S ELSE Tell(S, SockOf(c), p)
SendS(S, c, p) == IF S.rc[c].s = "" THEN S ELSE Tell(S, c, p)

\* --------------------------------------------------------- the world around them
ProxyDown(S) == LET T == LoseAll(S, DOMAIN S.sv) IN [EndAll(T, DOMAIN S.rc) EXCEPT !.proxy = FALSE]
ProxyUp(S) == [S EXCEPT !.proxy = TRUE, !.sv = [o \in DOMAIN @ |-> [@[o] EXCEPT !.since = S.now]]]
CutSv(S, o) == Lose(S, o)
CutRc(S, c) == End(S, c)
Reach(S, x, v) == IF x \in DOMAIN S.sv THEN [S EXCEPT !.sv[x].reach = v, !.sv[x].since = S.now] ELSE [S EXCEPT !.rc[x].reach = v]

\* --------------------------------------------------------- promises
\* a tunnel server that is wanted and can be reached registers again by itself within this time (ms)
Again == 5000 + 1500
Overdue(S) == {o \in DOMAIN S.sv : CanRun(S, o) /\ ~S.sv[o].run /\ S.now - S.sv[o].since > Again}
=============================================================================
