------------------------------- MODULE MCTunnel -------------------------------
(* Tunnel.tla, closed: every application and every fault does whatever it may. *)
EXTENDS Tunnel, Json, TLCExt
CONSTANTS Svs, Rcs, Relayed, PrintEdges
VARIABLES S, act
vars == <<S, act>>
Uuid(x) == "u-" \o x
RECURSIVE All(_, _, _)
All(T, X, isSv) == IF X = {} THEN T ELSE LET x == CHOOSE x \in X : TRUE
                   IN All(IF isSv THEN NewSv(T, x, Uuid(x)) ELSE NewRc(T, x, Uuid(x), x), X \ {x}, isSv)
\* time matters as "long enough" only
Still(T) == [T EXCEPT !.now = 0, !.sv = [o \in DOMAIN @ |-> [@[o] EXCEPT !.since = 0]]]
Init == S = All(All([Init0 EXCEPT !.proxy = TRUE], Svs, TRUE), Rcs, FALSE) /\ act = [k |-> "init"]
To(T, a) == S' = Still(T) /\ act' = a
B == Begin(S)
RECURSIVE Back(_, _)
Back(T, O) == IF O = {} THEN T ELSE LET o == CHOOSE o \in O : TRUE IN Back(IF CanRun(T, o) THEN Run(T, o) ELSE T, O \ {o})
Next == \/ \E o \in Svs : ~S.sv[o].want /\ To(Start(B, o), [k |-> "start", o |-> o])
        \/ \E o \in Svs : S.sv[o].want /\ To(Stop(B, o), [k |-> "stop", o |-> o])
        \/ \E c \in Rcs, o \in Svs : S.rc[c].s = "" /\ To(Connect(B, c, Uuid(o)), [k |-> "connect", o |-> c, s |-> o])
        \/ \E c \in Rcs : S.rc[c].s # "" /\ \/ To(Disconnect(B, c), [k |-> "disc", o |-> c])
                                             \/ To(Disconnect(B, c), [k |-> "skdisc", o |-> c])
                                             \/ To(SendC(B, c, c), [k |-> "send", o |-> c])
                                             \/ To(SendS(B, c, c), [k |-> "write", o |-> c])
        \/ S.proxy /\ To(ProxyDown(B), [k |-> "pdown"])
        \/ ~S.proxy /\ To(ProxyUp(B), [k |-> "pup"])
        \/ \E o \in Relayed : To(IF o \in Svs THEN CutSv(B, o) ELSE CutRc(B, o), [k |-> "cut", o |-> o])
        \/ \E o \in Relayed, v \in BOOLEAN : (IF o \in Svs THEN S.sv[o].reach ELSE S.rc[o].reach) # v /\ To(Reach(B, o, v), [k |-> "reach", o |-> o, v |-> v])
        \/ To(Back(B, Svs), [k |-> "adv"])
Fair == WF_vars(To(Back(B, Svs), [k |-> "adv"]))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair
View == [S EXCEPT !.out = Quiet]

Inv == /\ \A c \in Rcs : S.rc[c].s # "" => S.proxy /\ S.sv[S.rc[c].s].run
       /\ \A o \in Svs : S.sv[o].run => S.proxy /\ S.sv[o].want
\* bytes come out at the other end of the tunnel they were put into, once, and nowhere else
Pipe == [][ /\ \A e \in DOMAIN S'.out.rx : /\ act'.k \in {"send", "write"} /\ S.rc[act'.o].s # ""
                                           /\ e = (IF act'.k = "send" THEN SockOf(act'.o) ELSE act'.o) /\ S'.out.rx[e] = <<act'.o>>
            /\ (act'.k \in {"send", "write"} /\ S.rc[act'.o].s # "") => DOMAIN S'.out.rx # {} ]_vars
\* both ends are told of every beginning and every end
BothTold == [][ \A c \in Rcs :
                 /\ (S.rc[c].s = "" /\ S'.rc[c].s # "") => /\ [o |-> S'.rc[c].s, u |-> Uuid(c), n |-> c] \in S'.out.new /\ c \in DOMAIN S'.out.rem /\ S'.out.rem[c]
                                                          /\ S'.sv[S'.rc[c].s].u = Uuid(act'.s)
                 /\ (S.rc[c].s # "" /\ S'.rc[c].s = "") => c \in S'.out.gone /\ c \in DOMAIN S'.out.rem /\ ~S'.out.rem[c]
                 /\ (S.rc[c].s = S'.rc[c].s) => c \notin DOMAIN S'.out.rem /\ c \notin S'.out.gone ]_vars
\* an end of one tunnel is not the end of another one
Isolated == [][ act'.k \in {"disc", "skdisc", "connect", "send", "write"} => \A c \in Rcs \ {act'.o} : S'.rc[c].s = S.rc[c].s ]_vars
\* time alone ends nothing
Lasting == [][ act'.k = "adv" => /\ \A c \in Rcs : S'.rc[c].s = S.rc[c].s
                                 /\ \A o \in Svs : S.sv[o].run => S'.sv[o].run ]_vars
ComesBack == \A o \in Svs : []<>(CanRun(S, o) => S.sv[o].run)
Edges == PrintEdges => PrintT(<<"EDGE", TLCFP(View), ToJson(act'), TLCFP(View')>>)
=============================================================================
