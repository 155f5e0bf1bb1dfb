------------------------------ MODULE MCClient ------------------------------
(* ClientLib.tla, closed: applications do whatever they may, also from within *)
(* the library's signals, and every connection leads to a proxy which accepts *)
(* and refuses, announces, sends and hangs up as it likes.                    *)
EXTENDS ClientLib, Json, TLCExt
CONSTANTS Tpss, Trcs, Jrcs, Addrs, Ids, Hooked, PrintEdges
VARIABLES L, act
vars == <<L, act>>
Objs == Tpss \cup Trcs \cup Jrcs
Kind(o) == IF o \in Tpss THEN "tps" ELSE IF o \in Trcs THEN "trc" ELSE "jrc"
Srv == "sv"
Hooks(o) == IF o \notin Hooked THEN {}
            ELSE IF o \in Tpss THEN {"rx", "new", "gone", "up", "down"} \X {"stop"} \cup {"rx", "new", "down"} \X {"write", "disc"} \cup {<<"down", "start">>}
            ELSE {"rx", "up", "down"} \X {"stop", "send"} \cup {<<"down", "start">>}
NoHook == [on |-> "", do |-> "", p |-> "", s |-> ""]

\* connections are named after their object, sockets after object and address; time matters as "long enough" only
RECURSIVE Connects(_, _)
Connects(M, O) == IF O = {} THEN M ELSE LET o == CHOOSE o \in O : TRUE IN Connects(Connected(M, o, "c" \o o), O \ {o})
Key(M, k) == M.sk[k].a + (IF M.sk[k].t = CHOOSE t \in Tpss : TRUE THEN 0 ELSE 10)
Reqs(M, c) == IF c \in DOMAIN M.out THEN {M.out[c][i].m : i \in {j \in DOMAIN M.out[c] : M.out[c][j].t = "req"}} \cap {"Hello", "RegisterServer", "RegisterClient"} ELSE {}
Canon(M) ==
    LET ks == {Key(M, k) : k \in DOMAIN M.sk}
    IN [M EXCEPT !.now = 0, !.nk = 100, !.want = {},
                 !.obj = [o \in DOMAIN @ |-> [@[o] EXCEPT !.fail = 0, !.spoke = 0, !.since = 0, !.ncall = 0]],
                 !.sk = [n \in ks |-> M.sk[CHOOSE k \in DOMAIN M.sk : Key(M, k) = n]],
                 !.con = [c \in DOMAIN @ |-> IF @[c].o \in Jrcs THEN @[c] ELSE [@[c] EXCEPT !.calls = [m \in (DOMAIN @) \cup Reqs(M, c) |-> m]]]]
To(M, a) == L' = Canon(Connects(M, M.want)) /\ act' = a
B == Begin(L)
Con(o) == L.obj[o].con
Socks(o) == {k \in DOMAIN L.sk : L.sk[k].t = o}
RECURSIVE MkObjs(_, _)
MkObjs(M, O) == IF O = {} THEN M
                ELSE LET o == CHOOSE o \in O : TRUE
                         M1 == [M EXCEPT !.obj = Put(@, o, NewObj(Kind(o), "u-" \o o, "n-" \o o)), !.con = IF o \in Jrcs THEN Put(@, o, [o |-> o, calls |-> Nil]) ELSE @]
                     IN MkObjs(M1, O \ {o})
Init == L = Canon(MkObjs(Init0, Objs)) /\ act = [k |-> "init"]

\* what a proxy may say on a running connection of o
Says(o) ==
    \/ \E a \in Addrs : \/ o \in Tpss /\ (\A k \in Socks(o) : L.sk[k].a # a) /\ To(ItemC(B, Con(o), [k |-> "conn", a |-> a, u |-> "u", n |-> "n", p |-> "p"]), [k |-> "conn", o |-> o, a |-> a])
                        \/ o \in Tpss /\ To(ItemC(B, Con(o), [k |-> "gone", a |-> a]), [k |-> "gone", o |-> o, a |-> a])
                        \/ o \in Tpss /\ To(ItemC(B, Con(o), [k |-> "frame", a |-> a, p |-> "x"]), [k |-> "frame", o |-> o, a |-> a])
    \/ o \in Trcs /\ To(ItemC(B, Con(o), [k |-> "raw", p |-> "x"]), [k |-> "raw", o |-> o])
    \/ o \in Tpss /\ To(ItemC(B, Con(o), [k |-> "junk"]), [k |-> "junk", o |-> o])
Proxy(o) ==
    /\ o \notin Jrcs /\ Con(o) # ""
    /\ \/ L.obj[o].ph = "run" /\ Says(o)
       \/ \E m \in DOMAIN L.con[Con(o)].calls, v \in {"ok", "refuse", "fail"} :
             /\ (m = "Hello" => v # "refuse")
             /\ To(ItemC(B, Con(o), [k |-> "resp", id |-> m, ok |-> v # "fail", r |-> IF v = "ok" THEN "NoError" ELSE "Other"]), [k |-> "resp", o |-> o, m |-> m, v |-> v])
       \/ ~(o \in Trcs /\ L.obj[o].ph = "run") /\ To(ItemC(B, Con(o), [k |-> "resp", id |-> "stray", ok |-> FALSE, r |-> ""]), [k |-> "stray", o |-> o])
       \/ To(ProxyClose(B, Con(o)), [k |-> "pclose", o |-> o])
App(o) ==
    /\ o \notin Jrcs
    /\ \/ ~L.obj[o].up /\ To([B EXCEPT !.obj[o].up = TRUE], [k |-> "up", o |-> o])
       \/ L.obj[o].up /\ To([B EXCEPT !.obj[o].up = FALSE], [k |-> "down", o |-> o])
       \/ (Con(o) = "" \/ L.obj[o].hook.on = "") /\ To(Start(B, o, Srv), [k |-> "start", o |-> o])
       \/ To(Stop(B, o), [k |-> "stop", o |-> o])
       \/ \E h \in Hooks(o) : L.obj[o].hook.on = "" /\ To([B EXCEPT !.obj[o].hook = [on |-> h[1], do |-> h[2], p |-> "h", s |-> Srv]], [k |-> "hook", o |-> o, on |-> h[1], do |-> h[2]])
       \/ \E k \in Socks(o) : \/ To(Write(B, k, "y"), [k |-> "write", o |-> o, a |-> L.sk[k].a])
                              \/ To(Disc(B, k), [k |-> "disc", o |-> o, a |-> L.sk[k].a])
       \/ o \in Trcs /\ To(Send(B, o, "y"), [k |-> "send", o |-> o])
Calls(o) == L.con[o].calls
Rpc(o) ==
    /\ o \in Jrcs
    /\ \/ \E i \in Ids \ DOMAIN Calls(o) : To([JCall(B, o, "Ping") EXCEPT !.con[o].calls = Put(@, i, i)], [k |-> "jcall", o |-> o, i |-> i])
       \/ \E i \in Ids : To(JMsg(B, o, [k |-> "resp", id |-> i, p |-> i]), [k |-> "jresp", o |-> o, i |-> i])
       \/ \E a \in Addrs : \/ To(JMsg(B, o, [k |-> "conn", a |-> a, u |-> "u", n |-> "n", p |-> "p"]), [k |-> "jconn", o |-> o, a |-> a])
                           \/ To(JMsg(B, o, [k |-> "gone", a |-> a]), [k |-> "jgone", o |-> o, a |-> a])
Due == {o \in Tpss : L.obj[o].en /\ L.obj[o].up /\ L.obj[o].ok /\ Con(o) = ""}
Adv == Tpss \cup Trcs # {} /\ To([B EXCEPT !.want = Due], [k |-> "adv"])
Next == (\E o \in Objs : App(o) \/ Proxy(o) \/ Rpc(o)) \/ Adv
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Adv)
View == [L EXCEPT !.out = Nil, !.cl = {}]

---------------------------------------------------------------------------
Inv == RunHasCon(L) /\ SocksOnlyWhenRunning(L) /\ SockAddrUnique(L) /\ StoppedIsIdle(L)
Got(x) == IF x \in DOMAIN L'.out THEN L'.out[x] ELSE <<>>
Sel(q, T) == SelectSeq(q, LAMBDA m : m.t \in T)
N(q) == Len(q)
Running(M, o) == M.obj[o].ph = "run"
Act(k, o) == act'.k = k /\ act'.o = o
Hooking(o, do) == L.obj[o].hook.on # "" /\ L.obj[o].hook.do = do /\ L'.obj[o].hook.on = ""
\* the application is told of every change of the state, and of nothing else (C17, C19)
Told == [][ \A o \in Tpss \cup Trcs :
              LET f == Sel(Got(o), {"running", "remote"})
              IN /\ \A i \in 1..N(f) : f[i].v = ((i % 2 = 1) # Running(L, o))
                 /\ Running(L', o) = (Running(L, o) # (N(f) % 2 = 1)) ]_vars
\* Hello first, then the registration, once each; running after the proxy accepted both (C17, C19)
Shake == [][ \A o \in Tpss \cup Trcs :
               LET c == "c" \o o
                   q == Sel(Got(c), {"req"})
                   regs == {i \in 1..N(q) : q[i].m \in {"RegisterServer", "RegisterClient"}}
                   hellos == {i \in 1..N(q) : q[i].m = "Hello"}
               IN /\ Cardinality(regs) <= 1 /\ Cardinality(hellos) <= 1
                  /\ regs # {} => Act("resp", o) /\ act'.m = "Hello" /\ act'.v = "ok"
                  /\ \A i \in regs : (q[i].m = "RegisterServer") = (o \in Tpss) /\ q[i].u = "u-" \o o /\ q[i].n = "n-" \o o /\ (o \in Trcs => q[i].s = Srv)
                  /\ hellos # {} => L'.obj[o].con = c /\ L'.obj[o].ph = "hello" /\ L'.obj[o].en
                  /\ (Running(L', o) /\ ~Running(L, o)) => Act("resp", o) /\ act'.m \in {"RegisterServer", "RegisterClient"} /\ act'.v = "ok" ]_vars
\* a refused or failed step of the handshake ends the connection, and so do stop and the proxy
Ends == [][ \A o \in Tpss \cup Trcs :
              /\ (Act("resp", o) /\ act'.v # "ok") => L'.obj[o].ph # "run" /\ ("c" \o o) \in L'.cl
              /\ (Act("stop", o) /\ Con(o) # "") => ("c" \o o) \in L'.cl
              /\ (Con(o) # "" /\ L'.obj[o].con = "") => (("c" \o o) \in L'.cl \/ Act("pclose", o)) ]_vars
\* sockets: announced once per client, ended once and told so, data to the right one (C18)
Sockets == [][ \A o \in Tpss :
                 LET n == Got(o \o "/s")
                     live == {L.sk[k].a : k \in Socks(o)}
                     then == {L'.sk[k].a : k \in {j \in DOMAIN L'.sk : L'.sk[j].t = o}}
                 IN /\ N(n) = (IF Act("conn", o) THEN 1 ELSE 0)
                    /\ \A i \in 1..N(n) : n[i].a = act'.a
                    /\ \A k \in Socks(o) : /\ N(Sel(Got(Sk(k)), {"gone"})) = (IF L.sk[k].a \in then THEN 0 ELSE 1)
                                           /\ N(Sel(Got(Sk(k) \o "/d"), {"del"})) = N(Sel(Got(Sk(k)), {"gone"}))
                                           /\ N(Sel(Got(Sk(k)), {"data"})) = (IF Act("frame", o) /\ act'.a = L.sk[k].a THEN 1 ELSE 0)
                    /\ then \ live # {} => Act("conn", o) /\ then \ live = {act'.a}
                    /\ (live \ then # {} /\ Running(L', o)) => Act("gone", o) /\ live \ then = {act'.a} ]_vars
\* what is written comes out on the wire, with the address of the socket, and nothing else does
Wire == [][ \A o \in Tpss \cup Trcs :
              LET q == Sel(Got("c" \o o), {"frame", "raw"})
              IN /\ (Act("write", o) => q = <<[t |-> "frame", a |-> act'.a, p |-> "y"]>>)
                 /\ (Act("send", o) => (q # <<>>) = Running(L, o))
                 /\ (q # <<>> => Act("write", o) \/ Act("send", o) \/ Hooking(o, "write") \/ Hooking(o, "send"))
                 /\ (\E i \in 1..N(Got("c" \o o)) : Got("c" \o o)[i].t = "req" /\ Got("c" \o o)[i].m = "DisconnectClient") => Act("disc", o) \/ Hooking(o, "disc")
                 /\ (o \in Trcs => N(Sel(Got(o), {"data"})) = (IF Act("raw", o) THEN 1 ELSE 0)) ]_vars
\* objects do not touch each other
Isolated == [][ \A o \in Objs : (act'.k # "adv" /\ act'.o # o) => L'.obj[o] = L.obj[o] /\ Got(o) = <<>> /\ ("c" \o o) \notin L'.cl ]_vars
\* connections come about when asked for, or as time goes by for a tunnel server which is started
Retry == [][ \A o \in Tpss \cup Trcs : (Con(o) = "" /\ L'.obj[o].con # "") =>
               /\ L'.obj[o].en /\ L'.obj[o].up
               /\ Act("start", o) \/ (act'.k = "adv" /\ o \in Tpss) \/ Hooking(o, "start") ]_vars
ComesBack == \A o \in Tpss : []<>(L.obj[o].en /\ L.obj[o].up => L.obj[o].con # "")
\* the RPC layer: a response completes the call with its id, once (C20)
RpcOnce == [][ \A o \in Jrcs :
                 LET d == Sel(Got(o), {"done"})
                 IN /\ N(d) = (IF Act("jresp", o) /\ act'.i \in DOMAIN Calls(o) THEN 1 ELSE 0)
                    /\ \A i \in 1..N(d) : d[i].n = act'.i /\ d[i].p = act'.i /\ DOMAIN L'.con[o].calls = DOMAIN Calls(o) \ {act'.i}
                    /\ Act("jcall", o) => DOMAIN L'.con[o].calls = DOMAIN Calls(o) \cup {act'.i} /\ N(Sel(Got(o), {"sent"})) = 1
                    /\ N(Sel(Got(o), {"conn"})) = (IF Act("jconn", o) THEN 1 ELSE 0) /\ N(Sel(Got(o), {"gone"})) = (IF Act("jgone", o) THEN 1 ELSE 0) ]_vars
Edges == PrintEdges => PrintT(<<"EDGE", TLCFP(View), ToJson(act'), TLCFP(View')>>)
=============================================================================
