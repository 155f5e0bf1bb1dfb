----------------------------- MODULE TraceClient -----------------------------
(* Judges recorded executions of the real client library (see TraceProxy).   *)
EXTENDS ClientLib, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, L, skip, ndev
vars == <<i, L, skip, ndev>>

Has(e, f) == f \in DOMAIN e
ObsIds(e) == {e.obs[k].c : k \in 1..Len(e.obs)}
ObsMsgs(e, c) == IF c \in ObsIds(e) THEN e.obs[CHOOSE k \in 1..Len(e.obs) : e.obs[k].c = c].m ELSE <<>>
ObsClosed(e) == {e.obs[k].c : k \in {j \in 1..Len(e.obs) : e.obs[j].x}}
SeqSet(q) == {q[k] : k \in 1..Len(q)}
A2(l, d) == [l |-> l, d |-> d]
D0(c, dev, f) == [n |-> i, c |-> c, dev |-> dev, role |-> "", f |-> f, e |-> "", o |-> "", k |-> 0]

\* connections accepted during the step: bind the attempts
RECURSIVE Accept(_, _, _)
Accept(A, q, e) ==
    IF q = <<>> THEN A
    ELSE LET x == Head(q)
             l == A.l
             r == l.obj[x.o]
             can == r.up /\ r.ok /\ r.en /\ r.con = ""
             now == x.o \in l.want
             timed == r.kind = "tps" /\ e.k = "adv" /\ x.t >= r.fail + RetryAfter - RetrySlack
             bad == IF ~can THEN {D0(x.o, "unexpected-connect", "")} ELSE IF now \/ timed THEN {} ELSE {D0(x.o, "early-connect", ToString(x.t))}
             l1 == IF r.con # "" THEN l ELSE Connected([l EXCEPT !.now = IF x.t > @ THEN x.t ELSE @, !.want = @ \ {x.o}], x.o, x.c)
         IN Accept(A2(l1, A.d \cup bad), Tail(q), e)

RECURSIVE ItemsC(_, _, _)
ItemsC(l, c, q) == IF q = <<>> THEN l ELSE ItemsC(ItemC(l, c, Head(q)), c, Tail(q))
RECURSIVE ItemsJ(_, _, _)
ItemsJ(l, o, q) == IF q = <<>> THEN l ELSE ItemsJ(JMsg(l, o, Head(q)), o, Tail(q))

Do(l, e) ==
    CASE e.k = "new"    -> [l EXCEPT !.obj = Put(@, e.o, [NewObj(e.kind, e.u, e.n) EXCEPT !.ok = e.ok]),
                                     !.con = IF e.kind = "jrc" THEN Put(@, e.o, [o |-> e.o, calls |-> Nil]) ELSE @]
      [] e.k = "up"     -> [l EXCEPT !.obj[e.o].up = TRUE, !.obj[e.o].since = l.now]
      [] e.k = "down"   -> [l EXCEPT !.obj[e.o].up = FALSE]
      [] e.k = "start"  -> Start([l EXCEPT !.obj[e.o].url = e.url], e.o, e.s)
      [] e.k = "stop"   -> Stop(l, e.o)
      [] e.k = "hook"   -> [l EXCEPT !.obj[e.o].hook = [on |-> e.on, do |-> e.do, p |-> e.p, s |-> e.s]]
      [] e.k = "in"     -> ItemsC(l, e.c, e.items)
      [] e.k = "pclose" -> ProxyClose(l, e.c)
      [] e.k = "write"  -> Write(l, e.s, e.p)
      [] e.k = "disc"   -> Disc(l, e.s)
      [] e.k = "send"   -> Send(l, e.o, e.p)
      [] e.k = "jcall"  -> JCall(l, e.o, e.m)
      [] e.k = "jdata"  -> ItemsJ(l, e.o, e.items)
      [] OTHER          -> l

\* pings during the step
RECURSIVE Pings(_, _)
Pings(l, q) ==
    IF q = <<>> THEN l
    ELSE LET x == Head(q) IN
         Pings(IF Alive(l, x.c) THEN [l EXCEPT !.obj[l.con[x.c].o].spoke = x.t] ELSE l, Tail(q))
PingDevs(l, e) ==
    {D0(e.pings[k].c, "ping", "") : k \in {j \in 1..Len(e.pings) : ~Alive(l, e.pings[j].c) \/ (Alive(l, e.pings[j].c) /\ (l.obj[l.con[e.pings[j].c].o].kind # "tps" \/ l.obj[l.con[e.pings[j].c].o].ph # "run"))}}
    \cup {D0(e.pings[k].c, "ping-late", "") : k \in {j \in 1..Len(e.pings) : Alive(l, e.pings[j].c) /\
              e.pings[j].t - (IF \E h \in 1..(j - 1) : e.pings[h].c = e.pings[j].c
                              THEN e.pings[CHOOSE h \in 1..(j - 1) : e.pings[h].c = e.pings[j].c /\ \A g \in (h + 1)..(j - 1) : e.pings[g].c # e.pings[j].c].t
                              ELSE l.obj[l.con[e.pings[j].c].o].spoke) > PingWithin}}

\* requests carry ids that are not outstanding
RECURSIVE Ids(_, _)
Ids(A, q) ==
    IF q = <<>> THEN A
    ELSE LET x == Head(q) IN
         Ids(IF ~Alive(A.l, x.c) THEN A
             ELSE A2([A.l EXCEPT !.con[x.c].calls = Put(@, x.id, IF x.c \in DOMAIN A.l.obj THEN A.l.obj[x.c].ncall ELSE x.m)],
                     IF x.id \in DOMAIN A.l.con[x.c].calls THEN A.d \cup {D0(x.c, "dup-id", x.m)} ELSE A.d), Tail(q))

AdvDevs(l, e) ==
    IF e.k # "adv" THEN {}
    ELSE {D0(o, "no-reconnect", "") : o \in {x \in DOMAIN l.obj : LET r == l.obj[x] IN
              r.kind = "tps" /\ r.en /\ r.up /\ r.ok /\ r.con = "" /\ l.now - (IF r.since > r.fail THEN r.since ELSE r.fail) > RetryAfter + RetrySlack}}
         \cup {D0(o, "no-ping", "") : o \in {x \in DOMAIN l.obj : LET r == l.obj[x] IN r.kind = "tps" /\ r.ph = "run" /\ l.now - r.spoke > PingWithin}}

RECURSIVE FirstDiff(_, _, _)
FirstDiff(a, b, k) == IF k > Len(a) /\ k > Len(b) THEN 0 ELSE IF k > Len(a) \/ k > Len(b) THEN k ELSE IF a[k] # b[k] THEN k ELSE FirstDiff(a, b, k + 1)
Kind(q, k) == IF k > Len(q) THEN "end" ELSE q[k].t
Role(l, c) == IF c \in DOMAIN l.con THEN "con" ELSE IF c \in DOMAIN l.obj THEN l.obj[c].kind ELSE "sock"
Diff(l0, l, e) ==
    LET cs == (DOMAIN l.out) \cup ObsIds(e)
        ex(c) == IF c \in DOMAIN l.out THEN l.out[c] ELSE <<>>
        \* what the application writes to a departed socket while the connection is being ended by the library may still go out
        ok(c) == LET a == ex(c) b == ObsMsgs(e, c) IN a = b \/ (c \in l.cl /\ Len(b) > Len(a) /\ SubSeq(b, 1, Len(a)) = a /\ \A k \in (Len(a) + 1)..Len(b) : b[k].t \in {"frame", "req"})
        D(c, dev, f, x, o, k) == [n |-> i, c |-> c, dev |-> dev, role |-> Role(l0, c), f |-> f, e |-> x, o |-> o, k |-> k]
    IN {LET a == ex(c) b == ObsMsgs(e, c) k == FirstDiff(a, b, 1) IN D(c, "msg", "", Kind(a, k), Kind(b, k), k) : c \in {c2 \in cs : ~ok(c2)}}
       \cup {D(c, "unexpected-close", "", "", "", 0) : c \in ObsClosed(e) \ l.cl}
       \cup {D(c, "missing-close", "", "", "", 0) : c \in l.cl \ ObsClosed(e)}
       \cup {D(o, "no-connect", "", "", "", 0) : o \in l.want}
       \cup (IF e.k = "send" /\ e.ok # SendOk(l0, e.o) THEN {D(e.o, "send-result", "", "", "", 0)} ELSE {})
       \cup (IF e.k = "badstart" /\ e.ok THEN {D(e.o, "bad-start", "", "", "", 0)} ELSE {})

\* what the objects say about themselves
InfoDevs(l, e) ==
    IF e.k # "info" THEN {}
    ELSE UNION {LET x == e.objs[k] r == l.obj[x.o] s == Tells(r)
                    F(f, bad) == IF bad THEN {D0(x.o, "info", f)} ELSE {}
                IN F("run", x.run # s.run) \cup F("srv", x.srv # s.srv) \cup F("url", x.url # s.url)
                   \cup F("state", x.state \notin s.state \/ x.state # x.last)
                   \cup F("err", r.err # "any" /\ x.err # r.err)
                   \cup F("serr", r.kind = "tps" /\ ((s.fault = "no" /\ x.serr # "ErrorNoError") \/ (s.fault = "yes" /\ x.serr = "ErrorNoError"))) : k \in 1..Len(e.objs)}
         \cup UNION {LET x == e.socks[k] IN IF x.up # (x.s \in DOMAIN l.sk) \/ (x.up /\ x.a # l.sk[x.s].a) THEN {D0(Sk(x.s), "info", "socket")} ELSE {} : k \in 1..Len(e.socks)}

\* socket errors
Errs(e, o) == SelectSeq(e.errs, LAMBDA x : x.o = o)
LastErr(l0, l, e, o) ==
    LET q == Errs(e, o) r == l.obj[o] acc == \E k \in 1..Len(e.acc) : e.acc[k].o = o
    IN IF q # <<>> THEN (IF acc THEN "any" ELSE q[Len(q)].e)
       ELSE IF acc \/ (e.k = "start" /\ e.o = o) THEN "-1"
       ELSE IF (o \in DOMAIN l0.obj /\ l0.obj[o].hook.on # r.hook.on) \/ (e.k = "adv" /\ r.kind = "tps" /\ r.en /\ r.con = "") THEN "any"
       ELSE r.err
ErrDevs(l0, l, e) ==
    UNION {LET r == l.obj[o] q == Errs(e, o) IN
           (IF e.k = "start" /\ e.o = o /\ ~r.up /\ r.en /\ q = <<>> THEN {D0(o, "no-error", "start")} ELSE {})
           \cup (IF e.k = "adv" /\ r.kind = "tps" /\ r.en /\ ~r.up /\ r.con = "" /\ l0.obj[o].con = "" /\ l.now - l0.now > RetryAfter + RetrySlack /\ q = <<>> THEN {D0(o, "no-error", "retry")} ELSE {})
           \cup (IF r.con # "" /\ r.con = l0.obj[o].con /\ q # <<>> THEN {D0(o, "unexpected-error", "")} ELSE {})
           : o \in DOMAIN l.obj \cap DOMAIN l0.obj}

Init == i = 1 /\ L = Init0 /\ skip = TRUE /\ ndev = 0
Step ==
    /\ i <= Len(Tr)
    /\ i' = i + 1
    /\ LET e == Tr[i] IN
       IF e.k = "reset" THEN L' = Init0 /\ skip' = FALSE /\ UNCHANGED ndev
       ELSE IF skip THEN UNCHANGED <<L, skip, ndev>>
       ELSE LET l1 == Do(Begin(L), e)
                P  == PingDevs(l1, e)
                l2 == Pings(l1, e.pings)
                A1 == Accept(A2(l2, P), e.acc, e)
                l3 == IF e.k = "adv" THEN [A1.l EXCEPT !.now = e.to] ELSE A1.l
                A3 == Ids(A2(l3, A1.d), e.ids)
                d  == A3.d \cup Diff(L, A3.l, e) \cup AdvDevs(A3.l, e) \cup InfoDevs(A3.l, e) \cup ErrDevs(L, A3.l, e)
            IN /\ L' = [A3.l EXCEPT !.obj = [o \in DOMAIN @ |-> [@[o] EXCEPT !.err = LastErr(L, A3.l, e, o)]]]
               /\ IF d = {} THEN UNCHANGED <<skip, ndev>>
                  ELSE /\ skip' = TRUE /\ ndev' = ndev + 1
                       /\ \A x \in d : PrintT(<<"DEV", ToJson(x)>>)
                       /\ PrintT(<<"EXP", ToJson([n |-> i, out |-> A3.l.out, cl |-> A3.l.cl])>>)
Next == Step
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Tr) + 1
=============================================================================
