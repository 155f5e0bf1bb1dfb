----------------------------- MODULE TraceProxy -----------------------------
(***************************************************************************)
(* Judges executions recorded from the real proxy.  A trace is a sequence  *)
(* of events; each event is one stimulus (a connect, a chunk of input, a   *)
(* close, time passing, several of them at once, ...) together with        *)
(* everything the peers observed until the proxy was quiet again.  The     *)
(* specification's operators compute what they may observe; what differs   *)
(* is printed and the rest of that scenario (until the next reset) is      *)
(* skipped.                                                                *)
(***************************************************************************)
EXTENDS Proxy, Json, IOUtils, TLCExt

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i,      \* next event
          S,      \* state of the specification
          F,      \* connections whose own output is not judged (they send arbitrary bytes)
          skip,   \* a deviation was found in this scenario
          ndev
vars == <<i, S, F, skip, ndev>>

SeqSet(q) == {q[k] : k \in 1..Len(q)}
Has(e, f) == f \in DOMAIN e
ObsIds(e) == {e.obs[k].c : k \in 1..Len(e.obs)}
ObsMsgs(e, c) == IF c \in ObsIds(e) THEN e.obs[CHOOSE k \in 1..Len(e.obs) : e.obs[k].c = c].m ELSE <<>>
ObsClosed(e) == {e.obs[k].c : k \in {j \in 1..Len(e.obs) : e.obs[j].x}}
ObsBytes(e, c) == IF c \in ObsIds(e) THEN e.obs[CHOOSE k \in 1..Len(e.obs) : e.obs[k].c = c].nb ELSE 0

\* d: address deviations found on the way
Acc(s, d) == [s |-> s, d |-> d]
BoundAddr(s, e, it) ==
    LET vs == ServerOf(s, it.s) IN
    IF vs = {} THEN 0
    ELSE LET q == ObsMsgs(e, CHOOSE v \in vs : TRUE)
             ks == {k \in 1..Len(q) : q[k].t = "conn" /\ q[k].u = it.u}
         IN IF ks = {} THEN 0 ELSE q[CHOOSE k \in ks : TRUE].a

ItemT(A, c, it, e) ==
    IF it.k # "RegisterClient" \/ ~Live(A.s, c) THEN Acc(Item(A.s, c, it, 0), A.d)
    ELSE LET a  == BoundAddr(A.s, e, it)
             s1 == Item(A.s, c, it, a)
             ok == a = 0 \/ ~Known(s1, c) \/ s1.conn[c].role # "client" \/ s1.conn[c].srv = ""
                   \/ MayHandOut(A.s, s1.conn[c].srv, a, AddrMin, AddrMax)
             kind == CASE a < AddrMin \/ a > AddrMax -> "addr-range"
                       [] a \in InUse(A.s, s1.conn[c].srv) -> "addr-dup"
                       [] OTHER -> "addr-early"
         IN Acc(s1, IF ok THEN A.d ELSE A.d \cup {[n |-> 0, c |-> c, dev |-> kind, role |-> "client", f |-> ToString(a), e |-> "", o |-> "", k |-> 0]})

RECURSIVE Items(_, _, _, _)
Items(A, c, q, e) == IF q = <<>> THEN A ELSE Items(ItemT(A, c, Head(q), e), c, Tail(q), e)

RECURSIVE Closings(_, _)
Closings(s, x) ==
    IF x = <<>> THEN s
    ELSE LET c == Head(x).c
             t == Head(x).t
             s0 == [s EXCEPT !.now = IF t > @ THEN t ELSE @]
         IN IF Known(s0, c) /\ Deadline(s0, c) # -1 /\ t >= Deadline(s0, c) - Slack(Span(s0, c)) /\ t <= Deadline(s0, c) + Slack(Span(s0, c))
            THEN Closings(IF s0.conn[c].ph = "hs" THEN Gone(s0, c) ELSE Kill(s0, c), Tail(x))
            ELSE Closings(s0, Tail(x))
Late(s, to) == {c \in Ids(s) \ F : Deadline(s, c) # -1 /\ Deadline(s, c) + Slack(Span(s, c)) < to}

\* Peers that do not read what the proxy has for them: they do not notice their end, and the transport takes its time
\* to let them go, but not for ever.
DeafLate(s, e) == IF Has(e, "deaf") THEN SeqSet(e.deaf) \cap Late(s, e.to) ELSE {}
Deafen(s, cs) == [s EXCEPT !.conn = [c \in DOMAIN @ |-> IF c \in cs THEN [@[c] EXCEPT !.async = TRUE] ELSE @[c]]]

RECURSIVE HoldAll(_, _, _)
HoldAll(s, v, q) ==
    IF q = <<>> THEN s
    ELSE LET h == Head(q)
             r == [NewConn(s, "open", "Fake0", h.p, FALSE) EXCEPT !.role = "client", !.uuid = h.u, !.name = h.n, !.srv = v, !.addr = h.a]
         IN HoldAll([s EXCEPT !.conn = PutKey(@, h.c, r)], v, Tail(q))
ChurnDevs(s, e) ==
    LET D(kind, f) == [n |-> 0, c |-> e.srv, dev |-> kind, role |-> "server", f |-> f, e |-> "", o |-> "", k |-> 0]
    IN (IF e.bad > 0 THEN {D("churn-bad", e.why)} ELSE {})
       \cup (IF \E k \in 1..Len(e.runs) : e.runs[k][1] < AddrMin \/ e.runs[k][2] > AddrMax THEN {D("addr-range", "")} ELSE {})
       \cup (IF \E j, k \in 1..Len(e.held) : j # k /\ e.held[j].a = e.held[k].a THEN {D("addr-dup", "")} ELSE {})
       \cup (IF \E j \in 1..Len(e.held), k \in 1..Len(e.runs) :
                    e.held[j].a >= e.runs[k][1] /\ e.held[j].a <= e.runs[k][2]
                    /\ \E k2 \in 1..(k - 1) : e.held[j].a >= e.runs[k2][1] /\ e.held[j].a <= e.runs[k2][2]
             THEN {D("addr-dup", "held")} ELSE {})
       \cup (IF e.mind <= (AddrMax - AddrMin) - Len(e.held) - 1 - s.hist[e.srv].peak THEN {D("addr-early", ToString(e.mind))} ELSE {})

RECURSIVE Do(_, _, _)
DoOne(A, o, e) ==
    LET s == A.s IN
    CASE o.k = "open"   -> Acc(Open(s, o.c, o.tr, o.peer, o.async), A.d)
      [] o.k = "openhs" -> Acc(OpenHs(s, o.c, o.tr, o.peer), A.d)
      [] o.k = "enc"    -> Acc(Encrypted(s, o.c), A.d)
      [] o.k = "in"     -> IF ~Known(s, o.c) THEN A ELSE Items(Acc(Hear(s, o.c, o.n), A.d), o.c, o.items, e)
      [] o.k = "close"  -> Acc(PeerClose(s, o.c), A.d)
      [] o.k = "adv"    -> LET s1 == Closings(s, o.x)
                                 s2 == KillAll(s1, DeafLate(s1, o))
                             IN Acc([s2 EXCEPT !.now = o.to], A.d)
      [] o.k = "deafen" -> Acc(Deafen(s, SeqSet(o.deaf)), A.d)
      [] o.k = "hears"  -> Acc([s EXCEPT !.conn = [c \in DOMAIN @ |-> IF c \in SeqSet(o.deaf) THEN [@[c] EXCEPT !.async = FALSE] ELSE @[c]]], A.d)
      [] o.k = "churn"  -> LET s1 == HoldAll(s, o.srv, o.held)
                           IN Acc([s1 EXCEPT !.hist[o.srv].h = @ \o o.runs, !.hist[o.srv].peak = @ + Len(o.held) + 1], A.d \cup ChurnDevs(s, o))
      [] o.k = "stop"   -> Acc(StopProxy(s), A.d)
      [] o.k = "start"  -> Acc(StartProxy(s, o.inact, o.name, SeqSet(o.up)), A.d)
      [] o.k = "probe"  -> Acc(s, A.d \cup (IF o.ok # (o.what \in s.up) THEN {[n |-> 0, c |-> o.what, dev |-> "probe", role |-> "", f |-> "", e |-> "", o |-> "", k |-> 0]} ELSE {}))
      [] o.k = "kept"   -> LET dev(f) == [n |-> 0, c |-> "", dev |-> "kept", role |-> "", f |-> f, e |-> ToString(Cardinality(Sockets(s))), o |-> "", k |-> o.socks] IN
                           Acc(s, A.d \cup (IF \A c \in Ids(s) : s.conn[c].ph # "closing" THEN (IF o.socks # Cardinality(Sockets(s)) THEN {dev("sockets")} ELSE {}) ELSE {})
                                     \cup (IF Idle(s) /\ o.objects > 0 THEN {dev("objects")} ELSE {}))
      [] o.k = "monopen"  -> Acc(MonOpen(s, o.c), A.d)
      [] o.k = "monclose" -> Acc(MonClose(s, o.c), A.d)
      [] o.k = "monreq" -> Acc(IF o.bad /\ o.c \in s.mons THEN MonKill(s, o.c) ELSE s,
                               A.d \cup (IF Len(o.snaps) # Len(o.want) THEN {[n |-> 0, c |-> o.c, dev |-> "snapshots", role |-> "monitor", f |-> ToString(Len(o.snaps)), e |-> ToString(Len(o.want)), o |-> "", k |-> 0]} ELSE {}))
      [] o.k \in {"par", "seq"} -> Do(A, o.ops, e)
      [] OTHER          -> A
Do(A, q, e) == IF q = <<>> THEN A ELSE Do(DoOne(A, Head(q), e), Tail(q), e)

Perms(q) == {[k \in 1..Len(q) |-> q[p[k]]] : p \in {f \in [1..Len(q) -> 1..Len(q)] : \A a, b \in 1..Len(q) : a # b => f[a] # f[b]}}

---------------------------------------------------------------------------
RECURSIVE FirstDiff(_, _, _)
FirstDiff(a, b, k) == IF k > Len(a) /\ k > Len(b) THEN 0
                      ELSE IF k > Len(a) \/ k > Len(b) THEN k
                      ELSE IF a[k] # b[k] THEN k ELSE FirstDiff(a, b, k + 1)
Kind(q, k) == IF k > Len(q) THEN "end" ELSE q[k].t
Field(m, n) == IF m.t # n.t THEN "" ELSE IF \E f \in DOMAIN m : f \in DOMAIN n /\ m[f] # n[f] THEN CHOOSE f \in DOMAIN m : f \in DOMAIN n /\ m[f] # n[f] ELSE ""

\* A response and the news of a departed client may overtake each other: the transport of a client that is
\* disconnected on request may first deliver what it still has for it.
RECURSIVE Norm(_)
Norm(q) == LET ks == {k \in 1..(Len(q) - 1) : q[k].t = "gone" /\ q[k + 1].t \in {"resp", "api"}}
           IN IF ks = {} THEN q
              ELSE LET k == CHOOSE k \in ks : TRUE IN Norm([q EXCEPT ![k] = q[k + 1], ![k + 1] = q[k]])

\* what differs between the prediction s (from s0) and the observation e
Diff(s0, s, e) ==
    LET mute == IF Has(e, "mute") THEN SeqSet(e.mute) ELSE {}      \* peers that close in this step do not listen any more
        cs   == (((DOMAIN s.out) \cup ObsIds(e)) \ F) \ mute
        role(c) == IF Known(s0, c) THEN s0.conn[c].role ELSE IF Known(s, c) THEN s.conn[c].role ELSE "gone"
        ex(c) == IF c \in DOMAIN s.out THEN s.out[c] ELSE <<>>
        D(c, dev, f, x, o, k) == [n |-> i, c |-> c, dev |-> dev, role |-> role(c), f |-> f, e |-> x, o |-> o, k |-> k]
        msgs == IF e.k = "stop" THEN {} ELSE
                {LET a == Norm(ex(c)) b == Norm(ObsMsgs(e, c)) k == FirstDiff(a, b, 1)
                 IN D(c, "msg", IF k <= Len(a) /\ k <= Len(b) THEN Field(a[k], b[k]) ELSE "", Kind(a, k), Kind(b, k), k)
                   : c \in {c2 \in cs : ex(c2) # ObsMsgs(e, c2) /\ Norm(ex(c2)) # Norm(ObsMsgs(e, c2))}}
        hs   == {c \in Ids(s0) : s0.conn[c].ph = "hs"} \cup {c \in Ids(s) : s.conn[c].ph = "hs"}
        xs   == {D(c, "unexpected-close", "", "", "", 0) : c \in ((ObsClosed(e) \ s.cl) \ F) \ hs}
        ns   == {D(c, "missing-close", "", "", "", 0) : c \in ((s.cl \ ObsClosed(e)) \ F) \ mute}
        lt   == IF e.k = "adv" THEN {D(c, "missed-timeout", "", "", "", 0) : c \in Late(s, e.to) \ mute} ELSE {}
    IN msgs \cup xs \cup ns \cup lt

\* bytes sent are taken from the observation; connections without judged output may end at any time
Settle(s0, s, e) ==
    LET gone == {c \in ObsClosed(e) : Known(s, c) /\ (c \in F \/ s.conn[c].ph = "hs")}
        s1 == [s EXCEPT !.conn = [c \in (DOMAIN @) \ gone |-> [@[c] EXCEPT !.tx = @ + ObsBytes(e, c)]]]
    IN s1

StatDev1(s, st, all) ==
         LET D(f) == [n |-> i, c |-> "", dev |-> "stats", role |-> "", f |-> f, e |-> ToString(Snapshot(s)), o |-> "", k |-> 0]
             snap == Snapshot(s)
             tun  == IF all THEN snap.tun ELSE {r \in snap.tun : r.c # {}}
             otun == {[s |-> r.s, c |-> SeqSet(r.c)] : r \in SeqSet(st.tun)}
             idn(m) == [u |-> m.u, n |-> m.n, p |-> m.p]
             ids(t) == {[s |-> idn(r.s), c |-> {idn(x) : x \in r.c}] : r \in t}
             dup  == \/ Cardinality(SeqSet(st.tun)) # Len(st.tun)
                     \/ \E r \in SeqSet(st.tun) : Cardinality(SeqSet(r.c)) # Len(r.c)
         IN (IF st.tot # snap.tot THEN {D("total")} ELSE {})
            \cup (IF st.nsrv # snap.nsrv THEN {D("servers")} ELSE {})
            \cup (IF st.ncli # snap.ncli THEN {D("clients")} ELSE {})
            \cup (IF st.nm # s.name THEN {D("name")} ELSE {})
            \cup (IF (\E r \in SeqSet(st.trs) : r.n # OnTransport(s, r.t)) \/ (\E c \in Counted(s) : \A r \in SeqSet(st.trs) : r.t # s.conn[c].tr) THEN {D("transports")} ELSE {})
            \cup (IF ids(otun) # ids(tun) \/ dup THEN {D("list")} ELSE IF otun # tun THEN {D("counts")} ELSE {})
StatDev(s, e) ==
    (IF Has(e, "st") THEN StatDev1(s, e.st, TRUE) ELSE {})
    \cup (IF e.k = "monreq" THEN UNION {StatDev1(s, e.snaps[k], e.want[k]) : k \in 1..(IF Len(e.snaps) < Len(e.want) THEN Len(e.snaps) ELSE Len(e.want))} ELSE {})

Judge(s0, q, e) ==
    LET A == Do(Acc(Begin(s0), {}), q, e)
    IN [s |-> A.s, d |-> {[x EXCEPT !.n = i] : x \in A.d} \cup Diff(s0, A.s, e)]

Result(e) ==
    IF e.k = "par"
    THEN LET ps == Perms(e.ops)
             good == {q \in ps : Judge(S, q, e).d = {}}
         IN IF good # {} THEN Judge(S, CHOOSE q \in good : TRUE, e) ELSE Judge(S, e.ops, e)
    ELSE LET r == Judge(S, <<e>>, e)
             r2 == Judge(S, <<[e EXCEPT !.items = e.alt]>>, e)      \* two outcomes are allowed
         IN IF Has(e, "alt") /\ r.d # {} /\ r2.d = {} THEN r2 ELSE r

Init == i = 1 /\ S = Init0(0) /\ F = {} /\ skip = TRUE /\ ndev = 0

Step ==
    /\ i <= Len(Tr)
    /\ i' = i + 1
    /\ LET e == Tr[i] IN
       IF e.k = "reset"
       THEN /\ S' = StartProxy(Init0(0), e.inact, e.name, SeqSet(e.up)) /\ F' = {} /\ skip' = FALSE /\ UNCHANGED ndev
       ELSE IF skip THEN UNCHANGED <<S, F, skip, ndev>>
       ELSE LET r  == Result(e)
                s1 == Settle(S, r.s, e)
                d  == r.d \cup StatDev(s1, e)
            IN /\ S' = s1
               /\ F' = IF Has(e, "free") THEN F \cup {e.c} ELSE F
               /\ IF d = {} THEN UNCHANGED <<skip, ndev>>
                  ELSE /\ skip' = TRUE /\ ndev' = ndev + 1
                       /\ \A x \in d : PrintT(<<"DEV", ToJson(x)>>)
                       /\ PrintT(<<"EXP", ToJson([n |-> i, out |-> r.s.out, cl |-> r.s.cl])>>)
Next == Step
Spec == Init /\ [][Next]_vars
\* the trace was read to its end
Done == TLCGet("stats").diameter = Len(Tr) + 1
=============================================================================
