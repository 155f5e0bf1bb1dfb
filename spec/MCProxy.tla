------------------------------ MODULE MCProxy ------------------------------
(***************************************************************************)
(* All behaviours of Proxy within small bounds.                            *)
(*   - invariants and action properties state C01, C03..C09, C11 on them   *)
(*   - with PrintEdges every transition of the state graph is printed; the *)
(*     check turns the graph into tours that replay every transition into  *)
(*     the real proxy                                                      *)
(***************************************************************************)
EXTENDS Proxy, Json, TLCExt, Integers
CONSTANTS Conns,      \* connection ids
          AsyncConns, \* connections whose transport lets go later
          Uuids,
          AddrM,      \* number of socket addresses
          Slots,      \* TRUE: an address stands for the client connection that holds it (for tours)
          Timed,      \* TRUE: time passes
          PrintEdges,
          MaxOpen     \* at most so many connections at once
VARIABLES S, act, told, bad
vars == <<S, act, told, bad>>

\* times are kept relative to now; MCServerTimeout etc. replace the real ones
MCServerTimeout == 3
MCHandshakeTimeout == 2
MCSlack(d) == 0
Inact == 2
Norm(s) == [s EXCEPT !.now = 0, !.conn = [c \in DOMAIN @ |-> [@[c] EXCEPT
                !.born = IF Timed /\ @ - s.now > -5 THEN @ - s.now ELSE IF Timed THEN -5 ELSE 0,
                !.heard = IF Timed /\ @ - s.now > -5 THEN @ - s.now ELSE IF Timed THEN -5 ELSE 0, !.rx = 0, !.tx = 0]]]
Num(c) == CHOOSE n \in 1..10 : ToString(n) = SubSeq(c, 2, 2)

\* what servers have been told, and whether a message was ever out of place
Msgs(s, t) == {<<c, k>> \in (DOMAIN s.out) \X (1..6) : k <= Len(s.out[c]) /\ s.out[c][k].t = t}
ToldAfter(s, old) ==
    [v \in {x \in Ids(s) : s.conn[x].role = "server"} |->
        LET o == IF v \in DOMAIN old THEN old[v] ELSE {}
            m == IF v \in DOMAIN s.out THEN s.out[v] ELSE <<>>
            newc == {m[k].a : k \in {j \in 1..Len(m) : m[j].t = "conn"}}
            newg == {m[k].a : k \in {j \in 1..Len(m) : m[j].t = "gone"}}
        IN (o \cup newc) \ newg]
Misplaced(s, old) ==
    \/ \E v \in DOMAIN s.out : \E k \in 1..Len(s.out[v]) :
          LET m == s.out[v][k]
              o == IF v \in DOMAIN old THEN old[v] ELSE {}
          IN \/ m.t = "conn" /\ m.a \in o
             \/ m.t = "gone" /\ m.a \notin o
             \/ m.t \in {"conn", "gone"} /\ ~(v \in Ids(s) /\ s.conn[v].role = "server")

To(s, a) == /\ S' = Norm(s) /\ act' = a
            /\ told' = ToldAfter(s, told)
            /\ bad' = Misplaced(s, told)

B == Begin(S)
It(k) == [k |-> k, id |-> "1", u |-> "", n |-> "n", s |-> "", a |-> 0, p |-> "", r |-> "Hello"]
Alloc(v, c) == IF Slots THEN {Num(c)} ELSE {a \in 1..AddrM : MayHandOut(S, v, a, 1, AddrM)}

MOpen(c)  == ~Known(S, c) /\ Cardinality(Ids(S)) < MaxOpen /\ To(Open(B, c, "t", "p", c \in AsyncConns), [k |-> "open", c |-> c])
MClose(c) == Known(S, c) /\ To(PeerClose(B, c), [k |-> "close", c |-> c])
MRegS(c, u) == Live(S, c) /\ S.conn[c].role # "client" /\ (\A h \in Holders(S, u) : S.conn[h].ph = "open")
                 /\ To(Item(B, c, [It("RegisterServer") EXCEPT !.u = u], 0), [k |-> "regs", c |-> c, u |-> u])
MRegC(c, u, s) == /\ Live(S, c) /\ S.conn[c].role # "client" /\ (\A h \in Holders(S, u) \cup Holders(S, s) : S.conn[h].ph = "open")
                  /\ LET vs == ServerOf(S, s)
                         as == IF vs = {} THEN {0} ELSE Alloc(CHOOSE v \in vs : TRUE, c)
                     IN \E a \in as : To(Item(B, c, [It("RegisterClient") EXCEPT !.u = u, !.s = s], a), [k |-> "regc", c |-> c, u |-> u, s |-> s])
MDisc(c, a) == Live(S, c) /\ S.conn[c].role # "client" /\ (S.conn[c].role = "none" => a = 1)
                 /\ To(Item(B, c, [It("DisconnectClient") EXCEPT !.a = a], 0), [k |-> "disc", c |-> c, a |-> a])
MFrame(c, a) == Live(S, c) /\ S.conn[c].role = "server" /\ To(Item(Hear(B, c, 1), c, [It("frame") EXCEPT !.a = a, !.p = c], 0), [k |-> "frame", c |-> c, a |-> a])
MData(c) == Live(S, c) /\ S.conn[c].role = "client" /\ To(Item(Hear(B, c, 1), c, [It("data") EXCEPT !.p = c], 0), [k |-> "data", c |-> c])
MBad(c) == Live(S, c) /\ S.conn[c].role # "client" /\ To(Item(B, c, It("bad"), 0), [k |-> "bad", c |-> c])
MCall(c) == Live(S, c) /\ S.conn[c].role # "client" /\ To(Item(Hear(B, c, 1), c, It("call"), 0), [k |-> "call", c |-> c])
MTick == /\ Timed /\ S.conn # Empty
         /\ LET s1 == [B EXCEPT !.now = @ + 1]
                due == {c \in Ids(s1) : Deadline(s1, c) # -1 /\ Deadline(s1, c) <= s1.now}
            IN To(KillAll(s1, due), [k |-> "tick"])

Init == S = Init0(Inact) /\ act = [k |-> "init"] /\ told = Empty /\ bad = FALSE
AddrArgs == IF Slots THEN {Num(c) : c \in Conns} \cup {9} ELSE 0..(AddrM + 1)
Next == \/ \E c \in Conns : MOpen(c) \/ MClose(c) \/ MData(c) \/ MBad(c) \/ MCall(c)
        \/ \E c \in Conns, u \in Uuids : MRegS(c, u) \/ \E s \in Uuids : MRegC(c, u, s)
        \/ \E c \in Conns, a \in AddrArgs : MDisc(c, a) \/ MFrame(c, a)
        \/ MTick
Fair == \A c \in Conns : WF_vars(Known(S, c) /\ S.conn[c].ph = "closing" /\ MClose(c))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

\* handed-out addresses older than the whole range do not matter
RECURSIVE Flat(_)
Flat(h) == IF h = <<>> THEN <<>> ELSE [k \in 1..(Head(h)[2] - Head(h)[1] + 1) |-> Head(h)[1] + k - 1] \o Flat(Tail(h))
Trim(h) == LET f == Flat(h) IN IF Len(f) > AddrM THEN SubSeq(f, Len(f) - AddrM + 1, Len(f)) ELSE f
View == [conn |-> S.conn, told |-> told,
         hist |-> IF Slots THEN Empty ELSE [v \in DOMAIN S.hist |-> <<Trim(S.hist[v].h), S.hist[v].peak>>]]

---------------------------------------------------------------------------
\* C03, C05, C07
Inv == /\ UniqueUuid(S) /\ ClientAttached(S) /\ NoDangling(S) /\ Released(S)
       /\ UniqueAddr(S) /\ ValidAddr(S, IF Slots THEN 10 ELSE AddrM)
\* C06: a live tunnel server knows exactly its attached clients, and was told of each arrival and departure once
ToldExact == \A v \in DOMAIN told : Live(S, v) => told[v] = InUse(S, v)
NothingMisplaced == ~bad
\* C05: an address is available as long as not all are in use
CanAlloc == Slots \/ \A v \in Ids(S) : (S.conn[v].role = "server" /\ Cardinality(InUse(S, v)) < AddrM)
                => \E a \in 1..AddrM : MayHandOut(S, v, a, 1, AddrM)
\* C11: nobody is overdue, a client has no deadline
NoOverdue == Timed => \A c \in Ids(S) : (Deadline(S, c) # -1 => Deadline(S, c) > S.now) /\ (S.conn[c].role = "client" => Deadline(S, c) = -1)

\* C01: data goes to the server the client registered with, labelled with its address, and back to the holder of the address only
Routing == [][ \A c \in DOMAIN S'.out : \A k \in 1..Len(S'.out[c]) :
                 LET m == S'.out[c][k] IN
                 /\ m.t = "frame" => act'.k = "data" /\ S.conn[act'.c].srv = c /\ S.conn[act'.c].addr = m.a /\ m.p = act'.c
                 /\ m.t = "data"  => act'.k = "frame" /\ S.conn[c].srv = act'.c /\ S.conn[c].addr = act'.a /\ m.p = act'.c ]_vars
Delivered == [][ /\ (act'.k = "data" /\ S.conn[act'.c].srv # "" /\ Live(S, S.conn[act'.c].srv)) => S.conn[act'.c].srv \in DOMAIN S'.out
                 /\ act'.k = "frame" => \A k \in AtAddr(S, act'.c, act'.a) : Live(S, k) => k \in DOMAIN S'.out ]_vars
\* C09: every request is answered on its connection exactly once, nobody else gets an answer
Answered == [][ LET req == act'.k \in {"regs", "regc", "disc", "bad", "call"}
                    n(c) == IF c \in DOMAIN S'.out THEN Cardinality({k \in 1..Len(S'.out[c]) : S'.out[c][k].t \in {"resp", "err"}}) ELSE 0
                IN \A c \in Conns : n(c) = IF req /\ c = act'.c THEN 1 ELSE 0 ]_vars
\* C03, C07, C08, C12: who may be closed by a step
MayClose == [][ \A c \in S'.cl :
                  \/ act'.k = "tick"
                  \/ c = act'.c
                  \/ S.conn[c].role = "client" /\ S.conn[c].srv = act'.c /\ (act'.k # "disc" \/ S.conn[c].addr = act'.a \/ act'.c \in S'.cl) ]_vars
\* C03: a refused registration changes nobody else
RefusalIsolated == [][ (act'.k \in {"regs", "regc"} /\ act'.c \in S'.cl) =>
                         \A d \in Ids(S) \ {act'.c} : (S.conn[d].srv # act'.c) => (d \in Ids(S') /\ S'.conn[d].role = S.conn[d].role /\ S'.conn[d].uuid = S.conn[d].uuid /\ S'.conn[d].ph = S.conn[d].ph) ]_vars
\* C04: registration succeeds exactly when it should
RegOutcome == [][ /\ (act'.k = "regs" /\ S.conn[act'.c].role = "none") => ((Holders(S, act'.u) = {}) <=> (Known(S', act'.c) /\ S'.conn[act'.c].role = "server"))
                  /\ (act'.k = "regc" /\ S.conn[act'.c].role = "none") =>
                        ((Holders(S, act'.u) = {} /\ ServerOf(S, act'.s) # {}) <=> (Known(S', act'.c) /\ S'.conn[act'.c].role = "client")) ]_vars
\* C07: what was ended is let go eventually, and then nothing refers to it
EventuallyGone == \A c \in Conns : (Known(S, c) /\ S.conn[c].ph = "closing") ~> ~(Known(S, c) /\ S.conn[c].ph = "closing")

\* C11: who does not register is gone some day, whatever it and the others do meanwhile
FairTime == Spec /\ WF_vars(MTick)
NobodyLingers == \A c \in Conns : (Known(S, c) /\ S.conn[c].role = "none") ~> ~(Known(S, c) /\ S.conn[c].role = "none" /\ S.conn[c].ph = "open")

Edges == PrintEdges => PrintT(<<"EDGE", TLCFP(View), ToJson(act'), TLCFP(View')>>)
=============================================================================
