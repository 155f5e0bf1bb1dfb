------------------------------- MODULE Proxy -------------------------------
(***************************************************************************)
(* The tunnel proxy as its peers see it.                                   *)
(*                                                                         *)
(* The proxy's state is one record S:                                      *)
(*   conn   live connections: id -> record                                 *)
(*            ph    "hs" (TLS handshake pending) / "open" / "closing" (the *)
(*                  proxy has ended it, the transport has not let go yet)  *)
(*            async TRUE if the transport lets go of a killed connection   *)
(*                  only later (ended by Reap)                             *)
(*            role  "none" / "server" / "client"                           *)
(*            uuid, name, peer, tr   identity, peer address, transport     *)
(*            srv, addr   for a client: its server connection (or "") and  *)
(*                        its socket address                               *)
(*            born, heard  time of connect / of the last received byte     *)
(*            rx, tx       bytes received from / sent to the connection    *)
(*   hist   per server connection: the socket addresses handed out so far, *)
(*          as a sequence of intervals <<lo, hi>>, and the peak number of  *)
(*          addresses in use                                               *)
(*   now    time in milliseconds                                           *)
(*   inact  configured inactive timeout                                    *)
(*   name   configured name                                                *)
(*   up     endpoints that accept connections (none: the proxy is stopped) *)
(*   mons   connected monitors                                             *)
(*   out    messages every connection received during the current step     *)
(*   cl     connections ended by the proxy during the current step         *)
(*                                                                         *)
(* Every operator maps such a record to the next one, so the same          *)
(* definitions drive the model checking (MCProxy), the generation of       *)
(* histories for the real proxy, and the judging of recorded executions    *)
(* (TraceProxy).                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Api

Ids(S)       == DOMAIN S.conn
Live(S, c)   == c \in Ids(S) /\ S.conn[c].ph = "open"
Known(S, c)  == c \in Ids(S)
Registered(S, c) == c \in Ids(S) /\ S.conn[c].role # "none"
Holders(S, u) == {c \in Ids(S) : S.conn[c].role # "none" /\ S.conn[c].uuid = u}
ServerOf(S, u) == {c \in Ids(S) : S.conn[c].role = "server" /\ S.conn[c].uuid = u}
ClientsOf(S, v) == {c \in Ids(S) : S.conn[c].role = "client" /\ S.conn[c].srv = v}
InUse(S, v)  == {S.conn[c].addr : c \in ClientsOf(S, v)}
AtAddr(S, v, a) == {c \in ClientsOf(S, v) : S.conn[c].addr = a}

Empty == [x \in {} |-> 0]
Init0(inact) == [conn |-> Empty, hist |-> Empty, now |-> 0, inact |-> inact, name |-> "", up |-> {}, mons |-> {}, out |-> Empty, cl |-> {}]
Begin(S) == [S EXCEPT !.out = Empty, !.cl = {}]

RemoveKey(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
PutKey(f, k, v) == (k :> v) @@ f

---------------------------------------------------------------------------
(* Outputs.  Bytes of one stream are concatenated: how a stream is cut on  *)
(* its way is not observable behaviour.                                    *)

IsData(m) == m.t = "data" \/ m.t = "frame"
Merges(m, n) == IsData(m) /\ m.t = n.t /\ (m.t = "frame" => m.a = n.a)
AppendMsg(q, m) ==
    IF IsData(m) /\ m.p = "" THEN q
    ELSE IF q # <<>> /\ Merges(q[Len(q)], m)
         THEN [q EXCEPT ![Len(q)] = [@ EXCEPT !.p = @ \o m.p]]
         ELSE Append(q, m)

Emit(S, c, m) ==
    IF ~Live(S, c) THEN S
    ELSE LET q == IF c \in DOMAIN S.out THEN S.out[c] ELSE <<>>
         IN [S EXCEPT !.out = PutKey(@, c, AppendMsg(q, m))]

---------------------------------------------------------------------------
(* The end of a connection.                                                *)

RECURSIVE KillAll(_, _), Gone(_, _), Kill(_, _)

\* The transport reports connection c as ended.
Gone(S, c) ==
    LET r  == S.conn[c]
        S1 == [S EXCEPT !.conn = RemoveKey(@, c)]
    IN CASE r.role = "server" ->
              LET ks == {k \in Ids(S1) : S1.conn[k].role = "client" /\ S1.conn[k].srv = c}
                  S2 == [S1 EXCEPT !.conn = [k \in DOMAIN @ |-> IF k \in ks THEN [@[k] EXCEPT !.srv = "", !.addr = 0] ELSE @[k]],
                                   !.hist = RemoveKey(@, c)]
              IN KillAll(S2, ks)
         [] r.role = "client" /\ r.srv # "" ->
              Emit(S1, r.srv, [t |-> "gone", a |-> r.addr])
         [] OTHER -> S1

\* The proxy ends connection c.
Kill(S, c) ==
    IF ~Known(S, c) \/ S.conn[c].ph = "closing" THEN S
    ELSE LET S1 == [S EXCEPT !.cl = @ \cup {c}]
         IN IF S.conn[c].async THEN [S1 EXCEPT !.conn[c].ph = "closing"]
            ELSE Gone(S1, c)

KillAll(S, ks) ==
    IF ks = {} THEN S
    ELSE LET k == CHOOSE k \in ks : TRUE IN KillAll(Kill(S, k), ks \ {k})

---------------------------------------------------------------------------
(* Connections come and go.                                                *)

NewConn(S, ph, tr, peer, async) ==
    [ph |-> ph, async |-> async, role |-> "none", uuid |-> "", name |-> "", peer |-> peer, tr |-> tr,
     srv |-> "", addr |-> 0, born |-> S.now, heard |-> S.now, rx |-> 0, tx |-> 0]

Open(S, c, tr, peer, async) == [S EXCEPT !.conn = PutKey(@, c, NewConn(S, "open", tr, peer, async))]
\* connected to a port that demands TLS, handshake not done
OpenHs(S, c, tr, peer) == [S EXCEPT !.conn = PutKey(@, c, NewConn(S, "hs", tr, peer, FALSE))]
\* the handshake succeeded
Encrypted(S, c) == IF Known(S, c) THEN [S EXCEPT !.conn[c].ph = "open", !.conn[c].born = S.now] ELSE S
\* the peer closes
PeerClose(S, c) == IF Known(S, c) THEN Gone(S, c) ELSE S

---------------------------------------------------------------------------
(* Socket addresses.                                                       *)

AddrMin == 1
AddrMax == 65534
RECURSIVE LastSeen(_, _, _)
\* how many addresses were handed out since a was (counting a itself); -1 if never
LastSeen(h, a, n) ==
    IF h = <<>> THEN -1
    ELSE LET iv == h[Len(h)] IN
         IF iv[1] <= a /\ a <= iv[2] THEN n + (iv[2] - a) + 1
         ELSE LastSeen(SubSeq(h, 1, Len(h) - 1), a, n + (iv[2] - iv[1] + 1))
HistAppend(h, a) ==
    IF h # <<>> /\ h[Len(h)][2] + 1 = a THEN [h EXCEPT ![Len(h)] = <<h[Len(h)][1], a>>]
    ELSE Append(h, <<a, a>>)

\* a may be given to a new client of v when the range has max addresses: it is not in use, and since it was
\* handed out before, every other address was handed out too, except those that were in use.
MayHandOut(S, v, a, min, max) ==
    LET h == S.hist[v].h
        d == LastSeen(h, a, 0)
    IN /\ a >= min /\ a <= max
       /\ a \notin InUse(S, v)
       /\ (d = -1 \/ d > (max - min) - S.hist[v].peak)

---------------------------------------------------------------------------
(* Requests.                                                               *)

Resp(id, r) == [t |-> "resp", id |-> id, r |-> r]
Err(id)     == [t |-> "err", id |-> id]
ApiMsg(id)  == [t |-> "api", id |-> id, m |-> Methods, n |-> Notifications, y |-> Types]

RegisterServer(S, c, it) ==
    CASE it.u = "" -> Emit(S, c, Resp(it.id, "InvalidUuid"))
      [] it.u # "" /\ (S.conn[c].role # "none" \/ Holders(S, it.u) # {}) ->
            Kill(Emit(S, c, Resp(it.id, "AlreadyRegistered")), c)
      [] OTHER ->
            LET S1 == [S EXCEPT !.conn[c].role = "server", !.conn[c].uuid = it.u, !.conn[c].name = it.n,
                                !.conn[c].heard = S.now,
                                !.hist = PutKey(@, c, [h |-> <<>>, peak |-> 0])]
            IN Emit(S1, c, Resp(it.id, "NoError+slip"))

\* addr(v, c) is the socket address the allocation picks
RegisterClient(S, c, it, addr) ==
    CASE it.u = "" \/ it.s = "" -> Emit(S, c, Resp(it.id, "InvalidUuid"))
      [] it.u # "" /\ it.s # "" /\ (S.conn[c].role # "none" \/ Holders(S, it.u) # {}) ->
            Kill(Emit(S, c, Resp(it.id, "AlreadyRegistered")), c)
      [] it.u # "" /\ it.s # "" /\ S.conn[c].role = "none" /\ Holders(S, it.u) = {} /\ ServerOf(S, it.s) = {} ->
            Kill(Emit(S, c, Resp(it.id, "ServerNotFound")), c)
      [] OTHER ->
            LET v  == CHOOSE v \in ServerOf(S, it.s) : TRUE
                n  == Cardinality(ClientsOf(S, v)) + 1
                S1 == [S EXCEPT !.conn[c].role = "client", !.conn[c].uuid = it.u, !.conn[c].name = it.n,
                                !.conn[c].srv = v, !.conn[c].addr = addr,
                                !.hist[v].h = HistAppend(@, addr),
                                !.hist[v].peak = IF n > @ THEN n ELSE @]
                S2 == Emit(S1, v, [t |-> "conn", a |-> addr, u |-> it.u, n |-> it.n, p |-> S.conn[c].peer])
            IN Emit(S2, c, Resp(it.id, "NoError"))

DisconnectClient(S, c, it) ==
    IF S.conn[c].role # "server" THEN Kill(Emit(S, c, Resp(it.id, "AlreadyRegistered")), c)
    ELSE LET ks == AtAddr(S, c, it.a)
         IN IF ks = {} THEN Emit(S, c, Resp(it.id, "UnknownSocketAddress"))
            ELSE Emit(KillAll(S, ks), c, Resp(it.id, "NoError"))

\* One complete unit of input on an open connection.
Item(S, c, it, addr) ==
    IF ~Live(S, c) THEN S
    ELSE CASE it.k = "RegisterServer"   -> RegisterServer(S, c, it)
           [] it.k = "RegisterClient"   -> RegisterClient(S, c, it, addr)
           [] it.k = "DisconnectClient" -> DisconnectClient(S, c, it)
           [] it.k = "call"             -> Emit(S, c, IF it.r = "Introspect" THEN ApiMsg(it.id) ELSE Resp(it.id, it.r))     \* Hello, Introspect, Ping
           [] it.k = "bad"              -> Kill(Emit(S, c, Err(it.id)), c)   \* not a valid request
           [] it.k = "flood"            -> Kill(S, c)                        \* too much incomplete JSON data
           [] it.k = "data"             ->                                  \* bytes of a registered client
                 IF S.conn[c].role = "client" /\ S.conn[c].srv # ""
                 THEN Emit(S, S.conn[c].srv, [t |-> "frame", a |-> S.conn[c].addr, p |-> it.p]) ELSE S
           [] it.k = "frame"            ->                                  \* a server's frame for one address
                 LET ks == AtAddr(S, c, it.a)
                 IN IF ks = {} THEN S ELSE Emit(S, CHOOSE k \in ks : TRUE, [t |-> "data", p |-> it.p])
           [] it.k = "kill"             -> Kill(S, c)                        \* e.g. a binary WebSocket message
           [] OTHER                     -> S                                 \* "drop": malformed or empty frame

Hear(S, c, n) == IF n = 0 \/ ~Known(S, c) THEN S ELSE [S EXCEPT !.conn[c].heard = S.now, !.conn[c].rx = @ + n]

---------------------------------------------------------------------------
(* Inactivity.  Deadline -1: never.                                        *)

ServerTimeout    == 60000
HandshakeTimeout == 5000
Deadline(S, c) ==
    LET r == S.conn[c] IN
    CASE r.ph = "hs"        -> IF r.tr = "TCP" THEN r.born + HandshakeTimeout ELSE -1
      [] r.ph = "closing"   -> -1
      [] r.role = "none"    -> r.born + S.inact
      [] r.role = "server"  -> r.heard + ServerTimeout
      [] OTHER              -> -1
\* Timers need not be exact to the millisecond.
Slack(d) == IF d >= 20000 THEN 1300 ELSE 60 + (d * 6) \div 100
Span(S, c) ==
    LET r == S.conn[c] IN
    CASE r.ph = "hs" -> HandshakeTimeout [] r.role = "none" -> S.inact [] OTHER -> ServerTimeout

---------------------------------------------------------------------------
(* Life cycle.                                                             *)

StartProxy(S, inact, name, up) == [S EXCEPT !.inact = inact, !.name = name, !.up = up]
\* everybody is disconnected, nothing is kept
StopProxy(S) == [S EXCEPT !.conn = Empty, !.hist = Empty, !.cl = @ \cup {c \in Ids(S) : S.conn[c].ph # "closing"} \cup S.mons, !.mons = {}, !.up = {}]

---------------------------------------------------------------------------
(* What the monitor must show.                                             *)

MonOpen(S, m)  == [S EXCEPT !.mons = @ \cup {m}]
MonClose(S, m) == [S EXCEPT !.mons = @ \ {m}]
\* the proxy ends a monitor connection that does not make sense
MonKill(S, m)  == [S EXCEPT !.mons = @ \ {m}, !.cl = @ \cup {m}]

\* what the proxy holds on to: one socket per connection that has one, and per monitor; nothing else for ended connections
Wires        == {"TCP", "WebSocket", "unix"}
Sockets(S)   == {c \in Ids(S) : S.conn[c].tr \in Wires} \cup S.mons
Idle(S)      == Ids(S) = {} /\ S.mons = {}
Released(S)  == (Ids(S) = {} => S.hist = Empty) /\ DOMAIN S.hist \subseteq {c \in Ids(S) : S.conn[c].role = "server"}

Entry(S, c) == [u |-> S.conn[c].uuid, n |-> S.conn[c].name, p |-> S.conn[c].peer, rx |-> S.conn[c].rx, tx |-> S.conn[c].tx]
Counted(S) == {c \in Ids(S) : S.conn[c].ph # "hs"}
Snapshot(S) ==
    [tot  |-> Cardinality(Counted(S)),
     nsrv |-> Cardinality({c \in Ids(S) : S.conn[c].role = "server"}),
     ncli |-> Cardinality({c \in Ids(S) : S.conn[c].role = "client"}),
     tun  |-> {[s |-> Entry(S, v), c |-> {Entry(S, k) : k \in ClientsOf(S, v)}] :
                 v \in {c \in Ids(S) : S.conn[c].role = "server"}}]
OnTransport(S, tr) == Cardinality({c \in Counted(S) : S.conn[c].tr = tr})

---------------------------------------------------------------------------
(* State invariants: the heart of C01, C03, C05, C07.                      *)

UniqueUuid(S)  == \A c, d \in Ids(S) : (c # d /\ S.conn[c].role # "none" /\ S.conn[c].uuid = S.conn[d].uuid) => S.conn[d].role = "none"
ClientAttached(S) == \A c \in Ids(S) : (S.conn[c].role = "client" /\ S.conn[c].ph = "open") =>
                        (S.conn[c].srv \in Ids(S) /\ S.conn[S.conn[c].srv].role = "server")
NoDangling(S)  == \A c \in Ids(S) : S.conn[c].srv # "" => (S.conn[c].srv \in Ids(S) /\ S.conn[S.conn[c].srv].role = "server")
UniqueAddr(S)  == \A c, d \in Ids(S) : (c # d /\ S.conn[c].srv # "" /\ S.conn[c].srv = S.conn[d].srv) => S.conn[c].addr # S.conn[d].addr
ValidAddr(S, max) == \A c \in Ids(S) : S.conn[c].srv # "" => S.conn[c].addr \in 1..max
=============================================================================
