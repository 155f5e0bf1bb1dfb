------------------------------ MODULE ClientLib ------------------------------
(***************************************************************************)
(* The client library as its application and the proxy see it.             *)
(*                                                                         *)
(* L is one record:                                                        *)
(*   obj   application objects: id -> record                               *)
(*           kind  "tps" tunnel server / "trc" remote connection /         *)
(*                 "jrc" the RPC layer on its own                          *)
(*           up, since   somebody listens at its URL (since when)          *)
(*           ok    FALSE: no TLS connection can come about                 *)
(*           en    started and not stopped                                 *)
(*           ph    "idle" / "hello" / "reg" / "run"                        *)
(*           con   its connection ("" if none)                             *)
(*           fail  when the last connection ended or attempt was made      *)
(*           spoke when it last sent something to the proxy (the proxy     *)
(*                 hears nothing else, so reception must not count)        *)
(*           hook  what the application does from within a signal          *)
(*           srv   what the proxy said about itself in its greeting        *)
(*           url   where it was told to connect to                         *)
(*           lost  "yes" if its last connection ended ("any": may or not)  *)
(*           err   its last socket error ("-1" none, "any" not determined) *)
(*   con   connections at the proxy's side: id -> [o, calls: id -> method] *)
(*   sk    live sockets of tunnel servers: number -> [t, a]                    *)
(*   nk    sockets announced so far                                        *)
(*   out, cl   what every observer gets during the step, connections ended *)
(*   want  objects that try to connect during this step                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nil == [x \in {} |-> 0]
Init0 == [obj |-> Nil, con |-> Nil, sk |-> Nil, nk |-> 0, now |-> 0, out |-> Nil, cl |-> {}, want |-> {}]
Begin(L) == [L EXCEPT !.out = Nil, !.cl = {}, !.want = {}]
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

Stream(m) == m.t \in {"data", "frame", "raw"}
Merges(m, n) == Stream(m) /\ m.t = n.t /\ (m.t = "frame" => m.a = n.a)
AppendMsg(q, m) ==
    IF Stream(m) /\ m.p = "" THEN q
    ELSE IF q # <<>> /\ Merges(q[Len(q)], m) THEN [q EXCEPT ![Len(q)] = [@ EXCEPT !.p = @ \o m.p]]
    ELSE Append(q, m)
Emit(L, c, m) ==
    LET q == IF c \in DOMAIN L.out THEN L.out[c] ELSE <<>>
        L1 == [L EXCEPT !.out = Put(@, c, AppendMsg(q, m))]
    IN IF c \in DOMAIN L.con /\ ~(Stream(m) /\ m.p = "") THEN [L1 EXCEPT !.obj[L.con[c].o].spoke = L.now] ELSE L1

\* names of observers
Sk(n) == "k" \o ToString(n)
Flag(o, L) == IF L.obj[o].kind = "tps" THEN "running" ELSE "remote"
SocksOf(L, t) == {k \in DOMAIN L.sk : L.sk[k].t = t}
SockAt(L, t, a) == {k \in SocksOf(L, t) : L.sk[k].a = a}
Alive(L, c) == c \in DOMAIN L.con

NoSrv == <<"", "", "", "">>
NewObj(kind, u, n) == [kind |-> kind, u |-> u, n |-> n, s |-> "", up |-> FALSE, since |-> 0, ok |-> TRUE, en |-> FALSE, ph |-> "idle",
                       con |-> "", fail |-> 0, spoke |-> 0, hook |-> [on |-> "", do |-> "", p |-> "", s |-> ""], ncall |-> 0,
                       srv |-> NoSrv, url |-> "", lost |-> "no", err |-> "-1"]

---------------------------------------------------------------------------
RECURSIVE Hook(_, _, _, _), Lose(_, _), GoneAll(_, _), Stop(_, _), Start(_, _, _)

\* the connection of o came about and is known as c at the proxy
Connected(L, o, c) ==
    LET L1 == [L EXCEPT !.obj[o].ph = "hello", !.obj[o].con = c, !.obj[o].lost = "no", !.obj[o].srv = NoSrv, !.obj[o].spoke = L.now, !.con = Put(@, c, [o |-> o, calls |-> Nil])]
    IN Emit(L1, c, [t |-> "req", m |-> "Hello"])

\* socket k ended
SockGone(L, k) ==
    LET t == L.sk[k].t
        L1 == [L EXCEPT !.sk = Del(@, k)]
    IN Hook(Emit(Emit(L1, Sk(k), [t |-> "gone"]), Sk(k) \o "/d", [t |-> "del"]), t, "gone", 0)
GoneAll(L, ks) ==
    IF ks = {} THEN L
    ELSE LET k == CHOOSE k \in ks : TRUE
         IN GoneAll(IF k \in DOMAIN L.sk THEN SockGone(L, k) ELSE L, ks \ {k})

\* o has no connection any more
Lose(L, o) ==
    IF L.obj[o].con = "" THEN L
    ELSE LET r  == L.obj[o]
             L1 == [L EXCEPT !.con = Del(@, r.con), !.obj[o].con = "", !.obj[o].ph = "idle", !.obj[o].fail = L.now, !.obj[o].lost = "yes", !.obj[o].srv = NoSrv]
             L2 == GoneAll(L1, SocksOf(L1, o))
         IN IF r.ph = "run" THEN Hook(Emit(L2, o, [t |-> Flag(o, L), v |-> FALSE]), o, "down", 0) ELSE L2
\* o ends its connection itself
CloseOwn(L, o) ==
    IF L.obj[o].con = "" THEN L ELSE Lose([L EXCEPT !.cl = @ \cup {L.obj[o].con}], o)

Stop(L, o) == CloseOwn([L EXCEPT !.obj[o].en = FALSE, !.want = @ \ {o}], o)
Start(L, o, s) ==
    LET L1 == CloseOwn([L EXCEPT !.obj[o].en = TRUE, !.obj[o].s = s], o)
    IN [L1 EXCEPT !.obj[o].fail = L.now, !.obj[o].lost = "any", !.want = IF L1.obj[o].up /\ L1.obj[o].ok THEN @ \cup {o} ELSE @]

Write(L, k, p) == IF k \in DOMAIN L.sk THEN Emit(L, L.obj[L.sk[k].t].con, [t |-> "frame", a |-> L.sk[k].a, p |-> p]) ELSE L
Disc(L, k) == IF k \in DOMAIN L.sk THEN Emit(L, L.obj[L.sk[k].t].con, [t |-> "req", m |-> "DisconnectClient", a |-> L.sk[k].a]) ELSE L
SendOk(L, o) == L.obj[o].ph = "run"
Send(L, o, p) == IF SendOk(L, o) THEN Emit(L, L.obj[o].con, [t |-> "raw", p |-> p]) ELSE L

\* what the application does from within a signal (once)
Hook(L, o, on, k) ==
    LET h == L.obj[o].hook IN
    IF h.on # on THEN L
    ELSE LET L1 == [L EXCEPT !.obj[o].hook.on = ""]
         IN CASE h.do = "stop"    -> [Stop(L1, o) EXCEPT !.obj[o].lost = IF @ = "yes" THEN "any" ELSE @]
              [] h.do = "start"   -> Start(L1, o, h.s)
              [] h.do = "write"   -> Write(L1, k, h.p)
              [] h.do = "disc"    -> Disc(L1, k)
              [] h.do = "send"    -> Send(L1, o, h.p)
              [] OTHER            -> L1

---------------------------------------------------------------------------
(* The proxy speaks.                                                       *)

Resp(L, c, it) ==
    LET o  == L.con[c].o
        m  == IF it.id \in DOMAIN L.con[c].calls THEN L.con[c].calls[it.id] ELSE ""
        L1 == IF m = "" THEN L ELSE [L EXCEPT !.con[c].calls = Del(@, it.id)]
    IN CASE m = "Hello" ->
              IF ~it.ok THEN CloseOwn(L1, o)
              ELSE Emit([L1 EXCEPT !.obj[o].ph = "reg", !.obj[o].srv = IF "si" \in DOMAIN it THEN it.si ELSE NoSrv], c,
                        IF L.obj[o].kind = "tps" THEN [t |-> "req", m |-> "RegisterServer", u |-> L.obj[o].u, n |-> L.obj[o].n]
                        ELSE [t |-> "req", m |-> "RegisterClient", u |-> L.obj[o].u, n |-> L.obj[o].n, s |-> L.obj[o].s])
         [] m \in {"RegisterServer", "RegisterClient"} ->
              IF ~it.ok \/ it.r # "NoError" THEN CloseOwn(L1, o)
              ELSE Hook(Emit([L1 EXCEPT !.obj[o].ph = "run", !.obj[o].spoke = L.now], o, [t |-> Flag(o, L), v |-> TRUE]), o, "up", 0)
         [] OTHER -> L1

Announce(L, c, it) ==
    LET o == L.con[c].o
        k == L.nk + 1
        L1 == [L EXCEPT !.nk = @ + 1, !.sk = Put(@, k, [t |-> o, a |-> it.a])]
    IN Hook(Emit(L1, o \o "/s", [t |-> "new", s |-> k, a |-> it.a, u |-> it.u, n |-> it.n, p |-> it.p]), o, "new", k)

ItemC(L, c, it) ==
    IF ~Alive(L, c) THEN L
    ELSE LET o == L.con[c].o
             L0 == L
         IN CASE it.k = "resp" -> Resp(L0, c, it)
              [] it.k = "conn" /\ L.obj[o].kind = "tps" /\ L.obj[o].ph = "run" -> Announce(L0, c, it)
              [] it.k = "gone" /\ L.obj[o].kind = "tps" /\ L.obj[o].ph = "run" ->
                    LET ks == SockAt(L0, o, it.a) IN IF ks = {} THEN L0 ELSE SockGone(L0, CHOOSE k \in ks : TRUE)
              [] it.k = "frame" /\ L.obj[o].kind = "tps" /\ L.obj[o].ph = "run" ->
                    LET ks == SockAt(L0, o, it.a)
                    IN IF ks = {} THEN L0 ELSE Hook(Emit(L0, Sk(CHOOSE k \in ks : TRUE), [t |-> "data", p |-> it.p]), o, "rx", CHOOSE k \in ks : TRUE)
              [] it.k = "raw" /\ L.obj[o].kind = "trc" /\ L.obj[o].ph = "run" ->
                    Hook(Emit(L0, o, [t |-> "data", p |-> it.p]), o, "rx", 0)
              [] OTHER -> L0                                   \* "junk", "part"
\* the proxy ends the connection
ProxyClose(L, c) == IF Alive(L, c) THEN Lose(L, L.con[c].o) ELSE L

\* the RPC layer on its own: n-th call / a message
JCall(L, o, m) == Emit([L EXCEPT !.obj[o].ncall = @ + 1], o, [t |-> "sent", m |-> m])
JMsg(L, o, it) ==
    CASE it.k = "resp" -> IF it.id \in DOMAIN L.con[o].calls
                          THEN Emit([L EXCEPT !.con[o].calls = Del(@, it.id)], o, [t |-> "done", n |-> L.con[o].calls[it.id], p |-> it.p]) ELSE L
      [] it.k = "conn" -> Emit(L, o, [t |-> "conn", a |-> it.a, u |-> it.u, n |-> it.n, p |-> it.p])
      [] it.k = "gone" -> Emit(L, o, [t |-> "gone", a |-> it.a])
      [] OTHER -> L

---------------------------------------------------------------------------
(* What the objects say about themselves.                                  *)
Tells(r) ==
    [run  |-> r.ph = "run",
     srv  |-> r.srv,
     url  |-> r.url,
     state |-> CASE r.ph = "run"   -> IF r.kind = "tps" THEN {"StateRunning"} ELSE {"StateRemoteConnected"}
                 [] r.ph = "hello" -> {"StateConnected", "StateInitializing"}
                 [] r.ph = "reg"   -> {"StateRegister"}
                 [] r.en /\ r.up   -> {"StateDisconnected", "StateHostLookup", "StateConnecting", "StateConnected", "StateDiconnecting"}
                 [] OTHER          -> {"StateDisconnected"},
     \* is something wrong with it, as far as it knows?
     fault |-> IF r.ph # "idle" THEN "no" ELSE IF r.lost = "yes" THEN "yes" ELSE "any"]

---------------------------------------------------------------------------
RetryAfter == 5000
RetrySlack == 400
PingWithin == 55000
\* state invariants
RunHasCon(L) == \A o \in DOMAIN L.obj : (L.obj[o].con # "" <=> L.obj[o].ph # "idle") /\ (L.obj[o].con # "" => Alive(L, L.obj[o].con) /\ L.con[L.obj[o].con].o = o)
SocksOnlyWhenRunning(L) == \A k \in DOMAIN L.sk : L.obj[L.sk[k].t].ph = "run" /\ L.obj[L.sk[k].t].kind = "tps"
SockAddrUnique(L) == \A j, k \in DOMAIN L.sk : (j # k /\ L.sk[j].t = L.sk[k].t) => L.sk[j].a # L.sk[k].a
StoppedIsIdle(L) == \A o \in DOMAIN L.obj : (L.obj[o].kind \in {"tps", "trc"} /\ ~L.obj[o].en) => L.obj[o].con = ""
=============================================================================
