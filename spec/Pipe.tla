--------------------------------- MODULE Pipe ---------------------------------
(***************************************************************************)
(* How a tunnel works on the wire, at the level of messages in flight: the *)
(* library's tunnel server, the proxy and remote connections exchange      *)
(* messages over reliable, ordered links, which may break at any time, so  *)
(* that each party acts on what it has been told so far.  It shows that    *)
(* the protocol itself (one link for all tunnels of a server, told apart   *)
(* by socket addresses which are used again) keeps the promises of         *)
(* Tunnel.tla and Proxy.tla, for every interleaving, and under which       *)
(* assumption on the allocation of addresses (AddrRule) it does.           *)
(*                                                                         *)
(* A tunnel is identified by the number of the attempt that made it (t).   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Rcs,          \* remote connections
          AddrM,        \* socket addresses 1..AddrM
          AddrRule,     \* "lowest": the lowest one which is free, "next": the one after the last one handed out
          MaxT, MaxSend, MaxCut,
          MaxTotal, MaxDisc
VARIABLES up,           \* link server -> proxy: messages in flight
          dn,           \* link proxy -> server
          sv,           \* the library's tunnel server: "off" | "reg" | "run"
          px,           \* what the proxy knows of it: "none" | "conn" | "srv" 
          sock,         \* the library's sockets: address -> t
          tab,          \* the proxy's table: address -> remote connection
          last,         \* address handed out last
          lk,           \* remote connection -> [u, d: messages in flight, st: "none" | "open" | "cut", px: "none" | "conn" | "cli", me: "idle" | "reg" | "open", t: current attempt]
          nt, ncut, nd,
          sent, got     \* per end of a tunnel <<t, "c" or "s">>: what was put in, what came out at the other end
vars == <<up, dn, sv, px, sock, tab, last, lk, nt, ncut, nd, sent, got>>
Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
NoLink == [u |-> <<>>, d |-> <<>>, st |-> "none", px |-> "none", me |-> "idle", t |-> 0]
Ends == {<<t, e>> : t \in 1..MaxT, e \in {"c", "s"}}

Init == /\ up = <<>> /\ dn = <<>> /\ sv = "off" /\ px = "none" /\ sock = Empty /\ tab = Empty /\ last = 0
        /\ lk = [c \in Rcs |-> NoLink] /\ nt = 0 /\ ncut = 0 /\ nd = 0
        /\ sent = [e \in Ends |-> <<>>] /\ got = [e \in Ends |-> <<>>]

\* ------------------------------------------------------------ applications
Start == sv = "off" /\ px = "none" /\ up = <<>> /\ dn = <<>> /\ sv' = "reg" /\ px' = "conn" /\ up' = <<[m |-> "reg"]>>
         /\ UNCHANGED <<dn, sock, tab, last, lk, nt, ncut, nd, sent, got>>
Connect(c) == /\ lk[c].st = "none" /\ nt < MaxT /\ nt' = nt + 1
              /\ lk' = [lk EXCEPT ![c] = [NoLink EXCEPT !.st = "open", !.px = "conn", !.me = "reg", !.t = nt + 1, !.u = <<[m |-> "reg"]>>]]
              /\ UNCHANGED <<up, dn, sv, px, sock, tab, last, ncut, nd, sent, got>>
RECURSIVE Sum(_)
Sum(X) == IF X = {} THEN 0 ELSE LET e == CHOOSE e \in X : TRUE IN Len(sent[e]) + Sum(X \ {e})
More == Sum(Ends) < MaxTotal
SendC(c) == LET e == <<lk[c].t, "c">> p == <<lk[c].t, "c", Len(sent[e]) + 1>> IN
            /\ lk[c].me = "open" /\ Len(sent[e]) < MaxSend /\ More
            /\ sent' = [sent EXCEPT ![e] = Append(@, p)]
            /\ lk' = [lk EXCEPT ![c].u = IF lk[c].st = "open" THEN Append(@, [m |-> "data", p |-> p]) ELSE @]
            /\ UNCHANGED <<up, dn, sv, px, sock, tab, last, nt, ncut, nd, got>>
SendS(a) == LET e == <<sock[a], "s">> p == <<sock[a], "s", Len(sent[e]) + 1>> IN
            /\ Len(sent[e]) < MaxSend /\ More
            /\ sent' = [sent EXCEPT ![e] = Append(@, p)] /\ up' = Append(up, [m |-> "data", a |-> a, p |-> p])
            /\ UNCHANGED <<dn, sv, px, sock, tab, last, lk, nt, ncut, nd, got>>
\* the application ends a tunnel: at the remote connection, at the socket
EndC(c) == /\ lk[c].me = "open" /\ lk[c].st = "open"
           /\ lk' = [lk EXCEPT ![c].me = "idle", ![c].u = Append(@, [m |-> "eof"]), ![c].d = <<>>, ![c].st = "cut"]
           /\ UNCHANGED <<up, dn, sv, px, sock, tab, last, nt, ncut, nd, sent, got>>
EndS(a) == up' = Append(up, [m |-> "disc", a |-> a]) /\ nd < MaxDisc /\ nd' = nd + 1 /\ UNCHANGED <<dn, sv, px, sock, tab, last, lk, nt, ncut, sent, got>>

\* ------------------------------------------------------------ faults: a link breaks, both ends learn of it after what was in flight, or instead of it
Upto(q) == {SubSeq(q, 1, n) : n \in 0..Len(q)}
CutC(c) == /\ lk[c].st = "open" /\ ncut < MaxCut /\ ncut' = ncut + 1
           /\ \E u \in Upto(lk[c].u), d \in Upto(lk[c].d) : lk' = [lk EXCEPT ![c].st = "cut", ![c].u = Append(u, [m |-> "eof"]), ![c].d = Append(d, [m |-> "eof"])]
           /\ UNCHANGED <<up, dn, sv, px, sock, tab, last, nt, nd, sent, got>>
CutS == /\ sv # "off" /\ px # "none" /\ ncut < MaxCut /\ ncut' = ncut + 1
        /\ ~\E k \in 1..Len(up) : up[k].m = "eof"
        /\ \E u \in Upto(up), d \in Upto(dn) : up' = Append(u, [m |-> "eof"]) /\ dn' = Append(d, [m |-> "eof"])
        /\ UNCHANGED <<sv, px, sock, tab, last, lk, nt, nd, sent, got>>

\* ------------------------------------------------------------ the proxy takes one message
Closed(l) == [l EXCEPT !.px = "none", !.u = <<>>, !.d = Append(@, [m |-> "eof"]), !.st = "cut"]
Free == {a \in 1..AddrM : a \notin DOMAIN tab}
NextAddr == LET nx(k) == ((last + k - 1) % AddrM) + 1
            IN IF AddrRule = "lowest" THEN CHOOSE a \in Free : \A b \in Free : a <= b
               ELSE nx(CHOOSE k \in 1..AddrM : nx(k) \in Free /\ \A j \in 1..(k - 1) : nx(j) \notin Free)
AddrOf(c) == CHOOSE a \in DOMAIN tab : tab[a] = c
Attached(c) == \E a \in DOMAIN tab : tab[a] = c
PxClient(c) ==
    /\ lk[c].u # <<>> /\ lk[c].px # "none"
    /\ LET m == Head(lk[c].u) r == [lk[c] EXCEPT !.u = Tail(@)] IN
       CASE m.m = "reg" -> IF px = "srv" /\ Free # {}
                           THEN /\ tab' = Put(tab, NextAddr, c) /\ last' = NextAddr
                                /\ dn' = Append(dn, [m |-> "conn", a |-> NextAddr, t |-> lk[c].t])
                                /\ lk' = [lk EXCEPT ![c] = [r EXCEPT !.px = "cli", !.d = IF r.st = "open" THEN Append(@, [m |-> "ok"]) ELSE @]]
                           ELSE lk' = [lk EXCEPT ![c] = Closed(r)] /\ UNCHANGED <<tab, last, dn>>
         [] m.m = "data" -> dn' = Append(dn, [m |-> "data", a |-> AddrOf(c), p |-> m.p]) /\ lk' = [lk EXCEPT ![c] = r] /\ UNCHANGED <<tab, last>>
         [] m.m = "eof" -> /\ lk' = [lk EXCEPT ![c] = [r EXCEPT !.px = "none"]] /\ UNCHANGED last
                           /\ IF Attached(c) THEN dn' = Append(dn, [m |-> "gone", a |-> AddrOf(c)]) /\ tab' = Del(tab, AddrOf(c)) ELSE UNCHANGED <<dn, tab>>
    /\ UNCHANGED <<up, sv, px, sock, nt, ncut, nd, sent, got>>
\* once the server's link is broken nothing reaches it: what the proxy puts behind the eof is lost
PxServer ==
    /\ up # <<>> /\ px # "none" /\ up' = Tail(up)
    /\ LET m == Head(up) IN
       CASE m.m = "reg" -> px' = "srv" /\ dn' = Append(dn, [m |-> "ok"]) /\ UNCHANGED <<tab, lk>>
         [] m.m = "data" -> /\ lk' = IF m.a \in DOMAIN tab /\ lk[tab[m.a]].st = "open" THEN [lk EXCEPT ![tab[m.a]].d = Append(@, [m |-> "data", p |-> m.p])] ELSE lk
                            /\ UNCHANGED <<dn, px, tab>>
         [] m.m = "disc" -> /\ IF m.a \in DOMAIN tab
                               THEN lk' = [lk EXCEPT ![tab[m.a]] = Closed(@)] /\ tab' = Del(tab, m.a) /\ dn' = Append(dn, [m |-> "gone", a |-> m.a])
                               ELSE UNCHANGED <<lk, tab, dn>>
                            /\ UNCHANGED px
         [] m.m = "eof" -> /\ lk' = [c \in Rcs |-> IF Attached(c) THEN Closed(lk[c]) ELSE lk[c]]
                           /\ tab' = Empty /\ px' = "none" /\ UNCHANGED dn
    /\ UNCHANGED <<sv, sock, last, nt, ncut, nd, sent, got>>

\* ------------------------------------------------------------ the libraries take one message
LibServer ==
    /\ dn # <<>> /\ sv # "off" /\ dn' = Tail(dn)
    /\ LET m == Head(dn) IN
       CASE m.m = "ok"   -> sv' = "run" /\ UNCHANGED <<sock, got, up>>
         [] m.m = "conn" -> sock' = Put(sock, m.a, m.t) /\ UNCHANGED <<sv, got, up>>
         [] m.m = "gone" -> sock' = Del(sock, m.a) /\ UNCHANGED <<sv, got, up>>
         [] m.m = "data" -> /\ got' = IF m.a \in DOMAIN sock THEN [got EXCEPT ![<<sock[m.a], "c">>] = Append(@, m.p)] ELSE got
                            /\ UNCHANGED <<sv, sock, up>>
         [] m.m = "eof"  -> sv' = "off" /\ sock' = Empty /\ UNCHANGED <<got, up>>
    /\ UNCHANGED <<px, tab, last, lk, nt, ncut, nd, sent>>
\* what was sent behind an eof reaches nobody
Sweep == /\ \/ sv = "off" /\ dn # <<>>
            \/ px = "none" /\ up # <<>>
         /\ dn' = IF sv = "off" THEN <<>> ELSE dn
         /\ up' = IF px = "none" THEN <<>> ELSE up
         /\ UNCHANGED <<sv, px, sock, tab, last, lk, nt, ncut, nd, sent, got>>
LibClient(c) ==
    /\ lk[c].d # <<>> /\ lk[c].me # "idle"
    /\ LET m == Head(lk[c].d) r == [lk[c] EXCEPT !.d = Tail(@)] IN
       CASE m.m = "ok"   -> lk' = [lk EXCEPT ![c] = [r EXCEPT !.me = "open"]] /\ UNCHANGED got
         [] m.m = "data" -> lk' = [lk EXCEPT ![c] = r] /\ got' = [got EXCEPT ![<<lk[c].t, "s">>] = Append(@, m.p)]
         [] m.m = "eof"  -> lk' = [lk EXCEPT ![c] = [r EXCEPT !.me = "idle", !.d = <<>>]] /\ UNCHANGED got
    /\ UNCHANGED <<up, dn, sv, px, sock, tab, last, nt, ncut, nd, sent>>
\* both ends are done with a link
Forget(c) == /\ lk[c].st = "cut" /\ lk[c].px = "none" /\ lk[c].me = "idle"
             /\ lk' = [lk EXCEPT ![c] = NoLink] /\ UNCHANGED <<up, dn, sv, px, sock, tab, last, nt, ncut, nd, sent, got>>

Take == PxServer \/ LibServer \/ Sweep \/ \E c \in Rcs : PxClient(c) \/ LibClient(c) \/ Forget(c)
Next == Take \/ Start \/ CutS \/ (\E a \in DOMAIN sock : SendS(a) \/ EndS(a))
        \/ \E c \in Rcs : Connect(c) \/ SendC(c) \/ EndC(c) \/ CutC(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Take)

---------------------------------------------------------------------------
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* C01, C02, C05: what comes out at an end of a tunnel is what was put in at its other end, in order, nothing else
Streams == \A e \in Ends : Prefix(got[e], sent[e])
\* one remote connection has one address; the library's sockets are tunnels that exist or whose end is on its way
OneAddress == \A a, b \in DOMAIN tab : tab[a] = tab[b] => a = b
Quiescent == up = <<>> /\ dn = <<>> /\ \A c \in Rcs : lk[c].u = <<>> /\ lk[c].d = <<>> /\ ~(lk[c].st = "cut")
\* C06, C07, C21: once everything in flight has arrived, both ends and the proxy agree on the tunnels there are
Agree == Quiescent => /\ {sock[a] : a \in DOMAIN sock} = {lk[c].t : c \in {c \in Rcs : lk[c].me = "open"}}
                      /\ \A a \in DOMAIN tab : a \in DOMAIN sock /\ sock[a] = lk[tab[a]].t
                      /\ DOMAIN sock = DOMAIN tab
                      /\ sv = "run" <=> px = "srv"
\* and tunnels which were not ended have lost nothing
Complete == Quiescent => \A c \in Rcs : lk[c].me = "open" => \A d \in {"c", "s"} : got[<<lk[c].t, d>>] = sent[<<lk[c].t, d>>]
\* everything settles
Settles == []<>(~ENABLED Take)
=============================================================================
