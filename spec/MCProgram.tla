----------------------------- MODULE MCProgram -----------------------------
(* Checks Program: every order of launches, signals, kills, peers and tools. *)
EXTENDS Program
CONSTANTS Peers, Uuids, Tools, Runs
VARIABLES S, runs, tried
vars == <<S, runs, tried>>

Args == {[server |-> m \in {"s", "sc"}, client |-> m \in {"c", "sc"}, suuid |-> su, url |-> "ok", name |-> "", insecure |-> i, random |-> TRUE, scheme |-> IF i THEN "ssl" ELSE "tcp"] :
            m \in {"s", "c", "sc", ""}, su \in {"", "bad"} \cup Uuids, i \in BOOLEAN}

Init == S = P0 /\ runs = 0 /\ tried = {}
DoLaunch == S.phase \in {"none", "gone"} /\ runs < Runs /\ runs' = runs + 1 /\ (\E t \in BOOLEAN : S' = Launch(S, t)) /\ UNCHANGED tried
DoReady == S.phase = "starting" /\ S' = Ready(S) /\ UNCHANGED <<runs, tried>>
DoSignal == S.pend = "" /\ S.phase \in {"starting", "serving"} /\ (\E g \in {"SIGTERM", "SIGKILL"} : S' = Signal(S, g)) /\ UNCHANGED <<runs, tried>>
DoEnd == (\E h \in Ends(S) : \E f \in Leaves(S, h) : S' = End(S, h, f)) /\ tried' = {} /\ UNCHANGED runs
DoAttach == \E p \in Peers : Up(S) /\ p \notin S.conn /\ S' = Attach(S, p) /\ UNCHANGED <<runs, tried>>
DoAway == \E p \in Peers : p \in S.conn /\ S' = Away(S, p) /\ UNCHANGED <<runs, tried>>
DoReg == \E p \in Peers : p \in S.conn /\ (\E r \in {"s", "c"}, u, s \in Uuids : S' = Register(S, p, r, u, s)) /\ UNCHANGED <<runs, tried>>
DoTool == \E t \in Tools : t \notin DOMAIN S.tools /\ (\E a \in Args, u \in Uuids : S' = StartTool(S, t, a, u)) /\ S' # S /\ UNCHANGED <<runs, tried>>
DoToolIn == \E t \in DOMAIN S.tools : CanAttach(S, t) /\ (Mode(S.tools[t].a) = "s" \/ t \notin tried) /\ S' = ToolIn(S, t) /\ tried' = tried \cup {t} /\ UNCHANGED runs
DoToolEnd == \E t \in DOMAIN S.tools : S' = EndTool(S, t) /\ tried' = tried \ {t} /\ UNCHANGED runs
Next == DoLaunch \/ DoReady \/ DoSignal \/ DoEnd \/ DoAttach \/ DoAway \/ DoReg \/ DoTool \/ DoToolIn \/ DoToolEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(DoReady) /\ WF_vars(DoEnd) /\ WF_vars(DoToolIn)

Clean == S.phase = "gone" => S.conn = {} /\ S.reg = <<>> /\ (S.exit = "exit 0" => S.files = {})
Serving == Up(S) => S.files = SocketFiles
Fresh == S.phase = "starting" => S.conn = {} /\ S.reg = <<>>
Known == DOMAIN S.reg \subseteq S.conn
OneHolder == \A a, b \in DOMAIN S.reg : a # b => S.reg[a].u # S.reg[b].u
Attached == \A c \in Clients(S) : ServerOf(S, S.reg[c].s) # {}
Order == S.phase = "gone" /\ S.exit = "exit 0" => S.pend = ""
NeverBad == \A t \in DOMAIN S.tools : ~Refused(S.tools[t].a) /\ (t \in S.conn => Trusts(S, S.tools[t].a))
\* a signal ends the process, and a tool that may be a tunnel server becomes one
Obeys == (S.pend # "") ~> (S.phase = "gone")
Starts == (S.phase = "starting") ~> (S.phase # "starting")
Back == \A t \in Tools : (t \in DOMAIN S.tools /\ Mode(S.tools[t].a) = "s" /\ Up(S)) ~> (t \notin DOMAIN S.tools \/ ~CanAttach(S, t))
============================================================================
