-------------------------------- MODULE Sig --------------------------------
(***************************************************************************)
(* Contract of libmonitor's signal handling: dispositions (C15), delivery  *)
(* (C16, C17), masks (C18) and waiting for signals (C19).  As in Life,     *)
(* GStep(s, e, X) is total and gives the next state and the broken clauses.*)
(*                                                                         *)
(* Per process: the dispositions the application installed, the client's   *)
(* registrations, the reserved signals.  Per thread: the true mask (once   *)
(* known), what is pending, the handlers being run, the call being made.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

GEmpty == [x \in {} |-> 0]
GPut(f, k, v) == (k :> v) @@ f
GGet(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Pow2 == [i \in 0..29 |-> 2^i]
BitsOf(a, b, c) == {i \in 1..30 : (a \div Pow2[i - 1]) % 2 = 1} \cup {i \in 31..60 : (b \div Pow2[i - 31]) % 2 = 1}
                   \cup {i \in 61..64 : (c \div Pow2[i - 61]) % 2 = 1}

Kill == 9  Stop == 19
GValid(g) == g \in 1..64 /\ g \notin {32, 33}
Untouchable == {Kill, Stop, 32, 33}
NoTerm == {17, 18, 23, 28}            \* CHLD CONT URG WINCH
StopSigs == {20, 21, 22}              \* TSTP TTIN TTOU
DflAct == [k |-> 0, f |-> 0, m |-> {}]
NoOp == [n |-> "", sig |-> 0, k |-> 0, f |-> 0, v |-> 0, req |-> {}]
NewGThr == [known |-> FALSE, mask |-> {}, pend |-> <<>>, ext |-> <<>>, fr |-> <<>>, op |-> NoOp, eold |-> {}, eoldk |-> FALSE,
            ctx |-> "", sw |-> <<>>, swret |-> 0, jd |-> 0, jm |-> {}, maybe |-> {}, got |-> 0, last |-> 0, lastm |-> {}, inm |-> FALSE, fki |-> -1]
NewGProc(X) == [acts |-> [g \in {X.ign[i] : i \in DOMAIN X.ign} |-> [k |-> 1, f |-> 0, m |-> {}]], cl |-> GEmpty,
                res |-> {X.cfg[i] : i \in DOMAIN X.cfg}, lt |-> GEmpty, shoot |-> X.shoot, th |-> GEmpty, nu |-> GEmpty,
                shared |-> <<>>, stops |-> 0, ending |-> FALSE, img |-> FALSE, xm |-> <<>>, mainu |-> 0,
                fsn |-> GEmpty]      \* fork in progress (an id) -> what its child starts from
GInit == [ps |-> GEmpty]

Act(P, g) == GGet(P.acts, g, DflAct)
(* while a thread is changing a disposition, either the old or the new one applies, whole *)
Acts(P, g) == {Act(P, g)} \cup {[k |-> P.th[w].op.k, f |-> P.th[w].op.f, m |-> P.th[w].op.req \ {Kill, Stop}] :
                                 w \in {w \in DOMAIN P.th : P.th[w].op.n = "sa" /\ P.th[w].op.sig = g /\ P.th[w].op.k # -1}}
Rsv(P) == P.res \cup (IF P.shoot > 0 THEN {P.shoot} ELSE {})
HasClient(P, g) == g \in DOMAIN P.cl
Handled(P, g) == Act(P, g).k \in {2, 3}
Dies(P, g) == Act(P, g).k = 0 /\ g \notin NoTerm /\ g \notin StopSigs
Visible(P, g) == HasClient(P, g) \/ Handled(P, g)

(* pending entries: [g signal, v value, c code, async sent from elsewhere] *)
AddPend(q, x) == IF x.g < 32 /\ \E i \in DOMAIN q : q[i].g = x.g THEN q ELSE Append(q, x)
FirstOf(q, g) == LET S == {i \in DOMAIN q : q[i].g = g} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
FilterQ(q, Keep(_)) == SelectSeq(q, Keep)

CodeOf(how) == CASE how \in {0, 2, 4, 8} -> -6 [] how \in {1, 5} -> 0 [] how = 3 -> -1 [] OTHER -> 1000
SharedHow(how) == how \in {1, 3, 5, 6}

BrokenG(cs) == {<<cs[i][2], cs[i][3]>> : i \in {j \in DOMAIN cs : ~cs[j][1]}}
GR(s, p, P, cs) == [s |-> [s EXCEPT !.ps = GPut(s.ps, p, P)], v |-> BrokenG(cs)]

(* what a thread must have had delivered before it does anything else *)
Must(P, t) ==
  IF ~t.known \/ P.ending THEN {}
  ELSE {x \in ({t.pend[i] : i \in DOMAIN t.pend} \cup (IF Cardinality(DOMAIN P.th) <= 1 THEN {P.shared[i] : i \in DOMAIN P.shared} ELSE {})) :
          x.g \notin t.mask /\ ~x.async /\ x.g \notin t.maybe}
(* pending signals that need no visible delivery are dropped once unblocked *)
DropT(P, t) == [t EXCEPT !.pend = FilterQ(@, LAMBDA x : ~(t.known /\ x.g \notin t.mask /\ ~Visible(P, x.g) /\ ~Dies(P, x.g)))]
DropP(P, t) == [P EXCEPT !.shared = FilterQ(@, LAMBDA x : ~(t.known /\ Cardinality(DOMAIN P.th) <= 1 /\ x.g \notin t.mask /\ ~Visible(P, x.g) /\ ~Dies(P, x.g)))]

Top(t) == IF t.fr = <<>> THEN [g |-> 0, ph |-> "", save |-> {}, w |-> FALSE] ELSE t.fr[Len(t.fr)]
Pop(t) == LET f == Top(t) IN [t EXCEPT !.mask = f.save, !.op = f.op, !.eold = f.eold, !.inm = f.inm, !.sw = f.sw, !.known = f.kn, !.fr = SubSeq(@, 1, Len(@) - 1)]

(* clauses that hold whenever a thread proceeds with an operation of its own *)
Proceed(P, t) ==
  LET must == Must(P, t) IN
  << <<\A x \in must : ~Visible(P, x.g), "C16", "signal was not delivered">>,
     <<\A x \in must : Visible(P, x.g) \/ ~Dies(P, x.g), "C17", "survived a fatal signal">>,
     <<Top(t).ph # "pass", "C16", "application's handler did not run after the client passed the signal on">>,
     <<Top(t).ph # "die", "C17", "survived a fatal signal that the client passed on">>,
     <<P.stops <= 0, "C16", "stop signal did not stop the process">> >>

(* client signals that were registered after the action for g was installed *)
Late(P, g) == GGet(P.lt, g, {})
KernMask(P, t, g, a) ==
  [must |-> t.mask \cup (a.m \ (Rsv(P) \cup Late(P, g))) \cup (IF P.shoot > 0 THEN {P.shoot} ELSE {})
              \cup (IF (a.f \div 4) % 2 = 1 THEN {} ELSE {g}),
   may |-> t.mask \cup (a.m \ (Rsv(P) \ Late(P, g))) \cup (IF P.shoot > 0 THEN {P.shoot} ELSE 34..64) \cup {g}]

(* a child starts from what its parent's forking thread had when it forked *)
Snap0(P, u, t) == [P EXCEPT !.th = GPut(GEmpty, u, t), !.fsn = GEmpty]

OpEvents == {"sa_b", "sg_b", "csa_b", "mask_b", "snd", "snt", "sw_b", "sa_e", "sg_e", "csa_e", "mask_e", "ah.", "ch.", "mark"}

GStep(s, e, X) ==
 LET p == e.p
     u == e.u
     P0 == GGet(s.ps, p, NewGProc(X))
     t0 == GGet(P0.th, u, NewGThr)
     isop == e.e \in OpEvents
     chk == IF isop /\ e.e # "ch." /\ e.e # "ah." THEN Proceed(P0, t0)
            ELSE IF e.e \in {"ah.", "ch."} /\ t0.sw = <<>> THEN << <<\A x \in Must(P0, t0) : ~Visible(P0, x.g), "C16", "signal was not delivered">> >>
            ELSE <<>>
     P == IF isop THEN DropP(P0, t0) ELSE P0
     t == IF isop THEN DropT(P0, t0) ELSE t0
     Set(tt) == [P EXCEPT !.th = GPut(@, u, tt)]
     set == BitsOf(e.a, e.b, e.c)
 IN
 CASE e.e = "spawn" -> GR(s, p, NewGProc(X), <<>>)
   [] e.e = "image" ->
        LET old == P0
            N == [NewGProc(X) EXCEPT !.acts = [g \in {x \in DOMAIN old.acts : old.acts[x].k = 1} |-> [k |-> 1, f |-> 0, m |-> {}]],
                                     !.img = TRUE, !.mainu = u, !.fsn = old.fsn,
                                     !.th = IF old.xm # <<>> THEN GPut(GEmpty, u, [NewGThr EXCEPT !.known = TRUE, !.mask = old.xm[1]]) ELSE GEmpty]
        IN GR(s, p, N, <<>>)
   [] e.e = "born" ->
        LET Q0 == GGet(s.ps, e.a, NewGProc(X))
            Q == GGet(Q0.fsn, e.b, Q0)
            q == GGet(Q.th, u, NewGThr) IN
        GR(s, p, [Q EXCEPT !.th = GPut(GEmpty, u, [q EXCEPT !.pend = <<>>]), !.shared = <<>>, !.stops = 0, !.ending = FALSE, !.mainu = u,
                           !.nu = GEmpty, !.fsn = GEmpty], <<>>)
   [] e.e = "fork_b" -> GR(s, p, [Set([t EXCEPT !.fki = e.b]) EXCEPT !.fsn = GPut(@, e.b, Snap0(P, u, t))], <<>>)
   [] e.e = "pre_fork." /\ t.fki # -1 -> GR(s, p, [P EXCEPT !.fsn = GPut(@, t.fki, Snap0(P, u, t))], <<>>)
   [] e.e \in {"fork_p", "fork_c"} -> GR(s, p, Set([t EXCEPT !.fki = -1]), <<>>)
   [] e.e = "main" -> GR(s, p, [P EXCEPT !.mainu = u, !.th = GPut(@, u, t)], <<>>)
   [] e.e = "start" -> GR(s, p, [P EXCEPT !.nu = GPut(@, e.a, u), !.th = GPut(@, u, t)], <<>>)
   [] e.e \in {"tend"} -> GR(s, p, [P EXCEPT !.th = GPut(@, u, [NewGThr EXCEPT !.ext = t.ext])], <<>>)
   [] e.e \in {"exit_b", "sig_b", "begin_exit", "end"} -> GR(s, p, [P EXCEPT !.ending = IF e.e \in {"begin_exit", "end", "exit_b"} THEN TRUE ELSE @], <<>>)
   [] e.e = "exec_b" -> GR(s, p, [P EXCEPT !.xm = IF t.known THEN <<t.mask>> ELSE <<>>], <<>>)
   [] e.e = "stopped" -> GR(s, p, [P EXCEPT !.stops = @ - 1], << <<P.stops > 0, "C16", "process stopped without a stop signal">> >>)
   \* ------------------------------------------------ dispositions
   [] e.e = "sa_b" -> GR(s, p, Set([t EXCEPT !.op = [NoOp EXCEPT !.n = "sa", !.sig = e.a, !.k = e.b, !.f = e.c, !.v = e.d], !.ctx = "req"]), chk)
   [] e.e = "sa_e" ->
        LET o == t.op
            a == Act(P, o.sig)
            bad == ~GValid(o.sig) \/ (o.sig \in {Kill, Stop} /\ o.k # -1)
            ok == ~bad
            P1 == IF ok /\ o.k # -1 THEN [P EXCEPT !.acts = GPut(@, o.sig, [k |-> o.k, f |-> o.f, m |-> o.req \ {Kill, Stop}]), !.lt = GPut(@, o.sig, {})] ELSE P
            t1 == [t EXCEPT !.op = NoOp, !.eold = a.m, !.eoldk = (ok /\ o.v # 2 /\ a.f # -1), !.ctx = "old",
                            !.maybe = IF o.k = 1 \/ (o.k = 0 /\ o.sig \in NoTerm) THEN @ \cup {o.sig} ELSE @]
        IN GR(s, p, [P1 EXCEPT !.th = GPut(@, u, t1)], chk \o
          << <<~bad \/ (e.a = -1 /\ e.b = 22), "C15", "sigaction accepts an invalid signal or fails with another error">>,
             <<bad \/ e.a = 0, "C15", "sigaction fails although the signal is valid">>,
             <<bad \/ e.a # 0 \/ o.v = 2 \/ e.c = a.k, "C15", "sigaction reports another handler than the application installed">>,
             <<bad \/ e.a # 0 \/ o.v = 2 \/ a.f = -1 \/ e.d = a.f, "C15", "sigaction reports other flags than the application installed">> >>)
   [] e.e = "sg_b" -> GR(s, p, Set([t EXCEPT !.op = [NoOp EXCEPT !.n = "sg", !.sig = e.a, !.k = e.b]]), chk)
   [] e.e = "sg_e" ->
        LET o == t.op
            a == Act(P, o.sig)
            bad == ~GValid(o.sig) \/ o.sig \in {Kill, Stop} \/ o.k = -8
            P1 == IF bad THEN P ELSE [P EXCEPT !.acts = GPut(@, o.sig, [k |-> o.k, f |-> -1, m |-> {}])]
            t1 == [t EXCEPT !.maybe = IF o.k = 1 \/ (o.k = 0 /\ o.sig \in NoTerm) THEN @ \cup {o.sig} ELSE @]
        IN GR(s, p, [P1 EXCEPT !.th = GPut(@, u, t1)], chk \o
          << <<~bad \/ (e.a = -8 /\ e.b = 22), "C15", "signal accepts an invalid signal or handler or fails with another error">>,
             <<bad \/ e.a = a.k, "C15", "signal reports another handler than the application installed">> >>)
   [] e.e = "csa_b" -> GR(s, p, Set([t EXCEPT !.op = [NoOp EXCEPT !.n = "csa", !.sig = e.a, !.k = e.b, !.v = e.c], !.ctx = "req"]), chk)
   [] e.e = "csa_e" ->
        LET o == t.op
            bad == ~GValid(o.sig) \/ o.sig \in {Kill, Stop}
            P1 == IF bad THEN P ELSE [P EXCEPT !.cl = IF o.k = 2 THEN [x \in DOMAIN @ \ {o.sig} |-> @[x]] ELSE GPut(@, o.sig, o.k),
                                               !.lt = IF o.sig \in P.res THEN @ ELSE [x \in DOMAIN P.acts |-> GGet(@, x, {}) \cup {o.sig}],
                                               !.res = @ \cup {o.sig}]
        IN GR(s, p, [P1 EXCEPT !.th = GPut(@, u, t)], chk \o
          << <<bad = (e.a # 0) /\ (~bad \/ e.a = -1), "C15", "client registration result is wrong">> >>)
   \* ------------------------------------------------ masks
   [] e.e = "mask_b" -> GR(s, p, Set([t EXCEPT !.op = [NoOp EXCEPT !.n = "mask", !.k = e.a, !.f = e.b, !.v = e.c], !.ctx = "mreq"]), chk)
   [] e.e = "mask_e" ->
        LET o == t.op
            bad == o.v = 0 /\ o.k \notin {0, 1, 2}
            fails == IF o.f \in {0, 3} THEN e.a = -1 /\ e.b = 22 ELSE e.a = 22 IN
        GR(s, p, Set([t EXCEPT !.ctx = "mold", !.inm = FALSE, !.eoldk = (e.c = 0 /\ ~bad)]), chk \o
          << <<bad = (e.a # 0), IF o.f >= 2 THEN "C14" ELSE "C18", "mask call fails or succeeds differently">>,
             <<~bad \/ fails, IF o.f >= 2 THEN "C14" ELSE "C18", "mask call reports another error">> >>)
   [] e.e = "mk" /\ t.ctx = "req" /\ e.s = "req" -> GR(s, p, Set([t EXCEPT !.op.req = set, !.ctx = ""]), <<>>)
   [] e.e = "mk" /\ t.ctx = "mreq" /\ e.s = "req" ->
        LET o == t.op
            rs == IF o.f >= 2 THEN {} ELSE Rsv(P)
            req == set \ rs
            new == (CASE o.v = 1 \/ o.k \notin {0, 1, 2} -> t.mask
                      [] o.k = 0 -> t.mask \cup req
                      [] o.k = 1 -> t.mask \ req
                      [] OTHER -> req \cup (t.mask \cap rs)) \ {Kill, Stop}
        IN GR(s, p, Set([t EXCEPT !.eold = t.mask, !.mask = IF t.known THEN new ELSE @, !.op.req = set, !.ctx = "", !.inm = TRUE]), <<>>)
   [] e.e = "mk" /\ e.s = "old" /\ t.ctx = "old" ->
        GR(s, p, Set([t EXCEPT !.ctx = ""]),
          << <<~t.eoldk \/ set \ {Kill, Stop} = t.eold, "C15", "sigaction reports another mask than the application installed">> >>)
   [] e.e = "mk" /\ e.s = "old" /\ t.ctx = "mold" ->
        GR(s, p, Set([t EXCEPT !.ctx = "cur"]), << <<~t.eoldk \/ ~t.known \/ set = t.eold, IF t.op.f >= 2 THEN "C14" ELSE "C18", "reported old mask is not the true one">> >>)
   [] e.e = "mk" /\ e.s = "cur" ->
        (* an unblockable signal that is not known as reserved is the shootdown signal *)
        LET o == t.op
            un == IF t.ctx = "cur" /\ t.known /\ P.shoot = 0 /\ o.f < 2 THEN (set \ t.mask) \cup (t.mask \ set) ELSE {}
            sh == IF Cardinality(un) = 1 THEN CHOOSE x \in un : TRUE ELSE 0
            okm == set = t.mask \/ (sh > 0 /\ (sh \in o.req \/ o.k = 2))
        IN GR(s, p, [P EXCEPT !.shoot = IF sh > 0 THEN sh ELSE @, !.th = GPut(@, u, [t EXCEPT !.mask = set, !.known = TRUE, !.ctx = ""])],
          << <<~t.known \/ okm, IF o.n = "mask" /\ o.f >= 2 THEN "C14" ELSE "C18", "mask is not what was asked for and reserved signals allow">> >>)
   [] e.e = "mk" /\ e.s = "rsv" ->
        GR(s, p, [P EXCEPT !.shoot = IF @ = 0 /\ Cardinality(set \ P.res) = 1 THEN CHOOSE x \in set \ P.res : TRUE ELSE @],
          << <<P.shoot = 0 \/ (set \ {Kill, Stop}) = Rsv(P) \/ ~t.known, "C18", "unblockable signals are not the reserved ones">>,
             <<P.shoot # 0 \/ Cardinality(set \ P.res) = 1, "C18", "no single shootdown signal is reserved">>,
             <<P.res \subseteq set, "C18", "a configured client signal can be blocked">> >>)
   \* ------------------------------------------------ sending and delivery
   [] e.e = "snd" ->
        LET x == [g |-> e.a, v |-> IF e.b = 3 THEN e.c ELSE 0, c |-> CodeOf(e.b), async |-> FALSE]
            tgt == IF e.b = 4 THEN GGet(P.nu, e.d, -1) ELSE IF e.b = 8 THEN P.mainu ELSE u
            self == tgt = u
            stop == self /\ t.known /\ e.a \notin t.mask /\ ~HasClient(P, e.a) /\ Act(P, e.a).k = 0 /\ e.a \in StopSigs
            t1 == [t EXCEPT !.jd = IF e.b >= 10 THEN Len(t.fr) ELSE @, !.jm = IF e.b >= 10 THEN t.mask ELSE @, !.maybe = @ \ {e.a}]
            P1 == [P EXCEPT !.th = GPut(@, u, t1), !.stops = IF stop THEN @ + 1 ELSE @]
            P2 == IF ~GValid(e.a) \/ stop \/ e.b = 9 THEN P1
                  ELSE IF SharedHow(e.b) THEN [P1 EXCEPT !.shared = AddPend(@, [x EXCEPT !.async = e.b = 6])]
                  ELSE IF self THEN [P1 EXCEPT !.th[u].pend = AddPend(@, x)]
                  ELSE IF tgt \in DOMAIN P.th THEN [P1 EXCEPT !.th[tgt].pend = AddPend(@, [x EXCEPT !.async = TRUE])]
                  ELSE P1
        IN GR(s, p, P2, chk)
   [] e.e = "snt" -> GR(s, p, Set(t), chk)
   [] e.e = "pk" -> (* a signal the client has the library send to a thread: it may be merged with another one *)
        IF e.c = 1
          THEN GR(s, p, [P EXCEPT !.th = GPut(@, e.a, [GGet(@, e.a, NewGThr) EXCEPT !.ext = Append(@, e.b)])], <<>>)
          ELSE [s |-> s, v |-> {}]
   [] e.e \in {"ch", "ah"} ->
        LET g == e.a
            passed == e.e = "ah" /\ Top(t).ph = "pass" /\ Top(t).g = g
            inwait == t.sw # <<>> /\ g \in t.sw[1] /\ t.fr = <<>>
            i1 == FirstOf(t.pend, g)
            i2 == FirstOf(P.shared, g)
            code == e.c
            match(q, i) == i > 0 /\ (q[i].c = 1000 \/ ((e.e = "ah" /\ e.b < 10) \/ ((code = q[i].c \/ (inwait /\ code = 0 /\ q[i].c = -6)) /\ e.d = q[i].v)))
            usep == match(t.pend, i1)
            use == usep \/ match(P.shared, i2)
            t1 == IF passed THEN t ELSE IF usep THEN [t EXCEPT !.pend = Without(@, i1)] ELSE IF i1 > 0 /\ ~use THEN [t EXCEPT !.pend = Without(@, i1)] ELSE t
            byext == ~passed /\ i1 = 0 /\ i2 = 0 /\ \E i \in DOMAIN t.ext : t.ext[i] = g
            t1e == IF byext THEN [t1 EXCEPT !.ext = Without(@, CHOOSE i \in DOMAIN t.ext : t.ext[i] = g)] ELSE t1
            P1 == IF passed \/ usep THEN P ELSE IF i2 > 0 THEN [P EXCEPT !.shared = Without(@, i2)] ELSE P
            a == Act(P, g)
            t2 == IF passed THEN [t1e EXCEPT !.fr = [@ EXCEPT ![Len(@)].ph = "a"], !.ctx = ""]
                  ELSE [t1e EXCEPT !.fr = Append(@, [g |-> g, ph |-> IF e.e = "ch" THEN "c" ELSE "a", save |-> t.mask, w |-> inwait, op |-> t.op, eold |-> t.eold, inm |-> t.inm, sw |-> t.sw, kn |-> t.known]),
                                  !.ctx = IF inwait THEN "" ELSE "hm", !.last = g, !.lastm = t.mask, !.known = @ /\ ~t.inm, !.inm = FALSE]
        IN GR(s, p, [P1 EXCEPT !.th = GPut(@, u, t2)],
          << <<passed \/ i1 > 0 \/ i2 > 0 \/ g = 17 \/ byext, "C16", "signal handled more often than it was sent">>,
             <<passed \/ (i1 = 0 /\ i2 = 0) \/ use, IF inwait THEN "C19" ELSE "C16", "signal information changed">>,
             <<e.e # "ch" \/ (HasClient(P, g) /\ P.cl[g] = e.b), "C16", "signal offered to a client handler that is not the registered one">>,
             <<e.e # "ch" \/ e.s = "ok", "C16", "client got wrong signal information">>,
             <<e.e # "ah" \/ passed \/ ~HasClient(P, g), "C16", "application got a signal that was not offered to the client first">>,
             <<e.e # "ah" \/ (\E x \in Acts(P, g) : x.k \in {2, 3} /\ e.b % 10 = x.k /\ (x.f = -1 \/ e.b \div 10 = x.f % 2)), "C16", "not the application's current handler, or wrong kind of arguments">>,
             <<e.e # "ah" \/ e.s # "bad", "C16", "application's handler got wrong signal information">>,
             <<passed \/ inwait \/ ~t.known \/ t.inm \/ g \notin t.mask, "C16", "signal delivered while blocked">> >>)
   [] e.e = "mk" /\ e.s \in {"ch", "ah"} /\ t.ctx = "hm" ->
        LET g == t.last
            kms == {KernMask(P, [t EXCEPT !.mask = t.lastm], g, a) : a \in Acts(P, g)}
            \* several signals at once: their frames are stacked before the first handler runs
            also == {17} \cup {t.pend[i].g : i \in DOMAIN t.pend} \cup {P.shared[i].g : i \in DOMAIN P.shared}
            stk == also \cup UNION {Act(P, x).m : x \in also} IN
        GR(s, p, Set([t EXCEPT !.ctx = "", !.mask = IF t.known THEN set ELSE @]),
          << <<~t.known \/ (\E km \in kms : km.must \subseteq set), "C16", "handler runs without the requested mask in force">>,
             <<~t.known \/ (\E km \in kms : set \ km.must \subseteq km.may \cup stk), "C16", "handler runs with more signals blocked than requested">>,
             <<~t.known \/ ((set \ t.lastm) \cap ((Rsv(P) \ Late(P, g)) \ ({P.shoot, g} \cup also))) = {}, "C18", "handler runs with a reserved client signal masked">>,
             <<~t.known \/ P.shoot = 0 \/ P.shoot \in set, "C18", "handler runs with the shootdown signal open">> >>)
   [] e.e = "ch." ->
        LET g == Top(t).g
            a == Act(P, g)
            next == IF e.b = 0 THEN "none" ELSE IF Top(t).w THEN "ret" ELSE IF a.k \in {2, 3} THEN "pass" ELSE IF a.k = 1 \/ g \in NoTerm THEN "none"
                    ELSE IF g \in StopSigs THEN "stop" ELSE "die"
            t1 == CASE next \in {"pass", "die"} -> [t EXCEPT !.fr = [@ EXCEPT ![Len(@)].ph = next]]
                    [] next = "ret" -> [Pop(t) EXCEPT !.swret = g]
                    [] OTHER -> Pop(t)
        IN IF t.fr = <<>> THEN GR(s, p, P, <<>>) ELSE
           GR(s, p, [P EXCEPT !.th = GPut(@, u, t1), !.stops = IF next = "stop" THEN @ + 1 ELSE @], chk)
   [] e.e = "ah." -> IF t.fr = <<>> THEN GR(s, p, P, <<>>) ELSE GR(s, p, Set(Pop(t)), chk)
   [] e.e = "jumped" -> GR(s, p, Set([t EXCEPT !.fr = SubSeq(@, 1, t.jd), !.mask = t.jm]), <<>>)
   \* ------------------------------------------------ waiting
   [] e.e = "sw_b" -> GR(s, p, Set([t EXCEPT !.op = [NoOp EXCEPT !.n = "sw", !.k = e.a, !.v = e.b], !.ctx = "swreq"]), chk)
   [] e.e = "mk" /\ t.ctx = "swreq" /\ e.s = "req" -> GR(s, p, Set([t EXCEPT !.sw = <<set>>, !.swret = 0, !.ctx = ""]), <<>>)
   [] e.e = "sw_e" ->
        LET o == t.op
            ws == IF t.sw = <<>> THEN {} ELSE t.sw[1]
            i1 == FirstOf(t.pend, e.a)
            i2 == FirstOf(P.shared, e.a)
            byc == t.swret = e.a /\ e.a > 0
            val == e.c % 1000
            chkv == o.k \in {1, 2, 4}
            okv == ~chkv \/ byc \/ (i1 > 0 /\ (t.pend[i1].v = val)) \/ (i2 > 0 /\ P.shared[i2].v = val)
            ready == {x \in ({t.pend[i] : i \in DOMAIN t.pend} \cup {P.shared[i] : i \in DOMAIN P.shared}) :
                        x.g \in ws /\ ~x.async /\ ~(HasClient(P, x.g) /\ P.cl[x.g] = 0)}
            t1 == [t EXCEPT !.sw = <<>>, !.swret = 0, !.pend = IF byc \/ e.a <= 0 \/ i1 = 0 THEN @ ELSE Without(@, i1)]
            P1 == IF byc \/ e.a <= 0 \/ i1 > 0 \/ i2 = 0 THEN P ELSE [P EXCEPT !.shared = Without(@, i2)]
        IN GR(s, p, [P1 EXCEPT !.th = GPut(@, u, t1)],
          << <<e.a <= 0 \/ e.a \in ws, "C19", "wait returned a signal outside the set">>,
             <<e.a <= 0 \/ byc \/ i1 > 0 \/ i2 > 0 \/ e.a = 17, "C19", "wait returned a signal that was not sent">>,
             <<e.a <= 0 \/ byc \/ ~HasClient(P, e.a), "C19", "wait returned a signal that was not offered to the client">>,
             <<e.a <= 0 \/ ((okv \/ e.a = 17) /\ e.c < 1000), "C19", "wait returned wrong signal information">>,
             <<e.a <= 0 \/ e.b = 0, "C19", "successful wait reports an error">>,
             <<e.a # 0, "C19", "wait returned no signal">>,
             <<e.a >= 0 \/ e.b # 4, "C19", "wait was interrupted">>,
             <<e.a >= 0 \/ e.b \in (IF o.k = 5 THEN {22} ELSE IF o.k \in {2, 6} THEN {11} ELSE {}), "C19", "wait failed with an unexpected error">>,
             <<e.a >= 0 \/ o.k = 5 \/ (ready = {} /\ t.swret = 0), "C19", "wait did not return a pending signal">>,
             <<e.d # 1, "C19", "timed wait ended before its timeout">>,
             <<e.d # 2, "C19", "timed wait went on long after its timeout">>,
             <<o.k # 5 \/ e.a = -1, "C19", "wait accepted an invalid timeout">> >>)
   [] e.e = "fin" ->
        [s |-> s, v |-> UNION {UNION {IF s.ps[q].ending \/ ~s.ps[q].th[w].known THEN {} ELSE
             BrokenG(<< <<\A i \in DOMAIN s.ps[q].th[w].pend : LET x == s.ps[q].th[w].pend[i] IN x.g \in s.ps[q].th[w].mask \/ ~Visible(s.ps[q], x.g),
                          "C16", "signal never delivered">> >>) : w \in DOMAIN s.ps[q].th} : q \in DOMAIN s.ps}]
   [] OTHER -> IF isop THEN GR(s, p, Set(t), chk) ELSE [s |-> s, v |-> {}]
=============================================================================
