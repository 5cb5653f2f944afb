-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* Contract of libmonitor's process, thread, fork, exec and exit handling. *)
(*                                                                         *)
(* The observable behaviour is a sequence of events (callbacks, calls and  *)
(* returns of the application, process ends).  Step(s, e, X) is total: it  *)
(* gives the next contract state and the set of clauses that event e       *)
(* breaks; a clause is <<property id, text>>.  The same operator judges    *)
(*   - every event emitted by the design specifications (Exit.tla ...),    *)
(*     over all interleavings, and                                         *)
(*   - every event recorded from the real library (LifeTrace.tla).         *)
(*                                                                         *)
(* Event: [e, p, u, a, b, c, d, s]: name, process, thread, four integers,  *)
(* a string.  X: what the scenario expects of its environment.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyF == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Get(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt

(* kinds of exit request (event exit_b and signals) *)
KExit == 1  KuExit == 2  KUExit == 3  KMain == 4  KPexit == 5  KSig == 6
KExec == 7  KRexit == 8  KRabort == 9
HowOf(k) == CASE k \in 1..5 -> 1 [] k = 6 -> 2 [] k = 7 -> 3 [] OTHER -> 0

NewProc(kind) ==
  [kind |-> kind,        \* "img": program image; "fork": child of application fork;
                         \* "bare": child of the client's fork or of system()
   mon |-> FALSE,        \* a monitored image
   app |-> FALSE,        \* it is the scripted application
   early |-> FALSE,      \* constructors run script
   exp |-> <<>>,         \* <<argc, argv, env>> it was started with
   lib |-> 0, ip |-> 0, ipdone |-> FALSE, ipdata |-> 0, ms |-> 0, am |-> 0, mainIn |-> 0,
   fktok |-> -2,         \* pre-fork token of the fork that made it
   mainu |-> 0, mainthr |-> FALSE, mainign |-> FALSE, threaded |-> FALSE,
   reqs |-> {}, be |-> 0, bedone |-> FALSE, behow |-> 0, beu |-> 0,
   fp |-> 0, fpdone |-> FALSE, swept |-> FALSE,
   thr |-> EmptyF, mfini |-> 0, mblk |-> FALSE,
   pend |-> EmptyF,      \* pre-create token -> [n, idx, late]
   cr |-> EmptyF,        \* creating thread -> its creation in progress
   tids |-> {}, ign |-> {}, ignn |-> {}, pre |-> {}, nend |-> EmptyF,
   fk |-> EmptyF,        \* forking thread -> its fork or system call in progress (an id)
   fs |-> EmptyF,        \* id -> that call
   xe |-> EmptyF,        \* thread -> its exec in progress
   xwm |-> EmptyF, xexp |-> <<>>, bk |-> 0, kids |-> {}, bc |-> EmptyF, atreg |-> {}, atrun |-> {},
   bl |-> EmptyF,        \* thread -> threads were being finished when it asked to block
   again |-> FALSE,      \* the ending thread asked to end again, from inside its own end callbacks
   ag0 |-> {},           \* threads interrupted on their way into the end callbacks by a handler that asks again
   hd |-> EmptyF,        \* thread -> signal handlers it is in
   behd |-> FALSE,       \* the end callbacks run inside a signal handler
   xk |-> FALSE,         \* an exec cut a fork in another thread short
   ended |-> FALSE]

NoProc == NewProc("none")
(* exec replaces the program *)
Img(P) == [NewProc("img") EXCEPT !.kids = P.kids, !.fs = P.fs, !.xk = P.xk \/ \E w \in DOMAIN P.fk : P.fk[w] # 0]
NoSx == [ign |-> -1, mask |-> 0, env |-> 0, pl |-> 0, kind |-> 0]
InitState == [ps |-> EmptyF, born |-> {}, stop |-> FALSE, sx |-> NoSx]
NoBc == [sig |-> 0, must |-> {}, done |-> {}, sent |-> <<>>]

NewThr(tok, tid, idata) ==
  [n |-> 0, tok |-> tok, tid |-> tid, idata |-> idata, idx |-> -1, ph |-> "init",
   sb |-> FALSE, afp |-> FALSE, fini |-> 0, blk |-> FALSE]
\* a creation of a thread (up: the creation it is nested in, when a callback or a handler creates a thread)
NoCr == [n |-> 0, idx |-> -1, st |-> "none", tok |-> 0, ign |-> FALSE, late |-> FALSE, xr |-> 0, up |-> <<>>]
(* kinds of fork: 1 fork, 2 vfork, 3 the client's fork, 4 system, 5 the client's system *)
NoFk == [kind |-> 0, st |-> "none", tok |-> -2, child |-> 0, lib |-> 0, ms |-> 0, am |-> 0, mainIn |-> 0, early |-> FALSE, atreg |-> {}, want |-> -999, up |-> 0, exp |-> <<>>, app |-> FALSE, mon |-> FALSE, mainu |-> 0, mainthr |-> FALSE, ov |-> FALSE, ign |-> FALSE]
Snap(P, k) == [NoFk EXCEPT !.kind = k, !.st = "b", !.lib = P.lib, !.ms = P.ms, !.am = P.am, !.mainIn = P.mainIn,
                           !.early = P.early, !.atreg = P.atreg \ P.atrun, !.exp = P.exp, !.app = P.app, !.mon = P.mon,
                           !.mainu = P.mainu, !.mainthr = P.mainthr]

(* a set of violated clauses from a sequence of <<condition, id, text>> *)
Broken(cs) == {<<cs[i][2], cs[i][3]>> : i \in {j \in DOMAIN cs : ~cs[j][1]}}

(* a forked child that does not work as a monitored process breaks C11 as well *)
Kid == {"C02", "C03", "C04", "C05", "C06", "C07"}
R(s, p, P, cs) == [s |-> [s EXCEPT !.ps = Put(s.ps, p, P)],
                   v |-> {<<IF P.kind = "fork" /\ w[1] \in Kid THEN w[1] \o " C11" ELSE w[1], w[2]>> : w \in Broken(cs)}]
Skip(s) == [s |-> s, v |-> {}]

(* the threads that must have finished before fini-process *)
(* (a thread that a signal ending the process hits on the way out of its start routine has its fini-thread cut short or lost) *)
(* giveup: the scenario keeps a thread blocked for longer than the library waits *)
Unfinished(P, gu) == {u \in DOMAIN P.thr : P.thr[u].sb /\ ~(P.thr[u].blk /\ (gu = 1 \/ P.thr[u].ph = "ended")) /\ P.thr[u].fini # 2 /\ ~(u = P.beu /\ (P.behow = 2 \/ P.behd) /\ P.thr[u].ph = "ended")}

(* the end callbacks have all run, unless the client itself ended the process from inside them *)
Complete(P) == (P.be = 1 /\ P.bedone /\ P.fp = 1 /\ P.fpdone) \/ (P.again /\ P.be = 1 /\ P.fp <= 1)
               \/ (\E u \in P.ag0 : P.beu \in {0, u} /\ P.be <= 1 /\ P.fp <= 1)
(* the properties a clause about the end callbacks belongs to: C02, and what ends the process, and whose process it is *)
EndP(P, how) == "C02" \o (IF how = 2 THEN " C17" ELSE IF how = 3 THEN " C12" ELSE "") \o (IF P.kind = "fork" THEN " C11" ELSE "")
(* the exec that replaced the program *)
XE(P) == IF DOMAIN P.xe = {} THEN <<>> ELSE IF P.be > 0 /\ P.beu \in DOMAIN P.xe THEN P.xe[P.beu] ELSE P.xe[CHOOSE u \in DOMAIN P.xe : TRUE]

(* main on its way out of pthread_exit, after the end callbacks *)
Gone(P, u) == u = P.mainu /\ P.fpdone /\ \E r \in P.reqs : r.u = u /\ r.k = KPexit
(* a thread that asks to end the process from inside its own fini-thread callback does not return from it *)
CutShort(P, u) ==
  [P EXCEPT !.thr = IF u \in DOMAIN @ /\ @[u].fini = 1 THEN [@ EXCEPT ![u].fini = 2] ELSE @,
            !.mfini = IF u = P.mainu /\ u \notin DOMAIN P.thr /\ @ = 1 THEN 2 ELSE @]
CheckedArgs(P, e) == P.exp = <<>> \/ (e.a = P.exp[1] /\ e.c = P.exp[2])

Step(s, e, X) ==
 LET p == e.p
     u == e.u
     P == Get(s.ps, p, NoProc)
     isThr == u \in DOMAIN P.thr
     t == P.thr[u]
     crr == Get(P.cr, u, NoCr)
     fki == Get(P.fk, u, 0)
     fkk == Get(P.fs, fki, NoFk)
     fkp == IF fkk.kind = 4 THEN "C13" ELSE IF fkk.kind \in {3, 5} THEN "C14" ELSE IF fkk.kind = 6 THEN "C13" ELSE "C10"
 IN
 IF s.stop THEN Skip(s) ELSE
 CASE e.e = "spawn" ->
        R(s, p, [Img(P) EXCEPT !.exp = <<e.a, e.b, e.c>>, !.app = TRUE], <<>>)
   [] e.e = "image" ->
        LET repl == P.mon \/ P.kind \in {"fork", "bare"}
            x == XE(P)
            N == [Img(P) EXCEPT !.mon = TRUE, !.app = (e.a = 1), !.mainu = u,
                    !.exp = IF repl THEN (IF x = <<>> \/ x[2] = 0 THEN <<>> ELSE SubSeq(x, 1, 3)) ELSE P.exp, !.xexp = x, !.fs = P.fs] IN
        R(s, p, N,
          << <<~(P.mon /\ P.ip > 0 /\ x # <<>> /\ x[5] = 0) \/ Complete(P), "C12 C02", "program replaced without the end callbacks">>,
             <<~(P.mon /\ P.ip > 0 /\ x # <<>> /\ x[5] = 0) \/ Complete(P), "C02 C12", "exec without exactly one end sequence">>,
             <<~(x # <<>> /\ x[5] = 1), "C14", "program started by real exec is monitored">>,
             <<P.bk # 5, "C14", "command of the client's system is monitored">> >>)
   [] e.e = "born" ->
        LET Q == Get(s.ps, e.a, NoProc)
            f == Get(Q.fs, e.b, Snap(Q, 0))
            appf == f.kind \in {1, 2}
            N == [NewProc(IF appf \/ f.kind = 0 THEN "fork" ELSE "bare") EXCEPT
                    !.mon = f.mon, !.app = f.app, !.early = f.early /\ f.mainIn = 0, !.exp = f.exp, !.mainu = u, !.lib = f.lib,
                    !.ms = f.ms, !.am = f.am, !.mainIn = f.mainIn, !.mainthr = (u # f.mainu \/ f.mainthr), !.mainign = f.ign,
                    !.fktok = IF appf THEN f.tok ELSE -2, !.atreg = f.atreg, !.bk = f.kind]
        IN [s |-> [s EXCEPT !.ps = Put(s.ps, p, N), !.born = @ \cup {<<e.a, u, p, f.tok, appf>>}],
            v |-> Broken(<< <<~appf \/ f.st \in {"pre", "post"}, "C10", "child exists although pre-fork has not run">>,
                            <<f.kind # 4 \/ f.st \in {"pre", "post"}, "C13", "system's child exists although pre-fork has not run">> >>)]
   [] e.e = "init_library" ->
        R(s, p, [P EXCEPT !.lib = @ + 1],
          << <<P.lib = 0, "C01", "init-library runs again">>,
             <<P.ip = 0 /\ P.am = 0 /\ P.mainIn = 0, "C01", "init-library is late">> >>)
   [] e.e = "init_process" ->
        R(s, p, [P EXCEPT !.ip = @ + 1, !.ipdata = e.d],
          << <<P.lib = 1, "C01", "init-process before init-library">>,
             <<P.ip = 0, IF P.kind = "fork" THEN "C11 C10" ELSE "C01", "init-process runs again">>,
             <<P.kind # "bare", "C14", "init-process in a process made by the client's fork">>,
             <<P.kind # "img" \/ e.b = 0, "C01", "init-process got unexpected data">>,
             <<P.kind # "fork" \/ P.fktok = -2 \/ e.b = P.fktok, "C10 C11", "child's init-process did not get the pre-fork data">>,
             <<P.kind # "img" \/ P.mainIn = 0, "C01", "init-process after main was entered">>,
             <<CheckedArgs(P, e) \/ (P.early /\ e.a = 0 /\ e.c = 0), "C01", "init-process saw other arguments">> >>)
   [] e.e = "init_process." -> R(s, p, [P EXCEPT !.ipdone = TRUE], <<>>)
   [] e.e = "start_main_init" -> R(s, p, [P EXCEPT !.ms = @ + 1], << <<P.ms = 0 /\ P.mainIn = 0 /\ P.am = 0, "C01", "start-main-init again or late">> >>)
   [] e.e = "at_main" ->
        R(s, p, [P EXCEPT !.am = @ + 1],
          << <<P.am = 0 /\ P.mainIn = 0, "C01", "at-main again or late">>,
             <<P.ipdone, "C01", "at-main before init-process">> >>)
   [] e.e \in {"early", "initcall"} -> R(s, p, [P EXCEPT !.early = TRUE], <<>>)
   [] e.e = "main" ->
        R(s, p, [P EXCEPT !.mainIn = 1, !.mainu = u],
          << <<P.lib = 1 /\ P.ip = 1 /\ P.am = 1 /\ P.ms = 1 /\ P.ipdone, "C01", "main entered before the start callbacks ran once each">>,
             <<P.mainIn = 0, "C01", "main entered twice">>,
             <<P.exp = <<>> \/ <<e.a, e.b, e.c>> = P.exp, "C01", "main got other arguments or environment">> >>)
   \* ---------------------------------------------------- threads
   [] e.e = "create_b" ->
        R(s, p, [P EXCEPT !.cr = Put(@, u, [NoCr EXCEPT !.n = e.a, !.idx = e.b, !.st = "b", !.ign = (u \in P.ign),
                                              !.late = (P.threaded /\ P.fp > 0), !.xr = e.d,
                                              !.up = IF crr.st = "none" THEN <<>> ELSE <<crr>>]),
                          !.threaded = TRUE, !.nend = [x \in DOMAIN @ \ {e.a} |-> @[x]],
                          !.ignn = IF u \in P.ign \/ (~isThr /\ u # P.mainu) THEN @ \cup {e.a} ELSE @],
          <<>>)
   [] e.e = "thr_support" -> R(s, p, P, << <<P.ipdone, "C01", "thread callback before init-process">> >>)
   [] e.e = "pre_create" ->
        R(s, p, [P EXCEPT !.cr = Put(@, u, [crr EXCEPT !.st = "pre", !.tok = e.d, !.ign = @ \/ e.d = -1]),
                          !.pend = IF e.d = -1 THEN @ ELSE Put(@, e.d, [n |-> crr.n, idx |-> crr.idx, late |-> crr.late]),
                          !.ignn = IF e.d = -1 THEN @ \cup {crr.n} ELSE @],
          << <<P.ipdone, "C01", "thread callback before init-process">>,
             <<crr.st = "b", "C08", "pre-create not exactly once inside a creation">>,
             <<crr.n \notin P.ignn, "C09", "pre-create for an ignored thread">> >>)
   [] e.e = "post_create" ->
        R(s, p, [P EXCEPT !.cr = Put(@, u, [crr EXCEPT !.st = "post"])],
          << <<crr.st = "pre", "C08", "post-create not exactly once after pre-create in the creating thread">>,
             <<crr.st # "pre" \/ e.b = crr.tok, "C08", "post-create did not get the pre-create data">>,
             <<~crr.ign, "C09", "post-create for an ignored thread">> >>)
   [] e.e = "create_e" ->
        R(s, p, [P EXCEPT !.cr = Put(@, u, IF crr.up # <<>> THEN crr.up[1] ELSE [NoCr EXCEPT !.ign = crr.ign])],
          << <<crr.ign \/ crr.n \in P.ignn \/ crr.st = "post", "C08", "creation returned without pre-create and post-create">>,
             <<e.b = crr.xr \/ P.behow = 3, "C08", "pthread_create result changed">>,
             <<e.c = 1, "C08", "attribute object changed">> >>)
   [] e.e = "tinfo" ->
        LET inside == crr.st \in {"b", "pre", "post"} IN
        R(s, p, P,
          << <<inside \/ e.a = 1, IF crr.ign THEN "C09 C08" ELSE "C08", "new-thread info available outside pthread_create">>,
             <<~inside \/ (e.a = 0 /\ e.b = crr.idx /\ e.c = 1), "C08", "new-thread info missing or wrong inside pthread_create">> >>)
   \* a new thread is preempted on its way to init-thread
   [] e.e = "stepped" -> R(s, p, IF isThr \/ u = P.mainu THEN P ELSE [P EXCEPT !.pre = @ \cup {u}], <<>>)
   [] e.e = "init_thread" ->
        LET nul == X.nulldata = 1 IN
        R(s, p, [P EXCEPT !.thr = Put(@, u, NewThr(e.b, e.a, e.d)), !.tids = @ \cup {e.a}],
          << <<~isThr /\ u # P.mainu, "C04", "init-thread twice in one thread">>,
             <<nul \/ e.b \in DOMAIN P.pend, "C04", "init-thread without the data of its pre-create">>,
             <<nul \/ \A w \in DOMAIN P.thr : P.thr[w].tok # e.b, "C04", "two threads got the same pre-create data">>,
             <<~nul \/ e.b = 0, "C04", "init-thread data invented">>,
             <<P.ipdone, "C01", "init-thread before init-process">>,
             <<e.a > 0 /\ e.a \notin P.tids /\ e.c = e.a, "C07", "thread number not fresh and positive">> >>)
   [] e.e = "init_thread." -> R(s, p, [P EXCEPT !.thr = IF isThr THEN [@ EXCEPT ![u].ph = "ready"] ELSE @], <<>>)
   [] e.e = "start" ->
        IF e.a \in P.ignn
        THEN R(s, p, P, << <<~isThr, "C09", "ignored thread had callbacks">>, <<e.b = e.a % 4, "C08", "wrong start routine">> >>)
        ELSE LET pd == IF isThr THEN Get(P.pend, t.tok, [n |-> 0, idx |-> -1, late |-> FALSE]) ELSE [n |-> 0, idx |-> -1, late |-> FALSE] IN
        R(s, p, [P EXCEPT !.thr = IF isThr THEN [@ EXCEPT ![u].ph = "run", ![u].n = e.a, ![u].idx = e.b, ![u].sb = (P.be = 0), ![u].afp = (P.fp > 0)] ELSE @],
          << <<isThr /\ t.ph = "ready", "C04", "start routine entered without a completed init-thread">>,
             <<~isThr \/ X.nulldata = 1 \/ pd.n = e.a, "C08", "thread got another thread's argument">>,
             <<e.b = e.a % 4, "C08", "wrong start routine">>,
             <<X.stack = 0 \/ e.c >= X.stack, "C08", "new thread did not get the enlarged stack">>,
             <<~pd.late, "C05", "thread started although created after fini-process began">> >>)
   [] e.e = "tend" ->
        R(s, p, [P EXCEPT !.thr = IF isThr THEN [@ EXCEPT ![u].ph = "ended"] ELSE @,
                          !.nend = Put(@, e.a, [how |-> e.b, val |-> IF e.b = 3 THEN -1 ELSE e.c, u |-> u, be |-> P.be])], <<>>)
   [] e.e = "join" ->
        LET q == Get(P.nend, e.a, [how |-> 0, val |-> 0, u |-> 0, be |-> 0])
            m == q.u \in DOMAIN P.thr IN
        R(s, p, P,
          << <<q.how = 0 \/ (e.b = 0 /\ e.c = q.val), "C08", "join result changed">>,
             <<q.how = 0 \/ ~m \/ P.be > 0 \/ P.thr[q.u].blk \/ P.thr[q.u].fini = 2, "C04", "thread finished without its fini-thread">>,
             <<q.how # 0 \/ P.be > 0 \/ (\E w \in DOMAIN P.thr : P.thr[w].ph \in {"init", "ended"} /\ ~P.thr[w].sb), "C08", "thread joined but never ran">> >>)
   [] e.e = "fini_thread" ->
        LET mn == u = P.mainu /\ ~isThr
            old == IF mn THEN P.mfini ELSE IF isThr THEN t.fini ELSE 0
            dt == IF mn THEN P.ipdata ELSE IF isThr THEN t.idata ELSE 0
            blk == IF mn THEN P.mblk ELSE IF isThr THEN t.blk ELSE FALSE
            fin == isThr /\ t.ph = "ended" IN
        R(s, p, [P EXCEPT !.thr = IF isThr THEN [@ EXCEPT ![u].fini = 1] ELSE @, !.mfini = IF mn THEN 1 ELSE @,
                          !.swept = @ \/ ~fin],
          << <<mn \/ isThr, IF crr.ign \/ ~isThr THEN "C09" ELSE "C04", "fini-thread in an unmonitored thread">>,
             <<old = 0, "C04", "fini-thread runs twice in one thread">>,
             <<e.b = dt \/ (isThr /\ t.ph = "ready" /\ e.b = t.tok), "C04", "fini-thread got other data">>,
             <<~mn \/ (P.be = 1 /\ P.beu # u), "C04", "fini-thread in main although main ends the process or nobody does">>,
             <<~isThr \/ t.ph # "init", "C04", "fini-thread before init-thread returned">>,
             <<fin \/ mn \/ P.be > 0, "C04", "fini-thread in a running thread without process exit">>,
             <<fin \/ P.bedone, "C05", "threads finished before begin-process-exit returned">>,
             <<P.fp = 0 \/ (isThr /\ ~t.sb /\ ~t.afp), "C05", "fini-thread after fini-process began">>,
             <<~isThr \/ e.a = t.tid, "C07", "thread number changed">>,
             <<~blk, "C06", "fini-thread inside a blocked window">> >>)
   [] e.e = "fini_thread." ->
        R(s, p, [P EXCEPT !.thr = IF isThr THEN [@ EXCEPT ![u].fini = 2] ELSE @,
                          !.mfini = IF ~isThr /\ u = P.mainu THEN 2 ELSE @], <<>>)
   [] e.e = "blocksd_b" -> R(s, p, [P EXCEPT !.bl = Put(@, u, P.swept \/ P.fp > 0)], <<>>)
   [] e.e = "blocksd" ->
        R(s, p, [P EXCEPT !.thr = IF isThr THEN [@ EXCEPT ![u].blk = TRUE] ELSE @, !.mblk = IF ~isThr /\ u = P.mainu THEN TRUE ELSE @],
          << <<e.a = 0 \/ P.bedone, "C06", "block reports exit before exit began">>,
             <<e.a = 1 \/ ~(P.threaded /\ Get(P.bl, u, FALSE)) \/ Gone(P, u), "C06", "block does not report the exit in progress">>,
             <<e.a \in {0, 1}, "C06", "block result not 0 or 1">> >>)
   [] e.e = "unblocksd" ->
        R(s, p, [P EXCEPT !.thr = IF isThr THEN [@ EXCEPT ![u].blk = FALSE] ELSE @, !.mblk = IF ~isThr /\ u = P.mainu THEN FALSE ELSE @], <<>>)
   [] e.e = "disable" -> R(s, p, [P EXCEPT !.ign = @ \cup {u}], <<>>)
   [] e.e = "enable" -> R(s, p, [P EXCEPT !.ign = @ \ {u}], <<>>)
   [] e.e = "q" ->
        LET mn == u = P.mainu /\ ~isThr /\ ~Gone(P, u)
            ig == u # P.mainu /\ ~isThr /\ u \notin P.pre
            after == e.s = "tsd" \/ (isThr /\ t.ph = "ended" /\ t.fini = 2)
            bits == e.d
            fork16 == IF P.mainthr THEN 16 ELSE 32
            wantm == 2 + 4 + 8 + fork16 + (IF P.threaded THEN 1 ELSE 0)
            inInit == isThr /\ t.ph = "init"
            wantdata == IF inInit THEN t.tok ELSE IF isThr THEN t.idata ELSE 0 IN
        R(s, p, P,
          << <<~mn \/ e.a = 0, IF P.kind = "fork" THEN "C11 C07" ELSE "C07", "main's thread number is not 0">>,
             <<~mn \/ e.b = P.ipdata, IF P.kind = "fork" THEN "C11 C07" ELSE "C07", "main's user data is not what init-process returned">>,
             <<~mn \/ e.c = -1 \/ P.mainthr, "C07", "main has a thread start routine">>,
             <<~mn \/ (IF P.mainign THEN bits % 2 = wantm % 2 /\ bits < 512 ELSE bits = wantm) \/ e.s = "early", IF P.kind = "fork" THEN "C11 C07" ELSE "C07", "main's address queries are wrong">>,
             <<~isThr \/ e.a = t.tid \/ (after /\ e.a = -1), "C07", "thread number of another thread">>,
             <<~isThr \/ e.b = wantdata \/ (after /\ e.b = 0) \/ (t.ph = "ready" /\ e.b = t.tok), "C07", "user data of another thread">>,
             <<~isThr \/ after \/ inInit \/ t.idx = -1 \/ e.c = t.idx, "C07", "start routine of another thread">>,
             <<~isThr \/ after \/ t.idx = -1 \/ bits = 31, "C07", "thread's address queries are wrong">>,
             <<~ig \/ (e.a = -1 /\ e.b = 0 /\ e.c = -1), "C09", "ignored thread has an identity">> >>)
   \* ---------------------------------------------------- process end
   [] e.e \in {"exit_b", "sig_b"} ->
        R(s, p, [CutShort(P, u) EXCEPT !.reqs = @ \cup {[k |-> IF e.e = "sig_b" THEN KSig ELSE e.a, st |-> e.b, u |-> u, in |-> ~P.fpdone]},
                          !.again = @ \/ (P.be = 1 /\ ~P.fpdone /\ (u = P.beu \/ e.e = "sig_b")),
                          !.ag0 = IF P.be = 0 /\ \E r \in P.reqs : r.u = u THEN @ \cup {u} ELSE @], <<>>)
   [] e.e = "begin_exit" ->
        LET ok == \E r \in P.reqs : HowOf(r.k) = e.a /\ (r.k = KSig \/ r.u = u) IN
        R(s, p, [P EXCEPT !.be = @ + 1, !.behow = e.a, !.beu = u, !.behd = Get(P.hd, u, 0) > 0, !.bc = Put(@, u, NoBc)],
          << <<P.be = 0, EndP(P, e.a), "begin-process-exit runs again">>,
             <<P.fp = 0, EndP(P, e.a), "begin-process-exit after fini-process">>,
             <<~P.app \/ ok, EndP(P, e.a), "end callbacks without a matching exit request in this thread">> >>)
   [] e.e = "begin_exit." -> R(s, p, [P EXCEPT !.bedone = TRUE], <<>>)
   [] e.e = "fini_process" ->
        R(s, p, [P EXCEPT !.fp = @ + 1],
          << <<P.fp = 0, EndP(P, e.a), "fini-process runs again">>,
             <<P.be = 1 /\ (P.bedone \/ P.again), EndP(P, e.a), "fini-process without begin-process-exit">>,
             <<e.a = P.behow /\ u = P.beu, EndP(P, e.a), "fini-process reason or thread differs">>,
             <<P.ip = 0 \/ e.b = P.ipdata, EndP(P, e.a), "fini-process did not get init-process's data">>,
             <<Unfinished(P, X.giveup) = {}, "C05", "fini-process before every running thread had its fini-thread">>,
             <<~P.threaded \/ u = P.mainu \/ P.mfini = 2, "C05", "fini-process before main had its fini-thread">> >>)
   [] e.e = "fini_process." -> R(s, p, [P EXCEPT !.fpdone = TRUE], <<>>)
   [] e.e = "atexit_reg" -> R(s, p, [P EXCEPT !.atreg = @ \cup {e.a}], <<>>)
   [] e.e = "atexit" -> R(s, p, [P EXCEPT !.atrun = @ \cup {e.a}], << <<e.a \in P.atreg \ P.atrun, "C03", "exit handler ran again">> >>)
   [] e.e = "end" ->
        LET byp == \E r \in P.reqs : r.k \in {KRexit, KRabort}
            out == {IF r.k \in {KSig, KRabort} THEN <<1, r.st>> ELSE IF r.k = KPexit THEN <<0, 0>> ELSE <<0, r.st % 256>> : r \in {x \in P.reqs : x.k # KExec}}
            soft == {r \in P.reqs : r.k \in {KExit, KMain, KPexit}} IN
        IF ~P.mon \/ P.kind = "bare" THEN R(s, p, [P EXCEPT !.ended = TRUE], <<>>)
        ELSE
        R(s, p, [P EXCEPT !.ended = TRUE],
          << <<byp \/ Complete(P) \/ ~P.app \/ P.reqs = {}, IF P.kind = "fork" THEN "C11 C02" ELSE "C02", "process ended without exactly one end sequence">>,
             <<~P.app \/ byp \/ ~(\E r \in P.reqs : r.k = KSig) \/ Complete(P), "C17 C02", "fatal signal without the end callbacks">>,
             <<P.app \/ e.a = 1 \/ Complete(P), "C02", "program ended without exactly one end sequence">>,
             <<~(byp /\ Cardinality(P.reqs) = 1) \/ (P.be = 0 /\ P.fp = 0), "C14", "callbacks although the client bypassed them">>,
             <<~P.app \/ P.reqs = {} \/ (\E r \in P.reqs : r.k = KExec) \/ <<e.a, e.b>> \in out, "C03", "exit status or signal changed">>,
             <<~P.app \/ \A r \in P.reqs : r.k # KSig \/ Cardinality(P.reqs) > 1 \/ (e.a = 1 /\ e.b = r.st), "C17 C03", "not killed by the fatal signal">>,
             <<~P.app \/ byp \/ P.behow # 2 \/ e.a = 1 \/ \E r \in P.reqs : r.k # KSig /\ (r.u # P.beu \/ r.in), "C17 C03", "survived the fatal signal">>,
             <<~P.app \/ P.reqs # {}, "ANY", "process died without asking to">>,
             <<~(P.app /\ P.reqs # {} /\ soft = P.reqs) \/ P.atrun = P.atreg, "C03", "exit handlers did not all run">>,
             <<~(P.app /\ P.reqs # {} /\ soft = {}) \/ P.atrun = {}, "C03", "exit handlers ran on an immediate exit">> >>)
   [] e.e \in {"ah", "ch"} -> R(s, p, [P EXCEPT !.hd = Put(@, u, Get(@, u, 0) + 1)], <<>>)
   [] e.e \in {"ah.", "ch."} -> R(s, p, [P EXCEPT !.hd = Put(@, u, Get(@, u, 0) - 1)], <<>>)
   [] e.e = "jumped" -> R(s, p, [P EXCEPT !.hd = Put(@, u, 0)], <<>>)
   \* ---------------------------------------------------- fork
   [] e.e = "fork_b" -> R(s, p, [P EXCEPT !.fk = Put(@, u, e.b), !.fs = Put(@, e.b, [Snap(P, e.a) EXCEPT !.up = fki,
                              !.ign = IF u = P.mainu THEN P.mainign ELSE ~isThr])], <<>>)
   [] e.e = "pre_fork" ->
        IF ~P.app THEN Skip(s) ELSE
        R(s, p, [P EXCEPT !.fs = Put(@, fki, [fkk EXCEPT !.st = "pre", !.tok = e.d])],
            << <<fkk.kind \notin {3, 5}, "C14", "pre-fork for the client's own fork or system">>,
               <<fkk.kind = 6 \/ fkk.st = "b", fkp, "pre-fork not exactly once">> >>)
   [] e.e = "post_fork" ->
        IF ~P.app THEN Skip(s) ELSE
        R(s, p, [P EXCEPT !.fs = Put(@, fki, [fkk EXCEPT !.st = "post", !.child = e.a]), !.kids = @ \cup {e.a}],
            << <<fkk.kind \notin {3, 5}, "C14", "post-fork for the client's own fork or system">>,
               <<fkk.kind = 6 \/ fkk.st = "pre", fkp, "post-fork not exactly once">>,
               <<e.b = fkk.tok, fkp, "post-fork did not get the pre-fork data">>,
               <<e.a = -1 \/ e.a > 0, fkp, "post-fork got a strange child">> >>)
   [] e.e = "fork_p" ->
        R(s, p, [P EXCEPT !.fk = Put(@, u, fkk.up)],
          << <<fkk.kind = 3 \/ fkk.st = "post", "C10", "fork returned in the parent without post-fork">>,
             <<fkk.kind = 3 \/ e.a = fkk.child, "C10", "post-fork's child is not fork's result">>,
             <<e.a # -1 \/ (X.failfork = 1 /\ e.b = 11), fkp, "fork failed or its errno changed">> >>)
   [] e.e = "fork_c" ->
        R(s, p, P,
          << <<e.a = 3 \/ (P.kind = "fork" /\ P.ip = 1 /\ P.ipdone), "C10", "fork returned in the child without init-process">>,
             <<e.a # 3 \/ P.ip = 0, "C14", "init-process in the child of the client's fork">> >>)
   \* ---------------------------------------------------- exec
   [] e.e = "exec_x" -> R(s, p, [P EXCEPT !.xwm = Put(@, u, e.a)], <<>>)
   [] e.e = "exec_b" ->
        LET real == e.d \div 2 IN
        R(s, p, [CutShort(P, u) EXCEPT !.xe = Put(@, u, <<e.a, e.b, e.c, e.d % 2, real>>),
                          !.again = @ \/ (P.be = 1 /\ ~P.fpdone /\ u = P.beu),
                          !.ag0 = IF P.be = 0 /\ \E r \in P.reqs : r.u = u THEN @ \cup {u} ELSE @,
                          !.reqs = IF real = 1 THEN @ ELSE @ \cup {[k |-> KExec, st |-> 0, u |-> u, in |-> ~P.fpdone]}], <<>>)
   [] e.e = "exec_e" ->
        LET real == Get(P.xe, u, <<0, 0, 0, 0, 0>>)[5] = 1
            xw == Get(P.xwm, u, -1)
            xok == IF xw >= 0 THEN xw = 0 ELSE X.xok # 0
            xerr == IF xw >= 0 THEN xw ELSE X.xerr IN
        R(s, p, [P EXCEPT !.xe = [w \in DOMAIN @ \ {u} |-> @[w]], !.xwm = Put(@, u, -1), !.reqs = {r \in @ : r.k # KExec \/ r.u # u \/ P.be > 0}],
          << <<~xok, IF real THEN "C14" ELSE "C12", "exec failed although the file is executable">>,
             <<xok \/ P.be = 0 \/ (\E r \in P.reqs : r.k # KExec \/ r.u # u), IF real THEN "C14" ELSE "C12", "end callbacks although exec was bound to fail">>,
             <<e.a = -1 /\ (xerr = 0 \/ e.b = xerr), IF real THEN "C14" ELSE "C12", "failed exec's result or errno changed">> >>)
   [] e.e = "probe" ->
        LET x == IF DOMAIN P.xe # {} THEN XE(P) ELSE P.xexp IN
        IF x = <<>> THEN Skip(s) ELSE
        R(s, p, IF P.kind = "img" /\ ~P.app THEN [P EXCEPT !.xexp = <<>>] ELSE [Img(P) EXCEPT !.ended = P.ended],
          << <<x[5] = 1 \/ (e.a = x[1] /\ e.b = x[2]), "C12", "arguments changed by exec">>,
             <<x[5] = 1 \/ (e.c = x[3] /\ e.d = x[4]), "C12", "environment changed by exec">>,
             <<x[5] = 0 \/ (e.a = x[1] /\ e.b = x[2]), "C14", "arguments changed by the real exec">>,
             <<x[5] = 0 \/ (e.c = x[3] /\ e.d = 0), "C14", "environment is not the given one without LD_PRELOAD">>,
             <<x[5] = 1 \/ ~P.app \/ P.kind = "bare" \/ Complete(P) \/ ~P.mon, "C12 C02", "program replaced without the end callbacks">>,
             <<x[5] = 0 \/ (P.be = 0 /\ P.fp = 0), "C14", "end callbacks on the client's exec">> >>)
   \* ---------------------------------------------------- system
   [] e.e = "sys_sx" -> [s |-> [s EXCEPT !.sx = [ign |-> e.a, mask |-> e.b, env |-> e.c, pl |-> e.d, kind |-> 0]], v |-> {}]
   [] e.e = "sys_b" ->
        LET with == {P.fk[w] : w \in {x \in DOMAIN P.fk \ {u} : Get(P.fs, P.fk[x], NoFk).kind \in {4, 5}}}   \* overlapping calls
            N == [P EXCEPT !.fk = Put(@, u, e.b),
                           !.fs = Put([i \in DOMAIN @ |-> IF i \in with THEN [@[i] EXCEPT !.ov = TRUE] ELSE @[i]],
                                      e.b, [Snap(P, e.a) EXCEPT !.want = e.c, !.up = fki, !.ov = (with # {})])] IN
        [s |-> [s EXCEPT !.ps = Put(s.ps, p, N), !.sx.kind = e.a], v |-> {}]
   [] e.e = "sys_e" ->
        LET nul == e.d = 1  app == fkk.kind = 4
            id == IF fkk.kind = 5 THEN "C14" ELSE "C13"
            Q == Get(s.ps, fkk.child, NoProc) IN
        R(s, p, [P EXCEPT !.fk = Put(@, u, fkk.up)],
          << <<~app \/ nul \/ fkk.st = "post", "C13", "system returned without pre-fork and post-fork">>,
             <<~nul \/ fkk.st = "b", "C13", "fork callbacks for system(NULL)">>,
             <<fkk.want = -999 \/ e.a = fkk.want, id, "system's result changed">>,
             <<e.a # -1 \/ X.failfork = 0 \/ e.c = 11, id, "errno of the failed fork changed">>,
             <<e.b = 1 \/ P.be > 0 \/ fkk.ov, id, "signal dispositions or mask not restored after system">>,
             <<~app \/ nul \/ fkk.want = -999 \/ (fkk.want = -1) = (fkk.child = -1), "C13", "post-fork's child does not match">>,
             <<~app \/ nul \/ X.dyn = 0 \/ s.sx.pl = 0 \/ fkk.child = -1 \/ P.be > 0 \/ (Q.mon /\ Q.kind = "img" /\ Q.ip = 1), "C13", "shell is not monitored as a program of its own">>,
             <<~app \/ nul \/ X.dyn = 0 \/ s.sx.pl = 0 \/ fkk.child = -1 \/ P.be > 0 \/ e.a % 128 # 0 \/ Complete(Q), "C13", "shell ended without its own end callbacks">> >>)
   [] e.e = "sigcmp" -> R(s, p, P, << <<e.a = 1, IF X.cl = 1 THEN "C14" ELSE "C13", "signal dispositions or mask changed for good by system">> >>)
   [] e.e \in {"sigprobe", "envprobe", "sysprobe"} ->
        LET x == s.sx
            id == IF x.kind = 5 THEN "C14" ELSE IF x.kind \in {4, 6} THEN "C13" ELSE "C15"
            withchld == IF (x.mask \div 65536) % 2 = 1 THEN x.mask ELSE x.mask + 65536 IN
        R(s, p, IF P.app THEN [Img(P) EXCEPT !.ended = P.ended] ELSE P,
          << <<e.e # "sigprobe" \/ x.ign = -1 \/ e.a = x.ign, id, "program starts with other signals ignored than the application asked for">>,
             <<e.e # "sigprobe" \/ x.ign = -1 \/ e.b = x.mask, IF id = "C15" THEN "C18" ELSE id, "program starts with another signal mask than the application's">>,
             <<e.e # "envprobe" \/ x.ign = -1 \/ (e.a = x.env /\ e.b = x.pl), id, "command got another environment">>,
             <<e.e # "sysprobe" \/ (e.a = 1 /\ e.b = 1 /\ e.c = 1), id, "SIGCHLD not blocked or SIGINT, SIGQUIT not ignored while the command runs">>,
             <<e.e # "sysprobe" \/ x.ign = -1 \/ e.d = withchld, id, "another signal than SIGCHLD is blocked while the command runs">> >>)
   \* ---------------------------------------------------- broadcast
   [] e.e = "bc_b" ->
        LET run == {w \in DOMAIN P.thr : w # u /\ P.thr[w].ph = "run" /\ P.thr[w].fini = 0}
            mn == IF P.mainu # u /\ P.mainu # 0 THEN {P.mainu} ELSE {} IN
        R(s, p, [P EXCEPT !.bc = Put(@, u, [sig |-> e.a, must |-> IF P.threaded THEN run \cup mn ELSE {},
                                            done |-> {w \in DOMAIN P.thr : P.thr[w].fini > 0}, sent |-> <<>>])], <<>>)
   [] e.e = "pk" ->
        LET b == Get(P.bc, u, NoBc)
            mon == e.a \in DOMAIN P.thr \/ e.a = P.mainu IN
        IF b.sig = 0 THEN R(s, p, P, << <<mon \/ ~P.app, "C09", "monitor signals a thread that is not monitored">> >>) ELSE
        R(s, p, [P EXCEPT !.bc = Put(@, u, [b EXCEPT !.sent = Append(@, e.a)])],
          << <<e.b = b.sig, "C23", "another signal is broadcast">>,
             <<e.a # u, "C23", "broadcast to the caller">>,
             <<\A i \in DOMAIN b.sent : b.sent[i] # e.a, "C23", "broadcast twice to one thread">>,
             <<mon, "C23", "broadcast to a thread that is not monitored">>,
             <<mon, "C09", "monitor signals a thread that is not monitored">>,
             <<e.a \notin b.done, "C23", "broadcast to a finished thread">>,
             <<e.a \notin DOMAIN P.thr \/ P.thr[e.a].ph # "init", "C23", "broadcast to a thread that has not started">> >>)
   [] e.e = "bc_e" ->
        LET b == Get(P.bc, u, NoBc)
            sent == {b.sent[i] : i \in DOMAIN b.sent}
            still == {w \in b.must : w = P.mainu \/ (P.be = 0 /\ P.thr[w].ph = "run" /\ P.thr[w].fini = 0)} IN
        R(s, p, [P EXCEPT !.bc = Put(@, u, NoBc)],
          << <<e.a \in {0, -1}, "C23", "broadcast result is neither 0 nor -1">>,
             <<e.a # 0 \/ still \subseteq sent, "C23", "broadcast missed a live thread">>,
             <<e.a # -1 \/ sent = {}, "C23", "failed broadcast sent signals">> >>)
   [] e.e = "sysmon" -> Skip(s)
   \* ---------------------------------------------------- end of trace
   [] e.e = "hang" -> [s |-> [s EXCEPT !.stop = TRUE], v |-> {<<"ANY", "hang">>}]
   [] e.e \in {"timeout", "err"} -> [s |-> s, v |-> {<<"ANY", "script could not go on">>}]
   [] e.e = "reap_err" -> [s |-> s, v |-> {<<"C10", "child's pid is not waitable">>}]
   [] e.e = "fin" ->
        [s |-> s,
         v |-> UNION {Broken(<< <<~b[5] \/ b[3] \in Get(s.ps, b[1], NoProc).kids \/ Get(s.ps, b[1], NoProc).be > 0 \/ Get(s.ps, b[1], NoProc).xk \/ (\E r \in Get(s.ps, b[1], NoProc).reqs : r.k = 8), "C10", "parent was not told of the child">>,
                                 <<Get(s.ps, b[3], NoProc).ended \/ TRUE, "C11", "">> >>) : b \in s.born}]
   [] OTHER -> Skip(s)
=============================================================================
