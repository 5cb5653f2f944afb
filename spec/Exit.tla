-------------------------------- MODULE Exit --------------------------------
(***************************************************************************)
(* Design of process exit, thread shootdown, thread start and finish, and  *)
(* fork, at the grain of the library's accesses to shared memory           *)
(* (main.c: monitor_begin_process_fcn, monitor_end_process_fcn;            *)
(* pthread.c: monitor_begin_thread, monitor_pthread_cleanup_routine,       *)
(* monitor_shootdown_handler, monitor_thread_shootdown, block_shootdown;   *)
(* fork.c: fork).  TLC explores all interleavings.  Every callback and     *)
(* every call or return of the application is an event that is fed to the  *)
(* contract Life!Step; the invariant Clean says that no clause is broken.  *)
(*                                                                         *)
(* Thread 1 is main; each other thread exists once.  A process is a copy   *)
(* of the memory record, so fork is the copying of that record.  The       *)
(* library's lock sections run with all signals blocked.                   *)
(*                                                                         *)
(* Wrong names a deliberately wrong design, used to show that the contract *)
(* can tell (bin/modeltest.py); Wrong = "none" is the design of the code.  *)
(***************************************************************************)
EXTENDS Life
CONSTANTS N,          \* number of threads, main included
          Ends,       \* how threads may end the process: subset of {"exit", "_exit", "sig", "pexit"}
          MaxFork,    \* forks in all
          Blocks,     \* do threads use block_shootdown
          MaxReq,     \* exit requests in all
          Wrong
U == 1..N
Procs == 1..(1 + MaxFork)
VARIABLES mem,   \* process -> memory of the library
          thr,   \* process -> thread -> [pc, hp (handler pc), snap, k (kind of end), blk0]
          sig,   \* process -> threads with the shootdown signal pending
          life,  \* process -> "no", "live", "ended"
          cst, bad, nreq
vars == <<mem, thr, sig, life, cst, bad, nreq>>
X == [nulldata |-> 0, giveup |-> 0, stack |-> 0, failfork |-> 0, xok |-> 0, xerr |-> 0, sysret |-> -999, shoot |-> 0, dyn |-> 1, cl |-> 0]
Ev(e, p, u, a, b, c, d) == [e |-> e, p |-> p, u |-> u, a |-> a, b |-> b, c |-> c, d |-> d, s |-> ""]
RECURSIVE Feed(_, _, _)
Feed(s, es, v) == IF es = <<>> THEN [s |-> s, v |-> v]
                  ELSE LET r == Step(s, Head(es), X) IN Feed(r.s, Tail(es), v \cup r.v)
Emit(es) == LET r == Feed(cst, es, {}) IN cst' = r.s /\ bad' = bad \cup r.v
Quiet == UNCHANGED <<cst, bad>>
Joined(p, u) == Emit(<<Ev("join", p, u, u, 0, 7, 0)>>)     \* the thread is gone: a joiner would see it now

NoTn == [appl |-> FALSE, fs |-> FALSE, fd |-> FALSE, blk |-> FALSE, win |-> FALSE]
Mem0 == [used |-> FALSE, list |-> {}, inexit |-> FALSE, ftdone |-> FALSE, cookie |-> FALSE, fpdone |-> FALSE, lock |-> 0,
         main |-> 1, tid |-> 0, tn |-> [u \in U |-> NoTn]]
Thr0 == [pc |-> "none", hp |-> "-", snap |-> {}, k |-> "", old |-> "", made |-> {}, tid |-> 0, nb |-> 0]
(* pointers: init-process returns 100+p; pre-create for thread u returns 10*p+u; init-thread returns 50+10*p+u; pre-fork 200+ *)
PData(p) == 100 + p
CTok(p, u) == 10 * p + u
TData(p, u) == 50 + 10 * p + u
FTok(p, u) == 200 + 10 * p + u

Init == /\ mem = [p \in Procs |-> Mem0]
        /\ thr = [p \in Procs |-> [u \in U |-> IF p = 1 /\ u = 1 THEN [Thr0 EXCEPT !.pc = "run"] ELSE Thr0]]
        /\ sig = [p \in Procs |-> {}]
        /\ life = [p \in Procs |-> IF p = 1 THEN "live" ELSE "no"]
        /\ bad = {} /\ nreq = 0
        /\ cst = Feed(InitState, << Ev("spawn", 1, 0, 1, 0, 0, 0), Ev("image", 1, 1, 1, 0, 0, 0), Ev("init_library", 1, 1, 0, 0, 0, 0),
                        Ev("init_process", 1, 1, 1, 0, 0, PData(1)), Ev("init_process.", 1, 1, 0, 0, 0, 0),
                        Ev("start_main_init", 1, 1, 0, 0, 0, 0), Ev("at_main", 1, 1, 0, 0, 0, 0), Ev("main", 1, 1, 1, 0, 0, 0) >>, {}).s

T(p, u) == thr[p][u]
Go(p, u, pc) == thr' = [thr EXCEPT ![p][u].pc = pc]
At(p, u, pc) == life[p] = "live" /\ T(p, u).hp = "-" /\ T(p, u).pc = pc
IsMain(p, u) == mem[p].main = u
Free(p) == mem[p].lock = 0
Busy(p, u) == T(p, u).made # {}

(* ------------------------------------------------------------ creation *)
Create(p, u, w) ==
  /\ At(p, u, "run") /\ ~Busy(p, u) /\ w # u /\ T(p, w).pc = "none" /\ w > 1
  /\ \A x \in 2..(w - 1) : T(p, x).pc # "none"          \* symmetry: threads are created in order
  /\ mem' = [mem EXCEPT ![p].used = TRUE]
  /\ thr' = [thr EXCEPT ![p][w].pc = "new", ![p][u].made = @ \cup {w}]
  /\ Emit(<< Ev("create_b", p, u, w, w % 4, 0, 0), Ev("pre_create", p, u, 0, 0, 0, CTok(p, w)) >>)
  /\ UNCHANGED <<sig, life, nreq>>
CreateEnd(p, u) ==
  /\ At(p, u, "run") /\ T(p, u).made # {}
  /\ LET w == CHOOSE w \in T(p, u).made : TRUE IN
       /\ thr' = [thr EXCEPT ![p][u].made = @ \ {w}]
       /\ Emit(<< Ev("post_create", p, u, 0, CTok(p, w), 0, 0), Ev("create_e", p, u, w, 0, 1, 0) >>)
  /\ UNCHANGED <<mem, sig, life, nreq>>
(* monitor_begin_thread *)
Link(p, u) ==
  /\ At(p, u, "new") /\ Free(p)
  /\ IF mem[p].inexit /\ Wrong # "linklate"
     THEN Go(p, u, "gone") /\ UNCHANGED mem /\ Joined(p, u)
     ELSE /\ Quiet /\ mem' = [mem EXCEPT ![p].lock = u, ![p].list = @ \cup {u}, ![p].tid = @ + 1]
          /\ thr' = [thr EXCEPT ![p][u].pc = "linked", ![p][u].tid = mem[p].tid + 1]
  /\ UNCHANGED <<sig, life, nreq>>
Linked(p, u) ==
  /\ At(p, u, "linked")
  /\ mem' = [mem EXCEPT ![p].lock = 0, ![p].tn[u].appl = (Wrong = "earlyappl")] /\ Go(p, u, "init")
  /\ Emit(<< Ev("init_thread", p, u, T(p, u).tid, CTok(p, u), T(p, u).tid, TData(p, u)) >>)
  /\ UNCHANGED <<sig, life, nreq>>
InitDone(p, u) ==
  /\ At(p, u, "init") /\ Go(p, u, "appl") /\ Emit(<< Ev("init_thread.", p, u, 0, 0, 0, 0) >>)
  /\ UNCHANGED <<mem, sig, life, nreq>>
Start(p, u) ==
  /\ At(p, u, "appl") /\ mem' = [mem EXCEPT ![p].tn[u].appl = TRUE] /\ Go(p, u, "start") /\ Quiet
  /\ UNCHANGED <<sig, life, nreq>>
Enter(p, u) ==
  /\ At(p, u, "start") /\ Go(p, u, "run") /\ Emit(<< Ev("start", p, u, u, u % 4, 0, 0) >>)
  /\ UNCHANGED <<mem, sig, life, nreq>>

(* ---------------------------------------------- a thread's own way out *)
Return(p, u) ==
  /\ At(p, u, "run") /\ ~IsMain(p, u) /\ ~Busy(p, u)
  /\ Go(p, u, "c1") /\ Emit(<< Ev("tend", p, u, u, 1, 7, 0) >>) /\ UNCHANGED <<mem, sig, life, nreq>>
Clean1(p, u) ==
  /\ At(p, u, "c1")
  /\ LET t == mem[p].tn[u] IN
     IF ~t.appl \/ t.fs \/ t.blk \/ mem[p].ftdone THEN Go(p, u, "gone") /\ Joined(p, u) ELSE Go(p, u, "c2") /\ Quiet
  /\ UNCHANGED <<mem, sig, life, nreq>>
Clean2(p, u) ==
  /\ At(p, u, "c2")
  /\ IF mem[p].tn[u].fs /\ Wrong # "noclaim" THEN Go(p, u, "gone") /\ UNCHANGED mem /\ Joined(p, u)
     ELSE /\ mem' = [mem EXCEPT ![p].tn[u].fs = TRUE] /\ Go(p, u, "c3")
          /\ Emit(<< Ev("fini_thread", p, u, T(p, u).tid, TData(p, u), 0, 0) >>)
  /\ UNCHANGED <<sig, life, nreq>>
Clean3(p, u) ==
  /\ At(p, u, "c3") /\ mem' = [mem EXCEPT ![p].tn[u].fd = TRUE] /\ Go(p, u, "c4")
  /\ Emit(<< Ev("fini_thread.", p, u, 0, 0, 0, 0) >>) /\ UNCHANGED <<sig, life, nreq>>
Clean4(p, u) ==
  /\ At(p, u, "c4") /\ Free(p)
  /\ IF mem[p].inexit THEN mem' = [mem EXCEPT ![p].tn[u].fs = TRUE, ![p].tn[u].fd = TRUE, ![p].lock = u]
     ELSE mem' = [mem EXCEPT ![p].list = @ \ {u}, ![p].tn[u] = NoTn, ![p].lock = u]
  /\ Go(p, u, "c5") /\ Quiet /\ UNCHANGED <<sig, life, nreq>>
Clean5(p, u) ==
  /\ At(p, u, "c5") /\ mem' = [mem EXCEPT ![p].lock = 0] /\ Go(p, u, "gone") /\ Joined(p, u) /\ UNCHANGED <<sig, life, nreq>>

(* --------------------------------------------------- process exit *)
KindOf(k) == CASE k = "exit" -> 1 [] k = "_exit" -> 2 [] k = "sig" -> 6 [] OTHER -> 5
How(k) == IF k = "sig" THEN 2 ELSE 1
ReqEv(p, u, k) == IF k = "sig" THEN Ev("sig_b", p, u, 6, 15, 0, 0) ELSE Ev("exit_b", p, u, KindOf(k), IF k = "pexit" THEN 0 ELSE 10 + u, 0, 0)
Request(p, u, k) ==
  /\ At(p, u, "run") /\ ~Busy(p, u) /\ nreq < MaxReq /\ k \in Ends
  /\ k = "pexit" => IsMain(p, u)
  /\ thr' = [thr EXCEPT ![p][u].pc = "e0", ![p][u].k = k] /\ nreq' = nreq + 1
  /\ Emit(<<ReqEv(p, u, k)>>) /\ UNCHANGED <<mem, sig, life>>
Win(p, u) ==
  /\ At(p, u, "e0")
  /\ IF ~mem[p].cookie \/ Wrong = "nocas"
     THEN /\ mem' = [mem EXCEPT ![p].cookie = TRUE, ![p].tn[u].win = TRUE] /\ Go(p, u, "e1")
          /\ Emit(<<Ev("begin_exit", p, u, How(T(p, u).k), 0, 0, 0)>>)
     ELSE /\ Go(p, u, IF mem[p].tn[u].win THEN "end" ELSE "lose") /\ UNCHANGED mem /\ Quiet
  /\ UNCHANGED <<sig, life, nreq>>
(* the loser waits for the end callbacks, with the shootdown signal open *)
Lose(p, u) ==
  /\ At(p, u, "lose") /\ (mem[p].fpdone \/ Wrong = "nowait") /\ Go(p, u, "end") /\ Quiet /\ UNCHANGED <<mem, sig, life, nreq>>
Begun(p, u) ==
  /\ At(p, u, "e1") /\ Emit(<<Ev("begin_exit.", p, u, 0, 0, 0, 0)>>)
  /\ Go(p, u, IF mem[p].used THEN "e2" ELSE "e9") /\ UNCHANGED <<mem, sig, life, nreq>>
Sweep0(p, u) ==
  /\ At(p, u, "e2") /\ Free(p) /\ mem' = [mem EXCEPT ![p].inexit = TRUE, ![p].lock = u] /\ Go(p, u, "e3") /\ Quiet
  /\ UNCHANGED <<sig, life, nreq>>
(* main goes on the list when another thread ends the process *)
Sweep1(p, u) ==
  /\ At(p, u, "e3") /\ Go(p, u, "e4") /\ Quiet
  /\ mem' = LET mm == [mem EXCEPT ![p].lock = 0]  m == mem[p].main IN
             IF u = m THEN mm ELSE [mm EXCEPT ![p].list = @ \cup {m}, ![p].tn[m].appl = TRUE, ![p].tn[m].fs = FALSE, ![p].tn[m].fd = FALSE]
  /\ UNCHANGED <<sig, life, nreq>>
Others(p, u) == {w \in mem[p].list : w # u /\ mem[p].tn[w].appl}
Sweep2(p, u) ==
  /\ At(p, u, "e4")
  /\ LET uns == {w \in Others(p, u) : ~mem[p].tn[w].fs}
         unf == {w \in Others(p, u) : ~mem[p].tn[w].fd} IN
     IF unf = {} \/ Wrong = "nosweep" THEN Go(p, u, "e5") ELSE thr' = [thr EXCEPT ![p][u].pc = "e4k", ![p][u].snap = uns]
  /\ Quiet /\ UNCHANGED <<mem, sig, life, nreq>>
Sweep3(p, u) ==
  /\ At(p, u, "e4k")
  /\ sig' = [sig EXCEPT ![p] = @ \cup {w \in T(p, u).snap : T(p, w).pc # "gone"}]
  /\ thr' = [thr EXCEPT ![p][u].pc = "e4", ![p][u].snap = {}] /\ Quiet /\ UNCHANGED <<mem, life, nreq>>
Sweep5(p, u) ==
  /\ At(p, u, "e5") /\ mem' = [mem EXCEPT ![p].ftdone = TRUE] /\ Go(p, u, "e6") /\ Quiet /\ UNCHANGED <<sig, life, nreq>>
(* the ending thread's own fini-thread *)
Own6(p, u) ==
  /\ At(p, u, "e6")
  /\ IF u \in mem[p].list /\ ~IsMain(p, u) /\ ~mem[p].tn[u].fs
     THEN /\ mem' = [mem EXCEPT ![p].tn[u].fs = TRUE] /\ Go(p, u, "e7")
          /\ Emit(<<Ev("fini_thread", p, u, T(p, u).tid, TData(p, u), 0, 0)>>)
     ELSE Go(p, u, "e9") /\ UNCHANGED mem /\ Quiet
  /\ UNCHANGED <<sig, life, nreq>>
Own7(p, u) ==
  /\ At(p, u, "e7") /\ mem' = [mem EXCEPT ![p].tn[u].fd = TRUE] /\ Go(p, u, "e9")
  /\ Emit(<<Ev("fini_thread.", p, u, 0, 0, 0, 0)>>) /\ UNCHANGED <<sig, life, nreq>>
Fini(p, u) ==
  /\ At(p, u, "e9") /\ Go(p, u, "e10") /\ Emit(<<Ev("fini_process", p, u, How(T(p, u).k), PData(p), 0, 0)>>)
  /\ UNCHANGED <<mem, sig, life, nreq>>
FiniDone(p, u) ==
  /\ At(p, u, "e10") /\ Go(p, u, "end") /\ mem' = [mem EXCEPT ![p].fpdone = TRUE]
  /\ Emit(<<Ev("fini_process.", p, u, 0, 0, 0, 0)>>) /\ UNCHANGED <<sig, life, nreq>>
(* an exit handler may ask to exit again *)
AgainX(p, u, k) ==
  /\ At(p, u, "end") /\ T(p, u).k = "exit" /\ nreq < MaxReq /\ k \in Ends \cap {"exit", "_exit"}
  /\ thr' = [thr EXCEPT ![p][u].pc = "e0", ![p][u].k = k] /\ nreq' = nreq + 1 /\ Emit(<<ReqEv(p, u, k)>>)
  /\ UNCHANGED <<mem, sig, life>>
End(p, u) ==
  /\ At(p, u, "end")
  /\ IF T(p, u).k = "pexit" /\ \E w \in U \ {u} : T(p, w).pc \notin {"none", "gone"}
     THEN Go(p, u, "gone") /\ UNCHANGED life /\ Quiet
     ELSE /\ life' = [life EXCEPT ![p] = "ended"] /\ UNCHANGED thr
          /\ Emit(<<IF T(p, u).k = "sig" THEN Ev("end", p, 0, 1, 15, 0, 0)
                    ELSE Ev("end", p, 0, 0, IF T(p, u).k = "pexit" THEN 0 ELSE 10 + u, 0, 0)>>)
  /\ UNCHANGED <<mem, sig, nreq>>
(* main has left by pthread_exit: the process ends with its last thread *)
Last(p) ==
  /\ life[p] = "live" /\ \A w \in U : T(p, w).pc \in {"none", "gone"}
  /\ life' = [life EXCEPT ![p] = "ended"] /\ Emit(<<Ev("end", p, 0, 0, 0, 0, 0)>>) /\ UNCHANGED <<mem, thr, sig, nreq>>

(* ---------------------------------------------- the shootdown handler *)
NoSig == {"linked", "c5", "e3", "gone", "none"}       \* lock sections run with signals blocked
Deliver(p, u) ==
  /\ life[p] = "live" /\ u \in sig[p] /\ T(p, u).hp = "-" /\ T(p, u).pc \notin NoSig
  /\ sig' = [sig EXCEPT ![p] = @ \ {u}] /\ thr' = [thr EXCEPT ![p][u].hp = "h1"] /\ Quiet /\ UNCHANGED <<mem, life, nreq>>
H(p, u, h) == life[p] = "live" /\ T(p, u).hp = h
GoH(p, u, h) == thr' = [thr EXCEPT ![p][u].hp = h]
Hand1(p, u) ==
  /\ H(p, u, "h1")
  /\ LET t == mem[p].tn[u] IN GoH(p, u, IF ~t.appl \/ t.fs \/ (t.blk /\ Wrong # "noblk") \/ mem[p].ftdone THEN "-" ELSE "h2")
  /\ Quiet /\ UNCHANGED <<mem, sig, life, nreq>>
Hand2(p, u) ==
  /\ H(p, u, "h2")
  /\ IF mem[p].tn[u].fs THEN GoH(p, u, "-") /\ UNCHANGED mem /\ Quiet
     ELSE /\ mem' = [mem EXCEPT ![p].tn[u].fs = TRUE] /\ GoH(p, u, "h3")
          /\ Emit(<<Ev("fini_thread", p, u, T(p, u).tid, IF IsMain(p, u) THEN PData(p) ELSE TData(p, u), 0, 0)>>)
  /\ UNCHANGED <<sig, life, nreq>>
Hand3(p, u) ==
  /\ H(p, u, "h3") /\ mem' = [mem EXCEPT ![p].tn[u].fd = TRUE] /\ GoH(p, u, "-")
  /\ Emit(<<Ev("fini_thread.", p, u, 0, 0, 0, 0)>>) /\ UNCHANGED <<sig, life, nreq>>
(* a thread asks to exit from inside its fini-thread callback: it loses the race and never returns *)
HandReq(p, u, k) ==
  /\ H(p, u, "h3") /\ nreq < MaxReq /\ k \in Ends \cap {"_exit", "sig"} /\ nreq' = nreq + 1
  /\ mem' = [mem EXCEPT ![p].tn[u].fd = (Wrong # "finiwait")]
  /\ thr' = [thr EXCEPT ![p][u].hp = "-", ![p][u].pc = "lose", ![p][u].k = k]
  /\ Emit(<<ReqEv(p, u, k)>>) /\ UNCHANGED <<sig, life>>

(* ------------------------------------------------- block_shootdown *)
Blk1(p, u) ==
  /\ Blocks /\ At(p, u, "run") /\ ~Busy(p, u) /\ T(p, u).nb = 0    \* once per thread
  /\ thr' = [thr EXCEPT ![p][u].pc = "b1", ![p][u].nb = 1] /\ Emit(<<Ev("blocksd_b", p, u, 0, 0, 0, 0)>>)
  /\ UNCHANGED <<mem, sig, life, nreq>>
Blk2(p, u) ==
  /\ At(p, u, "b1") /\ Go(p, u, "b2")
  /\ mem' = [mem EXCEPT ![p].tn[u].blk = TRUE] /\ Quiet /\ UNCHANGED <<sig, life, nreq>>
Blk3(p, u) ==
  /\ At(p, u, "b2") /\ Go(p, u, "b3")
  /\ Emit(<<Ev("blocksd", p, u, IF mem[p].inexit /\ Wrong # "never1" THEN 1 ELSE 0, 0, 0, 0)>>)
  /\ UNCHANGED <<mem, sig, life, nreq>>
Blk4(p, u) ==
  /\ At(p, u, "b3") /\ Go(p, u, "b4") /\ Emit(<<Ev("unblocksd", p, u, 0, 0, 0, 0)>>) /\ UNCHANGED <<mem, sig, life, nreq>>
Blk5(p, u) ==
  /\ At(p, u, "b4") /\ Go(p, u, "run") /\ mem' = [mem EXCEPT ![p].tn[u].blk = FALSE] /\ Quiet /\ UNCHANGED <<sig, life, nreq>>

(* ----------------------------------------------------------- fork *)
Parent(p) == LET f == {b \in cst.born : b[3] = p} IN (CHOOSE b \in f : TRUE)[1]
NewP == IF \E q \in Procs : life[q] = "no" THEN CHOOSE q \in Procs : life[q] = "no" /\ \A r \in Procs : r < q => life[r] # "no" ELSE 0
ForkId(p, u) == 1000 + 10 * p + u
Fork1(p, u) ==
  /\ At(p, u, "run") /\ ~Busy(p, u) /\ NewP # 0 /\ Go(p, u, "f1")
  /\ Emit(<<Ev("fork_b", p, u, 1, ForkId(p, u), 0, 0), Ev("pre_fork", p, u, 0, 0, 0, FTok(p, u))>>) /\ UNCHANGED <<mem, sig, life, nreq>>
Fork2(p, u) ==
  /\ At(p, u, "f1") /\ NewP # 0
  /\ LET q == NewP IN
     /\ life' = [life EXCEPT ![q] = "live"]
     /\ mem' = [mem EXCEPT ![q] = mem[p]]
     /\ thr' = [thr EXCEPT ![p][u].pc = "f2", ![q] = [w \in U |-> IF w = u THEN [thr[p][u] EXCEPT !.pc = "k1"] ELSE Thr0]]
     /\ Emit(<<Ev("born", q, u, p, ForkId(p, u), 0, 0), Ev("post_fork", p, u, q, FTok(p, u), 0, 0), Ev("fork_p", p, u, q, 0, 1, 0)>>)
  /\ UNCHANGED <<sig, nreq>>
Fork3(p, u) == At(p, u, "f2") /\ Go(p, u, "run") /\ Quiet /\ UNCHANGED <<mem, sig, life, nreq>>
(* the child starts over (monitor_begin_process_fcn, monitor_reset_thread_list) *)
Child(p, u) ==
  /\ At(p, u, "k1") /\ Go(p, u, "run")
  /\ mem' = [mem EXCEPT ![p] = [Mem0 EXCEPT !.main = u, !.tid = mem[p].tid,
                 !.cookie = (Wrong = "keepcookie" /\ mem[p].cookie), !.inexit = (Wrong = "keepexit" /\ mem[p].inexit),
                 !.ftdone = (Wrong = "keepftdone" /\ mem[p].ftdone), !.lock = IF Wrong = "keeplock" THEN mem[p].lock ELSE 0]]
  /\ Emit(<<Ev("init_process", p, u, 1, FTok(Parent(p), u), 0, PData(p)), Ev("init_process.", p, u, 0, 0, 0, 0), Ev("fork_c", p, u, 1, 0, 0, 0)>>)
  /\ UNCHANGED <<sig, life, nreq>>

Sys(p, u) ==
  \/ CreateEnd(p, u) \/ Link(p, u) \/ Linked(p, u) \/ InitDone(p, u) \/ Start(p, u) \/ Enter(p, u)
  \/ Clean1(p, u) \/ Clean2(p, u) \/ Clean3(p, u) \/ Clean4(p, u) \/ Clean5(p, u)
  \/ Win(p, u) \/ Lose(p, u) \/ Begun(p, u) \/ Sweep0(p, u) \/ Sweep1(p, u) \/ Sweep2(p, u) \/ Sweep3(p, u) \/ Sweep5(p, u)
  \/ Own6(p, u) \/ Own7(p, u) \/ Fini(p, u) \/ FiniDone(p, u) \/ End(p, u)
  \/ Blk2(p, u) \/ Blk3(p, u) \/ Blk4(p, u) \/ Blk5(p, u) \/ Fork2(p, u) \/ Fork3(p, u) \/ Child(p, u)
Handler(p, u) == Deliver(p, u) \/ Hand1(p, u) \/ Hand2(p, u) \/ Hand3(p, u)
App(p, u) ==
  \/ \E w \in U : Create(p, u, w)
  \/ Return(p, u) \/ Blk1(p, u) \/ Fork1(p, u)
  \/ \E k \in {"exit", "_exit", "sig", "pexit"} : Request(p, u, k) \/ AgainX(p, u, k) \/ HandReq(p, u, k)
Next == \E p \in Procs : (\E u \in U : Sys(p, u) \/ Handler(p, u) \/ App(p, u)) \/ Last(p)
Spec == Init /\ [][Next]_vars
(* a thread that can go on does, and takes its signals, but handlers do not starve the thread they interrupt *)
Fair == Spec /\ \A p \in Procs : WF_vars(Last(p)) /\ \A u \in U : SF_vars(Sys(p, u)) /\ SF_vars(Handler(p, u))
Clean == bad = {}
(* an exit request ends the process *)
Terminates == \A p \in Procs : (life[p] = "live" /\ mem[p].cookie) ~> (life[p] = "ended")
=============================================================================
