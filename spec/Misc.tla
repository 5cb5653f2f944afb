-------------------------------- MODULE Misc --------------------------------
(***************************************************************************)
(* Contract of dlopen/dlclose (C20), the MPI wrappers (C21) and the        *)
(* published size and rank (C22); real_dlopen/real_dlclose (C14).          *)
(* MStep(s, e, X) is total, as in Life.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MGet(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
MPutf(f, k, v) == (k :> v) @@ f
MEmpty == [x \in {} |-> 0]
NoFr == [k |-> 0, a |-> 0, b |-> 0, w |-> -1, st |-> "none", h |-> 0]
NoMF == [cls |-> 0, bind |-> -1, arg |-> 0, st |-> "none", code |-> 0]
NewM == [dl |-> MEmpty,            \* thread -> stack of dlopen and dlclose calls
         stk |-> <<>>,             \* MPI calls being made
         done |-> FALSE,           \* an outermost initialisation has returned
         pub |-> <<>>,             \* the published size and rank
         args |-> <<>>]            \* the program's arguments
MInit == [ps |-> MEmpty]
MBroken(cs) == {<<cs[i][2], cs[i][3]>> : i \in {j \in DOMAIN cs : ~cs[j][1]}}
MR(s, p, P, cs) == [s |-> [s EXCEPT !.ps = MPutf(s.ps, p, P)], v |-> MBroken(cs)]
MTop(q, d) == IF q = <<>> THEN d ELSE q[Len(q)]
MPop(q) == SubSeq(q, 1, Len(q) - 1)
MSet(q, x) == [q EXCEPT ![Len(q)] = x]
CountM(q, S) == Cardinality({i \in DOMAIN q : q[i].cls \in S})
SizeOf(c) == c * 10 + 5
RankOf(c) == c * 3 + 1

MStep(s, e, X) ==
 LET p == e.p
     u == e.u
     P == MGet(s.ps, p, NewM)
     q == MGet(P.dl, u, <<>>)
     t == MTop(q, NoFr)
     SetT(x) == [P EXCEPT !.dl = MPutf(@, u, MSet(q, x))]
     m == MTop(P.stk, NoMF)
     nI == CountM(P.stk, {1, 2})
     nF == CountM(P.stk, {3})
     outer == (m.cls \in {1, 2} /\ nI = 1) \/ (m.cls = 3 /\ nF = 1)
     mid == IF m.cls = 4 THEN "C22" ELSE "C21"
     SetM(x) == [P EXCEPT !.stk = MSet(@, x)]
     pubv == IF P.pub = <<>> THEN <<-1, -1>> ELSE P.pub
 IN
 CASE e.e = "image" -> MR(s, p, NewM, <<>>)
   [] e.e = "born" -> MR(s, p, [MGet(s.ps, e.a, NewM) EXCEPT !.dl = MEmpty], <<>>)
   [] e.e = "main" -> MR(s, p, [P EXCEPT !.args = <<e.a, e.b>>], <<>>)
   \* ------------------------------------------------------- dlopen
   [] e.e = "dl_b" -> MR(s, p, [P EXCEPT !.dl = MPutf(@, u, Append(q, [NoFr EXCEPT !.k = e.a, !.a = e.b, !.b = e.c, !.w = e.d, !.st = "b"]))], <<>>)
   [] e.e \in {"pre_dlopen", "dlclose"} ->
        LET k == IF e.e = "pre_dlopen" THEN 1 ELSE 3
            ok == t.k = k /\ t.st = "b" IN
        MR(s, p, IF ok THEN SetT([t EXCEPT !.st = "pre"]) ELSE P,
          << <<ok \/ t.k = k + 1, "C20", "callback before the call not exactly once">>,
             <<t.k # k + 1, "C14", "callback on the client's own dlopen or dlclose">>,
             <<~ok \/ (e.a = t.a /\ (k = 3 \/ e.b = t.b)), "C20", "callback before the call got other arguments">> >>)
   [] e.e = "begin_exit" -> MR(s, p, [P EXCEPT !.dl = MPutf(@, u, <<>>)], <<>>)
   [] e.e = "plugin" ->
        MR(s, p, P,
          << <<q = <<>> \/ t.k \notin {1, 3} \/ t.st = "pre", "C20", "real call outside its callbacks">> >>)
   [] e.e \in {"dlopen", "post_dlclose"} ->
        LET k == IF e.e = "dlopen" THEN 1 ELSE 3
            ok == t.k = k /\ t.st = "pre" IN
        MR(s, p, IF ok THEN SetT([t EXCEPT !.st = "post", !.h = IF k = 1 THEN e.c ELSE e.b]) ELSE P,
          << <<ok \/ t.k = k + 1, "C20", "callback after the call not exactly once">>,
             <<t.k # k + 1, "C14", "callback on the client's own dlopen or dlclose">>,
             <<~ok \/ (e.a = t.a /\ (k = 3 \/ e.b = t.b)), "C20", "callback after the call got other arguments">> >>)
   [] e.e = "dl_e" ->
        LET real == t.k \in {2, 4}
            id == IF real THEN "C14" ELSE "C20" IN
        MR(s, p, [P EXCEPT !.dl = MPutf(@, u, MPop(q))],
          << <<real \/ t.st = "post", "C20", "returned without both callbacks">>,
             <<real \/ t.st # "post" \/ e.b = t.h, "C20", "result is not what the callback was given">>,
             <<t.w = -1 \/ e.a > 2 \/ (t.w = 1) = (e.b # 0), id, "dlopen fails or succeeds differently">>,
             <<t.w = -1 \/ e.a < 3 \/ (t.w = 1) = (e.b = 0), id, "dlclose fails or succeeds differently">>,
             <<e.c = 0, id, "error text lost or invented">>,
             <<e.d # 0, id, "handle differs from an earlier open of the same file">> >>)
   [] e.e = "dlsym" -> MR(s, p, P, << <<e.a = e.b, "C20", "dlopen flags were not honoured">> >>)
   \* ------------------------------------------------------- MPI
   [] e.e = "mp_b" -> MR(s, p, [P EXCEPT !.stk = Append(@, [NoMF EXCEPT !.cls = e.a, !.bind = e.b, !.arg = e.c, !.st = "b"])], <<>>)
   [] e.e \in {"mpi_pre_init", "fini_mpi"} ->
        LET ok == outer /\ m.st = "b" /\ (m.cls = 3) = (e.e = "fini_mpi") IN
        MR(s, p, IF ok THEN SetM([m EXCEPT !.st = "pre"]) ELSE P,
          << <<ok, "C21", IF e.e = "fini_mpi" THEN "fini-mpi not exactly once before the outermost finalisation"
                          ELSE "mpi-pre-init not exactly once before the outermost initialisation">>,
             <<e.e # "fini_mpi" \/ <<e.a, e.b>> = pubv, "C22", "size or rank changed">> >>)
   [] e.e = "mp_r" ->
        LET want == IF outer THEN "pre" ELSE "b" IN
        MR(s, p, IF P.stk = <<>> THEN P ELSE SetM([m EXCEPT !.st = "in"]),
          << <<m.st \notin {"in", "out", "post"}, mid, "real function called again">>,
             <<m.st \in {"in", "out", "post"} \/ m.st = want, mid, "real function called before the callback">>,
             <<e.a = m.cls /\ e.b = m.bind, mid, "another function was called">>,
             <<e.c = 1, mid, "arguments changed">> >>)
   [] e.e = "mp_r." -> MR(s, p, IF P.stk = <<>> THEN P ELSE SetM([m EXCEPT !.st = "out", !.code = e.b]), <<>>)
   [] e.e \in {"init_mpi", "mpi_post_fini"} ->
        LET ok == outer /\ m.st = "out" /\ (m.cls = 3) = (e.e = "mpi_post_fini") IN
        MR(s, p, IF ok THEN SetM([m EXCEPT !.st = "post"]) ELSE P,
          << <<ok, "C21", IF e.e = "init_mpi" THEN "init-mpi not exactly once after the outermost initialisation"
                          ELSE "mpi-post-fini not exactly once after the outermost finalisation">>,
             <<e.e # "init_mpi" \/ ~ok \/ m.bind \notin {0, 4} \/ e.c = 1, "C21", "init-mpi did not get the caller's argument pointers">>,
             <<e.e # "init_mpi" \/ ~ok \/ m.bind \in {0, 4} \/ P.args = <<>> \/ P.args = <<e.a, e.b>>, "C21", "init-mpi did not get the program's arguments">> >>)
   [] e.e = "mp_e" ->
        LET ini == m.cls \in {1, 2} /\ nI = 1
            publ == m.cls = 4 /\ P.pub = <<>> /\ nI = 0 /\ P.done IN
        MR(s, p, [P EXCEPT !.stk = MPop(@), !.done = @ \/ ini,
                           !.pub = IF publ THEN <<SizeOf(m.arg), RankOf(m.arg)>> ELSE @],
          << <<m.st \in {"out", "post"}, mid, "the real function was not called">>,
             <<~outer \/ m.st # "out", mid, "returned without the callback after the real function">>,
             <<e.a = m.code, mid, "result or error code changed">>,
             <<m.cls # 2 \/ e.b = m.arg + 1, "C21", "provided thread level changed">>,
             <<m.cls # 4 \/ e.b = RankOf(m.arg), "C22", "comm-rank did not return the real rank">>,
             <<e.d = 1, "C21", "the caller's arguments changed">> >>)
   [] e.e = "srank" -> MR(s, p, [P EXCEPT !.pub = IF @ = <<>> THEN <<e.a, e.b>> ELSE @], <<>>)
   [] e.e = "mpiq" -> MR(s, p, P, << <<<<e.a, e.b>> = pubv, "C22", "size or rank is not the first one published">> >>)
   [] OTHER -> [s |-> s, v |-> {}]
=============================================================================
