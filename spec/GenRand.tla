------------------------------- MODULE GenRand -------------------------------
(* Pseudo-random histories: programs that mix operations of all families,   *)
(* drawn with a generator that is part of the specification (Wichmann and   *)
(* Hill's), so that a seed and a number name a program.  The contract in    *)
(* Contract.tla judges them like every other history; nothing is expected   *)
(* of a particular program.                                                 *)
EXTENDS GenBase
(* a quick check always runs the same programs *)
Var(n, d) == IF n \in DOMAIN IOEnv THEN IOEnv[n] ELSE d
Seed == IF Var("VF_TIER", "") = "quick" THEN 1 ELSE atoi(Var("VF_SEED", "1"))
Num == atoi(Var("VF_NUM", IF Var("VF_TIER", "") = "thorough" THEN "2500" ELSE "200"))
Next(s) == <<(171 * s[1]) % 30269, (172 * s[2]) % 30307, (170 * s[3]) % 30323>>
Start(k) == LET i == (Seed % 1000) * 7919 + (k % 200000) * 7717 IN Next(Next(Next(Next(<<1 + (i % 30000), 1 + ((i \div 7) % 30000), 1 + ((i \div 49 + k * 31) % 30000)>>))))
R(s, n) == (s[1] + 3 * s[2] + 7 * s[3]) % n
(* n draws from a pool of line groups *)
RECURSIVE Body(_, _, _)
Body(s, n, pool) == IF n = 0 THEN [s |-> s, l |-> <<>>] ELSE
  LET s1 == Next(s)  r == Body(s1, n - 1, pool) IN [s |-> r.s, l |-> pool[1 + R(s1, Len(pool))] \o r.l]
Pick(s, pool) == pool[1 + R(s, Len(pool))]
On(c, ls) == [i \in DOMAIN ls |-> c \o " " \o ls[i]]
(* ------------------------------------------------------- threads and ends *)
Common == << <<"q">>, <<"us 200">>, <<"ms 1">>, <<"blocksd", "us 150", "unblocksd">>, <<"blocksd", "blocksd", "unblocksd">>, <<"disable", "us 50", "enable">>,
             <<"bcast 12">>, <<"snd 12 raise">>, <<"snd 10 raise">>, <<"mask pthr block 10", "snd 10 raise", "mask pthr unblock 10">>, <<"system exit~3 768">>,
             <<"exec v @D@/nothing 2 keep 2">>, <<"sw timed 14 1">>, <<"errno">>, <<"tsd">>, <<"tinfo">>, <<"rsystem exit~1 256">> >>
Kid(j) == N(20 + j)
KidPool(j) == Common \o << <<"create " \o Kid(j), "join " \o Kid(j)>>, <<"create " \o Kid(j), "join " \o Kid(j)>> >>
KidEnds == << <<"_exit 4">>, <<"_exit 5">>, <<"exec v @H@/vfprobe 2 keep 0">>, <<"fatal 15 raise">> >>
KidEnds0 == KidEnds \o << <<"exit 4">>, <<"exit 4">>, <<"ret 2">> >>
ThrPool(j) == Common \o << <<"fork K" \o N(j), "reap">>, <<"vfork K" \o N(j), "reap">>, <<"rfork K8", "reap">>, <<"create " \o N(j + 4), "join " \o N(j + 4)>>, <<"disable", "create " \o N(j + 12), "enable", "join " \o N(j + 12)>> >>
(* before there are threads, and later: a child of a process with threads must not rely on the C library's exit *)
MainPool1 == Common \o << <<"fork K0", "reap">>, <<"fork K0">>, <<"vfork K0", "reap">>, <<"dlopen 101 @H@/p1.so n 1", "dlclose 101">>, <<"create 9", "join 9">>, <<"disable", "create 10", "enable", "join 10">> >>
MainPool2 == Common \o << <<"fork K7", "reap">>, <<"fork K7">>, <<"vfork K7", "reap">>, <<"create 9", "join 9">>, <<"disable", "create 10", "enable", "join 10">> >>
Ends == << <<"ret 1">>, <<"ret 2">>, <<"pexit 3">>, <<"us 300", "ret 4">>, <<"tsd", "pexit 5">> >>
Parks == << <<"park sem">>, <<"park sleep">>, <<"park spin">>, <<"park pause">>, <<"blocksd", "us 400", "unblocksd", "park sem">> >>
Outs == << <<"exit 6">>, <<"_exit 7">>, <<"fatal 15 tkill">> >>
MEnds == << <<"exit 3">>, <<"exit 3">>, <<"_exit 3">>, <<"ret 3">>, <<"fatal 15 raise">>, <<"exec v @H@/vfprobe 2 keep 0">>, <<"pexit 1">>, <<"rexit 4">> >>
Cbs == << <<>>, <<>>, <<"cb:init_thread#1 q">>, <<"cb:fini_thread@1 us 400">>, <<"cb:fini_process us 300">>, <<"cb:begin_exit ms 1">>, <<"cb:init_thread#2 us 300">>,
          <<"cb:fini_thread us 200">>, <<"cb:begin_exit blocksd", "cb:begin_exit unblocksd">>, <<"cb:fini_process bcast 12">>, <<"cb:init_thread#1 pexit 5">>, <<"h:12 q">>, <<"h:12 bcast 23">>,
          <<"h:12 blocksd", "h:12 unblocksd">>, <<"h:10 mask proc block 12">>, <<"A0 bcast 12">>, <<"A0 us 300">>,
          <<"cb:pre_fork q">>, <<"cb:post_fork q">>, <<"cb:pre_create#1 q">>, <<"cb:fini_thread snd 10 raise">>, <<"cb:begin_exit snd 12 raise">> >>
Life(k) ==
  LET s0 == Start(k)
      nt == 1 + R(s0, 4)
      mend == Pick(Next(s0), MEnds)
      pex == mend[1] = "pexit 1"
      joinall == pex \/ R(Next(Next(s0)), 3) = 0
      sT(j) == Next(Start(k * 17 + j + 1000))
      kind(j) == R(sT(j), 10)
      body(j) == Body(Next(sT(j)), R(Next(sT(j)), 5), ThrPool(j))
      tend(j) == LET b == body(j) IN IF kind(j) = 9 /\ ~joinall THEN Pick(b.s, Outs) ELSE IF kind(j) \in 6..8 /\ ~joinall THEN Pick(b.s, Parks) ELSE Pick(b.s, Ends)
      ends(j) == joinall \/ kind(j) < 6
      kb(j) == Body(Next(Next(sT(j))), R(Next(Next(sT(j))), 4), KidPool(j))
      m1 == Body(Next(Next(Next(s0))), R(s0, 3), MainPool1)
      m2 == Body(m1.s, R(m1.s, 4), MainPool2)
      T == Upto(1, nt)
  IN Sc("rnd-l-" \o N(k),
       <<"m sa 12 h0 - none", "m sa 10 h0 - none">> \o (IF R(Next(m2.s), 3) = 0 THEN <<"m atexit 0">> ELSE <<>>) \o On("m", m1.l) \o Map(LAMBDA j : "m create " \o N(j), T) \o On("m", m2.l) \o
       Flat(Map(LAMBDA j : IF ends(j) /\ (joinall \/ j % 2 = 0) THEN <<"m join " \o N(j)>> ELSE <<>>, T)) \o On("m", mend) \o
       Flat(Map(LAMBDA j : On("T" \o N(j), body(j).l \o tend(j)), T)) \o
       Flat(Map(LAMBDA j : On("K" \o N(j), kb(j).l \o Pick(kb(j).s, IF j = 0 THEN KidEnds0 ELSE KidEnds)), Upto(0, nt) \o <<7>>)) \o
       <<"K8 rexit 1">> \o Pick(m2.s, Cbs) \o Pick(Next(m2.s), Cbs),
       <<"C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C23">>)
(* ----------------------------------------------------------- signals *)
G == <<"10", "12", "14", "40", "28", "29">>
Sets == <<"none", "10", "12,40", "10,12,14", "all", "50", "29,28", "!40">>
SigPool ==
  Flat([i \in DOMAIN G |-> <<
     <<"sa " \o G[i] \o " h0 - none">>, <<"sa " \o G[i] \o " h1 s 10,12">>, <<"sa " \o G[i] \o " h0 sn none">>, <<"sa " \o G[i] \o " ign - none">>, <<"sa " \o G[i] \o " h1 - all">>, <<"sa " \o G[i] \o " q">>,
     <<"signal " \o G[i] \o " h1">>, <<"csa " \o G[i] \o " c0">>, <<"csa " \o G[i] \o " c1">>, <<"csa " \o G[i] \o " null">>,
     <<"snd " \o G[i] \o " raise">>, <<"snd " \o G[i] \o " raise">>, <<"snd " \o G[i] \o " tkill">>, <<"snd " \o G[i] \o " queue " \o N(i)>>, <<"snd " \o G[i] \o " kill">>, <<"sw timed " \o G[i] \o " 0">> >>]) \o
  Flat([i \in DOMAIN Sets |-> << <<"mask proc block " \o Sets[i]>>, <<"mask pthr unblock " \o Sets[i]>>, <<"mask pthr set " \o Sets[i]>>, <<"sw timed " \o Sets[i] \o " 1">>, <<"mask proc set none", "cur">> >>]) \o
  << <<"csa 50 c0", "snd 50 raise">>, <<"system exit~3 768">>, <<"fork K1", "reap">>, <<"exec v @D@/nothing 2 keep 2">>, <<"cur">> >>
KSigPool == SelectSeq(SigPool, LAMBDA x : x[1] # "fork K1")
HPool == << <<>>, <<>>, <<"mark in">>, <<"snd 40 queue 8">>, <<"mask proc block 14">>, <<"sa 14 h1 - none">>, <<"cur">>, <<"q">> >>
SEnds == << <<"exit 3">>, <<"exit 3">>, <<"mask proc unblock 15", "fatal 15 raise">>, <<"exec v @H@/vfprobe 2 keep 0">> >>
Sigs(k) ==
  LET s0 == Start(k + 5000)
      b == Body(s0, 6 + R(s0, 14), SigPool)
      kb == Body(Next(b.s), 2 + R(b.s, 7), KSigPool)
      pre == Flat([i \in DOMAIN G |-> <<"sa " \o G[i] \o " h0 s none">>])
      e == kb.s
  IN Sc("rnd-s-" \o N(k), On("m", <<"cur">> \o pre \o b.l \o Pick(e, SEnds)) \o On("K1", kb.l \o <<"exit 2">>) \o
        On("h:12", Pick(Next(e), HPool)) \o On("h:10", Pick(Next(Next(e)), HPool)) \o On("c:28", Pick(Next(Next(Next(e))), HPool)),
        <<"C15", "C16", "C18", "C19", "C12", "C13">>)
All == [k \in 1..Num |-> Life(k)] \o [k \in 1..Num |-> Sigs(k)]
ASSUME Emit(All) /\ PrintT(<<"GENERATED", Len(All)>>)
=============================================================================
