------------------------------- MODULE GenMisc -------------------------------
(* Scenarios for dlopen (C20), MPI (C21, C22) and broadcast (C23).          *)
EXTENDS GenBase

(* ------------------------------------------------------------------ dlopen *)
DA == <<"C20">>
Fl == <<"n", "l", "ng", "lg", "nd", "lgd">>
Pn(i) == "@H@/p" \o N(i) \o ".so"
Op(c, op, s, f, fl, w) == c \o " " \o op \o " " \o N(s) \o " " \o f \o " " \o fl \o " " \o N(w)
Bad == << <<"@H@/nothing.so", 0>>, <<"@D@", 0>>, <<"@D@/text", 0>>, <<"nothing.so", 0>>, <<"NULL", 1>>, <<"@H@/p1.so", 1>>, <<"@D@/empty", 0>>, <<"libdl.so.2", 1>>, <<"@D@/link.so", 1>> >>
DFiles == << <<"text", "755:no_library">>, <<"empty", "644:">>, <<"link.so", "ln:@H@/p1.so">> >>
Op2 == <<"open", "ropen">>
DlSimple ==
  Flat([o \in 1..2 |-> LET op == <<"dlopen", "rdlopen">>[o]  cl == <<"dlclose", "rdlclose">>[o]  an == IF o = 1 THEN <<"C20">> ELSE <<"C14">> IN
   Flat([i \in DOMAIN Fl |->
    << Sc("dl-" \o op \o "-" \o Fl[i], <<Op("m", op, 1, Pn(1), Fl[i], 1), "m dlsym 1 p1_fn 1", "m dlsym -1 p1_fn " \o (IF Fl[i] \in {"ng", "lg", "lgd"} THEN "1" ELSE "0"),
           Op("m", op, 1, Pn(1), Fl[i], 1), "m " \o cl \o " 1", Op("m", op, 1, Pn(1), "no", 1), "m " \o cl \o " 1", "m " \o cl \o " 1",
           Op("m", op, 2, Pn(1), "no", IF Fl[i] \in {"nd", "lgd"} THEN 1 ELSE IF Fl[i] \in {"n", "l"} THEN 0 ELSE -1), "m " \o cl \o " -1", Op("m", op, 3, Pn(2), Fl[i], 1), "m exit 3">>, an) >>]) \o
   Flat([i \in DOMAIN Bad |-> Flat([j \in 1..2 |->
    << [Sc("dl-bad-" \o op \o N(i) \o "-" \o Fl[j], <<Op("m", op, 1, Bad[i][1], Fl[j], Bad[i][2]), Op("m", op, 1, Bad[i][1], Fl[j], Bad[i][2]), Op("m", op, 2, Pn(2), "l", 1), "m " \o cl \o " 2", "m exit 3">>, an) EXCEPT !.files = DFiles] >>])])])
Where(id, lines, any) == Sc("dl-" \o id, lines, any)
DlWhere ==
  << Where("thr", <<"m create 1", Op("T1", "dlopen", 1, Pn(1), "n", 1), "T1 dlclose 1", Op("T1", "dlopen", 2, "@H@/none", "l", 0), "T1 ret 2", "m join 1", "m exit 3">>, DA),
     Where("atexit", <<"m atexit 0", Op("A0", "dlopen", 1, Pn(1), "n", 1), "A0 dlclose 1", "m exit 3">>, DA),
     Where("early", <<Op("E", "dlopen", 1, Pn(1), "n", 1), "E dlclose 1", Op("m", "dlopen", 1, Pn(1), "l", 1), "m exit 3">>, DA),
     Where("fork", <<Op("m", "dlopen", 1, Pn(1), "n", 1), "m fork K1", "m reap", "K1 dlclose 1", Op("K1", "dlopen", 2, Pn(2), "ng", 1), "K1 dlsym -1 p2_fn 1", "K1 exit 2", "m dlclose 1", "m exit 3">>, DA),
     Where("handler", <<"m sa 10 h0 - none", Op("h:10", "dlopen", 1, Pn(1), "n", 1), "m snd 10 raise", "m dlclose 1", "m exit 3">>, DA),
     Where("nest", <<Op("m", "dlopen", 1, Pn(1), "n", 1), Op("P:p1", "dlopen", 2, Pn(2), "lg", 1), Op("P:p2", "dlopen", 3, "@H@/none", "n", 0), "m dlsym -1 p2_fn 1", "m dlsym -1 p1_fn 0", "m dlclose 1", "Q:p1 dlclose 2", "m exit 3">>, DA),
     Where("nest3", <<Op("m", "dlopen", 1, Pn(1), "n", 1), Op("P:p1", "dlopen", 2, Pn(2), "l", 1), Op("P:p2", "dlopen", 3, Pn(3), "n", 1), Op("P:p3", "dlopen", 4, "NULL", "n", 1), "m dlclose 1", "Q:p1 dlclose 2", "Q:p2 dlclose 3", "m exit 3">>, DA),
     Where("nestthr", <<"m create 1", "m create 2", Op("T1", "dlopen", 1, Pn(1), "n", 1), Op("P:p1", "dlopen", 2, Pn(2), "l", 1), Op("T2", "dlopen", 3, Pn(3), "n", 1), "m join 1", "m join 2", "m dlclose 1", "Q:p1 dlclose 2", "m dlclose 3", "m exit 3">>, DA),
     Where("ctorcreate", <<Op("m", "dlopen", 1, Pn(1), "n", 1), "P:p1 create 1", "P:p1 q", "T1 ret 1", "m join 1", "m dlclose 1", "m exit 3">>, DA),
     Where("ctorexit", <<Op("m", "dlopen", 1, Pn(1), "n", 1), "P:p1 exit 5">>, <<"C20", "C02">>),
     Where("dtorexit", <<Op("m", "dlopen", 1, Pn(1), "n", 1), "m dlclose 1", "Q:p1 _exit 5">>, <<"C20", "C02">>),
     Where("ctorfork", <<Op("m", "dlopen", 1, Pn(1), "n", 1), "P:p1 fork K1", "P:p1 reap", "K1 exit 2", "m dlclose 1", "m exit 3">>, DA),
     Where("exitleft", <<Op("m", "dlopen", 1, Pn(1), "n", 1), "Q:p1 q", "m exit 3">>, DA),
     Where("many", Flat([i \in 1..12 |-> <<Op("m", "dlopen", 1 + (i % 3), Pn(1 + (i % 3)), IF i % 2 = 0 THEN "n" ELSE "l", 1), Op("m", "dlopen", 5, "@H@/none" \o N(i), "n", 0)>>]) \o
                   Flat([i \in 1..12 |-> <<"m dlclose " \o N(1 + (i % 3))>>]) \o <<"m dlclose -1", "m exit 3">>, DA),
     Reps(Where("storm", <<"m createn 1 6", "T* repeat 20 R", Op("R", "dlopen", 101, Pn(1), "n", 1), "R dlclose 101", Op("R", "dlopen", 102, "@H@/none", "n", 0), "m joinn 1 6", "m exit 3">>, DA), 2),
     Where("cbreal", <<Op("m", "dlopen", 1, Pn(1), "n", 1), Op("cb:pre_dlopen", "rdlopen", 7, Pn(3), "l", 1), Op("cb:dlopen", "rdlopen", 7, Pn(3), "l", 1), "cb:dlclose rdlclose 7", "cb:post_dlclose rdlclose 7", "m dlclose 1", "m exit 3">>, <<"C20", "C14">>),
     Where("cbfail", <<Op("m", "dlopen", 1, "@H@/none", "n", 0), Op("m", "dlopen", 1, Pn(1), "n", 1), "cb:pre_dlopen rdlopen 7 @H@/none l 0", "m dlclose 1", "m exit 3">>, <<"C20", "C14">>),
     Where("cbinit", <<Op("cb:init_process", "rdlopen", 7, Pn(3), "l", 1), "cb:fini_process rdlclose 7", Op("m", "dlopen", 1, Pn(1), "n", 1), "m exit 3">>, <<"C20", "C14">>),
     Where("cbq", <<Op("m", "dlopen", 1, Pn(1), "n", 1), "cb:pre_dlopen q", "cb:dlopen q", "cb:dlclose q", "cb:post_dlclose q", "m dlclose 1", "m exit 3">>, DA),
     Where("exitin", <<"m create 1", Op("T1", "dlopen", 1, Pn(1), "n", 1), "P:p1 set 1", "P:p1 ms 40", "m await 1", "m exit 3">>, DA),
     Where("execafter", <<Op("m", "dlopen", 1, Pn(1), "n", 1), "m exec v @H@/nothing 2 keep 2", "m dlclose 1", "m exit 3">>, DA) >>

(* --------------------------------------------------------------------- MPI *)
MA == <<"C21">>
RA == <<"C22">>
(* bindings: suffixes; the PMPI ones exist in the dynamic library only *)
BindI == <<"MPI_Init", "mpi_init", "mpi_init_", "mpi_init__", "PMPI_Init", "pmpi_init", "pmpi_init_", "pmpi_init__">>
BindT == <<"MPI_Init_thread", "mpi_init_thread", "mpi_init_thread_", "mpi_init_thread__", "PMPI_Init_thread", "pmpi_init_thread", "pmpi_init_thread_", "pmpi_init_thread__">>
BindF == <<"MPI_Finalize", "mpi_finalize", "mpi_finalize_", "mpi_finalize__", "PMPI_Finalize", "pmpi_finalize", "pmpi_finalize_", "pmpi_finalize__">>
BindR == <<"MPI_Comm_rank", "mpi_comm_rank", "mpi_comm_rank_", "mpi_comm_rank__", "PMPI_Comm_rank", "pmpi_comm_rank", "pmpi_comm_rank_", "pmpi_comm_rank__">>
BindIT == BindI \o BindT
PM(i) == ((i - 1) % 8) >= 4
Md(s, p) == IF p THEN Dyn(s) ELSE s
Mp(c, f) == c \o " mpi " \o f
Rk(c, f, a) == c \o " mpi " \o f \o " " \o N(a)
Tail0 == <<"m create 1", "m join 1", "m exit 3">>
One ==
  Flat([i \in 1..16 |-> << Md(Sc("mpi-init-" \o N(i), <<Mp("m", BindIT[i]), "m mpiq", Mp("m", BindF[1 + ((i - 1) % 8)]), "m mpiq">> \o Tail0, MA), PM(i)),
                          Md(Sc("mpi-init2-" \o N(i), <<Rk("m", BindIT[i], 2), Mp("m", BindIT[i]), Mp("m", BindF[1 + ((i - 1) % 8)]), Mp("m", BindF[1 + ((i - 1) % 8)]), "m exit 3">>, MA), PM(i)),
                          Md(Sc("mpi-initthr-" \o N(i), <<"m create 1", Mp("T1", BindIT[i]), "T1 ret 1", "m join 1", Mp("m", BindF[1 + ((i - 1) % 8)]), "m exit 3">>, MA), PM(i)),
                          Md(Sc("mpi-initfail-" \o N(i), <<Mp("m", BindIT[i]), "R:" \o BindIT[i] \o " mpiret 7", "m mpiq", Mp("m", BindF[1 + ((i - 1) % 8)]), "R:" \o BindF[1 + ((i - 1) % 8)] \o " mpiret -3", Rk("m", BindR[1 + ((i - 1) % 8)], 2), "m mpiq", "m exit 3">>, MA), PM(i)) >>]) \o
  [i \in 1..4 |-> Md(Sc("mpi-null-" \o N(i), <<"m mpi " \o <<"MPI_Init", "PMPI_Init", "MPI_Init_thread", "PMPI_Init_thread">>[i] \o " null", "m mpi MPI_Finalize", "m exit 3">>, MA), i \in {2, 4})]
(* one binding's real function calls another binding's wrapper: all pairs, and chains of three *)
Pairs ==
  Flat([i \in 1..16 |-> Flat([j \in 1..16 |-> IF i = j THEN <<>> ELSE
    << Md(Sc("mpi-nest-" \o N(i) \o "-" \o N(j), <<Mp("m", BindIT[i]), "R:" \o BindIT[i] \o " mpi " \o BindIT[j], "m mpiq", Rk("m", BindR[1 + ((j - 1) % 8)], 3), "m mpiq", "m exit 3">>, MA), PM(i) \/ PM(j)) >>])]) \o
  Flat([i \in 1..8 |-> Flat([j \in 1..8 |-> IF i = j THEN <<>> ELSE
    << Md(Sc("mpi-nestf-" \o N(i) \o "-" \o N(j), <<Mp("m", "MPI_Init"), Mp("m", BindF[i]), "R:" \o BindF[i] \o " mpi " \o BindF[j], "m mpiq", "m exit 3">>, MA), PM(i) \/ PM(j)) >>])])
Chains ==
  << Dyn(Sc("mpi-chain-1", <<Mp("m", "mpi_init_"), "R:mpi_init_ mpi MPI_Init", "R:MPI_Init mpi PMPI_Init", "R:PMPI_Init mpi PMPI_Init_thread", Rk("m", "mpi_comm_rank_", 1), "R:mpi_comm_rank_ mpi MPI_Comm_rank 1", "R:MPI_Comm_rank mpi PMPI_Comm_rank 1", "m mpiq",
          Mp("m", "mpi_finalize_"), "R:mpi_finalize_ mpi MPI_Finalize", "R:MPI_Finalize mpi PMPI_Finalize", "m mpiq", "m exit 3">>, MA)),
     Sc("mpi-chain-2", <<Mp("m", "mpi_init__"), "R:mpi_init__ mpi mpi_init_", "R:mpi_init__ mpi mpi_init", "R:mpi_init_ mpi MPI_Init_thread 3", "R:mpi_init_ mpiret 4", "R:MPI_Init_thread mpi MPI_Comm_rank 9", "R:MPI_Init_thread mpiq", "m mpiq", "m mpi MPI_Comm_rank 2", "m mpiq", "m mpi MPI_Finalize", "m exit 3">>, MA),
     Sc("mpi-siblings", <<Mp("m", "MPI_Init"), "R:MPI_Init mpi mpi_init", "R:MPI_Init mpi mpi_init_", "R:MPI_Init mpi MPI_Init_thread 1", Mp("m", "MPI_Finalize"), "R:MPI_Finalize mpi mpi_finalize", "R:MPI_Finalize mpi mpi_finalize_", "m exit 3">>, MA),
     Sc("mpi-finiininit", <<Mp("m", "MPI_Init"), "R:MPI_Init mpi MPI_Finalize", "m mpiq", "m mpi MPI_Finalize", "m exit 3">>, MA),
     Sc("mpi-initinfini", <<Mp("m", "MPI_Init"), Mp("m", "MPI_Finalize"), "R:MPI_Finalize mpi mpi_init", "m mpi mpi_comm_rank 4", "m mpiq", "m exit 3">>, MA),
     Sc("mpi-nofini", <<Mp("m", "MPI_Init"), "m mpi MPI_Comm_rank 4", "m mpiq", "m exit 3">>, MA),
     Sc("mpi-exitin", <<Mp("m", "MPI_Init"), "R:MPI_Init exit 6", "m exit 3">>, MA),
     Sc("mpi-fork", <<Mp("m", "MPI_Init"), "m fork K1", "m reap", "K1 mpi MPI_Comm_rank 5", "K1 mpiq", "K1 mpi MPI_Finalize", "K1 exit 2", "m mpiq", "m mpi mpi_comm_rank_ 6", "m mpiq", "m mpi MPI_Finalize", "m exit 3">>, MA),
     Sc("mpi-forkin", <<Mp("m", "MPI_Init"), "R:MPI_Init fork K1", "R:MPI_Init reap", "K1 mpi MPI_Comm_rank 5", "K1 mpiq", "K1 exit 2", "m mpi MPI_Comm_rank 2", "m mpiq", "m exit 3">>, MA),
     Sc("mpi-createin", <<Mp("m", "MPI_Init"), "R:MPI_Init create 1", "T1 q", "T1 ret 1", "m join 1", "m mpi MPI_Finalize", "m exit 3">>, MA),
     Sc("mpi-early", <<Mp("E", "MPI_Init"), "m mpi MPI_Comm_rank 2", "m mpiq", "m mpi MPI_Finalize", "m exit 3">>, MA),
     Sc("mpi-cbrank", <<Mp("m", "MPI_Init"), "cb:mpi_pre_init mpi MPI_Comm_rank 1", "cb:init_mpi mpi MPI_Comm_rank 2", "cb:fini_mpi mpiq", "cb:mpi_post_fini mpiq", "m mpiq", "m mpi MPI_Comm_rank 3", "m mpiq", "m mpi MPI_Finalize", "m exit 3">>, RA),
     Sc("mpi-cbinit", <<Mp("m", "MPI_Init"), "cb:mpi_pre_init#1 mpi mpi_init", "cb:init_mpi#1 mpi mpi_init_", "m mpi MPI_Finalize", "cb:fini_mpi#1 mpi mpi_finalize", "cb:mpi_post_fini#1 mpi mpi_finalize_", "m exit 3">>, MA),
     Sc("mpi-atexit", <<Mp("m", "MPI_Init"), "m atexit 0", "A0 mpi MPI_Comm_rank 3", "A0 mpi MPI_Finalize", "A0 mpiq", "m exit 3">>, MA) >>
(* --- histories of publishing: every sequence of up to four of these steps, starting at every stage --- *)
Ev == <<"init", "rankA", "rankB", "sr", "rankin", "fini">>
EvL(k, i) ==
  CASE Ev[k] = "init" -> <<"m mpi " \o BindIT[1 + ((i * 5 + 1) % 4)]>>
    [] Ev[k] = "rankA" -> <<Rk("m", BindR[1 + (i % 4)], i)>>
    [] Ev[k] = "rankB" -> <<Rk("m", BindR[1 + ((i + 1) % 4)], 10 + i)>>
    [] Ev[k] = "sr" -> <<"m srank " \o N(100 + i) \o " " \o N(50 + i)>>
    [] Ev[k] = "rankin" -> <<"m mpi MPI_Init_thread 1">>     \* its real function asks for a rank, see Hist
    [] Ev[k] = "fini" -> <<"m mpi " \o BindF[1 + (i % 4)]>>
Hist(ks) ==
  Sc("mpi-hist-" \o FoldLeft(LAMBDA a, x : a \o N(x), "", ks),
     <<"m mpiq">> \o Flat([i \in DOMAIN ks |-> EvL(ks[i], i) \o <<"m mpiq">>]) \o <<"R:MPI_Init_thread mpi MPI_Comm_rank 20", "R:MPI_Init_thread mpiq", "m mpi MPI_Finalize", "m exit 3">>, RA)
H6 == 1..6
Hists ==
  [i \in H6 |-> Hist(<<i>>)] \o Flat([i \in H6 |-> [j \in H6 |-> Hist(<<i, j>>)]]) \o
  Flat([i \in H6 |-> Flat([j \in H6 |-> [k \in H6 |-> Hist(<<i, j, k>>)]])]) \o
  Flat([i \in H6 |-> Flat([j \in H6 |-> Flat([k \in H6 |-> [l \in H6 |-> Thorough(Hist(<<i, j, k, l>>))]])])])
(* --- every comm-rank binding alone, nested, failing, in callbacks; size zero rank and the like --- *)
Ranks ==
  Flat([i \in 1..8 |->
    << Md(Sc("mpi-rank-" \o N(i), <<Rk("m", BindR[i], 9), "m mpiq", "m mpi MPI_Init", "m mpiq", Rk("m", BindR[i], 2), "m mpiq", Rk("m", BindR[i], 3), "m mpiq", "m mpi MPI_Finalize", Rk("m", BindR[i], 4), "m mpiq", "m exit 3">>, RA), PM(i)),
       Md(Sc("mpi-rank0-" \o N(i), <<"m mpi mpi_init_", Rk("m", BindR[i], 0), "m mpiq", Rk("m", BindR[i], 7), "m mpiq", "m srank 77 66", "m mpiq", "m exit 3">>, RA), PM(i)),
       Md(Sc("mpi-rankin-" \o N(i), <<"m mpi mpi_init_", "R:mpi_init_ mpi " \o BindR[i] \o " 8", "cb:mpi_pre_init mpi " \o BindR[i] \o " 5", "cb:init_mpi mpi " \o BindR[i] \o " 6", "m mpiq", Rk("m", BindR[i], 7), "m mpiq", "m mpi mpi_finalize_", "R:mpi_finalize_ mpi " \o BindR[i] \o " 3", "m mpiq", "m exit 3">>, RA), PM(i)),
       Md(Sc("mpi-rankfini-" \o N(i), <<"m mpi mpi_init_", "m mpi mpi_finalize_", "R:mpi_finalize_ mpi " \o BindR[i] \o " 3", "m mpiq", "m exit 3">>, RA), PM(i)),
       Md(Sc("mpi-ranksr-" \o N(i), <<"m srank 5 4", "m mpiq", "m mpi MPI_Init", Rk("m", BindR[i], 7), "m mpiq", "m srank 9 8", "m mpiq", "m exit 3">>, RA), PM(i)),
       Md(Sc("mpi-rankerr-" \o N(i), <<"m srank 5 4", "m mpi MPI_Init", Rk("m", BindR[i], 7), "R:" \o BindR[i] \o " mpiret 5", "m mpiq", "m exit 3">>, RA), PM(i)),
       Md(Sc("mpi-rankthr-" \o N(i), <<"m mpi MPI_Init", "m create 1", Rk("T1", BindR[i], 7), "T1 mpiq", "T1 ret 1", "m join 1", "m mpiq", Rk("m", BindR[i], 8), "m mpiq", "m exit 3">>, RA), PM(i)) >>]) \o
  Flat([i \in 1..8 |-> Flat([j \in 1..8 |-> IF i = j THEN <<>> ELSE
    << Md(Sc("mpi-ranknest-" \o N(i) \o "-" \o N(j), <<"m mpi MPI_Init", Rk("m", BindR[i], 2), "R:" \o BindR[i] \o " mpi " \o BindR[j] \o " 2", "m mpiq", Rk("m", BindR[j], 5), "m mpiq", "m mpi MPI_Finalize", "m exit 3">>, RA), PM(i) \/ PM(j)) >>])])

(* --------------------------------------------------------------- broadcast *)
BA == <<"C23">>
SigB == <<10, 12, 40>>
H0(g) == "m sa " \o N(g) \o " h0 - none"
Bc(id, lines) == Sc("bc-" \o id, lines, BA)
Bcast ==
  Flat([i \in DOMAIN SigB |-> LET g == SigB[i]  b == " bcast " \o N(g) IN
   << Bc("single-" \o N(g), <<H0(g), "m" \o b, "m exit 3">>),
      Bc("one-" \o N(g), <<H0(g), "m create 1", "T1 set 1", "T1 await 2", "m await 1", "m" \o b, "m set 2", "m join 1", "m" \o b, "m exit 3">>),
      Bc("back-" \o N(g), <<H0(g), "m create 1", "T1" \o b, "T1 ret 1", "m join 1", "m exit 3">>),
      Bc("nine-" \o N(g), <<H0(g), "m createn 1 9", "T* bar 10", "T* await 2", "m bar 10", "m" \o b, "m set 2", "m joinn 1 9", "m" \o b, "m exit 3">>),
      Bc("thr-" \o N(g), <<H0(g), "m createn 1 5", "T* bar 6", "T3 bar 6", "T3" \o b, "T3 set 2", "T* await 2", "m bar 6", "m await 2", "m joinn 1 5", "m exit 3">>),
      Bc("all-" \o N(g), <<H0(g), "m createn 1 5", "T* bar 6", "T*" \o b, "T*" \o b, "m bar 6", "m" \o b, "m joinn 1 5", "m exit 3">>),
      Bc("blkend-" \o N(g), <<H0(g), "m createn 1 14", "T* blocksd", "T* bar 15", "T* ret 5", "m bar 15", "m joinn 1 14", "m create 20", "T20 set 1", "T20 await 2", "m await 1", "m" \o b, "m set 2", "m join 20", "m exit 3">>),
      Bc("initend-" \o N(g), <<H0(g), "m create 1", "cb:init_thread#1 pexit 5", "m join 1", "m create 2", "T2" \o b, "T2 set 1", "T2 await 2", "m await 1", "m" \o b, "m set 2", "m join 2", "m exit 3">>),
      Bc("ign-" \o N(g), <<H0(g), "m create 1", "T1 set 1", "T1 await 3", "m disable", "m create 2", "m enable", "T2 set 2", "T2 await 3", "m await 1", "m await 2", "m" \o b, "m set 3", "m join 1", "m join 2", "m exit 3">>),
      Bc("igncall-" \o N(g), <<H0(g), "m disable", "m create 1", "T1" \o b, "T1 ret 1", "m join 1", "m exit 3">>),
      Bc("igncall2-" \o N(g), <<H0(g), "m createn 1 3", "T* bar 4", "T* await 3", "m bar 4", "m disable", "m create 5", "m create 6", "T5 await 2", "T5" \o b, "T5" \o b, "T5 set 3", "T5 ret 1", "T6 set 2", "T6 await 3", "m joinn 1 3", "m join 5", "m join 6", "m exit 3">>),
      Bc("ignfork-" \o N(g), <<H0(g), "m create 1", "T1 await 3", "m disable", "m create 2", "T2 fork K1", "T2 reap", "T2 set 3", "T2 ret 1", "K1" \o b, "K1 create 20", "T20" \o b, "T20 set 5", "T20 await 6", "K1 await 5", "K1" \o b, "K1 set 6", "K1 join 20", "K1 exit 2", "m join 1", "m join 2", "m" \o b, "m exit 3">>),
      Bc("ignlast-" \o N(g), <<H0(g), "m create 1", "T1 ret 1", "m join 1", "m disable", "m create 2", "T2 set 1", "T2" \o b, "T2 await 2", "m await 1", "m" \o b, "m set 2", "m join 2", "m" \o b, "m exit 3">>),
      Bc("igndetach-" \o N(g), <<"opt ignore 1", H0(g), "m create 1", "T1 set 1", "T1 await 2", "m await 1", "m" \o b, "m create 2", "T2" \o b, "T2 set 2", "T2 ret 1", "m join 1", "m join 2", "m exit 3">>),
      Bc("fini-" \o N(g), <<H0(g), "m createn 1 3", "T2 await 1", "m join 1", "m join 3", "m" \o b, "m set 1", "m join 2", "m" \o b, "m exit 3">>),
      Bc("incb-" \o N(g), <<H0(g), "m create 1", "T1 set 1", "T1 await 3", "m await 1", "m create 2", "cb:init_thread#2 set 2", "cb:init_thread#2 ms 30", "m await 2", "m" \o b, "m set 3", "m join 1", "m join 2", "m exit 3">>),
      Bc("infini-" \o N(g), <<H0(g), "m create 1", "T1 set 1", "T1 await 3", "m await 1", "m create 2", "cb:fini_thread@2 set 2", "cb:fini_thread@2 ms 30", "m await 2", "m" \o b, "m set 3", "m join 1", "m join 2", "m exit 3">>),
      Bc("key-" \o N(g), <<H0(g), "m create 1", "T1" \o b, "cb:init_thread@1" \o b, "cb:fini_thread@1" \o b, "m join 1", "m exit 3">>),
      Bc("fork-" \o N(g), <<H0(g), "m createn 1 3", "T* bar 4", "T* await 1", "m bar 4", "m fork K1", "K1" \o b, "K1 create 5", "T5 set 5", "T5 await 6", "K1 await 5", "K1" \o b, "K1 set 6", "K1 join 5", "K1 exit 2", "m reap", "m" \o b, "m set 1", "m joinn 1 3", "m exit 3">>),
      Bc("forkthr-" \o N(g), <<H0(g), "m createn 1 3", "T* bar 4", "T2 bar 4", "T2 fork K1", "T2 reap", "T* await 1", "m bar 4", "K1" \o b, "K1 create 5", "T5" \o b, "T5 ret 1", "K1 join 5", "K1 exit 2", "m ms 40", "m set 1", "m joinn 1 3", "m exit 3">>),
      Bc("handler-" \o N(g), <<H0(g), "m sa 11 h1 - none", "m sa 15 h1 - none", "h:15" \o b, "m createn 1 3", "T* bar 4", "T* await 1", "m bar 4", "m snd 15 raise", "m set 1", "m joinn 1 3", "m exit 3">>),
      Bc("client-" \o N(g), <<"m csa " \o N(g) \o " c0", "m createn 1 3", "T* bar 4", "T* await 1", "m bar 4", "m" \o b, "m set 1", "m joinn 1 3", "m exit 3">>),
      Bc("exit-" \o N(g), <<H0(g), "m createn 1 3", "T* bar 4", "T* park sem", "m bar 4", "cb:begin_exit" \o b, "cb:fini_process" \o b, "m exit 3">>),
      Bc("atexit-" \o N(g), <<H0(g), "m atexit 0", "A0" \o b, "m createn 1 3", "T* bar 4", "T* park pause", "m bar 4", "m exit 3">>),
      Bc("pexit-" \o N(g), <<H0(g), "m create 1", "T1 ms 20", "T1" \o b, "T1 exit 3", "m pexit 1">>),
      Reps(Bc("storm-" \o N(g), <<H0(g), "m createn 1 6", "T* repeat 8 R", "R" \o b, "R us 50", "m joinn 1 6", "m exit 3">>), 1),
      Reps(Bc("churn-" \o N(g), <<H0(g), "m create 90", "T90 repeat 40 R", "R" \o b, "m createn 1 24", "m joinn 1 24", "m join 90", "m exit 3">>), 3) >>])
All == DlSimple \o DlWhere \o One \o Pairs \o Chains \o Hists \o Ranks \o Bcast \o Debug(DlSimple, 7) \o Debug(One, 11) \o Debug(Chains, 3) \o Debug(Ranks, 9)
ASSUME Emit(All) /\ PrintT(<<"GENERATED", Len(All)>>)
=============================================================================
