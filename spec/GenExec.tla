------------------------------- MODULE GenExec -------------------------------
(* Scenarios for exec (C12), system (C13) and the client's bypass functions  *)
(* (C14).  The lookup of a program is specified here (Lookup) and gives the  *)
(* expected result of every exec.                                            *)
EXTENDS GenBase

ENOENT == 2  EACCES == 13  EFAULT == 14  ENOTDIR == 20  ELOOP == 40  ENAMETOOLONG == 36
Files == << <<"bin1/prog", "probe">>, <<"bin2/prog", "644:x">>, <<"bin3/prog", "dir">>, <<"bin5", "dir">>, <<"plain", "755:x">>,
            <<"bin6/prog", "ln:../bin1/prog">>, <<"bin7/prog", "ln:nowhere">>, <<"bin8/prog", "ln:prog">>, <<"here", "probe">> >>
(* kinds of PATH elements: directory, what the lookup there gives (0: a program) *)
Els == [G |-> <<"@D@/bin1", 0>>, N |-> <<"@D@/bin2", EACCES>>, D |-> <<"@D@/bin3", EACCES>>, M |-> <<"@D@/bin4", ENOENT>>,
        E |-> <<"@D@/bin5", ENOENT>>, O |-> <<"@D@/bin8", ELOOP>>, F |-> <<"@D@/plain", ENOTDIR>>, S |-> <<"@D@/bin6", 0>>, L |-> <<"@D@/bin7", ENOENT>>]
ElN == <<"G", "N", "D", "M", "E", "F", "S", "L", "Z", "O">>
Res(k, cwd) == IF k = "Z" THEN (IF cwd THEN 0 ELSE ENOENT) ELSE Els[k][2]
Dir(k) == IF k = "Z" THEN "" ELSE Els[k][1]
(* the search ends at the first program and at the first error that is not one of "not there" or "not allowed";
   otherwise it gives EACCES if there was one, otherwise the last error *)
Stops(r) == r \notin {ENOENT, EACCES, ENOTDIR}
Lookup(ks, cwd) ==
  IF \E i \in DOMAIN ks : Stops(Res(ks[i], cwd))
    THEN Res(ks[CHOOSE i \in DOMAIN ks : Stops(Res(ks[i], cwd)) /\ \A j \in 1..(i - 1) : ~Stops(Res(ks[j], cwd))], cwd)
  ELSE IF \E i \in DOMAIN ks : Res(ks[i], cwd) = EACCES THEN EACCES ELSE Res(ks[Len(ks)], cwd)
RECURSIVE Join(_, _)
Join(ks, i) == IF i > Len(ks) THEN "" ELSE (IF i > 1 THEN ":" ELSE "") \o Dir(ks[i]) \o Join(ks, i + 1)
XA == <<"C12">>
After == <<"m create 1", "T1 q", "m join 1", "m q", "m fork K1", "m reap", "K1 exit 3", "m exit 7">>
Ex(id, pre, kind, file, n, env, want, files) ==
  [Sc(id, pre \o <<"m exec " \o kind \o " " \o file \o " " \o N(n) \o " " \o env \o " " \o N(want)>> \o After, XA) EXCEPT !.files = files]
EnvPath(s, v) == [s EXCEPT !.env = << <<"PATH", v>> >>]

(* --- the file name --- *)
Paths == << <<"@D@/bin1/prog", 0>>, <<"bin1/prog", 0>>, <<"./here", 0>>, <<"@D@/bin6/prog", 0>>, <<"@D@/bin2/prog", EACCES>>, <<"@D@/bin3/prog", EACCES>>, <<"@D@", EACCES>>,
            <<"@D@/nothing", ENOENT>>, <<"@D@/bin4/prog", ENOENT>>, <<"@D@/plain/prog", ENOTDIR>>, <<"@D@/bin7/prog", ENOENT>>, <<"@D@/bin8/prog", ELOOP>>,
            <<"EMPTY", ENOENT>>, <<"LONG", ENAMETOOLONG>>, <<"@D@/", EACCES>> >>
CKinds == <<"v", "ve", "l", "le", "r">>
PKinds == <<"v", "ve", "l", "le", "vp", "lp", "r">>
ByPath ==
  Flat([i \in DOMAIN PKinds |-> Flat([j \in DOMAIN Paths |->
    LET vp == PKinds[i] \in {"vp", "lp"} IN
    << Ex("exec-path-" \o PKinds[i] \o N(j), <<>>, PKinds[i], Paths[j][1], 2, "keep", Paths[j][2], Files),
       Ex("exec-paththr-" \o PKinds[i] \o N(j), <<"m create 5", "T5 set 5", "T5 park sem", "m await 5">>, PKinds[i], Paths[j][1], 2, "keep", Paths[j][2], Files) >>])]) \o
  Flat([i \in 1..5 |-> << Ex("exec-cwd-" \o CKinds[i], <<>>, CKinds[i], "here", 2, "keep", 0, Files),
                                  Ex("exec-cwdno-" \o CKinds[i], <<>>, CKinds[i], "prog", 2, "keep", ENOENT, Files) >>]) \o
  Flat([i \in {1, 2} |-> << Ex("exec-null-" \o PKinds[i], <<>>, PKinds[i], "NULLP", 2, "keep", EFAULT, Files) >>])
(* --- PATH --- *)
Seqs1 == [i \in DOMAIN ElN |-> <<ElN[i]>>]
Seqs2 == Flat([i \in DOMAIN ElN |-> [j \in DOMAIN ElN |-> <<ElN[i], ElN[j]>>]])
Seqs3 == Flat([i \in DOMAIN ElN |-> Flat([j \in DOMAIN ElN |-> [k \in DOMAIN ElN |-> <<ElN[i], ElN[j], ElN[k]>>]])])
PathSc(ks, kind, cwd, nm) ==
  EnvPath(Ex("exec-PATH-" \o kind \o "-" \o nm \o (IF cwd THEN "c" ELSE ""), <<>>, kind, "prog", 3, "keep", Lookup(ks, cwd),
             IF cwd THEN Append(Files, <<"prog", "probe">>) ELSE Files), Join(ks, 1))
Nm(ks) == FoldLeft(LAMBDA a, x : a \o x, "", ks)
ByPATH ==
  Flat([i \in DOMAIN Seqs1 |-> << PathSc(Seqs1[i], "vp", FALSE, Nm(Seqs1[i])), PathSc(Seqs1[i], "lp", TRUE, Nm(Seqs1[i])) >>]) \o
  Flat([i \in DOMAIN Seqs2 |-> << PathSc(Seqs2[i], IF i % 2 = 0 THEN "vp" ELSE "lp", i % 3 = 0, Nm(Seqs2[i])) >>]) \o
  Flat([i \in DOMAIN Seqs3 |-> LET x == PathSc(Seqs3[i], IF i % 2 = 0 THEN "lp" ELSE "vp", i % 5 = 0, Nm(Seqs3[i])) IN
                               << IF i % 9 = 4 THEN x ELSE Thorough(x) >>]) \o
  << Ex("exec-PATH-unset", <<"m unsetenv PATH">>, "vp", "nothing", 2, "keep", ENOENT, Files),
     Ex("exec-PATH-unset-sh", <<"m unsetenv PATH">>, "lp", "true", 1, "keep", 0, Files),
     EnvPath(Ex("exec-PATH-long", <<"m longpath 5000">>, "vp", "prog", 2, "keep", 0, Files), "@D@/bin1"),
     EnvPath(Ex("exec-PATH-long2", <<"m longpath 5000">>, "lp", "nothing", 2, "keep", ENOENT, Files), "@D@/bin1"),
     EnvPath(Ex("exec-PATH-long3", <<"m longpath 4000">>, "vp", "prog", 2, "keep", ENAMETOOLONG, Files), "@D@/bin2:@D@/bin1"),
     EnvPath(Ex("exec-PATH-long4", <<"m longpath 60000">>, "vp", "prog", 2, "keep", 0, Files), "@D@/bin1"),
     EnvPath(Ex("exec-PATH-empty", <<>>, "vp", "here", 2, "keep", 0, Files), ""),
     EnvPath(Ex("exec-PATH-colons", <<>>, "lp", "here", 2, "keep", 0, Files), "::"),
     EnvPath(Ex("exec-PATH-trail", <<>>, "vp", "here", 2, "keep", 0, Files), "@D@/bin1:"),
     Ex("exec-PATH-EMPTY", <<>>, "vp", "EMPTY", 2, "keep", ENOENT, Files),
     Ex("exec-PATH-LONG", <<>>, "vp", "LONG", 2, "keep", ENAMETOOLONG, Files),
     Ex("exec-PATH-slash", <<>>, "vp", "bin1/prog", 2, "keep", 0, Files) >>
(* --- many failures, then success --- *)
Multi ==
  << [Sc("exec-fails", [i \in 1..9 |-> "m exec " \o <<"v", "ve", "l", "le", "vp", "lp", "v", "vp", "r">>[i] \o " @D@/nothing " \o N(<<1, 2, 3, 8, 16, 64, 65, 200, 3>>[i]) \o " keep 2"] \o After, XA) EXCEPT !.files = Files],
     [Sc("exec-failsok", <<"m exec v @D@/nothing 3 keep 2", "m create 1", "T1 exec l @D@/bin3/prog 2 keep 13", "T1 set 1", "T1 park sleep", "m await 1", "m exec le @D@/bin1/prog 3 g5p 0">>, XA) EXCEPT !.files = Files],
     [Sc("exec-failthr", <<"m create 1", "T1 exec vp @D@/nothing 65 keep 2", "T1 exec lp @D@/bin2/prog 65 keep 13", "T1 q", "T1 ret 3", "m join 1", "m exit 4">>, XA) EXCEPT !.files = Files],
     [Sc("exec-vfork", <<"m vfork K1", "m reap", "K1 exec v @D@/nothing 2 keep 2", "K1 exec v @D@/bin1/prog 2 keep 0", "m exit 4">>, XA) EXCEPT !.files = Files],
     [Sc("exec-forkthr", <<"m create 1", "T1 fork K1", "T1 reap", "T1 ret 1", "K1 exec vp @D@/nothing 2 keep 2", "K1 exec lp @D@/bin1/prog 129 g3p 0", "m join 1", "m exit 4">>, XA) EXCEPT !.files = Files],
     [Sc("exec-atexit", <<"m atexit 0", "A0 exec v @D@/bin1/prog 2 keep 0", "m exit 4">>, XA) EXCEPT !.files = Files],
     [Sc("exec-atexit-fail", <<"m atexit 0", "A0 exec v @D@/bin4/prog 2 keep 2", "m exit 4">>, <<>>) EXCEPT !.files = Files],
     [Sc("exec-early-fail", <<"E exec v @D@/bin2/prog 2 keep 13", "m exec ve @D@/bin1/prog 2 g3p 0">>, XA) EXCEPT !.files = Files],
     [Sc("exec-handler", <<"m sa 10 h0 - none", "h:10 exec v @D@/bin1/prog 2 keep 0", "m snd 10 raise", "m exit 4">>, XA) EXCEPT !.files = Files],
     [Sc("exec-handler-fail", <<"m sa 10 h0 - none", "h:10 exec v @D@/nothing 2 keep 2", "m snd 10 raise", "m create 1", "T1 snd 10 raise", "m join 1", "m exit 4">>, XA) EXCEPT !.files = Files],
     [Sc("exec-script", <<"m exec v @D@/scr 2 keep 0 noargs">>, XA) EXCEPT !.files = << <<"scr", "755:#!/bin/sh\nexit 5\n">> >>],
     [Sc("exec-chain", <<"m exec v @APP@ 2 keep 0", "arg1 exec vp @D@/bin4/prog 2 keep 2", "arg1 create 1", "arg1 join 1", "arg1 exec l @D@/bin1/prog 4 keep 0">>, XA) EXCEPT !.files = Files] >>
(* --- number of arguments, environment --- *)
Ns == <<1, 2, 3, 8, 16, 62, 63, 64, 65, 127, 128, 129, 200>>
AKinds == <<"v", "ve", "l", "le", "vp", "lp", "r">>
ByArgs == Flat([i \in DOMAIN AKinds |-> [j \in DOMAIN Ns |->
   Ex("exec-args-" \o AKinds[i] \o N(Ns[j]), <<>>, AKinds[i], "@D@/bin1/prog", Ns[j], IF j % 2 = 0 THEN "keep" ELSE "g" \o N(j) \o "p", 0, Files)]])
Envs == <<"g0", "g1", "g5", "g40p", "g240p", "g246p", "g247p", "g248p", "g249p", "g250p", "g251p", "g252p", "g1000p", "odd", "oddp", "g3pf", "g3pt", "g3e", "g250e", "g249f",
          "g247", "g248", "g249", "g250", "g251", "g700pt">>
EKinds == <<"ve", "le", "v", "lp", "r">>
ByEnv == Flat([i \in DOMAIN EKinds |-> [j \in DOMAIN Envs |->
   Ex("exec-env-" \o EKinds[i] \o "-" \o Envs[j], <<>>, EKinds[i], "@D@/bin1/prog", 3, Envs[j], 0, Files)]])
ClientProp(s) == s
(* --- signal state handed to the program --- *)
SIG == <<"C15", "C18">>
SKinds == <<"v", "vp", "ve", "l", "lp", "le", "r">>
BySig == Flat([i \in DOMAIN SKinds |->
   << Sc("exec-sig-plain-" \o SKinds[i], <<"m execs " \o SKinds[i]>>, SIG),
      Sc("exec-sig-ign-" \o SKinds[i], <<"m sa 2 ign - none", "m signal 10 ign", "m sa 12 h0 - none", "m sa 15 ign - none", "m sa 15 dfl - none", "m mask proc block 10,15", "m execs " \o SKinds[i]>>, SIG),
      Sc("exec-sig-thr-" \o SKinds[i], <<"m sa 13 ign - none", "m create 1", "T1 mask pthr block 3,14", "T1 execs " \o SKinds[i], "m park sleep">>, SIG),
      Sc("exec-sig-fork-" \o SKinds[i], <<"m sa 13 ign - none", "m mask proc block 3", "m fork K1", "m reap", "K1 sa 13 dfl - none", "K1 sa 14 ign - none", "K1 execs " \o SKinds[i], "m exit 0">>, SIG) >>])

(* --- system --- *)
SA == <<"C13">>
Cmds == << <<":", 0>>, <<"exit~7", 1792>>, <<"EMPTY", 0>>, <<"vf_no_such_command", 127 * 256>>, <<"/nonexistent/x", 127 * 256>>, <<"kill~-9~$$", 9>>, <<"kill~-TERM~$$", 15>>,
           <<"exit~255", 255 * 256>>, <<"LONG", 6 * 256>>, <<"@H@/vfprobe~X:9", 9 * 256>>, <<"@H@/vfprobe~X:3;~exit~4", 1024>>, <<"NULL", 1>>, <<"exec~@H@/vfprobe~S:", 0>>,
           <<"@H@/vfprobe~E:", 0>>, <<"@H@/vfprobe~P:@PID@:@TID@", 0>>, <<"@H@/vfprobe~E:;exit~2", 512>>, <<"kill~-INT~@PID@;kill~-QUIT~@PID@", 0>>, <<"@H@/vfprobe~X:0~&~wait", 0>> >>
Pres == << <<>>, <<"m sa 2 h0 - none", "m sa 3 h1 s 10">>, <<"m sa 2 ign - none", "m sa 3 ign - none", "m sa 17 h0 - none">>, <<"m mask proc block 17,15,2">>, <<"m mask proc set none", "m sa 15 ign - none", "m signal 13 ign">> >>
Sy(op, id, any) ==
  Flat([i \in DOMAIN Cmds |-> Flat([j \in DOMAIN Pres |->
     IF (Cmds[i][1] = "kill~-TERM~$$" /\ j \in {4, 5}) \/ (i = 18 /\ j = 4) THEN <<>> ELSE
     << Sc(id \o "-" \o N(i) \o "-" \o N(j), Pres[j] \o <<"m " \o op \o " " \o Cmds[i][1] \o " " \o N(Cmds[i][2]), "m cur", "m create 1", "m join 1", "m exit 3">>, any) >>])]) \o
  Flat([i \in DOMAIN Cmds |->
     << Sc(id \o "thr-" \o N(i), <<"m create 1", "T1 mask pthr block 14", "T1 " \o op \o " " \o Cmds[i][1] \o " " \o N(Cmds[i][2]), "T1 cur", "T1 ret 4", "m join 1", "m exit 3">>, any),
        Sc(id \o "fork-" \o N(i), <<"m fork K1", "m reap", "K1 " \o op \o " " \o Cmds[i][1] \o " " \o N(Cmds[i][2]), "K1 exit 2", "m exit 3">>, any),
        Sc(id \o "at-" \o N(i), <<"m atexit 0", "A0 " \o op \o " " \o Cmds[i][1] \o " " \o N(Cmds[i][2]), "m exit 3">>, any) >>]) \o
  << [Sc(id \o "-fail-errno", <<"cb:post_fork errno 77", "m failfork 1", "m " \o op \o " exit~5 -1", "m " \o op \o " exit~5 1280", "m exit 3">>, any) EXCEPT !.exp.failfork = 1],
     [Sc(id \o "-fail", <<"m failfork 1", "m sa 2 h0 - none", "m " \o op \o " exit~5 -1", "m " \o op \o " exit~5 1280", "m exit 3">>, any) EXCEPT !.exp.failfork = 1],
     [Sc(id \o "-fail2", <<"m create 1", "T1 failfork 1", "T1 " \o op \o " exit~5 -1", "T1 mask pthr block 3", "T1 " \o op \o " exit~5 1280", "T1 ret 1", "m join 1", "m exit 3">>, any) EXCEPT !.exp.failfork = 1],
     Sc(id \o "-seq", [i \in 1..12 |-> "m " \o op \o " exit~" \o N(i) \o " " \o N(256 * i)] \o <<"m exit 3">>, any),
     Sc(id \o "-eintr", <<"m sa 10 h0 - none", "m mainh", "m create 1", "T1 await 1", "T1 ms 15", "T1 snd 10 main", "T1 ms 10", "T1 snd 10 main", "T1 ret 1", "m set 1", "m " \o op \o " sleep~0.08;exit~5 1280", "m join 1", "m exit 3">>, any),
     Sc(id \o "-eintr2", <<"m sa 10 h0 s none", "m csa 12 c0", "m mainh", "m create 1", "T1 await 1", "T1 ms 15", "T1 snd 12 main", "T1 ms 10", "T1 snd 10 main", "T1 ret 1", "m set 1", "m " \o op \o " sleep~0.08;exit~5 1280", "m join 1", "m exit 3">>, any),
     (* two and more calls that overlap in every order *)
     Sc(id \o "-over2", <<"m sa 2 h0 - none", "m sigsnap", "m create 1", "m create 2", "T1 " \o op \o " sleep~0.02;exit~1 256 over", "T2 ms 8", "T2 " \o op \o " sleep~0.04;exit~2 512 over", "m join 1", "m join 2", "m sigcmp", "m exit 3">>, any),
     Sc(id \o "-over2n", <<"m sigsnap", "m create 1", "m create 2", "T1 " \o op \o " sleep~0.05;exit~1 256 over", "T2 ms 8", "T2 " \o op \o " sleep~0.01;exit~2 512 over", "m join 1", "m join 2", "m sigcmp", "m exit 3">>, any),
     Sc(id \o "-over2p", <<"m sigsnap", "m create 1", "m create 2", "T1 " \o op \o " sleep~0.02;exit~1 256 over", "T2 ms 8", "T2 " \o op \o " sleep~0.03;@H@/vfprobe~P:@PID@:@TID@;exec~@H@/vfprobe~S: 0 over", "m join 1", "m join 2", "m sigcmp", "m exit 3">>, any),
     Sc(id \o "-over5", <<"m sa 3 ign - none", "m sigsnap", "m createn 1 5", "T* " \o op \o " sleep~0.01;exit~1 256 over", "T* " \o op \o " exit~2 512 over", "T* " \o op \o " sleep~0.005;exit~3 768 over", "m joinn 1 5", "m sigcmp", "m exit 3">>, any),
     Reps(Sc(id \o "-storm", <<"m sigsnap", "m createn 1 6", "T* repeat 6 R", "R " \o op \o " : 0 over", "m joinn 1 6", "m sigcmp", "m exit 3">>, any), 2),
     Sc(id \o "-overmix", <<"m sigsnap", "m create 1", "m create 2", "T1 rsystem sleep~0.02;exit~1 256 over", "T2 ms 8", "T2 system sleep~0.04;exit~2 512 over", "m join 1", "m join 2", "m sigcmp", "m exit 3">>, any),
     (* a child forked meanwhile is not inside system *)
     Sc(id \o "-forkin", <<"m sa 2 h0 - none", "m sigsnap", "m create 1", "T1 set 1", "T1 " \o op \o " sleep~0.06;exit~1 256 over", "m await 1", "m ms 20", "m fork K1", "m reap", "K1 sigcmp nomask", "K1 " \o op \o " exit~4 1024", "K1 sigcmp", "K1 exit 5", "m join 1", "m sigcmp", "m exit 3">>, any),
     Sc(id \o "-rforkin", <<"m sigsnap", "m create 1", "T1 set 1", "T1 " \o op \o " sleep~0.06;exit~1 256 over", "m await 1", "m ms 20", "m " \o op \o " exec~@H@/vfprobe~S: 0 over", "m join 1", "m sigcmp", "m exit 3">>, any),
     (* the thread is cancelled meanwhile *)
     Sc(id \o "-cancel", <<"m sigsnap", "m create 1", "T1 set 1", "T1 " \o op \o " sleep~0.2 x over", "m await 1", "m ms 40", "m cancel 1", "m join 1", "m sigcmp", "m exit 3">>, any),
     (* the process exits meanwhile *)
     Sc(id \o "-exitin", <<"m create 1", "T1 set 1", "T1 " \o op \o " sleep~0.1 x over", "m await 1", "m ms 20", "m exit 3">>, any),
     Sc(id \o "-exitin2", <<"m create 1", "T1 ms 20", "T1 exit 4", "m " \o op \o " sleep~0.1 x over", "m exit 3">>, any),
     Sc(id \o "-handler", <<"m sa 10 h0 - none", "h:10 " \o op \o " exit~3 768 over", "m sigsnap", "m snd 10 raise", "m sigcmp", "m exit 3">>, any),
     Sc(id \o "-manyenv", <<"m manyenv 100", "m setenv MY_LD_PRELOAD abc", "m setenv LD_PRELOADX 1", "m setenv X LD_PRELOAD=1", "m " \o op \o " @H@/vfprobe~E: 0", "m exit 3">>, any),
     Sc(id \o "-manyenv2", <<"m manyenv 300", "m " \o op \o " @H@/vfprobe~E: 0", "m " \o op \o " @H@/vfprobe~E:;exit~1 256", "m exit 3">>, any) >> \o
  [i \in 1..4 |-> Sc(id \o "-envbig" \o N(i), <<"m manyenv " \o N(<<600, 1100, 2600, 7000>>[i]), "m " \o op \o " @H@/vfprobe~E: 0", "m exit 3">>, any)] \o
  [i \in 1..14 |-> Sc(id \o "-envn" \o N(i), <<"m manyenv " \o N(234 + i), "m " \o op \o " @H@/vfprobe~E: 0", "m exit 3">>, any)] \o
  << Sc(id \o "-noenv", <<"m noenv", "m " \o op \o " exit~6 1536", "m exit 3">>, any) >>
Cl(s) == [s EXCEPT !.exp = [f \in DOMAIN s.exp \cup {"cl"} |-> IF f = "cl" THEN 1 ELSE s.exp[f]]]
NoOv(s) == [s EXCEPT !.env = Append(@, <<"MONITOR_NO_SYSTEM_OVERRIDE", "1">>)]
System == Sy("system", "sys", SA)
RSystem == Map(Cl, Sy("rsystem", "rsys", <<"C14">>))
NoOverride == Map(NoOv, [i \in DOMAIN Cmds |-> Sc("nosys-" \o N(i), <<"m system " \o Cmds[i][1] \o " " \o N(Cmds[i][2]), "m create 1", "m join 1", "m exit 3">>, SA)])

(* --- the client's mask functions --- *)
RealMask ==
  Flat([i \in {1, 2} |-> LET f == <<"real", "realproc">>[i] IN
   << Sc("realmask-" \o f, <<"m shootsig", "m cur", "m mask " \o f \o " block all", "m mask " \o f \o " unblock 10,40", "m mask " \o f \o " set 12,15,63", "m mask " \o f \o " set none",
         "m mask " \o f \o " 7 10", "m mask " \o f \o " 7 null", "m mask " \o f \o " block null", "m mask proc block all", "m mask " \o f \o " set all", "m mask proc set none", "m mask " \o f \o " set none", "m exit 3">>, <<"C14">>),
      Sc("realmask-thr-" \o f, <<"m create 1", "T1 cur", "T1 mask " \o f \o " block all", "T1 mask " \o f \o " block null noold", "T1 mask " \o f \o " set none", "T1 mask pthr block 10", "T1 ret 1", "m join 1", "m exit 3">>, <<"C14">>) >>])
All == ByPath \o ByPATH \o Multi \o ByArgs \o ByEnv \o BySig \o System \o RSystem \o NoOverride \o RealMask
       \o Debug(ByPath, 7) \o Debug(System, 9) \o Debug(RSystem, 9) \o Debug(BySig, 5)
ASSUME Emit(All) /\ PrintT(<<"GENERATED", Len(All)>>)
=============================================================================
