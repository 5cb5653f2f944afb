------------------------------- MODULE Trace -------------------------------
(* Validates recorded traces against the contracts: one behaviour per trace. *)
EXTENDS Life, Sig, Misc, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tr, l, st, sg, ms, viol
vars == <<tr, l, st, sg, ms, viol>>
Init == tr \in DOMAIN Traces /\ l = 1 /\ st = InitState /\ sg = GInit /\ ms = MInit /\ viol = {}
Consume ==
  /\ l <= Len(Traces[tr].t)
  /\ LET r == Step(st, Traces[tr].t[l], Traces[tr].exp)
         g == GStep(sg, Traces[tr].t[l], Traces[tr].exp)
         m == MStep(ms, Traces[tr].t[l], Traces[tr].exp) IN
       /\ st' = r.s
       /\ sg' = g.s
       /\ ms' = m.s
       /\ viol' = viol \cup {<<v[1], v[2], l>> : v \in r.v \cup g.v \cup m.v}
  /\ l' = l + 1 /\ tr' = tr
Done == /\ l = Len(Traces[tr].t) + 1
        /\ PrintT(<<"TRACE-DONE", Traces[tr].id, viol>>)
        /\ l' = l + 1 /\ UNCHANGED <<tr, st, sg, ms, viol>>
Next == Consume \/ Done
Spec == Init /\ [][Next]_vars
View == <<tr, l>>
=============================================================================
