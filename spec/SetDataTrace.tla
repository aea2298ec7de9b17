----------------------------- MODULE SetDataTrace -----------------------------
EXTENDS Trace, SetDataArgs
VARIABLE l
\* an array without entries is known
Known(s) == s.k = "arr" \/ (s.k = "nan" /\ Size(s.sh) = 0)
Clauses(e) ==
    LET v == Valid(e.dim, e.ug, e.a)
    IN  << <<"data-rejected", ~v => e.out = "exc">>,
           <<"data-accepted", v => e.out = "ok">>,
           <<"data-atomic", e.out = "exc" => e.before = e.after>>,
           <<"data-served", e.out = "exc" => e.evala = e.evalb>>,
           <<"data-counts", e.out = "ok" /\ v => e.n = <<NEval(e.a), NGrad(e.ug, e.a), NEval(e.a) + e.dim * NGrad(e.ug, e.a)>> >>,
           <<"data-known", e.out = "ok" /\ v => e.known = <<Known(e.a.sf), e.ug /\ Known(e.a.sg)>> >>,
           <<"data-usable", e.out = "ok" /\ v => e.use = "ok">>,
           <<"data-kept", e.out = "ok" /\ v => e.kept>> >>
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Judge(l, Clauses(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
