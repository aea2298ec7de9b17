------------------------------ MODULE SetDataArgs -----------------------------
(***************************************************************************)
(* Which arguments set_data accepts.  An array is given by its shape.      *)
(* Arguments: x [sh], f [sh], sf, g, sg, mask, each a record               *)
(*   k   "none", "nan" (unknown) or "arr", for the mask "bool" or "int"    *)
(*   sh  shape                                                             *)
(*   t   (mask) how many entries are true                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Size(_)
Size(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * Size(Tail(sh))

NEval(a) == Size(a.f.sh)
NGrad(ug, a) == IF ~ug THEN 0 ELSE IF a.mask.k = "none" THEN NEval(a) ELSE a.mask.t

Valid(dim, ug, a) ==
    /\ NEval(a) >= 1
    /\ a.x.sh = <<NEval(a), dim>>
    /\ a.sf.k = "arr" => Size(a.sf.sh) = NEval(a)
    /\ IF ug
       THEN /\ a.g.k = "arr"
            /\ a.mask.k = "none" \/ (a.mask.k = "bool" /\ a.mask.sh = <<NEval(a)>>)
            /\ a.g.sh = <<NGrad(ug, a), dim>>
            /\ a.sg.k = "arr" => a.sg.sh = a.g.sh
       ELSE a.g.k = "none" /\ a.mask.k = "none"

(***************************************************************************)
(* The arguments that are tried: all that differ in at most `Depth`        *)
(* arguments from a valid combination with at most `NMax` points           *)
(***************************************************************************)
CONSTANTS NMax, Depth
None == [k |-> "none", sh |-> <<>>, t |-> 0]
Nan(sh) == [k |-> "nan", sh |-> sh, t |-> 0]
Arr(sh) == [k |-> "arr", sh |-> sh, t |-> 0]
Mask(k, sh, t) == [k |-> k, sh |-> sh, t |-> t]

Base(dim, ug) ==
    UNION {LET ms == IF ug THEN {None} \cup {Mask("bool", <<n>>, t) : t \in 0 .. n} ELSE {None}
           IN  UNION {LET gs == <<IF ~ug THEN 0 ELSE IF m.k = "none" THEN n ELSE m.t, dim>>
                      IN  {[x |-> Arr(<<n, dim>>), f |-> Arr(<<n>>), sf |-> sf, g |-> IF ug THEN Arr(gs) ELSE None, sg |-> sg, mask |-> m] :
                             sf \in {None, Nan(<<n>>), Arr(<<n>>)}, sg \in IF ug THEN {None, Nan(gs), Arr(gs)} ELSE {None}} : m \in ms} : n \in 1 .. NMax}

Ns == 0 .. NMax + 1
Shapes2(dim) == {<<n, d>> : n \in Ns, d \in 1 .. dim + 1}
Alt(field, dim) ==
    CASE field = "x"    -> {Arr(sh) : sh \in Shapes2(dim) \cup {<<n>> : n \in 1 .. NMax} \cup {<<n, dim, 1>> : n \in 1 .. NMax}}
      [] field = "f"    -> {Arr(sh) : sh \in {<<n>> : n \in Ns} \cup {<<n, 1>> : n \in 1 .. NMax}}
      [] field = "sf"   -> {None, Nan(<<1>>), Nan(<<NMax + 1>>)} \cup {Arr(sh) : sh \in {<<n>> : n \in Ns} \cup {<<n, 1>> : n \in 1 .. NMax}}
      [] field = "g"    -> {None} \cup {Arr(sh) : sh \in Shapes2(dim) \cup {<<n>> : n \in 1 .. NMax} \cup {<<n, dim, 1>> : n \in 1 .. NMax}}
      [] field = "sg"   -> {None, Nan(<<1>>), Nan(<<NMax + 1, dim>>)} \cup {Arr(sh) : sh \in Shapes2(dim) \cup {<<n>> : n \in 1 .. NMax}}
      [] field = "mask" -> {None} \cup {Mask(k, <<n>>, t) : k \in {"bool", "int"}, n \in 1 .. NMax + 1, t \in 0 .. NMax + 1} \cup {Mask("bool", <<n, 1>>, t) : n \in 1 .. NMax, t \in 0 .. NMax}
Fields == {"x", "f", "sf", "g", "sg", "mask"}
Possible(a) == a.mask.k = "none" \/ a.mask.t <= Size(a.mask.sh)
=============================================================================
