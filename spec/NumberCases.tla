---------------------------- MODULE NumberCases ----------------------------
(* Every combination of type, bounds and multipleOf over a small grid, with   *)
(* what JsonSchema says about it: a value that satisfies it, or that there is *)
(* none. Constants are in quarters, candidate values in eighths (so there is  *)
(* a candidate strictly between any two constants).                           *)
EXTENDS JsonSchema, TLC, Json, IOUtils, SequencesExt

None == 99
Consts == {-4, -3, -1, 0, 1, 2, 4}
Types == {"integer", "number", "none"}
Bounds == Consts \cup {None}
ExclusiveBounds == {-4, 0, 2, None}
Multiples == {1, 2, 3, 4, 8, 12, None}

Abs(n) == IF n < 0 THEN -n ELSE n
(* The decimal of n quarters; the driver reads a string with a leading # as a number *)
Dec(n) == "#" \o (IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n) \div 4) \o
          (CASE Abs(n) % 4 = 0 -> "" [] Abs(n) % 4 = 1 -> ".25" [] Abs(n) % 4 = 2 -> ".5" [] OTHER -> ".75")
Dec8(n) == "#" \o (IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n) \div 8) \o
          (CASE Abs(n) % 8 = 0 -> "" [] Abs(n) % 8 = 1 -> ".125" [] Abs(n) % 8 = 2 -> ".25" [] Abs(n) % 8 = 3 -> ".375"
             [] Abs(n) % 8 = 4 -> ".5" [] Abs(n) % 8 = 5 -> ".625" [] Abs(n) % 8 = 6 -> ".75" [] OTHER -> ".875")

Opt(k, v, enc(_)) == IF v = None THEN [x \in {} |-> 0] ELSE (k :> enc(v))
Ty(ty) == IF ty = "none" THEN [x \in {} |-> 0] ELSE ("type" :> <<ty>>)

(* The schema as JSON and as JsonSchema wants it (ranks in eighths)           *)
AsJson(ty, mn, mx, xn, xx, mu) ==
    (IF ty = "none" THEN [x \in {} |-> 0] ELSE ("type" :> ty)) @@ Opt("minimum", mn, Dec) @@ Opt("maximum", mx, Dec) @@ Opt("exclusiveMinimum", xn, Dec)
    @@ Opt("exclusiveMaximum", xx, Dec) @@ Opt("multipleOf", mu, Dec)
Twice(n) == 2 * n
AsSchema(ty, mn, mx, xn, xx, mu) ==
    Ty(ty) @@ Opt("minimum", mn, Twice) @@ Opt("maximum", mx, Twice) @@ Opt("exclusiveMinimum", xn, Twice)
    @@ Opt("exclusiveMaximum", xx, Twice) @@ Opt("multipleOf", mu, ToString)

Value(n) == [t |-> "num", r |-> n, i |-> n % 8 = 0, m |-> SetToSeq({ ToString(mu) : mu \in { x \in Multiples \ {None} : n % (2 * x) = 0 } }), c |-> ToString(n)]
(* Every bound is within [-8, 8] and the largest step is 24                   *)
Candidates == { Value(n) : n \in -34..34 }

Sat(s) == { v \in Candidates : Valid(<<>>, s, v) }

(* Integers that are multiples of a fraction may be refused, but must not be wrong *)
Supported(ty, mu) == ~(ty = "integer" /\ mu # None /\ mu % 4 # 0)

Tuples == { t \in Types \X Bounds \X Bounds \X ExclusiveBounds \X ExclusiveBounds \X Multiples :
              /\ t[1] = "none" => \E j \in 2..6 : t[j] # None   \* the type is inferred from the keywords
              /\ t[1] = "none" => (t[4] = None /\ t[5] = None) }

Case(t) ==
    LET s == AsSchema(t[1], t[2], t[3], t[4], t[5], t[6])
        sat == Sat(s)
    IN [ id |-> "grid" \o ToString(t),
         schema |-> AsJson(t[1], t[2], t[3], t[4], t[5], t[6]),
         unsat |-> sat = {},
         wit |-> IF sat = {} \/ ~Supported(t[1], t[6]) THEN <<>> ELSE <<Dec8((CHOOSE v \in sat : TRUE).r)>>,
         samples |-> 40, maxOut |-> 5 ]

(* ASSUME is evaluated once, so TLC acts as the enumerator here.              *)
Cases == { Case(t) : t \in Tuples }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))

(* Sanity of the grid: both outcomes occur, and an empty interval is empty.   *)
ASSUME \E c \in Cases : c.unsat
ASSUME \A t \in Tuples : (t[2] # None /\ t[3] # None /\ t[2] > t[3]) => Sat(AsSchema(t[1], t[2], t[3], t[4], t[5], t[6])) = {}
=============================================================================
