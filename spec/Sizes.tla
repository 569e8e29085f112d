------------------------------- MODULE Sizes -------------------------------
(* How large arrays and objects are, given what their schema says and the       *)
(* default size options. NoneGiven: the schema does not say.                    *)
EXTENDS Integers

NoneGiven == 99
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b

(* Options left at zero                                                         *)
OrDefault(n, d) == IF n = 0 THEN d ELSE n

(* Bounds of the schema win; defaults apply where there is none, as far as       *)
(* the other bound of the schema allows.                                        *)
Low(smin, smax, dmin) == IF smin # NoneGiven THEN smin ELSE IF smax # NoneGiven THEN Lesser(dmin, smax) ELSE dmin
High(smin, smax, dmin, dmax) ==
    LET low == Low(smin, smax, dmin) IN IF smax # NoneGiven THEN smax ELSE IF dmax >= low THEN dmax ELSE low + dmax

(* An array with a tuple and items that have to be contained                    *)
(* (their number is a bound of the schema, too)                                  *)
Owed(a) == IF a.smin = NoneGiven /\ a.contains > 0 THEN a.contains ELSE a.smin
ArrayLow(a) == IF a.closed THEN a.tuple ELSE Greater(a.tuple + a.contains, Low(Owed(a), a.smax, a.dmin))
ArrayHigh(a) == IF a.closed THEN a.tuple ELSE Greater(ArrayLow(a), High(Owed(a), a.smax, a.dmin, OrDefault(a.dmax, 10)))

(* An object with so many properties that are declared, some of them required.   *)
(* Others are closed ("no"), have a schema ("some") or are not spoken of ("any")  *)
ObjectLow(o) == LET low == Greater(o.required, Low(o.smin, o.smax, o.dmin)) IN IF o.others = "no" THEN Lesser(low, o.props) ELSE low
ObjectHigh(o) ==
    LET high == Greater(ObjectLow(o), High(o.smin, o.smax, o.dmin, OrDefault(o.dmax, 10)))
    IN IF o.others = "some" THEN high ELSE Greater(ObjectLow(o), Lesser(high, o.props))
=============================================================================
