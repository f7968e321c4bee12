------------------------------- MODULE TextAvg -------------------------------
(***************************************************************************)
(* Averaging of tabulated curves.  data[i] is the i-th curve: a set of rows *)
(* <<x, y1, .., yc>> with distinct x; ref (possibly empty) holds a          *)
(* reference curve for each of them, to be subtracted.  The result has one  *)
(* row for each abscissa that occurs in any curve of data, in ascending     *)
(* order: the mean over i of (data[i] - ref[i]) interpolated linearly there *)
(* (constant beyond the ends), column by column.  The state is the output   *)
(* written so far.                                                          *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json

Cases == JsonDeserialize("cases.json")
VARIABLES k, out
vars == <<k, out>>
C == Cases[k]
Nz == Len(C.data)

Xs(t) == {t[i][1] : i \in 1..Len(t)}
At(t, x, c) == (CHOOSE i \in 1..Len(t) : t[i][1] = x)
\* value of column c of table t at x
Interp(t, x, c) ==
  LET lo == {u \in Xs(t) : u <= x}
      hi == {u \in Xs(t) : u >= x}
      y(u) == t[At(t, u, c)][c + 1]
  IN IF lo = {} THEN R(y(Min(hi)))
     ELSE IF hi = {} THEN R(y(Max(lo)))
     ELSE LET a == Max(lo)  b == Min(hi)
          IN IF a = b THEN R(y(a))
             ELSE RAdd(R(y(a)), RDiv(RMul(R(y(b) - y(a)), R(x - a)), R(b - a)))
Grid == UNION {Xs(C.data[i]) : i \in 1..Nz}
Val(i, x, c) == LET v == Interp(C.data[i], x, c)
                IN IF C.ref = <<>> THEN v ELSE RSub(v, Interp(C.ref[i], x, c))
Mean(x, c) == RDiv(FoldSet(LAMBDA i, a : RAdd(a, Val(i, x, c)), R(0), 1..Nz), R(Nz))

Written == {out[i][1] : i \in 1..Len(out)}
Init == k \in 1..Len(Cases) /\ out = <<>>
Row == /\ Written # Grid
       /\ LET x == Min(Grid \ Written) IN out' = Append(out, <<x, [c \in 1..C.cols |-> Mean(x, c)]>>)
       /\ UNCHANGED k
Next == Row
Spec == Init /\ [][Next]_vars

Ascending == \A i \in 1..Len(out)-1 : out[i][1] < out[i+1][1]
\* the mean lies between the extreme values at this abscissa
Convex == out # <<>> =>
   LET r == out[Len(out)] IN
   \A c \in 1..C.cols :
      LET vs == {Val(i, r[1], c) : i \in 1..Nz}
          lo == FoldSet(RMin, CHOOSE v \in vs : TRUE, vs)
          hi == FoldSet(RMax, CHOOSE v \in vs : TRUE, vs)
      IN RLe(lo, r[2][c]) /\ RLe(r[2][c], hi)
Inv == Ascending /\ Convex
Emit == Written = Grid => JsonSerialize("avg" \o ToString(k) \o ".json", out)
=============================================================================
