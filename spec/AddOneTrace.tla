----------------------------- MODULE AddOneTrace -----------------------------
(* Trace validation: recorded runs of adding control points to a curve.  A record is [cl, q, s] with s a sequence of
   states, each a sequence of control points <<cx, cy, dlx, dly, drx, dry, sharp>> (whole numbers over q).  Every step must
   split exactly one segment (which one, and at which of Ts, is free) and leave every other control point alone. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Ts
VARIABLES i, l
vars == <<i, l>>
\* read once
Traces == ndJsonDeserialize("traces.ndjson")

T == Traces[i]
St(n) == T.s[n]
Ok(a, b, s, t, cl) ==
  LET n == t[1] d == t[2] m == d - n e == d*d*d
      nx == (s % Len(a)) + 1
      A(k) == a[s][k]   B(k) == a[s][k] + a[s][k + 4]   C(k) == a[nx][k] + a[nx][k + 2]   D(k) == a[nx][k]
      ab(k) == m*A(k) + n*B(k)      bc(k) == m*B(k) + n*C(k)      cd(k) == m*C(k) + n*D(k)
      abc(k) == m*ab(k) + n*bc(k)   bcd(k) == m*bc(k) + n*cd(k)
      M(k) == m*abc(k) + n*bcd(k)
      pos(j) == IF j <= s THEN j ELSE j + 1
      same(j, ks) == \A k \in ks : b[pos(j)][k] = a[j][k]
  IN /\ Len(b) = Len(a) + 1
     /\ \A j \in 1..Len(a) : same(j, {1, 2, 7} \cup (IF j = nx THEN {} ELSE {3, 4}) \cup (IF j = s THEN {} ELSE {5, 6}))
     /\ \A k \in 1..2 :
          /\ d*d*d*b[pos(s)][k + 4] = d*d*ab(k) - e*A(k)
          /\ e*b[s + 1][k] = M(k)
          /\ e*b[s + 1][k + 2] = d*abc(k) - M(k)
          /\ e*b[s + 1][k + 4] = d*bcd(k) - M(k)
          /\ e*b[pos(nx)][k + 2] = d*d*cd(k) - e*D(k)
Init == i \in 1..Len(Traces) /\ l = 1
\* the position of the new point is decided by the first difference, so both list positions after segment Len (end of the
\* list, or wrapped to the front) are considered
Rot(b) == Tail(b) \o <<Head(b)>>
Next == /\ l < Len(T.s)
        /\ l' = l + 1 /\ UNCHANGED i
        /\ \E s \in 1..(IF T.cl THEN Len(St(l)) ELSE Len(St(l)) - 1) : \E t \in Ts :
              \/ Ok(St(l), St(l + 1), s, t, T.cl)
              \/ T.cl /\ s = Len(St(l)) /\ Ok(St(l), Rot(St(l + 1)), s, t, T.cl)
Spec == Init /\ [][Next]_vars
\* a recorded run that is not explained leaves l short of the end
Explained == l < Len(T.s) => ENABLED Next
==========================================================================
