---------------------------- MODULE LineGeometry ----------------------------
(* Where things are in 3D, as a function of the abstract line only.          *)
EXTENDS R64, TransmissionLine

U(n) == RQ(n, 8)                                   \* 1/8 units
NoPoint == <<NoVal, NoVal, NoVal>>

\* xy unit direction of alignment segment k (1-based): +x turned by the
\* rotations of points 1..k
RECURSIVE Heading(_, _)
Heading(al, k) == IF k = 0 THEN R0 ELSE Heading(al, k-1) \oplus U(al[k].r)
Dir(al, k) == LET a == Rad(Heading(al, k)) IN <<RCos(a), RSin(a)>>

RECURSIVE AlignPoint(_, _)
AlignPoint(L, k) ==
  IF k = 1 THEN <<U(L.org[1]), U(L.org[2]), U(L.org[3])>>
  ELSE LET p == AlignPoint(L, k-1)
           d == U(L.al[k].s - L.al[k-1].s)
           u == Dir(L.al, k-1)
       IN <<p[1] \oplus (d \otimes u[1]), p[2] \oplus (d \otimes u[2]),
            p[3] \oplus U(L.al[k].e - L.al[k-1].e)>>

\* segment containing station s: the first k with s <= al[k+1].s
Segment(L, s) == IF s = L.al[1].s THEN 1
                 ELSE (CHOOSE k \in 2..Len(L.al) :
                        s <= L.al[k].s /\ L.al[k-1].s < s) - 1

PointAtStation(L, s) ==
  IF ~InAlignment(L, s) THEN NoPoint
  ELSE LET k == Segment(L, s)
           p == AlignPoint(L, k)
       IN IF s = L.al[k].s THEN p
          ELSE LET d == U(s - L.al[k].s)
                   u == Dir(L.al, k)
                   slope == U(L.al[k+1].e - L.al[k].e)
                              \oslash U(L.al[k+1].s - L.al[k].s)
               IN <<p[1] \oplus (d \otimes u[1]), p[2] \oplus (d \otimes u[2]),
                    p[3] \oplus (slope \otimes d)>>

\* longitudinal direction at station s, bisecting at interior points
DirAtStation(L, s) ==
  LET n == Len(L.al)
      k == Segment(L, s)
  IN IF n = 1 \/ s = L.al[1].s \/ s = L.al[n].s
        \/ \A j \in 1..n : L.al[j].s # s
     THEN Dir(L.al, k)
     ELSE LET a == Dir(L.al, k)
              b == Dir(L.al, k+1)
              x == a[1] \oplus b[1]
              y == a[2] \oplus b[2]
              m == RHypot(x, y)
          IN <<x \oslash m, y \oslash m>>

\* the bisector of a line that doubles back on itself is undefined
DirDefined(L, s) ==
  \A j \in 2..Len(L.al)-1 : L.al[j].s = s =>
     LET a == Dir(L.al, j-1)  b == Dir(L.al, j)
     IN RS("1e-3") \prec RHypot(a[1] \oplus b[1], a[2] \oplus b[2])

AttachmentPoint(L, i, a) ==
  IF ~ValidIndex(L.st, i) THEN NoPoint
  ELSE LET x == L.st[i+1] IN
  IF a \notin 0 .. NAtt(x.ty)-1 THEN NoPoint
  ELSE LET p == PointAtStation(L, x.s)
           t == Types[x.ty].atts[a+1]
           \* structure frame: longitudinal ahead, transverse positive right
           w == Rad(U(x.r))
           lon == U(t.l)
           tra == RNeg(U(t.t))
           x1 == (lon \otimes RCos(w)) \ominus (tra \otimes RSin(w))
           y1 == ((lon \otimes RSin(w)) \oplus (tra \otimes RCos(w)))
                    \ominus U(x.o)
           u == DirAtStation(L, x.s)
       IN <<p[1] \oplus ((x1 \otimes u[1]) \ominus (y1 \otimes u[2])),
            p[2] \oplus ((x1 \otimes u[2]) \oplus (y1 \otimes u[1])),
            p[3] \oplus U(x.h + Types[x.ty].height + t.v)>>

PNear(p, q) == \A k \in 1..3 : NearBy(p[k], q[k], "1e-9", "1e-6")
=============================================================================
