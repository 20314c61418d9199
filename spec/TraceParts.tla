----------------------------- MODULE TraceParts -----------------------------
(* Trace validation of the ordered containers (LineParts).                   *)
EXTENDS LineParts, TraceKit
VARIABLES l, w
E == Events[l]
Start(e) == [st |-> [k \in 1..Len(e.s) |-> [s |-> e.s[k], ty |-> -1, hw |-> <<>>]],
             cb |-> << <<>>, <<>> >>, al |-> << <<>>, <<>> >>]
View(x) == [al |-> x.al,
            st |-> [k \in 1..Len(x.st) |-> <<x.st[k].s, x.st[k].ty, x.st[k].hw>>],
            cb |-> [c \in 1..Len(x.cb) |-> [j \in 1..Len(x.cb[c]) |-> <<x.cb[c][j].k, x.cb[c][j].at>>]]]
Init == l = 1 /\ w = [st |-> <<>>, cb |-> <<>>, al |-> <<>>]
Next ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ IF E.op = "reset" THEN w' = Start(E)
     ELSE LET r == PartStep(w, E) IN
          /\ w' = r.w
          /\ Judge(~Has(E, "exc"), l, "the call raised an exception", E)
          /\ Judge(Has(E, "exc") \/ E.ret = r.ret, l, "value returned by the call", [event |-> E, before |-> View(w), specified |-> r.ret])
          /\ Judge(Has(E, "exc") \/ E.view = View(r.w), l, "contents after the call",
                   [event |-> E, before |-> View(w), specified |-> View(r.w)])
=============================================================================
