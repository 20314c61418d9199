----------------------------- MODULE LineCatalog -----------------------------
(* Structure types used by generated lines (1/8 units).                       *)
EXTENDS Integers, Sequences
CatalogTypes ==
  << [height |-> 640, atts |-> << [v |-> -80, l |-> 12, t |-> -96] >>],
     [height |-> 803, atts |-> << [v |-> 0,   l |-> 0,  t |-> 0],
                                  [v |-> -60, l |-> 8,  t |-> 101],
                                  [v |-> -60, l |-> -8, t |-> -101] >>],
     [height |-> 500, atts |-> << [v |-> -11, l |-> 3,  t |-> 55],
                                  [v |-> -22, l |-> 4,  t |-> -55],
                                  [v |-> -33, l |-> -5, t |-> 77],
                                  [v |-> -44, l |-> 6,  t |-> -88] >>],
     [height |-> 560, atts |-> << [v |-> -80, l |-> 0,  t |-> 40],
                                  [v |-> -90, l |-> 2,  t |-> -40] >>] >>
\* structure types of the exhaustively explored universe
MCTypes == << [height |-> 0, atts |-> << [v |-> 0, l |-> 0, t |-> 0] >>],
              [height |-> 1, atts |-> << [v |-> 0, l |-> 0, t |-> 0],
                                         [v |-> 0, l |-> 0, t |-> 1] >>] >>
=============================================================================
