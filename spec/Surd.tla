------------------------------- MODULE Surd -------------------------------
(* Exact arithmetic in Z[sqrt2,sqrt3]: <<a,b,c,d>> = a + b*sqrt2 + c*sqrt3 +
   d*sqrt6, enough for sines and cosines of multiples of 15 degrees. *)
EXTENDS Integers, Sequences
SZero == <<0,0,0,0>>
SInt(n) == <<n,0,0,0>>
SAdd(x,y) == <<x[1]+y[1], x[2]+y[2], x[3]+y[3], x[4]+y[4]>>
SNeg(x) == <<-x[1],-x[2],-x[3],-x[4]>>
SSub(x,y) == SAdd(x,SNeg(y))
SMul(x,y) == << x[1]*y[1] + 2*x[2]*y[2] + 3*x[3]*y[3] + 6*x[4]*y[4],
                x[1]*y[2] + x[2]*y[1] + 3*(x[3]*y[4] + x[4]*y[3]),
                x[1]*y[3] + x[3]*y[1] + 2*(x[2]*y[4] + x[4]*y[2]),
                x[1]*y[4] + x[4]*y[1] + x[2]*y[3] + x[3]*y[2] >>
(* four times the cosine of 15*k degrees, every integer k *)
C4(k) == LET q == k % 24                      \* 0..23
             h == IF q > 12 THEN 24 - q ELSE q  \* even about 180
             t == CASE h \in {0,12} -> <<4,0,0,0>> [] h \in {1,11} -> <<0,1,0,1>>
                    [] h \in {2,10} -> <<0,0,2,0>> [] h \in {3,9} -> <<0,2,0,0>>
                    [] h \in {4,8} -> <<2,0,0,0>>  [] h \in {5,7} -> <<0,-1,0,1>>
                    [] OTHER -> SZero
         IN IF h > 6 THEN SNeg(t) ELSE t
S4(k) == C4(k - 6)
=============================================================================
