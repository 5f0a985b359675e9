----------------------------- MODULE ChromeHash ------------------------------
(* SuperFastHash of a key (bytes), 32-bit arithmetic on little-endian bytes *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

RECURSIVE XorI(_, _, _)
XorI(a, b, k) == IF k = 0 THEN 0 ELSE (IF a % 2 = b % 2 THEN 0 ELSE 1) + 2 * XorI(a \div 2, b \div 2, k - 1)
Bt(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Xor(a, b) == Norm([i \in 1..4 |-> XorI(Bt(a, i), Bt(b, i), 8)])
Cut(b) == Norm(IF Len(b) > 4 THEN SubSeq(b, 1, 4) ELSE b)
Shl(b, k) == Cut(ShlN(b, k))
Shr(b, k) == Norm(ShrN(b, k))
Add(a, b) == Cut(AddN(a, b))
Half(s, i) == Norm(<<s[i], s[i + 1]>>)

Block(h, i) == LET a == Add(h, Half(F, i))
                   t == Xor(Shl(Half(F, i + 2), 11), a)
                   b == Xor(Shl(a, 16), t)
               IN Add(b, Shr(b, 11))
Tail3(h, i) == LET a == Add(h, Half(F, i))
                   b == Xor(a, Shl(a, 16))
                   c == Xor(b, Shl(Nat2(F[i + 2]), 18))
               IN Add(c, Shr(c, 11))
Tail2(h, i) == LET a == Add(h, Half(F, i))
                   b == Xor(a, Shl(a, 11))
               IN Add(b, Shr(b, 17))
Tail1(h, i) == LET a == Add(h, Nat2(F[i]))
                   b == Xor(a, Shl(a, 10))
               IN Add(b, Shr(b, 1))
Mix(h) == LET a == Xor(h, Shl(h, 3))
              b == Add(a, Shr(a, 5))
              c == Xor(b, Shl(b, 4))
              d == Add(c, Shr(c, 17))
              e == Xor(d, Shl(d, 25))
          IN Add(e, Shr(e, 6))

InitSt == st = [pc |-> "fold", i |-> 0, h |-> Nat2(Len(F))] /\ ev = <<>>
Fold == st.pc = "fold" /\ Len(F) - st.i >= 4 /\ st' = [st EXCEPT !.i = @ + 4, !.h = Block(st.h, st.i + 1)] /\ ev' = <<>> /\ UNCHANGED sc
Last ==
  /\ st.pc = "fold" /\ Len(F) - st.i < 4
  /\ LET r == Len(F) - st.i
         i == st.i + 1
         h == IF Len(F) = 0 THEN <<>>
              ELSE Mix(IF r = 3 THEN Tail3(st.h, i) ELSE IF r = 2 THEN Tail2(st.h, i) ELSE IF r = 1 THEN Tail1(st.h, i) ELSE st.h)
     IN st' = [st EXCEPT !.pc = "done", !.h = h] /\ ev' = <<[k |-> "!hash", v |-> h]>>
  /\ UNCHANGED sc
Next == Fold \/ Last
Done == st.pc = "done"
Outcomes == {"ok"}
-----------------------------------------------------------------------------
Is32 == Len(st.h) <= 4
=============================================================================
