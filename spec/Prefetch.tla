------------------------------ MODULE Prefetch -------------------------------
(* The three Windows Prefetch path hashes: folds over the UTF-16 little-    *)
(* endian bytes of the upper-case path, modulo 2^32.                        *)
(* Src: the code points of the path.                                        *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

Up(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Unit(u) == <<u % 256, u \div 256>>
Enc16(c) == IF c < 65536 THEN Unit(c) ELSE LET d == c - 65536 IN Unit(55296 + d \div 1024) \o Unit(56320 + (d % 1024))
Bytes16 == FlatSeq([i \in 1..Len(F) |-> Enc16(Up(F[i]))])

Cut(b) == Norm(IF Len(b) > 4 THEN SubSeq(b, 1, 4) ELSE b)
Step37(h, c) == Cut(MulAdd(h, 37, c))
RECURSIVE Fold(_, _)
Fold(h, s) == IF Len(s) = 0 THEN h ELSE Fold(Step37(h, s[1]), Tail(s))
Neg32(h) == IF h = <<>> THEN <<>> ELSE SubN(<<0, 0, 0, 0, 1>>, h)

(* 1000000007, 314159269, 314159, 442596621, 803794207 *)
P == Nat2(1000000007)
XP(s) == LET h == Cut(MulN(Fold(<<>>, s), Nat2(314159269)))
             a == IF LtN(<<0, 0, 0, 128>>, h) THEN Neg32(h) ELSE h
             RECURSIVE Mod(_)
             Mod(x) == IF LtN(x, P) THEN x ELSE Mod(SubN(x, P))
         IN Mod(a)
Vista(s) == Fold(Nat2(314159), s)
(* 8 bytes at a time while more than 8 remain, then byte by byte            *)
RECURSIVE Long(_, _)
Long(h, s) == IF Len(s) <= 8 THEN Fold(h, s)
              ELSE LET b == AddN(Fold(<<>>, SubSeq(s, 2, 5)), <<>>)
                       block == AddN(Fold(b, SubSeq(s, 6, 8)), MulN(Nat2(442596621), Nat2(s[1])))
                   IN Long(Cut(AddN(Cut(block), Neg32(Cut(MulN(h, Nat2(803794207)))))), SubSeq(s, 9, Len(s)))
W2008(s) == Long(Nat2(314159), s)

InitSt == st = [pc |-> "hash"] /\ ev = <<>>
Hash ==
  /\ st.pc = "hash"
  /\ st' = [pc |-> "done"]
  /\ LET s == Bytes16 IN ev' = <<[k |-> "!hash", xp |-> XP(s), vista |-> Vista(s), w2008 |-> W2008(s)]>>
  /\ UNCHANGED sc
Next == Hash
Done == st.pc = "done"
Outcomes == {"ok"}
-----------------------------------------------------------------------------
Is32 == Done => \A h \in {ev[1].xp, ev[1].vista, ev[1].w2008} : Len(h) <= 4
=============================================================================
