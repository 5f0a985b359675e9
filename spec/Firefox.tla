------------------------------- MODULE Firefox -------------------------------
(* Firefox cache version 1: the map file (_CACHE_MAP_), a header and         *)
(* records up to the end of the file, and the block files (_CACHE_00n_):     *)
(* blocks of 256, 1024 or 4096 bytes in which an entry takes as many whole   *)
(* blocks as its data needs. A block that holds no entry is skipped alone.   *)
(* Kind: "map" or the name of the block file.                                *)
EXTENDS Text
CONSTANT Src(_), Kind(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)
Map == Kind(sc) = "map"
Block == CASE Kind(sc) = "_CACHE_001_" -> 256 [] Kind(sc) = "_CACHE_002_" -> 1024 [] Kind(sc) = "_CACHE_003_" -> 4096 [] OTHER -> 0

InitSt == st = [pc |-> IF Map THEN "header" ELSE "name", off |-> 0, shown |-> <<>>] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

(* a location, 4 bytes: flag (1 bit), reserved, selector (2 bits),           *)
(* reserved, extra blocks (2 bits), block number (24 bits)                   *)
Location(b) ==
  LET t == b[1] IN
  Lit("block number: ") \o Dec(Norm(<<b[4], b[3], b[2]>>)) \o Lit(", extra blocks: ") \o DecI(t % 4)
  \o Lit(", location selector: ") \o DecI((t \div 16) % 4)
  \o Lit(", reserved: ") \o HexRaw(Nat2((((t \div 4) % 4) + 16 * ((t \div 64) % 2))), 2) \o Lit(", location flag: ") \o DecI(t \div 128)
Val(o, n, f) == Render(f, Sub(F, st.off + o, n), TRUE)
Loc(o) == Location(Sub(F, st.off + o, 4))

RECURSIVE Commas(_, _)
Commas(o, n) == LET d == Dec(BE(F, o, 4)) IN IF n = 1 THEN d ELSE d \o <<44, 32>> \o Commas(o + 4, n - 1)

HeaderEv ==
  <<At("file header", 0)>>
  \o Fields(F, 0, TRUE, <<Field("Major format version", 0, 2, "dec"), Field("Minor format version", 2, 2, "dec"), Field("Data size", 4, 4, "dec"),
       Field("Number of entries", 8, 4, "sdec"), Field("Is dirty flag", 12, 4, "dec"), Field("Number of records", 16, 4, "sdec")>>)
  \o <<Ln("Eviction ranks", Commas(20, 32)), Ln("Bucket usage", Commas(148, 32))>>
ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(F, 0, 276) THEN Fail
     ELSE /\ st' = [st EXCEPT !.off = 276, !.pc = IF BEi(F, 0, 2) = 1 /\ BE(F, 4, 4) = Nat2(Len(F) - 276) THEN "records" ELSE "fail"]
          /\ ev' = HeaderEv
  /\ UNCHANGED sc

ReadRecord ==
  /\ st.pc = "records" /\ st.off < Len(F)
  /\ IF ~Fits(F, st.off, 16) THEN Fail
     ELSE /\ st' = [st EXCEPT !.off = @ + 16, !.shown = Append(@, st.off)]
          /\ ev' = <<At("record", st.off), Ln("Hash number", Val(0, 4, "dec")), Ln("Eviction rank", Val(4, 4, "dec")),
                     Ln("Data location", Loc(8)), Ln("Metadata location", Loc(12))>>
  /\ UNCHANGED sc

Named ==
  /\ st.pc = "name"
  /\ st' = [st EXCEPT !.pc = IF Block = 0 THEN "fail" ELSE "entries"] /\ ev' = <<>>
  /\ UNCHANGED sc

ReqSize == BEi(F, st.off + 28, 4)
InfSize == BEi(F, st.off + 32, 4)
Request == Sub(F, st.off + 36, ReqSize)
(* the entry at the current offset is there, completely                     *)
IsEntry ==
  /\ Fits(F, st.off, 36)
  /\ BEi(F, st.off, 2) = 1
  /\ Fits(F, st.off + 36, ReqSize) /\ IsAscii(Request)
  /\ Fits(F, st.off + 36 + ReqSize, InfSize)
EntryEv ==
  <<Ln("Major format version", Val(0, 2, "dec")), Ln("Minor format version", Val(2, 2, "dec")), Ln("Location", Loc(4)),
    Ln("Fetch count", Val(8, 4, "sdec")), Ln("Last fetched time", Val(12, 4, "posix")), Ln("Last modified time", Val(16, 4, "posix")),
    Ln("Expiration time", Val(20, 4, "posix")), Ln("Cached data size", Val(24, 4, "dec")), Ln("Request size", Val(28, 4, "dec")),
    Ln("Information size", Val(32, 4, "dec")), Ln("Request", RStrip0(Request)), Hexd("Information", Sub(F, st.off + 36 + ReqSize, InfSize))>>
Blocks(n) == ((n + Block - 1) \div Block) * Block
ReadEntry ==
  /\ st.pc = "entries" /\ st.off < Len(F)
  /\ IF IsEntry
     THEN /\ st' = [st EXCEPT !.off = @ + Blocks(36 + ReqSize + InfSize), !.shown = Append(@, st.off)]
          /\ ev' = <<At("cache_entry", st.off)>> \o EntryEv
     ELSE /\ st' = [st EXCEPT !.off = @ + Block]
          /\ ev' = <<At("cache_entry", st.off)>>
  /\ UNCHANGED sc

Finish ==
  /\ st.pc \in {"records", "entries"} /\ st.off >= Len(F)
  /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
  /\ UNCHANGED sc

Next == ReadHeader \/ ReadRecord \/ Named \/ ReadEntry \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* the records fill the file that the header describes                       *)
WholeMap == st.pc = "done" /\ Map => Len(F) = 276 + 16 * Len(st.shown)
(* entries start on a block and do not overlap                               *)
OnBlocks == ~Map /\ Block > 0 => \A i \in 1..Len(st.shown) : st.shown[i] % Block = 0 /\ (i > 1 => st.shown[i] > st.shown[i - 1])
(* no entry is lost: every block that starts an entry was shown or lies in   *)
(* the data of one that was                                                  *)
SizeAt(o) == Blocks(36 + BEi(F, o + 28, 4) + BEi(F, o + 32, 4))
EntryAt(o) == /\ Fits(F, o, 36) /\ BEi(F, o, 2) = 1 /\ Fits(F, o + 36, BEi(F, o + 28, 4))
              /\ IsAscii(Sub(F, o + 36, BEi(F, o + 28, 4))) /\ Fits(F, o + 36 + BEi(F, o + 28, 4), BEi(F, o + 32, 4))
NoneLost == st.pc = "done" /\ ~Map =>
  \A n \in 0..((Len(F) - 1) \div Block) :
    EntryAt(n * Block) => \E i \in 1..Len(st.shown) : st.shown[i] <= n * Block /\ n * Block < st.shown[i] + SizeAt(st.shown[i])
=============================================================================
