---------------------------- MODULE FilenameDate ----------------------------
(* Reading the instant out of a name with a pattern of the same layout.  Both *)
(* are sequences of one-character strings; a pattern letter marks the digits  *)
(* of its field (Y M D h m s f u, i for an index, e for seconds since 1970).   *)
EXTENDS Calendar, Sequences, SequencesExt
Digit(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5
              [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
Field(name, pat, letter) ==
  LET n == IF Len(name) < Len(pat) THEN Len(name) ELSE Len(pat)
      ix == SelectSeq([i \in 1..n |-> i], LAMBDA i : pat[i] = letter)
  IN FoldLeft(LAMBDA a, i : 10 * a + Digit(name[i]), 0, ix)
Has(pat, letter) == \E i \in DOMAIN pat : pat[i] = letter
\* seconds since 1970, perhaps with a point and up to six decimals
Epoch(name, pat) ==
  LET ix == SelectSeq([i \in 1..Len(name) |-> i], LAMBDA i : i <= Len(pat) /\ pat[i] = "e")
      w == [k \in 1..Len(ix) |-> name[ix[k]]]
      dot == IF \E k \in DOMAIN w : w[k] = "." THEN CHOOSE k \in DOMAIN w : w[k] = "." ELSE Len(w) + 1
      Num(a, b) == FoldLeft(LAMBDA x, k : 10 * x + Digit(w[k]), 0, [k \in 1..(b - a + 1) |-> a + k - 1])
      s == Num(1, dot - 1)
  IN [day |-> s \div 86400, sec |-> s % 86400,
      us |-> IF dot >= Len(w) THEN 0 ELSE Num(dot + 1, Len(w)) * 10 ^ (6 - (Len(w) - dot))]
Instant(name, pat) == IF Has(pat, "e") THEN Epoch(name, pat) ELSE
  LET F(q) == Field(name, pat, q) IN
  [day |-> Days(F("Y"), F("M"), F("D")), sec |-> 3600 * F("h") + 60 * F("m") + F("s"), us |-> 1000 * F("f") + F("u")]
=============================================================================
