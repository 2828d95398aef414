------------------------------- MODULE Print -------------------------------
(* Texts are sequences of one-character strings. Relabelling of orbitals in a text, and filtering of lines by keywords. *)
EXTENDS Crystal

DigitChars == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1 .. 10 : DigitChars[i] = c
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<DigitChars[n + 1]>> ELSE Append(Decimal(n \div 10), DigitChars[(n % 10) + 1])
RECURSIVE ReadNat(_, _, _)
ReadNat(t, i, acc) == \* the number whose digits start at i: <<value, position after it>>
    IF i > Len(t) \/ ~IsDigit(t[i]) THEN <<acc, i>> ELSE ReadNat(t, i + 1, 10 * acc + (CHOOSE d \in 0 .. 9 : DigitChars[d + 1] = t[i]))

RECURSIVE JoinWith(_, _)
JoinWith(parts, sep) == IF Len(parts) = 0 THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o sep \o JoinWith(Tail(parts), sep)
CellText(c) == <<"(">> \o (IF Len(c) = 1 THEN Decimal(c[1]) \o <<",">> ELSE JoinWith([i \in 1 .. Len(c) |-> Decimal(c[i])], <<",", " ">>)) \o <<")">>
AtomOf(lat, orb) == CHOOSE a \in 1 .. Len(lat.atoms) : Site(lat, orb[3], a) = orb[1]
OneCell(lat) == FoldLeft(LAMBDA x, n : x * n, 1, lat.N) = 1
OrbText(lat, orb) ==
    <<"_", "{">> \o (IF OneCell(lat) THEN <<>> ELSE CellText(orb[3]) \o <<";", " ">>) \o Decimal(AtomOf(lat, orb) - 1)
    \o (IF orb[2] = <<>> THEN <<>> ELSE <<";", " ">> \o orb[2]) \o <<"}">>
(* a label is a number after a blank; every label belongs to an orbital of the lattice *)
RECURSIVE Relabel(_, _, _, _)
Relabel(t, i, lat, names) == \* names[l + 1]: text of orbital l
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] = " " /\ i < Len(t) /\ IsDigit(t[i + 1])
         THEN LET r == ReadNat(t, i + 1, 0) IN names[r[1] + 1] \o Relabel(t, r[2], lat, names)
         ELSE <<t[i]>> \o Relabel(t, i + 1, lat, names)
RelabelText(t, lat, orbs) == Relabel(t, 1, lat, TLCEval([k \in 1 .. Len(orbs) |-> OrbText(lat, orbs[k])]))

HasKeyword(line, kws) == \E k \in 1 .. Len(kws) : \E i \in 1 .. Len(line) + 1 : MatchesAt(line, i, kws[k])
KeepLines(lines, kws) == SelectSeq(lines, LAMBDA l : HasKeyword(l, kws))
=============================================================================
