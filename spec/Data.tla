-------------------------------- MODULE Data --------------------------------
(* Table files, normalization and block averages.                            *)
EXTENDS Dist

\* ---- parsing: a line is a sequence of one-character strings ----------------
Tokens(line, seps) ==                    \* maximal runs of non-separator characters
  LET f == FoldLeft(LAMBDA acc, c :
             IF c \in seps THEN (IF acc[2] = <<>> THEN acc ELSE <<Append(acc[1], acc[2]), <<>> >>)
             ELSE <<acc[1], Append(acc[2], c)>>, << <<>>, <<>> >>, line)
  IN IF f[2] = <<>> THEN f[1] ELSE Append(f[1], f[2])

Digits == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CHOOSE n \in 0..9 : ToString(n) = c]
IsDigits(s) == \A i \in 1..Len(s) : s[i] \in DOMAIN Digits
NatOf(s) == FoldLeft(LAMBDA a, c : a * 10 + Digits[c], 0, s)
Pow10(n) == FoldLeft(LAMBDA a, i : a * 10, 1, Iota(n))

\* sign, integer part, fraction, exponent of a numeric token
IndexOfAny(s, C) == LET I == {i \in 1..Len(s) : s[i] \in C} IN IF I = {} THEN 0 ELSE MinOf(I)
Parts(tok) ==
  LET neg == tok[1] = "-"
      s == IF tok[1] \in {"-", "+"} THEN Tail(tok) ELSE tok
      e == IndexOfAny(s, {"e", "E"})
      man == IF e = 0 THEN s ELSE SubSeq(s, 1, e - 1)
      ex == IF e = 0 THEN <<>> ELSE SubSeq(s, e + 1, Len(s))
      exneg == ex # <<>> /\ ex[1] = "-"
      exd == IF ex # <<>> /\ ex[1] \in {"-", "+"} THEN Tail(ex) ELSE ex
      d == IndexOfAny(man, {"."})
      ip == IF d = 0 THEN man ELSE SubSeq(man, 1, d - 1)
      fp == IF d = 0 THEN <<>> ELSE SubSeq(man, d + 1, Len(man))
  IN [neg |-> neg, ip |-> ip, fp |-> fp, exneg |-> exneg, exd |-> exd, hase |-> e # 0]
Blank == {" ", "\t", "\r"}
\* spaces around a number do not matter
Trim(tok) ==
  LET I == {i \in 1..Len(tok) : tok[i] \notin Blank} IN
  IF I = {} THEN <<>> ELSE SubSeq(tok, MinOf(I), MaxOf(I))
IsNumber(t) ==
  LET tok == Trim(t) IN
  tok # <<>> /\ LET p == Parts(tok) IN
  /\ IsDigits(p.ip) /\ IsDigits(p.fp) /\ IsDigits(p.exd)
  /\ p.ip # <<>> \/ p.fp # <<>>
  /\ p.hase => p.exd # <<>>
  /\ p.hase /\ ~p.exneg => Len(p.exd) < 3           \* larger numbers are out of range
\* value in units of 1/G; the generators only use tokens for which it is an integer
NumberOf(tok, G) ==
  LET p == Parts(Trim(tok))
      m == NatOf(p.ip \o p.fp)
      x == (IF p.exneg THEN -NatOf(p.exd) ELSE NatOf(p.exd)) - Len(p.fp)
      v == IF x >= 0 THEN m * Pow10(x) * G ELSE (m * G) \div Pow10(-x)
  IN IF p.neg THEN -v ELSE v

\* what loading a file with these options yields
ParseTable(lines, seps, maxRow, startCol, hasName, G) ==
  IF startCol < 0 THEN [ok |-> FALSE, rows |-> <<>>, names |-> <<>>] ELSE
  LET nrows == IF maxRow <= 0 THEN Len(lines) ELSE Min2(maxRow, Len(lines))
      toks == TLCEval([i \in 1..nrows |-> Tokens(lines[i], seps)])
      first == startCol + (IF hasName THEN 1 ELSE 0)
      cells == TLCEval([i \in 1..nrows |-> IF Len(toks[i]) <= first THEN <<>>
                                   ELSE SubSeq(toks[i], first + 1, Len(toks[i]))])
      ok == \A i \in 1..nrows : \A j \in 1..Len(cells[i]) : IsNumber(cells[i][j])
  IN [ok |-> ok,
      rows |-> IF ~ok THEN <<>> ELSE
               [i \in 1..nrows |-> [j \in 1..Len(cells[i]) |-> NumberOf(cells[i][j], G)]],
      names |-> [i \in 1..nrows |->
                  IF hasName THEN (IF Len(toks[i]) > startCol THEN FoldLeft(LAMBDA a, c : a \o c, "", toks[i][startCol + 1])
                                   ELSE "")
                  ELSE ToString(i - 1)]]

MaxLen(rows) == IF rows = <<>> THEN 0 ELSE MaxOf({Len(rows[i]) : i \in 1..Len(rows)})

\* ---- sub-sequences ----------------------------------------------------------
\* index is 0-based, [start, end) are 0-based positions; both negative: whole series
ValidSub(rows, x, s, e) ==
  /\ x >= 0 /\ x < Len(rows)
  /\ \/ s < 0 /\ e < 0
     \/ s >= 0 /\ s < e /\ e <= Len(rows[x + 1])
Sub(rows, x, s, e) == IF s < 0 /\ e < 0 THEN rows[x + 1] ELSE SubSeq(rows[x + 1], s + 1, e)
\* all sub-sequences of length two or more, as <<index, start, end>>
Subs2(rows) == UNION {UNION {{<<x - 1, s, e>> : e \in (s + 2)..Len(rows[x])} : s \in 0..(Len(rows[x]) - 2)}
                      : x \in 1..Len(rows)}

\* ---- normalization ----------------------------------------------------------
Values(rows) == UNION {{rows[i][j] : j \in 1..Len(rows[i])} : i \in 1..Len(rows)}
\* new rows are the normalized old rows (in units of 1/G, the old ones in any)
IsNormalized(old, new, G) ==
  /\ Len(new) = Len(old)
  /\ \A i \in 1..Len(old) : Len(new[i]) = Len(old[i])
  /\ Values(old) # {} =>
     LET mn == MinOf(Values(old)) mx == MaxOf(Values(old)) IN
     \A i \in 1..Len(old) : \A j \in 1..Len(old[i]) :
       IF mn = mx THEN new[i][j] = 0
       ELSE new[i][j] * (mx - mn) = (old[i][j] - mn) * G
NormRows(rows, G) ==
  IF Values(rows) = {} THEN rows ELSE
  LET mn == MinOf(Values(rows)) mx == MaxOf(Values(rows)) IN
  TLCEval([i \in 1..Len(rows) |-> TLCEval([j \in 1..Len(rows[i]) |->
    IF mn = mx THEN 0 ELSE ((rows[i][j] - mn) * G) \div (mx - mn)])])

\* ---- block averages ----------------------------------------------------------
\* G is a multiple of every block length that occurs, so the division is exact
Blocks(v, bs) == [b \in 1..((Len(v) + bs - 1) \div bs) |->
  LET blk == SubSeq(v, (b - 1) * bs + 1, Min2(b * bs, Len(v))) IN SumSeq(blk) \div Len(blk)]
=============================================================================
