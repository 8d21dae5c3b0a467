---------------------------------- MODULE Cli ----------------------------------
(* The command language: what a typed line means.  A token is a record        *)
(* [t |-> text, c |-> its characters].                                        *)
EXTENDS Data

IsInt(k) ==
  LET d == IF k.c # <<>> /\ k.c[1] \in {"-", "+"} THEN Tail(k.c) ELSE k.c
  IN d # <<>> /\ IsDigits(d) /\ Len(d) < 10
IntOf(k) == IF k.c[1] = "-" THEN -NatOf(Tail(k.c)) ELSE IF k.c[1] = "+" THEN NatOf(Tail(k.c)) ELSE NatOf(k.c)
IsNum(k) == IsNumber(k.c)

\* "\s" stands for a space
RECURSIVE Unescape(_)
Unescape(c) ==
  IF Len(c) < 2 THEN c
  ELSE IF c[1] = "\\" /\ c[2] = "s" THEN <<" ">> \o Unescape(SubSeq(c, 3, Len(c)))
  ELSE <<c[1]>> \o Unescape(Tail(c))

Usage == [op |-> "usage"]
Known == {"load", "save", "unload", "list", "timer", "distance", "group", "saveGroups", "loadGroups",
          "normalize", "sim", "ksim", "ksimBF", "print"}

\* a: the arguments; P: positions that have to be integers
Ints(a, P) == \A i \in P \cap 1..Len(a) : IsInt(a[i])
Opt(a, i, d) == IF Len(a) >= i THEN IntOf(a[i]) ELSE d
IsComment(k) == Len(k.c) >= 2 /\ k.c[1] = "/" /\ k.c[2] = "/"
NoDir(k) == \A i \in 1..Len(k.c) : k.c[i] # "/"
Dtw == <<"_", "d", "t", "w">>
Text(c) == FoldLeft(LAMBDA s, x : s \o x, "", c)
HasDtw(c) == Len(c) >= 4 /\ SubSeq(c, Len(c) - 3, Len(c)) = Dtw

Command(k) ==
  IF k = <<>> \/ IsComment(k[1]) THEN [op |-> "nothing"] ELSE
  LET c == k[1].t
      a == Tail(k)
      n == Len(a)
  IN
  CASE c \in {"quit", "exit"} -> [op |-> "quit"]
    [] c = "help" -> IF n = 0 THEN [op |-> "commands"]
                     ELSE IF n > 1 THEN Usage
                     ELSE IF a[1].t \in Known \cup {"help", "quit", "exit"} THEN [op |-> "help"] ELSE Usage
    [] c = "load" ->
         IF n < 2 \/ n > 6 \/ ~Ints(a, {4, 5, 6}) THEN Usage
         ELSE [op |-> "load", n |-> a[1].t, p |-> a[2].t,
               seps |-> IF n >= 3 THEN Unescape(a[3].c) ELSE <<" ">>,
               maxrow |-> Opt(a, 4, 0), startcol |-> Opt(a, 5, 0), named |-> Opt(a, 6, 0) # 0]
    [] c = "save" ->
         IF n < 2 \/ n > 3 THEN Usage
         ELSE [op |-> "saved", n |-> a[1].t, p |-> a[2].t, limit |-> -1, size |-> 0, dir |-> NoDir(a[2])]
    [] c = "unload" -> IF n # 1 THEN Usage ELSE [op |-> "unload", n |-> a[1].t]
    [] c = "list" -> IF n = 1 /\ a[1].t = "dataset" THEN [op |-> "list"]
                     ELSE IF n = 1 /\ a[1].t = "distance" THEN [op |-> "dists"] ELSE Usage
    [] c = "timer" -> IF n = 0 THEN [op |-> "timer", to |-> "same"]
                      ELSE IF n = 1 /\ a[1].t \in {"on", "off"} THEN [op |-> "timer", to |-> a[1].t] ELSE Usage
    [] c = "distance" ->
         IF n < 8 \/ n > 9 \/ ~Ints(a, {2, 3, 4, 6, 7, 8}) THEN Usage
         ELSE LET d == IF n = 9 THEN a[9].c ELSE <<"e", "u", "c", "l", "i", "d", "e", "a", "n">> \o Dtw
                  w == HasDtw(d)
              IN [op |-> "dist", n1 |-> a[1].t, x1 |-> IntOf(a[2]), s1 |-> IntOf(a[3]), e1 |-> IntOf(a[4]),
                  n2 |-> a[5].t, x2 |-> IntOf(a[6]), s2 |-> IntOf(a[7]), e2 |-> IntOf(a[8]),
                  dist |-> Text(IF w THEN SubSeq(d, 1, Len(d) - 4) ELSE d), warp |-> w]
    [] c = "group" ->
         IF n < 2 \/ n > 3 \/ (n >= 2 /\ ~IsNum(a[2])) THEN Usage
         ELSE [op |-> "group", n |-> a[1].t, thr8 |-> NumberOf(a[2].c, 8),
               dist |-> IF n = 3 THEN a[3].t ELSE "euclidean", threads |-> 1, whole |-> FALSE]
    [] c = "saveGroups" ->
         IF n < 2 \/ n > 3 \/ ~Ints(a, {3}) THEN Usage
         ELSE [op |-> IF Opt(a, 3, 0) # 0 THEN "sizes" ELSE "saveg", n |-> a[1].t, p |-> a[2].t,
               limit |-> -1, size |-> 0, dir |-> NoDir(a[2])]
    [] c = "loadGroups" -> IF n # 2 THEN Usage ELSE [op |-> "loadg", n |-> a[1].t, p |-> a[2].t]
    [] c = "normalize" -> IF n # 1 THEN Usage ELSE [op |-> "norm", n |-> a[1].t]
    [] c = "sim" ->
         IF n \notin {3, 5} \/ ~Ints(a, {3, 4, 5}) THEN Usage
         ELSE [op |-> "best", t |-> a[1].t, q |-> a[2].t, x |-> IntOf(a[3]), s |-> Opt(a, 4, -1), e |-> Opt(a, 5, -1)]
    [] c = "ksim" ->
         IF n < 4 \/ n > 7 \/ ~Ints(a, {1, 4, 5, 6, 7}) THEN Usage
         ELSE [op |-> "kbest", k |-> IntOf(a[1]), t |-> a[2].t, q |-> a[3].t, x |-> IntOf(a[4]),
               s |-> IF n >= 6 THEN IntOf(a[5]) ELSE -1, e |-> IF n >= 6 THEN IntOf(a[6]) ELSE -1,
               ke |-> IF n = 5 THEN IntOf(a[5]) ELSE IF n = 7 THEN IntOf(a[7]) ELSE IntOf(a[1])]
    [] c = "ksimBF" ->
         IF n \notin {4, 6} \/ ~Ints(a, {1, 4, 5, 6}) THEN Usage
         ELSE [op |-> "brute", k |-> IntOf(a[1]), t |-> a[2].t, q |-> a[3].t, x |-> IntOf(a[4]),
               s |-> Opt(a, 5, -1), e |-> Opt(a, 6, -1), dist |-> "euclidean"]
    [] c = "print" ->
         IF n # 4 \/ ~Ints(a, {2, 3, 4}) THEN Usage
         ELSE [op |-> "ts", n |-> a[1].t, x |-> IntOf(a[2]), s |-> IntOf(a[3]), e |-> IntOf(a[4])]
    [] OTHER -> Usage
=============================================================================
