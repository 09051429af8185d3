---------------------------------- MODULE MC_Src ---------------------------------
(* The compiler on every source of up to MaxLines lines of a pool, its lines read in *)
(* every order that means the same (the header of a matrix first, ranges of          *)
(* characters in order).                                                             *)
EXTENDS Compile, Json, IOUtils
CONSTANTS MaxLines, TYPE

A == <<97>>  AB == <<97, 98>>  Dash == <<8213, 65374>>
N(k) == IF k < 0 THEN <<45, 48 - k>> ELSE <<48 + k>>      \* one digit
WordPool == << <<A, N(1), N(2), N(-3), A>>, <<A, N(0), N(2), N(4), <<>>>>,
               <<AB, <<32, 53, 32>>, N(1), N(0), Dash>>, <<Dash, N(1), N(1), N(1), A>>,
               <<AB, N(1), N(1), <<120>>, A>>, <<A, N(1), N(1), N(1), A, Dash>>, <<AB, N(1), N(-1), N(1), A>> >>
Full(kind, s, l, r, k, n) == <<s, l, r, k>> \o [i \in 1..(n - 4) |-> <<48 + (i % 10)>>]
UserPool(kind) == LET n == Detailed(kind) IN
            << <<A, AB, Dash>>, <<AB, <<>>, A>>, Full(kind, A, N(1), N(2), N(-3), n), Full(kind, AB, N(0), N(0), <<51, 50, 55, 54, 56>>, n),
               Full(kind, A, N(1), N(1), N(1), n + 1), Full(kind, A, N(1), N(1), N(1), n - 1), Full(kind, A, <<32, 49>>, N(1), N(1), n) >>
MatPool == << <<N(0), N(1), N(-5)>>, <<N(1), N(0), N(7)>>, <<N(0), N(2), <<45, 51, 50, 55, 54, 56>>>>, <<N(2), N(0), N(1)>>, <<N(1), N(0), <<120>>>>, <<>>, <<N(1), N(1)>> >>
MatHead == << <<N(2), N(3)>>, <<N(3), N(1)>>, <<N(2)>> >>
Sp == <<32>>
CatL(n, i, g, k) == n \o Sp \o N(i) \o <<9, 32>> \o N(g) \o Sp \o N(k)
RngL(a, b, ns) == <<48, 120, 48, 48>> \o a \o (IF b = <<>> THEN <<>> ELSE <<46, 46, 48, 120, 48, 48>> \o b) \o Concat([i \in 1..Len(ns) |-> Sp \o ns[i]])
CA == <<65>>  CB == <<66>>
DefPool == << CatL(CA, 1, 0, 2) \o <<32, 35, 32, 65>>, CatL(CB, 0, 1, 0), RngL(<<54, 49>>, <<>>, <<CA>>), RngL(<<54, 48>>, <<54, 50>>, <<CB, CA>>),
              RngL(<<54, 50>>, <<54, 51>>, <<DEFAULT, CB>>), <<35, 32, 48, 120>>, <<>>, RngL(<<54, 90>>, <<>>, <<CA>>), CA \o Sp \o N(1) >>
Unk1(n, k) == n \o <<44>> \o N(k) \o <<44>> \o N(2) \o <<44>> \o N(-1) \o Concat([i \in 1..6 |-> <<44, 42>>])
UnkLines == << Unk1(CA, 1), Unk1(DEFAULT, 0), Unk1(CB, 3), Unk1(CA, 2) >>

Kinds == CASE TYPE = "words" -> {"ipadic", "unidic", "cc-cedict"} [] TYPE = "user" -> {"ipadic-neologd", "unidic", "ko-dic"} [] OTHER -> {"unidic"}
Pool(kind) == CASE TYPE = "words" -> WordPool [] TYPE = "user" -> UserPool(kind) [] TYPE = "matrix" -> MatPool [] TYPE = "defs" -> DefPool
Inj(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Picks == {s \in UNION {[1..n -> 1..Len(Pool("unidic"))] : n \in 0..MaxLines} : TYPE \in {"words", "user"} \/ Inj(s)}
Sources == [kind : Kinds, p : Picks, h : IF TYPE = "matrix" THEN 1..3 ELSE {0}]

Lines(x) ==
  LET p == Pool(x.kind)
      body == [i \in 1..Len(x.p) |-> [f |-> IF TYPE = "words" THEN 1 + (i % 2) ELSE 1, x |-> p[x.p[i]]]]
  IN CASE TYPE = "matrix" -> <<[f |-> 1, x |-> MatHead[x.h]]>> \o body
       [] TYPE = "defs" -> <<[f |-> 1, x |-> CatL(DEFAULT, 0, 1, 0)]>> \o body \o [i \in 1..Len(UnkLines) |-> [f |-> 2, x |-> UnkLines[i]]]
       [] OTHER -> body
MType(x) == TYPE
MKind(x) == x.kind

ASSUME "EXPORT" \notin DOMAIN IOEnv
       \/ ndJsonSerialize(IOEnv.EXPORT, SetToSeq({[ty |-> TYPE, kind |-> x.kind, lines |-> Lines(x)] : x \in Sources}))

L == LinesOf(c)
IsRange(l) == TYPE = "defs" /\ l.f = 1 /\ Len(l.x) > 1 /\ l.x[1] = 48
\* line i may be read now
May(i) == /\ TYPE = "matrix" /\ 1 \in left => i = 1
          /\ TYPE = "defs" => \A j \in left : (IsRange(L[i]) /\ IsRange(L[j]) => i <= j) /\ L[i].f <= L[j].f
          /\ TYPE = "defs" /\ L[i].f = 2 => \A j \in left : i <= j
MCInit == c \in Sources /\ CompileInit
MCNext == (\E i \in left : May(i) /\ Read(i)) \/ Close \/ (res # "run" /\ UNCHANGED cvars)
MCSpec == MCInit /\ [][MCNext]_cvars

\* the same source read from its first line to its last
InOrder == FoldLeft(LAMBDA a, l : Step(TYPE, c.kind, a, l), Start(TYPE), L)
Closed == res # "run"

VerdictIndependent == Closed => res = Verdict(TYPE, InOrder)

(* --- words and users: the index that the compiler builds --- *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
Sorted(es) == SortSeq(es, LAMBDA x, y : LexLess(x.s, y.s))
\* one key per surface with the place and number of its entries
Keys(v) == FoldLeft(LAMBDA a, i : IF a # <<>> /\ a[Len(a)].s = v[i].s THEN [a EXCEPT ![Len(a)].n = @ + 1]
                                  ELSE Append(a, [s |-> v[i].s, at |-> i, n |-> 1]), <<>>, Idx(v))
LookUp(es, t) == LET v == Sorted(es)
                     ks == SelectSeq(Keys(v), LAMBDA k : OccursAt(k.s, t, 0))
                 IN Concat([i \in 1..Len(ks) |-> SubSeq(v, ks[i].at, ks[i].at + ks[i].n - 1)])
Probes == {<<>>, A, AB, AB \o A, <<8212, 12316, 97>>, Dash, <<98>>}
Lex == (Closed /\ TYPE \in {"words", "user"} /\ res = "ok") =>
         \A t \in Probes : /\ SameBag(LookUp(acc.es, t), Found(acc.es, t))
                           /\ SameBag(Found(acc.es, t), Found(InOrder.es, t))
                           /\ \A e \in {Found(acc.es, t)[i] : i \in 1..Len(Found(acc.es, t))} : Len(e.s) <= Len(t)
(* --- matrix: the flat array --- *)
Flat == [j \in 1..(acc.nf * acc.nb) |-> CellCost(acc, (j - 1) \div acc.nb, (j - 1) % acc.nb)]
Mat == (Closed /\ TYPE = "matrix" /\ res = "ok") =>
         \A f \in 0..(acc.nf - 1), b \in 0..(acc.nb - 1) :
            /\ Flat[1 + b + f * acc.nb] = CellCost(InOrder, f, b)
            /\ CellCost(acc, f, b) = (IF \E i \in 2..Len(L) : MatId(L[i].x[1]) = f /\ MatId(L[i].x[2]) = b
                                      THEN Cost(L[CHOOSE i \in 2..Len(L) : MatId(L[i].x[1]) = f /\ MatId(L[i].x[2]) = b].x[3]) ELSE 32767)
(* --- definitions: the table of boundaries, and names instead of numbers --- *)
Bound == {0} \cup UNION {{acc.rng[i].lo, acc.rng[i].hi + 1} : i \in 1..Len(acc.rng)}
Names(a, ch) == [i \in 1..Len(Cats(a, ch)) |-> CatRecord(a, Cats(a, ch)[i])]
Def == (Closed /\ TYPE = "defs" /\ res = "ok") =>
         \A ch \in {0, 65535} \cup (94..102) :
            /\ Cats(acc, ch) = Cats(acc, SetMax({b \in Bound : b <= ch}))
            /\ Names(acc, ch) = Names(InOrder, ch)
            /\ \A i, j \in 1..Len(Cats(acc, ch)) : i # j => Cats(acc, ch)[i] # Cats(acc, ch)[j]
\* faults are never forgotten
Sticky == [][(TYPE # "user" /\ acc.bad) => acc'.bad]_cvars
==================================================================================
