------------------------------ MODULE MC_ChainScale ------------------------------
(* Why a text far too long for the model may be judged piece by piece.  The machine *)
(* of Chain runs over (x S)^n, where no filter reads or writes the separator S.      *)
(* After every filter the text has n + 1 pieces, the first n of them equal, and a    *)
(* piece, S and the last piece are what the chain makes of x S by itself; and what   *)
(* an offset of the k-th piece refers to is, moved by k - 1 units, what it refers to *)
(* there (but for the end of a separator, after which something may have vanished).  *)
EXTENDS MC_Chain
CONSTANTS Times
S == 8251

SChain(x) == [j \in 1..Len(x.f) |-> Pool[x.f[j]]]
Rep(u, n) == Concat([i \in 1..n |-> u])
Unit(x) == Append(x.t, S)
SOrig(x) == Rep(Unit(x), x.n)

RECURSIVE Ignores(_)
Ignores(n) == CASE n.k \in {"any", "bol", "eol"} -> FALSE
                [] n.k = "set" -> ~InSet(n, S)
                [] n.k \in {"cat", "alt"} -> \A i \in 1..Len(n.xs) : Ignores(n.xs[i])
                [] n.k \in {"rep", "grp"} -> Ignores(n.x)
                [] OTHER -> TRUE
Cut(t) == LET r == FoldLeft(LAMBDA a, ch2 : IF ch2 = S THEN [o |-> Append(a.o, a.w), w |-> <<>>] ELSE [a EXCEPT !.w = Append(@, ch2)],
                            [o |-> <<>>, w |-> <<>>], t)
          IN Append(r.o, r.w)
\* runs of marks find what they repeat inside the piece
Inside(f, p) == \A q \in 1..Len(p) : IsMark(f, p[q]) => RunStart(f, p, q - 1) >= RunEnd(f, p, q - 1) - RunStart(f, p, q - 1)
Local(f, t) == CASE f.k = "rex" -> Ignores(f.re)
                 [] f.k = "iter" -> \A i \in 1..Len(Cut(t)) : Inside(f, Cut(t)[i])
                 [] OTHER -> TRUE

\* the chain over x S alone: texts and extents after k filters
RECURSIVE Alone(_, _)
Alone(x, k) == IF k = 0 THEN [t |-> Unit(x), e |-> <<>>]
               ELSE LET a == Alone(x, k - 1) ps == Pieces(SChain(x)[k], a.t, <<>>, <<>>, <<>>)
                    IN [t |-> OutText(ps), e |-> Append(a.e, Extents(ps))]

SInit == c \in [f : {f \in Chains : Len(f) > 0}, t : Texts, n : {Times}] /\ ChainInit
May == IF stage < Len(ChainOf(c)) THEN Local(ChainOf(c)[stage + 1], cur) ELSE FALSE
SNext == IF May THEN ApplyFilter ELSE UNCHANGED cvars
SSpec == SInit /\ [][SNext]_cvars

Periodic == LET p == Cut(cur)
            IN /\ Len(p) = Times + 1
               /\ \A i \in 1..Times : p[i] = p[1]
               /\ Alone(c, stage).t = p[1] \o <<S>> \o p[Times + 1]
OffsetsMove ==
  \E a \in {Alone(c, stage)} : \E p \in {Cut(cur)} :
    LET w == BLen(p[1]) + 3 ul == BLen(Unit(c)) L1 == BLen(p[1])
        to(k, q) == {x - k * ul : x \in Through(exts, {k * w + q})}
    IN \A k \in 0..(Times - 1) :
         /\ \A q \in 0..L1 : to(k, q) \cap 0..ul = Through(a.e, {q}) \cap 0..ul
         /\ Through(a.e, {w}) \cap 0..ul \subseteq to(k, w)
==================================================================================
