--------------------------------- MODULE MC_Cli ---------------------------------
(* Every history of up to Depth commands of a pool, and every short input in every  *)
(* format.                                                                          *)
EXTENDS Cli, Json, IOUtils
CONSTANTS Depth, MaxLen

NoUser == [at |-> "", n |-> "", e |-> ""]
U(a, x, e) == [at |-> a, n |-> x, e |-> e]
Src0 == [kind |-> "", dir |-> "", user |-> NoUser, mode |-> "", fmt |-> "", cf |-> <<>>, tf |-> <<>>, inp |-> "stdin", extra |-> "",
         t |-> <<97, 32, 97, 10, 12354, 97, 9, 10, 97>>, src |-> "", dest |-> "", op |-> "tok"]
S(s) == [j |-> "str", s |-> s, u |-> <<>>]
O(fs) == [j |-> "obj", f |-> fs]
K(k, v) == [k |-> k, u |-> <<>>, v |-> v]
Fl(k, a) == [k |-> k, a |-> a, raw |-> FALSE]
Pool ==
  {[Src0 EXCEPT !.op = "list"]}
  \cup {[Src0 EXCEPT !.op = "build", !.kind = b[1], !.src = b[2], !.dest = b[3]]
         : b \in {<<"unidic", "unidic", "d1">>, <<"ipadic", "ipadic", "d1">>, <<"unidic", "A", "d2">>, <<"unidic", "bad", "d2">>, <<"ko-dic", "none", "d1">>, <<"klingon", "unidic", "d1">>}}
  \cup {[Src0 EXCEPT !.op = "ubuild", !.kind = b[1], !.src = b[2], !.dest = b[3]]
         : b \in {<<"unidic", "A", "d1">>, <<"cc-cedict", "cc-cedict", "d1">>, <<"unidic", "bad", "d1">>, <<"unidic", "none", "d2">>}}
  \cup {[Src0 EXCEPT !.dir = "d1"], [Src0 EXCEPT !.dir = "d2", !.fmt = "json"], [Src0 EXCEPT !.dir = "A", !.user = U("d1", "A", "bin")],
         [Src0 EXCEPT !.kind = "ipadic", !.dir = "d1", !.mode = "decompose", !.inp = "file"], [Src0 EXCEPT !.kind = "unidic", !.user = U("@", "A", "csv"), !.fmt = "wakati"],
         [Src0 EXCEPT !.dir = "unidic", !.user = U("@", "unidic", "csv")], [Src0 EXCEPT !.dir = "ipadic", !.user = U("@", "cc-cedict", "bin"), !.mode = "normal"],
         [Src0 EXCEPT !.kind = "unidic", !.user = U("d1", "cc-cedict", "bin")], [Src0 EXCEPT !.user = U("@", "A", "bin")],
         [Src0 EXCEPT !.kind = "unidic", !.user = U("@", "none", "bin")],
         [Src0 EXCEPT !.dir = "none"], [Src0 EXCEPT !.kind = "mecab", !.dir = "A"], [Src0 EXCEPT !.dir = "A", !.mode = "search"], [Src0 EXCEPT !.dir = "A", !.fmt = "xml"],
         [Src0 EXCEPT !.dir = "A", !.inp = "absent"], [Src0 EXCEPT !.dir = "A", !.extra = "--with-details"],
         [Src0 EXCEPT !.dir = "A", !.cf = <<Fl("unicode_normalize", O(<<K("kind", S("nfkc"))>>))>>, !.tf = <<Fl("uppercase", None), Fl("length", O(<<K("min", [j |-> "int", n |-> 1])>>))>>],
         [Src0 EXCEPT !.dir = "A", !.cf = <<Fl("lowercase", None)>>], [Src0 EXCEPT !.dir = "A", !.tf = <<Fl("japanese_kana", O(<<K("kind", S("kana"))>>))>>],
         [Src0 EXCEPT !.dir = "A", !.tf = <<[k |-> "length", a |-> None, raw |-> TRUE]>>]}
Alphabet == {97, 32, 10, 12288, Invalid}
Inputs == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}
Single == {<<[Src0 EXCEPT !.dir = "A", !.fmt = f, !.t = t]>> : f \in Formats \cup {""}, t \in Inputs}
Histories == UNION {[1..k -> Pool] : k \in 1..Depth}
Exported == UNION {[1..k -> Pool] : k \in 1..2} \cup Single

MCmds(x) == x
\* one token per letter, which tells the dictionary and the user dictionary
MAnalysis(x, k, d, t) == [ok |-> TRUE, k |-> [i \in 1..Len(t) |-> [t |-> <<t[i]>>, d |-> <<<<1>>, <<2>>>>, bs |-> i, be |-> i, w |-> d[1] \o "/" \o d[2]]]]
MCInit == c \in Histories \cup Single /\ CliInit
MCSpec == MCInit /\ [][CliNext \/ (pc = "shell" /\ n = Len(c) /\ UNCHANGED climv)]_climv

ASSUME "EXPORT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.EXPORT, SetToSeq(Exported))

TokDone == pc = "shell" /\ n > 0 /\ Cmd.op = "tok"
RefusedPrintsNothing == (TokDone /\ status \in {"fail", "any"} /\ Options(Cmd) # "ok") => out = <<>>
\* the lines of a text, said at once instead of line by line
RECURSIVE LinesOf(_)
LinesOf(t) ==
  IF t = <<>> THEN <<>>
  ELSE LET js == {i \in 1..Len(t) : t[i] = 10} e == IF js = {} THEN Len(t) ELSE SetMin(js)
       IN <<SubSeq(t, 1, e)>> \o LinesOf(SubSeq(t, e + 1, Len(t)))
InLines == LinesOf(Cmd.t)
EveryLine == (TokDone /\ status = "ok") => Len(out) = Len(InLines)
\* a broken line ends it; what was printed before stays
Prefix == (TokDone /\ status = "fail" /\ Options(Cmd) = "ok") => Len(out) < Len(InLines) /\ Broken(InLines[Len(out) + 1])
\* the dictionary that is used was named, contained or built
Used == (pc = "tok" /\ at > 0) =>   /\ Dictionary(Cmd) \in Sources
                                    /\ Cmd.kind # "" => Dictionary(Cmd) = Cmd.kind
                                    /\ Cmd.dir \in {"d1", "d2"} /\ Cmd.kind = "" =>
                                         \E i \in 1..(n - 1) : c[i].op = "build" /\ c[i].dest = Cmd.dir /\ c[i].src = Dictionary(Cmd)
                                    /\ User(Cmd) \in Sources \cup {""}
\* nothing around a line reaches the analysis, and trimming twice is trimming once
Trimmed == pc = "tok" => \A i \in 1..Len(InLines) : LET t == Trim(InLines[i]) IN Trim(t) = t /\ (t # <<>> => t[1] \notin White /\ t[Len(t)] \notin White)
\* texts of the tokens can be read back from mecab output (no tab or newline in a line's tokens)
ReadBack == (TokDone /\ Fmt(Cmd) = "mecab") => \A i \in 1..Len(out) :
  LET ls == LinesOf(out[i])
  IN ls[Len(ls)] = Eos /\ Concat([q \in 1..(Len(ls) - 1) |-> SubSeq(ls[q], 1, SetMin({z \in 1..Len(ls[q]) : ls[q][z] = 9}) - 1)]) = Trim(InLines[i])
===================================================================================
