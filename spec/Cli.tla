---------------------------------- MODULE Cli ----------------------------------
(* The command line tool: a history of commands over a few directories.            *)
(* `build` compiles a dictionary source into a directory or a user dictionary into  *)
(* a binary file; `list` prints the contained kinds; `tokenize` checks its options,  *)
(* then reads its input line by line and prints the analysis of each line.          *)
EXTENDS ConfigOps

CONSTANTS Embedded,           \* the kinds of dictionaries contained in the program
          CmdsOf(_),          \* the commands of history c
          Analysis(_, _, _, _)\* history, command number, dictionary and user dictionary, line
                              \*   -> [ok, k: tokens [t, d, bs, be, w]]
VARIABLES c, n,               \* history, commands started so far
          dirs, bins,         \* what directories hold; compiled user dictionaries [at, n, u]
          pc, at, out, status
                              \* at: where in its input tokenize is reading; 0 before its options are accepted
climv == <<c, n, dirs, bins, pc, at, out, status>>

Cmd == CmdsOf(c)[n]
Sources == Kinds \cup {"A"}   \* valid sources; A is another source of kind unidic
KindOf(s) == IF s = "A" THEN "unidic" ELSE s

(* --- texts --- *)
Invalid == -1                 \* a byte that is not UTF-8
White == (9..13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
\* the end of the line that starts at position p
LineEnd(t, p) == LET e == SelectInSubSeq(t, p, Len(t), LAMBDA x : x = 10) IN IF e = 0 THEN Len(t) ELSE e
Trim(t) ==
  LET ink == {i \in 1..Len(t) : t[i] \notin White}
  IN IF ink = {} THEN <<>> ELSE SubSeq(t, SetMin(ink), SetMax(ink))

(* --- formats --- *)
JoinWith(ss, x) == IF ss = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, s : a \o <<x>> \o s, ss[1], Tail(ss))
Formats == {"mecab", "wakati", "json"}
Eos == <<69, 79, 83, 10>>
\* what one line's tokens print; JSON is a document, whatever its layout
Chunk(fmt, ks) ==
  CASE fmt = "mecab" -> Concat([i \in 1..Len(ks) |-> ks[i].t \o <<9>> \o JoinWith(ks[i].d, 44) \o <<10>>]) \o Eos
    [] fmt = "wakati" -> IF ks = <<>> THEN <<>> ELSE JoinWith([i \in 1..Len(ks) |-> ks[i].t], 32) \o <<10>>
    [] fmt = "json" -> ks

(* --- options of tokenize --- *)
Fmt(x) == IF x.fmt = "" THEN "mecab" ELSE x.fmt
DirVerdict(p) == IF p = "" THEN "err" ELSE IF p \in Sources THEN "ok"
                 ELSE IF p \in DOMAIN dirs THEN (CASE dirs[p] = "" -> "err" [] dirs[p] = "any" -> "any" [] OTHER -> "ok") ELSE "err"
Bins(u) == {b \in bins : b.at = u.at /\ b.n = u.n}
\* a user dictionary: of the sources (at = "@", as CSV or compiled) or compiled by this history
UserFile(x) ==
  LET u == x.user
  IN CASE u.at = "" -> "ok"
       [] u.at = "@" /\ u.e = "csv" -> (IF u.n \notin Sources \/ x.kind = "" THEN "err" ELSE IF x.kind = KindOf(u.n) THEN "ok" ELSE "any")
       [] u.at = "@" /\ u.e = "bin" -> If(u.n \in Sources)
       [] u.at = "@" -> "err"
       [] OTHER -> IF u.e # "bin" \/ Bins(u) = {} THEN "err" ELSE IF \E b \in Bins(u) : b.u = "any" THEN "any" ELSE "ok"
FilterFlag(fam, f) == IF f.raw THEN "err" ELSE FilterVerdict(fam, f.k, IF f.a = None THEN Null ELSE f.a)
Options(x) ==
  AllOf(<<If(x.extra = ""),
          IF x.kind = "" THEN DirVerdict(x.dir) ELSE If(x.kind \in Embedded),
          UserFile(x),
          If(x.mode \in {"", "normal", "decompose"}),
          If(x.fmt \in {""} \cup Formats),
          AllOf([i \in 1..Len(x.cf) |-> FilterFlag("char", x.cf[i])]),
          AllOf([i \in 1..Len(x.tf) |-> FilterFlag("token", x.tf[i])]),
          If(x.inp # "absent")>>)
Dictionary(x) == IF x.kind # "" THEN x.kind ELSE IF x.dir \in Sources THEN x.dir ELSE dirs[x.dir]
User(x) == IF x.user.at \in {"", "@"} THEN x.user.n ELSE (CHOOSE b \in Bins(x.user) : TRUE).u

(* --- building --- *)
BuildVerdict(x) ==
  IF x.kind \notin Kinds \/ x.extra # "" THEN "err"
  ELSE IF x.src \notin Sources THEN "err" ELSE IF x.kind = KindOf(x.src) THEN "ok" ELSE "any"

CliInit == n = 0 /\ dirs = [p \in {"d1", "d2"} |-> ""] /\ bins = {} /\ pc = "shell" /\ at = 0 /\ out = <<>> /\ status = "none"
Start == pc = "shell" /\ n < Len(CmdsOf(c)) /\ n' = n + 1 /\ pc' = CmdsOf(c)[n + 1].op /\ at' = 0 /\ out' = <<>> /\ status' = "none"
         /\ UNCHANGED <<c, dirs, bins>>
Exit(s) == pc' = "shell" /\ status' = s
\* list
List == pc = "list" /\ out' = <<Embedded>> /\ Exit("ok") /\ UNCHANGED <<c, n, dirs, bins, at>>
\* build: afterwards the directory holds the dictionary; after a failure, anything
Build ==
  /\ pc = "build"
  /\ LET v == BuildVerdict(Cmd)
     IN \/ v = "ok" /\ Exit("ok") /\ dirs' = [dirs EXCEPT ![Cmd.dest] = Cmd.src]
        \/ v = "err" /\ Exit("fail") /\ dirs' = [dirs EXCEPT ![Cmd.dest] = "any"]
        \/ v = "any" /\ (Exit("ok") \/ Exit("fail")) /\ dirs' = [dirs EXCEPT ![Cmd.dest] = "any"]
  /\ UNCHANGED <<c, n, bins, at, out>>
BuildUser ==
  /\ pc = "ubuild"
  /\ LET v == BuildVerdict(Cmd)
         rest == {b \in bins : ~(b.at = Cmd.dest /\ b.n = Cmd.src)}
         put(u) == bins' = rest \cup {[at |-> Cmd.dest, n |-> Cmd.src, u |-> u]}
     IN \/ v = "ok" /\ Exit("ok") /\ put(Cmd.src)
        \/ v = "err" /\ Exit("fail") /\ put("any")
        \/ v = "any" /\ (Exit("ok") \/ Exit("fail")) /\ put("any")
  /\ UNCHANGED <<c, n, dirs, at, out>>
\* tokenize: options first
Refuse == pc = "tok" /\ at = 0 /\ Options(Cmd) = "err" /\ Exit("fail") /\ UNCHANGED <<c, n, dirs, bins, at, out>>
Unclear == pc = "tok" /\ at = 0 /\ Options(Cmd) = "any" /\ Exit("any") /\ UNCHANGED <<c, n, dirs, bins, at, out>>
Accept == pc = "tok" /\ at = 0 /\ Options(Cmd) = "ok" /\ at' = 1 /\ UNCHANGED <<c, n, dirs, bins, pc, out, status>>
Broken(l) == Invalid \in Elems(l)
Read ==
  /\ pc = "tok" /\ at \in 1..Len(Cmd.t)
  /\ \E e \in {LineEnd(Cmd.t, at)} : \E l \in {SubSeq(Cmd.t, at, e)} :
       IF Broken(l) THEN Exit("fail") /\ UNCHANGED <<at, out>>
       ELSE \E a \in {Analysis(c, n, <<Dictionary(Cmd), User(Cmd)>>, Trim(l))} :
              IF a.ok THEN out' = Append(out, Chunk(Fmt(Cmd), a.k)) /\ at' = e + 1 /\ UNCHANGED <<pc, status>>
              ELSE Exit("fail") /\ UNCHANGED <<at, out>>
  /\ UNCHANGED <<c, n, dirs, bins>>
Eof == pc = "tok" /\ at > Len(Cmd.t) /\ at > 0 /\ Exit("ok") /\ UNCHANGED <<c, n, dirs, bins, at, out>>
Tok == Refuse \/ Unclear \/ Accept \/ Read \/ Eof
CliNext == Start \/ List \/ Build \/ BuildUser \/ Tok
================================================================================
