-------------------------------- MODULE Trace_Src --------------------------------
(* Recorded compilations: the machine reads the source of the case line by line (a   *)
(* long one in one go), decides whether it compiles, and every recorded lookup in    *)
(* the loaded dictionary must be what the source means.                              *)
EXTENDS Compile, Json, IOUtils, TLC
CONSTANT PROP
Cases == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")
TType(x) == Cases[x].ty
TKind(x) == Cases[x].kind
TLines(x) == Cases[x].lines
Obs == Cases[c]

VARIABLES fails, done
vars == <<cvars, fails, done>>

PropOf(ty) == CASE ty \in {"words", "bigwords"} -> "D01" [] ty \in {"matrix", "bigmatrix"} -> "D02"
                [] ty = "defs" -> "D03" [] OTHER -> "D04"
Special == Obs.ty \in {"bigwords", "biguser", "bigmatrix", "disp"}

TraceInit ==
  /\ c \in 1..Len(Cases) /\ fails = {} /\ done = FALSE /\ res = "run"
  /\ IF Cases[c].ty \in {"bigwords", "biguser", "bigmatrix", "disp"}
     THEN left = {} /\ acc = <<>>
     ELSE left = 1..Len(Cases[c].lines) /\ acc = Start(Cases[c].ty)

\* ------------------------------------------------------------ what lookups must find
Seen(e, n, sys) == [n |-> n, l |-> e.l, r |-> e.r, c |-> e.c, d |-> e.d, y |-> sys]
SeenAll(es, sys) == [i \in 1..Len(es) |-> Seen(es[i], BLen(es[i].s), sys)]
Plain(o) == [n |-> o.n, l |-> o.l, r |-> o.r, c |-> o.c, d |-> o.d, y |-> o.y]
Plains(os) == [i \in 1..Len(os) |-> Plain(os[i])]
LookupOk(es, o, sys) ==
  /\ "panic" \notin DOMAIN o
  /\ SameBag(Plains(o.pre), SeenAll(Found(es, o.t), sys))
  /\ SameBag(Plains(o.exact), SeenAll(Exactly(es, o.t), sys))
LookupsOk(es, os, sys) == \A i \in 1..Len(os) : LookupOk(es, os[i], sys)

RecOk(r, o) == /\ [n |-> o.n, inv |-> o.inv, grp |-> o.grp, len |-> o.len] = [n |-> r.n, inv |-> r.inv, grp |-> r.grp, len |-> r.len]
               /\ SameBag(o.u, r.u)
DefsOk(a) ==
  /\ \A i \in 1..Len(Obs.obs) :
       LET o == Obs.obs[i] ks == Cats(a, o.c)
       IN "panic" \notin DOMAIN o /\ Len(o.cs) = Len(ks) /\ \A j \in 1..Len(ks) : RecOk(CatRecord(a, ks[j]), o.cs[j])
  /\ Len(Obs.all) = Len(a.ids)
  /\ \A k \in 1..Len(a.ids) : \E r \in {CatRecord(a, k)} : \E j \in 1..Len(Obs.all) : Obs.all[j].n = r.n /\ RecOk(r, Obs.all[j])

\* ------------------------------------------------------------ sources given by a formula
Decimal(t) == t # <<>> /\ (\A i \in 1..Len(t) : t[i] \in 48..57) /\ (Len(t) = 1 \/ t[1] # 48) /\ Len(t) <= 8
DecOf(t) == FoldLeft(LAMBDA a, d : 10 * a + (d - 48), 0, t)
BigRow(t) == LET i == DecOf(t)
             IN [s |-> t, l |-> i % 997, r |-> i % 65536, c |-> (i % 65536) - 32768, d |-> <<<<100>> \o t>> \o Stars(Obs.extra)]
BigFound(t) == LET ks == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA k : Decimal(SubSeq(t, 1, k)) /\ DecOf(SubSeq(t, 1, k)) < Obs.n)
               IN [i \in 1..Len(ks) |-> BigRow(SubSeq(t, 1, ks[i]))]
BigOk(sys) ==
  \A i \in 1..Len(Obs.obs) :
    LET o == Obs.obs[i]
    IN /\ "panic" \notin DOMAIN o
       /\ SameBag(Plains(o.pre), SeenAll(BigFound(o.t), sys))
       /\ SameBag(Plains(o.exact), SeenAll(IF Decimal(o.t) /\ DecOf(o.t) < Obs.n THEN <<BigRow(o.t)>> ELSE <<>>, sys))
BigMatOk == \A i \in 1..Len(Obs.obs) : Obs.obs[i][3] = ((31 * Obs.obs[i][1] + 7 * Obs.obs[i][2]) % 65536) - 32768

\* which user dictionary files can be loaded
DispOk == Obs.res = (IF (Obs.ext = "csv" /\ Obs.has /\ Obs.content = "csv") \/ (Obs.ext = "bin" /\ Obs.content = "bin") THEN "ok" ELSE "err")

\* ------------------------------------------------------------ the trace machine
Batch == Len(Obs.lines) > 40
ReadOne == /\ res = "run" /\ left # {} /\ ~Batch /\ ~Special
           /\ Read(SetMin(left)) /\ UNCHANGED <<fails, done>>
ReadAll == /\ res = "run" /\ left # {} /\ Batch /\ ~Special
           /\ acc' = FoldLeft(LAMBDA a, l : TLCEval(Step(Obs.ty, Obs.kind, a, l)), acc, Obs.lines)
           /\ left' = {} /\ UNCHANGED <<c, res, fails, done>>
Decide == res = "run" /\ left = {} /\ ~Special /\ Close /\ UNCHANGED <<fails, done>>

ResOk(want, got) == IF want = "any" THEN got \in {"ok", "err"} ELSE got = want
Judged ==
  CASE Obs.ty = "bigwords" -> Obs.res = "ok" /\ BigOk(TRUE)
    [] Obs.ty = "biguser" -> Obs.res = "ok" /\ BigOk(FALSE)
    [] Obs.ty = "bigmatrix" -> Obs.res = "ok" /\ BigMatOk
    [] Obs.ty = "disp" -> DispOk
    [] OTHER ->
         /\ ResOk(res, Obs.res)
         /\ (Obs.res = "ok" /\ res # "err") =>
              CASE Obs.ty = "words" -> LookupsOk(acc.es, Obs.obs, TRUE)
                [] Obs.ty = "user" -> LookupsOk(acc.es, Obs.obs, FALSE)
                [] Obs.ty = "matrix" -> \A i \in 1..Len(Obs.obs) : Obs.obs[i][3] \in CellCosts(acc, Obs.obs[i][1], Obs.obs[i][2])
                [] Obs.ty = "defs" -> DefsOk(acc)
         /\ Obs.ty = "user" => /\ ResOk(res, Obs.bres)
                               /\ (Obs.bres = "ok" /\ res # "err") => LookupsOk(acc.es, Obs.bobs, FALSE)
Judge == /\ ~done /\ (res # "run" \/ Special)
         /\ fails' = IF Judged THEN {} ELSE {PropOf(Obs.ty)}
         /\ done' = TRUE /\ UNCHANGED cvars

TraceNext == ReadOne \/ ReadAll \/ Decide \/ Judge \/ (done /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == done => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, c>>) /\ FALSE))
==================================================================================
