------------------------------- MODULE Trace_Config -------------------------------
(* Recorded attempts to load configurations: whether they succeed, and what is there  *)
(* afterwards.  Analyzers are followed item by item through the machine of Config.    *)
EXTENDS Config, Json, IOUtils
CONSTANT PROP
Cases == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")
Obs == Cases[cfg]
TConfigOf(x) == IF Cases[x].t = "analyzer" THEN Cases[x].v ELSE None

Agrees(r, verdict) == IF verdict = "any" THEN r \in {"ok", "err"} ELSE r = verdict
\* ways to load a filter that agree with its meaning
FilterOk(o, w) ==
  LET vd == FilterVerdict(o.fam, o.kind, o.v)
      f == Interpret(o.kind, o.v)
  IN /\ Agrees(w.r, vd)
     /\ w.r = "ok" => w.name = o.kind
     /\ (w.r = "ok" /\ vd = "ok" /\ (o.v.j = "obj" \/ o.kind \in NoArgs)) =>
          ((~HasMeaning(o.kind, o.v)) \/
           (w.pr = "ok" /\
            IF o.fam = "char" THEN w.o = [i \in 1..Len(o.texts) |-> OutText(Pieces(f, o.texts[i].t, o.nd, o.np, o.texts[i].g))]
            ELSE Permitted(f, o.ks, o.us, w.o)))
\* w: as given, or what was read serialized (to JSON, to a sequence) and read back
TokOk(o, w) == /\ Agrees(w.r, TokenizerVerdict(o.v, Embedded))
               /\ w.r = "ok" /\ TokenizerVerdict(o.v, Embedded) = "ok" => w.l = TokenizerMeaning(o.v)
NameOk(o) ==
  /\ o.mode.r = If(o.s \in {"normal", "decompose"})
  /\ o.mode.r = "ok" => o.mode.m = IF o.s = "decompose" THEN DefaultPenalty ELSE <<>>
  /\ o.kind.r = If(o.s \in Kinds) /\ (o.kind.r = "ok" => o.kind.s = o.s)

\* way: the ways to load the analyzer of the case, one after the other
VARIABLES fails, way, done
vars == <<loadvars, fails, way, done>>
TraceInit == cfg \in 1..Len(Cases) /\ LoadInit /\ fails = {} /\ way = 1 /\ done = FALSE

Judge ==
  /\ ~done /\ Obs.t # "analyzer" /\ done' = TRUE
  /\ fails' = IF CASE Obs.t = "filter" -> \A i \in 1..Len(Obs.rt) : FilterOk(Obs, Obs.rt[i])
                   [] Obs.t = "malformed" -> \A i \in 1..Len(Obs.rt) : Obs.rt[i].r = "err"
                   [] Obs.t = "tokenizer" -> \A i \in 1..Len(Obs.rt) : TokOk(Obs, Obs.rt[i])
                   [] Obs.t = "name" -> NameOk(Obs)
              THEN {} ELSE {"P02"}
  /\ UNCHANGED <<loadvars, way>>

W == Obs.rt[way]
It == Items(ConfigOf(cfg))[at]
\* where nothing is promised, the machine does what the code did
Load ==
  /\ ~done /\ Obs.t = "analyzer" /\ status = "loading"
  /\ \/ Accept /\ (W.r = "ok" \/ ItemVerdict(It, Embedded) = "ok")
     \/ Refuse /\ (W.r # "ok" \/ ItemVerdict(It, Embedded) = "err")
     \/ Ready
  /\ UNCHANGED <<fails, way, done>>
Loaded ==
  /\ ~done /\ Obs.t = "analyzer" /\ status # "loading"
  /\ LET ok == IF status = "failed" THEN W.r = "err"
               ELSE /\ W.r = "ok" /\ W.built = built
                    /\ TokenizerVerdict(Get(Obs.v, "tokenizer"), Embedded) = "ok" => W.l = TokenizerMeaning(Get(Obs.v, "tokenizer"))
     IN fails' = IF ok THEN fails ELSE {"P02"}
  /\ IF way < Len(Obs.rt)
     THEN way' = way + 1 /\ at' = 1 /\ built' = <<>> /\ status' = (IF ConfigOf(cfg) = None THEN "failed" ELSE "loading") /\ UNCHANGED <<cfg, done>>
     ELSE done' = TRUE /\ UNCHANGED <<loadvars, way>>

TraceNext == Judge \/ Load \/ Loaded \/ (done /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == done => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, cfg>>) /\ FALSE))
===================================================================================
