---------------------------------- MODULE Config ----------------------------------
(* The machine that loads the configuration of an analyzer, item by item.            *)
EXTENDS ConfigOps

CONSTANTS ConfigOf(_), Embedded
VARIABLES cfg, at, built, status
loadvars == <<cfg, at, built, status>>
\* JSON that does not parse is None
LoadInit == at = 1 /\ built = <<>> /\ status = IF ConfigOf(cfg) = None THEN "failed" ELSE "loading"
NameOf(it) == IF it.what = "filter" THEN it.fam \o ":" \o it.kind ELSE it.what
Accept ==
  /\ status = "loading" /\ at <= Len(Items(ConfigOf(cfg)))
  /\ ItemVerdict(Items(ConfigOf(cfg))[at], Embedded) # "err"
  /\ built' = Append(built, NameOf(Items(ConfigOf(cfg))[at]))
  /\ at' = at + 1 /\ UNCHANGED <<cfg, status>>
Refuse ==
  /\ status = "loading" /\ at <= Len(Items(ConfigOf(cfg)))
  /\ ItemVerdict(Items(ConfigOf(cfg))[at], Embedded) # "ok"
  /\ status' = "failed" /\ UNCHANGED <<cfg, at, built>>
Ready ==
  /\ status = "loading" /\ at > Len(Items(ConfigOf(cfg)))
  /\ status' = "ready" /\ UNCHANGED <<cfg, at, built>>
LoadNext == Accept \/ Refuse \/ Ready
====================================================================================
