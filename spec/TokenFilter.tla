------------------------------- MODULE TokenFilter -------------------------------
(* Token filters, as a machine that passes a sequence of tokens through a chain.    *)
EXTENDS TokenOps

CONSTANTS FiltersOf(_), TokensOf(_), CasedOf(_, _, _)
\* CasedOf(c, i, tokens): the texts case-converted for filter i

VARIABLES c, stage, toks
tfvars == <<c, stage, toks>>
TFInit == stage = 0 /\ toks = TokensOf(c)
Apply ==
  /\ stage < Len(FiltersOf(c))
  /\ toks' = Result(FiltersOf(c)[stage + 1], toks, CasedOf(c, stage + 1, toks))
  /\ stage' = stage + 1
  /\ UNCHANGED c
==================================================================================
