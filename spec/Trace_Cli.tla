------------------------------- MODULE Trace_Cli -------------------------------
(* Recorded histories of commands: exit status and standard output of each, with     *)
(* what the library returns for the lines that were fed to tokenize.                  *)
EXTENDS Cli, Json, IOUtils, TLC
CONSTANT PROP
Cases == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")
TCmds(x) == Cases[x].cmds
TAnalysis(x, k, d, t) ==
  LET as == Cases[x].cmds[k].an
      a == as[CHOOSE i \in 1..Len(as) : as[i].s = d[1] /\ as[i].u = d[2]].l
  IN a[CHOOSE i \in 1..Len(a) : a[i].t = t]

VARIABLES judged, fails
vars == <<climv, judged, fails>>
TraceInit == c \in 1..Len(Cases) /\ CliInit /\ judged = 0 /\ fails = {}
Seen == IF Cmd.r = "ok" THEN "ok" ELSE "fail"
Flat == IF Fmt(Cmd) = "json" THEN out ELSE Concat(out)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Ok ==
  CASE Cmd.op = "list" -> Cmd.r = "ok" /\ Elems(Cmd.o) = out[1]
    [] Cmd.op \in {"build", "ubuild"} -> Cmd.r = status
    [] Cmd.op = "tok" ->
         (CASE status = "any" -> Cmd.r \in {"ok", "fail"}
            [] status = "ok" -> Cmd.r = "ok" /\ Cmd.o = Flat
            [] status = "fail" -> Cmd.r = "fail" /\ Prefix(Cmd.o, Flat))
Done == judged = Len(TCmds(c))
TraceNext ==
  \/ judged = n /\ Start /\ UNCHANGED <<judged, fails>>
  \/ pc # "shell" /\ (List \/ Tok \/ ((Build \/ BuildUser) /\ (BuildVerdict(Cmd) = "any" => status' = Seen))) /\ UNCHANGED <<judged, fails>>
  \/ pc = "shell" /\ judged < n /\ judged' = n /\ fails' = (IF Ok THEN fails ELSE {"P03"}) /\ UNCHANGED climv
  \/ Done /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == Done => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, c>>) /\ FALSE))
=================================================================================
