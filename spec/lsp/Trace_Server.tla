----------------------------- MODULE Trace_Server -----------------------------
(* Recorded conversations of a client with the server. `bursts` are messages that    *)
(* were sent without waiting in between; PART says which aspect is looked at.        *)
EXTENDS Server, Ranges, Json, IOUtils
VARIABLES ep, burst, st
Eps == ndJsonDeserialize(IOEnv.TRACE)
Table == JsonDeserialize(IOEnv.TABLES)
Tomls == Table.tomls
Uris == Table.uris
Looks(part) == IOEnv.PART = part
E == Eps[ep]
B == E.bursts[burst]

Set(seq) == {seq[n] : n \in 1..Len(seq)}
DocSections == {"editor.insertSpaces", "editor.indentSize", "editor.tabSize"}
AirSections == {"air.logLevel", "air.dependencyLogLevels", "air.syncFileSettingsWithClient"}
Sections == DocSections \union AirSections \union {"positron.r.diagnostics.enable"}
Can(i) == i.workspace /\ i.configuration = 2

-----------------------------------------------------------------------------
(* The start. *)
Disk0(e) ==
    LET dirs == {e.disk[n].dir : n \in 1..Len(e.disk)}
        InIt(d, hidden) == {n \in 1..Len(e.disk) : e.disk[n].dir = d /\ e.disk[n].hidden = hidden}
        One(d, hidden) == IF InIt(d, hidden) = {} THEN 0 ELSE e.disk[CHOOSE n \in InIt(d, hidden) : TRUE].toml
    IN [d \in dirs |-> <<One(d, FALSE), One(d, TRUE)>>]
State0(e) == [s |-> OpenedAll(Fresh0, Disk0(e), Tomls, e.init.folders), disk |-> Disk0(e), pulls |-> <<>>, syncs |-> <<>>, ok |-> TRUE]
Enc(e) == IF "utf-8" \in Set(e.init.encodings) THEN "utf8" ELSE "utf16"
Started(i, r) ==
    /\ r.encoding = (IF "utf-8" \in Set(i.encodings) THEN "utf-8" ELSE "utf-16")
    /\ r.sync = 2 /\ r.folders /\ r.formatting /\ r.range
    /\ Set(r.sections) = (IF i.workspace /\ i.regconf = 3 THEN Sections ELSE {})
    /\ Cardinality(Set(r.sections)) = Len(r.sections)
    /\ Set(r.watched) = (IF i.workspace /\ i.regwatch = 3 THEN {"**/air.toml", "**/.air.toml"} ELSE {})
    /\ Cardinality(Set(r.watched)) = Len(r.watched)
    /\ r.odd = 0 /\ r.ids

-----------------------------------------------------------------------------
(* Messages. *)
Sync(t, uris, must) ==
    IF t.s.syncing THEN [t EXCEPT !.syncs = Append(@, [files |-> Backward(t.s, uris, Uris, Tomls), must |-> must])] ELSE t
Succeeds(reply) == reply.mode = "ok"
Pull(t, uris, reply, can) ==
    IF ~can THEN t
    ELSE LET asked == [t EXCEPT !.pulls = Append(@, uris)]
             got == [asked EXCEPT !.s.syncing = (reply.sync = "true")]
         IN IF ~Succeeds(reply) THEN asked
            ELSE IF ~t.s.syncing /\ got.s.syncing THEN Sync(got, Known(t.s), TRUE) ELSE got
Rediscovered(t, paths) ==
    \E n \in 1..Len(paths) : IsToml(paths[n]) /\
        \E f \in Matched(t.s, paths[n]) : LET d == Discovered(t.disk, f.dir) IN d # 0 /\ ~Tomls[d].broken
Doc(e) ==
    IF "program" \in DOMAIN e THEN [text |-> e.text, ends |-> Endings(e.text), program |-> e.program]
    ELSE [text |-> e.text, ends |-> Endings(e.text)]
Put(docs, k, d) == [x \in DOMAIN docs \union {k} |-> IF x = k THEN d ELSE docs[x]]
Without(docs, k) == [x \in DOMAIN docs \ {k} |-> docs[x]]

After(o, e, enc, t) == IF o.kind = "edits" THEN Edited(t, enc, o.edits) ELSE t
FormatOk(t, e, o, enc) ==
    LET old == t.s.docs[e.uri]
        u == Uris[e.uri]
        new == After(o, e, enc, old.text)
        want == Formatted(t.s, e.uri, u, Tomls, e.outs, e.broken)
    IN /\ o.kind \in {"edits", "null"}
       /\ (o.kind = "edits" /\ (Looks("text") \/ Looks("settings") \/ Looks("range")) => Legal(old.text, enc, o.edits))
       /\ (Looks("settings") => Normalize(new) = want)
       /\ (Looks("text") \/ Looks("range") => Normalize(new) = want /\ EndsWell(old, new))
Slice(outs, list, which, key) ==
    (CHOOSE x \in Set(outs) : x.list = list.id /\ x.from = which[1] /\ x.to = which[2] /\ x.key = key).text
RangeOk(t, e, o, enc) ==
    LET old == t.s.docs[e.uri]
        u == Uris[e.uri]
        text == Normalize(old.text)
        c == Configured(t.s, u)
        list == Innermost(old.program, e.a, e.b)
        which == Touched(list, e.a, e.b)
        spaces == IF c = 0 THEN e.spaces ELSE Tomls[c].format.indent_style = "space"
        width == IF c # 0 THEN Tomls[c].format.indent_width ELSE IF e.tab \in 1..24 THEN e.tab ELSE 2
        want == IF which = <<1, 0>> \/ Excluded(t.s, u, Tomls) \/ Skipped(old.program, list, which) THEN text
                ELSE Reformatted(text, list, which, Slice(e.outs, list, which, c), spaces, width)
    IN /\ o.kind \in {"edits", "null"}
       /\ (o.kind = "edits" => Legal(old.text, enc, o.edits))
       /\ LET new == After(o, e, enc, old.text) IN Normalize(new) = want /\ EndsWell(old, new)
OutOk(t, e, o, enc) ==
    CASE e.op = "format" -> IF e.uri \in Known(t.s) THEN FormatOk(t, e, o, enc) ELSE o.kind = "error"
      [] e.op = "range" -> IF e.uri \in Known(t.s) THEN RangeOk(t, e, o, enc) ELSE o.kind = "error"
      [] e.op = "view" -> o.kind = (IF e.uri \in Known(t.s) THEN "text" ELSE "error")
      [] e.op = "unknown" -> o.kind = "error"
      [] OTHER -> o.kind = "none"
Does(t, e, reply, can, enc) ==
    CASE e.op = "disk" ->
             [t EXCEPT !.disk = [d \in DOMAIN @ \union {e.dir} |->
                 IF d # e.dir THEN @[d]
                 ELSE LET was == IF d \in DOMAIN @ THEN @[d] ELSE <<0, 0>> IN
                      IF e.hidden THEN <<was[1], e.toml>> ELSE <<e.toml, was[2]>>]]
      [] e.op = "folders" -> [t EXCEPT !.s = ClosedAll(OpenedAll(@, t.disk, Tomls, e.added), e.removed)]
      [] e.op = "watched" ->
             LET told == [t EXCEPT !.s = ToldAll(@, t.disk, Tomls, e.paths)] IN
             Sync(told, Known(t.s), Rediscovered(t, e.paths))
      [] e.op = "open" ->
             LET opened == [t EXCEPT !.s.docs = Put(@, e.uri, Doc(e))]
                 pulled == Pull(opened, {e.uri}, reply, can)
             IN IF can /\ ~Succeeds(reply) THEN pulled ELSE Sync(pulled, {e.uri}, TRUE)
      [] e.op = "change" ->
             IF e.uri \in Known(t.s) THEN [t EXCEPT !.s.docs[e.uri].text = Changes(@, enc, e.changes)] ELSE t
      [] e.op = "close" -> [t EXCEPT !.s.docs = Without(@, e.uri)]
      [] e.op = "config" -> Pull(t, Known(t.s), reply, can)
      [] OTHER -> t
RECURSIVE All(_, _, _, _)
All(t, b, n, i) ==
    IF n > Len(b.events) THEN t
    ELSE LET e == b.events[n]
             well == OutOk(t, e, b.outs[n], Enc(i))
             next == Does(t, e, b.reply, Can(i.init), Enc(i))
         IN IF ~well THEN [t EXCEPT !.ok = FALSE] ELSE All(next, b, n + 1, i)

\* What came of the configuration: it was asked for, and told, in this order.
Required(uris) == {<<0, x>> : x \in AirSections} \union {<<u, x>> : u \in uris, x \in DocSections}
PullsOk(want, got) ==
    /\ Len(want) = Len(got)
    /\ \A n \in 1..Len(want) :
           /\ Required(want[n]) \subseteq {<<x.uri, x.section>> : x \in Set(got[n].items)}
           /\ \A x \in Set(got[n].items) : x.uri # 0 => x.uri \in want[n]
RECURSIVE SyncsOk(_, _)
SyncsOk(want, got) ==
    IF want = <<>> THEN got = <<>>
    ELSE \/ got # <<>> /\ Set(got[1]) = want[1].files /\ Len(got[1]) = Cardinality(want[1].files) /\ SyncsOk(Tail(want), Tail(got))
         \/ ~want[1].must /\ SyncsOk(Tail(want), got)

Done(b) == All([st EXCEPT !.pulls = <<>>, !.syncs = <<>>], b, 1, E)
BurstOk(t, b) ==
    /\ t.ok
    /\ b.alive
    /\ (Looks("order") => b.stray = 0 /\ b.other = <<>>)
    /\ (Looks("sync") => PullsOk(t.pulls, b.pulls) /\ SyncsOk(t.syncs, b.syncs))

TInit == ep = 1 /\ burst = 0 /\ st = State0(Eps[1])
Bad(what) == PrintT(<<"BAD", ToJson([ep |-> ep, burst |-> burst, what |-> what])>>)
NextEp == ep' = ep + 1 /\ burst' = 0 /\ st' = IF ep < Len(Eps) THEN State0(Eps[ep + 1]) ELSE st
TNext ==
    /\ ep <= Len(Eps)
    /\ IF burst = 0
       THEN IF E.started.alive /\ (Looks("start") => Started(E.init, E.started))
            THEN burst' = 1 /\ UNCHANGED <<ep, st>>
            ELSE Bad("start") /\ NextEp
       ELSE IF burst > Len(E.bursts)
       THEN (IF Looks("start") /\ ~(E.ended.answered /\ E.ended.over) THEN Bad("end") ELSE TRUE) /\ NextEp
       ELSE LET t == Done(B) IN
            IF BurstOk(t, B) THEN burst' = burst + 1 /\ st' = t /\ UNCHANGED ep
            ELSE Bad("burst") /\ NextEp
TSpec == TInit /\ [][TNext]_<<ep, burst, st>>
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
