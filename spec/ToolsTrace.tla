----------------------------- MODULE ToolsTrace -----------------------------
(* Runs of the real tools.  An event is one run: its arguments, its exit status *)
(* as a result, its output read back into values, and what changed on disk.     *)
(* A run in which an operation of the file system was made to fail may end with *)
(* an error; what it then leaves of the column it was making is open, of every  *)
(* other column it is not.                                                      *)
EXTENDS BigFileTrace, Tools

toolvars == <<disk, hnd, reply, l, weak, dmg>>

Failed == Has("fired") /\ e.fired /\ e.res = "err"     \* the failure was placed in this run, and reported
Open2(b) == b \in weak.meta \cup weak.all             \* nothing is known about it
WeakAdd(B) == weak' = [meta |-> weak.meta \cup B, all |-> weak.all \cup B]
WeakDel(B) == weak' = [meta |-> weak.meta \ B, all |-> weak.all \ B]
Same2 == UNCHANGED <<disk, hnd>>
Result(r) == reply' = [res |-> r] /\ Check("res", e.res = r, <<e.op, "returned", e.res, "want", r>>)
Ran == e.res \in {"ok", "err"}
AnyResult == reply' = [res |-> e.res] /\ Check("res", Ran, <<e.op, "returned", e.res>>)
Undamaged(B) == dmg' = [ b \in DOMAIN dmg \ B |-> dmg[b] ]
Tool(op) == IsEvent(op) /\ UNCHANGED hnd

Below(B, S) == { z \in S : \E b \in B : z = b \/ Inside(b, z) }
\* a column that went away: its directory is seen without a header
GoneShown == \A b \in DOMAIN disk \ DOMAIN disk' :
                IsMeta(b) \/ Open2(b) \/ Check("res", (b \o <<0>>) \in Mentioned \/ b \in Mentioned, <<"still there", b>>)
Empty(g) == "bad" \notin DOMAIN g /\ IsMeta(g.b) /\ g.attrs = <<>>
ToolMatches ==
    /\ GoneShown
    /\ \A i \in 1..Len(e.chg) :
         LET g == e.chg[i] IN
         IF Lost(g.b) \/ (IsMeta(g.b) /\ g.b \notin DOMAIN disk' /\ (Empty(g) \/ Lost(SubSeq(g.b, 1, Len(g.b) - 1)))) THEN TRUE
         ELSE IF "bad" \in DOMAIN g /\ g.b \in weak'.meta THEN TRUE
         ELSE IF "bad" \in DOMAIN g THEN Check("res", FALSE, <<"unreadable or stray files", g>>)
         ELSE IF g.b \in DOMAIN disk' THEN SameCol(g, disk'[g.b], g.b)
         ELSE Check("res", Meta(g.b), <<"unexpected column", g.b>>)
    /\ \A b \in DOMAIN disk' : b \in Mentioned \/ Lost(b) \/
         IF b \in DOMAIN disk THEN StillSame(b)
         ELSE Check("res", EmptyAttrMeta(b), <<"column missing on disk", b>>)

\* --- a tool that makes column dst from column src (or from nothing: <<>>) ------------
MakeFrom(src, dst, allowed, success(_)) ==
    IF src # <<>> /\ Open2(src)
    THEN /\ IF src # dst /\ Damage(src).lost /\ Ran THEN Result("err") ELSE AnyResult
         /\ Same2 /\ Undamaged({dst} \ {src}) /\ WeakAdd({dst})
    ELSE IF ~allowed THEN Result("err") /\ Same2 /\ UNCHANGED <<weak, dmg>>
    ELSE IF Failed \/ (src # <<>> /\ ~Readable(At(src)))
    THEN Result("err") /\ Same2 /\ WeakAdd({dst}) /\ Undamaged({dst})
    ELSE Result("ok") /\ success(0) /\ UNCHANGED hnd /\ WeakDel({dst}) /\ Undamaged({dst})

TCopy ==
         /\ Tool("tcopy")
         /\ LET n == IF Has("nfile") THEN e.nfile ELSE -1
                success(z) == \E m \in FilesFor(At(e.b), n) : (m > 0 \/ Size(At(e.b)) = 0) /\ Copied(e.b, e.d, n, m)
            IN  MakeFrom(e.b, e.d, CopyAllowed(e.b, e.d, n), success)
         /\ ToolMatches

\* the column made is looked at on disk: it must be a sample
Made(b) == LET S == { i \in 1..Len(e.chg) : e.chg[i].b = b } IN
           IF S = {} THEN <<>> ELSE LET g == e.chg[CHOOSE i \in S : TRUE] IN
           IF "bad" \in DOMAIN g THEN <<>> ELSE FoldLeft(LAMBDA acc, f : acc \o f, <<>>, g.data)
TSample ==
           /\ Tool("tsample")
           /\ LET n == IF Has("nfile") THEN e.nfile ELSE -1
                  r == RowsOf(disk[e.b])
                  g == IF ~Exists(e.d) \/ \E i \in 1..Len(e.chg) : e.chg[i].b = e.d THEN Made(e.d) ELSE RowsOf(disk[e.d])
                  pl == Places(g, r, RowEq)
                  success(z) ==
                      /\ Check("data", Len(pl) = Len(g), <<"not a sample in order", g, "of", r>>)
                      /\ e.whole => Check("data", Len(g) = Len(r), <<"not all rows", g, "of", r>>)
                      /\ e.none => Check("data", Len(g) = 0, <<"rows", g>>)
                      /\ \E m \in FilesFor(disk[e.b], n) : (m > 0 \/ Size(disk[e.b]) = 0) /\ Sampled(e.b, e.d, n, m, pl)
              IN  MakeFrom(e.b, e.d, Exists(e.b) /\ CopyAllowed(e.b, e.d, n), success)
           /\ ToolMatches
\* two columns made in the same way hold the same
TSame ==
         /\ Tool("same") /\ Same2 /\ UNCHANGED <<weak, dmg, reply>>
         /\ \/ ~e.both \/ Open2(e.b) \/ Open2(e.d) \/ ~Exists(e.b) \/ ~Exists(e.d)
            \/ Check("data", disk[e.b].data = disk[e.d].data /\ disk[e.b].fsize = disk[e.d].fsize, <<"differ", disk[e.b], disk[e.d]>>)

TMake ==
         /\ Tool("tcreate")
         /\ LET c == [EmptyMeta EXCEPT !.dtype = e.dtype, !.nmemb = e.nmemb]
                success(z) == disk' = SetKey(disk, e.b, Holding(c, e.rows, <<Len(e.rows)>>))
            IN  MakeFrom(<<>>, e.b, Known(e.dtype) /\ e.nmemb > 0, success)
         /\ ToolMatches

\* --- moving ---------------------------------------------------------------------
Name(b, k) == [b EXCEPT ![Len(b)] = @ + k]
Bak(b) == Name(b, 500)
TRename ==
           /\ Tool("trename")
           /\ LET B == Below({e.b}, DOMAIN dmg) IN
              IF Under(e.b) # {} /\ ~e.there /\ e.room
              THEN /\ Result("ok") /\ disk' = Moved(e.b, e.d) /\ UNCHANGED dmg
                   /\ weak' = weak /\ Check("res", Below({e.b}, Doubt) = {}, "not generated")
              ELSE IF Under(e.b) = {} /\ e.was THEN AnyResult /\ Same2 /\ UNCHANGED <<weak, dmg>>  \* a directory that holds nothing
              ELSE Result("err") /\ Same2 /\ UNCHANGED <<weak, dmg>>
           /\ ToolMatches
TRm ==
       /\ Tool("trm")
       /\ LET S == { e.bs[i] : i \in 1..Len(e.bs) }
              U(B) == Below(B, DOMAIN disk)
              there == { b \in S : Below({b}, DOMAIN disk \cup Doubt) # {} }
          IN  IF S = there /\ (e.dirs \/ \A b \in S : U({b}) # {}) THEN /\ Result("ok") /\ disk' = Without(U(S)) /\ UNCHANGED hnd
                                /\ WeakDel(Below(S, Doubt)) /\ Undamaged(Below(S, DOMAIN dmg))
              ELSE IF e.dirs THEN AnyResult /\ disk' = Without(U(S)) /\ UNCHANGED hnd /\ WeakDel(Below(S, Doubt)) /\ Undamaged(Below(S, DOMAIN dmg))
              ELSE \E R \in SUBSET S : Result("err") /\ disk' = Without(U(R)) /\ UNCHANGED hnd
                                /\ WeakDel(Below(R, Doubt)) /\ Undamaged(Below(R, DOMAIN dmg))
       /\ ToolMatches

\* --- repartitioning ---------------------------------------------------------------
\* a column that could not be repartitioned is still there whole, under its own name or under that of its
\* backup (a failure may leave an unfinished copy beside it)
TRepart ==
           /\ Tool("trepart")
           /\ LET S == IF e.bs # <<>> THEN { e.bs[i] : i \in 1..Len(e.bs) } ELSE Everything(e.p)
                  baks(b) == Under(Bak(b))
                  busy == { b \in S : \E z \in baks(b) : ~Open2(z) }
                  bad == { b \in S \ busy : ~Open2(b) /\ ~RepartAllowed(b, e.nfile) }
                  doubt == { b \in S \ (busy \cup bad) : Open2(b) \/ Open2(Bak(b)) \/ baks(b) # {} }
                  maybe == { b \in doubt : ~Open2(b) }       \* unless there is a backup already
                  good == S \ (busy \cup doubt \cup bad)
                  gone == { b \in doubt : Damage(b).lost }
                  OneWay(G) ==          \* G: those that got their new files
                      LET moved == { b \in (good \cup maybe \cup bad) \ G : Exists(b) }
                          ms == [ b \in G |-> IF e.nfile = -1 \/ Len(disk[b].fsize) = 0 THEN Len(disk[b].fsize) ELSE e.nfile ]
                          d1 == [ y \in DOMAIN disk |-> IF y \in G THEN CopyTo(disk[y], ms[y]) ELSE disk[y] ]
                      IN  \E M \in (IF e.res = "ok" THEN {{}} ELSE SUBSET moved) :      \* left under the name of the backup
                          /\ disk' = [ y \in DOMAIN disk \cup { Bak(b) : b \in M } |->
                                          IF \E b \in M : y = Bak(b) THEN disk[CHOOSE b \in M : y = Bak(b)] ELSE d1[y] ]
                          /\ weak' = [meta |-> weak.meta \cup M \cup (doubt \ G) \cup { Bak(b) : b \in doubt \ G },
                                      all |-> weak.all \cup M \cup (doubt \ G) \cup { Bak(b) : b \in doubt \ G }]
              IN  /\ UNCHANGED hnd
                  /\ Undamaged(doubt)
                  /\ IF Failed THEN Result("err") /\ \E G \in SUBSET (good \cup maybe) : OneWay(G)
                     ELSE /\ IF busy \cup bad \cup gone # {} THEN Result("err") ELSE IF doubt # {} THEN AnyResult ELSE Result("ok")
                          /\ \E G \in SUBSET maybe : (e.res = "ok" => G = maybe) /\ OneWay(good \cup G)
           /\ ToolMatches

\* --- looking ----------------------------------------------------------------------
Doubtful(B) == \E b \in B : Open2(b)
LineOf(b) == LET c == disk[b] IN [b |-> b, dtype |-> c.dtype, nmemb |-> c.nmemb, size |-> Size(c), sysv |-> Recorded(c), nfile |-> Len(c.fsize), path |-> <<>>]
LineEq(g, w) == /\ g.dtype = w.dtype /\ g.nmemb = w.nmemb /\ g.size = w.size /\ g.nfile = w.nfile /\ g.path = w.path
                /\ w.sysv = Unknown \/ g.sysv = w.sysv
TLs ==
       /\ Tool("tls") /\ Same2 /\ UNCHANGED <<weak, dmg>>
       /\ LET want == IF e.b = <<>> THEN Everything(e.p) ELSE {e.b} \cap DOMAIN disk
              sure == { b \in want : ~Open2(b) }
              got == { e.out[i].b : i \in 1..Len(e.out) }
              full == Has("full") /\ e.full
          IN  IF ~e.there \/ (full /\ want # {}) THEN Result("err")
              ELSE IF e.b # <<>> /\ ~Exists(e.b) /\ ~Open2(e.b) /\ ~IsMeta(e.b) THEN Result("err")
              ELSE /\ IF Failed \/ Below({e.p}, Doubt) # {} THEN AnyResult ELSE Result("ok")
                   /\ full \/ Failed \/
                      /\ Check("list", Len(e.out) = Cardinality(got) /\ NotDoubted(got) = NotDoubted(sure), <<e.out, "want", sure>>)
                      /\ e.long => \A i \in 1..Len(e.out) : e.out[i].b \notin sure \/
                             Check("list", LineEq(e.out[i], LineOf(e.out[i].b)), <<e.out[i], "want", LineOf(e.out[i].b)>>)
       /\ ToolMatches
TCat ==
        /\ Tool("tcat") /\ Same2 /\ UNCHANGED <<weak, dmg>>
        /\ IF Open2(e.b) THEN (IF Damage(e.b).lost /\ e.off = 0 /\ e.cnt = -1 THEN Result("err") ELSE AnyResult)
           ELSE IF ~Exists(e.b) THEN Result("err")
           ELSE LET c == disk[e.b]
                    r == RowRange(c, e.off, e.cnt)
                    fine == c.nmemb = 0 \/ Covers(c.data, c.fsize, r.lo, r.n)
                IN  IF ~fine \/ Failed \/ (Has("full") /\ e.full /\ r.n > 0 /\ c.nmemb > 0) THEN Result("err")
                    ELSE /\ Result("ok")
                         /\ \/ Has("full") /\ e.full
                            \/ Check("data", RowsEq(e.rows, IF c.nmemb = 0 THEN <<>> ELSE GetRows(c.data, c.fsize, r.lo, r.n)),
                                     <<e.rows, "want rows", r, "of", c.data>>)
        /\ ToolMatches

Printed == {"i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16", "b1", "S1"}
KindWidth(d) == DTypes[d].kw[1] \o DTypes[d].kw[2]
AttrLine(g, v) == /\ g[2] = v.dt /\ g[3] = v.n
                  /\ KindWidth(v.dt) \notin Printed \/ g[4] = v.raw
TPrintAttr ==
    /\ Tool("tgetattr") /\ Same2 /\ UNCHANGED <<weak, dmg>>
    /\ IF Open2(e.b) THEN AnyResult
       ELSE IF ~Exists(e.b) /\ ~IsMeta(e.b) THEN Result("err")
       ELSE LET a == At(e.b).attrs
                want == IF e.names = <<>> THEN DOMAIN a ELSE { e.names[i] : i \in 1..Len(e.names) }
                got == { e.out[i][1] : i \in 1..Len(e.out) }
                full == Has("full") /\ e.full
            IN  IF (want \ DOMAIN a) # {} \/ Failed \/ (full /\ want # {}) THEN Result("err")
                ELSE /\ Result("ok")
                     /\ full \/ Check("attrs", got = want /\ Len(e.out) = Cardinality(got)
                                       /\ \A i \in 1..Len(e.out) : AttrLine(e.out[i], a[e.out[i][1]]),
                                  <<e.out, "want", [ k \in want |-> a[k] ]>>)
    /\ ToolMatches
Text(s) == s \o <<0>>
TChangeAttr ==
    /\ Tool("tsetattr") /\ UNCHANGED dmg
    /\ LET c == At(e.b)
           dt == IF Has("dt") THEN e.dt ELSE ""
           n == IF Has("n") THEN e.n ELSE 0
           given == IF e.kind = "S" THEN Len(e.str) + 1 ELSE IF Has("bad") THEN Len(e.bad) ELSE Len(e.vals)
           d == SetType(c, e.name, dt, e.force)
           raw == IF e.kind = "S" THEN Text(e.str) ELSE EncodeSeq(d, e.vals)
       IN  IF Open2(e.b) THEN AnyResult /\ Same2 /\ UNCHANGED weak
           ELSE IF SetAllowed(e.b, e.name, dt, n, e.force, given) /\ ~Has("bad") /\ ~e.badname
           THEN IF Failed THEN Result("err") /\ Same2 /\ weak' = [weak EXCEPT !.meta = @ \cup {e.b}]
                ELSE Result("ok") /\ AttrSet(e.b, e.name, [dt |-> d, n |-> given, raw |-> raw]) /\ UNCHANGED weak
           ELSE Result("err") /\ Same2 /\ UNCHANGED weak
    /\ ToolMatches

\* --- checking ---------------------------------------------------------------------
TCheck ==
          /\ Tool("tcheck") /\ Same2 /\ UNCHANGED <<weak, dmg>>
          /\ LET S == IF e.bs # <<>> THEN { e.bs[i] : i \in 1..Len(e.bs) } ELSE Everything(e.p)
                 V(b) == IF ~Exists(b) THEN (IF Open2(b) THEN "open" ELSE "bad")
                         ELSE IF b \in weak.meta /\ b \notin DOMAIN dmg THEN "open" ELSE Verdict(b)
                 bad == { b \in S : V(b) = "bad" }
                 named == { e.named[i] : i \in 1..Len(e.named) }
             IN  /\ IF bad # {} \/ ~e.there THEN Result("err")
                    ELSE IF \A b \in S : V(b) = "ok" THEN Result("ok") ELSE AnyResult
                 /\ Check("list", bad \subseteq named /\ \A b \in named : b \in bad \/ b \notin S \/ V(b) = "open", <<"complained about", named, "want", bad>>)
          /\ ToolMatches
\* somebody else changes, cuts or removes a file
TDamage ==
           /\ Tool("damage") /\ Same2 /\ reply' = Ok
           /\ IF e.res = "ok" /\ (e.lost \/ e.delta # 0)
              THEN /\ dmg' = SetKey(dmg, e.b, [delta |-> Damage(e.b).delta + e.delta, lost |-> Damage(e.b).lost \/ e.lost])
                   /\ WeakAdd({e.b})
              ELSE UNCHANGED <<dmg, weak>>
           /\ ToolMatches

\* --- the library looks at everything ------------------------------------------------
LookOk(g) ==
    IF Open2(g.b) THEN TRUE
    ELSE IF ~Exists(g.b) THEN Check("res", FALSE, <<"unexpected column", g.b>>)
    ELSE LET c == disk[g.b] IN
         /\ Check("res", g.res = "ok", <<"cannot be opened", g.b>>)
         /\ Check("hdr", g.dtype = c.dtype /\ g.nmemb = c.nmemb /\ g.fsize = c.fsize, <<g, "want", c>>)
         /\ Check("attrs", AttrsEq(g.attrs, c.attrs), <<g.b, g.attrs, "want", c.attrs>>)
         /\ IF c.nmemb = 0 THEN TRUE
            ELSE IF Readable(c) THEN Check("data", g.rres = "ok" /\ RowsEq(g.rows, RowsOf(c)), <<g.b, g.rows, "want", RowsOf(c)>>)
            ELSE Check("data", g.rres = "err", <<g.b, "unreadable, but read", g.rows>>)
TLook ==
         /\ Tool("look") /\ Same2 /\ UNCHANGED <<weak, dmg>> /\ reply' = Ok
         /\ \A i \in 1..Len(e.cols) : LookOk(e.cols[i])
         /\ Check("res", NotDoubted(Blocks) = NotDoubted({ e.cols[i].b : i \in 1..Len(e.cols) }), <<"columns missing or too many, want", Blocks, "found", { e.cols[i].b : i \in 1..Len(e.cols) }>>)
         /\ ToolMatches

ToolStep == TCopy \/ TSample \/ TSame \/ TMake \/ TRename \/ TRm \/ TRepart \/ TLs \/ TCat \/ TPrintAttr \/ TChangeAttr \/ TCheck \/ TDamage \/ TLook
LibStep == BaseNext /\ dmg' = IF l <= Len(Trace) /\ e.op = "reset" THEN <<>>
                      ELSE IF l <= Len(Trace) /\ e.op = "create" /\ e.res = "ok" THEN DelKey(dmg, e.b) ELSE dmg
ToolsNext == ToolStep \/ LibStep
ToolsInit == TraceInit /\ dmg = <<>>
ToolsSpec == ToolsInit /\ [][ToolsNext]_toolvars
=============================================================================
