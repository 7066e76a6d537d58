------------------------------ MODULE MCStore -------------------------------
(* Store with two lumps and a few sizes, all behaviours up to a depth:       *)
(*  - what crash images are accepted (KillOk, PowerOk) implies what the      *)
(*    properties say, stated with a separate history of contents;            *)
(*  - each transition found is a script that the real store has to execute.  *)
EXTENDS StoreAct, Json
CONSTANTS Depth, MaxHist, Letters, Cap, Emit, SizesOf
VARIABLES
  h,      \* the operations so far, as a script
  syn,    \* id -> contents at the last sync
  touch,  \* the ids that were written, updated or deleted since
  past,   \* the contents since the last flush (or sync)
  since,  \* the contents since the last sync
  what    \* the last operation
gvars == <<h, syn, touch, past, since, what>>
MIds == {0, 1}
Cuts == <<0, 100, 600>>
Value(o) == [n |-> c[o].n, e |-> c[o].emb, s |-> c[o].seg]
Now == [x \in Ids |-> Value(m[x])]
Next1 == [x \in DOMAIN m' |-> [n |-> c'[m'[x]].n, e |-> c'[m'[x]].emb, s |-> c'[m'[x]].seg]]
MInit ==
  /\ Init([cuts |-> Cuts, cap |-> Cap, ring |-> 4096, jsec |-> 9, auto |-> TRUE, tot |-> 0, num |-> 0])
  /\ h = <<>> /\ syn = Empty /\ touch = {} /\ past = <<Empty>> /\ since = <<Empty>> /\ what = "none"
Script(op) == h' = Append(h, op)
Has(x) == x \in Letters

\* the ghosts follow the contents, whatever Store remembers
\* (a put that finds no space may first take away the version it replaces)
Away(i) == IF i # -1 /\ Len(hist') = Len(hist) + 2 THEN <<[x \in Ids \ {i} |-> Now[x]]>> ELSE <<>>
Changed(S, i) == touch' = touch \cup S /\ syn' = syn /\ past' = (past \o Away(i)) \o <<Next1>> /\ since' = (since \o Away(i)) \o <<Next1>>
Synced == touch' = {} /\ syn' = Next1 /\ past' = <<Next1>> /\ since' = <<Next1>>
Flushed == touch' = touch /\ syn' = syn /\ past' = <<Now>> /\ since' = since
\* an update writes through at once: into every moment that has this version of the lump
Updated(i) == LET f(q) == [k \in DOMAIN q |-> [x \in DOMAIN q[k] |-> IF x = i /\ q[k][x] = Now[i] THEN Next1[i] ELSE q[k][x]]] IN
  touch' = touch \cup {i} /\ syn' = syn /\ past' = f(past) /\ since' = f(since)

MPut == Has("put") /\ \E i \in MIds, k \in SizesOf :
  LET n == Cuts[k] IN
  /\ Put(i, Fill(nobj + 1, n), n, "ok", i \in Ids, FALSE)
  /\ Changed({i}, i) /\ what' = "put" /\ Script([o |-> "put", i |-> i, n |-> k - 1])
MPutEmbed == Has("pute") /\ \E i \in MIds :
  /\ PutEmbed(i, Fill(nobj + 1, Cuts[2]), Cuts[2], "ok", i \in Ids, FALSE)
  /\ Changed({i}, -1) /\ what' = "pute" /\ Script([o |-> "pute", i |-> i, n |-> 1])
MPutOffset == Has("puto") /\ \E i \in MIds :
  /\ i \in Ids /\ ~Obj(i).emb /\ m[i] \notin bad
  /\ PutOffset(i, nobj + 100, 0, Cuts[2], 0, "ok", FALSE)
  /\ Updated(i) /\ what' = "puto" /\ Script([o |-> "puto", i |-> i, s |-> 0, n |-> 1])
MDelete == Has("del") /\ \E i \in MIds :
  /\ \E sz \in {0, 100, 512, 1024} : Delete(i, "ok", i \in Ids, sz, FALSE)
  /\ Changed({i}, -1) /\ what' = "del" /\ Script([o |-> "del", i |-> i])
MDeleteRange == Has("delr") /\
  /\ DeleteRange(0, 2, "ok", FALSE)
  /\ Changed(Ids, -1) /\ what' = "delr" /\ Script([o |-> "delr", a |-> 0, b |-> 2])
MFlush == Has("flush") /\ Flush(FALSE) /\ Flushed /\ what' = "flush" /\ Script([o |-> "flush"])
MSync == Has("sync") /\ Sync /\ Synced /\ what' = "sync" /\ Script([o |-> "sync"])
MReopen == Has("reopen") /\ open /\ Durable /\ Prev /\ pend' = FALSE /\ UNCHANGED <<open, log>>
           /\ Synced /\ what' = "reopen" /\ Script([o |-> "reopen"])
\* nothing for the users
MMaint == Has("gc") /\ \E o \in {"gc", "side"} :
  /\ Nop /\ UNCHANGED <<syn, touch, past, since>> /\ what' = o /\ Script([o |-> o, n |-> 2])

(* crashes: any outcome that the judges accept *)
Objects == DOMAIN c
Entry(x, o, torn) == [i |-> x, r |-> "ok", n |-> c[o].n, s |-> OnDisk(c[o]),
                      sg |-> [k \in DOMAIN c[o].seg |-> IF torn THEN <<>> ELSE <<c[o].seg[k]>>]]
Sets == SUBSET MIds
Seq2(S) == IF S = {0, 1} THEN <<0, 1>> ELSE IF S = {} THEN <<>> ELSE <<MinOf(S)>>
\* all images that hold versions of the lumps, whole or torn
Images == UNION {{[k \in DOMAIN Seq2(S) |-> Entry(Seq2(S)[k], f[Seq2(S)[k]][1], f[Seq2(S)[k]][2])] : f \in [S -> Objects \X BOOLEAN]} : S \in Sets}
\* what the contents of an image are
Contents(d) == [x \in Dumped(d) |-> LET e == d[CHOOSE k \in DOMAIN d : d[k].i = x] IN [n |-> e.n, s |-> e.s, g |-> e.sg]]
Shown(v) == [n |-> v.n, s |-> IF v.e THEN v.n ELSE 512 * Blocks(v.n), g |-> [k \in DOMAIN v.s |-> <<v.s[k]>>]]
ShownAll(f) == [x \in DOMAIN f |-> Shown(f[x])]
MStop == Has("stop") /\ what # "crash" /\ \E k \in KillStates :
  /\ CrashTo(hist[k], {})
  /\ syn' = Next1 /\ touch' = {} /\ past' = <<Next1>> /\ since' = <<Next1>> /\ what' = "crash"
  /\ Script([o |-> "crash", k |-> "kill"])
MCrash == Has("crash") /\ what # "crash" /\ \E d \in Images :
  /\ Kill(d, Len(d))
  /\ syn' = Next1 /\ touch' = {} /\ past' = <<Next1>> /\ since' = <<Next1>> /\ what' = "crash"
  /\ Script([o |-> "crash", k |-> "kill"])
MPower == Has("power") /\ what # "crash" /\ \E d \in Images :
  /\ PowerLoss(d, Len(d))
  /\ syn' = Next1 /\ touch' = {} /\ past' = <<Next1>> /\ since' = <<Next1>> /\ what' = "crash"
  /\ Script([o |-> "crash", k |-> "power"])

MNext == Len(h) < Depth /\ (MPut \/ MPutEmbed \/ MPutOffset \/ MDelete \/ MDeleteRange \/ MFlush \/ MSync \/ MReopen \/ MMaint \/ MStop \/ MCrash \/ MPower)
MSpec == MInit /\ [][MNext]_<<vars, gvars>>

(***************************************************************************)
(* what the judges accept is what the properties say                        *)
(***************************************************************************)
\* the lumps that a power failure tore before (any of their versions that may come back)
Lost == UNION {{x \in DOMAIN hist[k] : hist[k][x] \in bad} : k \in DOMAIN hist}
\* C03: a killed process leaves the contents of one moment since the last flush
KillMeans == Lost = {} => \A d \in Images : KillOk(d, Len(d), FALSE) => \E k \in DOMAIN past : Contents(d) = ShownAll(past[k])
\* ... and each of these moments is accepted
KillAll == Lost = {} => \A k \in DOMAIN past : \E d \in Images : KillOk(d, Len(d), FALSE) /\ Contents(d) = ShownAll(past[k])
\* C04: a power failure leaves the lumps alone that were not touched since the last sync
PowerMeans == \A d \in Images : PowerOk(d, Len(d), FALSE) =>
  \A x \in MIds \ touch : IF x \in DOMAIN syn
                          THEN x \in Dumped(d) /\ (x \in Lost \/ Contents(d)[x] = Shown(syn[x]))
                          ELSE x \notin Dumped(d)
\* ... and of the others a version since then, whole if it is embedded
PowerTouched == Lost = {} => \A d \in Images : PowerOk(d, Len(d), FALSE) =>
  \A x \in touch : IF x \in Dumped(d)
                    THEN \E k \in DOMAIN since : /\ x \in DOMAIN since[k]
                           /\ \/ Contents(d)[x] = Shown(since[k][x])
                              \/ ~since[k][x].e /\ Contents(d)[x].s = Shown(since[k][x]).s
                    ELSE \E k \in DOMAIN since : x \notin DOMAIN since[k]
\* a kill is the mildest of the power failures
PowerWeaker == \A d \in Images : KillOk(d, Len(d), FALSE) => PowerOk(d, Len(d), FALSE)
\* C01: the present contents
DumpMeans == Lost = {} => \A d \in Images : DumpOk(d, Len(d)) => Contents(d) = ShownAll(Now)
\* C07: space
Space == FreeBlocks >= 0 /\ FreeBlocks <= Cap

(***************************************************************************)
(* exploring                                                                *)
(***************************************************************************)
Objs == UNION {Range(hist[k]) : k \in DOMAIN hist} \cup Objects
Rank(o) == Cardinality({p \in Objs : p < o})
Seen(o) == <<Rank(o), c[o].n, c[o].emb, o \in dirty, o \in bad>>
Which(v) == {Seen(o) : o \in {q \in Objs : Value(q) = v}}
Ghost(f) == [x \in DOMAIN f |-> Which(f[x])]
Base == <<open, [k \in DOMAIN hist |-> [x \in DOMAIN hist[k] |-> Seen(hist[k][x])]], fl, pend, what = "crash">>
View == <<Base, touch, [k \in DOMAIN past |-> Ghost(past[k])], [k \in DOMAIN since |-> Ghost(since[k])], Ghost(syn)>>
GenView == <<Base, what>>
Bound == Len(hist) <= MaxHist
\* one script per transition
Note == Emit => (Len(h') < 2 \/ PrintT("SCRIPT " \o ToJson(h')))
=============================================================================
