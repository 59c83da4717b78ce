----------------------------- MODULE Artifacts ------------------------------
(* All artifacts of one compilation describe one circuit, whose wires follow *)
(* the main component.  The circuit is derived by Lang from the program: its *)
(* declarations in order.  A behaviour inspects one compilation aspect by    *)
(* aspect.  CASES: records of harness/art.py.                                *)
EXTENDS Lang, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, el, i
vars == <<c, el, i>>
Case == Cases[c]
Say(tag, x) == PrintT(<<tag, ToJson(x)>>)

\* --- the circuit according to the program
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Main(d, q) == SelectSeq(d, LAMBDA x : x.path = "main" /\ x.q = q)
LeavesOf(ds) == Cat([j \in 1..Len(ds) |-> ds[j].ls])
Pub == LET l == Case.prog.main.public IN {l[j] : j \in 1..Len(l)}
Outs == LeavesOf(Main(el.decl, "out"))
PubIns == LeavesOf(SelectSeq(Main(el.decl, "in"), LAMBDA x : x.n \in Pub))
PrvIns == LeavesOf(SelectSeq(Main(el.decl, "in"), LAMBDA x : x.n \notin Pub))
Names == LET a == LeavesOf(el.decl) IN {a[j] : j \in 1..Len(a)}

\* --- readings of the artifacts
Rows == Case.sym
H == Case.hdr
W == Case.w2l
SubKeys == {Case.subs[j].s : j \in 1..Len(Case.subs)}
LcKeys(l) == {l[j].w : j \in 1..Len(l)}
ToMap(l) == [w \in LcKeys(l) |-> (CHOOSE j \in 1..Len(l) : l[j].w = w)]
LcOf(l) == LET m == ToMap(l) IN [w \in LcKeys(l) |-> l[m[w]].k]
LcOk(l) == /\ Cardinality(LcKeys(l)) = Len(l)
           /\ \A j \in 1..Len(l) : l[j].w >= 0 /\ l[j].w < H.wires /\ BLt(l[j].k, Case.p) /\ l[j].k # Zero

BytesFor(p) == LET k == BInt(BBits(p)) IN ((k + 63) \div 64) * 8
Abc(x) == <<LcOf(x[1]), LcOf(x[2]), LcOf(x[3])>>
\* as multisets; position by position first, which is how they are written
SameBag(a, b) == LET x == TLCEval([j \in 1..Len(a) |-> Abc(a[j])])  y == TLCEval([j \in 1..Len(b) |-> Abc(b[j])])
  IN x = y \/ (Len(x) = Len(y) /\ \A j \in 1..Len(x) : Cardinality({k \in 1..Len(x) : x[k] = x[j]}) = Cardinality({k \in 1..Len(y) : y[k] = x[j]}))
WireOf(l) == IF l = 0 THEN 0 ELSE IF l > Len(Rows) \/ l < 0 THEN -2 ELSE Rows[l].w
Prefix(k) == [j \in 1..k |-> IF j > Len(Rows) THEN "?" ELSE Rows[j].n]

Aspects == <<
  "C13 readable",
  "C13 magic and version",
  "C13 sections",
  "C13 prime",
  "C13 constraint count",
  "C13 wire count",
  "C13 label count",
  "C13 linear combinations",
  "C13 wire map",
  "C13 symbol wires",
  "C13 symbol labels",
  "C13 every signal once",
  "C13 json constraints",
  "C13 substituted signals are removed",
  "C13 substitutions name signals once",
  "C13 witness length",
  "C14 outputs, public inputs, private inputs first",
  "C14 public signals keep their wires",
  "C14 public counts",
  "C14 wire order",
  "C14 inputs in the witness" >>
Ok(n) ==
  CASE n = "C13 readable" -> TRUE
    [] n = "C13 magic and version" -> H.magic = "r1cs" /\ H.version = 1
    [] n = "C13 sections" -> ~H.dup /\ H.trailing = 0 /\ {1, 2, 3} \subseteq {H.secs[j] : j \in 1..Len(H.secs)}
                             /\ {H.secs[j] : j \in 1..Len(H.secs)} \subseteq 1..5 /\ H.headlen = H.fs + 32
    [] n = "C13 prime" -> H.prime = Case.p /\ H.fs = BytesFor(Case.p)
    [] n = "C13 constraint count" -> H.ncons = Len(Case.cons)
    [] n = "C13 wire count" -> H.wires = Len(W) /\ H.maplen = 8 * H.wires
    [] n = "C13 label count" -> H.labels = Len(Rows) + 1
    [] n = "C13 linear combinations" -> \A j \in 1..Len(Case.cons) : \A m \in 1..3 : LcOk(Case.cons[j][m])
    [] n = "C13 wire map" -> W # <<>> /\ W[1] = 0 /\ \A j \in 2..Len(W) : W[j] >= 1 /\ W[j] <= Len(Rows) /\ Rows[W[j]].w = j - 1
    [] n = "C13 symbol wires" -> \A j \in 1..Len(Rows) : Rows[j].w = -1 \/ (Rows[j].w >= 1 /\ Rows[j].w < Len(W) /\ W[Rows[j].w + 1] = j)
    [] n = "C13 symbol labels" -> \A j \in 1..Len(Rows) : Rows[j].l = j
    [] n = "C13 every signal once" -> {Rows[j].n : j \in 1..Len(Rows)} = Names /\ Len(Rows) = Cardinality(Names)
    [] n = "C13 json constraints" -> SameBag(Case.jcons, Case.cons)
    [] n = "C13 substituted signals are removed" -> \A s \in SubKeys : WireOf(s) = -1
    [] n = "C13 substitutions name signals once" -> Cardinality(SubKeys) = Len(Case.subs)
          /\ \A j \in 1..Len(Case.subs) : \A m \in 1..Len(Case.subs[j].e) :
                WireOf(Case.subs[j].e[m].w) # -2 /\ BLt(Case.subs[j].e[m].k, Case.p)
    [] n = "C13 witness length" -> \A j \in 1..Len(Case.wit) : Case.wit[j].ok => Len(Case.wit[j].w) = H.wires
    [] n = "C14 outputs, public inputs, private inputs first" -> Prefix(Len(Outs \o PubIns \o PrvIns)) = Outs \o PubIns \o PrvIns
    [] n = "C14 public signals keep their wires" -> Len(W) > Len(Outs) + Len(PubIns) /\ \A j \in 1..(Len(Outs) + Len(PubIns)) : W[j + 1] = j
    [] n = "C14 public counts" -> H.pubout = Len(Outs) /\ H.pubin = Len(PubIns) /\ H.prvin = Len(PrvIns)
    [] n = "C14 wire order" ->        \* main's outputs and inputs, in this order, before everything else
          \A j \in 2..Len(W) : W[j] <= Len(Outs \o PubIns \o PrvIns) => W[j - 1] < W[j]
    [] n = "C14 inputs in the witness" -> \A j \in 1..Len(Case.wit) : Case.wit[j].ok => \A l \in 1..Len(Rows) :
          (Rows[l].w >= 1 /\ Rows[l].w < Len(Case.wit[j].w) /\ Rows[l].n \in DOMAIN Case.inps[j]) => Case.wit[j].w[Rows[l].w + 1] = Red(Case.inps[j][Rows[l].n], Case.p)

Elab == LET s == Run(Case.prog, "C", Case.p, EmptyF) IN [err |-> s.err, decl |-> s.decl]
Init == c \in 1..Len(Cases) /\ el = Elab /\ i = 0
Verdict == i = 0 /\ UNCHANGED <<c, el>>
  /\ IF el.err \in DontCare THEN Say("@DONE", [id |-> Case.id, undecided |-> 1]) /\ i' = -1
     ELSE IF (el.err = "") # Case.acc
     THEN Say("@MIS", [id |-> Case.id, what |-> "verdict", expected |-> el.err, observed |-> Case.acc]) /\ Say("@DONE", [id |-> Case.id]) /\ i' = -1
     ELSE IF ~Case.acc THEN Say("@DONE", [id |-> Case.id, rejected |-> 1]) /\ i' = -1
     ELSE IF Case.broken # "" THEN Say("@MIS", [id |-> Case.id, what |-> "C13 C14 unreadable", why |-> Case.broken]) /\ Say("@DONE", [id |-> Case.id]) /\ i' = -1
     ELSE i' = 1
Inspect == i >= 1 /\ UNCHANGED <<c, el>>
  /\ (~Ok(Aspects[i]) => Say("@MIS", [id |-> Case.id, what |-> Aspects[i]]))
  /\ IF i = Len(Aspects) THEN Say("@DONE", [id |-> Case.id, aspects |-> i, wires |-> H.wires, signals |-> Len(Rows)]) /\ i' = -1 ELSE i' = i + 1
Next == Verdict \/ Inspect
Spec == Init /\ [][Next]_vars
=============================================================================
