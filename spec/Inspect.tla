------------------------------- MODULE Inspect -------------------------------
(* What --inspect must report.  Lang elaborates the program and notes which  *)
(* template instance mentions which signals; a local signal, or an input or  *)
(* output of a subcomponent, that no constraint of the instance mentions and *)
(* no `_ <==` marks is reported, arrays as a whole, once for each template   *)
(* and parameters.  Hints that could be constraints are reported by line.    *)
(* CASES: [id, p, prog, acc, acc0, same, warn: <<[t, io, g, n, ex]>>, all,   *)
(* some: <<statement ids>>]                                                  *)
EXTENDS Lang, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, ph, el
vars == <<c, ph, el>>
Case == Cases[c]
Say(tag, x) == PrintT(<<tag, ToJson(x)>>)

\* --- instances and their names
RECURSIVE Join(_, _)
Join(ss, i) == IF i > Len(ss) THEN "" ELSE ss[i] \o (IF i < Len(ss) THEN "," ELSE "") \o Join(ss, i + 1)
ArgName(a) == IF Len(a.v) = 1 THEN a.v[1].x ELSE "[" \o Join([j \in 1..Len(a.v) |-> a.v[j].x], 1) \o "]"
InstName(I) == I.t \o "(" \o Join([j \in 1..Len(I.args) |-> ArgName(I.args[j])], 1) \o ")"
IsCustom(pr, t) == "custom" \in DOMAIN pr.templates[t] /\ pr.templates[t].custom

\* --- signals in groups: an array of signals is reported as one
RECURSIVE Groups(_, _, _), CatS(_)
CatS(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o CatS(Tail(ss))
Groups(base, d, bt) ==
  IF bt.n = "" THEN <<[g |-> base, ls |-> Leaves(base, d, bt)]>>
  ELSE LET I == Idxs(d) IN CatS([i \in 1..Len(I) |-> CatS([j \in 1..Len(bt.fs) |-> Groups(base \o I[i] \o "." \o bt.fs[j].n, bt.fs[j].d, bt.fs[j].bt)])])
SetOf(s) == {s[j] : j \in 1..Len(s)}
Face(s, q) == UNION {SetOf(Groups(s.inst[q].ents[n].base, s.inst[q].ents[n].d, s.inst[q].ents[n].bt)) : n \in {m \in DOMAIN s.inst[q].ents : s.inst[q].ents[m].q # "mid"}}

Noted(s, q, f) == UNION {IF f = "sure" THEN s.notes[j].m.sure ELSE s.notes[j].m.maybe : j \in {k \in 1..Len(s.notes) : s.notes[k].path = q /\ s.notes[k].k \in {"cons", "mark"}}}
OwnGroups(s, q) == LET d == SelectSeq(s.decl, LAMBDA x : x.path = q)
                   IN UNION {SetOf(Groups(d[j].base, d[j].d, d[j].bt)) : j \in 1..Len(d)}
Kids(s, q) == {k \in DOMAIN s.inst : k # "main" /\ s.inst[k].up = q}
Warn(s, q) ==
  LET sure == TLCEval(Noted(s, q, "sure"))
      W(g, io) == LET U == SelectSeq(g.ls, LAMBDA x : x \notin sure) IN [t |-> InstName(s.inst[q]), io |-> io, q |-> q, g |-> g.g, n |-> Len(U), u |-> SetOf(U)]
      all == {W(g, FALSE) : g \in OwnGroups(s, q)} \cup UNION {{W(g, TRUE) : g \in Face(s, k)} : k \in Kids(s, q)}
  IN {w \in all : w.n > 0}
Unsure(s, q) == (Noted(s, q, "maybe") \ Noted(s, q, "sure")) # {}
Elab == LET s == TLCEval(Run(Case.prog, "C", Case.p, EmptyF))
        IN IF s.err # "" THEN [err |-> s.err]
           ELSE LET Q == {q \in DOMAIN s.inst : ~IsCustom(Case.prog, s.inst[q].t)}
                IN [err |-> "", unsure |-> {InstName(s.inst[q]) : q \in {x \in Q : Unsure(s, x)}},
                    qs |-> {[q |-> q, t |-> InstName(s.inst[q]), w |-> TLCEval(Warn(s, q))] : q \in Q},
                    all |-> {s.notes[j].x : j \in {k \in 1..Len(s.notes) : s.notes[k].k = "all" /\ ~IsCustom(Case.prog, s.inst[s.notes[k].path].t)}},
                    some |-> {s.notes[j].x : j \in {k \in 1..Len(s.notes) : s.notes[k].k = "some" /\ ~IsCustom(Case.prog, s.inst[s.notes[k].path].t)}}]

\* --- comparison: every instance explains the warnings given under its name
Given(x) == {Case.warn[j] : j \in {k \in 1..Len(Case.warn) : Case.warn[k].t = x.t}}
Full(q, n) == q \o "." \o n
Explains(x, o, w) == /\ w.io = o.io /\ w.n = o.n /\ (o.n = 1 \/ w.g = Full(x.q, o.g))
                     /\ \A j \in 1..Len(o.ex) : Full(x.q, o.ex[j]) \in w.u
Fits(x) == /\ \A o \in Given(x) : \E w \in x.w : Explains(x, o, w)
           /\ \A w \in x.w : \E o \in Given(x) : Explains(x, o, w)
           /\ Cardinality(Given(x)) = Cardinality(x.w)
Known == {x.t : x \in el.qs}
Bad == {x \in el.qs : x.t \notin el.unsure /\ ~Fits(x)}

Init == c \in 1..Len(Cases) /\ ph = 0 /\ el = Elab
Verdict == ph = 0 /\ UNCHANGED <<c, el>>
  /\ (Case.acc # Case.acc0 => Say("@MIS", [id |-> Case.id, what |-> "--inspect changes the verdict"]))
  /\ ((Case.acc /\ Case.acc0 /\ ~Case.same) => Say("@MIS", [id |-> Case.id, what |-> "--inspect changes an artifact"]))
  /\ IF el.err \in DontCare THEN Say("@DONE", [id |-> Case.id, undecided |-> 1]) /\ ph' = 9
     ELSE IF (el.err = "") # Case.acc     \* the verdict as such is no matter of this property
     THEN Say("@DONE", [id |-> Case.id, other_verdict |-> 1]) /\ ph' = 9
     ELSE IF ~Case.acc THEN Say("@DONE", [id |-> Case.id, rejected |-> 1]) /\ ph' = 9
     ELSE ph' = 1
Warnings == ph = 1 /\ ph' = 2 /\ UNCHANGED <<c, el>>
  /\ (Bad # {} => Say("@MIS", [id |-> Case.id, what |-> "unconstrained signals", expected |-> ToString(Bad)]))
  /\ ({Case.warn[j].t : j \in 1..Len(Case.warn)} \ Known # {} => Say("@MIS", [id |-> Case.id, what |-> "warning about an unknown instance"]))
Hints == ph = 2 /\ ph' = 9 /\ UNCHANGED <<c, el>>
  /\ (el.all # SetOf(Case.all) => Say("@MIS", [id |-> Case.id, what |-> "hints that could be constraints", missing |-> el.all \ SetOf(Case.all), unexpected |-> SetOf(Case.all) \ el.all]))
  /\ (el.some # SetOf(Case.some) => Say("@MIS", [id |-> Case.id, what |-> "hints some of which could be constraints", missing |-> el.some \ SetOf(Case.some), unexpected |-> SetOf(Case.some) \ el.some]))
  /\ Say("@DONE", [id |-> Case.id, instances |-> Cardinality(el.qs), warnings |-> Len(Case.warn), hints |-> Cardinality(el.all \cup el.some), unsure |-> Cardinality(el.unsure)])
Next == Verdict \/ Warnings \/ Hints
Spec == Init /\ [][Next]_vars
=============================================================================
