-------------------------------- MODULE Gates --------------------------------
(* Custom templates: what the r1cs must say about them.  Lang elaborates the *)
(* program; every instance of a custom template is one application, with its *)
(* parameters and its signals in the order of their declarations.            *)
EXTENDS Static, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, ph, el
vars == <<c, ph, el>>
Case == Cases[c]
Say(tag, x) == PrintT(<<tag, ToJson(x)>>)

\* --- the rules of custom templates, over their text (dead code included)
RECURSIVE Breaks(_)
Breaks(b) == \E j \in 1..Len(b) : LET s == b[j] IN
  CASE s.k = "as" -> s.o = "<=="
    [] s.k \in {"ceq", "comp"} -> TRUE
    [] s.k = "if" -> Breaks(s.t) \/ Breaks(s.e)
    [] s.k \in {"for", "wh", "bl"} -> Breaks(s.b)
    [] OTHER -> FALSE
Customs(pr) == {n \in DOMAIN pr.templates : "custom" \in DOMAIN pr.templates[n] /\ pr.templates[n].custom}
Broken(pr) == {n \in Customs(pr) : Breaks(pr.templates[n].body)}
Rejected == (Customs(Case.prog) # {} /\ ~Case.pragma)
            \/ (Broken(Case.prog) # {} /\ Broken(Case.prog) \cap TypeErrs(Case.prog).d # {})
\* a template that main does not reach need not be analysed
Unclear == Broken(Case.prog) # {} /\ ~Case.acc

\* --- the applications according to the program
RECURSIVE CatS(_)
CatS(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o CatS(Tail(ss))
ArgsOf(I) == CatS([a \in 1..Len(I.args) |-> [j \in 1..Len(I.args[a].v) |-> I.args[a].v[j].x]])
SignalsOf(path, s) == LET d == SelectSeq(s.decl, LAMBDA x : x.path = path) IN CatS([j \in 1..Len(d) |-> d[j].ls])
Elab == LET s == TLCEval(Run(Case.prog, "C", Case.p, EmptyF))
        IN [err |-> s.err, uses |-> IF s.err # "" THEN {} ELSE
              {<<s.inst[q].t, ArgsOf(s.inst[q]), SignalsOf(q, s)>> : q \in {x \in DOMAIN s.inst : s.inst[x].t \in Customs(Case.prog)}}]

\* --- what the r1cs says
NameOf(w) == IF w < 0 \/ w >= Len(Case.names) THEN "?" ELSE Case.names[w + 1]
Seen == [j \in 1..Len(Case.uses) |-> LET u == Case.uses[j] IN
           IF u.gate < 0 \/ u.gate >= Len(Case.gates) THEN <<"no such gate", <<>>, <<>>>>
           ELSE <<Case.gates[u.gate + 1].name, Case.gates[u.gate + 1].params, [k \in 1..Len(u.signals) |-> NameOf(u.signals[k])]>>]
SeenSet == {Seen[j] : j \in 1..Len(Seen)}
Secs == {Case.secs[j] : j \in 1..Len(Case.secs)}
Mis(w) == Say("@MIS", [id |-> Case.id, what |-> w, missing |-> ToString(el.uses \ SeenSet), unexpected |-> ToString(SeenSet \ el.uses)])

Init == c \in 1..Len(Cases) /\ ph = 0 /\ el = (IF Rejected THEN [err |-> "custom", uses |-> {}] ELSE IF Unclear THEN [err |-> "dcunset", uses |-> {}] ELSE Elab)
Verdict == ph = 0 /\ UNCHANGED <<c, el>>
  /\ IF el.err \in DontCare THEN Say("@DONE", [id |-> Case.id, undecided |-> 1]) /\ ph' = 9
     ELSE IF (el.err = "") # Case.acc
     THEN Say("@MIS", [id |-> Case.id, what |-> "verdict", expected |-> el.err, observed |-> Case.acc]) /\ Say("@DONE", [id |-> Case.id]) /\ ph' = 9
     ELSE IF ~Case.acc THEN Say("@DONE", [id |-> Case.id, rejected |-> 1]) /\ ph' = 9
     ELSE IF Case.broken # "" THEN Say("@MIS", [id |-> Case.id, what |-> "unreadable", why |-> Case.broken]) /\ Say("@DONE", [id |-> Case.id]) /\ ph' = 9
     ELSE ph' = 1
Sections == ph = 1 /\ ph' = 2 /\ UNCHANGED <<c, el>>
  /\ (Secs # (IF Case.pragma THEN 1..5 ELSE 1..3) => Mis("sections"))
  /\ ((Case.pragma /\ (Case.gtrail # 0 \/ Case.utrail # 0)) => Mis("section sizes"))
Applications == ph = 2 /\ ph' = 9 /\ UNCHANGED <<c, el>>
  /\ (~(SeenSet = el.uses /\ Len(Seen) = Cardinality(el.uses)) => Mis("applications"))
  /\ ({Case.uses[j].gate : j \in 1..Len(Case.uses)} # 0..(Len(Case.gates) - 1) => Mis("gates listed but not used"))
  /\ Say("@DONE", [id |-> Case.id, applications |-> Len(Seen), gates |-> Len(Case.gates)])
Next == Verdict \/ Sections \/ Applications
Spec == Init /\ [][Next]_vars
=============================================================================
