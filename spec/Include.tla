------------------------------ MODULE Include -------------------------------
(* Assembling a program from files.  CASES: projects                         *)
(*   [id, files, dirs, links, cwd, root, libs, uses, ver]                    *)
(* Paths are sequences of components from the root of the project's tree;    *)
(* in references (root, libs, incs) a first component "/" makes them         *)
(* absolute, otherwise they are relative to a directory.                     *)
(* A project is read file by file; which pending file is read next is left   *)
(* open (the order must not matter: Confluent).                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, TLCExt
Cases == JsonDeserialize(IOEnv.CASES)
None == <<"?">>
FileAt(c, p) == LET S == {k \in 1..Len(c.files) : c.files[k].path = p} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
IsDir(c, p) == p = <<>> \/ \E k \in 1..Len(c.dirs) : c.dirs[k] = p
Link(c, p) == LET S == {k \in 1..Len(c.links) : c.links[k].from = p} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
RECURSIVE Walk(_, _, _)
Walk(c, cur, cs) ==      \* the canonical path of reference cs seen from the canonical path cur; None if there is no such file
  IF cs = <<>> THEN cur
  ELSE IF ~IsDir(c, cur) THEN None
  ELSE LET h == cs[1] t == Tail(cs) next == Append(cur, h) IN
       IF h = "." THEN Walk(c, cur, t)
       ELSE IF h = ".." THEN IF cur = <<>> THEN None ELSE Walk(c, SubSeq(cur, 1, Len(cur) - 1), t)
       ELSE IF Link(c, next) # 0 THEN Walk(c, <<>>, c.links[Link(c, next)].to \o t)
       ELSE IF FileAt(c, next) # 0 \/ IsDir(c, next) THEN Walk(c, next, t)
       ELSE None
At(c, dir, ref) == IF ref # <<>> /\ ref[1] = "/" THEN Walk(c, <<>>, Tail(ref)) ELSE IF dir = None THEN None ELSE Walk(c, dir, ref)
Dir(p) == SubSeq(p, 1, Len(p) - 1)
RECURSIVE FirstFile(_, _, _, _)
FirstFile(c, dirs, ref, k) == IF k > Len(dirs) THEN 0
                              ELSE LET p == At(c, dirs[k], ref) f == IF p = None THEN 0 ELSE FileAt(c, p)
                                   IN IF f # 0 THEN f ELSE FirstFile(c, dirs, ref, k + 1)
\* the file an include of file f names: next to the including file, then in the -l directories in order
Resolve(c, f, ref) == FirstFile(c, << Dir(c.files[f].path) >> \o [k \in 1..Len(c.libs) |-> At(c, c.cwd, c.libs[k])], ref, 1)
Targets(c, f) == [k \in 1..Len(c.files[f].incs) |-> Resolve(c, f, c.files[f].incs[k])]
Root(c) == LET p == At(c, c.cwd, c.root) IN IF p = None THEN 0 ELSE FileAt(c, p)

Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
VersionOk(c, f) == LET v == c.files[f].ver IN v = <<>> \/ (v[1] = c.ver[1] /\ Leq(v, c.ver))
GateVersionOk(c, f) == c.files[f].cg => LET v == IF c.files[f].ver = <<>> THEN c.ver ELSE c.files[f].ver IN Leq(<<2, 0, 6>>, v)
FileErr(c, f) == IF c.files[f].bad THEN "syntax" ELSE IF \E k \in 1..Len(Targets(c, f)) : Targets(c, f)[k] = 0 THEN "notfound"
                 ELSE IF ~VersionOk(c, f) THEN "version" ELSE IF ~GateVersionOk(c, f) THEN "version" ELSE ""
RECURSIVE Sum(_, _)
Sum(S, g) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x] + Sum(S \ {x}, g)
RECURSIVE Reaches(_, _, _)
Reaches(c, S, k) == IF k = 0 THEN S ELSE Reaches(c, S \cup UNION {{Targets(c, f)[j] : j \in 1..Len(c.files[f].incs)} \ {0} : f \in S}, k - 1)
Verdict(c, R) ==       \* of a project whose files R are read without error
  LET defs == {<<f, k>> : f \in R, k \in 1..10} \cap {<<f, k>> \in R \X (1..10) : k <= Len(c.files[f].defs)}
      D(x) == c.files[x[1]].defs[x[2]]
      mains == Sum(R, [f \in R |-> c.files[f].mains])
  IN IF mains = 0 THEN [err |-> "nomain", vals |-> <<>>]
     ELSE IF mains > 1 THEN [err |-> "manymains", vals |-> <<>>]
     \* a file that declares custom templates, and every file that includes it through any chain, needs the pragma
     ELSE IF \E f \in R : ~c.files[f].cg /\ \E g \in Reaches(c, {f}, Len(c.files)) : c.files[g].cgd THEN [err |-> "pragma", vals |-> <<>>]
     ELSE IF \E x, y \in defs : x # y /\ D(x).n = D(y).n THEN [err |-> "duplicate", vals |-> <<>>]
     ELSE LET m == CHOOSE f \in R : c.files[f].mains = 1
              U == c.files[m].uses IN
          IF \E k \in 1..Len(U) : ~\E x \in defs : D(x).n = U[k] /\ D(x).t = "t" THEN [err |-> "undefined", vals |-> <<>>]
          ELSE [err |-> "", vals |-> [k \in 1..Len(U) |-> D(CHOOSE x \in defs : D(x).n = U[k]).v]]

VARIABLES c, pending, read, count, res
vars == <<c, pending, read, count, res>>
Case == Cases[c]
Say(tag, x) == PrintT(<<tag, ToJson(x)>>)
Open == [err |-> "open", vals |-> <<>>]
Init == /\ c \in 1..Len(Cases) /\ read = {} /\ count = [f \in 1..Len(Cases[c].files) |-> 0]
        /\ pending = {Root(Cases[c])} \ {0} /\ res = Open
Read == /\ res = Open /\ pending # {}
        /\ \E f \in pending :
             /\ read' = read \cup {f} /\ count' = [count EXCEPT ![f] = @ + 1]
             /\ IF FileErr(Case, f) # "" THEN res' = [err |-> FileErr(Case, f), vals |-> <<>>] /\ pending' = {}
                ELSE res' = Open /\ pending' = (pending \cup {Targets(Case, f)[k] : k \in 1..Len(Targets(Case, f))}) \ (read \cup {f})
        /\ UNCHANGED c
Close == /\ res = Open /\ pending = {}
         /\ res' = IF read = {} THEN [err |-> "noinput", vals |-> <<>>] ELSE Verdict(Case, read)
         /\ UNCHANGED <<c, pending, read, count>>
Tell == /\ res # Open /\ pending # {0}
        /\ Say("@INC", [id |-> Case.id, err |-> res.err, vals |-> res.vals, read |-> Cardinality(read)])
        /\ pending' = {0} /\ UNCHANGED <<c, read, count, res>>
Next == Read \/ Close \/ Tell
Spec == Init /\ [][Next]_vars
ReadOnce == \A f \in DOMAIN count : count[f] <= 1
\* every order of reading comes to the verdict of the set of reachable files
Expected == LET r == Root(Case) R == IF r = 0 THEN {} ELSE Reaches(Case, {r}, Len(Case.files))
            IN IF r = 0 THEN "noinput" ELSE IF \E f \in R : FileErr(Case, f) # "" THEN "file" ELSE Verdict(Case, R).err
Confluent == res # Open => IF Expected = "file" THEN res.err \in {"syntax", "notfound", "version"} ELSE res.err = Expected
=============================================================================
