------------------------------ MODULE CliDefs ------------------------------
(* The command line: which files the options ask for and which command lines, inputs and sources are in order.
   A case is a record of: want (outputs asked for), prime, level, sanity, noasm, out (what -o names), input (what the input argument names),
   src (kind of source), stem (name of the input without its extension), more (further flags), block (an output whose place is taken), stale. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Outs == {"r1cs", "sym", "json", "subs", "wasm", "wat", "c"}
Primes == {"bn128", "bls12377", "bls12381", "goldilocks", "grumpkin", "pallas", "secq256r1", "vesta"}
GoodPrimes == Primes \cup {""}
GoodLevels == {"", "O0", "O1", "O2", "O2round=0", "O2round=1", "O2round=3"}
BadLevels == {"O2round=x", "O2round=-1", "O2round=", "O2round=1.5", "O2round=0x2"}
GoodSanity == {"", "0", "1", "2", "3"}
GoodOut == {"none", "dir", "nested", "slash", "abs", "link"}
BadOut == {"missing", "file", "empty"}
GoodInput == {"plain", "sub", "abs", "dots", "link", "default"}
BadInput == {"missing", "directory", "nodefault"}
GoodSrc == {"one", "two", "lib", "gates", "many"}
BadSrc == {"lex", "parse", "noinclude", "type", "exec", "nomain", "twomains", "assert", "empty", "version", "utf8", "incutf8", "unterminated", "hexnothing", "bigversion"}
GoodMore == {"verbose", "inspect", "libdir", "nolib", "twolibs"}
BadMore == {"unknown", "secondinput", "norounds", "nolibvalue", "badutf8"}

Stem(c) == IF c.input = "default" THEN "circuit" ELSE c.stem
Name(c) == IF "c" \in c.want /\ Stem(c) \in {"main", "fr", "calcwit"} THEN Stem(c) \o "_c" ELSE Stem(c)
FilesOf(o, n, c) ==
  CASE o = "r1cs" -> {n \o ".r1cs"}
    [] o = "sym" -> {n \o ".sym"}
    [] o = "json" -> {n \o "_constraints.json"}
    [] o = "subs" -> {n \o "_substitutions.json"}
    [] o = "wat" -> {n \o "_js/" \o n \o ".wat"}
    [] o = "wasm" -> {n \o "_js/" \o x : x \in {n \o ".wasm", "generate_witness.js", "witness_calculator.js"}}
    [] o = "c" -> {n \o "_cpp/" \o x : x \in {n \o ".cpp", n \o ".dat", "main.cpp", "circom.hpp", "calcwit.hpp", "calcwit.cpp", "fr.hpp", "Makefile"}
                     \cup IF c.prime = "goldilocks" THEN {"json2bin64.cpp"} ELSE {"fr.cpp"} \cup IF c.noasm THEN {} ELSE {"fr.asm"}}
Required(c) == UNION {FilesOf(o, Name(c), c) : o \in c.want}
\* what may be there besides: the scripts come with the wat program as well
Allowed(c) == Required(c) \cup IF "wat" \in c.want THEN FilesOf("wasm", Name(c), c) \ {Name(c) \o "_js/" \o Name(c) \o ".wasm"} ELSE {}

Blocked(c) == c.block \in c.want \/ (c.block \in {"wasm", "wat"} /\ c.want \cap {"wasm", "wat"} # {})
OptionsOk(c) == c.prime \in GoodPrimes /\ c.level \in GoodLevels /\ c.sanity \in GoodSanity /\ c.out \in GoodOut /\ c.more \cap BadMore = {}
InputOk(c) == c.input \in GoodInput
SourceOk(c) == c.src \in GoodSrc
Valid(c) == OptionsOk(c) /\ InputOk(c) /\ SourceOk(c) /\ ~Blocked(c)
\* command lines with the same Canon ask for the same contents
Canon(c) == [prime |-> IF c.prime = "" THEN "bn128" ELSE c.prime, level |-> IF c.level = "" THEN "O1" ELSE c.level,
             sanity |-> IF c.sanity = "" THEN "2" ELSE c.sanity, noasm |-> c.noasm, src |-> c.src, name |-> Name(c)]

Base == [want |-> {"r1cs"}, prime |-> "", level |-> "", sanity |-> "", noasm |-> FALSE, out |-> "none", input |-> "plain", src |-> "one",
         stem |-> "a", more |-> {}, block |-> "", stale |-> FALSE]
Few == {{}, {"r1cs"}, {"wasm"}, {"c", "sym"}, Outs}
Cases ==
  {[Base EXCEPT !.want = w] : w \in SUBSET Outs}
  \cup {[Base EXCEPT !.want = Outs, !.prime = p, !.noasm = q, !.src = s] : p \in Primes, q \in BOOLEAN, s \in {"one", "many"}}
  \cup {[Base EXCEPT !.want = Outs, !.level = l, !.src = s] : l \in GoodLevels, s \in GoodSrc}
  \cup {[Base EXCEPT !.want = Outs, !.sanity = l, !.src = s] : l \in GoodSanity, s \in {"two", "many"}}
  \cup {[Base EXCEPT !.want = w, !.out = o, !.input = i, !.src = s] : w \in {{"r1cs"}, Outs}, o \in GoodOut, i \in GoodInput, s \in {"one", "two"}}
  \cup {[Base EXCEPT !.want = w, !.stem = t] : w \in Few, t \in {"main", "fr", "calcwit", "a.b", "x y", "noext", "circom", "t-1", "é"}}
  \cup {[Base EXCEPT !.want = w, !.more = m] : w \in Few, m \in SUBSET GoodMore}
  \cup {[Base EXCEPT !.want = w, !.stale = TRUE, !.src = s] : w \in SUBSET Outs, s \in {"one", "many"}}
  \cup {[Base EXCEPT !.want = w, !.prime = p] : w \in Few, p \in {"bn254", "BN128", "7", "", "bn128 "}}
  \cup {[Base EXCEPT !.want = w, !.level = l] : w \in Few, l \in BadLevels}
  \cup {[Base EXCEPT !.want = w, !.sanity = l] : w \in Few, l \in {"4", "x", "-1", "02"}}
  \cup {[Base EXCEPT !.want = w, !.out = o] : w \in Few, o \in BadOut}
  \cup {[Base EXCEPT !.want = w, !.input = o] : w \in Few, o \in BadInput}
  \cup {[Base EXCEPT !.want = w, !.src = s, !.level = l] : w \in Few, s \in BadSrc, l \in {"", "O0"}}
  \cup {[Base EXCEPT !.want = w, !.more = {m}] : w \in Few, m \in BadMore}
  \cup {[Base EXCEPT !.want = w, !.block = b, !.level = l] : w \in {v \in SUBSET Outs : Cardinality(v) <= 2} \cup {Outs}, b \in Outs, l \in {"", "O0"}}
=============================================================================
