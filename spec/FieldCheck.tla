----------------------------- MODULE FieldCheck -----------------------------
(* The field semantics against the laws the documentation states, over every *)
(* pair of operands of small primes; and, with the Java override of BigInt   *)
(* loaded (MODE = "override"), that override against plain TLA+ integers.    *)
EXTENDS Field, IOUtils, FiniteSets

Mode == IOEnv.MODE
Primes == {2, 3, 5, 7, 11, 13, 17, 19, 31}
VARIABLES p, a, b
vars == <<p, a, b>>

Init == /\ p \in (IF Mode = "laws" THEN Primes ELSE {101})
        /\ a \in (IF Mode = "laws" THEN 0..(p - 1) ELSE 0..70) /\ b \in (IF Mode = "laws" THEN 0..(p - 1) ELSE 0..70)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
val(z) == IF (p \div 2) + 1 <= z /\ z < p THEN z - p ELSE z
RECURSIVE Times(_, _), Pow2i(_), Bit(_, _)
Times(x, n) == IF n = 0 THEN 1 % p ELSE (x * Times(x, n - 1)) % p
Pow2i(n) == IF n = 0 THEN 1 ELSE 2 * Pow2i(n - 1)
Bit(x, i) == (x \div Pow2i(i)) % 2
W == CHOOSE w \in 1..8 : Pow2i(w) > p /\ Pow2i(w - 1) <= p
RECURSIVE FromBits(_, _)
FromBits(f(_), i) == IF i = 8 THEN 0 ELSE f(i) * Pow2i(i) + FromBits(f, i + 1)

Laws ==
  /\ Bin("+", a, b, p) = (a + b) % p
  /\ (Bin("-", a, b, p) + b) % p = a
  /\ Bin("*", a, b, p) = (a * b) % p
  /\ b # 0 => (Bin("/", a, b, p) * b) % p = a
  /\ b # 0 => /\ Bin("\\", a, b, p) * b + Bin("%", a, b, p) = a
              /\ Bin("%", a, b, p) < b
  /\ b = 0 => \A o \in {"/", "\\", "%"} : Bin(o, a, b, p) = NoVal
  /\ Bin("**", a, b, p) = Times(a, b)
  \* shifts: left and right are each other's mirror for distances beyond p/2
  /\ b <= p \div 2 => Bin(">>", a, b, p) = (IF b > 10 THEN 0 ELSE a \div Pow2i(b))
  /\ b <= p \div 2 => Bin("<<", a, b, p) = (IF b > 10 THEN 0 ELSE ((a * Pow2i(b)) % Pow2i(W)) % p)
  /\ b > p \div 2 => Bin(">>", a, b, p) = Bin("<<", a, p - b, p)
  /\ b > p \div 2 => Bin("<<", a, b, p) = Bin(">>", a, p - b, p)
  \* bitwise operators, bit by bit, then reduced
  /\ Bin("&", a, b, p) = FromBits(LAMBDA i : IF Bit(a, i) = 1 /\ Bit(b, i) = 1 THEN 1 ELSE 0, 0) % p
  /\ Bin("|", a, b, p) = FromBits(LAMBDA i : IF Bit(a, i) = 1 \/ Bit(b, i) = 1 THEN 1 ELSE 0, 0) % p
  /\ Bin("^", a, b, p) = FromBits(LAMBDA i : IF Bit(a, i) # Bit(b, i) THEN 1 ELSE 0, 0) % p
  /\ Un("~", a, p) = FromBits(LAMBDA i : IF i < W /\ Bit(a, i) = 0 THEN 1 ELSE 0, 0) % p
  \* signed comparison
  /\ Bin("<", a, b, p) = (IF val(a) < val(b) THEN 1 ELSE 0)
  /\ Bin(">", a, b, p) = (IF val(a) > val(b) THEN 1 ELSE 0)
  /\ Bin("<=", a, b, p) = (IF val(a) <= val(b) THEN 1 ELSE 0)
  /\ Bin(">=", a, b, p) = (IF val(a) >= val(b) THEN 1 ELSE 0)
  /\ Bin("==", a, b, p) = (IF a = b THEN 1 ELSE 0) /\ Bin("!=", a, b, p) = (IF a = b THEN 0 ELSE 1)
  /\ Bin("&&", a, b, p) = (IF a # 0 /\ b # 0 THEN 1 ELSE 0)
  /\ Bin("||", a, b, p) = (IF a # 0 \/ b # 0 THEN 1 ELSE 0)
  /\ Un("!", a, p) = (IF a = 0 THEN 1 ELSE 0)
  /\ (Un("-", a, p) + a) % p = 0
  \* every result is a representative
  /\ \A o \in BinOps : (b = 0 /\ o \in {"/", "\\", "%"}) \/ Bin(o, a, b, p) \in 0..(p - 1)
  /\ \A o \in UnOps : Un(o, a, p) \in 0..(p - 1)

Override ==
  LET A == BN(a)  B == BN(b)
  IN /\ BInt(A) = a /\ BInt(BAdd(A, B)) = a + b
     /\ (a >= b => BInt(BSub(A, B)) = a - b) /\ BInt(BMul(A, B)) = a * b
     /\ (b > 0 => BInt(BDiv(A, B)) = a \div b /\ BInt(BMod(A, B)) = a % b)
     /\ BLt(A, B) = (a < b) /\ BLe(A, B) = (a <= b) /\ BSmall(A)
     /\ BInt(BAnd(A, B)) = FromBits(LAMBDA i : IF Bit(a, i) = 1 /\ Bit(b, i) = 1 THEN 1 ELSE 0, 0)
     /\ BInt(BOr(A, B)) = FromBits(LAMBDA i : IF Bit(a, i) = 1 \/ Bit(b, i) = 1 THEN 1 ELSE 0, 0)
     /\ BInt(BXor(A, B)) = FromBits(LAMBDA i : IF Bit(a, i) # Bit(b, i) THEN 1 ELSE 0, 0)
     /\ (a > 0 => Pow2i(BInt(BBits(A)) - 1) <= a /\ a < Pow2i(BInt(BBits(A))))
     /\ (a < 20 => BInt(BPow2(A)) = Pow2i(a))
     /\ BInt(BPowMod(A, B, BN(p))) = Times(a, b)
     \* beyond 32 bits: algebraic identities
     /\ LET X == BAdd(BMul(BPow2(200), BN(a + 1)), B)
            Y == BAdd(BPow2(100), BN(3 * b))
        IN /\ BAdd(BMul(BDiv(X, Y), Y), BMod(X, Y)) = X /\ BLt(BMod(X, Y), Y)
           /\ BSub(BAdd(X, Y), Y) = X /\ BAdd(BAnd(X, Y), BOr(X, Y)) = BAdd(X, Y)
           /\ BAdd(BXor(X, Y), BMul(BN(2), BAnd(X, Y))) = BAdd(X, Y)
           /\ BLt(Y, X) /\ ~BSmall(X)

Inv == IF Mode = "laws" THEN Laws ELSE Override
=============================================================================
