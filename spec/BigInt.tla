------------------------------- MODULE BigInt -------------------------------
(* Non-negative integers of any size.  TLC's own integers are 32 bit, the    *)
(* primes of circom are up to 255 bit, so this module exists twice:          *)
(*   - as written here, over Int: used for exhaustive checking of everything *)
(*     built on it at small primes;                                          *)
(*   - overridden by java/BigInt.java, where a number is the string of its   *)
(*     decimal digits: used on the real primes.                              *)
(* Only integer arithmetic is overridden; all of circom's semantics is in    *)
(* Field.tla on top.  FieldCheck.tla evaluates both on the same arguments.   *)
EXTENDS Integers

BN(i)      == i                    \* number from a (small, >= 0) TLC integer
BInt(a)    == a                    \* TLC integer from a small number
BAdd(a,b)  == a + b
BSub(a,b)  == a - b                \* requires a >= b
BMul(a,b)  == a * b
BDiv(a,b)  == a \div b             \* requires b > 0
BMod(a,b)  == a % b                \* requires b > 0
BLt(a,b)   == a < b
BLe(a,b)   == a <= b
BSmall(a)  == a < 100000           \* fits comfortably in a TLC integer

RECURSIVE BAnd(_,_), BOr(_,_), BXor(_,_), BBits(_), BPow2(_), BPowMod(_,_,_)
BAnd(a,b) == IF a = 0 \/ b = 0 THEN 0
             ELSE (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0) + 2 * BAnd(a \div 2, b \div 2)
BOr(a,b)  == IF a = 0 THEN b ELSE IF b = 0 THEN a
             ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0) + 2 * BOr(a \div 2, b \div 2)
BXor(a,b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
             ELSE (IF a % 2 # b % 2 THEN 1 ELSE 0) + 2 * BXor(a \div 2, b \div 2)
BBits(a)  == IF a = 0 THEN 0 ELSE 1 + BBits(a \div 2)    \* number of significant bits
BPow2(n)  == IF n = 0 THEN 1 ELSE 2 * BPow2(n - 1)       \* n a small number
BPowMod(b,e,m) == IF e = 0 THEN 1 % m
                  ELSE IF e % 2 = 1 THEN (b * BPowMod(b, e - 1, m)) % m
                  ELSE BPowMod((b * b) % m, e \div 2, m)
=============================================================================
