------------------------------- MODULE Field -------------------------------
(* The operators of the circom language over the prime field of order p, as  *)
(* documented in mkdocs/docs/circom-language/basic-operators.md.  Values are *)
(* the representatives 0..p-1.  NoVal is the result of an operation that has *)
(* no value (division by zero).                                              *)
EXTENDS BigInt, Sequences

NoVal == "none"
Zero == BN(0)
One  == BN(1)
Bool(c) == IF c THEN One ELSE Zero

Red(a, p) == BMod(a, p)
FAdd(a, b, p) == BMod(BAdd(a, b), p)
FNeg(a, p)    == IF a = Zero THEN Zero ELSE BSub(p, a)
FSub(a, b, p) == BMod(BAdd(a, FNeg(b, p)), p)
FMul(a, b, p) == BMod(BMul(a, b), p)
FInv(a, p)    == BPowMod(a, BSub(p, BN(2)), p)
FDiv(a, b, p) == IF b = Zero THEN NoVal ELSE FMul(a, FInv(b, p), p)
FIDiv(a, b, p) == IF b = Zero THEN NoVal ELSE BDiv(a, b)
FMod(a, b, p)  == IF b = Zero THEN NoVal ELSE BMod(a, b)
FPow(a, b, p)  == BPowMod(a, b, p)

Half(p) == BDiv(p, BN(2))                       \* p/2, integer division
Mask(p) == BSub(BPow2(BBits(p)), One)           \* 2**b - 1, b significant bits of p
\* a shift distance of at least the bit width moves every bit out
TooFar(k, p) == BLe(BBits(p), k)
ShrPos(a, k, p) == IF TooFar(k, p) THEN Zero ELSE BDiv(a, BPow2(k))
ShlPos(a, k, p) == IF TooFar(k, p) THEN Zero ELSE BMod(BAnd(BMul(a, BPow2(k)), Mask(p)), p)
FShr(a, k, p) == IF BLe(k, Half(p)) THEN ShrPos(a, k, p) ELSE ShlPos(a, BSub(p, k), p)
FShl(a, k, p) == IF BLe(k, Half(p)) THEN ShlPos(a, k, p) ELSE ShrPos(a, BSub(p, k), p)
FAnd(a, b, p) == BMod(BAnd(a, b), p)
FOr(a, b, p)  == BMod(BOr(a, b), p)
FXor(a, b, p) == BMod(BXor(a, b), p)
FCompl(a, p)  == BMod(BSub(Mask(p), a), p)      \* complement to the number of bits of p

\* signed comparison: val(z) = z - p  if p/2 + 1 <= z < p,  z otherwise.
\* Adding p/2 (integer division) modulo p is an order isomorphism of val.
NegVal(a, p) == BLt(Half(p), a)
FLt(a, b, p) == IF NegVal(a, p) = NegVal(b, p) THEN BLt(a, b) ELSE NegVal(a, p)

IsTrue(a) == a # Zero

Bin(op, a, b, p) ==
  CASE op = "+"  -> FAdd(a, b, p)
    [] op = "-"  -> FSub(a, b, p)
    [] op = "*"  -> FMul(a, b, p)
    [] op = "/"  -> FDiv(a, b, p)
    [] op = "\\" -> FIDiv(a, b, p)
    [] op = "%"  -> FMod(a, b, p)
    [] op = "**" -> FPow(a, b, p)
    [] op = "<<" -> FShl(a, b, p)
    [] op = ">>" -> FShr(a, b, p)
    [] op = "&"  -> FAnd(a, b, p)
    [] op = "|"  -> FOr(a, b, p)
    [] op = "^"  -> FXor(a, b, p)
    [] op = "==" -> Bool(a = b)
    [] op = "!=" -> Bool(a # b)
    [] op = "<"  -> Bool(FLt(a, b, p))
    [] op = ">"  -> Bool(FLt(b, a, p))
    [] op = "<=" -> Bool(~FLt(b, a, p))
    [] op = ">=" -> Bool(~FLt(a, b, p))
    [] op = "&&" -> Bool(IsTrue(a) /\ IsTrue(b))
    [] op = "||" -> Bool(IsTrue(a) \/ IsTrue(b))

Un(op, a, p) ==
  CASE op = "-" -> FNeg(a, p)
    [] op = "!" -> Bool(~IsTrue(a))
    [] op = "~" -> FCompl(a, p)

BinOps == {"+","-","*","/","\\","%","**","<<",">>","&","|","^","==","!=","<",">","<=",">=","&&","||"}
UnOps  == {"-","!","~"}
=============================================================================
