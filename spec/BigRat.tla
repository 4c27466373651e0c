------------------------------- MODULE BigRat -------------------------------
(***************************************************************************)
(* Exact rational numbers, vectors and matrices.  A number is a string     *)
(* (decimal double, integer or fraction, "nan", "inf", "-inf"), a vector a *)
(* sequence of numbers, a matrix a sequence of rows.  TLC evaluates these  *)
(* operators with java/BigRat.java (unbounded integers); the definitions   *)
(* below only declare them.  Every double is a rational, so expected       *)
(* values are exact and only the recorded results carry rounding.          *)
(***************************************************************************)
LOCAL INSTANCE TLC
LOCAL U(op) == Assert(FALSE, <<"BigRat override missing", op>>)

RAdd(a, b) == U("RAdd")        \* a + b
RSub(a, b) == U("RSub")        \* a - b
RMul(a, b) == U("RMul")        \* a * b
RDiv(a, b) == U("RDiv")        \* a / b, an error when b = 0
RNeg(a) == U("RNeg")           \* -a
RAbs(a) == U("RAbs")           \* |a|
RMax(a, b) == U("RMax")
RMin(a, b) == U("RMin")
RLt(a, b) == U("RLt")          \* a < b; also for infinities, FALSE for nan
RLe(a, b) == U("RLe")          \* a <= b; also for infinities, FALSE for nan
REq(a, b) == U("REq")          \* a = b as numbers
RIsNum(a) == U("RIsNum")       \* a is finite
RInt(i) == U("RInt")           \* the number of an integer (normal form)
RClose(a, b, tol) == U("RClose") \* |a - b| <= tol * max(1, |a|, |b|)
RFun(f, a) == U("RFun")        \* exp, log, sqrt, sin, cos rounded to double
RRound(a, bits) == U("RRound") \* a rounded (towards zero) to that many significant bits
RSci(a, digits) == U("RSci")   \* the text of a in scientific notation
RFix(a, digits) == U("RFix")   \* the text of a with that many decimals
RFloat32(a) == U("RFloat32")   \* a rounded to single precision
VAdd(a, b) == U("VAdd")
VSub(a, b) == U("VSub")
VMulE(a, b) == U("VMulE")      \* entry by entry product
VScale(k, a) == U("VScale")
VDot(a, b) == U("VDot")
VSum(a) == U("VSum")
VNorm1(a) == U("VNorm1")
VNormInf(a) == U("VNormInf")
VZero(n) == U("VZero")
VClose(a, b, tol) == U("VClose") \* same size, all |a_i - b_i| <= tol * max(1, |a|, |b|)
VEq(a, b) == U("VEq")
VIsNum(a) == U("VIsNum")
MAdd(a, b) == U("MAdd")
MSub(a, b) == U("MSub")
MScale(k, a) == U("MScale")
MMul(a, b) == U("MMul")
MT(a) == U("MT")               \* transpose
MV(a, x) == U("MV")            \* a x
MTV(a, x, n) == U("MTV")       \* transpose(a) x, n = columns of a
MId(n) == U("MId")
MZero(m, n) == U("MZero")
MDiag(v) == U("MDiag")
MClose(a, b, tol) == U("MClose")
MEq(a, b) == U("MEq")
MIsNum(a) == U("MIsNum")
MSolve(a, b) == U("MSolve")    \* the X with a X = b
MNonSingular(a) == U("MNonSingular")
MIsPD(a) == U("MIsPD")         \* symmetric positive definite (lower triangle)
=============================================================================
