-------------------------------- MODULE Priors --------------------------------
(* Log densities of the prior families, given by two moments (or bounds).    *)
EXTENDS Reals, Integers, Sequences, TLC
NegInf == "-inf"
HalfLog2Pi == "0.9189385332046727"
LgNormal(x, m, s) == LET z == RDiv(RSub(x, m), s) IN RSub(RSub(RMul("-0.5", RMul(z, z)), RLog(s)), HalfLog2Pi)
LgUniform(x, a, b) == IF RLt(x, a) \/ RLt(b, x) THEN NegInf ELSE RNeg(RLog(RSub(b, a)))
LgGamma(x, m, sd) ==
    LET b == RDiv(RMul(sd, sd), m)
        a == RDiv(m, b)
    IN  IF RLeq(x, "0.0") THEN NegInf
        ELSE RSub(RSub(RSub(RMul(RSub(a, "1.0"), RLog(x)), RDiv(x, b)), RLgamma(a)), RMul(a, RLog(b)))
LgBeta(x, m, sd) ==
    LET a == RSub(RDiv(RMul(RSub("1.0", m), RMul(m, m)), RMul(sd, sd)), m)
        b == RMul(a, RSub(RDiv("1.0", m), "1.0"))
    IN  IF RLeq(x, "0.0") \/ RLeq("1.0", x) THEN NegInf
        ELSE RAdd(RAdd(RMul(RSub(a, "1.0"), RLog(x)), RMul(RSub(b, "1.0"), RLog(RSub("1.0", x)))),
                  RSub(RLgamma(RAdd(a, b)), RAdd(RLgamma(a), RLgamma(b))))
LgInvGamma(x, m, sd) ==
    LET a == RAdd("2.0", RDiv(RMul(m, m), RMul(sd, sd)))
        s == RMul(m, RSub(a, "1.0"))
    IN  IF RLeq(x, "0.0") THEN NegInf
        ELSE RSub(RSub(RSub(RMul(a, RLog(s)), RLgamma(a)), RMul(RAdd(a, "1.0"), RLog(x))), RDiv(s, x))
\* Dynare's inverse gamma: degrees of freedom nu solve Fun(nu) = 0
DynFun(m, sd, nu) ==
    RAdd(RSub(RLog(RMul("2.0", RMul(m, m))), RLog(RMul(RAdd(RMul(sd, sd), RMul(m, m)), RSub(nu, "2.0")))),
         RMul("2.0", RSub(RLgamma(RDiv(nu, "2.0")), RLgamma(RDiv(RSub(nu, "1.0"), "2.0")))))
RECURSIVE DynNu(_, _, _, _, _)
DynNu(m, sd, lo, hi, n) ==
    LET mid == RDiv(RAdd(lo, hi), "2.0") IN
    IF n = 0 THEN mid
    ELSE IF RGt(DynFun(m, sd, mid), "0.0") THEN DynNu(m, sd, mid, hi, n - 1) ELSE DynNu(m, sd, lo, mid, n - 1)
LgInvGammaDynare(x, m, sd) ==
    LET nu == DynNu(m, sd, "2.0", "1000.0", 90)
        s == RMul(RAdd(RMul(sd, sd), RMul(m, m)), RSub(nu, "2.0"))
        h == RDiv(nu, "2.0")
    IN  IF RLeq(x, "0.0") THEN NegInf
        ELSE RSub(RSub(RSub(RSub(RLog("2.0"), RLgamma(h)), RMul(h, RSub(RLog("2.0"), RLog(s)))),
                       RMul(RAdd(nu, "1.0"), RLog(x))),
                  RDiv(RMul("0.5", s), RMul(x, x)))
LgPrior(dist, x, a, b) ==
    CASE dist = "normal" -> LgNormal(x, a, b)
      [] dist = "uniform" -> LgUniform(x, a, b)
      [] dist = "gamma" -> LgGamma(x, a, b)
      [] dist = "beta" -> LgBeta(x, a, b)
      [] dist = "inv_gamma" -> LgInvGamma(x, a, b)
      [] dist = "inv_gamma_dynare" -> LgInvGammaDynare(x, a, b)
\* open support (never the boundary)
InSupport(dist, x, a, b) ==
    CASE dist = "normal" -> RIsNum(x)
      [] dist = "uniform" -> RLeq(a, x) /\ RLeq(x, b)
      [] dist = "beta" -> RLt("0.0", x) /\ RLt(x, "1.0")
      [] OTHER -> RLt("0.0", x) /\ RIsNum(x)
===============================================================================
