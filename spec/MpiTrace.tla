------------------------------ MODULE MpiTrace -----------------------------
(***************************************************************************)
(* Executions of the integer library as behaviours of a register machine.  *)
(* The state is the integer in each register.  A call names the registers  *)
(* of its operands and results, so the same register may be both.  Every   *)
(* step reads all operands before it writes: that is the meaning of        *)
(* aliasing here.                                                          *)
(***************************************************************************)
EXTENDS Mpi, TraceKit

Regs0 == [i \in 0..5 |-> "0"]         \* registers hold signed hexadecimal text
\* outcome of a call: returned values and the registers written (in the order in which the driver reports them)
Out(ok, ret, w) == [ok |-> ok, ret |-> ret, w |-> w]
Puts(ret, w) == Out(TRUE, ret, w)
Rets(ret) == Out(TRUE, ret, <<>>)
Bits(k) == IF k = NoBit THEN "max" ELSE N(k)
Low(x, b) == x %% Z2(b)

ZXY(f, z, x, y) ==
  CASE f = "add" -> x ++ y
    [] f = "sub" -> x -- y
    [] f = "mul" -> x ** y
    [] f = "addmul" -> z ++ x ** y
    [] f = "submul" -> z -- x ** y
    [] f = "quo" -> ZQuo(x, y)
    [] f = "rem" -> ZRem(x, y)
    [] f = "div" -> EDiv(x, y)
    [] f = "mod" -> EMod(x, y)
    [] f = "divexact" -> ZQuo(x, y)
    [] f = "divround" -> DivRound(x, y)
    [] f = "and" -> ZAnd(x, y)
    [] f = "ior" -> ZOr(x, y)
    [] f = "xor" -> ZXor(x, y)
    [] f = "gcd" -> ZGcd(x, y)
    [] f = "lcm" -> Lcm(x, y)
\* the same with an immediate operand: <<operation, what is returned>>
Imm(f) ==
  CASE f \in {"add_ui", "add_si"} -> <<"add", "">>
    [] f \in {"sub_ui", "sub_si"} -> <<"sub", "">>
    [] f \in {"mul_ui", "mul_si"} -> <<"mul", "">>
    [] f \in {"addmul_ui", "addmul_si"} -> <<"addmul", "">>
    [] f \in {"submul_ui", "submul_si"} -> <<"submul", "">>
    [] f \in {"divexact_ui", "divexact_si"} -> <<"divexact", "">>
    [] f \in {"divround_ui", "divround_si"} -> <<"divround", "">>
    [] f = "and_si" -> <<"and", "">>
    [] f \in {"ior_ui", "ior_si"} -> <<"ior", "">>
    [] f \in {"xor_ui", "xor_si"} -> <<"xor", "">>
    [] f = "lcm_ui" -> <<"lcm", "">>
    [] f = "quo_ui" -> <<"quo", "absrem">>
    [] f = "quo_si" -> <<"quo", "rem">>
    [] f \in {"div_ui", "div_si"} -> <<"div", "mod">>
    [] f = "gcd_ui" -> <<"gcd", "limb">>
    [] OTHER -> <<"", "">>
\* the gcd is returned when it fits a limb; the driver's limb is at least 32 bits and the value is then known to fit
RetVal(k, x, y, g) ==
  CASE k = "" -> <<>>
    [] k = "absrem" -> <<HexZ(ZAbs(ZRem(x, y)))>>
    [] k = "rem" -> <<HexZ(ZRem(x, y))>>
    [] k = "mod" -> <<HexZ(EMod(x, y))>>

Step(s, e) ==
  LET a == e.a
      R(k) == ZHex(s[a[k]])
      r == e.r
  IN
  CASE e.op = "mz_set" -> (LET v == ZBE(Hex(a[2])) IN Puts(<<>>, <<<<a[1], IF a[3] = 1 THEN ZNeg(v) ELSE v>>>>))
    [] e.op = "mz_zxy" -> (
       LET f == a[1] x == R(3) y == R(4) IN
       CASE f = "invert" -> IF Invertible(x, y) THEN Puts(<<"1">>, <<<<a[2], ZInv(x %% ZAbs(y), ZAbs(y))>>>>)
                            ELSE Puts(<<"0">>, <<<<a[2], Z0>>>>)
         [] f = "remove" -> LET k == Remove(x, y) IN Puts(<<N(k)>>, <<<<a[2], ZQuo(x, ZPow(y, k))>>>>)
         [] f = "sqrtm" ->           \* y an odd prime: any root
              IF Kronecker(x, y) = -1 THEN Puts(<<"0">>, <<<<a[2], Z0>>>>)
              ELSE IF Len(r) # 2 THEN Puts(<<"1">>, <<<<a[2], Z0>>>>)
              ELSE LET z == ZHex(r[2]) IN
                   Out(ZSgn(z) >= 0 /\ ZLt(z, y) /\ Congruent(z ** z, x, y), <<"1">>, <<<<a[2], z>>>>)
         [] OTHER -> Puts(<<>>, <<<<a[2], ZXY(f, R(2), x, y)>>>>))
    [] e.op \in {"mz_zxu", "mz_zxs"} -> (
       LET f == a[1] x == R(3) y == ZHex(a[4]) i == Imm(f) IN
       CASE f = "pow_ui" -> Puts(<<>>, <<<<a[2], ZPow(x, ZInt(y))>>>>)
         [] f = "bin_ui" -> Puts(<<>>, <<<<a[2], Bin(x, ZInt(y))>>>>)
         [] f = "root" -> LET z == Root(x, ZInt(y)) IN Puts(<<B01(ZPow(z, ZInt(y)) = x)>>, <<<<a[2], z>>>>)
         [] f \in {"ui_sub", "si_sub"} -> Puts(<<>>, <<<<a[2], y -- x>>>>)
         [] f = "gcd_ui" -> LET g == ZGcd(x, y) IN
              \* with y = 0 the gcd may not fit the returned limb: then 0 is returned
              IF y = Z0 /\ ZBitLen(g) > 32 THEN
                Out(Len(r) = 2 /\ r[1] \in {"0", HexZ(g)} /\ (ZBitLen(g) > 64 => r[1] = "0"), IF Len(r) = 2 THEN <<r[1]>> ELSE <<"?">>, <<<<a[2], g>>>>)
              ELSE Puts(<<HexZ(g)>>, <<<<a[2], g>>>>)
         [] OTHER -> Puts(RetVal(i[2], x, y, Z0), <<<<a[2], ZXY(i[1], R(2), x, y)>>>>))
    [] e.op = "mz_zx" -> (
       LET f == a[1] x == R(3) IN
       CASE f \in {"set", "roset", "init_set", "inits", "inits2", "roinit", "modify"} -> Puts(<<>>, <<<<a[2], x>>>>)
         [] f = "sqr" -> Puts(<<>>, <<<<a[2], x ** x>>>>)
         [] f = "sqrt" -> Puts(<<>>, <<<<a[2], ZSqrt(x)>>>>)
         [] f = "com" -> Puts(<<>>, <<<<a[2], Com(x)>>>>)
         [] f = "abs" -> Puts(<<>>, <<<<a[2], ZAbs(x)>>>>)
         [] f = "neg" -> Puts(<<>>, <<<<a[2], ZNeg(x)>>>>)
         [] f = "swap" -> Puts(<<>>, <<<<a[3], R(2)>>, <<a[2], x>>>>))
    [] e.op = "mz_zxb" -> (
       LET f == a[1] x == R(3) b == a[4] IN
       Puts(<<>>, <<<<a[2], CASE f = "mul_2exp" -> ZShl(x, b)
                              [] f = "quo_2exp" -> Quo2(x, b)
                              [] f = "rem_2exp" -> x -- ZShl(Quo2(x, b), b)
                              [] f = "div_2exp" -> ZShr(x, b)
                              [] f = "mod_2exp" -> Low(x, b)>>>>))
    [] e.op = "mz_zb" -> (
       LET f == a[1] x == R(2) b == a[3] IN
       Puts(<<>>, <<<<a[2], CASE f = "setbit" -> SetBit(x, b) [] f = "clrbit" -> ClrBit(x, b) [] f = "combit" -> ComBit(x, b)>>>>))
    [] e.op = "mz_mulshift" -> (Puts(<<>>, <<<<a[1], MulShift(R(2), R(3), a[4])>>>>))
    [] e.op = "mz_zzxy" -> (
       LET x == R(4) y == R(5) IN
       IF a[1] = "quorem" THEN Puts(<<>>, <<<<a[2], ZQuo(x, y)>>, <<a[3], ZRem(x, y)>>>>)
       ELSE Puts(<<>>, <<<<a[2], EDiv(x, y)>>, <<a[3], EMod(x, y)>>>>))
    [] e.op \in {"mz_zzx", "mz_rootrem"} -> (
       LET x == R(3)
           k == IF e.op = "mz_zzx" THEN 2 ELSE ZInt(ZHex(a[4]))
           z == Root(x, k)
       IN Puts(<<>>, IF a[2] < 0 THEN <<<<a[1], z>>>> ELSE <<<<a[1], z>>, <<a[2], x -- ZPow(z, k)>>>>))
    [] e.op = "mz_pxy" -> (
       LET f == a[1] x == R(2) y == R(3) IN
       Rets(<<CASE f = "cmp" -> N(ZSgn(x -- y))
                [] f = "cmpabs" -> N(ZSgn(ZAbs(x) -- ZAbs(y)))
                [] f = "divisible_p" -> B01(Divides(y, x))
                [] f = "hamdist" -> Bits(HamDist(x, y))
                [] OTHER -> N(Kronecker(x, y))>>))
    [] e.op \in {"mz_pxu", "mz_pxs"} -> (
       LET f == a[1] x == R(2) y == ZHex(a[3]) IN
       IF f = "gcd_ui" /\ y = Z0 /\ ZBitLen(x) > 32
       THEN Out(Len(r) = 1 /\ r[1] \in {"0", HexZ(ZAbs(x))} /\ (ZBitLen(x) > 64 => r[1] = "0"), <<IF Len(r) = 1 THEN r[1] ELSE "?">>, <<>>)
       ELSE
       Rets(<<CASE f \in {"cmp_ui", "cmp_si"} -> N(ZSgn(x -- y))
                [] f \in {"cmpabs_ui", "cmpabs_si"} -> N(ZSgn(ZAbs(x) -- ZAbs(y)))
                [] f = "rem_ui" -> HexZ(ZAbs(ZRem(x, y)))
                [] f = "rem_si" -> HexZ(ZRem(x, y))
                [] f \in {"mod_ui", "mod_si"} -> HexZ(EMod(x, y))
                [] f = "divisible_ui_p" -> B01(Divides(y, x))
                [] f = "and_ui" -> HexZ(ZAnd(x, y))
                [] f \in {"kronecker_ui", "kronecker_si"} -> N(Kronecker(x, y))
                [] f \in {"ui_kronecker", "si_kronecker"} -> N(Kronecker(y, x))
                [] f = "gcd_ui" -> HexZ(ZGcd(x, y))
                [] f = "lucas" -> B01(ExtraStrongLucas(x, ZInt(y)))>>))
    [] e.op = "mz_pxb" -> (
       LET f == a[1] x == R(2) b == a[3] IN
       IF f = "getlimbn" THEN
         LET w == IF r[1] = "4" THEN 32 ELSE 64 IN Rets(<<r[1], HexZ(Low(ZShr(ZAbs(x), w * b), w))>>)
       ELSE
       Rets(<<CASE f = "tstbit" -> N(ZBit(x, b))
                [] f = "scan0" -> Bits(Scan0(x, b))
                [] f = "scan1" -> Bits(Scan1(x, b))
                [] f = "divisible_2exp_p" -> B01(Low(x, b) = Z0)
                [] f = "sizeinbase" -> N(BaseLen(ZAbs(x), Z(b)))>>))
    [] e.op = "mz_px" -> (
       LET f == a[1] x == R(2) w == IF r[1] = "4" THEN 32 ELSE 64 IN
       Rets(CASE f = "sgn" -> <<N(ZSgn(x))>>
                [] f = "odd_p" -> <<B01(ZOdd(x))>>
                [] f = "even_p" -> <<B01(~ZOdd(x))>>
                [] f = "popcount" -> <<Bits(PopCount(x))>>
                [] f = "ctz" -> <<N(IF x = Z0 THEN 0 ELSE TrailingZeros(x))>>
                [] f = "bitlen" -> <<N(ZBitLen(ZAbs(x)))>>
                [] f = "bytelen" -> <<N(ByteLen(ZAbs(x)))>>
                [] f = "perfect_square_p" -> <<B01(IsSquare(x))>>
                [] f = "perfect_power_p" -> <<B01(IsPower(x))>>
                [] f = "get_compact" -> <<HexZ(ToCompact(x))>>
                [] f = "get_ui" -> <<r[1], HexZ(Low(ZAbs(x), w))>>
                [] f = "fits_ui_p" -> <<r[1], B01(ZBitLen(ZAbs(x)) <= w)>>
                [] f = "fits_si_p" -> <<r[1], B01(ZLe(ZNeg(Z2(w - 1)), x) /\ ZLt(x, Z2(w - 1)))>>
                [] f = "size" -> <<r[1], N(CeilDiv(ZBitLen(ZAbs(x)), w))>>
                \* a value that fits is returned; otherwise the low bits with the sign
                [] f = "get_si" -> <<r[1], HexZ(IF x = ZNeg(Z2(w - 1)) THEN x ELSE
                                        IF ZSgn(x) < 0 /\ Low(ZAbs(x), w) = Z2(w - 1) THEN ZNeg(Z2(w - 1))
                                        ELSE Away(ZSgn(x), Low(ZAbs(x), w - 1)))>>))
    [] e.op = "mz_congr" -> (
       LET d == CASE a[1] = "congruent_p" -> R(4) [] a[1] = "congruent_ui_p" -> ZHex(a[4]) [] OTHER -> Z2(a[4]) IN
       Rets(<<B01(Congruent(R(2), R(3), d))>>))
    [] e.op = "mz_zu" -> (
       LET f == a[1] u == ZHex(a[3]) n == ZInt(u) IN
       Puts(<<>>, <<<<a[2], CASE f \in {"set_ui", "set_si", "init_set_ui", "init_set_si"} -> u
                              [] f \in {"set_compact", "init_set_compact"} -> FromCompact(u)
                              [] f = "fac_ui" -> MFac(n, 1)
                              [] f = "2fac_ui" -> MFac(n, 2)
                              [] f = "primorial_ui" -> Primorial(n)
                              [] f = "fib_ui" -> Fib2(n)[1]
                              [] f = "lucnum_ui" -> Luc2(n)[1]>>>>))
    [] e.op = "mz_zuu" -> (
       LET f == a[1] u == ZHex(a[3]) k == ZInt(ZHex(a[4])) IN
       Puts(<<>>, <<<<a[2], CASE f = "ui_pow_ui" -> ZPow(u, k)
                              [] f = "mfac_uiui" -> MFac(ZInt(u), k)
                              [] OTHER -> Bin(u, k)>>>>))
    [] e.op = "mz_zzu" -> (LET n == ZInt(ZHex(a[4])) p == IF a[1] = "fib2_ui" THEN Fib2(n) ELSE Luc2(n) IN
         Puts(<<>>, <<<<a[2], p[1]>>, <<a[3], p[2]>>>>))
    [] e.op = "mz_gcdext" -> (\* any Bezout coefficients
       LET x == R(4) y == R(5) g == ZGcd(x, y)
           V(k) == ZHex(r[k])
           good == Len(r) = 3 /\ (\A k \in 1..3 : a[k] < 0 <=> r[k] = "-")
           bez == /\ good
                  /\ (a[1] >= 0 => V(1) = g)
                  /\ (a[2] >= 0 /\ a[3] >= 0 => V(2) ** x ++ V(3) ** y = g)
                  /\ (a[2] >= 0 /\ a[3] < 0 => Congruent(V(2) ** x, g, y))
                  /\ (a[3] >= 0 /\ a[2] < 0 => Congruent(V(3) ** y, g, x))
       IN [ok |-> bez, ret |-> IF good THEN r ELSE <<"bezout">>,
           w |-> <<>>, also |-> IF good THEN SelectSeq(<<<<a[1], IF a[1] < 0 THEN Z0 ELSE V(1)>>, <<a[2], IF a[2] < 0 THEN Z0 ELSE V(2)>>,
                                          <<a[3], IF a[3] < 0 THEN Z0 ELSE V(3)>>>>, LAMBDA p : p[1] >= 0) ELSE <<>>])
    [] e.op = "mz_powm" -> (LET y == IF a[1] = "powm_ui" THEN ZHex(a[4]) ELSE R(4) IN
         Puts(<<>>, <<<<a[2], PowM(R(3), y, R(5))>>>>))
    [] e.op = "mz_sqrtpq" -> (
       LET x == R(2) p == R(3) q == R(4)
           can == Kronecker(x, p) # -1 /\ Kronecker(x, q) # -1
       IN IF Len(r) # 2 THEN Puts(<<"?">>, <<<<a[1], Z0>>>>)
          ELSE LET z == ZHex(r[2]) IN
               Out(can => ZSgn(z) >= 0 /\ ZLt(z, p ** q) /\ Congruent(z ** z, x, p ** q), <<B01(can)>>, <<<<a[1], z>>>>))
    [] e.op = "mz_prime" -> (
       LET n == R(2) p == ZPrime(n) IN
       CASE a[1] = "probab" -> Rets(<<B01(p)>>)
         [] a[1] = "mr" /\ a[3] = 1 -> Rets(<<B01(n = Z(2) \/ n = Z(3) \/ (ZGt(n, Z(6)) /\ ZOdd(n) /\ StrongProbable(n, Z(2))) \/ n = Z(5))>>)
         \* more bases: every prime passes, a composite that is not a pseudoprime to base 2 fails
         [] a[1] = "mr" -> IF p THEN Rets(<<"1">>) ELSE IF ZGt(n, Z(6)) /\ ZOdd(n) /\ StrongProbable(n, Z(2))
                           THEN Out(r \in {<<"0">>, <<"1">>}, r, <<>>) ELSE Rets(<<"0">>)
         [] OTHER -> IF p THEN Rets(<<"1">>) ELSE IF ~ZOdd(n) \/ ZLe(n, Z1) THEN Rets(<<"0">>)
                     ELSE Out(r \in {<<"0">>, <<"1">>}, r, <<>>))
    [] e.op = "mz_search" -> (
       LET f == a[1] z == IF Len(r) = 1 THEN ZHex(r[1]) ELSE IF Len(r) = 2 /\ r[1] # "CRASH" THEN ZHex(r[2]) ELSE Z(-1) IN
       CASE f = "nextprime" -> Puts(<<>>, <<<<a[2], NextPrime(R(3) ++ Z1)>>>>)
         [] f = "findprime" -> LET q == FindPrime(R(3), R(3) ++ ZHex(a[4])) IN
              IF q = Z(-1) THEN Puts(<<"0">>, <<<<a[2], z>>>>) ELSE Puts(<<"1">>, <<<<a[2], q>>>>)
         [] f = "randprime" -> Out(ZPrime(z) /\ ZBitLen(z) = a[4], <<>>, <<<<a[2], z>>>>)
         [] f = "urandomb" -> Out(ZSgn(z) >= 0 /\ ZBitLen(z) <= a[4], <<>>, <<<<a[2], z>>>>)
         [] f = "urandomm" -> Out(ZSgn(z) >= 0 /\ ZLt(z, ZAbs(R(3))), <<>>, <<<<a[2], z>>>>))
    [] e.op = "mz_import" -> (Puts(<<>>, <<<<a[1], IF a[3] = 1 THEN ZBE(Hex(a[2])) ELSE ZLE(Hex(a[2]))>>>>))
    [] e.op = "mz_export" -> (Rets(<<ToHex(IF a[3] = 1 THEN BEZ(ZAbs(R(1)), a[2]) ELSE LEZ(ZAbs(R(1)), a[2]))>>))
    [] e.op \in {"mz_setstr", "mz_initstr"} -> (LET v == FromStr(Hex(a[2]), a[3]) IN
         IF v = None THEN Puts(<<"0">>, <<<<a[1], Z0>>>>) ELSE Puts(<<"1">>, <<<<a[1], v[1]>>>>))
    [] e.op \in {"mz_getstr", "mz_print"} -> (Rets(<<ToHex(ToStr(R(1), a[2]))>>))
    [] e.op = "mz_realloc" -> (LET w == IF r[1] = "4" THEN 32 ELSE 64 IN
         Puts(<<r[1]>>, <<<<a[1], IF ZBitLen(ZAbs(R(1))) > w * (IF a[2] < 1 THEN 1 ELSE a[2]) THEN Z0 ELSE R(1)>>>>))
    [] e.op = "mz_realloc2" -> (LET w == IF r[1] = "4" THEN 32 ELSE 64 IN
         Puts(<<r[1]>>, <<<<a[1], IF CeilDiv(ZBitLen(ZAbs(R(1))), w) > CeilDiv(IF a[2] < 1 THEN 1 ELSE a[2], w) THEN Z0 ELSE R(1)>>>>))
    [] e.op = "mz_cleanse" -> (Puts(<<>>, <<<<a[1], Z0>>>>))

(***************************************************************************)
(* Vectors of limbs: values modulo B^n with carries; w is the limb width.  *)
(***************************************************************************)
Vec(e) ==
  LET a == e.a
      r == e.r
      w == IF r[1] = "4" THEN 32 ELSE 64
      V(k) == ZBE(Hex(a[k]))
      NB(k) == 4 * Len(a[k])                \* width in bits of operand k (hexadecimal text)
      W(v, k) == HexZ(Low(v, NB(k)))
      Carry(v, k) == HexZ(ZShr(v, NB(k)))   \* what does not fit
      Borrow(v, k) == HexZ(ZNeg(ZShr(v, NB(k))))
      Ones(k) == Z2(NB(k)) -- Z1
      H(v) == HexZ(v)
  IN
  CASE e.op = "mn_vec" -> (
       LET f == a[1] x == V(2) y == V(3) c == a[5] IN
       CASE f \in {"add", "add_n", "sec_add"} -> <<r[1], Carry(x ++ y, 2), W(x ++ y, 2)>>
         [] f \in {"sub", "sub_n", "sec_sub"} -> <<r[1], Borrow(x -- y, 2), W(x -- y, 2)>>
         [] f = "and_n" -> <<r[1], H(ZAnd(x, y))>>
         [] f = "ior_n" -> <<r[1], H(ZOr(x, y))>>
         [] f = "xor_n" -> <<r[1], H(ZXor(x, y))>>
         [] f = "andn_n" -> <<r[1], H(ZAnd(x, Ones(2) -- y))>>
         [] f = "iorn_n" -> <<r[1], H(ZOr(x, Ones(2) -- y))>>
         [] f = "nand_n" -> <<r[1], H(Ones(2) -- ZAnd(x, y))>>
         [] f = "nior_n" -> <<r[1], H(Ones(2) -- ZOr(x, y))>>
         [] f = "xnor_n" -> <<r[1], H(Ones(2) -- ZXor(x, y))>>
         [] f = "cnd_add_n" -> LET v == IF c = 0 THEN x ELSE x ++ y IN <<r[1], Carry(v, 2), W(v, 2)>>
         [] f = "cnd_sub_n" -> LET v == IF c = 0 THEN x ELSE x -- y IN <<r[1], Borrow(v, 2), W(v, 2)>>
         [] f = "cnd_select" -> <<r[1], H(IF c = 0 THEN x ELSE y)>>
         [] f = "cnd_swap" -> IF c = 0 THEN <<r[1], H(y), H(x)>> ELSE <<r[1], H(x), H(y)>>)
    [] e.op = "mn_lim" -> (
       LET f == a[1] x == V(2) u == ZHex(a[3]) k == IF ZBitLen(u) < 31 THEN ZInt(u) ELSE 0 IN
       <<r[1]>> \o
       CASE f \in {"add_1", "sec_add_1"} -> <<Carry(x ++ u, 2), W(x ++ u, 2)>>
         [] f \in {"sub_1", "sec_sub_1"} -> <<Borrow(x -- u, 2), W(x -- u, 2)>>
         [] f = "mul_1" -> <<Carry(x ** u, 2), W(x ** u, 2)>>
         [] f = "divmod_1" -> <<H(x %% u), H(x // u)>>
         [] f = "mod_1" -> <<H(x %% u), H(x)>>
         [] f = "cnd_zero" -> <<H(IF u = Z0 THEN x ELSE Z0)>>
         [] f = "cnd_neg" -> IF u = Z0 THEN <<"0", H(x)>> ELSE <<B01(x # Z0), W(ZNeg(x), 2)>>
         [] f = "neg" -> <<B01(x # Z0), W(ZNeg(x), 2)>>
         [] f = "com" -> <<H(Ones(2) -- x)>>
         [] f = "lshift" -> <<Carry(ZShl(x, k), 2), W(ZShl(x, k), 2)>>
         [] f = "rshift" -> <<H(Low(x, k)), H(ZShr(x, k))>>
         [] f = "mask" -> <<H(Low(x, k))>>
         [] f = "setbit" -> <<H(SetBit(x, k))>>
         [] f = "clrbit" -> <<H(ClrBit(x, k))>>
         [] f = "combit" -> <<H(ComBit(x, k))>>
         [] f = "scan0" -> <<Bits(Scan0(x, k)), H(x)>>
         [] f = "scan1" -> <<Bits(Scan1(x, k)), H(x)>>
         [] f = "getbit" -> <<N(ZBit(x, k)), H(x)>>
         [] f = "sizeinbase" -> <<N(BaseLen(x, Z(k))), H(x)>>
         [] f \in {"div_1", "divexact_1"} -> <<H(x // u)>>
         [] f = "set_1" -> <<H(u)>>
         [] f \in {"zero", "cleanse"} -> <<"0">>
         [] f = "tstbit" -> <<N(ZBit(x, k)), H(x)>>
         [] f = "ctz" -> <<N(IF x = Z0 THEN NB(2) ELSE TrailingZeros(x)), H(x)>>
         \* copies within the vector by k bytes, down and up
         [] f = "copyi" -> <<H(ZShr(x, 8 * k) ++ ZShl(ZShr(x, NB(2) - 8 * k), NB(2) - 8 * k))>>
         [] f = "copyd" -> <<H(Low(x, 8 * k) ++ ZShl(Low(x, NB(2) - 8 * k), 8 * k))>>)
    \* unsigned digits; what does not fit is refused
    [] e.op = "mn_setstr" -> (
       LET v == Value(UpTo0(Hex(a[1])), a[3]) IN
       IF v = None THEN <<"0", "0">> ELSE IF ZBitLen(v[1]) > 8 * a[2] THEN <<"0", "0">> ELSE <<"1", H(v[1])>>)
    [] e.op = "mn_getstr" -> (LET t == ToStr(V(1), a[2]) IN <<N(Len(t)), ToHex(t), ToHex(t)>>)
    \* any cofactor below y
    [] e.op = "mn_gcdext" -> (
       LET x == V(1) y == V(2) g == ZGcd(x, y)
           c == IF Len(r) = 6 /\ r[4] \in {"-1", "0", "1"} THEN (IF r[4] = "-1" THEN ZNeg(ZHex(r[6])) ELSE ZHex(r[6])) ELSE Z0
           good == Congruent(c ** x, g, y) /\ ZLt(ZAbs(c), y)
       IN <<r[1], N(CeilDiv(ZBitLen(g), w)), H(g), N(ZSgn(c)), N(CeilDiv(ZBitLen(ZAbs(c)), w)), IF good THEN H(ZAbs(c)) ELSE "cofactor">>)
    [] e.op = "mn_random" -> (<<H(ZBE(Tup([i \in 1..(NB(1) \div 8) |-> a[2]])))>>)
    [] e.op = "mn_randomm" -> (IF Len(r) = 1 /\ (ZLt(ZHex(r[1]), V(1)) \/ (V(1) = Z0 /\ r[1] = "0")) THEN r ELSE <<"below the bound">>)
    [] e.op = "mn_getbits" -> (<<H(Low(ZShr(V(1), a[2]), a[3]))>>)
    [] e.op = "mn_acc" -> (
       LET z == V(2) p == V(3) ** ZHex(a[4]) IN
       IF a[1] = "addmul_1" THEN <<r[1], Carry(z ++ p, 2), W(z ++ p, 2)>> ELSE <<r[1], Borrow(z -- p, 2), W(z -- p, 2)>>)
    [] e.op = "mn_mul" -> (<<H(V(2) ** (IF a[1] = "sqr" THEN V(2) ELSE V(3)))>>)
    [] e.op = "mn_mulshift" -> (LET v == MulShift(V(1), V(2), a[3]) IN <<r[1], Carry(v, 1), W(v, 1)>>)
    [] e.op = "mn_div" -> (
       LET f == a[1] q == V(2) // V(3) m == V(2) %% V(3) IN
       CASE f = "divmod" -> <<H(q), H(m)>> [] f = "mod" -> <<H(m)>> [] OTHER -> <<H(q)>>)
    [] e.op = "mn_sqrtrem" -> (
       LET x == V(1) z == ZSqrt(x) d == x -- z ** z IN <<r[1], N(CeilDiv(ZBitLen(d), w)), H(z), H(d), B01(d = Z0)>>)
    [] e.op = "mn_reduceweak" -> (
       LET v == ZShl(ZHex(a[3]), NB(1)) ++ V(1) n == V(2) IN
       IF ZGe(v, n) THEN <<r[1], "1", W(v -- n, 1)>> ELSE <<r[1], "0", W(v, 1)>>)
    [] e.op = "mn_barrett" -> (<<H(V(1) %% V(2))>>)
    [] e.op = "mn_mont" -> (
       LET x == V(1) y == V(2) m == V(3)
           rr == Z2(NB(3)) %% m
           prod == (x ** y ** ZInv(Z2(NB(3)) %% m, m)) %% m
           k == (ZNeg(ZInv(Low(m, w), Z2(w)))) %% Z2(w)
           almost == IF Len(r) = 5 THEN ZHex(r[4]) ELSE Z0
       IN IF Len(r) = 5 /\ Congruent(almost, prod, m) /\ ZSgn(almost) >= 0 /\ ZLt(almost, Z2(NB(3)))
          THEN <<r[1], H(k), H((rr ** rr) %% m), r[4], H(prod)>>
          ELSE <<r[1], H(k), H((rr ** rr) %% m), H(prod), H(prod)>>)
    [] e.op = "mn_nt" -> (
       LET f == a[1] x == V(2) y == V(3) IN
       CASE f = "gcd" -> <<H(ZGcd(x, y))>>
         [] f \in {"invert", "invert_n"} -> IF Invertible(x, y) THEN <<"1", H(ZInv(x %% y, y))>> ELSE <<"0", "0">>
         \* modulus prime: zero has no inverse
         [] f \in {"sec_invert", "sec_invert_n"} -> IF EMod(x, y) # Z0 THEN <<"1", H(ZInv(x %% y, y))>> ELSE <<"0", "0">>
         [] OTHER -> <<N(Kronecker(x, y))>>)
    [] e.op = "mn_gcd1" -> (<<H(ZGcd(V(1), ZHex(a[2])))>>)
    [] e.op = "mn_powm" -> (<<H(ZPowMod(V(2), V(3), V(4)))>>)
    [] e.op = "mn_cmp" -> (
       LET x == V(1) y == V(2) c == N(ZSgn(x -- y)) IN
       <<c, c, B01(ZLt(x, y)), B01(ZLe(x, y)), B01(ZGt(x, y)), B01(ZGe(x, y)), B01(x = y), B01(x = Z0), B01(x = Z0),
         N(ZPopCount(ZXor(x, y))), N(ZPopCount(x)), N(ZBitLen(x)), N(ByteLen(x))>>)
    [] e.op = "mn_tab" -> (<<H(Low(ZShr(V(1), 8 * a[2] * a[3]), 8 * a[2]))>>)
    [] e.op = "mn_import" -> (<<H(Low(IF a[3] = 1 THEN V(1) ELSE ZLE(Hex(a[1])), 8 * a[2]))>>)
    [] e.op = "mn_export" -> (<<ToHex(IF a[3] = 1 THEN BEZ(V(1), a[2]) ELSE LEZ(V(1), a[2]))>>)

Limb(e) == SubSeq(e.op, 1, 2) = "mn"
Written(o) == Tup([i \in 1..Len(o.w) |-> HexZ(o.w[i][2])])
Crashed(e) == e.r # <<>> /\ e.r[1] \in {"CRASH", "TIMEOUT"}
Exp(s, e) == IF Crashed(e) THEN <<"no crash">> ELSE IF Limb(e) THEN Vec(e) ELSE LET o == Step(s, e) IN (IF o.ok THEN <<>> ELSE <<"relation violated">>) \o o.ret \o Written(o)
Ok(s, e) == ~Crashed(e) /\ e.r = Exp(s, e)
RECURSIVE Write(_, _, _)
Write(s, w, i) == IF i > Len(w) THEN s ELSE Write([s EXCEPT ![w[i][1]] = HexZ(w[i][2])], w, i + 1)
Nxt(s, e) == IF Limb(e) THEN s
             ELSE LET o == Step(s, e) IN Write(s, IF "also" \in DOMAIN o THEN o.also ELSE o.w, 1)
TraceInit == TInit(Regs0)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
