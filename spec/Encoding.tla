------------------------------ MODULE Encoding -----------------------------
(***************************************************************************)
(* Text encodings (RFC 4648, base 58) and checksummed address formats      *)
(* (BIP 173, CashAddr).  Texts are sequences of character codes.           *)
(***************************************************************************)
EXTENDS BigInt, Words, FiniteSets

None == <<-1>>                                       \* "no value"
Wd(s) == W32BE(Hex(s), 0)
A16  == Hex("30313233343536373839616263646566")
A32  == Hex("6162636465666768696a6b6c6d6e6f707172737475767778797a323334353637")
A32H == Hex("303132333435363738396162636465666768696a6b6c6d6e6f70717273747576")
A58  == Hex("31323334353637383941424344454647484a4b4c4d4e505152535455565758595a6162636465666768696a6b6d6e6f707172737475767778797a")
A64  == Hex("4142434445464748494a4b4c4d4e4f505152535455565758595a6162636465666768696a6b6c6d6e6f707172737475767778797a303132333435363738392b2f")
A64U == Take(A64, 62) \o Hex("2d5f")
AB32 == Hex("71707a7279397838676632747664773073336a6e35346b686365366d7561376c")
Eq == 61
LowerC(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerS(s) == Tup([i \in 1..Len(s) |-> LowerC(s[i])])
\* inverse of an alphabet: code -> symbol value, or -1
Inverse(A) == [c \in 0..255 |-> IF \E k \in 1..Len(A) : A[k] = c THEN (CHOOSE k \in 1..Len(A) : A[k] = c) - 1 ELSE -1]
I16 == Inverse(A16)
I32 == Inverse(A32)
I32H == Inverse(A32H)
I58 == Inverse(A58)
I64 == Inverse(A64)
I64U == Inverse(A64U)
IB32 == Inverse(AB32)

----------------------------------------------------------------------------
\* Regrouping of bits: a sequence of f-bit values as t-bit values, most significant first
BitsOf(s, f) == Tup([i \in 1..(Len(s) * f) |-> (s[((i - 1) \div f) + 1] \div (2^(f - 1 - ((i - 1) % f)))) % 2])
Group(b, t, n) == LET v(k) == LET g(acc, j) == 2 * acc + (IF t * k + j + 1 <= Len(b) THEN b[t * k + j + 1] ELSE 0) IN Iter(g, 0, t)
                  IN Tup([k \in 1..n |-> v(k - 1)])
\* with padding: all bits, the last group filled with zeros
Regroup(s, f, t) == Group(BitsOf(s, f), t, CeilDiv(Len(s) * f, t))
\* without: whole groups only, and what is left must be fewer than f zero bits
Exact(s, f, t) == LET b == BitsOf(s, f)
                      n == Len(b) \div t
                  IN IF Len(b) - n * t >= f \/ \E i \in (n * t + 1)..Len(b) : b[i] # 0 THEN None ELSE Group(b, t, n)

----------------------------------------------------------------------------
\* variants: alphabet, bits per symbol, symbols per padded quantum (0: no padding), case insensitive
V(v) == CASE v = "16" -> [A |-> A16, I |-> I16, k |-> 4, q |-> 1, ci |-> TRUE]
          [] v = "16le" -> [A |-> A16, I |-> I16, k |-> 4, q |-> 1, ci |-> TRUE]
          [] v = "32" -> [A |-> A32, I |-> I32, k |-> 5, q |-> 8, ci |-> TRUE]
          [] v = "32hex" -> [A |-> A32H, I |-> I32H, k |-> 5, q |-> 8, ci |-> TRUE]
          [] v = "64" -> [A |-> A64, I |-> I64, k |-> 6, q |-> 4, ci |-> FALSE]
          [] v = "64url" -> [A |-> A64U, I |-> I64U, k |-> 6, q |-> 4, ci |-> FALSE]
          [] v = "58" -> [A |-> A58, I |-> I58, k |-> 0, q |-> 1, ci |-> FALSE]
Order(v, b) == IF v = "16le" THEN Rev(b) ELSE b
PadTo(s, q) == s \o Rep(Eq, (q - (Len(s) % q)) % q)
RECURSIVE LeadZ(_, _)
LeadZ(b, i) == IF i <= Len(b) /\ b[i] = 0 THEN LeadZ(b, i + 1) ELSE i - 1
RECURSIVE Digits(_, _)
Digits(n, acc) == IF n = Z(0) THEN acc ELSE Digits(n // Z(58), <<ZInt(n %% Z(58))>> \o acc)
Enc58(b) == LET d == Digits(ZBE(b), <<>>) IN Rep(49, LeadZ(b, 1)) \o Tup([i \in 1..Len(d) |-> A58[d[i] + 1]])
EncV(v, b, pad) ==
  IF v = "58" THEN Enc58(b)
  ELSE LET x == V(v)
           g == Regroup(Order(v, b), 8, x.k)
           s == Tup([i \in 1..Len(g) |-> x.A[g[i] + 1]])
       IN IF pad THEN PadTo(s, x.q) ELSE s
\* the padding characters taken off (as many as a quantum can carry), the symbols regrouped
RECURSIVE Strip(_, _)
Strip(s, n) == IF n > 0 /\ Len(s) > 0 /\ s[Len(s)] = Eq THEN Strip(Take(s, Len(s) - 1), n - 1) ELSE s
Val58(s) == LET f(acc, c) == acc ** Z(58) ++ Z(I58[c]) IN Fold(f, Z(0), s)
RECURSIVE Ones(_, _)
Ones(s, i) == IF i <= Len(s) /\ s[i] = 49 THEN Ones(s, i + 1) ELSE i - 1
ZBytes(n) == CeilDiv(ZBitLen(n), 8)
Cand(v, s, pad) ==
  LET x == V(v)
      t == IF pad THEN Strip(s, x.q - 1) ELSE s
      w == IF x.ci THEN LowerS(t) ELSE t
  IN IF \E i \in 1..Len(w) : x.I[w[i]] < 0 THEN None
     ELSE IF v = "58" THEN LET n == Val58(w) IN Zeros(Ones(w, 1)) \o BEZ(n, ZBytes(n))
     ELSE LET g == Exact(Tup([i \in 1..Len(w) |-> x.I[w[i]]]), x.k, 8) IN IF g = None THEN None ELSE Order(v, g)
\* accepted exactly when the text is the encoding of the candidate
DecV(v, s, pad) ==
  LET b == Cand(v, s, pad)
      w == IF V(v).ci THEN LowerS(s) ELSE s
  IN IF b = None THEN None ELSE IF EncV(v, b, pad) = w THEN b ELSE None

----------------------------------------------------------------------------
\* Bech32 (BIP 173): checksum over GF(32), generator constants as 30-bit words
BGen == <<996825010, 642813549, 513874426, 1027748829, 705979059>>
BPoly(c) == LET b == WShr(c, 25)
                f(acc, i) == IF WAnd(WShr(b, i), 1) = 1 THEN WXor(acc, BGen[i + 1]) ELSE acc
            IN Iter(f, WShl(WAnd(c, 33554431), 5), 5)
BMod(vals) == LET f(c, v) == WXor(BPoly(c), v) IN Fold(f, 1, vals)
BHrp(h) == Tup([i \in 1..Len(h) |-> h[i] \div 32]) \o <<0>> \o Tup([i \in 1..Len(h) |-> h[i] % 32])
Printable(s) == \A i \in 1..Len(s) : s[i] >= 33 /\ s[i] <= 126
HasUpper(s) == \E i \in 1..Len(s) : s[i] >= 65 /\ s[i] <= 90
HasLower(s) == \E i \in 1..Len(s) : s[i] >= 97 /\ s[i] <= 122
Syms(s) == Tup([i \in 1..Len(s) |-> AB32[s[i] + 1]])
B32Ser(hrp, data, chk) ==
  IF Len(hrp) = 0 \/ Len(hrp) > 83 \/ ~Printable(hrp) \/ HasUpper(hrp) \/ Len(hrp) + Len(data) + 7 > 90
     \/ \E i \in 1..Len(data) : data[i] > 31 THEN None
  ELSE LET m == WXor(BMod(BHrp(hrp) \o data \o Zeros(6)), chk)
           c == Tup([i \in 1..6 |-> WAnd(WShr(m, 5 * (6 - i)), 31)])
       IN hrp \o <<49>> \o Syms(data \o c)
\* position of the last separator, 0 if none
LastSep(s, ch) == LET p == {i \in 1..Len(s) : s[i] = ch} IN IF p = {} THEN 0 ELSE CHOOSE i \in p : \A j \in p : j <= i
\* <<hrp, data>> or None; accepted exactly when re-encoding gives the text (in lower case)
B32Des(s, chk) ==
  LET w == LowerS(s)
      k == LastSep(w, 49)
  IN IF ~Printable(s) \/ (HasUpper(s) /\ HasLower(s)) \/ Len(s) > 90 \/ k < 2 \/ Len(s) - k < 6 THEN None
     ELSE LET h == Take(w, k - 1)
              d == Drop(w, k)
          IN IF \E i \in 1..Len(d) : IB32[d[i]] < 0 THEN None
             ELSE LET v == Tup([i \in 1..(Len(d) - 6) |-> IB32[d[i]]])
                  IN IF B32Ser(h, v, chk) = w THEN <<h, v>> ELSE None
B32Enc(hrp, ver, hash, chk) ==
  IF ver > 31 \/ Len(hash) < 2 \/ Len(hash) > 40 THEN None ELSE B32Ser(hrp, <<ver>> \o Regroup(hash, 8, 5), chk)
B32Dec(s, chk) ==
  LET x == B32Des(s, chk) IN
  IF x = None \/ Len(x[2]) = 0 THEN None
  ELSE LET h == Exact(Drop(x[2], 1), 5, 8)
       IN IF h = None \/ Len(h) < 2 \/ Len(h) > 40 THEN None ELSE <<x[1], x[2][1], h>>

----------------------------------------------------------------------------
\* CashAddr: 40-bit checksum, values as <<high, low>> words
CGen == <<<<152, Wd("f2bc8e61")>>, <<121, Wd("b76d99e2")>>, <<243, Wd("3e5fb3c4")>>, <<174, Wd("2eabe2a8")>>, <<30, Wd("4f43e470")>>>>
CPoly(c) == LET b == WShr(c[1], 3)                                    \* bits 35..39
                low == <<WAnd(c[1], 7), c[2]>>
                f(acc, i) == IF WAnd(WShr(b, i), 1) = 1 THEN LXor(acc, CGen[i + 1]) ELSE acc
            IN Iter(f, <<WOr(WShl(low[1], 5), WShr(low[2], 27)), WShl(low[2], 5)>>, 5)
CMod(vals) == LET f(c, v) == LXor(CPoly(c), <<0, v>>) IN Fold(f, <<0, 1>>, vals)
C5(m, i) == LET sh == 5 * (7 - i) IN                                 \* i-th group of five bits, i in 0..7
            IF sh >= 32 THEN WAnd(WShr(m[1], sh - 32), 31)
            ELSE WAnd(WOr(WShr(m[2], sh), IF sh = 0 THEN 0 ELSE WShl(m[1], 32 - sh)), 31)
AllLower(s) == \A i \in 1..Len(s) : s[i] >= 97 /\ s[i] <= 122
C32Ser(p, data) ==
  IF Len(p) = 0 \/ Len(p) > 83 \/ ~AllLower(p) \/ Len(data) > 104 \/ \E i \in 1..Len(data) : data[i] > 31 THEN None
  ELSE LET m == LXor(CMod(Tup([i \in 1..Len(p) |-> p[i] % 32]) \o <<0>> \o data \o Zeros(8)), <<0, 1>>)
       IN p \o <<58>> \o Syms(data \o Tup([i \in 1..8 |-> C5(m, i - 1)]))
AlNum(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
\* fallback: the prefix to assume when the text has none
C32Des(s, fallback) ==
  LET w == LowerS(s)
      k == LastSep(w, 58)
      p == IF k = 0 THEN fallback ELSE Take(w, k - 1)
      d == Drop(w, k)
  IN IF (HasUpper(s) /\ HasLower(s)) \/ Len(s) > 196 \/ Len(d) < 8 \/ Len(d) > 112
        \/ (\E i \in 1..Len(s) : i # k /\ ~AlNum(s[i])) \/ Len(p) = 0 \/ Len(p) > 83 \/ ~AllLower(p)
        \/ \E i \in 1..Len(d) : IB32[d[i]] < 0 THEN None
     ELSE LET v == Tup([i \in 1..(Len(d) - 8) |-> IB32[d[i]]])
          IN IF C32Ser(p, v) = p \o <<58>> \o d THEN <<p, v>> ELSE None
CSizes == <<20, 24, 28, 32, 40, 48, 56, 64>>
C32Enc(p, type, hash) ==
  IF type > 15 \/ \A i \in 1..8 : CSizes[i] # Len(hash) THEN None
  ELSE C32Ser(p, Regroup(<<8 * type + (CHOOSE i \in 1..8 : CSizes[i] = Len(hash)) - 1>> \o hash, 8, 5))
C32Dec(s, expect) ==
  LET x == C32Des(s, expect) IN
  IF x = None THEN None
  ELSE IF x[1] # expect THEN None
  ELSE LET b == Exact(x[2], 5, 8)
       IN IF b = None THEN None
          ELSE IF Len(b) = 0 THEN None
          ELSE IF b[1] >= 128 \/ CSizes[(b[1] % 8) + 1] # Len(b) - 1 THEN None
          ELSE <<b[1] \div 8, Drop(b, 1)>>
\* texts end at the first zero byte
RECURSIVE CStrR(_, _)
CStrR(s, i) == IF i > Len(s) \/ s[i] = 0 THEN Take(s, i - 1) ELSE CStrR(s, i + 1)
CStr(s) == CStrR(s, 1)
=============================================================================
