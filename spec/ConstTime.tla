----------------------------- MODULE ConstTime -----------------------------
(***************************************************************************)
(* What an observer of branches and addresses sees.                        *)
(*                                                                         *)
(* A machine with words of Bits bits runs a program over public and secret *)
(* arrays.  Each step leaks its program counter and, for a load or store,  *)
(* the cell it touches; the sequence of these is the observation.  A       *)
(* program keeps its secrets if runs whose public inputs agree have equal  *)
(* observations.  The programs below are the idioms the library builds its *)
(* secret operations from, each with a leaking counterpart.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

CONSTANT Bits
M == 2^Bits
Word == 0..(M - 1)

(*--------------------------- the machine --------------------------------*)

Op(f, x, y) ==
  CASE f = "add" -> (x + y) % M
    [] f = "sub" -> (x - y + M) % M
    [] f = "xor" -> x ^^ y
    [] f = "and" -> x & y
    [] f = "or" -> x | y
    [] f = "andnot" -> x & (M - 1 - y)
    [] f = "eq" -> IF x = y THEN 1 ELSE 0          \* computed by arithmetic: ((x ^ y) - 1) >> 31
    [] f = "lt" -> IF x < y THEN 1 ELSE 0          \* computed by arithmetic: (x - y) >> 31
    [] f = "mask" -> IF x # 0 THEN M - 1 ELSE 0    \* -(x != 0) behind a barrier
    [] f = "shl" -> (2 * x) % M

\* a state is [pc, reg, mem]; registers are created when first written, those named by a number hold it
K(v) == ToString(v)
Get(s, r) == s.reg[r]
Put(s, r, v) == [s EXCEPT !.pc = @ + 1, !.reg = [x \in DOMAIN @ \cup {r} |-> IF x = r THEN v ELSE @[x]]]

Step(p, s) ==
  LET i == p[s.pc] IN
  CASE i[1] = "op" -> Put(s, i[2], Op(i[3], Get(s, i[4]), Get(s, i[5])))
    [] i[1] = "set" -> Put(s, i[2], Get(s, i[3]))
    [] i[1] = "ld" -> Put(s, i[2], s.mem[i[3]][Get(s, i[4]) + 1])
    [] i[1] = "st" -> [s EXCEPT !.pc = @ + 1, !.mem[i[2]][Get(s, i[3]) + 1] = Get(s, i[4])]
    [] i[1] = "jz" -> [s EXCEPT !.pc = IF Get(s, i[2]) = 0 THEN i[3] ELSE @ + 1]
    [] i[1] = "jlt" -> [s EXCEPT !.pc = IF Get(s, i[2]) < Get(s, i[3]) THEN i[4] ELSE @ + 1]
    [] i[1] = "halt" -> s

\* what a step shows to the observer
Leak(p, s) ==
  LET i == p[s.pc] IN
  CASE i[1] = "ld" -> <<s.pc, i[3], Get(s, i[4])>>
    [] i[1] = "st" -> <<s.pc, i[2], Get(s, i[3])>>
    [] OTHER -> <<s.pc>>

Halted(p, s) == p[s.pc][1] = "halt"

RECURSIVE Observe(_, _)
Observe(p, s) == IF Halted(p, s) THEN <<>> ELSE <<Leak(p, s)>> \o Observe(p, Step(p, s))
RECURSIVE Result(_, _)
Result(p, s) == IF Halted(p, s) THEN s ELSE Result(p, Step(p, s))

Constants == {K(v) : v \in Word}
Start(mem) == [pc |-> 1, reg |-> [r \in {"out"} \cup Constants |-> IF r = "out" THEN 0 ELSE CHOOSE v \in Word : K(v) = r], mem |-> mem]

(*--------------------------- programs -----------------------------------*)

\* equality of x and y: the differences are collected, nothing is decided before the end
Equal(n) == <<
  <<"set", "acc", "0">>, <<"set", "i", "0">>,
  <<"ld", "a", "x", "i">>, <<"ld", "b", "y", "i">>, <<"op", "d", "xor", "a", "b">>, <<"op", "acc", "or", "acc", "d">>,
  <<"op", "i", "add", "i", "1">>, <<"jlt", "i", K(n), 3>>,
  <<"op", "out", "eq", "acc", "0">>, <<"halt">> >>
EqualEarly(n) == <<
  <<"set", "i", "0">>,
  <<"ld", "a", "x", "i">>, <<"ld", "b", "y", "i">>, <<"op", "d", "eq", "a", "b">>, <<"jz", "d", 9>>,
  <<"op", "i", "add", "i", "1">>, <<"jlt", "i", K(n), 2>>,
  <<"set", "out", "1">>, <<"halt">> >>

\* lexicographic x < y from the last word to the first
Less(n) == <<
  <<"set", "out", "0">>, <<"set", "i", K(n)>>,
  <<"op", "i", "sub", "i", "1">>, <<"ld", "a", "x", "i">>, <<"ld", "b", "y", "i">>,
  <<"op", "lt", "lt", "a", "b">>, <<"op", "eq", "eq", "a", "b">>, <<"op", "out", "and", "out", "eq">>, <<"op", "out", "or", "out", "lt">>,
  <<"jlt", "0", "i", 3>>, <<"halt">> >>

\* entry k of a table: every entry is read and masked
TabScan(n) == <<
  <<"ld", "k", "sec", "0">>, <<"set", "out", "0">>, <<"set", "i", "0">>,
  <<"ld", "v", "tab", "i">>, <<"op", "c", "eq", "i", "k">>, <<"op", "m", "mask", "c", "0">>,
  <<"op", "v", "and", "v", "m">>, <<"op", "w", "andnot", "out", "m">>, <<"op", "out", "or", "v", "w">>,
  <<"op", "i", "add", "i", "1">>, <<"jlt", "i", K(n), 4>>, <<"halt">> >>
TabIndex == << <<"ld", "k", "sec", "0">>, <<"ld", "out", "tab", "k">>, <<"halt">> >>

\* the multiple k x g with the bits of k in sec, most significant first (the group is addition of words):
\* ladder with masked swaps, and fixed additions of a masked table entry
Ladder(n) == <<
  <<"set", "a", "0">>, <<"ld", "b", "g", "0">>, <<"set", "sw", "0">>, <<"set", "i", "0">>,
  <<"ld", "k", "sec", "i">>, <<"op", "sw", "xor", "sw", "k">>, <<"op", "m", "mask", "sw", "0">>,
  <<"op", "w", "xor", "a", "b">>, <<"op", "w", "and", "w", "m">>, <<"op", "a", "xor", "a", "w">>, <<"op", "b", "xor", "b", "w">>,
  <<"set", "sw", "k">>,
  <<"op", "b", "add", "a", "b">>, <<"op", "a", "add", "a", "a">>,
  <<"op", "i", "add", "i", "1">>, <<"jlt", "i", K(n), 5>>,
  <<"op", "m", "mask", "sw", "0">>, <<"op", "w", "xor", "a", "b">>, <<"op", "w", "and", "w", "m">>, <<"op", "out", "xor", "a", "w">>, <<"halt">> >>
AddAlways(n) == <<
  <<"set", "a", "0">>, <<"ld", "g", "g", "0">>, <<"set", "i", "0">>,
  <<"ld", "k", "sec", "i">>, <<"op", "a", "add", "a", "a">>, <<"op", "m", "mask", "k", "0">>, <<"op", "v", "and", "g", "m">>, <<"op", "a", "add", "a", "v">>,
  <<"op", "i", "add", "i", "1">>, <<"jlt", "i", K(n), 4>>, <<"set", "out", "a">>, <<"halt">> >>
AddBranch(n) == <<
  <<"set", "a", "0">>, <<"ld", "g", "g", "0">>, <<"set", "i", "0">>,
  <<"ld", "k", "sec", "i">>, <<"op", "a", "add", "a", "a">>, <<"jz", "k", 8>>, <<"op", "a", "add", "a", "g">>,
  <<"op", "i", "add", "i", "1">>, <<"jlt", "i", K(n), 4>>, <<"set", "out", "a">>, <<"halt">> >>
AddSkipZeros(n) == <<
  \* starts at the highest bit that is set
  <<"set", "a", "0">>, <<"ld", "g", "g", "0">>, <<"set", "i", "0">>,
  <<"ld", "k", "sec", "i">>, <<"jz", "k", 13>>,
  <<"ld", "k", "sec", "i">>, <<"op", "a", "add", "a", "a">>, <<"op", "m", "mask", "k", "0">>, <<"op", "v", "and", "g", "m">>, <<"op", "a", "add", "a", "v">>,
  <<"op", "i", "add", "i", "1">>, <<"jlt", "i", K(n), 6>>,
  <<"op", "i", "add", "i", "1">>, <<"jlt", "i", K(n), 4>>, <<"set", "out", "a">>, <<"halt">> >>

\* padding of n words: the last word counts the words that repeat it; out is 1 if well formed
Unpad(n) == <<
  <<"ld", "left", "x", K(n - 1)>>, <<"op", "z", "eq", "left", "0">>, <<"op", "res", "xor", "z", "1">>,
  <<"op", "big", "lt", K(n), "left">>, <<"op", "big", "xor", "big", "1">>, <<"op", "res", "and", "res", "big">>,
  <<"op", "m", "mask", "res", "0">>, <<"op", "left", "and", "left", "m">>, <<"op", "end", "sub", K(n), "left">>, <<"set", "i", "0">>,
  <<"ld", "c", "x", "i">>, <<"op", "in", "lt", "i", "end">>, <<"op", "e", "eq", "c", "left">>, <<"op", "e", "or", "e", "in">>, <<"op", "res", "and", "res", "e">>,
  <<"op", "i", "add", "i", "1">>, <<"jlt", "i", K(n), 11>>, <<"set", "out", "res">>, <<"halt">> >>
UnpadLoop(n) == <<
  <<"ld", "left", "x", K(n - 1)>>, <<"jz", "left", 13>>, <<"op", "big", "lt", K(n), "left">>, <<"jlt", "0", "big", 13>>,
  <<"op", "i", "sub", K(n), "left">>,
  <<"ld", "c", "x", "i">>, <<"op", "e", "eq", "c", "left">>, <<"jz", "e", 13>>,
  <<"op", "i", "add", "i", "1">>, <<"jlt", "i", K(n), 6>>,
  <<"set", "out", "1">>, <<"halt">>, <<"set", "out", "0">>, <<"halt">> >>

\* position after the first zero word (0 if there is none): the search never stops early
Separator(n) == <<
  <<"set", "look", "1">>, <<"set", "off", "0">>, <<"set", "i", "0">>,
  <<"ld", "c", "x", "i">>, <<"op", "z", "eq", "c", "0">>, <<"op", "h", "and", "z", "look">>, <<"op", "m", "mask", "h", "0">>,
  <<"op", "i", "add", "i", "1">>,
  <<"op", "v", "and", "i", "m">>, <<"op", "off", "andnot", "off", "m">>, <<"op", "off", "or", "off", "v">>, <<"op", "look", "andnot", "look", "z">>,
  <<"jlt", "i", K(n), 4>>, <<"set", "out", "off">>, <<"halt">> >>

(*--------------------------- their meaning ------------------------------*)

RECURSIVE FirstZero(_, _)
FirstZero(x, i) == IF i > Len(x) THEN 0 ELSE IF x[i] = 0 THEN i ELSE FirstZero(x, i + 1)
RECURSIVE LexLess(_, _, _)
LexLess(x, y, i) == IF i > Len(x) THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LexLess(x, y, i + 1)
RECURSIVE BitsNum(_, _)
BitsNum(b, i) == IF i = 0 THEN 0 ELSE 2 * BitsNum(b, i - 1) + b[i]
WellPadded(x) == LET n == Len(x) l == x[n] IN l \in 1..n /\ \A i \in (n - l + 1)..n : x[i] = l
One(b) == IF b THEN 1 ELSE 0

\* [name, program, secret array, how long, its words, public arrays, meaning of out]
Kinds == {"equal", "less", "tab", "ladder", "always", "unpad", "separator"}
Leaky == {"early", "index", "branch", "skip", "unpadloop"}
Len3 == 3
Tab == [i \in 1..M |-> (5 * i + 3) % M]
Prog(k) ==
  CASE k = "equal" -> Equal(Len3) [] k = "early" -> EqualEarly(Len3) [] k = "less" -> Less(Len3)
    [] k = "tab" -> TabScan(M - 1) [] k = "index" -> TabIndex
    [] k = "ladder" -> Ladder(Len3) [] k = "always" -> AddAlways(Len3) [] k = "branch" -> AddBranch(Len3) [] k = "skip" -> AddSkipZeros(Len3)
    [] k = "unpad" -> Unpad(Len3) [] k = "unpadloop" -> UnpadLoop(Len3) [] k = "separator" -> Separator(Len3)
Words3 == [1..Len3 -> Word]
Secrets(k) ==
  IF k \in {"tab", "index"} THEN {<<w>> : w \in 0..(M - 2)}
  ELSE IF k \in {"ladder", "always", "branch", "skip"} THEN [1..Len3 -> {0, 1}]
  ELSE Words3
Publics(k) == IF k \in {"equal", "early", "less"} THEN {<<0, 0, 0>>, <<1, 2, 3>>, <<M - 1, 0, M - 1>>}
              ELSE IF k \in {"ladder", "always", "branch", "skip"} THEN {<<w>> : w \in Word} ELSE {<<0>>}
Mem(k, p, s) ==
  CASE k \in {"equal", "early", "less"} -> [x |-> s, y |-> p]
    [] k \in {"tab", "index"} -> [tab |-> Tab, sec |-> s]
    [] k \in {"ladder", "always", "branch", "skip"} -> [g |-> p, sec |-> s]
    [] OTHER -> [x |-> s]
Meaning(k, p, s) ==
  CASE k \in {"equal", "early"} -> One(s = p)
    [] k = "less" -> One(LexLess(s, p, 1))
    [] k \in {"tab", "index"} -> Tab[s[1] + 1]
    [] k \in {"ladder", "always", "branch", "skip"} -> (BitsNum(s, Len3) * p[1]) % M
    [] k \in {"unpad", "unpadloop"} -> One(WellPadded(s))
    [] k = "separator" -> FirstZero(s, 1)
=============================================================================
