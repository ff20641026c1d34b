------------------------------- MODULE TrFock -------------------------------
(* Recorded bases and index maps (P01), fermion operators (P02) and displays *)
(* of states (P03).                                                          *)
EXTENDS Observe, Fock, Cx

VARIABLES l, bad

Occupied(o) == {i-1 : i \in {j \in DOMAIN o : o[j] = 1}}     \* a list of occupations as a set of modes
Lists(s) == \A i, j \in DOMAIN s : i < j => s[i] # s[j]

(* ---- P01 *)
BasisFails(e) == Failing(<< <<"basis", IsBasis(e.states, e.n, e.p)>>,
                            <<"dimension", e.dims = [k \in 1..(e.n+1) |-> Binom(e.n, e.p) * Binom(e.n, k-1)]>> >>)
(* Large n: the states are given by their occupied modes. *)
Higher(a, b) == LET x == (a \ b) \cup (b \ a) IN x # {} /\ (CHOOSE m \in x : \A k \in x : k <= m) \in b
WideFails(e) == LET S == TLCEval([i \in DOMAIN e.modes |-> Range(e.modes[i])])
                IN Failing(<< <<"basis", /\ Len(S) = Binom(e.n, e.p)
                                         /\ \A i \in DOMAIN S : Cardinality(S[i]) = e.p /\ S[i] \subseteq 0..(e.n-1)
                                         /\ \A i \in 1..(Len(S)-1) : Higher(S[i], S[i+1])>> >>)
SearchFails(e) == Failing(<< <<"search", e.out = [i \in DOMAIN e.q |-> IndexIn(e.states, e.q[i])]>> >>)
IndexFails(e) == Failing(<<
     <<"spin-indices", e.spin = [i \in 1..(e.dup*e.dwn) |-> SpinIndices(i-1, e.dup)]>>,
     <<"state-index", e.state = [i \in 1..(e.dup*e.dwn) |-> StateIndex((i-1) % e.dup, (i-1) \div e.dup, e.dup)]>> >>)
SectorFails(e) == Failing(<<
     <<"charges", e.charges = [k \in 1..((e.n+1)*(e.n+1)) |-> NumSpins(k-1, e.n)]>>,
     <<"sector-number", e.number = [k \in 1..((e.n+1)*(e.n+1)) |-> SectorIndex(e.n, (k-1) \div (e.n+1), (k-1) % (e.n+1))]>>,
     <<"neighbours", \A i \in DOMAIN e.moves :
           LET x == e.moves[i]
               t == IF x.add THEN AddTo(e.n, x.q, x.spin) ELSE TakeFrom(x.q, x.spin)
           IN x.to = t /\ x.error = (IF t = <<>> THEN "OutOfHilbertError" ELSE "")>>,
     <<"all-asked", Len(e.moves) = 4 * (e.n+1) * (e.n+1)>> >>)
EmptySectorFails(e) == Failing(<<
     <<"sector-states", IF Len(e.q) = 1 THEN IsBasis(e.states, 2 * e.n, e.q[1])
                        ELSE IsBasis(e.up, e.n, e.q[1]) /\ IsBasis(e.dw, e.n, e.q[2])>>,
     <<"dimension", e.d = IF Len(e.q) = 1 THEN Binom(2 * e.n, e.q[1]) ELSE Binom(e.n, e.q[1]) * Binom(e.n, e.q[2])>> >>)
DimsFails(e) ==
   LET f(k) == IF e.sym = "N" THEN Binom(2 * e.n, k) ELSE Binom(e.n, NumSpins(k, e.n)[1]) * Binom(e.n, NumSpins(k, e.n)[2])
       m(x) == IF e.max = 0 \/ x <= e.max THEN x ELSE e.max
   IN Failing(<< <<"sector-dimensions", e.dims = [k \in 1..(IF e.sym = "N" THEN 2*e.n+1 ELSE (e.n+1)*(e.n+1)) |-> m(f(k-1))]>> >>)

(* ---- P02: x = <<state, mode(s), sign, result>> with states as numbers *)
ActFails(e) == Failing(<<
     <<"creation", \A i \in DOMAIN e.cdg : LET x == e.cdg[i] IN <<x[3], x[4]>> = Cre(x[1], x[2], e.n)>>,
     <<"annihilation", \A i \in DOMAIN e.c : LET x == e.c[i] IN <<x[3], x[4]>> = Ann(x[1], x[2], e.n)>>,
     <<"hop", \A i \in DOMAIN e.hop : LET x == e.hop[i] IN <<x[4], x[5]>> = Apply(<<<<"d", x[2]>>, <<"c", x[3]>>>>, x[1], e.n)>>,
     <<"predicates", \A i \in DOMAIN e.check : LET x == e.check[i] IN x[3] = Bit(x[1], x[2]) /\ x[4] = 1 - Bit(x[1], x[2])>>,
     <<"counting", \A i \in DOMAIN e.bits : e.bits[i][2] = Count(e.bits[i][1], e.n)>>,
     <<"every-pattern", e.all => /\ {<<e.cdg[i][1], e.cdg[i][2]>> : i \in DOMAIN e.cdg} = {p \in (0..(P2[e.n]-1)) \X (0..(e.n-1)) : Bit(p[1], p[2]) = 0}
                                 /\ {<<e.c[i][1], e.c[i][2]>> : i \in DOMAIN e.c} = {p \in (0..(P2[e.n]-1)) \X (0..(e.n-1)) : Bit(p[1], p[2]) = 1}>> >>)
(* The same on sets of modes, up to the 32 modes a state has room for. *)
Above(S, i) == Cardinality({m \in S : m > i})
Strictly(S, i, j) == Cardinality({m \in S : (i < m /\ m < j) \/ (j < m /\ m < i)})
WideActFails(e) ==
   LET S == Range(e.modes)
       T == Range(e.to)
   IN Failing(<< <<"creation", e.kind = "cdg" => T = S \cup {e.i} /\ e.sign = Parity(Above(S, e.i))>>,
                 <<"annihilation", e.kind = "c" => T = S \ {e.i} /\ e.sign = Parity(Above(S, e.i))>>,
                 <<"hop", e.kind = "hop" => T = (S \ {e.j}) \cup {e.i} /\ e.sign = Parity(Strictly(S, e.i, e.j))>>,
                 <<"predicates", e.full = (IF e.i \in S THEN 1 ELSE 0) /\ e.empty = 1 - e.full>>,
                 <<"counting", e.bits = Cardinality(S)>>,
                 <<"restored", e.back = [sign |-> 1, modes |-> e.modes]>> >>)
(* Two operators in the two orders: the states agree and the signs differ. *)
AlgebraFails(e) == Failing(<< <<"anticommute", e.ab[2] = e.ba[2] /\ e.ab[1] = -e.ba[1]>> >>)

(* ---- P03 *)
RECURSIVE BitText(_,_,_)
BitText(s, i, n) == IF i = n THEN "" ELSE (IF Bit(s, i) = 1 THEN "1" ELSE "0") \o BitText(s, i+1, n)
RECURSIVE Label(_,_,_,_)
Label(u, d, i, n) == (IF i = 0 THEN "|" ELSE ",") \o
                     (IF Bit(u, i) = 0 /\ Bit(d, i) = 0 THEN "o" ELSE (IF Bit(u, i) = 1 THEN "u" ELSE "") \o (IF Bit(d, i) = 1 THEN "d" ELSE ""))
                     \o (IF i = n-1 THEN ">" ELSE Label(u, d, i+1, n))
RepFails(e) == Failing(<<
     <<"array", e.array = [i \in 1..e.n |-> Bit(e.s, i-1)] /\ e.arr = e.array>>,
     <<"string", e.string = BitText(e.s, 0, e.n) /\ e.str = e.string>>,
     <<"inverse", e.fromarray = e.s /\ e.fromstring = e.s /\ e.fromlist = e.s>>,
     <<"counting", e.bits = Count(e.s, e.n)>> >>)
LabelFails(e) == Failing(<< <<"label", e.text = Label(e.u, e.d, 0, e.n)>> >>)

(* e.scts: the eigenspace; e.lines: what was printed, energy by energy.      *)
Labels(x, n) == IF Len(x.q) = 1 THEN [i \in DOMAIN x.states |-> Label(x.states[i] % P2[n], x.states[i] \div P2[n], 0, n)]
                ELSE [i \in 1..(Len(x.up) * Len(x.dw)) |-> Label(x.up[((i-1) % Len(x.up)) + 1], x.dw[((i-1) \div Len(x.up)) + 1], 0, n)]
SameEnergy(text, w) == RNear(text, w, RAdd("1e-300", RMul("0.00051", RAbs(w))))
Shows(ln, x, k, n) ==      \* the line ln is eigenpair k of sector x
   LET lb == Labels(x, n)
   IN /\ ln.q = x.q /\ SameEnergy(ln.e, x.w[k])
      /\ \A i \in DOMAIN ln.labels : \E j \in DOMAIN lb : lb[j] = ln.labels[i] /\ RNear(ln.coef[i], x.v[k][j], "0.000501")
      /\ Len(ln.labels) = Cardinality(Range(ln.labels))
      /\ \A j \in DOMAIN lb : RLe("0.1", RAbs(x.v[k][j])) => lb[j] \in Range(ln.labels)
SummaryFails(e) ==
   LET total == LET f[i \in 0..Len(e.scts)] == IF i = 0 THEN 0 ELSE f[i-1] + Len(e.scts[i].w) IN f[Len(e.scts)]
   IN Failing(<< <<"one-line-per-state", Len(e.lines) = total>>,
                 <<"every-state-shown", \A i \in DOMAIN e.scts : \A k \in DOMAIN e.scts[i].w :
                        \E j \in DOMAIN e.lines : Shows(e.lines[j], e.scts[i], k, e.n)>>,
                 <<"nothing-else", \A j \in DOMAIN e.lines : \E i \in DOMAIN e.scts : \E k \in DOMAIN e.scts[i].w : Shows(e.lines[j], e.scts[i], k, e.n)>>,
                 <<"by-energy", \A j \in 1..(Len(e.lines)-1) :
                        /\ RLe(e.lines[j].e, e.lines[j+1].e)
                        /\ \E i, i2 \in DOMAIN e.scts : \E k \in DOMAIN e.scts[i].w, k2 \in DOMAIN e.scts[i2].w :
                              /\ <<i, k>> # <<i2, k2>> /\ RLe(e.scts[i].w[k], e.scts[i2].w[k2])
                              /\ Shows(e.lines[j], e.scts[i], k, e.n) /\ Shows(e.lines[j+1], e.scts[i2], k2, e.n)>> >>)
ChargeOf(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] + q[2]
DrawFails(e) ==
   LET total == LET f[i \in 0..Len(e.scts)] == IF i = 0 THEN 0 ELSE f[i-1] + Len(e.scts[i].w) IN f[Len(e.scts)]
   IN Failing(<< <<"one-mark-per-state", Len(e.marks) = total>>,
                 <<"every-level-drawn", \A i \in DOMAIN e.scts : \A k \in DOMAIN e.scts[i].w :
                       \E j \in DOMAIN e.marks : /\ R(e.marks[j][1]) = R(e.scts[i].w[k])
                                                 /\ RLt(e.marks[j][2], ChargeOf(e.scts[i].q)) /\ RLt(ChargeOf(e.scts[i].q), e.marks[j][3])
                                                 /\ RLt(RSub(e.marks[j][3], e.marks[j][2]), 1)>> >>)

Fails(e) == CASE e.op = "basis" -> BasisFails(e)
              [] e.op = "wide" -> WideFails(e)
              [] e.op = "search" -> SearchFails(e)
              [] e.op = "index" -> IndexFails(e)
              [] e.op = "sectors" -> SectorFails(e)
              [] e.op = "empty-sector" -> EmptySectorFails(e)
              [] e.op = "dims" -> DimsFails(e)
              [] e.op = "act" -> ActFails(e)
              [] e.op = "wide-act" -> WideActFails(e)
              [] e.op = "algebra" -> AlgebraFails(e)
              [] e.op = "rep" -> RepFails(e)
              [] e.op = "label" -> LabelFails(e)
              [] e.op = "summary" -> SummaryFails(e)
              [] e.op = "draw" -> DrawFails(e)
              [] e.op = "case" -> {}
              [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})

Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Log)
        /\ bad' = Note(bad, l, Fails(Log[l]))
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
