------------------------------ MODULE PomeloCfg ------------------------------
(***************************************************************************)
(* What the grammar means, independently of any automaton: derivations,     *)
(* membership and viable prefixes (Earley's algorithm), and which tokens a  *)
(* grammar symbol can match.  These are the oracles of the invariants.      *)
(***************************************************************************)
EXTENDS PomeloLalr

\* t, its fallback, the fallback of its fallback...
RECURSIVE FbChain(_, _)
FbChain(g, t) == IF t = 0 THEN {} ELSE {t} \cup FbChain(g, g.fb[t])

MatchesExactly(g, X, t) == t \in TermsOf(g, X)
\* the token t, as itself, through its fallbacks or as the wildcard, is matched by X
Matches(g, X, t) ==
    \/ MatchesExactly(g, X, t)
    \/ t # 0 /\ ~IsN(g, X) /\ \/ \E u \in FbChain(g, t) : u \in TermsOf(g, X)
                              \/ g.wild # 0 /\ g.wild \in TermsOf(g, X)

RECURSIVE ProdFix(_, _)
ProdFix(g, N) ==
    LET M == N \cup {g.rules[r].lhs : r \in {q \in 1..NR(g) :
                \A i \in 1..Len(g.rules[q].rhs) : IsN(g, g.rules[q].rhs[i]) => g.rules[q].rhs[i] \in N}}
    IN IF M = N THEN N ELSE ProdFix(g, M)
\* rules that take part in the derivation of some sentence
LiveRules(g) == LET P == ProdFix(g, {}) IN
    {r \in 1..NR(g) : \A i \in 1..Len(g.rules[r].rhs) : IsN(g, g.rules[r].rhs[i]) => g.rules[r].rhs[i] \in P}

(* Earley: chart[k+1] is the item set after k tokens; an item is <<it, origin>> *)
RECURSIVE EClose(_, _, _, _)
EClose(g, chart, S, k) ==
    LET pred == {<<r * IK, k>> : r \in {q \in g.live : \E x \in S : SymAfter(g, x[1]) = g.rules[q].lhs}}
        comp == UNION {LET A == g.rules[x[1] \div IK].lhs
                           from == IF x[2] = k THEN S ELSE chart[x[2] + 1]
                       IN {<<y[1] + 1, y[2]>> : y \in {z \in from : SymAfter(g, z[1]) = A}}
                       : x \in {z \in S : SymAfter(g, z[1]) = -1}}
        T == S \cup pred \cup comp
    IN IF T = S THEN S ELSE EClose(g, chart, T, k)

EInit(g) == <<EClose(g, <<>>, {<<r * IK, 0>> : r \in {q \in g.live : g.rules[q].lhs = g.start}}, 0)>>
EStep(g, chart, t) ==
    LET k == Len(chart)
        scan == {<<x[1] + 1, x[2]>> : x \in {z \in chart[k] :
                    SymAfter(g, z[1]) >= 0 /\ ~IsN(g, SymAfter(g, z[1]))
                       /\ MatchesExactly(g, SymAfter(g, z[1]), t)}}
    IN Append(chart, IF scan = {} THEN {} ELSE EClose(g, chart, scan, k))
EViable(chart) == chart[Len(chart)] # {}
EAccepts(g, chart) == \E x \in chart[Len(chart)] :
                          x[2] = 0 /\ SymAfter(g, x[1]) = -1 /\ g.rules[x[1] \div IK].lhs = g.start

(* The reductions of an accepted parse, read backwards, are a rightmost        *)
(* derivation of the input from the start symbol.                              *)
RECURSIVE Unroll(_, _, _, _)
Unroll(g, sent, reds, i) ==
    IF i = 0 THEN sent
    ELSE LET ns == {j \in 1..Len(sent) : IsN(g, sent[j])}
             m  == CHOOSE j \in ns : \A k \in ns : k <= j
             R  == g.rules[reds[i]]
         IN IF ns = {} \/ sent[m] # R.lhs THEN <<-1>>
            ELSE Unroll(g, SubSeq(sent, 1, m - 1) \o R.rhs \o SubSeq(sent, m + 1, Len(sent)), reds, i - 1)
DerivationOK(g, reds, toks, match(_, _)) ==
    LET s == Unroll(g, <<g.start>>, reds, Len(reds))
    IN /\ Len(s) = Len(toks)
       /\ \A i \in 1..Len(s) : s[i] >= 0 /\ match(s[i], toks[i])

(* Trees: leaves <<0, symbol>>, nodes <<rule, children...>>.  Binary operators  *)
(* group as their precedences say.                                             *)
IsBin(g, T) == T[1] # 0 /\ Len(T) = 4 /\ T[3][1] = 0 /\ T[3][2] < g.nt
                 /\ g.rules[T[1]].lvl # 0 /\ g.lvl[T[3][2]] # 0
                 /\ g.rules[T[1]].rhs[1] = g.rules[T[1]].lhs
                 /\ g.rules[T[1]].rhs[3] = g.rules[T[1]].lhs
\* binary nodes at the right (left) edge of T, T included
RECURSIVE Edge(_, _, _)
Edge(g, T, k) == IF IsBin(g, T) THEN {T} \cup Edge(g, T[k], k) ELSE {}
OpLvl(g, T) == g.lvl[T[3][2]]
OpAsc(g, T) == g.asc[T[3][2]]
\* only the root of T is examined: subtrees were examined when they were built
TreeOK(g, T) ==
    IsBin(g, T) =>
      /\ \A U \in Edge(g, T[2], 4) : \* U was reduced when the operator of T came
            g.rules[U[1]].lvl > OpLvl(g, T) \/ (g.rules[U[1]].lvl = OpLvl(g, T) /\ OpAsc(g, T) = "left")
      /\ \A U \in Edge(g, T[4], 2) : \* the operator of U came and T was not reduced
            OpLvl(g, U) > g.rules[T[1]].lvl \/ (OpLvl(g, U) = g.rules[T[1]].lvl /\ OpAsc(g, U) = "right")
=============================================================================
