------------------------------ MODULE PomeloLalr ------------------------------
(***************************************************************************)
(* The automaton: LR(0) states, LALR(1) lookaheads, conflict resolution by  *)
(* precedence and default reductions.                                       *)
(*                                                                          *)
(* Lookaheads are computed from the nonterminal transitions (DeRemer and    *)
(* Pennello's relations), not by propagating follow sets through item       *)
(* closures as the implementation does, so the two are independent.         *)
(*                                                                          *)
(* Items are integers rule * IK + dot.  Encoded actions of the final table: *)
(*   0 error, 2*q+1 shift to state q, 2*r reduce by rule r (r >= 1).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, PomeloGrammar

IK == 1024
Sh(q) == 2 * q + 1
Rd(r) == 2 * r
ErrA == 0

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

\* ascending sequence of a set of integers
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == SetMin(S) IN <<m>> \o Asc(S \ {m})

\* least fixpoint of F[x] = base[x] \cup UNION {F[y] : y \in rel[x]}
RECURSIVE Fix(_, _)
Fix(f, rel) ==
    LET f2 == [x \in DOMAIN f |-> f[x] \cup UNION {f[y] : y \in rel[x]}]
    IN IF f2 = f THEN f ELSE Fix(f2, rel)

-----------------------------------------------------------------------------
IsN(g, s) == s >= g.nt /\ s < g.ns
IsM(g, s) == s >= g.ns
TermsOf(g, s) == IF s < g.nt THEN {s} ELSE {g.mem[s][j] : j \in 1..Len(g.mem[s])}
NR(g) == Len(g.rules)

RulesOf(g) == [A \in g.nt..(g.ns-1) |-> {r \in 1..NR(g) : g.rules[r].lhs = A}]

\* nonterminals that derive the empty string
RECURSIVE NullFix(_, _)
NullFix(g, N) ==
    LET M == N \cup {g.rules[r].lhs : r \in {q \in 1..NR(g) :
                        \A i \in 1..Len(g.rules[q].rhs) : g.rules[q].rhs[i] \in N}}
    IN IF M = N THEN N ELSE NullFix(g, M)
Nullable(g) == NullFix(g, {})

(* LR(0) *)
SymAfter(g, it) == LET r == it \div IK  d == it % IK
                   IN IF d < Len(g.rules[r].rhs) THEN g.rules[r].rhs[d + 1] ELSE -1

\* for each nonterminal, the nonterminals that can appear leftmost (itself included)
LeftReach(g, rulesof) ==
    LET direct == [A \in DOMAIN rulesof |->
                     {g.rules[r].rhs[1] : r \in {q \in rulesof[A] :
                          Len(g.rules[q].rhs) > 0 /\ IsN(g, g.rules[q].rhs[1])}}]
    IN Fix([A \in DOMAIN rulesof |-> {A}], direct)

ClosureOf(g, rulesof, left, kernel) ==
    LET heads == {SymAfter(g, it) : it \in kernel}
        nts   == UNION {left[A] : A \in {s \in heads : s >= 0 /\ IsN(g, s)}}
    IN kernel \cup UNION {{r * IK : r \in rulesof[A]} : A \in nts}

GotoOf(g, items, X) == {it + 1 : it \in {i \in items : SymAfter(g, i) = X}}

\* breadth first: `known' is the sequence of closed states with their kernels
RECURSIVE Explore(_, _, _, _, _, _)
Explore(g, rulesof, left, kern, clos, from) ==
    \* states from..Len(kern) have not been expanded
    IF from > Len(kern) THEN <<kern, clos>>
    ELSE LET seen == {kern[i] : i \in 1..Len(kern)}
             new  == (UNION {{GotoOf(g, clos[i], X) : X \in {SymAfter(g, it) : it \in clos[i]} \ {-1}}
                               : i \in from..Len(kern)}) \ seen
             RECURSIVE ToSeq(_)
             ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
             add  == ToSeq(new)
         IN Explore(g, rulesof, left, kern \o add,
                    clos \o [i \in 1..Len(add) |-> ClosureOf(g, rulesof, left, add[i])],
                    Len(kern) + 1)

-----------------------------------------------------------------------------
(* Conflict resolution on one token: the entries of a state for that token   *)
(* are the shifts followed by the reductions in rule order; they are         *)
(* compared pairwise.  An entry is <<kind, target>>, kinds being             *)
(*   S shift, R reduce, E error (nonassoc), SS/SR/RR unresolved conflicts,   *)
(*   SH/RD dropped by precedence, NU dropped with its error.                 *)
Compare(lx, ax, ly) == \* "<", "=", ">" : level, ties settled by associativity
    IF lx < ly THEN "<" ELSE IF lx > ly THEN ">"
    ELSE CASE ax = "left" -> "<" [] ax = "right" -> ">" [] OTHER -> "="

Resolve2(g, t, x, y) == \* <<conflict, x', y'>>
    LET lt == g.lvl[t]  IN
    IF x[1] = "S" /\ y[1] = "S" THEN <<TRUE, x, <<"SS", y[2]>> >>
    ELSE IF x[1] = "S" /\ y[1] = "R"
    THEN LET ly == g.rules[y[2]].lvl IN
         IF lt = 0 \/ ly = 0 THEN <<TRUE, x, <<"SR", y[2]>> >>
         ELSE CASE Compare(lt, g.asc[t], ly) = "<" -> <<FALSE, <<"SH", x[2]>>, y>>
                [] Compare(lt, g.asc[t], ly) = "=" -> <<FALSE, <<"E", 0>>, <<"RD", y[2]>> >>
                [] OTHER -> <<FALSE, x, <<"RD", y[2]>> >>
    ELSE IF x[1] = "E" /\ y[1] = "R"
    THEN LET ly == g.rules[y[2]].lvl IN
         IF ly = 0 THEN <<TRUE, x, <<"SR", y[2]>> >>
         ELSE IF lt < ly THEN <<FALSE, <<"NU", 0>>, y>>
         ELSE <<FALSE, x, <<"RD", y[2]>> >>
    ELSE IF x[1] = "R" /\ y[1] = "R"
    THEN LET lx == g.rules[x[2]].lvl  ly == g.rules[y[2]].lvl IN
         IF lx = 0 \/ ly = 0 \/ lx = ly THEN <<TRUE, x, <<"RR", y[2]>> >>
         ELSE IF lx < ly THEN <<FALSE, <<"RD", x[2]>>, y>>
         ELSE <<FALSE, x, <<"RD", y[2]>> >>
    ELSE <<FALSE, x, y>>

RECURSIVE ResolveFrom(_, _, _, _, _, _)
ResolveFrom(g, t, es, i, j, conf) ==
    IF i >= Len(es) THEN <<es, conf>>
    ELSE IF j > Len(es) THEN ResolveFrom(g, t, es, i + 1, i + 2, conf)
    ELSE LET z == Resolve2(g, t, es[i], es[j])
         IN ResolveFrom(g, t, [es EXCEPT ![i] = z[2], ![j] = z[3]], i, j + 1, conf \/ z[1])
Resolve(g, t, es) == IF Len(es) < 2 THEN <<es, FALSE>> ELSE ResolveFrom(g, t, es, 1, 2, FALSE)

-----------------------------------------------------------------------------
Walk(tr, q, rhs) == \* states visited from q along rhs
    LET RECURSIVE W(_, _)
        W(acc, i) == IF i > Len(rhs) THEN acc
                     ELSE W(Append(acc, tr[acc[Len(acc)]][rhs[i]]), i + 1)
    IN W(<<q>>, 1)

(* The whole construction, in stages.  Each stage takes the record built by   *)
(* the previous ones and adds its fields; With evaluates a stage once.        *)
\* (TLC evaluates functions lazily, again and again; Deep makes it do it once and for all)
Deep(v) == IF TLCFP(v) = 0 THEN v ELSE v
With(v, F(_)) == CHOOSE y \in {F(x) : x \in {TLCEval(v)}} : TRUE

\* LR(0): n states; kern, clos (item sets), tr (state -> symbol -> state)
Lr0Sets(g) ==
    LET ro == RulesOf(g) IN
    With(ro, LAMBDA rulesof : With(LeftReach(g, rulesof), LAMBDA left :
        LET k0 == {r * IK : r \in rulesof[g.start]}
        IN With(Explore(g, rulesof, left, <<k0>>, <<ClosureOf(g, rulesof, left, k0)>>, 1),
             LAMBDA ex : [rulesof |-> rulesof, kern |-> ex[1], clos |-> ex[2], n |-> Len(ex[1])])))

Lr0(g) ==
    With(Lr0Sets(g), LAMBDA a :
      With([k \in {a.kern[i] : i \in 1..a.n} |-> CHOOSE i \in 1..a.n : a.kern[i] = k], LAMBDA index :
        a @@ [tr |-> [q \in 1..a.n |-> [X \in {SymAfter(g, it) : it \in a.clos[q]} \ {-1} |->
                                           index[GotoOf(g, a.clos[q], X)]]]]))

\* Nonterminal transitions (q, A), coded q * nsym + A, plus the virtual one of
\* the start symbol, and the walks of every rule from them
NtTrans(g, a) ==
    LET SK == g.nsym
        ntr == UNION {{q * SK + A : A \in {X \in DOMAIN a.tr[q] : IsN(g, X)}} : q \in 1..a.n}
                  \cup {SK + g.start}
    IN With(ntr, LAMBDA xs :
         With(UNION {{<<x, r>> : r \in a.rulesof[x % SK]} : x \in xs}, LAMBDA ws :
           a @@ [ntr |-> xs,
                 walk |-> [w \in ws |-> Walk(a.tr, w[1] \div SK, g.rules[w[2]].rhs)],
                 null |-> Nullable(g)]))

\* group a set of pairs by first component: function from D to sets
GroupBy(D, pairs) ==
    \* TLC evaluates [x \in D |-> {p[2] : p \in {q \in pairs : q[1] = x}}] in |D|*|pairs| steps;
    \* splitting by residue first keeps it nearly linear for the sizes used here
    LET M == 256 IN
    With([m \in 0..(M-1) |-> {p \in pairs : p[1] % M = m}], LAMBDA B :
        [x \in D |-> {p[2] : p \in {q \in B[x % M] : q[1] = x}}])

\* Follow set of each nonterminal transition
Follows(g, a) ==
    LET SK == g.nsym
        v0 == SK + g.start
        tgt(x) == a.tr[x \div SK][x % SK]
        dr == [x \in a.ntr |-> IF x = v0 THEN {0}
                 ELSE UNION {TermsOf(g, X) : X \in {Y \in DOMAIN a.tr[tgt(x)] : ~IsN(g, Y)}}]
        reads == [x \in a.ntr |-> IF x = v0 THEN {}
                 ELSE {tgt(x) * SK + X : X \in {Y \in DOMAIN a.tr[tgt(x)] : IsN(g, Y) /\ Y \in a.null}}]
        nullfrom == [r \in 1..NR(g) |-> \* least i such that rhs[i..] is nullable
                       LET L == Len(g.rules[r].rhs) IN
                       SetMin({i \in 1..(L+1) : \A j \in i..L : g.rules[r].rhs[j] \in a.null})]
        \* <<inner transition, outer transition>> pairs of the includes relation
        incpairs(nf) == UNION {LET r == w[2]  rhs == g.rules[r].rhs IN
                           {<<a.walk[w][i] * SK + rhs[i], w[1]>> :
                               i \in {j \in 1..Len(rhs) : IsN(g, rhs[j]) /\ j + 1 >= nf[r]}}
                           : w \in DOMAIN a.walk}
    IN With(nullfrom, LAMBDA nf : With(incpairs(nf), LAMBDA ip : With(GroupBy(a.ntr, ip), LAMBDA incs :
         With(dr, LAMBDA d : With(reads, LAMBDA rd : With(Fix(d, rd), LAMBDA read :
           a @@ [follow |-> Fix(read, incs)]))))))

\* Lookaheads of the complete items, and the tokens with some entry in each state
Lookaheads(g, a) ==
    LET lb == {<<a.walk[w][Len(a.walk[w])] * 4096 + w[2], w[1]>> : w \in DOMAIN a.walk}
        compl == [q \in 1..a.n |-> {it \div IK : it \in {i \in a.clos[q] : SymAfter(g, i) = -1}}]
    IN With(compl, LAMBDA cm :
         With(GroupBy(UNION {{q * 4096 + r : r \in cm[q]} : q \in 1..a.n}, lb), LAMBDA lbk :
           With([q \in 1..a.n |-> [r \in cm[q] |-> UNION {a.follow[x] : x \in lbk[q * 4096 + r]}]], LAMBDA la :
             a @@ [la |-> la,
                   toks |-> [q \in 1..a.n |->
                       (UNION {TermsOf(g, X) : X \in {Y \in DOMAIN a.tr[q] : ~IsN(g, Y)}})
                           \cup UNION {la[q][r] : r \in cm[q]}]])))

\* All entries of each state for each token, in order, after resolving conflicts
ShiftSeq(g, a, q, t) ==
    LET Xs == Asc({X \in DOMAIN a.tr[q] : ~IsN(g, X) /\ t \in TermsOf(g, X)})
        rep(X) == IF X < g.nt THEN 1
                  ELSE Cardinality({j \in 1..Len(g.mem[X]) : g.mem[X][j] = t})
        RECURSIVE S(_)
        S(i) == IF i > Len(Xs) THEN <<>>
                ELSE [j \in 1..rep(Xs[i]) |-> <<"S", a.tr[q][Xs[i]]>>] \o S(i + 1)
    IN S(1)
ReduceSeq(g, a, q, t) ==
    LET rs == Asc({r \in DOMAIN a.la[q] : t \in a.la[q][r]})
    IN [i \in 1..Len(rs) |-> <<"R", rs[i]>>]

Entries(g, a) ==
    With([q \in 1..a.n |-> [t \in a.toks[q] |->
              Resolve(g, t, ShiftSeq(g, a, q, t) \o ReduceSeq(g, a, q, t))]], LAMBDA res :
      a @@ [ents |-> [q \in 1..a.n |-> [t \in a.toks[q] |-> res[q][t][1]]],
            conf |-> \E q \in 1..a.n : \E t \in a.toks[q] : res[q][t][2],
            reduced |-> UNION {UNION {{e[2] : e \in {f \in {res[q][t][1][i] : i \in 1..Len(res[q][t][1])} : f[1] = "R"}}
                                : t \in a.toks[q]} : q \in 1..a.n}])

\* Tables before compression: the entry that is kept for each token
KeptOf(es) ==
    LET e == es[SetMin({i \in 1..Len(es) : es[i][1] \in {"S", "R", "E"}})]
    IN CASE e[1] = "S" -> Sh(e[2]) [] e[1] = "R" -> Rd(e[2]) [] OTHER -> ErrA
FullTab(g, a) == a @@ [full |-> [q \in 1..a.n |-> [t \in a.toks[q] |-> KeptOf(a.ents[q][t])]]]

\* Default reductions.  There is none in a state where the wildcard has an action, and a
\* token is not covered by it if some fallback of the token does something else in the state
Differs(g, a, q, t) ==
    LET RECURSIVE D(_)
        D(f) == IF f = 0 THEN FALSE
                ELSE IF f \in a.toks[q] /\ \E i \in 1..Len(a.ents[q][t]) :
                           /\ a.ents[q][t][i][1] \in {"S", "R"}
                           /\ a.ents[q][t][i] # a.ents[q][f][1]
                     THEN TRUE ELSE D(g.fb[f])
    IN D(g.fb[t])
Candidates(g, a, q) ==
    IF g.wild # 0 /\ g.wild \in a.toks[q] THEN {}
    ELSE {t \in a.toks[q] : /\ a.full[q][t] # ErrA /\ a.full[q][t] % 2 = 0
                            /\ g.rules[a.full[q][t] \div 2].lhs # g.start
                            /\ ~Differs(g, a, q, t)}
\* the most frequent reduction, the one with the first token if tied
Best(a, q, cand) ==
    LET as == {a.full[q][t] : t \in cand}
        fst(x) == SetMin({t \in cand : a.full[q][t] = x})
        cnt(x) == Cardinality({t \in cand : a.full[q][t] = x})
    IN IF Cardinality(as) = 1 THEN SetMin(as)
       ELSE CHOOSE x \in as : \A y \in as : y = x \/ cnt(x) > cnt(y)
                                              \/ (cnt(x) = cnt(y) /\ fst(x) < fst(y))
Compress(g, a) ==
    With([q \in 1..a.n |-> Candidates(g, a, q)], LAMBDA cand :
      With([q \in 1..a.n |-> IF cand[q] = {} THEN ErrA ELSE Best(a, q, cand[q])], LAMBDA dflt :
        a @@ [dflt |-> dflt,
              act |-> [q \in 1..a.n |->
                  [t \in {u \in a.toks[q] : ~(u \in cand[q] /\ a.full[q][u] = dflt[q])} |-> a.full[q][t]]]]))

(* The result is [status |-> "ok" or "reject", err |-> diagnostic] with the   *)
(* fields above as far as the construction goes.                              *)
Automaton(g) ==
    With(Lr0(g), LAMBDA a0 :
      IF \E q \in 1..a0.n : \E X \in DOMAIN a0.tr[q] : IsN(g, X) /\ X # g.errsym /\ a0.rulesof[X] = {}
      THEN [status |-> "reject", err |-> "Nonterminal has no rules"]
      ELSE With(NtTrans(g, a0), LAMBDA a1 : With(Follows(g, a1), LAMBDA a2 :
             With(Lookaheads(g, a2), LAMBDA a3 : With(Entries(g, a3), LAMBDA a4 :
               LET base == [n |-> a4.n, kern |-> a4.kern, clos |-> a4.clos, tr |-> a4.tr,
                            ents |-> a4.ents, conf |-> a4.conf, toks |-> a4.toks]
                   late == LateError(g)
               IN IF a4.reduced # 1..NR(g) THEN [status |-> "reject", err |-> "This rule cannot be reduced"]
                  ELSE IF a4.conf THEN base @@ [status |-> "reject", err |-> "Parsing conflicts"]
                  ELSE IF late # "" THEN base @@ [status |-> "reject", err |-> late]
                  ELSE With(FullTab(g, base), LAMBDA a5 :
                         Compress(g, a5) @@ [status |-> "ok", err |-> ""]))))))
=============================================================================
