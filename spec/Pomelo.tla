------------------------------- MODULE Pomelo -------------------------------
(***************************************************************************)
(* pomelo! and the parsers it generates, as one state machine.              *)
(*                                                                          *)
(* A behaviour takes one program (a sequence of grammars), reads it one      *)
(* declaration at a time (Declare), builds the tables of each grammar or     *)
(* reports a diagnostic (Generate), creates one parser per grammar (Start)   *)
(* and then makes calls on the parsers, in any interleaving, until a bound   *)
(* on the number of calls: parse and end_of_input (Feed), extra_mut (Bump)   *)
(* and into_extra or drop (Drop).  A call on a parser is a sequence of steps *)
(* (Shift, Reduce, Goto, ... Return), each one a named action.               *)
(*                                                                          *)
(* What a user can observe of a call is the sequence of events `cal'.        *)
(*                                                                          *)
(* Programs come from a file:                                               *)
(*   gs    the grammars, each one a sequence of declarations                *)
(*   runs  the ways of using them: failAt, seErrAt (fault injection),       *)
(*         ex0 (initial extra argument), L (maximum number of calls),       *)
(*         post (whether to go on using a parser that has failed), alpha    *)
(*         (for each parser, the operations tried: names of tokens, "$" for *)
(*         end of input, "+" for extra_mut, "-" for drop; none means every  *)
(*         token and "$") and paths (if not empty, only these sequences of  *)
(*         operations <<parser, operation>> are followed).                  *)
(* An operation o on parser i is written 10000 * i + o + 2 in a path, o being *)
(* a token number, 0 for "$", -1 for "+" and -2 for "-".                     *)
(***************************************************************************)
EXTENDS PomeloRuntime, Json, IOUtils

\* (Registers, because TLC would build the tables again each time they are mentioned)
ASSUME TLCSet(1, Deep(JsonDeserialize(IOEnv.PROGS)))
Progs == TLCGet(1)

NoTables == [status |-> "reject", err |-> ""]
\* front end and tables of a grammar, with some facts on it used by the invariants
Build(decls) ==
    With(Finish(ApplyDecls(EmptyFe, decls, 1)), LAMBDA f :
      IF f.err # "" THEN [g |-> f, a |-> [status |-> "reject", err |-> f.err], pure |-> FALSE, exact |-> FALSE]
      ELSE With(f @@ [live |-> LiveRules(f)], LAMBDA g : With(Automaton(g), LAMBDA a :
        [g |-> g, a |-> a,
         \* every token is just itself and there is no error recovery
         pure |-> g.wild = 0 /\ (\A t \in 0..(g.nt - 1) : g.fb[t] = 0) /\ ~g.errUsed,
         \* no conflict had to be resolved and every rule is useful
         exact |-> a.status = "ok" /\ g.live = 1..NR(g)
                   /\ \A q \in 1..a.n : \A t \in a.toks[q] : Len(a.ents[q][t]) = 1])))
ASSUME TLCSet(2, Deep([i \in 1..Len(Progs) |-> [j \in 1..Len(Progs[i].gs) |-> Build(Progs[i].gs[j])]]))
Built == TLCGet(2)

\* operations by number
OpNo(g, x) == CASE x = "$" -> 0 [] x = "+" -> -1 [] x = "-" -> -2
                [] OTHER -> CHOOSE t \in 1..(g.nt - 1) : g.name[t] = x
PathCode(i, o) == 10000 * i + o + 2
RunOf(gs, r) ==
    [failAt |-> r.failAt, seErrAt |-> r.seErrAt, ex0 |-> r.ex0, L |-> r.L, post |-> r.post,
     alpha |-> [i \in 1..Len(gs) |-> IF Len(r.alpha[i]) = 0 THEN [t \in 1..gs[i].g.nt |-> gs[i].g.nt - t]
                                      ELSE [k \in 1..Len(r.alpha[i]) |-> OpNo(gs[i].g, r.alpha[i][k])]],
     paths |-> [k \in 1..Len(r.paths) |-> [m \in 1..Len(r.paths[k]) |->
                   PathCode(r.paths[k][m][1], OpNo(gs[r.paths[k][m][1]].g, r.paths[k][m][2]))]]]
ASSUME TLCSet(3, Deep([i \in 1..Len(Progs) |->
          IF \E j \in 1..Len(Built[i]) : Built[i][j].a.status # "ok" THEN <<>>
          ELSE [k \in 1..Len(Progs[i].runs) |-> RunOf(Built[i], Progs[i].runs[k])]]))
Runs == TLCGet(3)

VARIABLES prog,    \* the program being used
          stage,   \* "decl", "ready" or "run"
          gi, fe,  \* grammar being read and state of the front end
          run,     \* the run of the program
          ps,      \* the parsers
          cur,     \* the parser with a call in progress, 0 if none
          path,    \* operations done so far
          sel,     \* the remaining paths, if they are fixed
          cal,     \* events of the current call
          aux      \* history of each parser, for the invariants
vars == <<prog, stage, gi, fe, run, ps, cur, path, sel, cal, aux>>

Tab(i) == Built[prog][i]
GG(i)  == Tab(i).g
AA(i)  == Tab(i).a
R0     == Runs[prog][run]

Init == /\ prog \in 1..Len(Progs)
        /\ stage = "decl" /\ gi = 1 /\ fe = EmptyFe
        /\ run = 0 /\ ps = <<>> /\ cur = 0 /\ path = <<>> /\ sel = 0 /\ cal = <<>> /\ aux = <<>>

NDecl(i) == Len(Progs[prog].gs[i])
\* declarations read so far are counted by path, which has no other use before the run
Declare ==
    /\ stage = "decl" /\ fe.err = "" /\ Len(path) < NDecl(gi)
    /\ fe' = ApplyDecl(fe, Progs[prog].gs[gi][Len(path) + 1])
    /\ path' = Append(path, 0)
    /\ UNCHANGED <<prog, stage, gi, run, ps, cur, sel, cal, aux>>

\* what is known of a grammar once it has been processed
Seq0(f, n) == [k \in 1..n |-> f[k - 1]]
Announce(i) ==
    LET g == GG(i)  a == AA(i) IN
    PrintT("#" \o ToJson(
        IF g.err # "" THEN [prog |-> prog, gi |-> i, status |-> "reject", err |-> g.err, built |-> FALSE]
        ELSE [prog |-> prog, gi |-> i, status |-> a.status, err |-> a.err, built |-> TRUE,
              nt |-> g.nt, ns |-> g.ns, nsym |-> g.nsym, start |-> g.start, wild |-> g.wild,
              name |-> Seq0(g.name, g.nsym), ty |-> Seq0(g.ty, g.nsym),
              n |-> IF "n" \in DOMAIN a THEN a.n ELSE 0, exact |-> Tab(i).exact, pure |-> Tab(i).pure,
              \* user code that Rust will not accept: forwarding a value of another type
              ill |-> \E r \in 1..NR(g) : LET R == g.rules[r] IN R.act = "fwd" /\
                        g.ty[R.lhs] # (CHOOSE t \in {g.ty[R.rhs[k]] : k \in {k \in 1..Len(R.rhs) : R.al[k]}} : TRUE)]))

\* the automaton as it is reported: items, actions (dropped and conflicting ones included)
Dump(i) ==
    LET g == GG(i)  a == AA(i)
        txt(X) == IF X < g.ns THEN <<g.name[X]>> ELSE [k \in 1..Len(g.mem[X]) |-> g.name[g.mem[X][k]]]
    IN PrintT("A" \o ToJson(
        [prog |-> prog, gi |-> i, start |-> g.name[g.start],
         rules |-> [r \in 1..NR(g) |-> <<g.name[g.rules[r].lhs], [k \in 1..Len(g.rules[r].rhs) |-> txt(g.rules[r].rhs[k])]>>],
         states |-> [q \in 1..a.n |->
             [items |-> [k \in 1..Cardinality(a.clos[q]) |-> LET it == Asc(a.clos[q])[k] IN <<it \div IK, it % IK>>],
              goto  |-> LET Ns == Asc({X \in DOMAIN a.tr[q] : IsN(g, X)}) IN
                        [k \in 1..Len(Ns) |-> <<g.name[Ns[k]], a.tr[q][Ns[k]]>>],
              acts  |-> LET Ts == Asc(a.toks[q]) IN [k \in 1..Len(Ts) |-> <<g.name[Ts[k]], a.ents[q][Ts[k]]>>]]]]))

Generate ==
    /\ stage = "decl" /\ (IF fe.err # "" THEN TRUE ELSE Len(path) = NDecl(gi))
    /\ LET f == Finish(fe) IN
       Assert(f.err = GG(gi).err /\ (f.err = "" => \A x \in DOMAIN f : f[x] = GG(gi)[x]), "front end differs")
    /\ Announce(gi)
    /\ ("dump" \in DOMAIN Progs[prog] /\ Progs[prog].dump /\ "ents" \in DOMAIN AA(gi)) => Dump(gi)
    /\ path' = <<>> /\ fe' = EmptyFe
    /\ IF gi < Len(Progs[prog].gs) THEN gi' = gi + 1 /\ stage' = stage
       ELSE gi' = gi /\ stage' = "ready"
    /\ UNCHANGED <<prog, run, ps, cur, sel, cal, aux>>

\* (the Earley oracle is not used with large grammars or long inputs)
BigG == 60
BigI == 30
NewAux(i) == [inp |-> <<>>, reds |-> <<>>, n0 |-> 0, clean |-> NR(GG(i)) <= BigG, trees |-> <<<<0, 0>>>>,
              chart |-> IF NR(GG(i)) <= BigG THEN EInit(GG(i)) ELSE <<{}>>]
Start ==
    /\ stage = "ready" /\ \A i \in 1..gi : AA(i).status = "ok"
    /\ \E k \in 1..Len(Runs[prog]) :
         LET r == Runs[prog][k] IN
         /\ run' = k
         /\ ps' = [i \in 1..gi |-> NewParser(r.ex0, r.failAt, r.seErrAt)]
         /\ sel' \in IF Len(r.paths) = 0 THEN {0} ELSE 1..Len(r.paths)
    /\ stage' = "run"
    /\ aux' = [i \in 1..gi |-> NewAux(i)]
    /\ UNCHANGED <<prog, gi, fe, cur, path, cal>>

-----------------------------------------------------------------------------
MayDo(i, o) ==
    LET p == ps[i] IN
    /\ IF sel = 0 THEN Len(path) < R0.L /\ \E k \in 1..Len(R0.alpha[i]) : R0.alpha[i][k] = o
       ELSE Len(path) < Len(R0.paths[sel]) /\ R0.paths[sel][Len(path) + 1] = PathCode(i, o)
    /\ CASE p.status = "N" -> TRUE
         [] p.status = "F" -> R0.post /\ (o < 1 \/ sel # 0 \/ o = R0.alpha[i][1])
         [] p.status = "P" -> R0.post /\ o = -2
         [] OTHER -> FALSE
    /\ o = -1 => HasExtra(GG(i))
OpsOf(i) == IF sel = 0 THEN {R0.alpha[i][k] : k \in 1..Len(R0.alpha[i])} ELSE -2..(GG(i).nt - 1)
Idle == stage = "run" /\ cur = 0
Busy == stage = "run" /\ cur # 0

Out(i, p, c, pth) == PrintT("@" \o ToJson(<<prog, run, pth, c>>))

\* the tokens fed, the reductions done and the trees on the stack
Fed(i, t) ==
    LET more == aux[i].clean /\ Len(aux[i].inp) < BigI IN
    [aux EXCEPT ![i].inp = Append(@, t), ![i].n0 = Len(aux[i].reds), ![i].clean = more,
                ![i].chart = IF ~more THEN <<{}>> ELSE IF t = 0 THEN @ ELSE EStep(GG(i), @, t)]
\* (reductions done before the error was found stay done)
Undone(i) == [aux EXCEPT ![i].clean = @ /\ aux[i].n0 = Len(aux[i].reds), ![i].inp = SubSeq(@, 1, Len(@) - 1),
                         ![i].chart = IF Len(@) > 1 THEN SubSeq(@, 1, Len(@) - 1) ELSE @]

Feed(i, o) ==
    /\ Idle /\ MayDo(i, o) /\ o >= 0
    /\ LET s == FeedStep(GG(i), ps[i], o) IN
       ps' = [ps EXCEPT ![i] = s.p] /\ cal' = s.ev
    /\ aux' = IF ps[i].status = "N" THEN Fed(i, o) ELSE aux
    /\ cur' = i /\ path' = Append(path, PathCode(i, o))
    /\ UNCHANGED <<prog, stage, gi, fe, run, sel>>

Instant(i, o, s) == \* a call that is a single step
    /\ ps' = [ps EXCEPT ![i] = s.p] /\ cal' = <<>>
    /\ path' = Append(path, PathCode(i, o))
    /\ Out(i, s.p, s.ev, Append(path, PathCode(i, o)))
    /\ UNCHANGED <<prog, stage, gi, fe, run, sel, cur, aux>>
Bump_(i) == Idle /\ MayDo(i, -1) /\ Instant(i, -1, BumpExtra(ps[i]))
Drop_(i) == Idle /\ MayDo(i, -2) /\ Instant(i, -2, DropParser(GG(i), ps[i]))

Does(s, x) == /\ ps' = [ps EXCEPT ![cur] = s.p] /\ cal' = cal \o s.ev /\ aux' = x
              /\ UNCHANGED <<prog, stage, gi, fe, run, cur, path, sel>>
P == ps[cur]
G == GG(cur)
A == AA(cur)

Shift    == /\ Busy /\ CanShift(G, A, P) /\ ~Full(G, P)
            /\ Does(ShiftStep(G, A, P), [aux EXCEPT ![cur].trees = Append(@, <<0, P.tok>>)])
Overflow == /\ Busy /\ \/ CanShift(G, A, P) /\ Full(G, P) /\ Does(ShiftStep(G, A, P), aux)
                       \/ P.ph = "goto" /\ ~IsAccepting(G, P) /\ Full(G, P) /\ Does(GotoStep(G, A, P), aux)
Reduce   == /\ Busy /\ CanReduce(G, A, P)
            /\ LET r == CurAct(G, A, P) \div 2
                   n == Len(G.rules[r].rhs)
                   ts == aux[cur].trees
                   b == Len(ts) - n
               IN Does(ReduceStep(G, A, P),
                       [aux EXCEPT ![cur].reds = Append(@, r),
                                   ![cur].trees = Append(SubSeq(@, 1, b), <<r>> \o SubSeq(@, b + 1, Len(@)))])
Goto     == Busy /\ P.ph = "goto" /\ ~IsAccepting(G, P) /\ ~Full(G, P) /\ Does(GotoStep(G, A, P), aux)
Accept   == Busy /\ P.ph = "goto" /\ IsAccepting(G, P) /\ Does(GotoStep(G, A, P), aux)
\* end of input without the error symbol, or unwinding to the bottom of the stack
ParseFail == /\ Busy /\ \/ CanError(G, A, P) /\ P.tok = 0
                        \/ P.ph = "unwind" /\ Len(P.st) = 0
             /\ Does(ParseFailStep(G, P), [aux EXCEPT ![cur].trees = <<>>, ![cur].clean = @ /\ aux[cur].n0 = Len(aux[cur].reds)])
DropToken == /\ Busy /\ CanError(G, A, P) /\ P.tok # 0 /\ ~G.errUsed
             /\ Does(DropTokenStep(G, A, P), Undone(cur))
StartUnwind == /\ Busy /\ CanError(G, A, P) /\ P.tok # 0 /\ G.errUsed
               /\ Does(StartUnwindStep(P), Undone(cur))
UnwindPop == /\ Busy /\ P.ph = "unwind" /\ Len(P.st) > 0 /\ ~CanResume(G, P) /\ ~CanErrShift(G, A, P)
             /\ Does(UnwindPopStep(P), [aux EXCEPT ![cur].trees = SubSeq(@, 1, Len(@) - 1)])
UnwindDrop == Busy /\ P.ph = "unwind" /\ CanResume(G, P) /\ Does(UnwindDropStep(P), aux)
ErrShift == /\ Busy /\ P.ph = "unwind" /\ CanErrShift(G, A, P)
            /\ Does(ErrShiftStep(G, A, P), [aux EXCEPT ![cur].trees = Append(@, <<0, G.errsym>>)])
Return == /\ Busy /\ P.ph = "ret"
          /\ Out(cur, P, cal \o RetEvents(G, P), path)
          /\ ps' = [ps EXCEPT ![cur] = Returned(P)]
          /\ cur' = 0 /\ cal' = <<>>
          /\ UNCHANGED <<prog, stage, gi, fe, run, path, sel, aux>>

Next == \/ Declare \/ Generate \/ Start
        \/ \E i \in 1..Len(ps) : \/ \E o \in OpsOf(i) : Feed(i, o)
                                 \/ Bump_(i) \/ Drop_(i)
        \/ Shift \/ Overflow \/ Reduce \/ Goto \/ Accept \/ ParseFail
        \/ DropToken \/ StartUnwind \/ UnwindPop \/ UnwindDrop \/ ErrShift \/ Return

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Invariants.  Each one is checked in every state of every run.            *)
Parsers == 1..Len(ps)
Just(i) == cur = i     \* only the parser that moves needs to be looked at

TypeOK == /\ stage \in {"decl", "ready", "run"}
          /\ \A i \in Parsers : /\ ps[i].status \in {"N", "F", "P", "A", "D"}
                                /\ ps[i].ph \in {"idle", "run", "goto", "unwind", "ret"}
                                /\ ps[i].ec \in 0..3
                                /\ Len(ps[i].st) = Len(ps[i].sym) /\ Len(ps[i].st) = Len(ps[i].val)
\* the stack is a path of the automaton (C01, C17)
StackPath == \A i \in Parsers : LET p == ps[i] IN
    Just(i) => /\ (Len(p.st) > 0 => p.st[1] = 1)
               /\ \A k \in 2..Len(p.st) :
                    LET tr == AA(i).tr[p.st[k-1]] IN
                    \E X \in DOMAIN tr : /\ tr[X] = p.st[k]
                                         /\ \/ X = p.sym[k]
                                            \/ Matches(GG(i), X, p.sym[k])
\* trees and stack agree, and an accepted parse is a derivation of the input (C01, C02, C09, C10)
TreesMatch == \A i \in Parsers : (Just(i) /\ ps[i].status = "N" /\ ps[i].ph \in {"idle", "run"}) =>
    Len(aux[i].trees) = Len(ps[i].st)
IsDerivation == \A i \in Parsers : (Just(i) /\ ps[i].status = "A" /\ ~GG(i).errUsed) =>
    DerivationOK(GG(i), aux[i].reds, SubSeq(aux[i].inp, 1, Len(aux[i].inp) - 1),
                 LAMBDA X, t : Matches(GG(i), X, t))
\* C01: accepted only if derivable, when no conflict had to be resolved (and if: ViablePrefix)
Exact(i) == Tab(i).exact /\ Tab(i).pure
AcceptOnlyDerivable == \A i \in Parsers : (Just(i) /\ Exact(i) /\ aux[i].clean /\ ps[i].tok = 0 /\ ps[i].ph = "ret") =>
    (ps[i].status = "A" => EAccepts(GG(i), aux[i].chart))
\* C07: what has been consumed is always a prefix of a sentence, and an error is found at the
\* first token that makes it not be one
ViablePrefix == \A i \in Parsers : (Just(i) /\ Exact(i) /\ aux[i].clean) =>
    /\ ps[i].ph = "ret" /\ ps[i].status = "N" => EViable(aux[i].chart)
    /\ CanError(GG(i), AA(i), ps[i]) =>
         IF ps[i].tok = 0 THEN ~EAccepts(GG(i), aux[i].chart) ELSE ~EViable(aux[i].chart)
\* C09, C10: a sentence in which every token can be itself is parsed with every token as itself
AsItself == \A i \in Parsers : (Just(i) /\ aux[i].clean /\ Tab(i).exact /\ ~GG(i).errUsed /\ ~Exact(i)) =>
    /\ CanError(GG(i), AA(i), ps[i]) =>
         IF ps[i].tok = 0 THEN ~EAccepts(GG(i), aux[i].chart) ELSE ~EViable(aux[i].chart)
    /\ ps[i].status = "A" /\ EAccepts(GG(i), aux[i].chart) =>
         DerivationOK(GG(i), aux[i].reds, SubSeq(aux[i].inp, 1, Len(aux[i].inp) - 1),
                      LAMBDA X, t : MatchesExactly(GG(i), X, t))
\* C04, C05: the trees agree with the declared precedences
PrecedenceOK == \A i \in Parsers : (Just(i) /\ aux[i].clean /\ Tab(i).pure /\ ps[i].ph = "goto") =>
    TreeOK(GG(i), aux[i].trees[Len(aux[i].trees)])
\* C19: the offending token is not expected; every token that can come next is, if it has not
\* been discarded by a default reduction in this very call
ExpectedOK == \A i \in Parsers : (Just(i) /\ CanError(GG(i), AA(i), ps[i]) /\ ps[i].tok # 0) =>
    LET ex == Expected(GG(i), AA(i), Top(ps[i]))
        es == {ex[k] : k \in 1..Len(ex)}
    IN /\ ps[i].tok \notin es
       /\ ~Exact(i) \/ ~aux[i].clean \/ aux[i].n0 # Len(aux[i].reds) \/ \A t \in 1..(GG(i).nt - 1) :
             EViable(EStep(GG(i), SubSeq(aux[i].chart, 1, Len(aux[i].chart) - 1), t)) => t \in es
\* the compressed tables do what the full ones do, but for reductions before an error (C07, C08)
CompressionOK == stage # "ready" \/ \A i \in 1..gi : AA(i).status # "ok" \/
    \A q \in 1..AA(i).n : \A t \in 0..(GG(i).nt - 1) :
        LET a == AA(i)  g == GG(i)
            RECURSIVE LF(_)
            LF(u) == IF u \in a.toks[q] THEN a.full[q][u]
                     ELSE IF u # 0 /\ g.fb[u] # 0 THEN LF(g.fb[u])
                     ELSE IF t # 0 /\ g.wild # 0 /\ g.wild \in a.toks[q] THEN a.full[q][g.wild]
                     ELSE ErrA
        IN Lookup(g, a, q, t) = LF(t) \/ (LF(t) = ErrA /\ Lookup(g, a, q, t) = a.dflt[q]
                                          /\ t \notin a.toks[q])
\* C21
WithinLimit == \A i \in Parsers : Just(i) => GG(i).limit = 0 \/ Len(ps[i].st) <= GG(i).limit
                                               \/ Len(ps[i].st) = 1
\* C24: no value object is in two places
Linear == \A i \in Parsers : Just(i) =>
    LET p == ps[i]
        vs == p.val \o (IF p.ph \in {"run", "unwind", "goto"} THEN <<p.pv>> \o (IF p.tok # 0 THEN <<p.tv>> ELSE <<>>) ELSE <<>>)
    IN \A k \in 1..Len(vs) : \A m \in (k+1)..Len(vs) : Objects(vs[k]) \cap Objects(vs[m]) = {}
\* C18: nothing is alive once a parse has failed for good
NothingLeft == \A i \in Parsers : ps[i].status \in {"A", "D"} => LiveOf(ps[i]) = {}

\* C15: grammars that are permutations of each other are accepted or rejected alike and, fed with
\* the same tokens in turns, they do the same
Permuted == "order" \in DOMAIN Progs[prog] /\ Progs[prog].order
\* (the rules of optional symbols have no tag of their own)
Tags(i) == SelectSeq([k \in 1..Len(aux[i].reds) |-> GG(i).rules[aux[i].reds[k]].tag], LAMBDA t : t > 0)
OrderOK == Permuted =>
    /\ stage = "ready" => \A i \in 1..gi : AA(i).status = AA(1).status
    /\ (stage = "run" /\ cur = 0 /\ Len(path) % Len(ps) = 0 /\ \A i \in Parsers : aux[i].clean) => \A i \in Parsers :
          /\ Tags(i) = Tags(1)
          /\ \A f \in {"status", "val", "na", "nse", "nid", "ec", "ex"} : ps[i][f] = ps[1][f]

(* Action properties *)
\* C16: dropping a token leaves the stack as it was
DropKeepsStack == [][DropToken => ps'[cur].st = ps[cur].st /\ ps'[cur].val = ps[cur].val]_vars
\* C20: a failed parser never runs anything again
Latched == [][\A i \in Parsers : (Len(ps') = Len(ps) /\ ps[i].status \in {"F", "P"}) =>
                 /\ ps'[i].status \in {"F", "P", "D"}
                 /\ ps'[i].na = ps[i].na /\ ps'[i].nse = ps[i].nse]_vars
\* C23: a step moves only one parser
Independent == [][Len(ps') = Len(ps) => \A i, j \in Parsers : i = j \/ ps'[i] = ps[i] \/ ps'[j] = ps[j]]_vars
=============================================================================
