---------------------------- MODULE PomeloRuntime ----------------------------
(***************************************************************************)
(* One generated parser.  Its state is the record p; the operators below    *)
(* are its atomic steps.  Each step is [p |-> new state, ev |-> events      *)
(* observable by the user during the step].  Pomelo.tla turns each of them  *)
(* into a named action.                                                     *)
(*                                                                          *)
(* g is the abstract grammar and a its automaton.  Fault injection:         *)
(*   p.failAt  the number of the action that returns Err (0: none)          *)
(*   p.seErrAt the number of the syntax-error call that returns Err (0: none) *)
(*                                                                          *)
(* Semantic values are encoded as sequences of integers: <<id>> for a value *)
(* object, <<0>> for (), <<-1>> None, <<-2, ...>> Some, <<100000+id, ...>>  *)
(* extra token data.                                                        *)
(***************************************************************************)
EXTENDS PomeloCfg

LocBase == 100000
MutBase == 150000

\* the value of a token of type ty built with number id
RECURSIVE TokVal(_, _)
TokVal(ty, id) ==
    IF ty = "" \/ ty = "()" THEN <<0>>
    ELSE IF ty = "Loc" THEN <<MutBase + id>>
    ELSE IF Len(ty) > 5 /\ SubSeq(ty, 1, 5) = "(Loc,"
    THEN <<MutBase + id>> \o TokVal(SubSeq(ty, 6, Len(ty) - 1), id)
    ELSE <<id>>
Allocates(ty) == ~(ty = "" \/ ty = "()")       \* a symbol of this type holds a value object

EffTy(g, s) == IF g.wild # 0 /\ s = g.wild THEN "" ELSE g.ty[s]
\* what an alias on grammar symbol X is bound to, if the stack holds v
Seen(g, X, v) == IF EffTy(g, X) = "" THEN <<0>> ELSE v

Objects(v) == {v[i] : i \in {j \in 1..Len(v) : v[j] > 0 /\ v[j] < LocBase}}
LiveOf(p) == UNION {Objects(p.val[i]) : i \in 1..Len(p.val)}

LiveSeq(p) == Asc(LiveOf(p))

HasExtra(g) == "extra" \in g.seen
ErrOf(g, code) == IF "errtype" \in g.seen THEN code ELSE 0

NewParser(ex0, failAt, seErrAt) ==
    [st |-> <<1>>, sym |-> <<0>>, val |-> <<<<0>>>>,   \* the parse stack
     status |-> "N",       \* N normal, F failed, P used after failing, A accepted, D dropped
     ph |-> "idle",        \* where the current call is: idle, run, goto, unwind, ret
     ec |-> 0,             \* tokens to shift before reporting errors again
     nid |-> 1, na |-> 0, nse |-> 0,
     ex |-> ex0,           \* the extra argument
     failAt |-> failAt, seErrAt |-> seErrAt,
     tok |-> 0, tv |-> <<0>>, pl |-> 0, pv |-> <<0>>, est |-> 0]

Top(p) == p.st[Len(p.st)]
Push(p, q, s, v) == [p EXCEPT !.st = Append(@, q), !.sym = Append(@, s), !.val = Append(@, v)]
PopN(p, n) == [p EXCEPT !.st = SubSeq(@, 1, Len(@) - n), !.sym = SubSeq(@, 1, Len(@) - n),
                        !.val = SubSeq(@, 1, Len(@) - n)]
Full(g, p) == g.limit # 0 /\ Len(p.st) >= g.limit

(* Table lookup: the own action of the token, else that of its fallback, else *)
(* that of the wildcard, else the default of the state.                       *)
RECURSIVE Lookup(_, _, _, _)
Lookup(g, a, q, t) ==
    IF t \in DOMAIN a.act[q] THEN a.act[q][t]
    ELSE IF t # 0 /\ g.fb[t] # 0 THEN Lookup(g, a, q, g.fb[t])
    ELSE IF t # 0 /\ g.wild # 0 /\ g.wild \in DOMAIN a.act[q] THEN a.act[q][g.wild]
    ELSE a.dflt[q]

Expected(g, a, q) == SelectSeq([i \in 1..(g.nt - 1) |-> i], LAMBDA t : Lookup(g, a, q, t) # ErrA)

Step(p, ev) == [p |-> p, ev |-> ev]
Bump(g, p) == IF HasExtra(g) THEN [p EXCEPT !.ex = @ + 1] ELSE p
Ret(p) == [p EXCEPT !.ph = "ret", !.tv = <<0>>, !.pv = <<0>>]
ExOf(g, p) == IF HasExtra(g) THEN p.ex ELSE 0
Failed(g, p, code) == [Ret(p) EXCEPT !.status = "F", !.pl = ErrOf(g, code)]

\* ---- the call starts.  With %extra_token, every token goes through extra() (which sees
\* LocBase + id) and extra_mut() (which turns it into MutBase + id) before being fed.
FeedStep(g, p, t) ==
    IF p.status = "F"
    THEN Step([p EXCEPT !.ph = "ret", !.tok = t, !.status = "P", !.nid = IF t = 0 THEN @ ELSE @ + 1],
              IF t # 0 /\ g.extok THEN <<<<"t", LocBase + p.nid>>>> ELSE <<>>)
    ELSE IF t = 0 THEN Step([p EXCEPT !.ph = "run", !.tok = 0, !.tv = <<0>>], <<>>)
    ELSE Step([p EXCEPT !.ph = "run", !.tok = t, !.tv = TokVal(g.ty[t], p.nid), !.nid = @ + 1],
              IF g.extok THEN <<<<"t", LocBase + p.nid>>>> ELSE <<>>)

\* extra_mut() between calls
BumpExtra(p) == Step([p EXCEPT !.ex = @ + 10], <<<<"x", p.ex>>, <<"L", LiveSeq(p)>>>>)
\* into_extra(), or just dropping the parser
DropParser(g, p) == Step([PopN(p, Len(p.st)) EXCEPT !.status = "D"], <<<<"X", ExOf(g, p)>>, <<"L", <<>>>>>>)

CurAct(g, a, p) == Lookup(g, a, Top(p), p.tok)
CanShift(g, a, p)  == p.ph = "run" /\ CurAct(g, a, p) % 2 = 1
CanReduce(g, a, p) == p.ph = "run" /\ CurAct(g, a, p) % 2 = 0 /\ CurAct(g, a, p) # ErrA
CanError(g, a, p)  == p.ph = "run" /\ CurAct(g, a, p) = ErrA

OverflowStep(g, p, name, v) ==
    IF "stack_overflow" \in g.seen
    THEN Step(Failed(g, Bump(g, p), 4000), <<<<"o", name, v, ExOf(g, p)>>>>)
    ELSE Step(Failed(g, p, 0), <<>>)

ShiftStep(g, a, p) ==
    IF Full(g, p) THEN OverflowStep(g, p, g.name[p.tok], p.tv)
    ELSE Step([Ret(Push(p, CurAct(g, a, p) \div 2, p.tok, p.tv)) EXCEPT !.ec = IF @ = 0 THEN 0 ELSE @ - 1], <<>>)

\* the arguments of the action of rule r: the aliased symbols
ArgsOf(g, p, r) ==
    LET R == g.rules[r]  n == Len(R.rhs)  b == Len(p.st) - n
        is == SelectSeq([i \in 1..n |-> i], LAMBDA i : R.al[i])
    IN [k \in 1..Len(is) |-> Seen(g, R.rhs[is[k]], p.val[b + is[k]])]

ReduceStep(g, a, p) ==
    LET r == CurAct(g, a, p) \div 2
        R == g.rules[r]
        args == ArgsOf(g, p, r)
        p1 == PopN(p, Len(R.rhs))
        lty == g.ty[R.lhs]
        to(q, v) == [q EXCEPT !.ph = "goto", !.pl = R.lhs, !.pv = v]
    IN CASE R.act = "code" ->
              LET p2 == [Bump(g, p1) EXCEPT !.na = @ + 1]
                  ev == <<<<"a", R.tag, args, ExOf(g, p)>>>>
              IN IF p2.na = p2.failAt THEN Step(Failed(g, p2, 1000 + R.tag), ev)
                 ELSE IF Allocates(lty) THEN Step([to(p2, <<p2.nid>>) EXCEPT !.nid = @ + 1], ev)
                 ELSE Step(to(p2, <<0>>), ev)
         [] R.act = "unit" -> Step(to(p1, <<0>>), <<>>)
         [] R.act = "fwd"  -> Step(to(p1, args[1]), <<>>)
         [] R.act = "none" -> Step(to(p1, <<-1>>), <<>>)
         [] R.act = "some" -> Step(to(p1, <<-2>> \o args[1]), <<>>)

IsAccepting(g, p) == p.ph = "goto" /\ Len(p.st) = 1 /\ p.pl = g.start
GotoStep(g, a, p) ==
    IF IsAccepting(g, p)
    THEN Step([Ret(PopN(p, 1)) EXCEPT !.status = "A", !.tv = Seen(g, g.start, p.pv)], <<>>)
    ELSE IF Full(g, p) THEN OverflowStep(g, p, "-", <<>>)
    ELSE Step([Push(p, a.tr[Top(p)][p.pl], p.pl, p.pv) EXCEPT !.ph = "run", !.pv = <<0>>], <<>>)

\* ---- syntax errors
ParseFailStep(g, p) ==
    LET p1 == PopN(p, Len(p.st)) IN
    IF "parse_fail" \in g.seen
    THEN Step(Failed(g, Bump(g, p1), 3000), <<<<"p", ExOf(g, p), <<>>>>>>)
    ELSE Step(Failed(g, p1, 0), <<>>)

\* the syntax-error code: <<ok, p', v, ev>>, v being the value it returns
CallSe(g, a, p) ==
    LET exs == Expected(g, a, p.est)
        ev == <<"s", g.name[p.tok], p.tv, [i \in 1..Len(exs) |-> g.name[exs[i]]],
                [i \in 1..Len(exs) |-> IF EffTy(g, exs[i]) = "" THEN 1 ELSE 0], ExOf(g, p)>>
        p1 == [Bump(g, p) EXCEPT !.nse = @ + 1]
        ety == g.ty[g.errsym]
    IN IF "syntax_error" \notin g.seen THEN <<FALSE, Failed(g, p, 0), <<0>>, <<>>>>
       ELSE IF p1.nse = p1.seErrAt THEN <<FALSE, Failed(g, p1, 2000 + p1.nse), <<0>>, <<ev>>>>
       ELSE IF Allocates(ety) THEN <<TRUE, [p1 EXCEPT !.nid = @ + 1], <<p1.nid>>, <<ev>>>>
       ELSE <<TRUE, p1, <<0>>, <<ev>>>>

\* without the error symbol: report, if it is time to, and drop the token
DropTokenStep(g, a, p0) ==
    LET p == [p0 EXCEPT !.est = Top(p0)] IN
    IF p.ec # 0 THEN Step([Ret(p) EXCEPT !.ec = 3], <<>>)
    ELSE LET s == CallSe(g, a, p)
         IN Step(IF s[1] THEN [Ret(s[2]) EXCEPT !.ec = 3] ELSE s[2], s[4])

\* with the error symbol: unwind
StartUnwindStep(p) == Step([p EXCEPT !.ph = "unwind", !.est = Top(p)], <<>>)
CanResume(g, p)  == Len(p.st) > 0 /\ p.sym[Len(p.sym)] = g.errsym
CanErrShift(g, a, p) == Len(p.st) > 0 /\ ~CanResume(g, p) /\ g.errsym \in DOMAIN a.tr[Top(p)]
UnwindDropStep(p) == Step([Ret(p) EXCEPT !.ec = 3], <<>>)
UnwindPopStep(p)  == Step(PopN(p, 1), <<>>)
ErrShiftStep(g, a, p) ==
    LET s == CallSe(g, a, p) IN
    IF ~s[1] THEN Step(s[2], s[4])
    ELSE IF Full(g, p)
    THEN LET o == OverflowStep(g, s[2], "-", <<>>) IN Step(o.p, s[4] \o o.ev)
    ELSE Step([Ret(Push(s[2], a.tr[Top(p)][g.errsym], g.errsym, s[3])) EXCEPT !.ec = 3], s[4])

\* ---- the call returns
RetEvents(g, p) ==
    CASE p.status = "N" -> <<<<"r", "ok">>, <<"L", LiveSeq(p)>>>>
      [] p.status = "A" -> <<<<"R", p.tv, ExOf(g, p)>>, <<"L", <<>>>>>>
      [] p.status = "P" -> <<<<"r", "panic">>, <<"L", IF p.tok = 0 THEN <<>> ELSE LiveSeq(p)>>>>
      [] OTHER -> <<<<"r", "err", p.pl>>, <<"L", IF p.tok = 0 THEN <<>> ELSE LiveSeq(p)>>>>
Returned(p) == \* end_of_input consumes the parser
    LET q == [p EXCEPT !.ph = "idle", !.tok = 0, !.tv = <<0>>, !.pl = 0, !.est = 0]
    IN IF p.tok # 0 THEN q
       ELSE [PopN(q, Len(q.st)) EXCEPT !.status = IF @ = "A" THEN "A" ELSE "D"]
=============================================================================
