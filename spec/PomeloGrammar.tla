---------------------------- MODULE PomeloGrammar ----------------------------
(***************************************************************************)
(* The front end of pomelo!: a grammar is a sequence of declarations, read  *)
(* one at a time (one action per declaration, see Declare in Pomelo.tla).   *)
(* The state of the front end is the record `fe' below.  ApplyDecl is the   *)
(* effect of one declaration; Finish is everything that happens after the   *)
(* last one and before the automaton is built.                              *)
(*                                                                          *)
(* Declarations are records with a field k (kind) and the fields used by    *)
(* that kind; they come from a JSON file shared with the Rust emitter.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
          "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
          "n","o","p","q","r","s","t","u","v","w","x","y","z"}
IsTok(n)  == SubSeq(n, 1, 1) \in Upper      \* the name of a token (or token class)
IsNont(n) == SubSeq(n, 1, 1) \in Lower      \* the name of a nonterminal

SymRec(name, kind) ==
    [name |-> name, kind |-> kind, mem |-> <<>>, fb |-> 0, lvl |-> 0, asc |-> "", ty |-> ""]

EmptyFe ==
    [err  |-> "",                     \* first diagnostic, "" if none
     syms |-> <<SymRec("$", "T"), SymRec("error", "N")>>,  \* in order of creation
     idx  |-> [n \in {"$", "error"} |-> IF n = "$" THEN 1 ELSE 2],
     rules |-> <<>>,
     lvl  |-> 0,                      \* current precedence level
     start |-> 0, wild |-> 0, deft |-> "",
     opts |-> <<>>,                   \* pairs <<X, symbol for X?>>
     seen |-> {},                     \* single-use directives already seen
     errUsed |-> FALSE,               \* the error symbol is mentioned somewhere
     extok |-> FALSE, limit |-> 100, verbose |-> FALSE]

Fail(fe, msg) == IF fe.err # "" THEN fe ELSE [fe EXCEPT !.err = msg]

Pos(fe, name) == fe.idx[name]

\* Mention the symbol `name': create it if it is new
Touch(fe, name, kind) ==
    IF name \in DOMAIN fe.idx
    THEN LET i  == fe.idx[name]
             f1 == IF name = "error" THEN [fe EXCEPT !.errUsed = TRUE] ELSE fe
         IN IF kind = "M" /\ fe.syms[i].kind = "T"
            THEN [f1 EXCEPT !.syms[i].kind = "M"] ELSE f1
    ELSE [fe EXCEPT !.syms = Append(@, SymRec(name, kind)),
                    !.idx  = (name :> Len(fe.syms) + 1) @@ @]

\* An anonymous compound: always a new symbol
NewCompound(fe) == [fe EXCEPT !.syms = Append(@, SymRec("", "M"))]

-----------------------------------------------------------------------------
(* Lists of names are processed left to right, stopping at the first error. *)

RECURSIVE AssocIds(_, _, _, _)
AssocIds(fe, ids, i, asc) ==
    IF i > Len(ids) THEN fe
    ELSE IF ~IsTok(ids[i]) THEN Fail(fe, "Precedence cannot be assigned to a non-terminal")
    ELSE LET f1 == Touch(fe, ids[i], "T")
             p  == Pos(f1, ids[i])
         IN IF f1.syms[p].lvl # 0 THEN Fail(f1, "Symbol has already been given a precedence")
            ELSE AssocIds([f1 EXCEPT !.syms[p].lvl = fe.lvl, !.syms[p].asc = asc], ids, i + 1, asc)

RECURSIVE TouchToks(_, _, _, _)
TouchToks(fe, ids, i, msg) ==
    IF i > Len(ids) THEN fe
    ELSE IF ~IsTok(ids[i]) THEN Fail(fe, msg)
    ELSE TouchToks(Touch(fe, ids[i], "T"), ids, i + 1, msg)

\* All the symbols reachable from i through fallbacks, i included
RECURSIVE Chain(_, _)
Chain(syms, i) == IF i = 0 THEN {} ELSE {i} \cup Chain(syms, syms[i].fb)

RECURSIVE SetFallback(_, _, _, _)
SetFallback(fe, ids, i, f) ==
    IF i > Len(ids) THEN fe
    ELSE LET p == Pos(fe, ids[i])
         IN IF fe.syms[p].fb # 0 THEN Fail(fe, "More than one fallback assigned to token")
            ELSE SetFallback([fe EXCEPT !.syms[p].fb = f], ids, i + 1, f)

RECURSIVE ClassIds(_, _, _, _)
ClassIds(fe, ids, i, c) ==
    IF i > Len(ids) THEN fe
    ELSE IF ~IsTok(ids[i]) THEN Fail(fe, "token_class ids must be tokens")
    ELSE LET f1 == Touch(fe, ids[i], "T")
         IN ClassIds([f1 EXCEPT !.syms[c].mem = Append(@, Pos(f1, ids[i]))], ids, i + 1, c)

RECURSIVE CompoundIds(_, _, _, _)
CompoundIds(fe, ids, i, c) ==
    IF i > Len(ids) THEN fe
    ELSE IF ~IsTok(ids[i]) THEN Fail(fe, "Cannot form a compound containing a non-terminal")
    ELSE LET f1 == Touch(fe, ids[i], "T")
         IN CompoundIds([f1 EXCEPT !.syms[c].mem = Append(@, Pos(f1, ids[i]))], ids, i + 1, c)

OptOf(fe, p) == IF \E i \in 1..Len(fe.opts) : fe.opts[i][1] = p
                THEN fe.opts[CHOOSE i \in 1..Len(fe.opts) : fe.opts[i][1] = p][2]
                ELSE 0

\* The right hand side of a rule, accumulating <<fe, positions>>
RECURSIVE RhsElems(_, _, _, _)
RhsElems(fe, rhs, i, acc) ==
    IF i > Len(rhs) \/ fe.err # "" THEN <<fe, acc>>
    ELSE LET el == rhs[i]
             single == Len(el.t) = 1
             f1 == IF single
                   THEN IF ~IsTok(el.t[1]) /\ ~IsNont(el.t[1])
                        THEN Fail(fe, "Symbol must start with uppercase or lowercase letter")
                        ELSE Touch(fe, el.t[1], IF IsTok(el.t[1]) THEN "T" ELSE "N")
                   ELSE CompoundIds(NewCompound(fe), el.t, 1, Len(fe.syms) + 1)
         IN IF f1.err # "" THEN <<f1, acc>>
            ELSE LET base == IF single THEN Pos(f1, el.t[1]) ELSE Len(fe.syms) + 1
                     o    == OptOf(f1, base)
                     nm   == "_" \o ToString(Len(f1.opts))
                     f2   == IF ~el.o \/ o # 0 THEN f1
                             ELSE [Touch(f1, nm, "N") EXCEPT
                                      !.opts = Append(@, <<base, Len(f1.syms) + 1>>)]
                     sym  == IF ~el.o THEN base ELSE OptOf(f2, base)
                 IN RhsElems(f2, rhs, i + 1, Append(acc, sym))

MkRule(lhs, rhs, al, code, prec, tag) ==
    [lhs |-> lhs, rhs |-> rhs, al |-> al, code |-> code, prec |-> prec, tag |-> tag]

Single == {"syntax_error", "parse_fail", "stack_overflow", "deftype", "extra", "errtype",
           "wildcard", "start", "token", "parser", "extratoken", "stack"}
SingleMsg ==
    [syntax_error |-> "Syntax error code already defined",
     parse_fail |-> "Parse fail code already defined",
     stack_overflow |-> "Stack overflow code already defined",
     deftype |-> "Default type already defined",
     extra |-> "Extra argument type already defined",
     errtype |-> "Error type already defined",
     wildcard |-> "Wildcard already defined",
     start |-> "Start symbol already defined",
     token |-> "token enum already defined",
     parser |-> "parser struct already defined",
     extratoken |-> "Extra token type already defined",
     stack |-> "Stack size already defined"]

(* The effect of one declaration. *)
ApplyDecl(fe0, d) ==
    IF d.k \in Single /\ d.k \in fe0.seen THEN Fail(fe0, SingleMsg[d.k])
    ELSE LET fe == IF d.k \in Single THEN [fe0 EXCEPT !.seen = @ \cup {d.k}] ELSE fe0 IN
    CASE d.k \in {"syntax_error", "parse_fail", "stack_overflow", "extra", "errtype",
                  "token", "parser", "include", "module"} -> fe
      [] d.k = "verbose" -> [fe EXCEPT !.verbose = TRUE]
      [] d.k = "deftype" -> [fe EXCEPT !.deft = d.ty]
      [] d.k = "extratoken" -> [fe EXCEPT !.extok = TRUE]
      [] d.k = "stack" -> [fe EXCEPT !.limit = d.n]
      [] d.k = "type" ->
           IF ~IsTok(d.id) /\ ~IsNont(d.id)
           THEN Fail(fe, "Symbol must start with uppercase or lowercase letter")
           ELSE IF IsNont(d.id) /\ d.attr THEN Fail(fe, "Non terminal symbol cannot have attributes")
           ELSE LET f1 == Touch(fe, d.id, IF IsTok(d.id) THEN "T" ELSE "N")
                    p  == Pos(f1, d.id)
                IN IF d.ty = "" THEN f1
                   ELSE IF f1.syms[p].ty # "" THEN Fail(f1, "Symbol type already defined")
                   ELSE [f1 EXCEPT !.syms[p].ty = d.ty]
      [] d.k \in {"left", "right", "nonassoc"} ->
           AssocIds([fe EXCEPT !.lvl = @ + 1], d.ids, 1, d.k)
      [] d.k = "start" ->
           IF ~IsNont(d.id) THEN Fail(fe, "Start symbol must be a non-terminal")
           ELSE LET f1 == Touch(fe, d.id, "N") IN [f1 EXCEPT !.start = Pos(f1, d.id)]
      [] d.k = "fallback" ->
           LET f1 == TouchToks(fe, d.ids, 1, "Fallback ids must be tokens")
           IN IF f1.err # "" THEN f1
              ELSE IF ~IsTok(d.id) THEN Fail(f1, "Fallback must be a token")
              ELSE LET f2 == Touch(f1, d.id, "T")
                       f  == Pos(f2, d.id)
                   IN IF \E i \in 1..Len(d.ids) : Pos(f2, d.ids[i]) \in Chain(f2.syms, f)
                      THEN Fail(f2, "Fallback directive creates a loop")
                      ELSE SetFallback(f2, d.ids, 1, f)
      [] d.k = "wildcard" ->
           IF ~IsTok(d.id) THEN Fail(fe, "Wildcard must be a token")
           ELSE LET f1 == Touch(fe, d.id, "T") IN [f1 EXCEPT !.wild = Pos(f1, d.id)]
      [] d.k = "class" ->
           IF ~IsTok(d.id) THEN Fail(fe, "token_class must be a token")
           ELSE LET f1 == Touch(fe, d.id, "M") IN ClassIds(f1, d.ids, 1, Pos(f1, d.id))
      [] d.k = "rule" ->
           IF ~IsNont(d.lhs) THEN Fail(fe, "LHS of rule must be non-terminal")
           ELSE LET f1 == Touch(fe, d.lhs, "N")
                    rr == RhsElems(f1, d.rhs, 1, <<>>)
                    f2 == rr[1]
                IN IF f2.err # "" THEN f2
                   ELSE IF d.prec # "" /\ ~IsTok(d.prec)
                        THEN Fail(f2, "The precedence symbol must be a token")
                   ELSE LET f3 == IF d.prec = "" THEN f2 ELSE Touch(f2, d.prec, "T")
                        IN [f3 EXCEPT !.rules = Append(@,
                              MkRule(Pos(f3, d.lhs), rr[2], [i \in 1..Len(d.rhs) |-> d.rhs[i].a # ""],
                                     IF d.code THEN "code" ELSE "none",
                                     IF d.prec = "" THEN 0 ELSE Pos(f3, d.prec), d.tag))]
      [] OTHER -> Assert(FALSE, <<"unknown declaration", d>>)

RECURSIVE ApplyDecls(_, _, _)
ApplyDecls(fe, ds, i) == IF i > Len(ds) \/ fe.err # "" THEN fe
                         ELSE ApplyDecls(ApplyDecl(fe, ds[i]), ds, i + 1)

-----------------------------------------------------------------------------
(* After the last declaration: symbols are numbered (tokens first, then      *)
(* nonterminals, then compounds and classes), types are completed, the rules *)
(* of optional symbols are added, rules without code are normalized.         *)
(*                                                                           *)
(* The result is the abstract grammar g used from here on:                   *)
(*   nt      number of terminals; terminals are 0..nt-1, 0 being end of input *)
(*   ns      number of terminals and nonterminals; compounds are >= ns        *)
(*   name, ty: functions on 0..nsym-1; mem: members of each symbol            *)
(*   rules   sequence of [lhs, rhs, al, act, tag, lvl, asc]                   *)
(*     act is "code" (user action), "unit" (no value), "fwd" (value of the    *)
(*     only typed symbol), "none"/"some" (rules of an optional symbol)        *)

Select(s, T(_)) == SelectSeq(s, T)

Finish(fe) ==
    IF fe.err # "" THEN [err |-> fe.err]
    ELSE IF Len(fe.rules) = 0 THEN [err |-> "Grammar must have some rules"]
    ELSE
    LET n     == Len(fe.syms)
        all   == [i \in 1..n |-> i]
        ordr  == SelectSeq(all, LAMBDA i : fe.syms[i].kind = "T") \o
                 SelectSeq(all, LAMBDA i : fe.syms[i].kind = "N") \o
                 SelectSeq(all, LAMBDA i : fe.syms[i].kind = "M")
        nt    == Cardinality({i \in 1..n : fe.syms[i].kind = "T"})
        nn    == Cardinality({i \in 1..n : fe.syms[i].kind = "N"})
        \* creation position -> number
        num   == TLCEval([p \in 1..n |-> (CHOOSE i \in 1..n : ordr[i] = p) - 1])
        multis == {i \in 1..n : fe.syms[i].kind = "M"}
        startp == IF fe.start # 0 THEN fe.start ELSE fe.rules[1].lhs
        wildp  == fe.wild
        \* types
        ty1 == [i \in 1..n |-> LET s == fe.syms[i] IN
                   IF s.kind = "T" /\ i > 1 /\ fe.extok
                   THEN IF s.ty = "" THEN "Loc" ELSE "(Loc," \o s.ty \o ")"
                   ELSE s.ty]
        ty2 == [i \in 1..n |-> IF i # wildp /\ fe.syms[i].kind # "M" /\ ty1[i] = ""
                               THEN fe.deft ELSE ty1[i]]
        ty3 == [i \in 1..n |-> IF fe.syms[i].kind = "M"
                               THEN IF i = wildp THEN ty2[i]
                                    ELSE ty2[fe.syms[i].mem[1]] ELSE ty2[i]]
        isopt(i) == \E j \in 1..Len(fe.opts) : fe.opts[j][2] = i
        optbase(i) == fe.opts[CHOOSE j \in 1..Len(fe.opts) : fe.opts[j][2] = i][1]
        \* the type of an optional of an optional cannot happen: X? names a declared symbol
        ty4 == [i \in 1..n |-> IF isopt(i)
                               THEN "Option<" \o (IF ty3[optbase(i)] = "" THEN "()" ELSE ty3[optbase(i)]) \o ">"
                               ELSE ty3[i]]
        optrules == [k \in 1..(2 * Len(fe.opts)) |->
                       LET o == fe.opts[(k + 1) \div 2] IN
                       IF k % 2 = 1 THEN MkRule(o[2], <<>>, <<>>, "onone", 0, -k)
                       ELSE MkRule(o[2], <<o[1]>>, <<TRUE>>, "osome", 0, -k)]
        rules0 == fe.rules \o optrules
        \* precedence of a rule: its [Token] mark, or the first symbol that has one
        symlvl(p) == IF fe.syms[p].kind = "M"
                     THEN LET ms == SelectSeq(fe.syms[p].mem, LAMBDA m : fe.syms[m].lvl # 0)
                          IN IF ms = <<>> THEN 0 ELSE ms[1]
                     ELSE IF fe.syms[p].lvl # 0 THEN p ELSE 0
        precsym(r) == IF r.prec # 0 THEN r.prec
                      ELSE LET c == SelectSeq(r.rhs, LAMBDA p : symlvl(p) # 0)
                           IN IF c = <<>> THEN 0 ELSE symlvl(c[1])
        typed(p) == ty4[p] # ""
        fwdok(r) == /\ \A i \in 1..Len(r.rhs) : ~r.al[i]
                    /\ Cardinality({i \in 1..Len(r.rhs) : typed(r.rhs[i])}) = 1
        actof(r) == CASE r.code = "code" -> "code"
                      [] r.code = "onone" -> "none"
                      [] r.code = "osome" -> "some"
                      [] OTHER -> IF ~typed(r.lhs) THEN "unit" ELSE IF fwdok(r) THEN "fwd" ELSE "bad"
        rules1 == [k \in 1..Len(rules0) |->
                     LET r == rules0[k]  ps == precsym(r) IN
                     [lhs |-> num[r.lhs], rhs |-> [i \in 1..Len(r.rhs) |-> num[r.rhs[i]]],
                      al |-> [i \in 1..Len(r.rhs) |->
                                r.al[i] \/ (actof(r) = "fwd" /\ typed(r.rhs[i]))],
                      act |-> actof(r), tag |-> r.tag,
                      lvl |-> IF ps = 0 THEN 0 ELSE fe.syms[ps].lvl,
                      asc |-> IF ps = 0 THEN "" ELSE fe.syms[ps].asc]]
        g == TLCEval([err |-> "", nt |-> nt, ns |-> nt + nn, nsym |-> n,
              name |-> [i \in 0..(n-1) |-> fe.syms[ordr[i+1]].name],
              ty   |-> [i \in 0..(n-1) |-> ty4[ordr[i+1]]],
              mem  |-> [i \in 0..(n-1) |-> LET m == fe.syms[ordr[i+1]].mem
                                           IN [j \in 1..Len(m) |-> num[m[j]]]],
              fb   |-> [i \in 0..(n-1) |-> LET f == fe.syms[ordr[i+1]].fb IN IF f = 0 THEN 0 ELSE num[f]],
              lvl  |-> [i \in 0..(n-1) |-> fe.syms[ordr[i+1]].lvl],
              asc  |-> [i \in 0..(n-1) |-> fe.syms[ordr[i+1]].asc],
              rules |-> rules1, start |-> num[startp],
              wild |-> IF wildp = 0 THEN 0 ELSE num[wildp],
              errsym |-> num[2], errUsed |-> fe.errUsed,
              extok |-> fe.extok, limit |-> fe.limit, verbose |-> fe.verbose, seen |-> fe.seen])
    IN IF \E i \in multis : fe.syms[i].mem = <<>>
       THEN [err |-> "token_class must have some tokens"]
       ELSE IF \E i \in multis : \E j \in 1..Len(fe.syms[i].mem) : fe.syms[fe.syms[i].mem[j]].kind # "T"
       THEN [err |-> "A token_class cannot be part of a token_class or compound"]
       ELSE IF \E k \in 1..Len(rules1) : rules1[k].act = "bad"
       THEN [err |-> "This rule has a typed LHS but no code to assign it"]
       ELSE IF \E k \in 1..Len(rules1) : \E i \in 1..Len(rules1[k].rhs) : rules1[k].rhs[i] = g.start
       THEN [err |-> "start symbol on the RHS of a rule"]
       ELSE g

(* Checks made after the automaton has been built without conflicts. *)
LateError(g) ==
    LET tyn(i) == IF i = g.wild /\ g.wild # 0 THEN "" ELSE g.ty[i]
        badfb == {i \in 0..(g.nsym-1) : g.fb[i] # 0 /\ tyn(g.fb[i]) # "" /\ tyn(i) # tyn(g.fb[i])}
        badcomp(r) == \E i \in 1..Len(r.rhs) : r.al[i] /\ r.rhs[i] >= g.ns /\
                         \E j \in 2..Len(g.mem[r.rhs[i]]) : tyn(g.mem[r.rhs[i]][j]) # tyn(r.rhs[i])
        badwild(r) == g.wild # 0 /\ \E i \in 1..Len(r.rhs) : r.al[i] /\ r.rhs[i] = g.wild
        RR == {g.rules[k] : k \in 1..Len(g.rules)}
    IN IF g.wild # 0 /\ g.ty[g.wild] # "" THEN "Wildcard token must not have a type"
       ELSE IF badfb # {} THEN "Fallback token must have the same type or no type at all"
       ELSE IF \E r \in RR : badcomp(r) THEN "Compound tokens with an alias must all have the same type"
       ELSE IF \E r \in RR : badwild(r) THEN "Wildcard token must not have an alias"
       ELSE ""
=============================================================================
