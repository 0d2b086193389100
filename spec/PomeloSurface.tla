---------------------------- MODULE PomeloSurface ----------------------------
(***************************************************************************)
(* The Rust surface of pomelo!: what becomes of the Rust fragments written  *)
(* by the user (visibility, attributes and generics of %token and %parser,  *)
(* attributes of %type, items of %include, blocks of code), in a generated  *)
(* module.                                                                  *)
(*                                                                          *)
(* A behaviour takes a case from a finite family, reads its declarations in *)
(* any order (Read) and expands (Expand), with the outcome out.  TLC visits *)
(* every case and every order; the outcomes are printed and each of them is *)
(* compared with a real expansion (tools/surface.py).                       *)
(*                                                                          *)
(* Fragments are opaque texts.  Identifiers have a hygiene context: "c" for *)
(* those written by the caller of a macro_rules! and "b" for those in its   *)
(* body.                                                                    *)
(***************************************************************************)
EXTENDS PomeloGrammar, SequencesExt, Json

-----------------------------------------------------------------------------
(* Generic parameters: [n, k, b, d]: name, kind (lt, ty, const), bound, default *)
GP(n, k, b, d) == [n |-> n, k |-> k, b |-> b, d |-> d]
La == GP("'a", "lt", "", "")         Lb == GP("'b", "lt", "'a", "")
T0 == GP("T", "ty", "", "")          Tc == GP("T", "ty", "Clone", "")
Tx == GP("T", "ty", "Clone + Default", "")
Td == GP("T", "ty", "", "i64")       U0 == GP("U", "ty", "Default", "")
W0 == GP("W", "ty", "", "")          Nc == GP("N", "const", "usize", "")
Ls == GP("'s", "lt", "", "")

Decl(p) == CASE p.k = "const" -> "const " \o p.n \o ": " \o p.b
             [] p.b # "" -> p.n \o ": " \o p.b
             [] OTHER -> p.n
DeclD(p) == Decl(p) \o (IF p.d = "" THEN "" ELSE " = " \o p.d)
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
MapS(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Angle(ss) == IF ss = <<>> THEN "" ELSE "<" \o Join(ss, ", ") \o ">"
\* a type that uses every parameter, and how a value of it (for the arguments of Args) is shown
UseTy(p) == CASE p.k = "lt" -> "&" \o p.n \o " i64" [] p.k = "ty" -> p.n [] p.k = "const" -> "[i64; " \o p.n \o "]"
UseTys(ps) == IF ps = <<>> THEN "i64" ELSE "(" \o Join(MapS(UseTy, ps), ", ") \o ",)"
Shown(p) == CASE p.k = "lt" -> "5" [] p.k = "ty" -> "7" [] p.k = "const" -> "[1, 2]"
ShownAll(ps) == IF ps = <<>> THEN "3" ELSE IF Len(ps) = 1 THEN "(" \o Shown(ps[1]) \o ",)"
                ELSE "(" \o Join(MapS(Shown, ps), ", ") \o ")"

TokGens == {<<>>, <<La>>, <<T0>>, <<Tc>>, <<La, T0>>, <<Nc>>, <<La, Lb>>, <<T0, U0>>, <<La, Tx, Nc>>, <<Td>>, <<T0, Nc>>}
Range0(s) == {s[i] : i \in 1..Len(s)}
\* (a default is not part of the parameter)
NoDef(p) == [p EXCEPT !.d = ""]
NoDefs(ps) == [i \in 1..Len(ps) |-> NoDef(ps[i])]
Included(ps, qs) == Range0(NoDefs(ps)) \subseteq Range0(NoDefs(qs))
Minus(ps, qs) == SelectSeq(ps, LAMBDA p : NoDef(p) \notin Range0(NoDefs(qs)))
\* the parameters of the parser, by their relation with those of the token
Rotate(s) == IF Len(s) < 2 THEN s ELSE Append(Tail(s), Head(s))
Lts(s) == SelectSeq(s, LAMBDA p : p.k = "lt")
NonLts(s) == SelectSeq(s, LAMBDA p : p.k # "lt")
ParGens(gs, rel) ==
    CASE rel = "same" -> gs
      [] rel = "reorder" -> Reverse(Lts(gs)) \o Rotate(NonLts(gs))
      [] rel = "more" -> <<Ls>> \o Lts(gs) \o (IF \E p \in Range0(gs) : p.d # "" THEN NonLts(gs) ELSE <<W0>> \o NonLts(gs))
      [] rel = "fewer" -> IF gs = <<>> THEN gs ELSE Tail(gs)
      [] rel = "nodef" -> NoDefs(gs)

-----------------------------------------------------------------------------
(* Declarations that have a surface:                                         *)
(*   token, parser  [vis, attrs, gens, wh, body]                             *)
(*   type [id, attrs, ty]; include [n]; module [name]                        *)
TokAttrs == {<<>>, <<"#[derive(Debug)]">>, <<"#[doc = \"x y\"]", "#[derive(Clone, PartialEq)]">>, <<"#[non_exhaustive]", "#[repr(u8)]">>}
ParAttrs == {<<>>, <<"#[must_use]">>, <<"#[doc = \"p\"]", "#[allow(dead_code)]", "#[repr(C)]">>}
VarAttrs == {<<>>, <<"#[vp(1)]">>, <<"#[doc = \"v\"]", "#[vp(rename = \"Q\")]">>, <<"#[allow(unused)]", "#[vp]", "#[cfg(all())]">>}
Vis == {"", "pub", "pub(crate)", "pub(super)"}
NoAttr == <<>>

DT(vis, at, gs, wh, body) == [k |-> "token", vis |-> vis, attrs |-> at, gens |-> gs, wh |-> wh, body |-> body]
DP(vis, at, gs, wh, body) == [k |-> "parser", vis |-> vis, attrs |-> at, gens |-> gs, wh |-> wh, body |-> body]
DY(id, at, ty) == [k |-> "type", id |-> id, attrs |-> at, ty |-> ty]
DI(n) == [k |-> "include", n |-> n]
DM(n) == [k |-> "module", name |-> n]
Wheres(gs) == {""} \cup (IF T0 \in Range0(gs) THEN {"T: Clone"} ELSE {})

\* A case: its declarations that can move, the order of those of the same kind being kept, the parameters
\* that are used by the extra argument, and the kind of stack
Case(ds, pg, own) == [ds |-> ds, pg |-> pg, own |-> own]

\* generics and visibility: every %token with every %parser
CasesG == UNION {UNION {
    {Case(<<DT(v, NoAttr, gs, wh, ""), DP(v2, NoAttr, ParGens(gs, rel), wh, "")>>, ParGens(gs, rel), own)
        : v \in Vis, v2 \in Vis, own \in BOOLEAN} : wh \in Wheres(gs), rel \in {"same", "reorder", "more", "fewer", "nodef"}}
    : gs \in TokGens}
\* only one of them
CasesO == UNION {{Case(<<DT(v, at, gs, wh, "")>>, gs, own) : v \in Vis, at \in TokAttrs, own \in BOOLEAN, wh \in Wheres(gs)} : gs \in TokGens}
     \cup {Case(<<DP(v, at, ParGens(<<>>, rel), "", "")>>, ParGens(<<>>, rel), own) :
             v \in Vis, at \in ParAttrs, rel \in {"same", "more"}, own \in BOOLEAN}
\* attributes, items and names
CasesA == {Case(<<DT("pub", at, <<>>, "", ""), DP(v, pa, <<>>, "", ""), DY("Bt", va, "i64"), DY("Ct", vc, "")>> \o
                (IF m = "" THEN <<>> ELSE <<DM(m)>>) \o [i \in 1..ni |-> DI(i)], <<>>, FALSE) :
             at \in TokAttrs, pa \in ParAttrs, v \in {"pub"}, va \in VarAttrs, vc \in VarAttrs, m \in {"", "zzz"}, ni \in 0..3}
     \cup {Case(<<DT("pub", NoAttr, <<>>, "", ""), DY("Bt", va, ""), DY("Bt", vb, "i64"), DY("Ct", va, ""), DY("Ct", vb, "")>>, <<>>, FALSE) :
             va \in VarAttrs, vb \in VarAttrs}
\* mistakes
CasesM == {Case(<<DT("pub", NoAttr, <<>>, "", b)>>, <<>>, FALSE) : b \in {"A", "A, B(i32)"}}
     \cup {Case(<<DP("pub", NoAttr, <<>>, "", b)>>, <<>>, FALSE) : b \in {"a: i32", "pub a: i32, b: ()"}}
     \cup {Case(<<DT("pub", NoAttr, <<>>, "", ""), DT("pub", NoAttr, <<>>, "", "")>>, <<>>, FALSE),
           Case(<<DP("pub", NoAttr, <<>>, "", ""), DP("pub", NoAttr, <<>>, "", "")>>, <<>>, FALSE)}
     \cup {Case(<<DY("nont", va, ty)>>, <<>>, FALSE) : va \in VarAttrs, ty \in {"", "i64"}}
Cases == CasesG \cup CasesO \cup CasesA \cup CasesM

-----------------------------------------------------------------------------
(* Reading *)
NoDecl == [k |-> "none"]
Surf0 == [err |-> "", tok |-> NoDecl, par |-> NoDecl, mod |-> "parser", incs |-> <<>>, attrs |-> <<>>, tys |-> <<>>]
Get(f, n) == IF n \in DOMAIN f THEN f[n] ELSE <<>>
Put(f, n, v) == (n :> v) @@ f
GetT(f, n) == IF n \in DOMAIN f THEN f[n] ELSE ""
ReadOne(s, d) ==
    IF s.err # "" THEN s ELSE
    CASE d.k = "token" -> IF s.tok # NoDecl THEN [s EXCEPT !.err = "token enum already defined"] ELSE [s EXCEPT !.tok = d]
      [] d.k = "parser" -> IF s.par # NoDecl THEN [s EXCEPT !.err = "parser struct already defined"] ELSE [s EXCEPT !.par = d]
      [] d.k = "module" -> [s EXCEPT !.mod = d.name]
      [] d.k = "include" -> [s EXCEPT !.incs = Append(@, d.n)]
      [] d.k = "type" -> IF IsNont(d.id) /\ d.attrs # <<>> THEN [s EXCEPT !.err = "Non terminal symbol cannot have attributes"]
                         ELSE IF d.ty # "" /\ GetT(s.tys, d.id) # "" THEN [s EXCEPT !.err = "Symbol type already defined"]
                         ELSE [s EXCEPT !.attrs = Put(@, d.id, Get(@, d.id) \o d.attrs),
                                        !.tys = IF d.ty = "" THEN @ ELSE Put(@, d.id, d.ty)]

(* Expanding.  The grammar, without its surface, is                          *)
(*     start ::= At(x) Bt(y) Ct;   nont ::= ...                              *)
(* At has a type that uses every parameter of Token, the extra argument one  *)
(* that uses every parameter of Parser that is not in Token.                 *)
DefTok == [k |-> "token", vis |-> "pub", attrs |-> <<>>, gens |-> <<>>, wh |-> "", body |-> ""]
Header(d, kw, gens) == Join(d.attrs, "") \o " " \o d.vis \o " " \o kw \o Angle(gens) \o
                       (IF d.wh = "" THEN "" ELSE " where " \o d.wh)
Variant(s, id, ty) == Join(Get(s.attrs, id), "") \o " " \o id \o (IF ty = "" THEN "" ELSE "(" \o ty \o ")")
Expansion(s) ==
    IF s.err # "" THEN [status |-> "reject", err |-> s.err] ELSE
    LET t == IF s.tok = NoDecl THEN DefTok ELSE s.tok
        \* without %parser, that of Token without defaults
        p == IF s.par # NoDecl THEN s.par
             ELSE [DefTok EXCEPT !.k = "parser", !.gens = NoDefs(t.gens), !.wh = t.wh]
    IN IF t.body # "" THEN [status |-> "reject", err |-> "Token enum declaration must be empty"]
       ELSE IF p.body # "" THEN [status |-> "reject", err |-> "Parser struct declaration must be empty"]
       ELSE IF ~Included(t.gens, p.gens)
            THEN [status |-> "reject", err |-> "Generic parameter in Token is not in Parser"]
       ELSE [status |-> "ok", err |-> "", mod |-> s.mod, incs |-> s.incs,
             tok |-> Header(t, "enum Token", MapS(DeclD, t.gens)),
             par |-> Header(p, "struct Parser", MapS(DeclD, p.gens)),
             tokseen |-> s.tok # NoDecl, parseen |-> s.par # NoDecl,
             tokpub |-> t.vis = "pub", parpub |-> p.vis = "pub",
             variants |-> <<Variant(s, "At", UseTys(t.gens)), Variant(s, "Bt", GetT(s.tys, "Bt")), Variant(s, "Ct", GetT(s.tys, "Ct"))>>,
             aty |-> UseTys(t.gens), bty |-> GetT(s.tys, "Bt"),
             xty |-> UseTys(Minus(p.gens, t.gens)),
             tgens |-> t.gens, pgens |-> p.gens,
             result |-> "((" \o ShownAll(t.gens) \o ", " \o (IF GetT(s.tys, "Bt") = "" THEN "()" ELSE "9") \o "), " \o
                        ShownAll(Minus(p.gens, t.gens)) \o ")"]

-----------------------------------------------------------------------------
(* Hygiene: where a name used in a block of code resolves.  The delimiters of *)
(* the block belong to a context, and so do the name used and, if it is an    *)
(* alias, the place where it is bound; extra, token and expected are bound by *)
(* pomelo in the context of the block.                                        *)
Blocks == {"action", "syntax_error", "parse_fail", "stack_overflow"}
Names(b) == CASE b = "action" -> {"alias", "extra"}
              [] b = "syntax_error" -> {"extra", "token", "expected"}
              [] b = "parse_fail" -> {"extra"}
              [] b = "stack_overflow" -> {"extra", "token"}
Ctx == {"c", "b"}
\* a block of the caller is passed as such; a block of the body can have inside an expression of the caller
CasesH == UNION {UNION {{[block |-> b, name |-> n, alias |-> a, blk |-> k, use |-> u] :
              a \in (IF n = "alias" THEN Ctx ELSE {"-"}), k \in Ctx, u \in Ctx} : n \in Names(b)} : b \in Blocks}
BindsIn(h) == IF h.name = "alias" THEN h.alias ELSE h.blk
Resolves(h) == BindsIn(h) = h.use
PossibleH(h) == ~(h.blk = "c" /\ h.use = "b")

-----------------------------------------------------------------------------
VARIABLES case, left, surf, out
svars == <<case, left, surf, out>>
None == [status |-> "none"]

Init == \/ /\ case \in Cases
           /\ left = 1..Len(case.ds)
           /\ surf = Surf0 /\ out = None
        \/ /\ case \in {h \in CasesH : PossibleH(h)}
           /\ left = {} /\ surf = Surf0 /\ out = None
IsH == "block" \in DOMAIN case
\* declarations that say something of the same thing are read in their order
Same(d, e) == d.k = e.k /\ (d.k = "type" => d.id = e.id)
Read(i) == /\ ~IsH /\ i \in left
           /\ \A j \in left : j < i => ~Same(case.ds[i], case.ds[j])
           /\ surf' = ReadOne(surf, case.ds[i])
           /\ left' = left \ {i}
           /\ UNCHANGED <<case, out>>
Expand == /\ ~IsH /\ left = {} /\ out = None
          /\ out' = Expansion(surf)
          /\ UNCHANGED <<case, left, surf>>
          /\ PrintT("@" \o ToJson(<<case, out'>>))
Resolve == /\ IsH /\ out = None
           /\ out' = [status |-> IF Resolves(case) THEN "ok" ELSE "reject", err |-> ""]
           /\ UNCHANGED <<case, left, surf>>
           /\ PrintT("H" \o ToJson(<<case, out'>>))
Done == out # None /\ UNCHANGED svars
Next == (\E i \in 1..5 : IF IsH THEN FALSE ELSE i <= Len(case.ds) /\ Read(i)) \/ Expand \/ Resolve \/ Done
Spec == Init /\ [][Next]_svars

RECURSIVE InOrder(_, _, _)
InOrder(s, ds, i) == IF i > Len(ds) THEN s ELSE InOrder(ReadOne(s, ds[i]), ds, i + 1)
\* the order of the declarations does not matter
Confluent == ~IsH /\ out # None => out = Expansion(InOrder(Surf0, case.ds, 1))
\* nothing that was written gets lost, and nothing else appears
Find(k) == SelectSeq(case.ds, LAMBDA d : d.k = k)
AttrsOf(id) == LET ts == SelectSeq(case.ds, LAMBDA d : d.k = "type" /\ d.id = id)
               IN FlattenSeq([i \in 1..Len(ts) |-> ts[i].attrs])
Faithful ==
    ~IsH /\ out # None /\ out.status = "ok" =>
      /\ \A k \in {"token", "parser"} : Find(k) # <<>> =>
           LET d == Find(k)[1]
               x == IF k = "token" THEN out.tok ELSE out.par
           IN x = Join(d.attrs, "") \o " " \o d.vis \o (IF k = "token" THEN " enum Token" ELSE " struct Parser") \o
                  Angle(MapS(DeclD, d.gens)) \o (IF d.wh = "" THEN "" ELSE " where " \o d.wh)
      /\ out.variants[2] = Join(AttrsOf("Bt"), "") \o " Bt" \o (IF out.bty = "" THEN "" ELSE "(" \o out.bty \o ")")
      /\ Len(out.incs) = Len(Find("include"))
      /\ Included(out.tgens, out.pgens)
\* a case is rejected only for a reason
Reasons ==
    ~IsH /\ out # None => (out.status = "reject" <=>
      \/ Len(Find("token")) > 1 \/ Len(Find("parser")) > 1
      \/ \E i \in 1..Len(case.ds) : case.ds[i].k \in {"token", "parser"} /\ case.ds[i].body # ""
      \/ \E i \in 1..Len(case.ds) : case.ds[i].k = "type" /\ ~IsTok(case.ds[i].id) /\ case.ds[i].attrs # <<>>
      \/ /\ Find("token") # <<>> /\ Find("parser") # <<>>
         /\ ~Included(Find("token")[1].gens, Find("parser")[1].gens))
\* with nothing but the caller, or nothing but the body, every name resolves
HygieneOK == IsH /\ out # None => (case.blk = case.use /\ (case.alias \in {"-", case.use}) => out.status = "ok")
=============================================================================
