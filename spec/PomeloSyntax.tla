---------------------------- MODULE PomeloSyntax ----------------------------
(***************************************************************************)
(* The notation of pomelo!: how a sequence of Rust tokens is read as a      *)
(* sequence of declarations (those of PomeloGrammar), or where it is wrong. *)
(*                                                                          *)
(* The reader takes a token at a time (Step) and never goes back: its state *)
(* is the place where it is (q), the declaration being read (cur) and those *)
(* already read (ds).  A token that cannot continue is the error (bad).     *)
(*                                                                          *)
(* Tokens are strings: identifiers, punctuation ("::=" is the one of three  *)
(* characters, or "::" and "="), literals, and these groups, that stand for something whose  *)
(* inside is Rust and not pomelo:                                           *)
(*   "{}" a block of code or of items    "(x)" a pattern   "()" nothing     *)
(*   "[A]" the mark of a rule            "T1", "T2".. types                 *)
(*   "enum", "struct" the items of %token and %parser    "#[]" an attribute *)
(*   "$" the end of the input                                               *)
(*                                                                          *)
(* A behaviour takes an item of INPUT and reads it: a sequence to follow,   *)
(* or a tree (a beginning and an alphabet) of which every path is taken,    *)
(* up to its depth.  The end of the input is tried in every state.          *)
(***************************************************************************)
EXTENDS PomeloGrammar, SequencesExt, Json, IOUtils

Items == ndJsonDeserialize(IOEnv.INPUT)

-----------------------------------------------------------------------------
Groups == {"{}", "(x)", "(mut x)", "(x @ _)", "((x))", "(x | x)", "()", "(x y)", "[A]", "[B]", "[]", "[A B]", "[a]", "enum", "struct", "#[]", "$"}
Puncts == {"%", ";", "|", "?", "::=", "::", "=", ",", ":", "-"}
Types  == {"T1", "T2", "T3", "T4", "T5", "T6", "T7", "T8", "T9"}
\* (the reserved words of Rust are not identifiers)
Reserved == {"_", "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "extern", "false", "fn", "for",
    "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "super",
    "trait", "true", "type", "unsafe", "use", "where", "while", "abstract", "become", "do", "final", "macro", "override",
    "priv", "try", "typeof", "unsized", "virtual", "yield"}
\* literals that are sizes, and their value
Ints == [i \in {"7", "0x10", "1_2", "9u8", "0", "3", "100", "12", "70000", "0x1_0000"} |->
           CASE i = "7" -> 7 [] i = "0x10" -> 16 [] i = "1_2" -> 12 [] i = "9u8" -> 9 [] i = "0" -> 0 [] i = "3" -> 3 [] i = "100" -> 100 [] i = "12" -> 12
             [] i = "70000" -> 70000 [] i = "0x1_0000" -> 65536]
NotInts == {"1.5", "99999999999999999999", "'c'"}
IsId(t) == t \notin Groups \cup Puncts \cup Types \cup Reserved \cup DOMAIN Ints \cup NotInts
Patterns == {"(x)", "(mut x)", "(x @ _)", "((x))", "(x | x)"}
IsMark(t) == t \in {"[A]", "[B]", "[a]"}
MarkOf(t) == CASE t = "[A]" -> "A" [] t = "[B]" -> "B" [] t = "[a]" -> "a"
Nth == [t \in Types |-> CHOOSE i \in 1..9 : t = <<"T1","T2","T3","T4","T5","T6","T7","T8","T9">>[i]]
TyOf(t) == <<"V1","V2","V3","V4","V5","V6","V7","V8","V9">>[Nth[t]]

\* directives, by what comes after their name
OfId    == {"start_symbol", "wildcard", "module"}          \* name ;
OfList  == {"left", "right", "nonassoc"}                   \* names ;
OfIds   == {"fallback", "token_class"}                     \* name names ;
OfType  == {"default_type", "extra_argument", "error", "extra_token"}   \* type ;
OfBlock == {"include", "syntax_error", "parse_fail", "stack_overflow"}  \* {} [;]
OfNone  == {"verbose"}                                     \* ;
Directives == OfId \cup OfList \cup OfIds \cup OfType \cup OfBlock \cup OfNone \cup {"type", "stack_size", "token", "parser"}

\* Kinds of PomeloGrammar
KindOf(w) == CASE w = "start_symbol" -> "start" [] w = "token_class" -> "class" [] w = "default_type" -> "deftype"
               [] w = "extra_argument" -> "extra" [] w = "error" -> "errtype" [] w = "extra_token" -> "extratoken"
               [] w = "stack_size" -> "stack" [] OTHER -> w

Start0 == [q |-> "top", cur |-> [k |-> ""], ds |-> <<>>, n |-> 0, from |-> 1, bad |-> 0]
Done(s) == [s EXCEPT !.q = "top", !.ds = Append(@, [d |-> s.cur, from |-> s.from, to |-> s.n]), !.cur = [k |-> ""]]
Goto(s, q) == [s EXCEPT !.q = q]
Bad(s) == [s EXCEPT !.q = "bad", !.bad = s.n]

\* s.n is the number of tokens read, t included
Top(s0, t) ==
    LET s == [s0 EXCEPT !.from = s0.n]
    IN CASE t = "$" -> Goto(s, "end")
         [] t = "%" -> Goto(s, "directive")
         [] IsId(t) -> [Goto(s, "lhs") EXCEPT !.cur = [k |-> "rule", lhs |-> t, rhs |-> <<>>, code |-> FALSE, prec |-> "", tag |-> 0]]
         [] OTHER -> Bad(s)
\* the declaration ended before t
DoneThen(s, t) == Top([Done([s EXCEPT !.n = @ - 1]) EXCEPT !.n = s.n], t)

Directive(s, t) ==
    LET k == KindOf(t)
    IN CASE t \notin Directives -> Bad(s)
         [] t \in {"start_symbol", "wildcard"} -> [Goto(s, "id") EXCEPT !.cur = [k |-> k, id |-> ""]]
         [] t = "module" -> [Goto(s, "name") EXCEPT !.cur = [k |-> k]]
         [] t \in OfList -> [Goto(s, "ids") EXCEPT !.cur = [k |-> k, ids |-> <<>>]]
         [] t \in OfIds -> [Goto(s, "id") EXCEPT !.cur = [k |-> k, id |-> "", ids |-> <<>>]]
         [] t = "default_type" -> [Goto(s, "type") EXCEPT !.cur = [k |-> k, ty |-> ""]]
         [] t \in OfType \ {"default_type"} -> [Goto(s, "sometype") EXCEPT !.cur = [k |-> k]]
         [] t \in OfBlock -> [Goto(s, "block") EXCEPT !.cur = [k |-> k]]
         [] t = "verbose" -> [Goto(s, "semi") EXCEPT !.cur = [k |-> k]]
         [] t = "type" -> [Goto(s, "typeid") EXCEPT !.cur = [k |-> k, id |-> "", ty |-> "", attr |-> FALSE]]
         [] t = "stack_size" -> [Goto(s, "size") EXCEPT !.cur = [k |-> k, n |-> 0, ty |-> ""]]
         [] t = "token" -> [Goto(s, "enum") EXCEPT !.cur = [k |-> k]]
         [] t = "parser" -> [Goto(s, "struct") EXCEPT !.cur = [k |-> k]]

\* another symbol of the right side
Sym(s, t) == [Goto(s, "sym") EXCEPT !.cur.rhs = Append(@, [t |-> <<t>>, o |-> FALSE, a |-> ""])]
Last0(s) == Len(s.cur.rhs)
Rhs(s, t) ==
    CASE IsId(t) -> Sym(s, t)
      [] IsMark(t) -> [Goto(s, "marked") EXCEPT !.cur.prec = MarkOf(t)]
      [] t = "{}" -> [Goto(s, "closed") EXCEPT !.cur.code = TRUE]
      [] t = ";" -> Done(s)
      [] t \in {"%", "$"} -> DoneThen(s, t)
      [] OTHER -> Bad(s)
Alias(s, t) == IF t \in Patterns THEN [Goto(s, "rhs") EXCEPT !.cur.rhs[Last0(s)].a = "x"] ELSE Rhs(s, t)

Step0(s, t) ==
    CASE s.q = "top" -> Top(s, t)
      [] s.q = "directive" -> Directive(s, t)
      [] s.q = "id" -> IF IsId(t) THEN [Goto(s, IF s.cur.k \in {"fallback", "class"} THEN "ids" ELSE "semi") EXCEPT !.cur.id = t] ELSE Bad(s)
      [] s.q = "name" -> IF IsId(t) THEN Goto(s, "semi") ELSE Bad(s)
      [] s.q = "ids" -> IF IsId(t) THEN [s EXCEPT !.cur.ids = Append(@, t)] ELSE IF t = ";" THEN Done(s) ELSE Bad(s)
      [] s.q = "type" -> IF t \in Types THEN [Goto(s, "semi") EXCEPT !.cur.ty = TyOf(t)] ELSE Bad(s)
      [] s.q = "sometype" -> IF t \in Types THEN Goto(s, "semi") ELSE Bad(s)
      [] s.q = "semi" -> IF t = ";" THEN Done(s) ELSE Bad(s)
      [] s.q = "block" -> IF t = "{}" THEN Goto(s, "closed") ELSE Bad(s)
      [] s.q = "closed" -> IF t = ";" THEN Done(s) ELSE DoneThen(s, t)
      [] s.q = "typeid" -> CASE t = "#[]" -> [s EXCEPT !.cur.attr = TRUE]
                             [] IsId(t) -> [Goto(s, "typety") EXCEPT !.cur.id = t]
                             [] OTHER -> Bad(s)
      [] s.q = "typety" -> CASE t = ";" -> Done(s)
                             [] t \in Types -> [Goto(s, "semi") EXCEPT !.cur.ty = TyOf(t)]
                             [] OTHER -> Bad(s)
      [] s.q = "size" -> IF t \in DOMAIN Ints THEN [Goto(s, "sizety") EXCEPT !.cur.n = Ints[t]] ELSE Bad(s)
      [] s.q = "sizety" -> CASE t = ";" -> Done(s)
                             [] t = "T1" -> [Goto(s, "semi") EXCEPT !.cur.ty = "own"]
                             [] OTHER -> Bad(s)
      [] s.q = "enum" -> IF t = "enum" THEN Goto(s, "semi") ELSE Bad(s)
      [] s.q = "struct" -> IF t = "struct" THEN Goto(s, "semi") ELSE Bad(s)
      [] s.q = "lhs" -> IF t = "::=" THEN Goto(s, "rhs") ELSE IF t = "::" THEN Goto(s, "eq") ELSE Bad(s)
      [] s.q = "eq" -> IF t = "=" THEN Goto(s, "rhs") ELSE Bad(s)
      [] s.q = "rhs" -> Rhs(s, t)
      [] s.q = "sym" -> CASE t = "|" -> Goto(s, "bar")
                          [] t = "?" -> [Goto(s, "opt") EXCEPT !.cur.rhs[Last0(s)].o = TRUE]
                          [] OTHER -> Alias(s, t)
      [] s.q = "bar" -> IF IsId(t) THEN [Goto(s, "sym") EXCEPT !.cur.rhs[Last0(s)].t = Append(@, t)] ELSE Bad(s)
      [] s.q = "opt" -> Alias(s, t)
      [] s.q = "marked" -> CASE t = "{}" -> [Goto(s, "closed") EXCEPT !.cur.code = TRUE]
                             [] t = ";" -> Done(s)
                             [] OTHER -> DoneThen(s, t)
Step(s, t) == Step0([s EXCEPT !.n = @ + 1], t)
Final(s) == s.q \in {"bad", "end"}
\* what Rust would read as a type, but is not one of Types
OutOfScope(s, t) ==
    \/ /\ s.q \in {"type", "sometype", "typety", "sizety"}
       /\ IsId(t) \/ t \in Types \/ t \in {"(x)", "(mut x)", "(x @ _)", "((x))", "(x | x)", "()", "(x y)", "[A]", "[B]", "[]", "[A B]", "[a]", "_", "self", "Self", "super", "crate", "fn", "::", "enum", "struct"}
       /\ ~(t \in Types /\ (s.q # "sizety" \/ t = "T1"))
    \* in the middle of a type another beginning of a type can be read as its end
    \/ s.q = "semi" /\ s.cur.k \in {"deftype", "extra", "errtype", "extratoken", "type", "stack"} /\ t \in {"::=", "::", "(x)", "()"}

-----------------------------------------------------------------------------
(* Writing: the documented notation of a declaration *)
RECURSIVE Bars(_, _)
Bars(ts, i) == IF i > Len(ts) THEN <<>> ELSE (IF i > 1 THEN <<"|">> ELSE <<>>) \o <<ts[i]>> \o Bars(ts, i + 1)
RECURSIVE Elems(_, _)
Elems(rhs, i) == IF i > Len(rhs) THEN <<>> ELSE
    Bars(rhs[i].t, 1) \o (IF rhs[i].o THEN <<"?">> ELSE <<>>) \o (IF rhs[i].a # "" THEN <<"(x)">> ELSE <<>>) \o Elems(rhs, i + 1)
OfTy(ty) == IF ty = "" THEN <<>> ELSE <<CHOOSE t \in Types : TyOf(t) = ty>>
IntOf(n) == CHOOSE t \in DOMAIN Ints : Ints[t] = n
Write1(d) ==
    CASE d.k = "rule" -> <<d.lhs, "::=">> \o Elems(d.rhs, 1) \o (IF d.prec # "" THEN <<CHOOSE t \in {"[A]", "[B]", "[a]"} : MarkOf(t) = d.prec>> ELSE <<>>) \o
                         (IF d.code THEN <<"{}">> ELSE <<";">>)
      [] d.k = "start" -> <<"%", "start_symbol", d.id, ";">>
      [] d.k = "wildcard" -> <<"%", "wildcard", d.id, ";">>
      [] d.k = "module" -> <<"%", "module", "parser", ";">>
      [] d.k \in OfList -> <<"%", d.k>> \o d.ids \o <<";">>
      [] d.k = "fallback" -> <<"%", "fallback", d.id>> \o d.ids \o <<";">>
      [] d.k = "class" -> <<"%", "token_class", d.id>> \o d.ids \o <<";">>
      [] d.k = "deftype" -> <<"%", "default_type">> \o OfTy(d.ty) \o <<";">>
      [] d.k = "extra" -> <<"%", "extra_argument", "T1", ";">>
      [] d.k = "errtype" -> <<"%", "error", "T1", ";">>
      [] d.k = "extratoken" -> <<"%", "extra_token", "T1", ";">>
      [] d.k \in OfBlock -> <<"%", d.k, "{}">>
      [] d.k = "verbose" -> <<"%", "verbose", ";">>
      [] d.k = "type" -> <<"%", "type">> \o (IF d.attr THEN <<"#[]">> ELSE <<>>) \o <<d.id>> \o OfTy(d.ty) \o <<";">>
      [] d.k = "stack" -> <<"%", "stack_size", IntOf(d.n)>> \o (IF d.ty = "" THEN <<>> ELSE <<"T1">>) \o <<";">>
      [] d.k = "token" -> <<"%", "token", "enum", ";">>
      [] d.k = "parser" -> <<"%", "parser", "struct", ";">>
RECURSIVE WriteAll(_, _)
WriteAll(ds, i) == IF i > Len(ds) THEN <<>> ELSE Write1(ds[i]) \o WriteAll(ds, i + 1)
RECURSIVE ReadAll(_, _, _)
ReadAll(s, ts, i) == IF i > Len(ts) \/ Final(s) THEN s ELSE ReadAll(Step(s, ts[i]), ts, i + 1)
Decls(s) == [i \in 1..Len(s.ds) |-> s.ds[i].d]

-----------------------------------------------------------------------------
VARIABLES item, txt, st
vars == <<item, txt, st>>
It == Items[item]
IsTree == "alpha" \in DOMAIN It

Init == /\ item \in 1..Len(Items)
        /\ txt = IF IsTree THEN It.pre ELSE <<>>
        /\ st = IF IsTree THEN ReadAll(Start0, It.pre, 1) ELSE Start0
Out(s, ts, at) == PrintT("@" \o ToJson(<<item, ts, IF s.q = "end" THEN [ok |-> TRUE, ds |-> s.ds] ELSE [ok |-> FALSE, bad |-> s.bad, at |-> at]>>))
\* a path of a tree: nothing is read after an error
Take(t) == /\ IsTree /\ ~Final(st) /\ Len(txt) < Len(It.pre) + It.depth
           /\ ~OutOfScope(st, t)
           /\ txt' = Append(txt, t) /\ st' = Step(st, t)
           /\ st'.q = "bad" => Out(st', txt', st.q)
           /\ UNCHANGED item
\* the rest of the item, if any, is always read: nothing after an error makes it right
Follow == /\ ~IsTree /\ ~Final(st) /\ Len(txt) < Len(It.path)
          /\ LET t == It.path[Len(txt) + 1]
             IN /\ ~OutOfScope(st, t)
                /\ txt' = Append(txt, t) /\ st' = Step(st, t)
          /\ st'.q = "bad" => Out(st', It.path, st.q)
          /\ UNCHANGED item
End == /\ ~Final(st)
       /\ (IF IsTree THEN TRUE ELSE Len(txt) = Len(It.path))
       /\ txt' = txt /\ st' = Step(st, "$")
       /\ Out(st', txt, st.q)
       /\ UNCHANGED item
Next == (\E t \in (IF IsTree THEN Range(It.alpha) ELSE {}) : Take(t)) \/ Follow \/ End
Spec == Init /\ [][Next]_vars

\* The reader never goes back: each token is of one declaration, and they come in order
Ordered == \A i \in 1..Len(st.ds) :
    /\ st.ds[i].from <= st.ds[i].to /\ st.ds[i].to <= st.n
    /\ st.ds[i].from = IF i = 1 THEN 1 ELSE st.ds[i - 1].to + 1
\* What was read, written in the documented way, is read again as the same
RoundTrip == st.q = "end" =>
    LET s == ReadAll(Start0, Append(WriteAll(Decls(st), 1), "$"), 1)
    IN s.q = "end" /\ Decls(s) = Decls(st)
\* The declarations do not depend on those around: each one, alone, is read as itself
Alone == st.q = "end" => \A i \in 1..Len(st.ds) :
    LET s == ReadAll(Start0, Append(SubSeq(txt, st.ds[i].from, st.ds[i].to), "$"), 1)
    IN s.q = "end" /\ Decls(s) = <<st.ds[i].d>>
\* With the documented terminators everywhere, no declaration runs into the next one
Terminated == st.q = "end" => \A i \in 1..Len(st.ds) :
    LET ts == SubSeq(txt, st.ds[i].from, st.ds[i].to)
    IN st.ds[i].d.k # "rule" => ts[Len(ts)] \in {";", "{}"}
=============================================================================
