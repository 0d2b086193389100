"""Grammars written by hand, in the notation of dsl.parse."""

# no conflicts, only plain tokens: every sentence is derivable and vice versa
PLAIN = [
    # the usual ones
    's ::= e {} e ::= e P t {} e ::= t; t ::= t M f {} t ::= f; f ::= L e R {} f ::= N {}',
    's ::= l {} l ::= {} l ::= l A {}',
    's ::= l {} l ::= {} l ::= A l {}',
    's ::= A x B {} x ::= {} x ::= x C {}',
    's ::= p {} p ::= L p R {} p ::= {}',
    's ::= v {} v ::= N {} v ::= L R {} v ::= L m R {} m ::= v {} m ::= m C v {}',
    # LALR(1), not SLR(1)
    's ::= l E r {} s ::= r {} l ::= M r {} l ::= I {} r ::= l {}',
    's ::= A a D {} s ::= B a C {} s ::= A E C {} a ::= E {}',
    # LALR(1), not LR(0); needs look-ahead to finish a list
    's ::= a b {} a ::= {} a ::= a A {} b ::= {} b ::= B b {}',
    # empty rules everywhere
    's ::= a b c {} a ::= {} a ::= A {} b ::= {} b ::= B {} c ::= {} c ::= C {}',
    's ::= a b c D {} a ::= b {} b ::= c {} c ::= {} a ::= A {}',
    's ::= a a2 {} a ::= {} a2 ::= a3 {} a3 ::= {} a3 ::= A {}',
    's ::= {}',
    's ::= A {}',
    's ::= A A A {}',
    # nullable prefix: look-ahead passes through several empty symbols
    's ::= x n1 n2 A {} s ::= x n1 n2 B C {} x ::= X {} n1 ::= {} n2 ::= {}',
    's ::= a n b {} n ::= {} n ::= N n {} a ::= A {} b ::= B {} b ::= N2 {}',
    # unit chains (default reductions many levels deep)
    's ::= a {} a ::= b {} b ::= c {} c ::= d {} d ::= A {} d ::= L a R {}',
    # common prefixes with different continuations
    's ::= A B C {} s ::= A B D {} s ::= A E {} s ::= B {}',
    's ::= x C {} s ::= y D {} x ::= A B {} y ::= A E {}',
    's ::= x C {} s ::= y D {} x ::= A {} y ::= A {}',
    # same core merged from different contexts
    's ::= A x A {} s ::= B x B {} s ::= A y B {} x ::= C {} y ::= D {}',
    's ::= A x A {} s ::= B x B {} x ::= C {} x ::= x C {}',
    's ::= A q Z {} s ::= B q Y {} q ::= w {} w ::= C {} w ::= w D {}',
    # statements
    's ::= b {} b ::= {} b ::= b st {} st ::= I E e T {} st ::= L b R {} e ::= e P f {} e ::= f; f ::= I; f ::= N; ',
    's ::= d {} d ::= t vs S {} t ::= A {} t ::= B {} vs ::= I {} vs ::= vs C I {}',
    # right and left recursion mixed, mutual recursion
    's ::= a {} a ::= A b {} a ::= C {} b ::= B a {} b ::= D {}',
    's ::= a D {} a ::= b A {} b ::= a B {} a ::= C {} b ::= E {}',
    's ::= a {} a ::= a b {} a ::= b {} b ::= L a R {} b ::= L R {}',
    's ::= x x {} x ::= A x {} x ::= B {}',
    # a nonterminal in several positions
    's ::= a S a {} a ::= A {} a ::= a A {}',
    's ::= a a a B {} a ::= A {} a ::= C {}',
    # dangling else, disambiguated by hand
    's ::= m {} s ::= u {} m ::= I m E m2 {} m ::= O {} m2 ::= O {} m2 ::= I m E m2 {} u ::= I u2 {} u2 ::= O T {}',
    # the accepting state has other items
    's ::= a {} a ::= a A {} a ::= A {} a ::= L a R {}',
    # a rule that fits inside another
    's ::= A x {} s ::= A B y {} x ::= C {} x ::= B D {} y ::= C {}',
    's ::= a B {} s ::= a C D {} a ::= A {} a ::= A A {}',
    # long right-hand sides
    's ::= A B C D E F G {} s ::= A B C x {} x ::= G G {} x ::= D {}',
    # an unused token in the middle of the numbering
    '%type Z V1; %type Y V2; s ::= A z {} z ::= Y(x) {} z ::= Z(x) z {}',
    # reductions by empty rules decided by the look-ahead
    's ::= m A {} s ::= n B {} s ::= k C {} m ::= {} n ::= {} k ::= {}',
    's ::= A m A {} s ::= A n B {} s ::= B m C {} m ::= {} n ::= {}',
    's ::= o p Q {} o ::= {} o ::= O {} p ::= {} p ::= p P o2 {} o2 ::= {} o2 ::= X {}',
]

# which of these are LALR(1) is up to the specification
DOUBTFUL = [
    's ::= e {} e ::= e P e {} e ::= N {}',
    's ::= I s2 {} s2 ::= I s2 {} s2 ::= I s2 E s2 {} s2 ::= O {}',
    's ::= a {} s ::= b {} a ::= A {} b ::= A {}',
    # LR(1), not LALR(1)
    's ::= A e C {} s ::= A f D {} s ::= B f C {} s ::= B e D {} e ::= E {} f ::= E {}',
    's ::= A a D {} s ::= B b D {} s ::= A b E {} s ::= B a E {} a ::= C {} b ::= C {}',
    # LR(2)
    's ::= a b {} s ::= A c {} a ::= A {} b ::= B C {} c ::= B D {}',
    # ambiguous lists
    's ::= l {} l ::= l l {} l ::= A {}',
    's ::= l {} l ::= {} l ::= l x {} x ::= {} x ::= A {}',
    's ::= l {} l ::= {} l ::= l l2 {} l2 ::= {}',
    's ::= a {} a ::= a {} a ::= A {}',
    's ::= a {} a ::= b {} b ::= a {} b ::= A {}',
    # palindromes
    's ::= p {} p ::= {} p ::= A p A {} p ::= B p B {}',
    # unreachable rules, and rules that cannot be finished
    's ::= A {} b ::= B {}',
    's ::= A {} s ::= b {} b ::= B b {}',
    's ::= a {} a ::= A a {}',
    's ::= A a {} a ::= B a {} a ::= C {} d ::= a {}',
    's ::= x {} x ::= y {} y ::= x A {} y ::= B {} s ::= y C {}',
    # hidden left recursion
    's ::= a {} a ::= b a A {} a ::= C {} b ::= {}',
    's ::= a {} a ::= b a A {} a ::= C {} b ::= B {} b ::= {}',
    's ::= A o B {} s ::= A B {} o ::= {} o ::= C {}',
    # look-ahead only through chains of follow sets
    's ::= a A {} s ::= b B {} a ::= c {} b ::= d {} c ::= e {} d ::= f {} e ::= X {} f ::= X {}',
    's ::= a A {} s ::= b A {} a ::= X {} b ::= X {}',
    's ::= m o {} m ::= n {} n ::= A {} o ::= {} o ::= A {} n ::= A A {}',
    's ::= a B {} s ::= c C {} s ::= D a C {} a ::= X {} c ::= X {}',
    's ::= a B {} s ::= c C {} s ::= D c B {} a ::= X {} c ::= X {}',
    's ::= a B {} s ::= c C {} s ::= D c B {} s ::= D a C {} a ::= X {} c ::= X {}',
    's ::= q {} q ::= r A {} q ::= r {} r ::= B {} r ::= r r2 {} r2 ::= A {}',
    's ::= a b {} a ::= A {} a ::= {} b ::= A {}',
    's ::= a b {} a ::= A {} a ::= {} b ::= B {}',
    's ::= {} s ::= A {}',
    's ::= a {} s ::= {} a ::= {}',
    's ::= a b {} a ::= {} a ::= A b {} b ::= {} b ::= B {}',
]

PREC = [
    '%left P; %left M; s ::= e {} e ::= e P e {} e ::= e M e {} e ::= N {} e ::= L e R {}',
    '%left P Q; %left M D; s ::= e {} e ::= e P e {} e ::= e Q e {} e ::= e M e {} e ::= e D e {} e ::= N {}',
    '%right A; %left P; %right X; s ::= e {} e ::= e A e {} e ::= e P e {} e ::= e X e {} e ::= N {}',
    '%left P; %left M; %left U; s ::= e {} e ::= e P e {} e ::= e M e {} e ::= P e [U] {} e ::= N {}',
    '%left M; %left P; %left U; s ::= e {} e ::= e P e {} e ::= e M e {} e ::= P e [M] {} e ::= N {}',
    '%left P; %right M; s ::= e {} e ::= e P e {} e ::= e M e {} e ::= e P M e {} e ::= N {}',
    # the first symbol with precedence gives that of the rule
    '%left A; %left B; %left C; s ::= e {} e ::= e A e B e {} e ::= e C e {} e ::= e B e {} e ::= N {}',
    '%left C; %left B; %left A; s ::= e {} e ::= e A e B e {} e ::= e C e {} e ::= N {}',
    '%left A; %right B; s ::= e {} e ::= e Z A e {} e ::= e B e {} e ::= N {} ',
    # dangling else
    '%right T E; s ::= st {} st ::= I st [T] {} st ::= I st E st {} st ::= O {}',
    '%left T; %left E; s ::= st {} st ::= I st [T] {} st ::= I st E st {} st ::= O {}',
    '%left E; %left T; s ::= st {} st ::= I st [T] {} st ::= I st E st {} st ::= O {}',
    '%right E; s ::= st {} st ::= I st [E] {} st ::= I st E st {} st ::= O {}',
    '%right I E; s ::= st {} st ::= I st {} st ::= I st E st {} st ::= O {}',
    # prefix, postfix and infix
    '%left P; %left B; %left S; s ::= e {} e ::= B e {} e ::= e P e {} e ::= e S {} e ::= N {}',
    '%left S; %left P; %left B; s ::= e {} e ::= B e {} e ::= e P e {} e ::= e S {} e ::= N {}',
    '%right P; %right B; s ::= e {} e ::= B e {} e ::= e P e {} e ::= e B e {} e ::= N {}',
    # juxtaposition
    '%left N; s ::= e {} e ::= e e [N] {} e ::= N {}',
    '%right N; s ::= e {} e ::= e e [N] {} e ::= N {}',
    '%left N; %left P; s ::= e {} e ::= e e [N] {} e ::= e P e {} e ::= N {}',
    # the same in nested nonterminals
    '%left P; %left M; s ::= e {} e ::= f {} f ::= f P f {} f ::= f M f {} f ::= t {} t ::= N {} t ::= L e R {}',
    # ternary
    '%right Q C; %left P; s ::= e {} e ::= e Q e C e {} e ::= e P e {} e ::= N {}',
    '%left P; %right Q C; s ::= e {} e ::= e Q e C e {} e ::= e P e {} e ::= N {}',
    # one of the two has no precedence: conflict
    '%left P; s ::= e {} e ::= e P e {} e ::= e M e {} e ::= N {}',
    '%left M; s ::= e {} e ::= e P e [M] {} e ::= N {}',
    '%left P; s ::= e {} e ::= e P e {} e ::= e Z e {} e ::= N {}',
    '%left P; %left U; s ::= e {} e ::= e P e [U] {} e ::= N {}',
    '%left U; %left P; s ::= e {} e ::= e P e [U] {} e ::= N {}',
    '%left U; s ::= e {} e ::= e P e [U] {} e ::= N {}',
    # two rules with the same operator
    '%left P; %right U; s ::= e {} e ::= e P e {} e ::= P e {} e ::= N {}',
    '%left P; %right U; s ::= e {} e ::= e P e {} e ::= P e [U] {} e ::= N {}',
    '%right U; %left P; s ::= e {} e ::= e P e {} e ::= P e [U] {} e ::= N {}',
    # compounds have no precedence of their own
    '%left P Q; s ::= e {} e ::= e P e {} e ::= e Q e {} e ::= P|Q e [P] {} e ::= N {}',
    '%left P Q; s ::= e {} e ::= e P|Q e {} e ::= N {}',
    '%left P Q; s ::= e {} e ::= e P|Q e [Q] {} e ::= N {}',
    '%class O P Q; %left P Q; s ::= e {} e ::= e O e [P] {} e ::= N {}',
    '%left P; %left Q; s ::= e {} e ::= e P|Q e [P] {} e ::= N {}',
    '%left P; %left Q; s ::= e {} e ::= e P|Q e [Q] {} e ::= N {}',
]

NONASSOC = [
    '%nonassoc E; s ::= e {} e ::= e E e {} e ::= N {}',
    '%nonassoc E; %left P; s ::= e {} e ::= e E e {} e ::= e P e {} e ::= N {}',
    '%left P; %nonassoc E; s ::= e {} e ::= e E e {} e ::= e P e {} e ::= N {}',
    '%nonassoc E F; %left P; s ::= e {} e ::= e E e {} e ::= e F e {} e ::= e P e {} e ::= N {}',
    '%nonassoc E; %nonassoc F; s ::= e {} e ::= e E e {} e ::= e F e {} e ::= N {}',
    '%nonassoc E; s ::= e {} e ::= e E e {} e ::= N {} e ::= L e R {}',
    '%nonassoc U; %left P; s ::= e {} e ::= U e {} e ::= e P e {} e ::= e U {} e ::= N {}',
    '%nonassoc E; %wildcard W; s ::= e {} s ::= e W {} e ::= e E e {} e ::= N {}',
    '%nonassoc E; %wildcard W; s ::= e {} e ::= e E e {} e ::= N {} e ::= W {}',
    '%nonassoc E; %fallback N E; s ::= l {} l ::= e {} l ::= l S e {} e ::= e E e {} e ::= N {}',
    '%nonassoc E; %fallback X E; s ::= e {} s ::= e X {} e ::= e E e {} e ::= N {}',
    '%nonassoc N; s ::= e {} e ::= e e [N] {} e ::= N {}',
    '%nonassoc E; s ::= e {} e ::= e E e {} e ::= N {} e ::= error {}',
    '%nonassoc E; s ::= l {} l ::= {} l ::= l e S {} l ::= l error S {} e ::= e E e {} e ::= N {}',
    '%nonassoc E; %left Q; s ::= e {} e ::= e E e {} e ::= e Q {} e ::= N {}',
    '%nonassoc E; %right A; s ::= e {} e ::= e E e {} e ::= e A e {} e ::= N {}',
    '%right A; %nonassoc E; s ::= e {} e ::= e E e {} e ::= e A e {} e ::= B e [E] {} e ::= N {}',
    '%nonassoc T E; s ::= st {} st ::= I st [T] {} st ::= I st E st {} st ::= O {}',
    '%nonassoc T; %nonassoc E; s ::= st {} st ::= I st [T] {} st ::= I st E st {} st ::= O {}',
    '%nonassoc E; s ::= e {} e ::= e E e {} e ::= N {} e ::= M {} e ::= e D {}',
    '%nonassoc P Q; s ::= e {} e ::= e P|Q e [P] {} e ::= N {}',
    # an error entry must not be settled again by a third action
    '%nonassoc P; %left Q; s ::= e {} e ::= e P e {} e ::= e P e Q {} e ::= e Q P e {} e ::= N {}',
    '%nonassoc A; %left B; s ::= x A {} s ::= y A {} s ::= z A {} x ::= e {} y ::= e [A] {} z ::= e [B] {} e ::= N {} e ::= e A N {}',
    '%nonassoc A; %left B; s ::= e {} e ::= e A e {} e ::= e e [A] {} e ::= A {} e ::= N {}',
    '%nonassoc A B; s ::= e {} e ::= e A e {} e ::= e B e {} e ::= e e [B] {} e ::= N {} e ::= L e R {}',
    '%nonassoc A; %nonassoc C; s ::= x {} s ::= y {} x ::= N [A] {} y ::= N [A] {} s ::= N A M {} s ::= x A {}',
    '%left B; %nonassoc A; s ::= w A K {} s ::= x A {} s ::= N A M {} w ::= N [A] {} x ::= N [B] {}',
    '%left B; %nonassoc A; s ::= x A {} s ::= w A K {} s ::= N A M {} x ::= N [B] {} w ::= N [A] {} s ::= w Z {} s ::= x Y {}',
]

RR = [
    '%left A; %left B; s ::= x {} s ::= y {} x ::= T [A] {} y ::= T [B] {} s ::= x C {} ',
    '%left B; %left A; s ::= x {} s ::= y {} x ::= T [A] {} y ::= T [B] {} s ::= x C {} ',
    '%left A; %left B; s ::= x {} s ::= y {} x ::= T [A] {} y ::= T [B] {} s ::= x C {} s ::= y D {}',
    '%left B; %left A; s ::= x {} s ::= y {} x ::= T [A] {} y ::= T [B] {} s ::= x C {} s ::= y D {}',
    '%left A B; s ::= x {} s ::= y {} x ::= T [A] {} y ::= T [B] {} s ::= x C {} s ::= y D {}',
    '%right A B; s ::= x {} s ::= y {} x ::= T [A] {} y ::= T [B] {} s ::= x C {} s ::= y D {}',
    '%nonassoc A B; s ::= x {} s ::= y {} x ::= T [A] {} y ::= T [B] {} s ::= x C {} s ::= y D {}',
    '%left A; s ::= x {} s ::= y {} x ::= T [A] {} y ::= T {} s ::= x C {} s ::= y D {}',
    '%left A; s ::= x {} s ::= y {} x ::= T {} y ::= T [A] {} s ::= x C {} s ::= y D {}',
    's ::= x {} s ::= y {} x ::= T {} y ::= T {} s ::= x C {} s ::= y D {}',
    '%left T; s ::= x {} s ::= y {} x ::= T {} y ::= T {} s ::= x C {} s ::= y D {}',
    '%right A; %right B; s ::= x {} s ::= y {} x ::= T [A] {} y ::= T [B] {} s ::= x C {} s ::= y D {}',
    '%nonassoc A; %nonassoc B; s ::= x {} s ::= y {} x ::= T [A] {} y ::= T [B] {} s ::= x C {} s ::= y D {}',
    # three at once
    '%left A; %left B; %left C; s ::= x {} s ::= y {} s ::= z {} x ::= T [A] {} y ::= T [B] {} z ::= T [C] {} s ::= x E {} s ::= y F {}',
    '%left C; %left B; %left A; s ::= x {} s ::= y {} s ::= z {} x ::= T [A] {} y ::= T [B] {} z ::= T [C] {} s ::= z E {} s ::= y F {}',
    '%left B; %left A; %left C; s ::= x {} s ::= y {} s ::= z {} x ::= T [A] {} y ::= T [B] {} z ::= T [C] {} s ::= x E {} s ::= y F {}',
    '%left B; %left A C; s ::= x {} s ::= y {} s ::= z {} x ::= T [A] {} y ::= T [B] {} z ::= T [C] {} s ::= x E {} s ::= y F {} s ::= z G {}',
    '%left A C; %left B; s ::= x {} s ::= y {} s ::= z {} x ::= T [A] {} y ::= T [B] {} z ::= T [C] {} s ::= x E {} s ::= y F {} s ::= z G {}',
    '%left B; %left A; s ::= x {} s ::= y {} s ::= z {} x ::= T [A] {} y ::= T [B] {} z ::= T {} s ::= x E {} s ::= y F {} s ::= z G {}',
    # with a shift too
    '%left A; %left B; %left C; s ::= x C {} s ::= y C {} s ::= T C C {} x ::= T [A] {} y ::= T [B] {} s ::= x {} ',
    '%left C; %left A; %left B; s ::= x C {} s ::= y C {} s ::= T C C {} x ::= T [A] {} y ::= T [B] {} s ::= x Z {} ',
    '%left A; %left C; %left B; s ::= x C {} s ::= y C {} s ::= T C C {} x ::= T [A] {} y ::= T [B] {} s ::= x Z {} s ::= y Y {}',
    '%left A; %right C; %left B; s ::= x C {} s ::= y C {} s ::= T C D {} x ::= T [A] {} y ::= T [C] {} s ::= x Z {} s ::= y Y {}',
    '%left A; %left C; s ::= x C {} s ::= y C {} s ::= T C D {} x ::= T [A] {} y ::= T [C] {} s ::= x Z {} s ::= y Y {}',
    # empty rules
    '%left A; %left B; s ::= x C {} s ::= y C {} x ::= [A] {} y ::= [B] {} s ::= x D {}',
    '%left B; %left A; s ::= x C {} s ::= y C {} x ::= [A] {} y ::= [B] {} s ::= y D {}',
    '%left A; s ::= x C {} s ::= y C {} x ::= [A] {} y ::= {} s ::= y D {} s ::= x E {}',
    # only on some look-aheads
    '%left A; %left B; s ::= x C {} s ::= y C {} s ::= x D {} s ::= y E {} x ::= T [A] {} y ::= T [B] {}',
    '%left B; %left A; s ::= x C {} s ::= y C {} s ::= x D {} s ::= y E {} x ::= T [A] {} y ::= T [B] {}',
    '%left T; %left U; s ::= x {} s ::= y {} x ::= T U {} y ::= T U {} s ::= x C {} s ::= y D {}',
]

FALLBACK = [
    '%fallback I K; s ::= K I {} s ::= I S {}',
    '%fallback I K L; s ::= K x {} s ::= L x {} x ::= I {}',
    '%fallback I K; %fallback J I; s ::= l {} l ::= J {} l ::= l C I {} l ::= l D K {}',
    '%fallback I K; %fallback J I; s ::= J J {} s ::= K J {}',
    '%fallback I K; s ::= l {} l ::= {} l ::= l I {} l ::= l K S {}',
    '%fallback I K; s ::= a K {} s ::= b I {} a ::= A {} b ::= A {}',
    '%fallback I K; s ::= a K {} s ::= b I {} s ::= a X {} a ::= A {} b ::= A {}',
    '%fallback I K; s ::= x I {} s ::= x S {} x ::= A {} x ::= {}',
    '%fallback I K; s ::= a I {} s ::= b S {} a ::= X {} b ::= X {}',
    '%fallback I K; s ::= x {} x ::= I {} x ::= x I {} x ::= x K x2 {} x2 ::= S {}',
    '%type I V1; %type K V1; %fallback I K; %type s V2; s ::= I(a) {} s ::= K S I(b) {}',
    '%type K V1; %fallback I K; %type s V2; s ::= I(a) {} s ::= K(b) S {} s ::= I(a) K(b) {}',
    '%type K V1; %fallback I K; %type x V2; %type s V3; s ::= x(b) {} x ::= I(a) T {} x ::= x(c) I(d) {}',
    '%type K V1; %type I V1; %fallback I K; %type s V1; s ::= I; ',
    '%type I V1; %type K V1; %type J V1; %fallback I K; %fallback J I; s ::= J(a) J(b) J(c) {}',
    '%fallback I K; %wildcard W; s ::= I W {} s ::= A W I {}',
    '%fallback I K; %wildcard W; s ::= A I {} s ::= A W {} s ::= B W {}',
    '%fallback W K; %wildcard W; s ::= A W {} s ::= A K A {}',
    '%fallback I W; %wildcard W; s ::= A W {} s ::= B I {}',
    '%fallback I K; s ::= e {} e ::= e P e2 {} e ::= e2 {} e2 ::= I {} e2 ::= K L e R {}',
    '%left P; %fallback I P; s ::= e {} e ::= e P e {} e ::= I {}',
    '%fallback I K; s ::= l {} l ::= {} l ::= l error S {} l ::= l I S {}',
    '%fallback I K; s ::= I? A {} s ::= K B {}',
    '%fallback I K; s ::= I|J A {} s ::= K B {}',
    '%fallback I K; %class C I J; s ::= C A {} s ::= K B {}',
    '%extratoken; %fallback I K; %type K V1; %type I V1; s ::= I(a) {} s ::= K(b) S {}',
    '%extratoken; %fallback I K; s ::= I(a) {} s ::= K(b) S {}',
    '%extratoken; %fallback I K; %type K V1; s ::= I(a) {} s ::= K(b) S {}',
    # fallback to a token the state reduces on
    '%fallback S K; s ::= l S {} l ::= A {} l ::= l A {} l ::= l K A {}',
    '%fallback S K; s ::= a S {} s ::= b T {} a ::= A {} b ::= A {} s ::= a T T {}',
    '%fallback S K; s ::= a S {} a ::= A {} a ::= b {} b ::= B {} b ::= K b {}',
    '%fallback S K; %fallback S J; s ::= A S {} s ::= A J A {} s ::= A K B {}',
    '%fallback A B C D; s ::= A A {} s ::= B C D {}',
]

WILDCARD = [
    '%wildcard W; s ::= A W {} s ::= B C {}',
    '%wildcard W; %type X V1; s ::= A W X {} s ::= A X(a) B {}',
    '%wildcard W; s ::= l {} l ::= {} l ::= l W {}',
    '%wildcard W; s ::= l {} l ::= {} l ::= l W {} l ::= l A B {}',
    '%wildcard W; s ::= L ws R {} ws ::= {} ws ::= ws W {}',
    '%wildcard W; s ::= L ws R {} ws ::= {} ws ::= ws W {} ws ::= ws L ws R {}',
    # default reductions in states where only some look-aheads are wild
    's ::= a T1; s ::= a T2; s ::= b W; a ::= X; b ::= X; %wildcard W;',
    's ::= a T1 {} s ::= a T2 {} s ::= b W {} a ::= X {} b ::= X {} %wildcard W;',
    's ::= a W {} s ::= b T {} a ::= X {} b ::= X {} %wildcard W;',
    's ::= a W {} a ::= X {} a ::= X Y {} %wildcard W;',
    's ::= a {} s ::= a W B {} a ::= X {} a ::= X A {} %wildcard W;',
    's ::= x W {} x ::= {} x ::= x A {} %wildcard W;',
    's ::= x y {} x ::= {} x ::= X {} y ::= W {} y ::= A A {} %wildcard W;',
    '%wildcard W; s ::= W {}',
    '%wildcard W; s ::= W W W {}',
    '%wildcard W; s ::= W x {} x ::= A {} x ::= W B {}',
    '%wildcard W; s ::= A {} s ::= W B {}',
    '%wildcard W; s ::= W? A {}',
    '%wildcard W; s ::= A W|B C {}',
    '%wildcard W; s ::= A W {} s ::= A B|C D {}',
    '%wildcard W; s ::= l {} l ::= {} l ::= l A S {} l ::= l error S {} l ::= l B W S {}',
    '%wildcard W; %left P; s ::= e {} e ::= e P e {} e ::= N {} e ::= L W R {}',
    '%wildcard W; %extratoken; %type A V1; s ::= W A(x) {} s ::= A(x) B(y) {}',
    '%wildcard W; %fallback A B; %fallback A C; s ::= A X {} s ::= X W {} s ::= Y B W {}',
    '%wildcard W; %deftype V1; s ::= A(x) W B(y) {}',
    '%wildcard W; s ::= A o W {} o ::= {} o ::= O {}',
    '%wildcard W; s ::= a b {} a ::= A {} a ::= A W {} b ::= B {}',
]

OPTIONAL = [
    's ::= A? B {}', 's ::= A? {}', 's ::= A B? {}', 's ::= A? B? C? {}',
    '%type A V1; s ::= A?(x) B {}', '%type A V1; %type s V2; s ::= A?(x) B?(y) {}',
    '%type a V1; s ::= a?(x) B {} a ::= A {} a ::= C a(x) {}',
    's ::= a?(x) B {} a ::= A {}',
    '%type A V1; %type a V2; s ::= A?(x) a?(y) {} a ::= B A?(z) B {}',
    '%type A V1; s ::= l {} l ::= {} l ::= l L A?(x) R {}',
    '%type A V1; %type B V1; s ::= A|B?(x) C {}', 's ::= A|B?(x) C {}',
    '%class K A B; %type A V1; %type B V1; s ::= K?(x) C {} s ::= D K(y) {}',
    '%class K A B; s ::= K? C {}',
    '%type A V1; s ::= A?(x) B {} s ::= C A?(x) D {}',
    '%type A V1; s ::= x A?(y) {} x ::= X {} x ::= x X {}',
    's ::= A? A {}', 's ::= A? A? {}', 's ::= A? B {} s ::= B C {}',
    '%type A V1; s ::= A?(a) A2?(b) A3?(c) {}',
    '%type a V1; s ::= a?(x) {} a ::= {} a ::= A {}',
    '%deftype V7; s ::= A?(x) B {}',
    '%deftype (); s ::= A?(x) B {}',
    '%extratoken; %type A V1; s ::= A?(x) B?(y) {}',
    '%type A V1; %fallback A K; s ::= A?(x) B {} s ::= K C {}',
    '%wildcard W; s ::= A W? B {}', '%wildcard W; s ::= W? A? B {}',
    '%type A V1; s ::= l(x) {} %type l V3; l ::= {} l ::= l(x) A?(y) S {} l ::= l(x) error S {}',
    '%left P; %type N V1; s ::= e {} e ::= e P e {} e ::= N?(x) L {}',
    '%type A V1; s ::= A? B {}', '%type A V1; %type s V1; s ::= A? B;',
    '%type b V1; s ::= L b?(x) R {} b ::= B {} b ::= b(y) B {}',
    '%type A V1; %type B V2; s ::= A?(a) B?(b) A?(c) B?(d) C {}',
    '%type A V1; %type B V2; s ::= A?(a) C B?(b) C A?(c) C B?(d) {}',
    's ::= A|B? {} s ::= C|D? E {}',
    '%type A V1; s ::= Q A|A?(x) {}',
]

COMPOUND = [
    's ::= A|B C {}', 's ::= A|B|C {}', '%type A V1; %type B V1; s ::= A|B(x) C {}',
    '%type A V1; %type B V1; %type C V1; %type s V1; s ::= A|B|C;',
    '%type A V1; %type B V2; s ::= A|B C {}',
    '%type A V1; %type B V2; s ::= A|B(x) C {}',
    '%class K A B C; s ::= K D {}', '%class K A B C; %type A V1; %type B V1; %type C V1; s ::= K(x) K(y) {}',
    '%class K A B; s ::= K C {} s ::= A D {}', '%class K A B; s ::= K C {} s ::= C A {}',
    '%class K A B; %class J B C; s ::= K J {}', '%class K A B; %class J B C; s ::= K X {} s ::= J Y {}',
    's ::= x A|B {} x ::= {} x ::= x C {}', 's ::= x A|B {} s ::= y C|D {} x ::= X {} y ::= X {}',
    's ::= x A|B {} s ::= y B|C {} x ::= X {} y ::= X {}',
    's ::= l {} l ::= {} l ::= l A|B {}', 's ::= l {} l ::= A|B {} l ::= l C|D A|B {}',
    '%left A B; s ::= e {} e ::= e A|B e [A] {} e ::= N|M {}',
    's ::= A|B x {} x ::= A {} x ::= B {}', 's ::= A|B C {} s ::= B|D E {}', 's ::= A|B C {} s ::= C|D E {}',
    '%class K A; s ::= K {} s ::= B {}', '%class K A A B; s ::= K {}', 's ::= A|A B {}',
    '%extratoken; %type A V1; %type B V1; s ::= A|B(x) C(y) {}', '%extratoken; s ::= A|B(x) C(y) {}',
    '%deftype V5; s ::= A|B(x) {}', '%deftype V5; %type A V1; s ::= A|B {}', '%deftype V5; %type A V1; s ::= A|B(x) {}',
    '%type K V1; %class K A B; s ::= K(x) {}',
    '%class K A B; %type K V1; s ::= K(x) {}',
    '%class K A B; %type K V1; %type A V1; s ::= K(x) C {}',
    '%type A V1; %class K A B; %type B V1; %type s V2; s ::= x(y) {} %type x V3; x ::= K(z) {} x ::= x(q) K(z) {}',
    's ::= A|B|C|D|E|F|G F|E {}', '%wildcard W; s ::= A|B W {} s ::= W A {}',
    '%class K A B; %fallback A C; s ::= K D {} s ::= C E {}',
    '%class K A B; s ::= l {} l ::= {} l ::= l K S {} l ::= l error S {}',
    '%class K A B; s ::= l K {} l ::= {} l ::= l C {}',
    's ::= a A|B {} s ::= a C {} a ::= X {} a ::= X A|B Y {}',
]

ERROR = [
    's ::= l {} l ::= {} l ::= l A S {} l ::= l error S {}',
    '%type error V9; s ::= l {} l ::= {} l ::= l A S {} l ::= l error(e) S {}',
    '%type error V9; %type A V1; s ::= l {} l ::= {} l ::= l L i R {} i ::= A(x) {} i ::= i C A(x) {} i ::= error(e) {}',
    's ::= A error {} s ::= B C {}', 's ::= error {}', 's ::= A {} s ::= error B {}',
    's ::= L e R {} e ::= A B C {} e ::= L e R {} e ::= error {}',
    's ::= b {} b ::= L ss R {} ss ::= {} ss ::= ss st {} st ::= A E N S {} st ::= b {} st ::= error S {}',
    '%type error V9; s ::= x error(e) {} x ::= A x {} x ::= B {}',
    's ::= A B error C {} s ::= A D {}',
    's ::= A B x {} x ::= C {} x ::= error {} s ::= A error Z {}',
    '%type error V9; %type x V1; %type y V2; s ::= x(a) y(b) {} x ::= A {} x ::= error(e) A2 {} y ::= B B {} y ::= error(e) {}',
    's ::= e {} e ::= e P t {} e ::= t; t ::= L e R {} t ::= N {} t ::= error {}',
    's ::= l {} l ::= l A B {} l ::= A B {} l ::= error {}',
    '%stack 4; s ::= L x {} x ::= L x {} x ::= A {} x ::= error {}',
    '%type error V9; s ::= A B C D {} s ::= A error(e) {}',
    # the error type is declared but error is in no rule
    '%type error V9; s ::= A B {}',
    '%errtype; %type error V9; s ::= A B {} s ::= C x {} x ::= X {}',
    's ::= l {} l ::= {} l ::= l A B S {} l ::= l A error S {} l ::= l error S {}',
    '%fallback A K; s ::= l {} l ::= {} l ::= l A S {} l ::= l error S {} l ::= l K T {}',
    's ::= A? error B {}', '%type error V9; s ::= A error?(e) B {}',
    's ::= error error {}', 's ::= x error y {} x ::= {} x ::= X {} y ::= Y {} y ::= error Z {}',
    '%left P; s ::= e {} e ::= e P e {} e ::= N {} e ::= L error R {}',
    '%wildcard W; s ::= l {} l ::= {} l ::= l A W S {} l ::= l error S {}',
    '%type error (); s ::= A error(e) B {}',
    '%type A V1; %type l V3; %type error V9; s ::= l(x) {} l ::= {} l ::= l(x) A(y) A(z) S {} l ::= l(x) error(e) S {}',
]

TYPES = [
    '%type A V1; %type s V2; s ::= A(x) {}', '%type A V1; %type s V1; s ::= A;',
    '%type A V1; %type s V1; s ::= A B;', '%type A V1; %type s V1; s ::= B A C;',
    '%type A V1; %type s V1; s ::= A A;', '%type s V1; s ::= A;', '%type A V1; %type s V1; s ::= A(x);',
    '%type A V1; %type s V1; s ::= A B(x);', '%type s V1; s ::= ;', 's ::= ;', '%type A V1; s ::= A;',
    '%type A V1; %type a V1; %type s V1; s ::= a; a ::= A; a ::= L a R;',
    '%type A V1; %type a V1; %type s V1; s ::= a B; a ::= A; a ::= L a R; a ::= L R {}',
    '%deftype V1; s ::= A(x) b(y) {} b ::= B(z) {}', '%deftype V1; s ::= A;', '%deftype V1; s ::= A B;',
    '%deftype V1; %type B; s ::= A B(x) {}', '%deftype V1; %type B (); s ::= A(a) B(x) {}',
    '%deftype (); s ::= A(x) {}', '%deftype (); %type A V1; %type s V2; s ::= A(x) b(y) {} b ::= B(z) {}',
    '%deftype V1; %type A V2; %type s V3; s ::= A(x) B(y) {}', '%type A V2; %type s V3; s ::= A(x) B(y) {} %deftype V1;',
    '%deftype V1; s ::= A error(e) {}', '%deftype V1; %type error V9; s ::= A error(e) {}',
    '%deftype V1; %class K A B; s ::= K(x) {}', '%deftype V1; s ::= A|B(x) c?(y) {} c ::= C {}',
    '%type A (); s ::= A(x) {}', '%type s (); s ::= A {}', '%type s (); %type A (); s ::= A;',
    '%type s (); s ::= a B {} %type a V1; a ::= A {}',
    '%extratoken; s ::= A(x) {}', '%extratoken; %type A V1; s ::= A(x) B(y) {}', '%extratoken; %type A (); s ::= A(x) B(y) {}',
    '%extratoken; s ::= A B(x) C {}', '%extratoken; s ::= A;', '%extratoken; %type s V1; s ::= A {}', '%extratoken; %type s Loc; s ::= A;',
    '%extratoken; %type A V1; %type s (Loc,V1); s ::= A;',
    '%extratoken; %deftype V1; s ::= A(x) b(y) {} b ::= B(z) {}', '%extratoken; %deftype V1; %type A V2; s ::= A(x) B(y) {}',
    '%extratoken; %type A V1; s ::= A|B {}', '%extratoken; %type A V1; s ::= A?(x) B(y) {}',
    '%type A V1; %type B V2; %type C V1; %type s V3; %type x V2; s ::= A(a) x(b) C(c) {} x ::= B(d) {} x ::= x(e) B(f) {} x ::= B(g) C {} ',
    '%type A V1; %type B V2; s ::= A(a) B C(c) B(d) A {}', '%type A V1; s ::= A(a) A(b) A A(c) {}',
    '%type a V1; %type b V1; s ::= a(x) b(y) a(z) b(w) {} a ::= A {} b ::= B {}',
    '%type # A V1; %type B; %type # C; s ::= A(a) B(b) C(c) {}', '%type Q V1; s ::= A {}', '%type q V1; s ::= A {}',
    '%type A V1; %type a V2; s ::= a(x) a(y) {} a ::= A(z) {} a ::= A(z) A(w) C {} a ::= B {}',
    '%type A V1; %type s V1; s ::= a; %type a V1; a ::= b B; %type b V1; b ::= C A;',
    '%type A V1; %type B V1; %type s V1; s ::= A; s ::= B C; s ::= C A D;',
    '%type A V1; %type B V2; %type s V1; s ::= A B;',
    '%type s V1; %type a V1; s ::= a; a ::= {} a ::= a A {}',
]

# declarations of every kind that is not right (C14); what is valid here stays valid
BAD = [
    '', 's ::= A {} s ::= s B {}', '%start q; s ::= A {}', '%start s; %start s; s ::= A {}', '%start A; s ::= A {}',
    '%start t; s ::= A {} t ::= B {}', '%start t; s ::= A {} t ::= s {}',
    's ::= a {}', 's ::= A {} b ::= c {}', 'S ::= A {}', 's ::= A {} A ::= B {}',
    's ::= A(x) {}', 's ::= A(x);',
    '%left A; %left A; s ::= A {}', '%left A A; s ::= A {}', '%left A; %right A; s ::= A {}', '%left a; s ::= A {}', '%left; s ::= A {}',
    '%right; s ::= A {}', '%nonassoc A; %nonassoc B A; s ::= A {}', '%left s; s ::= A {}',
    '%type A V1; %type A V1; s ::= A {}', '%type A V1; %type A V2; s ::= A {}', '%type A; %type A; s ::= A {}', '%type A V1; %type A; s ::= A {}',
    '%type A; %type A V1; s ::= A(x) {}', '%type s V1; %type s V1; s ::= A {}', '%type Q; s ::= A {}', '%type q V1; s ::= A {}',
    '%deftype V1; %deftype V1; s ::= A(x) {}', '%deftype V1; %deftype V2; s ::= A(x) {}',
    '%extra; %extra; s ::= A {}', '%errtype; %errtype; s ::= A {}', '%extratoken; %extratoken; s ::= A {}',
    '%se; %se; s ::= A {}', '%pf; %pf; s ::= A {}', '%so; %so; s ::= A {}', '%module; %module; s ::= A {}',
    '%verbose; %verbose; s ::= A {}', '%include; %include; s ::= A {}', '%token; %token; s ::= A {}', '%parser; %parser; s ::= A {}',
    '%stack 5; %stack 5; s ::= A {}', '%stack 5 crate::rt::MyStack; %stack 6; s ::= A {}', '%stack 0; s ::= A {}', '%stack 6; %stack 5 crate::rt::MyStack; s ::= A {}',
    '%stack 1; s ::= A {}', '%stack 5 crate::rt::MyStack; %stack 6 crate::rt::MyStack; s ::= A {}',
    '%wildcard W; %wildcard W; s ::= A W {}', '%wildcard W; %wildcard X; s ::= A W {}', '%wildcard w; s ::= A {}', '%wildcard s; s ::= A {}',
    '%wildcard W; %type W V1; s ::= W {}', '%type W V1; %wildcard W; s ::= W {}', '%wildcard W; s ::= W(x) {}', '%wildcard W; s ::= A {}',
    '%wildcard W; s ::= A W|B(x) {}', '%wildcard W; s ::= A W|B {}',
    '%fallback A B; %fallback A B; s ::= A {}', '%fallback A B; %fallback C B; s ::= A C {}', '%fallback A A; s ::= A {}', '%fallback A B; %fallback B A; s ::= A {}',
    '%fallback A B; %fallback B C; %fallback C A; s ::= A {}', '%fallback A B B; s ::= A {}', '%fallback a B; s ::= A {}', '%fallback A b; s ::= A {}',
    '%fallback A B A; s ::= A {}', '%fallback A; s ::= A {}', '%fallback A B; %fallback B C; %fallback D A; s ::= D {}', '%fallback A B; %fallback B C; %fallback C B; s ::= A {}',
    '%fallback A B; %type A V1; s ::= A(x) {}', '%fallback A B; %type A V1; %type B V2; s ::= A(x) {}', '%fallback A B; %type A V1; %type B V1; s ::= A(x) {}', '%fallback A B; %type B V1; s ::= A(x) {}',
    '%fallback B A; %type A V1; s ::= A(x) {}', '%fallback A B; %type A V1; s ::= A {}',
    '%class K; s ::= A {}', '%class K; s ::= K {}', '%class K A; %class K B; s ::= K {}', '%class K A; %class J K; s ::= J {}', '%class J K; %class K A; s ::= J {}', '%class K K; s ::= K {}',
    '%class k A B; s ::= k {}', '%class K a; s ::= K {}', '%class K A; s ::= K|B {}', '%class K A B; K ::= A {} s ::= K {}', '%class K A B; %left K; s ::= A {}',
    '%class K A B; %fallback K C; s ::= K {}', '%class K A B; %fallback C K; s ::= K {}', '%class K A B; %wildcard K; s ::= A {}', '%class K A B; s ::= A [K] {}',
    's ::= K {} %class K A B;', '%class K A B; %start K; s ::= A {}', '%type K V1; %class K A; s ::= A {}', '%wildcard A; %class A B; s ::= B {}',
    '%class K A B; %type A V1; s ::= K(x) {}', '%class K A B; %type A V1; s ::= K {}', '%class K A B; %type A V1; %type B V2; s ::= K(x) {}',
    's ::= A|b {} b ::= B {}', 's ::= a|b {} a ::= A {} b ::= B {}', 's ::= error|A {}', 's ::= A|B(x) {} %type A V1;',
    's ::= A [B] {}', 's ::= A [a] {}', 's ::= A [s] {}', '%left B; s ::= A [B] {}', 's ::= A [error] {}',
    'error ::= A {} s ::= error {}', 's ::= error {}', '%start error; s ::= A {}', '%fallback error A; s ::= A {}', '%wildcard error; s ::= A {}', '%left error; s ::= A {}',
    '%type s V1; s ::= A;', '%type s V1; %type A V1; s ::= A A;', '%type s V1; s ::= A {} s ::= B;', '%type s V1; s ::= ;',
    's ::= A {} s ::= A {}', 's ::= a {} a ::= A {} a ::= A {}', 's ::= A {} b ::= B {}', 's ::= a {} a ::= a {}', 's ::= a {} a ::= A a {}',
    's ::= a {} a ::= b {} b ::= a {}', 's ::= A {} t ::= t B {}', '%left A; s ::= a {} a ::= A {} a ::= A {}',
    '%start s; %type error V1; s ::= A {}', '%token; %parser; s ::= A {}', '%module; %include; s ::= A {}', '%include; %token; %extra; %errtype; s ::= A {}',
    '%left A; %left B; %left C; %left D; s ::= A B C D {}', '%type A V1; %class K B; %fallback C A; %wildcard W; s ::= K C W D?(x) E|F {}',
]

# languages: larger grammars, with many features at once, each one with the properties it is about
REAL = [
    # examples/json.rs
    ('plain optional', '''s ::= o {} o ::= d {} o ::= r {} o ::= N {} o ::= S {} o ::= T {} o ::= F {} o ::= U {}
        d ::= LB il? RB {} r ::= LK ol? RK {} ol ::= o {} ol ::= ol C o {} il ::= i {} il ::= il C i {} i ::= S CO o {}'''),
    # examples/interpreter
    ('prec optional nonassoc', '''%left Else; %right Assign; %left Or; %left And; %nonassoc Equal NotEqual; %nonassoc Less LessEq Greater GreaterEq;
        %left Plus Minus; %left Mult Div; %nonassoc Not;
        input ::= dl?; dl ::= decl {} dl ::= dl decl {} decl ::= f_decl {} decl ::= v_decl {}
        f_decl ::= Fn Ident LParen al? RParen block {} al ::= Ident {} al ::= al Comma Ident {} block ::= LBrace sl? RBrace {}
        v_decl ::= Var Ident Assign expr Semi {} sl ::= stmt {} sl ::= sl stmt {}
        stmt ::= block {} stmt ::= expr Semi {} stmt ::= If LParen expr RParen stmt [Else] {} stmt ::= If LParen expr RParen stmt Else stmt {}
        stmt ::= While LParen expr RParen stmt {} stmt ::= Return expr Semi {} stmt ::= Return Semi {} stmt ::= Break Semi {}
        expr ::= Number {} expr ::= Ident {} expr ::= Ident LParen el? RParen {} expr ::= LParen expr RParen {}
        expr ::= expr Plus expr {} expr ::= expr Minus expr {} expr ::= expr Mult expr {} expr ::= Minus expr [Not] {}
        expr ::= expr Equal expr {} expr ::= expr And expr {} expr ::= expr Or expr {} expr ::= Not expr {} expr ::= expr Less expr {}
        expr ::= expr GreaterEq expr {} expr ::= expr Assign expr {} el ::= expr {} el ::= el Comma expr {}'''),
    # SQL as in lemon: identifiers that are also keywords, anything in a declaration of virtual tables
    ('fallback wildcard prec', '''%fallback ID ASC DESC KEY; %wildcard ANY; %left OR; %left AND; %nonassoc EQ IS; %left PLUS; %right NOT;
        s ::= cl {} cl ::= c {} cl ::= cl c {} c ::= cmd SEMI {}
        cmd ::= SELECT rl FROM ID wh ob {} cmd ::= CREATE ID LP dl RP {} cmd ::= VIRTUAL ID LP va RP {}
        rl ::= e {} rl ::= rl COMMA e {} wh ::= {} wh ::= WHERE e {} ob ::= {} ob ::= ORDER BY e so {} so ::= {} so ::= ASC {} so ::= DESC {}
        dl ::= ID ty {} dl ::= dl COMMA ID ty {} ty ::= {} ty ::= ID {} ty ::= ID KEY {}
        va ::= {} va ::= va vt {} vt ::= ANY {} vt ::= LP va RP {}
        e ::= e OR e {} e ::= e AND e {} e ::= e EQ e {} e ::= e IS e {} e ::= e PLUS e {} e ::= NOT e {} e ::= ID {} e ::= NUM {} e ::= LP e RP {}'''),
    # Lua: the statements, with prefix expressions
    ('plain compound prec optional', '''%left OR; %left AND; %left LT GT; %right CONCAT; %left ADD SUB; %left MUL; %right UN; %right POW;
        s ::= chunk {} chunk ::= b {} b ::= sl {} b ::= sl ret {} sl ::= {} sl ::= sl st SEMI {}
        st ::= vl EQ xl {} st ::= call {} st ::= DO b END {} st ::= WHILE x DO b END {} st ::= REPEAT b UNTIL x {}
        st ::= IF x THEN b ei EN? END {} ei ::= {} ei ::= ei EI x THEN b {} st ::= FOR NAME EQ x COMMA x DO b END {} st ::= LOCAL nl {} st ::= LOCAL nl EQ xl {}
        ret ::= RETURN {} ret ::= RETURN xl {} nl ::= NAME {} nl ::= nl COMMA NAME {} vl ::= v {} vl ::= vl COMMA v {}
        v ::= NAME {} v ::= p LK x RK {} v ::= p DOT NAME {} p ::= v {} p ::= call {} p ::= LP x RP {}
        call ::= p args {} call ::= p COLON NAME args {} args ::= LP RP {} args ::= LP xl RP {} args ::= STR {}
        xl ::= x {} xl ::= xl COMMA x {}
        x ::= NIL|TRUE|NUM {} x ::= STR {} x ::= p {} x ::= FN LP nl? RP b END {} x ::= x OR x {} x ::= x AND x {} x ::= x LT|GT x [LT] {}
        x ::= x CONCAT x {} x ::= x ADD|SUB x [ADD] {} x ::= x MUL x {} x ::= NOT|SUB x [UN] {} x ::= x POW x {}'''),
    # statements with recovery
    ('error prec', '''%left PLUS; %left TIMES; %nonassoc NEG;
        s ::= p {} p ::= {} p ::= p st {} st ::= x SEMI {} st ::= ID EQ x SEMI {} st ::= LB p RB {} st ::= error SEMI {} st ::= LB p error RB {}
        st ::= IF c st {} c ::= LP x RP {} c ::= LP error RP {} x ::= x PLUS x {} x ::= x TIMES x {} x ::= MINUS x [NEG] {} x ::= LP x RP {} x ::= ID {} x ::= ID LP al? RP {}
        al ::= x {} al ::= al COMMA x {} al ::= error COMMA x {}'''),
    # C: declarations and declarators, dangling else
    ('plain prec class', '''%class TYQ CONST VOLATILE; %nonassoc THEN; %nonassoc ELSE;
        s ::= tu {} tu ::= ed {} tu ::= tu ed {} ed ::= ds dr cs {} ed ::= ds dr SEMI {} ed ::= ds SEMI {}
        ds ::= sp {} ds ::= ds sp {} sp ::= INT {} sp ::= TYQ {} sp ::= STRUCT ID LB fl RB {} fl ::= ds dr SEMI {} fl ::= fl ds dr SEMI {}
        dr ::= dd {} dr ::= ptr dd {} ptr ::= STAR {} ptr ::= STAR TYQ {} ptr ::= STAR ptr {} dd ::= ID {} dd ::= LP dr RP {} dd ::= dd LK RK {} dd ::= dd LP pl RP {} dd ::= dd LP RP {}
        pl ::= pd {} pl ::= pl COMMA pd {} pd ::= ds dr {} pd ::= ds {}
        cs ::= LB sl RB {} sl ::= {} sl ::= sl st {} st ::= SEMI {} st ::= cs {} st ::= IF LP ID RP st [THEN] {} st ::= IF LP ID RP st ELSE st {} st ::= ID EQ ID SEMI {}'''),
    # marks: elements with attributes and text of anything
    ('wildcard fallback error', '''%wildcard ANY; %fallback NAME DOCTYPE; s ::= prolog el {} prolog ::= {} prolog ::= BANG DOCTYPE GT {}
        el ::= LT NAME al GT cl LT SLASH NAME GT {} el ::= LT NAME al SLASH GT {} al ::= {} al ::= al NAME EQ STR {} al ::= al error GT {} cl ::= {} cl ::= cl el {} cl ::= cl LK tx RK {} tx ::= {} tx ::= tx ANY {}'''),
]
