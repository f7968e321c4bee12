-------------------------------- MODULE Expr ---------------------------------
(***************************************************************************)
(* Arithmetic expressions of the templates as an operator-precedence        *)
(* machine.  It reads tokens one at a time (all possible tokens are tried,  *)
(* so the reachable states are all token strings up to MaxLen that are      *)
(* prefixes of expressions, and those that fail at their last token), keeps *)
(* a stack of pending operators and brackets and writes the expression in   *)
(* postfix order.  Operands: "n" (a number), "x" (a variable), "c" (a chain *)
(* coefficient); "f" is the name of a function.                             *)
(* up: a unary plus was used (one of the two evaluators does not have it).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS MaxLen, Tokens, MaxDepth
VARIABLES toks, mode, stack, post, up
vars == <<toks, mode, stack, post, up>>

Prec(o) == IF o \in {"+", "-"} THEN 1 ELSE IF o \in {"*", "/"} THEN 2 ELSE IF o = "neg" THEN 3 ELSE 0

\* pop operators of at least the given precedence to the output
RECURSIVE Reduce(_, _, _)
Reduce(st, out, p) ==
  IF st = <<>> \/ Prec(st[Len(st)]) < p \/ Prec(st[Len(st)]) = 0 THEN <<st, out>>
  ELSE Reduce(SubSeq(st, 1, Len(st) - 1), Append(out, st[Len(st)]), p)

Init == toks = <<>> /\ mode = "operand" /\ stack = <<>> /\ post = <<>> /\ up = FALSE
Fail == mode' = "reject" /\ UNCHANGED <<stack, post, up>>
Operand(t) ==
  CASE t \in {"n", "x", "c"} -> mode' = "operator" /\ post' = Append(post, t) /\ UNCHANGED <<stack, up>>
    [] t = "-" -> mode' = "operand" /\ stack' = Append(stack, "neg") /\ UNCHANGED <<post, up>>
    [] t = "+" -> mode' = "operand" /\ up' = TRUE /\ UNCHANGED <<stack, post>>
    [] t = "(" -> mode' = "operand" /\ stack' = Append(stack, "(") /\ UNCHANGED <<post, up>>
    [] t = "f" -> mode' = "function" /\ UNCHANGED <<stack, post, up>>
    [] OTHER -> Fail
Function(t) ==
  IF t \in {"(", "["} THEN mode' = "operand" /\ stack' = Append(stack, "f" \o t) /\ UNCHANGED <<post, up>> ELSE Fail
Close(t, br) ==
  LET r == Reduce(stack, post, 1)
      top == r[1][Len(r[1])]
  IN IF r[1] # <<>> /\ top \in br
     THEN /\ mode' = "operator" /\ stack' = SubSeq(r[1], 1, Len(r[1]) - 1)
          /\ post' = (IF top = "(" THEN r[2] ELSE Append(r[2], "f")) /\ UNCHANGED up
     ELSE Fail
Operator(t) ==
  CASE t \in {"+", "-", "*", "/"} ->
         LET r == Reduce(stack, post, Prec(t))
         IN mode' = "operand" /\ stack' = Append(r[1], t) /\ post' = r[2] /\ UNCHANGED up
    [] t = ")" -> Close(t, {"(", "f("})
    [] t = "]" -> Close(t, {"f["})
    [] OTHER -> Fail
Read(t) == /\ mode # "reject" /\ Len(toks) < MaxLen /\ Len(stack) < MaxDepth
           /\ toks' = Append(toks, t)
           /\ CASE mode = "operand" -> Operand(t)
                [] mode = "function" -> Function(t)
                [] mode = "operator" -> Operator(t)
Next == \E t \in Tokens : Read(t)
Spec == Init /\ [][Next]_vars

\* the string read so far is an expression; Postfix is its value in postfix order
Complete == mode = "operator" /\ \A i \in 1..Len(stack) : Prec(stack[i]) > 0
Postfix == Reduce(stack, post, 1)[2]

Arity(o) == IF o \in {"n", "x", "c"} THEN 1 ELSE IF o \in {"neg", "f"} THEN 0 ELSE -1
RECURSIVE Height(_, _)
Height(p, i) == IF i = 0 THEN 0 ELSE Height(p, i - 1) + Arity(p[i])
\* postfix output of a complete expression leaves one value and never lacks operands
WellFormed == Complete => /\ Height(Postfix, Len(Postfix)) = 1
                          /\ \A i \in 1..Len(Postfix) : Height(Postfix, i) >= 1
\* operands come out in the order in which they were read
OrderKept == Complete => SelectSeq(Postfix, LAMBDA t : Arity(t) = 1) = SelectSeq(toks, LAMBDA t : t \in {"n", "x", "c"})
Inv == WellFormed /\ OrderKept
Result == [toks |-> toks, ok |-> Complete, up |-> up, post |-> IF Complete THEN Postfix ELSE <<>>]
Emit == toks = <<>> \/ PrintT(<<"EXPR", Result>>)
=============================================================================
