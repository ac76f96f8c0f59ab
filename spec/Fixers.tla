------------------------------- MODULE Fixers -------------------------------
(* The updater of user code (1to2).                                          *)
(*                                                                           *)
(* Expressions are terms. Text() gives their text, with chosen spaces;       *)
(* Update() replaces the obsolete forms by the current ones and does nothing *)
(* else. A program is built line by line (blocks are opened and closed). The *)
(* character "~" stands for free spacing (inside updated calls).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sim, MaxLines, MaxDepth, MaxIndent

VARIABLES lines, indent, open, done
vs == <<lines, indent, open, done>>

Rnd(S, dummy) == RandomElement(S)
The(S) == CHOOSE x \in S : TRUE
Soft0 == <<"", "", "", "", "">>

\* A term: kind, text, children, spaces (around dots, in front of "(", after "("
\* or ",", in front of ",", in front of ")")
T(k, a, c, sp) == [k |-> k, a |-> a, c |-> c, d |-> sp[1], g |-> sp[2], s |-> sp[3],
                   s2 |-> sp[4], s3 |-> sp[5]]
Soft == <<"", "~", "~", "~", "~">>

Bins == {"+", "-", "*", "/", "**", "%", "==", "<", "and", "or", "//", "|"}
Quals == {"", "", "unc.", "uncertainties.", "un . ", "uncertainties.unumpy.", "a.b .c."}

\* Kinds, with the number of children
Leaves == {"name", "num", "str"}
Unary == {"call", "kwcall", "attr", "neg", "not", "paren", "list", "lambda", "gen",
          "ufloat1", "ufloatstar", "fromstr", "stdfunc", "stdarg", "uarraystar", "other",
          "setexpr", "otherattr", "setkw"}
Binary == {"call2", "index", "bin", "tuple2", "list2", "dict", "comp", "slice", "ufloat2",
           "ufloatkw", "uarray2", "uarraykw", "otherpair", "setexpr2", "uarraygen"}
Ternary == {"cond", "ufloat3", "tuple3"}
OldUnary == {"o_std", "o_stds", "o_uone", "o_strtag", "o_strtagkw"}
OldBinary == {"o_pair", "o_uarray"}
OldTernary == {"o_pairtag", "o_pairtagkw"}
Old == {"o_str", "o_set"} \cup OldUnary \cup OldBinary \cup OldTernary

Primary == {"name", "str", "call", "kwcall", "attr", "paren", "list", "gen", "ufloat1",
            "ufloatstar", "fromstr", "stdfunc", "stdarg", "uarraystar", "other", "setexpr",
            "otherattr", "setkw", "call2", "index", "tuple2", "list2", "dict", "comp", "ufloat2",
            "ufloatkw", "uarray2", "uarraykw", "otherpair", "setexpr2", "uarraygen", "ufloat3",
            "tuple3", "slice", "fromstrtag", "fromstrtagkw", "ufloat3kw"} \cup (Old \ {"o_set"})

\* (what is between parentheses without being an argument has no comma)
NoComma(s) == IF s \in {",", " ,\n ", ", "} THEN " " ELSE s

\* Call of function f with the given texts
Args(f, ts, t) ==
    f \o t.g \o "(" \o FoldLeftDomain(LAMBDA acc, i : acc \o t.s \o ts[i]
                       \o (IF i < Len(ts) THEN t.s2 \o "," ELSE ""), "", ts) \o t.s3 \o ")"
Pair(a, b, t) == "(" \o t.s \o a \o t.s2 \o "," \o t.s \o b \o t.s3 \o ")"

RECURSIVE Text(_), Prim(_)
Prim(t) == IF t.k \in Primary THEN Text(t) ELSE "(" \o Text(t) \o ")"
Text(t) ==
    LET X(i) == Text(t.c[i])
        P(i) == Prim(t.c[i])
        dot == t.d \o "." \o t.d
    IN CASE t.k \in Leaves -> t.a
         [] t.k \in {"call", "call2"} -> Args(t.a, [i \in 1..Len(t.c) |-> X(i)], t)
         [] t.k = "kwcall" -> Args(t.a, <<"key=" \o X(1)>>, t)
         [] t.k \in {"attr", "otherattr"} -> P(1) \o dot \o t.a
         [] t.k = "neg" -> "-" \o P(1)
         [] t.k = "not" -> "not " \o P(1)
         [] t.k = "paren" -> "(" \o t.s \o X(1) \o NoComma(t.s3) \o ")"
         [] t.k = "list" -> "[" \o t.s \o X(1) \o t.s3 \o "]"
         [] t.k = "list2" -> "[" \o X(1) \o t.s2 \o "," \o t.s \o X(2) \o "]"
         [] t.k = "tuple2" -> Pair(X(1), X(2), t)
         [] t.k = "tuple3" -> "(" \o X(1) \o ", " \o X(2) \o ", " \o X(3) \o ")"
         [] t.k = "dict" -> "{" \o X(1) \o ":" \o t.s \o X(2) \o "}"
         [] t.k = "lambda" -> "lambda v: " \o P(1)
         [] t.k = "gen" -> "(v for v in " \o P(1) \o ")"
         [] t.k = "comp" -> "[" \o P(1) \o " for v in " \o P(2) \o " if v]"
         [] t.k = "index" -> P(1) \o "[" \o X(2) \o "]"
         [] t.k = "slice" -> P(1) \o "[" \o P(2) \o ":]"
         [] t.k = "bin" -> P(1) \o " " \o t.a \o " " \o P(2)
         [] t.k = "cond" -> P(1) \o " if " \o P(2) \o " else " \o P(3)
         [] t.k = "ufloat1" -> Args(t.a \o "ufloat", <<X(1)>>, t)
         [] t.k = "ufloatstar" -> Args(t.a \o "ufloat", <<"*" \o P(1)>>, t)
         [] t.k = "fromstr" -> Args(t.a \o "ufloat_fromstr", <<X(1)>>, t)
         [] t.k = "fromstrtag" -> Args(t.a \o "ufloat_fromstr", <<X(1), X(2)>>, t)
         [] t.k = "fromstrtagkw" -> Args(t.a \o "ufloat_fromstr", <<X(1), "tag=" \o X(2)>>, t)
         [] t.k = "stdfunc" -> Args(t.a, <<X(1)>>, t)
         [] t.k = "stdarg" -> Args(P(1) \o dot \o "std_dev", <<"3">>, t)
         [] t.k = "setexpr" -> Args(P(1) \o dot \o "set_std_dev", <<"3">>, t)
         [] t.k = "setexpr2" -> Args(P(1) \o dot \o "set_std_dev", <<X(2)>>, t)
         [] t.k = "setkw" -> Args(P(1) \o dot \o "set_std_dev", <<"value=4">>, t)
         [] t.k = "uarraystar" -> Args(t.a, <<"*~" \o X(1)>>, t)
         [] t.k = "uarray2" -> Args(t.a, <<X(1), X(2)>>, t)
         [] t.k = "uarraykw" -> Args(t.a, <<"nominal_values=" \o X(1), "std_devs=" \o X(2)>>, t)
         [] t.k = "uarraygen" -> Args(t.a, <<P(1) \o " for v in " \o P(2)>>,
                                      [t EXCEPT !.s3 = NoComma(@)])
         [] t.k = "other" -> Args(t.a, <<X(1)>>, t)
         [] t.k = "otherpair" -> Args(t.a, <<Pair(X(1), X(2), t)>>, t)
         [] t.k = "ufloat2" -> Args(t.a \o "ufloat", <<X(1), X(2)>>, t)
         [] t.k = "ufloat3" -> Args(t.a \o "ufloat", <<X(1), X(2), X(3)>>, t)
         [] t.k = "ufloatkw" -> Args(t.a \o "ufloat", <<X(1), X(2), "tag='t'">>, t)
         [] t.k = "ufloat3kw" -> Args(t.a \o "ufloat", <<X(1), X(2), "tag=" \o X(3)>>, t)
         \* Obsolete forms
         [] t.k = "o_pair" -> Args(t.a \o "ufloat", <<Pair(X(1), X(2), t)>>, t)
         [] t.k = "o_pairtag" -> Args(t.a \o "ufloat", <<Pair(X(1), X(2), t), X(3)>>, t)
         [] t.k = "o_pairtagkw" -> Args(t.a \o "ufloat", <<Pair(X(1), X(2), t), "tag=" \o X(3)>>, t)
         [] t.k = "o_str" -> Args(t.a \o "ufloat", <<X(1)>>, t)
         [] t.k = "o_strtag" -> Args(t.a \o "ufloat", <<X(1), X(2)>>, t)
         [] t.k = "o_strtagkw" -> Args(t.a \o "ufloat", <<X(1), "tag=" \o X(2)>>, t)
         [] t.k = "o_std" -> P(1) \o dot \o "std_dev" \o t.g \o "(" \o t.s \o ")"
         [] t.k = "o_stds" -> P(1) \o dot \o "std_devs" \o t.g \o "(" \o t.s \o ")"
         [] t.k = "o_uarray" -> Args(t.a, <<Pair(X(1), X(2), t)>>, t)
         [] t.k = "o_uone" -> Args(t.a, <<X(1)>>, t)
         [] t.k = "o_set" -> Args(P(1) \o dot \o "set_std_dev", <<X(2)>>, t)
         [] t.k = "set" -> P(1) \o t.d \o ".~std_dev~=~" \o X(2)

NewKind == [o_pair |-> "ufloat2", o_pairtag |-> "ufloat3", o_pairtagkw |-> "ufloat3kw",
            o_str |-> "fromstr", o_strtag |-> "fromstrtag", o_strtagkw |-> "fromstrtagkw",
            o_std |-> "attr", o_stds |-> "attr", o_uarray |-> "uarray2", o_uone |-> "uarraystar",
            o_set |-> "set"]
RECURSIVE Update(_)
Update(t) ==
    LET c == [i \in 1..Len(t.c) |-> Update(t.c[i])]
    IN IF t.k \notin Old THEN [t EXCEPT !.c = c]
       ELSE T(NewKind[t.k],
              CASE t.k = "o_std" -> "std_dev" [] t.k = "o_stds" -> "std_devs"
                [] t.k = "o_set" -> "" [] OTHER -> t.a,
              c, [Soft EXCEPT ![1] = t.d])
RECURSIVE HasOld(_)
HasOld(t) == t.k \in Old \/ \E i \in 1..Len(t.c) : HasOld(t.c[i])

-----------------------------------------------------------------------------
\* Random terms
Strings == {"\"3.1(2)\"", "'1+/-0.1'", "\"ufloat((1, 2))\"", "r'x.std_dev()'",
            "\"\"\"x.set_std_dev(3)\"\"\"", "'#'", "u'\\u00b1'", "\"\"", "''",
            "' '", "\"it's\""}
Text0(k, d) == CASE k = "name" -> Rnd({"x", "y", "data", "ufloat", "std_dev", "uarray", "t_0",
                               "None", "False", "self"}, d)
                 [] k = "num" -> Rnd({"3", "0.14", "1e-3", "0", "0.0", "0x1f", "2j", ".5"}, d)
                 [] k = "str" -> Rnd(Strings, d)
Words(k, d) ==
    CASE k \in {"call", "kwcall", "call2"} -> Rnd({"sin", "f", "unc.f", "np.array"}, d)
      [] k = "attr" -> Rnd({"nominal_value", "std_dev", "std_devs", "derivatives", "n", "T"}, d)
      [] k = "otherattr" -> Rnd({"set_std_dev", "ufloat", "uarray", "std_dev_"}, d)
      [] k = "stdfunc" -> Rnd({"std_dev", "unc.std_dev", "unumpy.std_devs", "std_devs"}, d)
      [] k = "other" -> Rnd({"my_ufloat", "ufloat_", "ufloats", "uarrays", "set_std_dev",
                             "unc.umatrix_"}, d)
      [] k = "otherpair" -> Rnd({"my_ufloat", "unc.ufloats", "numpy.array", "uarray2", "std_dev"}, d)
      [] k = "bin" -> Rnd(Bins, d)
      [] k \in {"uarraystar", "uarray2", "uarraykw", "uarraygen", "o_uarray", "o_uone"} ->
            Rnd(Quals, d) \o Rnd({"uarray", "umatrix"}, d)
      [] k \in {"ufloat1", "ufloatstar", "fromstr", "ufloat2", "ufloat3", "ufloatkw"} \cup Old ->
            Rnd(Quals, d)
      [] OTHER -> ""
In == {"", " ", "  ", "\n          ", "  # in: x.std_dev()\n  ", "# in:\n"}
\* (in front of a closing parenthesis: possibly a comma after the last argument)
Spaces(d) == IF Rnd(1..3, d) > 1 THEN <<"", "", "", "", "">>
             ELSE <<Rnd({"", " "}, d), Rnd({"", " "}, d),
                    IF Rnd(1..2, d) = 1 THEN "" ELSE Rnd(In, d),
                    IF Rnd(1..2, d) = 1 THEN "" ELSE Rnd(In, d),
                    IF Rnd(1..2, d) = 1 THEN "" ELSE Rnd(In \cup {",", " ,\n ", ", "}, d)>>
\* The obsolete forms of one argument do not include pairs and strings (a pair in more
\* parentheses is left out)
NotPair(t) == IF t.k \in {"tuple2", "str", "paren"} THEN T("list", "", <<t>>, Soft0) ELSE t
\* (a nominal value is neither a pair nor a string)
FirstNotPair == {"ufloat2", "ufloat3", "ufloatkw", "o_pair", "o_pairtag", "o_pairtagkw"}
RECURSIVE Gen(_, _), GenKind(_, _, _)
Gen(depth, d) ==
    LET k == TLCEval(IF depth = 0 THEN Rnd({"name", "name", "num", "str"}, d)
                     ELSE LET w == Rnd(1..10, d)
                          IN CASE w = 1 -> Rnd(Leaves, d)
                               [] w \in 2..6 -> Rnd(Old \ {"o_set"}, d)
                               [] OTHER -> Rnd(Unary \cup Binary \cup Ternary, d))
    IN The({GenKind(k0, depth, d) : k0 \in {k}})
GenKind(k, depth, d) ==
    LET Sub(i) == Gen(IF Rnd(1..3, <<d, i>>) = 1 THEN 0 ELSE depth - 1, <<d, i>>)
        Str(i) == T("str", Text0("str", <<d, i>>), << >>, Soft0)
        One(i) == NotPair(TLCEval(Sub(i)))
        c == CASE k \in Leaves -> << >>
               [] k = "o_str" -> <<Str(1)>>
               [] k \in {"o_strtag", "o_strtagkw"} -> <<Str(1), Sub(2)>>
               [] k \in {"o_uone", "ufloat1"} -> <<One(1)>>
               [] k \in Unary \cup OldUnary -> <<Sub(1)>>
               [] k \in {"uarray2", "ufloat2"} -> <<Sub(1), Sub(2)>>
               \* (a string followed by something is an obsolete call)
               [] k \in Binary \cup OldBinary -> <<Sub(1), Sub(2)>>
               [] OTHER -> <<Sub(1), Sub(2), Sub(3)>>
        fixed(x) == IF k \in FirstNotPair /\ x[1].k \in {"str", "tuple2"}
                    THEN [x EXCEPT ![1] = T("list", "", <<x[1]>>, Soft0)] ELSE x
    IN TLCEval(T(k, IF k \in Leaves THEN Text0(k, d) ELSE Words(k, d), TLCEval(fixed(TLCEval(c))),
                 TLCEval(Spaces(d))))

-----------------------------------------------------------------------------
\* Programs. A line: [i: indentation, old, new: texts, exact: whether
\* the text is known even when the statement spans several lines]
Line(i, old, new, e) == [i |-> i, old |-> old, new |-> new, exact |-> e]
Comments == {"", "", "", "  # x.std_dev()", " # ufloat((1, 2))", "  #"}
Running == ~done /\ Len(lines) < MaxLines
E(depth) == TLCEval(Gen(depth, <<lines, depth>>))
Name(k) == TLCEval(Gen(k, <<lines, k, "target">>))

SimpleForms == {"expr", "expr", "assign", "assign", "aug", "assert", "return", "print", "set",
                "set", "set", "two", "import", "comment", "blank", "doc", "pass", "tuple",
                "annot", "decor"}
\* Setting the standard deviation of x.std_dev()... has no meaning
RECURSIVE Chain(_)
Chain(t) == t.k = "o_std" \/ (t.k \in {"attr", "otherattr", "o_stds", "index", "slice", "stdarg",
                                       "setexpr", "setexpr2", "setkw"} /\ Chain(t.c[1]))
Target(t) == IF Chain(t) THEN T("paren", "", <<t>>, Soft0) ELSE t
\* An expression that is a whole statement
Statement(t) == CASE t.k = "setexpr" -> T("o_set", "", <<Target(t.c[1]), T("num", "3", << >>, Soft0)>>,
                                          <<t.d, t.g, t.s, t.s2, t.s3>>)
                  [] t.k = "setexpr2" -> [t EXCEPT !.k = "o_set", !.c[1] = Target(t.c[1])]
                  [] OTHER -> t
\* A text around expressions
Around(f, X(_)) ==
    CASE f = "expr" -> X(1)
      [] f = "assign" -> "y = " \o X(1)
      [] f = "aug" -> "y  +=  " \o X(1)
      [] f = "assert" -> "assert " \o X(1) \o ", " \o X(2)
      [] f = "return" -> "raise " \o X(1)
      [] f = "print" -> "print(" \o X(1) \o ")"
      [] f = "tuple" -> "y, z = " \o X(1) \o ", " \o X(2)
      [] f = "annot" -> "y: " \o X(1) \o " = " \o X(2)
      [] f = "two" -> X(1) \o ";  z = " \o X(2)
      [] f = "if" -> "if " \o X(1) \o " :"
      [] f = "for" -> "for v in " \o X(1) \o ":"
      [] f = "while" -> "while " \o X(1) \o ":"
      [] f = "def" -> "def f(a, b=" \o X(1) \o "):"
      [] f = "class" -> "class ufloat(" \o X(1) \o "):"
      [] f = "with" -> "with " \o X(1) \o " as v:"
Fixed == [import |-> {"from uncertainties import ufloat, std_dev", "import uncertainties as unc"},
          comment |-> {"# x.std_dev()", "#ufloat((1, 2))"}, blank |-> {"", ""},
          doc |-> {"\"\"\"Example: ufloat((1, 2)).std_dev()\"\"\"", "'x.set_std_dev(3)'"},
          pass |-> {"pass", "del x.std_dev", "global x, std_dev"},
          decor |-> {"std_dev = ufloat", "ufloat = uarray"}]

Simple ==
    /\ Running
    /\ \E f \in {Rnd(SimpleForms, lines)}, com \in {Rnd(Comments, lines)} :
       \E e1 \in {E(MaxDepth)}, e2 \in {E(MaxDepth-1)}, p \in {TLCEval(Target(E(1)))}, sp \in {TLCEval(Spaces(lines))},
          inline \in {Rnd({"", "", "", "if x: ", "y = 2; "}, lines)} :
         /\ IF f \in DOMAIN Fixed
            THEN \E t \in {Rnd(Fixed[f], lines)} : lines' = Append(lines, Line(indent, t, t, TRUE))
            ELSE IF f = "set"
            THEN LET t == TLCEval(T("o_set", "", <<p, e1>>, sp))
                 IN lines' = Append(lines, Line(indent, inline \o Text(t) \o com,
                        inline \o Text(Update(t)) \o com, FALSE))
            ELSE LET e3 == IF f \in {"expr", "two"} THEN Statement(e1) ELSE e1
                 IN lines' = Append(lines, Line(indent,
                    Around(f, LAMBDA i : Text(IF i = 1 THEN e3 ELSE e2)) \o com,
                    Around(f, LAMBDA i : Text(Update(IF i = 1 THEN e3 ELSE e2))) \o com, e3 = e1))
         /\ open' = (open /\ f \in {"comment", "blank"})
         /\ UNCHANGED <<indent, done>>
Open ==
    /\ Running /\ indent < MaxIndent
    /\ \E f \in {Rnd({"if", "for", "while", "def", "class", "with", "if"}, lines)},
          com \in {Rnd(Comments, lines)} :
       \E e1 \in {E(MaxDepth-1)} :
         /\ lines' = Append(lines, Line(indent, Around(f, LAMBDA i : Text(e1)) \o com,
                                        Around(f, LAMBDA i : Text(Update(e1))) \o com, TRUE))
         /\ open' = TRUE /\ indent' = indent + 1 /\ UNCHANGED done
Close == /\ ~done /\ indent > 0 /\ ~open
         /\ indent' = indent - 1 /\ UNCHANGED <<lines, open, done>>
Emit == PrintT("@@" \o ToJson(lines))
Finish == /\ ~done /\ lines # << >> /\ ~open /\ Len(lines) >= MaxLines
          /\ done' = TRUE /\ Emit /\ UNCHANGED <<lines, indent, open>>
\* A last statement for a block that is not complete
Fill == /\ ~done /\ open /\ Len(lines) >= MaxLines
        /\ lines' = Append(lines, Line(indent, "pass", "pass", TRUE)) /\ open' = FALSE
        /\ UNCHANGED <<indent, done>>

\* All the small terms (one statement per behaviour)
A0 == {T("name", "x", << >>, Soft0), T("str", "'s'", << >>, Soft0)}
Word1(k) == CASE k \in {"call", "kwcall", "call2"} -> "f" [] k = "attr" -> "std_dev"
              [] k = "otherattr" -> "set_std_dev" [] k = "stdfunc" -> "std_dev"
              [] k = "other" -> "ufloats" [] k = "otherpair" -> "my_uarray" [] k = "bin" -> "**"
              [] k \in {"uarraystar", "uarray2", "uarraykw", "uarraygen", "o_uarray", "o_uone"} -> "un.uarray"
              [] OTHER -> ""
Kids(k, S, S2) ==
    CASE k = "o_str" -> {<<T("str", "'s'", << >>, Soft0)>>}
      [] k \in {"o_strtag", "o_strtagkw"} -> {<<T("str", "'s'", << >>, Soft0), x>> : x \in S}
      [] k \in {"o_uone", "ufloat1"} -> {<<x>> : x \in {y \in S : y.k \notin {"str", "tuple2"}}}
      [] k \in Unary \cup OldUnary -> {<<x>> : x \in S}
      [] k \in Binary \cup OldBinary -> {<<x, y>> : x \in S, y \in S2} \cup {<<y, x>> : x \in S, y \in S2}
      [] OTHER -> {<<x, y, y>> : x \in S, y \in S2} \cup {<<y, y, x>> : x \in S, y \in S2}
AllKinds == (Unary \cup Binary \cup Ternary \cup Old) \ {"o_set"}
Terms(S, S2) == UNION {{T(k, Word1(k), c, Soft0) : c \in {c \in Kids(k, S, S2) :
                    k \in FirstNotPair => c[1].k \notin {"str", "tuple2"}}} : k \in AllKinds}
All == /\ ~Sim /\ ~done
       /\ \E t \in (IF MaxDepth = 1 THEN Terms(A0, A0)
                    ELSE Terms(Terms({T("name", "x", << >>, Soft0)}, {T("name", "x", << >>, Soft0)}),
                               {T("name", "x", << >>, Soft0)})) :
          \E stmt \in {TRUE, FALSE} :
            /\ done' = TRUE /\ UNCHANGED <<indent, open>>
            /\ LET u == IF stmt THEN T("o_set", "", <<Target(t), t>>, Soft0) ELSE Statement(t)
               IN /\ lines' = <<Line(0, Text(u), Text(Update(u)), TRUE)>>
                  /\ Assert(Update(Update(u)) = Update(u), u)
                  /\ Assert(~HasOld(Update(u)), u)
                  /\ Assert(HasOld(u) \/ Update(u) = u, u)
                  /\ PrintT("@@" \o ToJson(lines'))

Init == lines = << >> /\ indent = 0 /\ open = FALSE /\ done = FALSE
Next == IF Sim THEN Simple \/ Open \/ Close \/ Finish \/ Fill ELSE All
Spec == Init /\ [][Next]_vs
=============================================================================
