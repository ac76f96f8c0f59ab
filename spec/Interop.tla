------------------------------- MODULE Interop -------------------------------
(* Operations between a quantity and any other object.                       *)
(*                                                                           *)
(* Each operation follows Python's protocol, step by step: the left operand  *)
(* is asked first, then (if it gives up) the right one, then the operation   *)
(* is refused (or is a default answer for == and !=). What a quantity        *)
(* answers depends on the other operand: an operand that is a number without *)
(* uncertainty is accepted, other objects are not (and are thus asked).      *)
(* Conversions to a number are always refused.                               *)
(*                                                                           *)
(* A history is a sequence of operations on an accumulated quantity. The     *)
(* calls of methods of foreign objects are recorded.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, MaxSteps

VARIABLES acc, hist, cur
vs == <<acc, hist, cur>>

Arith == {"add", "sub", "mul", "truediv", "floordiv", "mod", "pow"}
Bits == {"matmul", "and_", "or_", "xor", "lshift", "rshift", "divmod"}
Comp == {"lt", "le", "gt", "ge", "eq", "ne"}
InPlace == {"iadd", "isub", "imul", "itruediv", "ifloordiv", "imod", "ipow", "iand"}
Base(op) == CASE op = "iadd" -> "add" [] op = "isub" -> "sub" [] op = "imul" -> "mul"
              [] op = "itruediv" -> "truediv" [] op = "ifloordiv" -> "floordiv"
              [] op = "imod" -> "mod" [] op = "ipow" -> "pow" [] op = "iand" -> "and_"
              [] OTHER -> op
Ops == Arith \cup Bits \cup Comp \cup InPlace
Mirror(op) == CASE op = "lt" -> "gt" [] op = "gt" -> "lt" [] op = "le" -> "ge" [] op = "ge" -> "le"
                [] op \in {"eq", "ne"} -> op [] OTHER -> "r" \o op

\* Numbers without uncertainty
Numbers == {"int", "bigint", "bool", "float", "negzero", "inf", "nan", "floatsub", "intsub",
            "np.float64", "np.float32", "np.float16", "np.int64", "np.uint8", "np.bool"}
\* (numbers that only compare: their operations with floats are refused)
Comparable == {"fraction", "decimal", "np.longdouble"}
Complex == {"complex", "np.complex128", "np.complex64"}
\* NumPy objects that are no real numbers, even if they can be converted to a float
NumPyOthers == {"np.str", "np.bytes", "np.void", "np.datetime64", "np.timedelta64"}
Others == {"str", "bytes", "list", "tuple", "none", "set", "dict", "object", "class", "function",
           "ellipsis", "notimplemented", "module"}
\* Foreign objects: what their methods do: "-" (no method), "T" (gives a result), "N" (give up),
\* "R" (raises an exception)
Behaviours == {"-", "T", "N", "R"}
Foreign == {[f |-> f, r |-> r] : f \in Behaviours, r \in Behaviours}
FName(x) == "foreign" \o x.f \o x.r
ForeignNames == {FName(x) : x \in Foreign}
OfName(n) == CHOOSE x \in Foreign : FName(x) = n
Quantities == {"variable", "derived", "exact", "constant", "novars", "itself"}
\* ("constant": zero covariance matrix; "novars": depends on no variable at all)
Operands == Numbers \cup Comparable \cup Complex \cup Others \cup NumPyOthers \cup ForeignNames \cup Quantities

\* What a quantity answers to operation op (already reflected if needed)
QAnswer(op, o) ==
    LET b == Base(op) IN
    CASE b \in Arith /\ o \in Numbers \cup Quantities -> "quantity"
      [] b \in Comp /\ o \in Numbers \cup Comparable \cup Quantities -> "truth"
      [] OTHER -> "N"
\* What the other operand answers (asked with its own method for the operation)
OAnswer(op, o, reflected) ==
    IF o \in Quantities THEN QAnswer(op, "variable")
    ELSE IF o \in ForeignNames
    THEN LET a == IF reflected THEN OfName(o).r ELSE OfName(o).f IN IF a = "-" THEN "N" ELSE a
    \* Objects of Python do not know quantities (the NumPy numbers do what a float would do)
    ELSE "N"
HasMethod(o, reflected) == o \in ForeignNames /\ (IF reflected THEN OfName(o).r ELSE OfName(o).f) # "-"

\* One operation: cur = [op, o, side, ph, log, out]
Idle == [op |-> "", o |-> "", side |-> "", ph |-> "idle", log |-> << >>, out |-> ""]
\* Foreign methods are those of the operation, also for the operations in place
Known(op, o) == /\ o \in Comparable => op \in Comp
                /\ o = "notimplemented" => op \notin Comp     \* (its own comparisons are obsolete)
                /\ o = "np.void" => op \notin Comp            \* (refused by NumPy)
                \* divmod of numbers is not supported by quantities
                /\ TRUE
Start(op, o, side) ==
    /\ cur.ph = "idle" /\ Known(op, o) /\ Len(hist) < MaxSteps
    /\ cur' = [op |-> op, o |-> o, side |-> side, ph |-> "first", log |-> << >>, out |-> ""]
    /\ UNCHANGED <<acc, hist>>
\* side = "left": the quantity is on the left
Ask(quantity, reflected) ==
    LET op == Base(cur.op)
        a == IF quantity THEN QAnswer(op, cur.o) ELSE OAnswer(op, cur.o, reflected)
        log == IF ~quantity /\ HasMethod(cur.o, reflected)
               THEN Append(cur.log, IF reflected THEN Mirror(op) ELSE op) ELSE cur.log
    IN cur' = [cur EXCEPT !.log = log, !.out = IF a = "N" THEN "" ELSE a,
                          !.ph = IF a = "N" THEN IF cur.ph = "first" THEN "second" ELSE "none"
                                 ELSE "end"]
First == cur.ph = "first" /\ Ask(cur.side = "left", FALSE) /\ UNCHANGED <<acc, hist>>
Second == cur.ph = "second" /\ Ask(cur.side = "right", TRUE) /\ UNCHANGED <<acc, hist>>
Refuse == /\ cur.ph = "none"
          /\ cur' = [cur EXCEPT !.ph = "end", !.out = CASE cur.op = "eq" -> "false"
                                                        [] cur.op = "ne" -> "true"
                                                        [] OTHER -> "TypeError"]
          /\ UNCHANGED <<acc, hist>>
End == /\ cur.ph = "end"
       /\ hist' = Append(hist, [k |-> "op", op |-> cur.op, o |-> cur.o, side |-> cur.side,
                                log |-> cur.log, out |-> cur.out])
       /\ acc' = IF cur.out = "quantity" THEN "derived" ELSE acc
       /\ cur' = Idle
\* Conversions and other things that quantities cannot do
Conversions == {"float", "int", "complex", "index", "hex", "round", "floor", "ceil", "range",
                "item", "np.float64", "nparray", "npint", "percent_f", "percent_d",
                "timedelta", "__float__", "__int__", "__complex__", "array.array", "fsum",
                "np.sin", "np.isnan", "statistics", "decimal", "fraction", "chr", "sleep"}
MathFunctions == {"acos", "acosh", "asin", "asinh", "atan", "atanh", "ceil", "cos", "cosh", "degrees",
                  "erf", "erfc", "exp", "expm1", "fabs", "factorial", "floor", "frexp", "gamma",
                  "isfinite", "isinf", "isnan", "lgamma", "log", "log10", "log1p", "log2", "modf",
                  "radians", "sin", "sinh", "sqrt", "tan", "tanh", "isqrt", "ulp", "cbrt", "exp2"}
MathFunctions2 == {"atan2", "copysign", "fmod", "hypot", "ldexp", "pow", "remainder", "nextafter",
                   "isclose", "log"}
CmathFunctions == {"sin", "exp", "sqrt", "phase", "polar", "log", "isnan", "tanh"}
NotSupported == {"len", "iter", "getitem", "setitem", "contains", "call", "invert", "with",
                 "divmod", "rdivmod", "pow3", "rpow3", "unpack", "next"}
Refused(k, f) ==
    /\ cur.ph = "idle" /\ Len(hist) < MaxSteps
    /\ hist' = Append(hist, [k |-> k, op |-> f, o |-> "", side |-> "", log |-> << >>,
                             out |-> "TypeError"])
    /\ UNCHANGED <<acc, cur>>
\* Functions of several arguments, with a constant in each place
Functions2 == {"atan2", "copysign", "fmod", "hypot", "log", "pow"}
Function(f, o, side) ==
    /\ cur.ph = "idle" /\ Len(hist) < MaxSteps
    /\ hist' = Append(hist, [k |-> "function", op |-> f, o |-> o, side |-> side, log |-> << >>,
                             out |-> IF o \in Numbers THEN "quantity" ELSE "TypeError"])
    /\ UNCHANGED <<acc, cur>>
\* (what functions do with numbers that only compare and with foreign objects is theirs)
FunctionOperands == Numbers \cup (Complex \ {"np.complex128", "np.complex64"}) \cup (Others \ {"function"})

Rnd(S, d) == RandomElement(IF Len(d) >= 0 THEN S ELSE {})
RandomStep ==
    \E w \in {Rnd(1..10, hist)} :
      IF w = 1 THEN \E f \in {Rnd(Conversions, hist)} : Refused("convert", f)
      ELSE IF w = 2 THEN \E f \in {Rnd(MathFunctions, hist)} : Refused("math", f)
      ELSE IF w = 3 THEN \E f \in {Rnd(Functions2, hist)}, o \in {Rnd(FunctionOperands, hist)},
                            s \in {Rnd({"left", "right"}, hist)} : Function(f, o, s)
      ELSE \E op \in {Rnd(Ops, hist)}, s \in {Rnd({"left", "right"}, hist)},
              o \in {Rnd(CASE w \in 4..6 -> Numbers [] w = 7 -> ForeignNames [] w = 8 -> Quantities
                           [] OTHER -> Operands, hist)} : Start(op, o, s)
AllSteps == \/ \E op \in Ops, o \in Operands, s \in {"left", "right"} : Start(op, o, s)
            \/ \E f \in Conversions : Refused("convert", f)
            \/ \E f \in MathFunctions : Refused("math", f)
            \/ \E f \in MathFunctions2 : Refused("math2", f) \/ Refused("rmath2", f)
            \/ \E f \in CmathFunctions : Refused("cmath", f)
            \/ \E f \in NotSupported : Refused("unsupported", f)
            \/ \E f \in Functions2, o \in FunctionOperands, s \in {"left", "right"} : Function(f, o, s)
Emit == /\ cur.ph = "idle" /\ Len(hist) = MaxSteps
        /\ PrintT("@@" \o ToJson([acc |-> acc, hist |-> hist]))
        /\ cur' = [cur EXCEPT !.ph = "emitted"] /\ UNCHANGED <<acc, hist>>

Init == acc \in Quantities \ {"itself"} /\ hist = << >> /\ cur = Idle
Next == First \/ Second \/ Refuse \/ End \/ Emit
        \/ (cur.ph = "idle" /\ Len(hist) < MaxSteps /\ IF Sim THEN RandomStep ELSE AllSteps)
Spec == Init /\ [][Next]_vs

\* --- properties
Outcomes == {"quantity", "truth", "false", "true", "TypeError", "T", "R"}
\* Nothing but a number or a quantity is ever accepted by a quantity
NeverAccepted == \A i \in 1..Len(hist) : LET h == hist[i] IN
    /\ h.out \in Outcomes
    /\ h.out = "quantity" => h.o \in Numbers \cup Quantities
    /\ h.out = "truth" => h.o \in Numbers \cup Comparable \cup Quantities
    /\ h.k \in {"convert", "math", "math2", "rmath2", "cmath", "unsupported"} => h.out = "TypeError"
    \* A foreign object that has an answer always gives it
    /\ h.o \in ForeignNames =>
         LET x == OfName(h.o) a == IF h.side = "left" THEN x.r ELSE x.f
         IN /\ (a \in {"T", "R"}) = (h.out \in {"T", "R"})
            /\ a \in {"T", "R"} => h.out = a
            /\ (a = "-") = (h.log = << >>)
=============================================================================
