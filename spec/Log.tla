-------------------------------- MODULE Log --------------------------------
(* Log entries: an event name and keys with values, printed as one line of  *)
(* logfmt, "name key=value key=value".  And checked functions: steps that   *)
(* test a condition, call another function, or act; the first condition     *)
(* that does not hold decides what is returned, all the way up.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE JoinTo(_, _, _)
JoinTo(f(_), n, sep) == IF n = 0 THEN "" ELSE IF n = 1 THEN f(1) ELSE JoinTo(f, n - 1, sep) \o sep \o f(n)
\* numbers in sixteenths have exactly four decimals
Frac(p) == LET d == (p % 16) * 625 t == ToString(d)
           IN IF d < 10 THEN "000" \o t ELSE IF d < 100 THEN "00" \o t ELSE IF d < 1000 THEN "0" \o t ELSE t
Sixteenths(p) == IF p < 0 THEN "-" \o ToString((-p) \div 16) \o "." \o Frac(-p) ELSE ToString(p \div 16) \o "." \o Frac(p)
Value(x) == CASE x.t = "string" -> x.s
              [] x.t = "int" -> ToString(x.i)
              [] x.t = "bool" -> IF x.b THEN "true" ELSE "false"
              [] x.t = "float" -> Sixteenths(x.p)
              [] x.t = "ints" -> "[" \o JoinTo(LAMBDA k : ToString(x.a[k]), Len(x.a), ",") \o "]"
              [] x.t = "floats" -> "[" \o JoinTo(LAMBDA k : Sixteenths(x.a[k]), Len(x.a), ",") \o "]"
Line(entry) == entry.name \o (IF entry.items = <<>> THEN "" ELSE " " \o JoinTo(LAMBDA k : entry.items[k].key \o "=" \o Value(entry.items[k]), Len(entry.items), " ")) \o "\n"
\* a function: a sequence of steps [k: "pre"|"post"|"act"|"call", ok, code, f]
\* r: ret 0 = success, hooks: codes handed to the debug hook, acts: effects so far
RECURSIVE Exec(_, _, _)
Exec(f, i, r) ==
    IF i > Len(f) \/ r.ret # 0 THEN r
    ELSE LET s == f[i]
         IN Exec(f, i + 1,
              CASE s.k = "act" -> [r EXCEPT !.acts = @ + 1]
                [] s.k = "call" -> Exec(s.f, 1, r)
                [] OTHER -> IF s.ok THEN r ELSE [r EXCEPT !.ret = s.code, !.hooks = Append(@, s.code)])
Run(f) == Exec(f, 1, [ret |-> 0, hooks |-> <<>>, acts |-> 0])
=============================================================================
