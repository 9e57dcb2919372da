------------------------------- MODULE Ident -------------------------------
(* Names of saved models, and the files that saving leaves.  A name is a     *)
(* sequence of character codes.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Letter(ch) == ch \in (65..90) \cup (97..122) \cup {95}
Digit(ch) == ch \in 48..57
Identifier(n) == Len(n) > 0 /\ Letter(n[1]) /\ \A i \in 2..Len(n) : Letter(n[i]) \/ Digit(n[i])
C89 == {"auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "extern", "float", "for", "goto", "if", "int", "long", "register", "return",
        "short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while"}
C99 == {"inline", "restrict", "_Bool", "_Complex", "_Imaginary"}
C11 == {"_Alignas", "_Alignof", "_Atomic", "_Generic", "_Noreturn", "_Static_assert", "_Thread_local"}
C23 == {"alignas", "alignof", "bool", "constexpr", "false", "nullptr", "static_assert", "thread_local", "true", "typeof", "typeof_unqual", "_BitInt", "_Decimal128", "_Decimal32", "_Decimal64"}
Reserved == C89 \cup C99 \cup C11 \cup C23
\* the file's base name: after the last slash, without the last extension (leading dots start no extension)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Last(n, ch) == LET at == {i \in 1..Len(n) : n[i] = ch} IN IF at = {} THEN 0 ELSE Max(at)
File(p) == SubSeq(p, Last(p, 47) + 1, Len(p))
Base(p) == LET f == File(p)
               dots == {i \in 1..Len(f) : f[i] = 46 /\ \E j \in 1..(i - 1) : f[j] # 46}
           IN IF dots = {} THEN f ELSE SubSeq(f, 1, Max(dots) - 1)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Apart(a, b) == ~IsPrefix(a, b) /\ ~IsPrefix(b, a)
\* what a call of save() does: "refused", or the file (if any) has the text
Accepted(codes, word) == Identifier(codes) /\ word \notin Reserved
Saved(files, path, text) == (path :> text) @@ files
=============================================================================
