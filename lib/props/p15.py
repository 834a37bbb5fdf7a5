import itertools
import driver
import gen

PRE = ("(define (w->s v) (call-with-output-string (lambda (p) (write v p))))"
       "(define (d->s v) (call-with-output-string (lambda (p) (display v p))))"
       "(define (s->v s) (call-with-input-string s read))")
# write, read back, compare; then again through an output string port and standard output
CHK = "(define s (w->s v))(define w (s->v s))s w(list (equal? v w) (equal? s (w->s w)) (equal? v u))(d->s v)"
CHK2 = "(define p (open-output-string))(write v p)(write-char #\\space p)(write v p)(get-output-string p)(define q (open-input-string (get-output-string p)))(define a (read q))(define b (read q))(list (equal? a v) (equal? b v) (eof-object? (read q)))(write v)(newline)(display v)"

ATOMS = ["0", "1", "-1", "42", "1.5", "-2.25", "1.0", "1/2", "\"\"", "\"a b\"", "\"\\\"\"", "\"\\\\\"", "\"\\n\"", "\"(\"", "\"a;b\"", "'a", "'b-c", "(string->symbol \"a b\")", "(string->symbol \"(\")", "(string->symbol \"\")", "(string->symbol \"1\")", "(string->symbol \"A\")", "#\\a", "#\\space", "#\\newline", "#\\(", "#\\)", "#\\;", "#\\\"", "#\\'", "#\\#", "#\\\\", "#\\nul", "#\\tab", "#\\0", "#t", "#f", "'()", "'quote", "'unquote", "'quasiquote", "'unquote-splicing", "'...", "'+", "'-", "'1+", "'-a", "':k", "'quote-x", "'=>", "'else", "'define"]
FEW = ["1", "\"s\\\"\"", "'a", "#\\)", "'()", "#f", "1.5", "'quote", "(string->symbol \"a b\")"]
CTX2 = ["(list %%)", "(cons %% %%)", "(vector %%)", "(list %% %%)", "(vector %% %%)", "(cons 1 %%)", "(list 'quote %%)", "(list 'unquote %%)", "(list 'quasiquote %%)", "(list 'unquote-splicing %%)", "(cons 'quote %%)", "(list* %% %% %%)", "(list 'quote %% %%)", "(vector)"]


def structs(n):
    ctxs = [c for c in CTX2 if "list*" not in c and c != "(vector)"]
    return gen.trees(ctxs, FEW, n)


def lit(v):
    return PRE + "(define v %s)(define u %s)" % (v, v)


def numbers(quick):
    for k in range(0, 63):
        for d in (-1, 0, 1):
            yield str(2 ** k + d)
            yield str(-(2 ** k + d))
    yield "9223372036854775807"
    yield "(- -9223372036854775807 1)"
    for k in range(0, 19):
        for d in (-1, 0, 1):
            yield str(10 ** k + d)
            yield str(-(10 ** k + d))
    for n in range(-12, 13):
        for d in range(2, 13):
            yield "(/ %d %d)" % (n, d)
    ms = [1, 2, 3, 5, 7, 9, 11, 12, 15, 25, 33, 49, 99, 101, 125, 314159, 999999, 1000001, 123456789, 99999999999999, 12345678901234, 10000000000001, 50000000000005]
    for m in ms:
        for e in range(-25, 26) if not quick else range(-18, 19):
            for s in ("", "-"):
                if len(str(m)) + e <= 18 or len(str(m).rstrip("0")) <= 14:
                    yield "%s%de%d" % (s, m, e)
    for i in range(0, 1000, 1 if not quick else 7):
        yield "%d.%02d" % (i // 100, i % 100)
        yield "-%d.%03d" % (i // 100, i)
        yield "0.%04d" % i
        yield "(/ %d 8.0)" % i
        yield "(/ %d 1024.0)" % i
    for k in range(0, 60):
        yield "(exact->inexact %d)" % (2 ** k) if False else "(* 1.0 %d)" % (2 ** k)
    for v in ("0.0", "(- 0.0)", "1e100", "1e-100", "1.7e308", "2.5e-308", "1e21", "1e22", "123456789.125"):
        yield v


SPECIAL = "()\"';`,.#:\\|{}[]+-09aAeE/@ \n\t!~%&"


def symbols(quick):
    for c in range(1, 256):
        yield "(string->symbol (string (integer->char %d)))" % c
        yield "(string->symbol (string #\\a (integer->char %d)))" % c
        yield "(string->symbol (string (integer->char %d) #\\a))" % c
        yield "(string->symbol (string #\\a (integer->char %d) #\\b))" % c

    def q(s):
        return "(string->symbol \"%s\")" % s.replace("\\", "\\\\").replace("\"", "\\\"").replace("\n", "\\n").replace("\t", "\\t")
    for n in range(0, 3 if quick else 4):
        for t in itertools.product(SPECIAL, repeat=n):
            yield q("".join(t))
    for n in (3, 4) if quick else (4, 5):
        for t in itertools.product("+-.1ea/" if not quick else "-.1e/", repeat=n):
            yield q("".join(t))
    for s in ["lambda", "a.b", "a->b", "<=?", "!", "$", "...", "....", "a...", "#t", "#f", "#\\a", "#(", "#{a}#", "{a}", "a{b}c", "{{}}", "(a)", "a)b", "'a", "a'", "`a", ",a", ",@a", "a,b", "1.5", "-1", "+1", "1/2", "1e5", "1+", "-", "--", "+-", "-1a", "1a", ".5", "+.5", "+a", "a;b", "a\nb", "a b c", " a", "a ", "ABC", "aBc", ":", ":a", "a:", "::a", "x" * 100, "x" * 1000, "x y" * 100]:
        yield q(s)


def strings(quick):
    for c in range(256):
        yield "(string (integer->char %d))" % c
        yield "(string #\\a (integer->char %d) #\\b)" % c
        for d in "0179\\\"n":
            yield "(string (integer->char %d) #\\%s)" % (c, d)
    for n in range(0, 4 if quick else 5):
        for t in itertools.product(["\\\\", "\\\"", "\\n", "a", "0", "\\t", ";", "\\000", "\\377", " "] if not quick else ["\\\\", "\\\"", "\\n", "a", "0", "\\001"], repeat=n):
            yield "\"%s\"" % "".join(t)
    for n in (10, 100, 255, 256, 257, 1000, 4094, 4095, 4096, 4097):
        yield "(make-string %d #\\a)" % n
        yield "(make-string %d #\\\")" % n
        yield "(make-string %d #\\\\)" % n
        yield "(make-string %d (integer->char 200))" % n


def programs(quick):
    for v in itertools.chain(numbers(quick), symbols(quick), strings(quick), ATOMS, ["(integer->char %d)" % i for i in range(256)]):
        yield lit(v) + CHK
        yield lit("(list %s 1)" % v) + "(define s (w->s v))s(equal? v (s->v s))(d->s v)"
        if not quick:
            yield lit("(vector 'a %s)" % v) + CHK
            yield lit("(cons 'a %s)" % v) + CHK
            yield lit(v) + CHK2
    for v in symbols(quick):  # however it is printed, it reads back, alone and within other data
        yield "(define v %s)(define (rt x) (call-with-input-string (call-with-output-string (lambda (p) (write x p))) read))(and (eq? v (rt v)) (equal? (list v 1 v) (rt (list v 1 v))) (equal? (vector v) (rt (vector v))) (equal? (cons 1 v) (rt (cons 1 v))) (equal? (cons v 1) (rt (cons v 1))))" % v, "\x02#t\n"
    for i in range(256):  # a character next to other text
        yield lit("(list (integer->char %d) (integer->char %d) 'a)" % (i, i)) + CHK
        yield lit("(vector (integer->char %d))" % i) + CHK
        yield lit("(cons (integer->char %d) (integer->char %d))" % (i, i)) + CHK
    for a in ATOMS:
        yield lit(a) + CHK2
        for b in ATOMS:
            yield lit("(list %s %s)" % (a, b)) + CHK
            yield lit("(cons %s %s)" % (a, b)) + CHK
            if not quick:
                yield lit("(vector %s %s)" % (a, b)) + CHK2
                yield lit("(list 1 (cons %s %s) 2)" % (a, b)) + CHK
            yield lit("(vector (list %s) %s)" % (a, b)) + CHK
    for n in range(2, 4 if quick else 5):
        for v in structs(n):
            yield lit(v) + CHK
            if not quick and n < 4:
                yield lit(v) + CHK2
    if quick:
        for i, v in enumerate(structs(4)):
            if i % 6 == 0:
                yield lit(v) + "(define s (w->s v))s(equal? v (s->v s))(d->s v)"
    for n in (10, 50, 100, 500, 1000):
        yield lit("(let loop ((i 0) (l '())) (if (= i %d) l (loop (+ i 1) (cons i l))))" % n) + CHK
        yield lit("(let loop ((i 0) (l '())) (if (= i %d) l (loop (+ i 1) (list l))))" % n) + CHK
        yield lit("(let loop ((i 0) (l '())) (if (= i %d) l (loop (+ i 1) (vector l i))))" % n) + CHK
        yield lit("(let loop ((i 0) (l 'x)) (if (= i %d) l (loop (+ i 1) (cons \"a\" l))))" % n) + CHK
        yield lit("(make-vector %d \"q\\\"\")" % n) + CHK
    # shared parts print in full and equal
    for a in FEW + ["(list 1 2)", "(vector \"x\")"]:
        yield PRE + "(define x %s)(define v (list x x (vector x) (cons x x)))(define u (list x x (vector x) (cons x x)))" % a + CHK
    # several values on one port
    for a, b in itertools.product(ATOMS, repeat=2):
        yield PRE + "(define p (open-output-string))(write %s p)(newline p)(write %s p)(define q (open-input-string (get-output-string p)))(define a (read q))(define b (read q))(list a b)(list (equal? a %s) (equal? b %s))(eof-object? (read q))" % (a, b, a, b)
    # what the reader of program text and the reader of ports make of the same text is the same
    for n in range(2, 4):
        for v in structs(n):
            yield lit(v) + "(define t (list 'quote v))(equal? (eval t) v)(equal? (eval (s->v (w->s t))) v)"


def check(run):
    driver.compare(run, programs(run.quick))
