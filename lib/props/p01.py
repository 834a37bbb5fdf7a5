import driver
import sizes
import gen

PRE = ("(define x 10)(define y 20)(define log '())"
       "(define (t v) (set! log (cons v log)) v)"
       "(define (f a) (t (list a x)))"
       "(define (mk n) (lambda (d) (set! n (+ n d)) n))(define acc (mk 100))"
       "(define (show) (list x y (reverse log)))")

CTX = [
    "(if %% (t 1) (t 2))", "(if (t #f) 1 %%)", "(if (t 'c) %%)", "(if (eq? x %%) 'same 'diff)",
    "(let ((x %%)) (t x))", "(let ((x 1)) %%)", "(let ((x y) (y x)) (list x y %%))", "(let ((z %%) (x (t 2))) (list x z))",
    "(let* ((x %%) (y (list x x))) (list x y))", "(let* ((x 3) (y x)) %%)", "(let* ((x 1) (x (list x %%))) x)",
    "(letrec ((g (lambda () %%)) (h (lambda () (g)))) (h))",
    "(letrec ((ev (lambda (n) (if (= n 0) %% (od (- n 1))))) (od (lambda (n) (if (= n 0) 'odd (ev (- n 1)))))) (ev 4))",
    "(let loop ((x %%) (n 2)) (if (= n 0) x (loop (list x n) (- n 1))))",
    "(let loop ((n 2)) (t n) (if (> n 0) (loop (- n 1)) %%))",
    "((lambda (x) %%) 5)", "((lambda (x . r) (list x r %%)) 1 2 3)", "((lambda r (t %%) r) 1 2)", "((lambda () (set! y %%) y))",
    "((lambda (a b) (list b a)) %% (t 9))",
    "(do ((i 0 (+ i 1)) (v %% (list v i))) ((= i 2) v) (t i))", "(do ((x 0 (+ x 1))) ((= x 2) (t 'end) %%) (t x))",
    "(do ((i 0 (+ i 1))) ((= i 2) 'ok) %%)",
    "(begin (t 1) %%)", "(begin %% x)", "(begin (set! x %%) x)",
    "(cond (%% => list) (else (t 3)))", "(cond (%%) (else 2))", "(cond ((t #f) 1) (%% (t 4) x))", "(cond ((eq? y 0) %%) ((t x) => (lambda (v) (list v %%))))",
    "(cond (#f 1) (else (t 'e) %%))",
    "(case %% ((1 x) 'a) ((10 #f) 'b) (else (t 'c)))", "(case (t 2) ((1) 'no) ((2 3) (t 'hit) %%) (else 'bad))", "(case 'q ((a) 1) (else %%))",
    "(and (t 1) %% (t 2))", "(and %% (t #f) (t 2))", "(or (t #f) %% (t 3))", "(or %% (t #f))",
    "(list (t 1) %% (t 2))", "((t list) %% x)",
    "(let () (define x %%) (define (g) (list x)) (set! x (t 8)) (g))", "(let () (define (g n) (if (= n 0) %% (g (- n 1)))) (g 2))",
    "(let ((g (lambda () %%))) (set! x 99) (g))", "(let ((x 7)) (f %%))", "(let ((k (mk 0))) (k 1) (acc 1) (list (k 1) (acc 1) %%))",
    "(begin (define x %%) x)", "(let ((q (lambda (v) (lambda () (set! v (list v %%)) v)))) (let ((a (q 1)) (b (q 2))) (a) (list (a) (b))))",
    "(not %%)", "(map (lambda (x) %%) '(1 2))", "(apply (lambda (a . r) (list r a %%)) (list x y))",
]
LEAF0 = ["1", "x", "#f", "(t 7)", "(f 3)"]
LEAVES = LEAF0 + ["'()", "y", "'s", "\"s\"", "(begin (set! x (+ x 1)) x)", "(set! x 5)", "(acc 5)", "((lambda (a) (set! y a) (list a x)) 4)",
                  "no-such-var", "(car x)", "(list x y)", "(lambda () x)", "((lambda (a) a))", "(define x 77)", "(x 1)"]


def programs(quick):
    def prog(e):
        return PRE + e + "(show)"
    for e in LEAVES:
        yield prog(e)
    for d, lv in ((1, LEAVES), (2, LEAVES)):
        for e in gen.nest(CTX, lv, d):
            yield prog(e)
    for e in gen.nest(CTX, LEAF0[:1] + LEAF0[3:4] if quick else LEAVES, 3):
        yield prog(e)
    # sequences of top-level forms
    forms = ["(define x 1)", "(set! x (list x y))", "(define (f a) (list 'new a x))", "(define g f)", "(t (f x))", "(set! f (lambda (a) (t 'anon)))",
             "(let ((x 'in)) (set! y (lambda () x)))", "(set! g (lambda (a) (f a)))", "(t (g 2))", "(define h (mk x))", "(t (h 1))", "(if (procedure? y) (t (y)) (t y))"]
    for s in gen.seqs(forms, 4 if quick else 5):
        yield PRE + "".join(s) + "(show)"
    # the operator is an expression like any other: only its value, if a procedure, is called
    vals = ["'car", "car", "(list 'lambda '() 1)", "'(quote car)", "5", "\"s\"", "'()", "#f", "(vector car)", "(list car)", "(lambda r r)", "(lambda () 7)", "(lambda (p) p)", "'(lambda () 1)", "(delay car)", "''car", "(string->symbol \"car\")"]
    wraps = ["%%", "(begin %%)", "(if #t %%)", "((lambda () %%))", "(let ((o %%)) o)", "(car (list %%))", "(cond (%%))", "(and 1 %%)", "(call/cc (lambda (k) (k %%)))", "(begin (set! c (+ c 1)) %%)"]
    args = ["", " 1", " '(1 2)", " c", " '(1) 2", " 'a"]
    for v in vals:
        for w in wraps:
            for a in args:
                yield "(define c 0)((%s)%s)c" % (w.replace("%%", v)[1:-1] if w != "%%" else "begin " + v, a) if w == "%%" else "(define c 0)(%s%s)c(define o %s)(o%s)(let ((f %s)) (f%s))c" % (w.replace("%%", v), a, v, a, v, a)
    # wide forms: n bindings, clauses, operands, parameters, body expressions
    L = "(define c 0)(define (nx) (set! c (+ c 1)) c)(define x 'gx)(define v2 'gv)"
    for n in range(0, 13 if quick else 40):
        vs = ["v%d" % i for i in range(n)]
        b = " ".join("(%s (nx))" % v for v in vs)
        bs = " ".join("(%s (cons (nx) (list %s)))" % (v, " ".join(vs[max(0, i - 2):i])) for i, v in enumerate(vs))
        lv = "(list %s)" % " ".join(vs)
        step = " ".join("(%s (nx) (+ %s c))" % (v, vs[(i + 1) % n]) for i, v in enumerate(vs)) if n else ""
        yield L + "(let (%s) %s)c" % (b, lv)
        yield L + "(let* (%s) %s)c" % (bs, lv)
        yield L + "(letrec (%s) %s)c" % (" ".join("(%s (lambda (k) (if (= k 0) '%s (%s (- k 1)))))" % (v, v, vs[(i + 1) % n]) for i, v in enumerate(vs)), "(list %s)" % " ".join("(%s 3)" % v for v in vs))
        yield L + "(let loop ((i 0) %s) (if (< i 3) (loop (+ i 1) %s) (list i %s)))c" % (b, " ".join(vs[1:] + vs[:1]), lv)
        yield L + "(let loop (%s) (if (< c 30) (begin (nx) (nx) (loop %s)) %s))c" % (b, " ".join("(+ %s %d)" % (v, i) for i, v in enumerate(vs)), lv)
        yield L + "(do ((i 0 (+ i 1)) %s) ((= i 3) (nx) %s) (nx))c" % (step, lv)
        yield L + "(define (f %s) %s)(f %s)c" % (" ".join(vs), lv, " ".join("(nx)" for _ in vs))
        yield L + "((lambda (%s . r) (list r %s)) %s 'e 'f)c" % (" ".join(vs or ["v"]), lv if n else "v", " ".join("(nx)" for _ in vs or [1]))
        yield L + "(define (f) %s %s %s)(f)(f)c" % (" ".join("(define %s (nx))" % v for v in vs), " ".join("(set! %s (list %s))" % (v, v) for v in vs), lv)
        for k in range(0, n + 1):
            yield L + "(begin %s 'end)c" % " ".join("(nx)" for _ in vs)
            yield L + "(and %s)c(or %s)c" % (" ".join("(begin (nx) %s)" % ("#f" if i == k else i) for i in range(n)), " ".join("(begin (nx) %s)" % (i if i == k else "#f") for i in range(n)))
            if n:
                yield L + "(cond %s)c" % " ".join("((begin (nx) %s) (nx) '%s)" % ("#t" if i == k else "#f", v) for i, v in enumerate(vs)) if k < n else L + "(cond %s (else (nx) 'e))c" % " ".join("((begin (nx) #f) '%s)" % v for v in vs)
                yield L + "(case (nx) %s (else 'none))(case %d ((%s) 'in) (else 'out))c" % (" ".join("((%d) '%s)" % ((i - k + n) % n + 1, v) for i, v in enumerate(vs)), k, " ".join(str(i) for i in range(n)))
    yield from sizes.core(quick)


def check(run):
    driver.compare(run, programs(run.quick))
