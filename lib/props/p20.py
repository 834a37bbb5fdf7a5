import itertools

import driver
import sizes
import gen

PRE = ("(define log '())(define n 0)(define (t v) (set! log (cons v log)) v)"
       "(define (p0) (t 'p0))(define (p1 a) (t (list 'p1 a)))(define (p2 a b) (t (list 'p2 a b)))(define (p3 a b c) (t (list 'p3 a b c)))(define (p4 a b c d) (list 'p4 a b c d))"
       "(define (r0 . r) (t (list 'r0 r)))(define (r1 a . r) (t (list 'r1 a r)))(define (r2 a b . r) (t (list 'r2 a b r)))"
       "(define l0 (lambda () (t 'l0)))(define l1 (lambda (a) (t 'body) a))(define lr (lambda r r))(define lr1 (lambda (a . r) (set! a (list a r)) a))"
       "(define (ro a . r) (if (null? r) (list 'none a) (begin (set! r (cons a r)) r)))"
       "(define (show) (reverse log))(define q '(list 1 2))(define s 'sym)")
PROCS = ["p0", "p1", "p2", "p3", "p4", "r0", "r1", "r2", "l0", "l1", "lr", "lr1", "ro", "list", "cons", "car", "+", "-", "vector", "eq?", "append", "apply", "map", "for-each", "values", "not", "length", "string-append", "throw",
         "call/cc", "call-with-values", "dynamic-wind", "force", "eval", "max", "<", "hash-ref", "substring", "make-vector", "list-tail"]
ARG = ["(t 1)", "q", "s", "'(a b)", "'x", "'()", "\"str\"", "(lambda (z) z)", "(list 'quote 'w)", "car"]


def argtuples(k, alphabet):
    return itertools.product(alphabet, repeat=k)


def ways(p, args):
    a = " ".join(args)
    yield "(%s %s)" % (p, a)
    yield "(apply %s (list %s))" % (p, a)
    for i in range(1, len(args) + 1):
        yield "(apply %s %s (list %s))" % (p, " ".join(args[:i]), " ".join(args[i:]))
    yield "(apply apply (list %s (list %s)))" % (p, a)
    yield "(call-with-values (lambda () (values %s)) %s)" % (a, p)
    yield "(let ((f %s)) (f %s))" % (p, a)
    yield "((if #t %s car) %s)" % (p, a)
    yield "(((lambda () %s)) %s)" % (p, a)
    yield "(eval (list 'apply '%s (list 'list %s)))" % (p, a.replace("'", "''") if False else a if "(" not in a and "'" not in a and a.strip() not in ("q", "s", "car") else "1")
    yield "(catch #t (lambda () (%s %s)) (lambda (k . r) (t (list 'err k))))" % (p, a)
    if args:
        yield "(map %s %s)" % (p, " ".join("(list %s %s)" % (x, x) for x in args))
        yield "(map-in-order %s %s)" % (p, " ".join("(list %s)" % x for x in args))
        yield "(apply map %s (list %s))" % (p, " ".join("(list %s)" % x for x in args))
        yield "(for-each %s %s)" % (p, " ".join("(list %s %s)" % (x, x) for x in args))


def programs(quick):
    maxn = 4
    for p in PROCS:
        for k in range(0, maxn + 1):
            alpha = ARG if k <= 1 else ARG[:6] if k == 2 else ARG[:3] if k == 3 else ARG[:2]
            if not quick:
                alpha = ARG if k <= 2 else ARG[:6] if k == 3 else ARG[:3]
            for args in argtuples(k, alpha):
                for w in ways(p, args):
                    yield PRE + w + "(show)"
    # every argument is evaluated once, in order, even if there are too many or too few
    for p in PROCS[:20]:
        for k in range(0, 7):
            yield PRE + "(%s %s)(show)" % (p, " ".join("(t %d)" % i for i in range(k)))
            yield PRE + "(apply %s %s (list %s))(show)" % (p, " ".join("(t %d)" % i for i in range(k // 2)), " ".join("(t %d)" % i for i in range(k // 2, k)))
    # traversals: lengths, elements of every kind, order
    els = ["1", "()", "(1)", "#f", "x", "(quote y)", "\"s\"", "(t 5)", "#\\a"]
    for k in (1, 2, 3):
        for lens in itertools.product(range(0, 4 if k < 3 else 3), repeat=k):
            for off in range(len(els)):
                ls = " ".join("'(%s)" % " ".join(els[(off + i * 2 + j) % len(els)] for i in range(n)) for j, n in enumerate(lens))
                for f in ("lr", "(lambda r (t r) r)", "p%d" % k, "r0", "list", "(lambda (a . b) (t (cons a b)))", "vector", "p%d" % (k - 1), "p%d" % (k + 1)):
                    yield PRE + "(map %s %s)(show)" % (f, ls)
                    yield PRE + "(for-each %s %s)(show)" % (f, ls)
                    yield PRE + "(apply map %s (list %s))(map-in-order %s %s)(show)" % (f, ls, f, ls)
    # continuations as procedures, with any number of arguments
    for k in range(0, 4):
        a = " ".join("(t %d)" % i for i in range(k))
        for w in ("(call/cc (lambda (k) (t 'in) (k %s) (t 'no)))", "(call/cc (lambda (k) (apply k (list %s))))", "(call-with-values (lambda () (call/cc (lambda (k) (k %s)))) lr)",
                  "(call-with-values (lambda () (call/cc (lambda (k) (apply k (list %s))))) r1)", "(call/cc (lambda (k) (call-with-values (lambda () (values %s)) k)))",
                  "(call-with-values (lambda () (call/cc (lambda (k) (call-with-values (lambda () (values %s)) k)))) lr)", "(call/cc (lambda (k) (map k (list %s))))", "(call/cc (lambda (k) (for-each k (list %s)) 'end))"):
            if k != 1 and "values" not in w and ("map" not in w and "for-each" not in w):
                w = "(call-with-values (lambda () %s) lr)" % w
            yield PRE + (w % a) + "(show)"
    # parameters: assignment and capture of parameters is private to the call
    for f in ("(lambda (a) (set! a (cons a a)) a)", "(lambda (a . r) (set! r (cons a r)) r)", "(lambda r (set! r (cons 0 r)) r)", "(lambda (a . r) (if (pair? r) (set-car! r 'changed)) (list a r))",
              "(lambda r (if (pair? r) (set-car! r 'changed)) r)", "(lambda r (lambda () (set! r (cons 'c r)) r))"):
        for w in ("(let ((f %s) (l (list 1 2 3))) (list (apply f l) l (apply f l)))", "(let ((f %s)) (list (f 1 2) (f 1 2)))", "(let ((f %s) (l (list 1 2))) (map f l l) (list l (map f l)))",
                  "(let ((g (%s 1 2))) (if (procedure? g) (list (g) (g)) g))", "(let ((f %s) (l (list 5))) (call-with-values (lambda () (values 1 2)) f) (apply f 4 l) (list l (apply f 4 l)))"):
            yield PRE + w % f + "(show)"
    # nested definitions of the same procedure with other arities
    for a in range(0, 4):
        for b in range(0, 4):
            yield PRE + "(define (f%s) 'first)(define g f)(define (f%s) 'second)" % ("".join(" a%d" % i for i in range(a)), "".join(" a%d" % i for i in range(b))) + "".join(
                "(catch #t (lambda () (%s %s)) (lambda x 'arity))" % (h, " ".join("1" * k)) for h in "fg" for k in range(0, 4))
    yield from sizes.calls(quick)


# the built-in procedures that take a fixed number of arguments
ARITY = {
    0: ("current-error-port current-input-port current-module current-output-port make-undefined-variable open-output-string").split(),
    1: ("abs boolean? caddr cadr call-with-current-continuation call/cc car cddr cdr char->integer char-alphabetic? char-downcase char-lower-case? char-numeric? char-upcase char-upper-case? char-whitespace? "
        "char? close-input-port close-output-port complex? defined? eof-object? even? exact? force get-output-string inexact? input-port? integer->char integer? last-pair length list->string list->vector list? "
        "macroexpand macroexpand-1 make-variable module? negative? not null? number? odd? open-input-file open-input-string open-output-file output-port? pair? positive? procedure-name procedure? rational? "
        "real? reverse scm-smob-data scm-smob? set-current-error-port set-current-input-port set-current-output-port sqrt string->list string->symbol string-length string? symbol->string symbol? "
        "variable-bound? variable-ref variable? vector->list vector-length vector? zero?").split(),
    2: ("assoc assoc-ref assoc-remove! assq assv call-with-values char-ci<=? char-ci<? char-ci=? char-ci>=? char-ci>? char<=? char<? char=? char>=? char>? cons eq? equal? eqv? expt hash-get-handle hash-ref "
        "hash-remove! hashq-get-handle hashq-ref hashq-remove! hashv-get-handle hashv-ref hashv-remove! list-head list-ref list-tail member memq memv modulo quotient remainder set-car! set-cdr! string-ci<=? "
        "string-ci<? string-ci=? string-ci>=? string-ci>? string-ref string<=? string<? string=? string>=? string>? variable-set! vector-ref").split(),
    3: ("acons assoc-set! assq-set! dynamic-wind hash-create-handle! hash-fold hash-set! hashq-create-handle! hashq-set! hashv-create-handle! hashv-set! string-set! substring vector-set!").split(),
}


def arities(quick):
    """every number of arguments other than its own is refused by a procedure, however it is called"""
    for k, names in ARITY.items():
        for p in names:
            for n in range(0, 8):
                for a in ("#f", "1", "'(1)", "\"ab\""):
                    l = " ".join([a] * n)
                    ways = ["(%s %s)" % (p, l), "(apply %s (list %s))" % (p, l), "(let ((f %s)) (f %s))" % (p, l), "(call-with-values (lambda () (values %s)) %s)" % (l, p), "(apply apply (list %s (list %s)))" % (p, l), "((if #t %s) %s)" % (p, l)]
                    if n:
                        ways += ["(map %s %s)" % (p, " ".join("(list %s)" % a for i in range(n))), "(for-each %s %s)" % (p, " ".join("(list %s)" % a for i in range(n))), "(apply %s %s '())" % (p, l)]
                    for w in ways:
                        if n != k:
                            yield "(catch #t (lambda () %s 'ran) (lambda r 'refused))" % w, "refused\n"
                        elif not p.startswith("call"):
                            yield "(catch #t (lambda () %s 'ran) (lambda (k . r) (if (eq? k 'wrong-number-of-args) k 'ran)))" % w, "ran\n"


def check(run):
    driver.compare(run, programs(run.quick))
    driver.compare(run, arities(run.quick), label="numbers of arguments of built-in procedures")
