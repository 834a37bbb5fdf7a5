import itertools
import driver

A = "\x1dA"


def hist(*steps):
    return A + "\x1b".join(steps)


SETUP = ["S(define a (list 1 2))", "S(define (f x . r) (+ x 1))", "S(define log '())", "S(define (note x) (set! log (cons x log)) x)", "S(define k #f)", "S(define ht (make-hash-table 7))", "S(begin (hash-set! ht 'x 1) (hash-set! ht 'y 2))",
         "S(define p (open-output-string))", "S(define pr (delay (begin (note 'forced) (if (null? (cdr log)) (car '()) 7))))", "S(define-macro (swap x y) (list 'list y x))", "S(define v (vector 1 2 3))",
         "S(define n 0)", "S(define (deep d) (if (= d 0) (car 'deep) (+ 1 (deep (- d 1)))))", "S(define ip (open-input-string \"(x y) 5 )\"))"]
# what the host finds afterwards
PROBES = ["Sa", "E(f 2)", "Slog", "S(hash-ref ht 'x)", "S(list (swap 1 2) v n)", "S(begin (set! log '()) (dynamic-wind (lambda () (note 'in)) (lambda () (catch 'e (lambda () (throw 'e 1)) (lambda (key x) (note x)))) (lambda () (note 'out))))", "Elog",
          "S(get-output-string p)", "S(call-with-output-string (lambda (q) (display a q) (write \"s\" q)))", "Sunbound-here", "S(throw 'last \"msg\" 1)", "S(let loop ((i 0) (s 0)) (if (< i 5) (loop (+ i 1) (+ s i)) s))",
          "S(let ((r '())) (let ((x (call/cc (lambda (c) (set! k c) 1)))) (set! r (cons x r)) (if (< x 3) (k (+ x 1)) r)))", "F(define a2 (f 9)) (list a2 a)", "S(apply f 1 '(2))", "S(map f '(1 2))"]
# one of every way to fail
ERR = ["unbound-variable", "(unbound-procedure 1)", "(car '())", "(car 1 2)", "((lambda (x) x))", "((lambda (x) x) 1 2)", "(f)", "(1 2)", "(\"s\")", "(a)", "(vector-ref v 3)", "(vector-ref v 'x)", "(string-ref \"abc\" 9)", "(list-tail a 5)", "(+ 1 'x)", "(quotient 1 0)", "(hash-ref 1 2)",
       "(throw 'user)", "(throw 'user \"text\" 1)", "(throw 'user 1 \"second\")", "(throw 'user 1 2)", "(throw 'other \"other text\")",
       "(catch 'nope (lambda () (note 'body) (throw 'user \"through\")) (lambda r (note 'never)))", "(catch #t (lambda () (car '())) (lambda r (note 'h) (throw 'user \"from handler\")))", "(catch #t (lambda () (throw 'user 1)) (lambda (key) (note key)))",
       "(dynamic-wind (lambda () (note 'b)) (lambda () (throw 'user \"in body\")) (lambda () (note 'a)))", "(dynamic-wind (lambda () (throw 'user \"before\")) (lambda () (note 'never)) (lambda () (note 'never)))",
       "(dynamic-wind (lambda () (note 'b)) (lambda () 1) (lambda () (car '())))", "(dynamic-wind (lambda () (note 'b1)) (lambda () (dynamic-wind (lambda () (note 'b2)) (lambda () (car 'x)) (lambda () (note 'a2)))) (lambda () (note 'a1)))",
       "(dynamic-wind (lambda () (note 'b)) (lambda () (throw 'user 1)) (lambda () (throw 'second \"in after\")))",
       "(map (lambda (x) (note x) (if (= x 2) (car x) x)) '(1 2 3))", "(for-each (lambda (x) (note x) (vector-ref v x)) '(1 2 3 4))", "(apply car '(1))", "(apply f 1 2)", "(hash-fold (lambda (key x r) (note 'fold) (throw 'user \"fold\")) 0 ht)",
       "(begin (note 'first) (car '()) (note 'never))", "(let ((x (car '()))) x)", "(let loop ((i 0)) (note i) (if (= i 2) (car i) (loop (+ i 1))))", "(do ((i 0 (+ i 1))) ((car i) 1) (note i))", "(cond ((car '()) 1))", "(case (car '()) ((1) 2))", "(and 1 (car '()) 2)", "(if (car '()) 1 2)",
       "(define a (car '()))", "(define newname (car '()))", "newname", "(set! a (car '()))", "(set-car! (note a) (car '()))", "`(1 ,(car '()) ,@(note 2))", "(eval '(car '()))", "(eval '(begin (note 'ev) (throw 'user \"ev\")))", "(force pr)",
       "(call-with-values (lambda () (values 1 2)) (lambda (x) x))", "(call/cc (lambda (c) (set! k c) (car '())))", "(call/cc (lambda (c) (note 'cc) (dynamic-wind (lambda () (note 'b)) (lambda () (throw 'user 1)) (lambda () (c 5)))))",
       "(swap 1)", "(begin (define-macro (bad x) (car x)) (bad 1))", "(begin (define-macro (bad2 x) (list 'car x)) (bad2 1))", "(display 1 2)", "(begin (display \"part\" p) (throw 'user \"out\") (display \"never\" p))",
       "(call-with-output-string (lambda (q) (display \"x\" q) (throw 'user \"port\")))", "(begin (set-current-output-port p) (display \"cur\") (car '()))", "(call-with-output-file \"f1\" (lambda (q) (display \"abc\" q) (car '())))",
       "(open-input-file \"nosuch\")", "(load \"nosuch\")", "(read ip)", "(read (open-input-string \"(a\"))", "(read-char 5)", "(string->symbol 5)", "(list->string '(1))", "(make-vector 'x)", "(deep 300)", "(+ 1 (deep 20))",
       "(list (note 1) (note 2) (car '()) (note 3))", "(host-eval \"(car '())\")\x1a(catch #t (lambda () (car '())) (lambda r 'null))", "(begin (host-eval \"(throw 'user 1)\") (throw 'other \"outer\"))\x1a(throw 'other \"outer\")",
       "(list (note 1) (host-eval \"(begin (note 'in) (dynamic-wind (lambda () (note 'b)) (lambda () (car 1)) (lambda () (note 'a))))\") (note 2))\x1a(list (note 1) (catch #t (lambda () (note 'in) (dynamic-wind (lambda () (note 'b)) (lambda () (car 1)) (lambda () (note 'a)))) (lambda r 'null)) (note 2))",
       "(catch 'user (lambda () (host-eval \"(throw 'user 1)\")) (lambda r 'never))\x1a'null", "(host-eval \"(\")\x1a'null", "(list (host-eval \"(host-eval \\\"(car 1)\\\")\") (car '()))\x1a(car '())", "(host-eval 5 6)\x1a(car 1 2)",
       "(begin (call-with-output-file \"l1\" (lambda (q) (write '(note 'l1) q) (write '(car 'l) q) (write '(note 'never) q))) (load \"l1\"))"]
TEXT = ["(", ")", "", "(a", "\"abc", "(a . )", "#(", "'", "1 2", ";c", "#|", "(a))"]
GOOD = ["(begin (set! a (cons 0 a)) a)", "(note 'g)", "(begin (display \"+\" p) (get-output-string p))", "(let ((x (call/cc (lambda (c) (set! k c) 0)))) (note (list 'x x)) x)", "(if (and (procedure? k) (< n 2)) (begin (set! n (+ n 1)) (k n)) 'no)",
        "(catch #t (lambda () (deep 3)) (lambda r (note 'caught)))", "(define (f x . r) (* x 10))", "(host-eval \"(begin (note 'ok) (list 1 a))\")\x1a(begin (note 'ok) (list 1 a))", "(hash-set! ht 'x (+ 1 (hash-ref ht 'x)))", "(read ip)", "(force pr)"]

KW = ("quote quasiquote if lambda define define-public set! begin let let* letrec do cond case and or delay call/cc call-with-current-continuation map for-each apply define-macro call-with-values dynamic-wind catch eval "
      "use-modules export re-export define-module defined? macroexpand unquote unquote-splicing throw force values f swap car").split() + ["let loop", "define (g)", "lambda (x)", "define-macro (m x)", "do ((i 0 (+ i 1)))", "cond (#f)", "case 1", "let ((x 1))", "let* ((x 1))", "letrec ((x 1))"]
ARG = ["1", "x", "()", "(x)", "((x))", "((x 1))", "\"s\"", "(x . 1)", "(1)", "=>", "(else)", "((1) 2)", "(x =>)", "#(1)", "(((x)))", "else", ". 1", "'x", ",x", ",@x", "(lambda (x) x)", "(begin)", "((x 1) . 2)", "#t", "(x 1 2)", "((x 1 2))", "((1 x))", "(1 => car)"]
WRAP = ["%s", "(catch #t (lambda () %s) (lambda r 'caught))", "(begin (define (g) %s) (g) (g))", "(let ((x 5)) %s)", "(dynamic-wind (lambda () 1) (lambda () %s) (lambda () 2))", "(map (lambda (x) %s) '(1))"]
TOK = ["(", ")", "'", "`", ",", ",@", "#(", " . ", "\"", ";", "#|", "|#", "#\\", "#t", "a ", "1 ", "\n", "#:", "\\", "-"]
SHORT = ["Sa", "S(list (f 2) (swap 1 2) v)", "Slog", "S(begin (note 1) log)", "Sunbound-here", "S(throw 'last \"msg\")", "S(dynamic-wind (lambda () (note 2)) (lambda () (catch 'e (lambda () (throw 'e 1)) list)) (lambda () (note 3)))", "Slog"]


def endless(t):  # a loop whose end test is never true, a procedure that only calls itself, a redefinition of quote or begin
    return t.startswith(("(do ((i 0 (+ i 1))) (begin)", "(do ((i 0 (+ i 1))) (#f", "(let x () (x", "(let x () ((x", "(let x () (((x", "(let else () (else")) or any(t.startswith("(%s %s" % (d, q)) for d in ("define", "define-public", "define-macro") for q in ("'", ",", "(begin", "(lambda"))


def programs(quick):
    steps = [("E", e) for e in ERR] + [("F", e) for e in ERR if "call/cc" not in e and "\x1a" not in e] + [("T", e) for e in ERR if "(define " not in e and "call/cc" not in e] + [("S", t) for t in TEXT] + [("P", t) for t in TEXT + GOOD if "\x1a" not in t] + [("G", t) for t in TEXT + GOOD[:3]] + [("N", ""), ("F", "missing"), ("G", "missing"), ("F", "(a"), ("F", "")]
    S = [("S", e) for e in ERR + GOOD]
    for s in steps + S + [("T", g) for g in GOOD if "call/cc" not in g and "(k" not in g]:
        yield hist(*(SETUP + ["".join(s)] + PROBES))
        yield hist(*(SETUP + ["".join(s)] * 2 + PROBES))
        if "\x1a" not in s[1]:
            yield hist(*(["".join(s)] + SETUP + PROBES))
    for e in ERR:  # again and again
        yield hist(*(SETUP + ["S" + e] * (150 if quick else 1000) + PROBES))
        if "\x1a" not in e and "(define-macro" not in e:
            yield hist(*(SETUP + ["S(do ((i 0 (+ i 1))) ((= i 300)) (set! log '()) (catch #t (lambda () %s) (lambda r (set! k #f) 'c)))" % e] + PROBES))
            yield hist(*(SETUP + ["S(catch #t (lambda () (catch 'nope (lambda () (catch #f (lambda () (catch 'nope2 (lambda () %s) list)) list)) list)) (lambda r 'c))" % e] + PROBES))
    # files of several forms: the value is that of the last one, a failure if that fails
    for i, (g, e) in enumerate(itertools.product([x for x in GOOD if "call/cc" not in x and "(k" not in x and "\x1a" not in x], [x for x in ERR + GOOD if "call/cc" not in x and "(k" not in x and "\x1a" not in x])):
        if not quick or i % 3 == 0:
            yield hist(*(SETUP + ["F" + g + "\n" + e] + PROBES))
            yield hist(*(SETUP + ["F" + e, "F" + g + "\n(note 1)\n" + e] + PROBES))
    # a continuation of a call of pscm_eval invoked in a call of pscm_eval_string
    yield hist(*(SETUP + ["E(call/cc (lambda (c) (set! k c) (car '())))", "S(if (and (procedure? k) (< n 2)) (begin (set! n (+ n 1)) (k n)) 'no)"] + PROBES))
    for t in itertools.product(S, [x for x in steps if x[0] != "E" or "set! k" not in x[1]][::2 if quick else 1]):
        for u in (t, t[::-1]):
            yield hist(*(SETUP + ["".join(x) for x in u] + PROBES))
    for t in itertools.product(S, repeat=2):
        yield hist(*(SETUP + ["".join(x) for x in t] + PROBES))
    # several failures between what succeeds
    E = [("S", e) for e in ERR]
    for i, t in enumerate(itertools.product(E[::1 if not quick else 4], [("S", g) for g in GOOD], E[::1 if not quick else 4], [("S", g) for g in GOOD[:: 5 if quick else 3]])):
        yield hist(*(SETUP + ["".join(x) for x in t] + PROBES))


def malformed(quick):
    def w(t, short):
        return hist(*(SETUP[:4] + SETUP[9:11] + ["s" + t] + (SHORT if short else PROBES)))
    for kw in KW:
        for n in range(3 if quick else 4):
            A_ = ARG if n < 3 else ARG[:16]
            for t in itertools.product(A_, repeat=n):
                f = "(%s)" % " ".join((kw,) + t)
                if endless(f):
                    continue
                for i, c in enumerate(WRAP if n < 2 or (n == 2 and not quick) else WRAP[:1]):
                    yield w(c % f, True)
        if quick:
            for t in itertools.product(ARG[:6], repeat=3):
                f = "(%s)" % " ".join((kw,) + t)
                if not endless(f):
                    yield w(f, True)
    for n in range(1, 4 if quick else 5):
        for t in itertools.product(TOK, repeat=n):
            yield w("".join(t), True)


def setup():
    return hist(*SETUP[:4])


def check(run):
    driver.compare(run, programs(run.quick))
    run.cov["malformed_histories"] = driver.compare(run, ((m) for m in malformed(run.quick)), label="malformed forms and texts")
