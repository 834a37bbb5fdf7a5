import itertools
import driver
import sizes
import gen

# (definition of the value, is it fresh at each evaluation)
VALS = ["0", "1", "-1", "2", "100", "1.0", "0.0", "-1.0", "1.5", "2.0", "(/ 1 2)", "(/ 2 4)", "0.5", "(/ 4 2)", "(/ -1 2)", "(/ 1 3)", "9007199254740992", "9007199254740993", "9007199254740992.0", "(+ 0.5 0.5)", "(* 1 1)",
        "\"\"", "\"a\"", "\"b\"", "\"ab\"", "\"A\"", "(string #\\a)", "(string-append \"a\" \"b\")", "(make-string 1 #\\a)", "\"1\"", "(symbol->string 'a)", "(number->string 1)",
        "'a", "'b", "'A", "'ab", "(string->symbol \"a\")", "(string->symbol \"a b\")", "(string->symbol \"1\")", "(string->symbol \"\")", "#\\a", "#\\A", "#\\b", "#\\space", "#\\1", "(integer->char 97)", "#t", "#f", "(not 1)", "(= 1 1)",
        "'()", "(list)", "(cdr (list 1))", "'(a)", "(list 'a)", "'(a b)", "(list 'a 'b)", "(cons 'a 'b)", "'(a . b)", "(cons 'a (list 'b))", "'(a b . c)", "'(a b c)", "(cons 'a (cons 'b 'c))", "(list 1)", "(list 1.0)", "(list \"a\")", "(list (list 1 2) 3)", "(cons (list 1 2) 3)", "(list '(1 . 2))", "'((1 2))", "(list '())", "'(())", "(list #f)",
        "(vector)", "'#()", "(vector 1)", "(vector 1 2)", "(make-vector 2 1)", "(vector 'a)", "(list->vector '(1 2))", "(vector (vector 1) 2)", "(vector '(1) 2)", "(vector \"a\")", "(list (vector 1 2))", "(vector 1.0 2)", "(list (vector) '())", "(vector '(1 . 2))", "(vector '(1 2))",
        "car", "cdr", "(lambda (x) x)", "(let ((c car)) c)", "(make-hash-table)", "(make-variable 1)", "(delay 1)", "(open-input-string \"\")", "(call/cc (lambda (k) k))", "(quote quote)", "''a", "'(quote a)", "(list 'quote 'a)"]
PRED = ["eq?", "eqv?", "equal?"]
ROUTE = ["(car (list x))", "(cdr (cons 1 x))", "(vector-ref (vector 1 x) 1)", "(let ((y x)) y)", "((lambda (y) y) x)", "((lambda r (car r)) x)", "(apply (lambda (y) y) (list x))", "(car (map (lambda (y) y) (list x)))", "(begin (set! z x) z)", "(let* ((h (make-hash-table))) (hash-set! h 'k x) (hash-ref h 'k))", "(cdr (assq 'k (list (cons 'k x))))", "(force (delay x))",
         "(call/cc (lambda (k) (k x)))", "(call-with-values (lambda () (values 1 x)) (lambda (a b) b))", "(catch 'e (lambda () (throw 'e x)) (lambda (k v) v))", "(variable-ref (make-variable x))", "(let ((c (lambda () x))) (c))", "(if #t x)", "(car `(,x))", "(let ((l (list 1))) (set-car! l x) (car l))", "(let ((l (cons 1 2))) (set-cdr! l x) (cdr l))", "(let ((v (make-vector 3 x))) (vector-ref v 2))",
         "(car (append (list x) '(1)))", "(car (reverse (list 1 x)))", "(list-ref (list 1 x) 1)", "(vector-ref (list->vector (list x)) 0)", "(car (vector->list (vector x)))", "(car (last-pair (list 1 x)))", "(let loop ((i 2) (v x)) (if (= i 0) v (loop (- i 1) v)))", "(do ((i 0 (+ i 1)) (v x v)) ((= i 2) v))", "(dynamic-wind (lambda () 1) (lambda () x) (lambda () 2))", "(or #f x)", "(and 1 x)", "(cond (else x))", "(case 1 ((1) x))", "(let* ((h (make-hash-table))) (hash-set! h x 'v) (car (hash-get-handle h x)))", "(car (list-tail (list 1 x) 1))", "(car (list-head (list x 1) 1))", "(assoc-ref (acons 'k x '()) 'k)"]


def programs(quick):
    n = len(VALS)
    # the relation on all pairs
    for i in range(n):
        for j in range(n):
            yield "(define x %s)(define y %s)(list (eq? x y) (eqv? x y) (equal? x y) (eq? y x) (eqv? y x) (equal? y x))" % (VALS[i], VALS[j])
    # equal? under constructors, with shared and with separate parts
    for i in range(n):
        for j in range(n) if not quick else range(i % 3, n, 3):
            yield "(define x %s)(define y %s)(list (equal? (list x) (list y)) (equal? (cons 1 x) (cons 1 y)) (equal? (vector x 2) (vector y 2)) (equal? (list 1 (vector x)) (list 1 (vector y))) (equal? (cons x y) (cons y x)) (equal? (list x y) (list x y)) (equal? (list x) (vector x)) (eq? (list x) (list y)) (eqv? (vector x) (vector y)))" % (VALS[i], VALS[j])
    for v in VALS:
        # the same value through every route keeps its identity; two evaluations of the expression
        for r in ROUTE:
            yield "(define z 0)(define x %s)(define w %s)(list (eq? x w) (eqv? x w) (equal? x w) (eq? w x) (if (memq x (list 0.25 w)) #t #f))" % (v, r)
        yield "(define (f) %s)(define x (f))(define y (f))(list (eq? x x) (eqv? x x) (equal? x x) (eq? x y) (eqv? x y) (equal? x y))" % v
    # parts of structures
    P = ["(cdr s)", "(car s)", "(cddr s)", "(cdr (cdr s))", "(car (car s))", "(list-tail s 1)", "(vector-ref v 0)", "(vector-ref v 1)", "(car v2)", "s", "v", "(list-ref s 0)", "(cdr v2)", "t1", "(memq 'm s)", "(cdr t1)"]
    for a in P:
        for b in P:
            yield "(define s (list (list 'i) 'm 'n))(define v (vector (car s) (cdr s)))(define v2 (cons s v))(define t1 (cdr s))(list (eq? %s %s) (eqv? %s %s) (equal? %s %s))" % ((a, b) * 3)
    # every graph of n pairs (vectors) over these leaves: node i refers to leaves and nodes before it, shared or not
    for n in (2, 3) if quick else (2, 3, 4):
        L = ["1", "2", "'()"] if n < 4 else ["1", "2"]
        nodes = [[("n%d" % j) for j in range(i)] for i in range(n)]
        for mk in ("cons", "vector") if n < 4 else ("cons",):
            for g in itertools.product(*[itertools.product(L + nd, repeat=2) for nd in nodes]):
                if mk == "vector" and n == 3 and quick and g[0] > g[1]:
                    continue
                yield "".join("(define n%d (%s %s %s))" % (i, mk if i != 1 or mk == "cons" else "cons", a, b) for i, (a, b) in enumerate(g)) + "(map (lambda (a) (map (lambda (b) (list (equal? a b) (eq? a b) (eqv? a b))) (list %s))) (list %s))" % ((" ".join("n%d" % i for i in range(n)),) * 2)
    # structures that differ at exactly one place
    for n in range(1, 6):
        for i in range(n):
            for other in ("'z", "1", "'()", "(list i)", "1.0", "\"1\"", "(vector 1)"):
                for mk in ("list", "vector"):
                    yield "(define i 1)(define a (%s %s))(define b (%s %s))(equal? a b)(equal? b a)(equal? (list a b) (list b a))(equal? (cons a b) (cons a b))" % (mk, " ".join(["1"] * n), mk, " ".join("1" if k != i else other for k in range(n)))
            for m in range(1, 6):
                yield "(list (equal? (make-vector %d 1) (make-vector %d 1)) (equal? '(%s) '(%s)) (equal? '(%s . 1) '(%s . 1)) (equal? '(%s . 1) '(%s)) (equal? \"%s\" \"%s\"))" % (n, m, "1 " * n, "1 " * m, "1 " * n, "1 " * m, "1 " * n, "1 " * m, "a" * n, "a" * m)
    # mutation does not change identity, separate objects stay separate
    for mk in ("(list 1 2)", "(vector 1 2)", "(cons 1 2)", "(make-string 2 #\\a)", "(make-hash-table)", "(make-variable 1)"):
        yield "(define a %s)(define b %s)(define c a)(define (mut x) (cond ((pair? x) (set-car! x 9)) ((vector? x) (vector-set! x 0 9)) ((string? x) (string-set! x 0 #\\z)) (else (if (variable? x) (variable-set! x 2) (hash-set! x 1 2)))))(mut a)(list (eq? a c) (eq? a b) (eqv? a b) (equal? a b) (equal? a c))(mut b)(list (eq? a b) (eqv? a c) (equal? a b))" % (mk, mk)
    for a in range(0, 4):
        for p in PRED:
            yield "(catch #t (lambda () (%s %s)) (lambda r 'err))" % (p, " ".join("1 1.0 1".split()[:a]))
    yield from sizes.equalities(quick)


def check(run):
    driver.compare(run, programs(run.quick))
