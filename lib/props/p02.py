import driver
import sizes
import gen

PRE = ("(define k1 #f)(define k2 #f)(define fuel %d)(define log '())(define x 10)"
       "(define (t v) (set! log (cons v log)) v)"
       "(define (use k v) (if (> fuel 0) (begin (set! fuel (- fuel 1)) (k v)) 'nofuel))"
       "(define (deep n th) (if (= n 0) (th) (let ((r (deep (- n 1) th))) (t n) r)))"
       "(define (show) (list x (reverse log)))")

# pending evaluation steps around a capture or an invocation
CTX = [
    "(list (t 'a) %% (t 'b))", "(cons %% x)", "(if %% (t 'yes) (t 'no))", "(let ((x %%) (y (t 5))) (list x y))", "(let* ((a (t 1)) (x %%)) (set! a (list a x)) a)",
    "(letrec ((g (lambda (n) (if (= n 0) %% (list n (g (- n 1))))))) (g 2))", "(begin (t 'b0) %% (t 'b1))", "(let loop ((i 2) (acc '())) (if (= i 0) acc (loop (- i 1) (cons %% acc))))",
    "(do ((i 0 (+ i 1)) (acc '() (cons %% acc))) ((= i 2) (t acc)))", "(do ((i 0 (+ i 1))) ((= i 2) (t i)) (t (list i %%)))",
    "(cond (%% => list) (else 'no))", "(case %% ((1 2) 'low) (else (t 'other)))", "(and (t 1) %% (t 2))", "(or (t #f) %% (t 2))", "(set! x (list x %%))", "(let ((z 1)) (set! z %%) (t z) (list z x))",
    "((lambda (a . r) (list r a)) (t 1) %% (t 2))", "(map (lambda (i) (list i %%)) '(1 2))", "(for-each (lambda (i) (t (list i %%))) '(1 2))", "(apply list 0 (list %% 9))",
    "(call-with-values (lambda () (list %% 1)) list)", "(call-with-values (lambda () (values %% 1)) list)", "(call-with-values (lambda () (begin (t 'v) (values 3 4))) (lambda (a . r) (list r %% a)))", "(dynamic-wind (lambda () (t 'in)) (lambda () (list %%)) (lambda () (t 'out)))", "(catch 'e (lambda () (list 'c %%)) (lambda a 'h))",
    "(force (delay (list 'p %%)))", "(eval (list 'quote (list %%)))", "(deep 2 (lambda () %%))", "((lambda () (define q %%) (set! q (list q)) q))", "`(1 ,%% 2)", "(vector-ref (vector 1 %%) 1)",
    "(let ((v (list 0 0))) (set-car! v %%) (t v) (car v))", "((call/cc (lambda (kk) (lambda (v) (list 'cc v)))) %%)",
]
MV = "(call-with-values (lambda () (call/cc (lambda (k) (set! k1 (lambda (v) (k v v))) (t 's) (values 1 2)))) list)"
SAVE = "(call/cc (lambda (k) (set! k1 k) (t 's) 1))"
CAPS = [
    SAVE, MV, "(call/cc (lambda (k) (t 1) (k 2) (t 3)))", "(call/cc (lambda (k) (+ 1 (k 5))))", "(call/cc (lambda (k) (deep 3 (lambda () (k 'esc)))))",
    "(call/cc (lambda (k) (map (lambda (i) (if (= i 2) (k i) (t i))) '(1 2 3))))", "(call/cc (lambda (k) (set! k1 k) (set! x 20) x))",
    "(call/cc (lambda (k) (for-each (lambda (i) (t i) (if (= i 2) (k i))) '(1 2 3)) 'never))",
    "(call/cc (lambda (k) (set! k1 k) (call/cc (lambda (j) (set! k2 j) (t 'in) 'j))))",
    "(call-with-current-continuation (lambda (k) (set! k1 k) (dynamic-wind (lambda () (t 'i)) (lambda () (k 7)) (lambda () (t 'o)))))",
    "(call/cc (lambda (k) (catch 'e (lambda () (k 3)) (lambda a 'bad))))", "(call/cc procedure?)", "(call/cc (lambda (k) (begin (set! k1 (lambda (v) (k (list v v)))) 0)))",
    "(apply (call/cc (lambda (k) (set! k1 (lambda (v) (k list))) +)) '(1 2))", "(let ((r (call/cc (lambda (k) k)))) (if (procedure? r) (r 'again) r))",
    "(let ((r (call/cc (lambda (k) (k k))))) (if (procedure? r) (begin (set! k1 r) 1) (list 'r r)))",
]


# traversals whose callback body is BODY; a is the (numeric) current element
TRAV = ["(for-each (lambda (a) BODY) '(1 2 3))", "(for-each (lambda (a b) BODY) '(1 2 3) '(p q r))", "(for-each (lambda (a b d) BODY) (list 1 2 3) (list 4 5 6) (list 7 8 9))", "(map (lambda (a) BODY) (list 1 2 3))", "(map (lambda (a b) (list b BODY)) '(1 2 3) '(p q r))",
        "(map (lambda (a b d) (cons d BODY)) '(1 2 3) '(4 5 6) '(7 8 9))", "(do ((a 1 (+ a 1)) (acc '() (cons a acc))) ((= a 4) acc) BODY)", "(do ((a 1 (+ a 1)) (acc '() (cons BODY acc))) ((= a 4) acc))", "(let lp ((a 1)) (if (< a 4) (cons BODY (lp (+ a 1))) '()))",
        "(letrec ((lp (lambda (a acc) (if (< a 4) (lp (+ a 1) (cons BODY acc)) acc)))) (lp 1 '()))", "(apply map (list (lambda (a b) BODY) '(1 2 3) '(p q r)))", "(map (lambda (z) (for-each (lambda (a) BODY) '(1 2 3)) z) '(u v))", "(for-each (lambda (z) (t (map (lambda (a) BODY) '(1 2 3)))) '(u v))",
        "(call-with-values (lambda () (values 1 2 3)) (lambda l (map (lambda (a) BODY) l)))", "((lambda (f) (list (f 1) (f 2) (f 3))) (lambda (a) BODY))", "(let ((f (lambda (a) BODY))) (vector (f 1) (f 2) (f 3)))", "(let* ((f (lambda (a) BODY)) (p (f 1)) (q (f 2)) (r (f 3))) (list p q r))"]
BODY = ["%%", "(t %%)", "(t (list a %%))", "(begin (set! x (cons a x)) (t %%))", "(let ((loc a)) (set! loc (list loc %%)) (t loc))", "(catch 'e (lambda () (t %%)) (lambda r 'h))"]


def guarded(c, cap):
    return c.replace(gen.H, cap)


def programs(quick):
    pre = PRE % 2
    again = "(show)(use k1 'r)(show)(t (list 'z (use k1 'q)))(show)"
    # one capture under two pending contexts, re-entered twice from later forms
    for e in gen.nest(CTX, CAPS if not quick else CAPS[:8], 2):
        yield pre + e + again
    if not quick:
        for e in gen.nest(CTX, CAPS[:2], 3):
            yield pre + e + again
    for e in gen.nest(CTX, CAPS, 1):
        yield pre + e + again
        yield pre + "(define (main) " + e + ")(main)" + again
        yield pre + "(define (main) " + e + ")(t (list (main) (main)))" + again
    # a capture in one context, the invocation inside another
    for a in CTX:
        for b in CTX:
            yield pre + guarded(a, SAVE) + guarded(b, "(use k1 'w)") + "(show)" + guarded(b, "(begin (t 'u) (use k1 'v))") + "(show)"
    # capture and re-entry within one form
    for a in CTX:
        for b in CTX:
            yield pre + "(let ((r " + guarded(a, SAVE) + ")) (t (list 'got r)) " + guarded(b, "(use k1 'w)") + ")(show)"
    # two captures in one form
    for a in CTX:
        for b in CTX:
            yield pre + "(list " + guarded(a, SAVE) + guarded(b, "(call/cc (lambda (k) (set! k2 k) (t 's2) 2))") + ")(use k2 'n2)(use k1 'n1)(show)"
    # histories of captures, re-entries and assignments
    pre = PRE % 3
    ops = ["(t (list 'A (call/cc (lambda (k) (set! k1 k) 'a))))", "(t (list 'B x (call/cc (lambda (k) (set! k2 k) 'b)) x))", "(if k1 (use k1 'ra))", "(if k2 (t (use k2 'rb)))",
           "(set! x (+ x 1))", "(if k1 (t (call/cc (lambda (k) (set! k2 k) (use k1 'sw)))))", "(set! k1 k2)", "(if k2 (map (lambda (v) (use k2 v)) '(m1 m2)))"]
    for s in gen.seqs(ops, 6 if quick else 7, 2):
        if not ("(call/cc" in s[0]):
            continue
        yield pre + "".join(s) + "(show)"
    # coroutines: two generators that hand control to each other a bounded number of times
    for n in (1, 2, 3):
        for body in CTX:
            yield (PRE % 9 + "(define out #f)(define (gen l) (call/cc (lambda (ret) (set! out ret) (for-each (lambda (v) (t " + body.replace(gen.H, "(call/cc (lambda (next) (set! k1 next) (out v)))") +
                   ")) l) (out 'end))))(define (nxt) (call/cc (lambda (r) (set! out r) (use k1 'resume))))(t (gen '(g1 g2 g3)))" + "(t (nxt))" * n + "(show)")
    # captures and re-entries inside traversals: the capture happens at element i, the re-entry
    # after the traversal went on (at element j of the same traversal, or after its end)
    for tv in TRAV:
        for i in (1, 2, 3):
            cap = "(call/cc (lambda (c) (if (= a %d) (set! k1 c)) a))" % i
            for body in BODY:
                b = body.replace(gen.H, cap)
                e = tv.replace("BODY", b)
                for n in (1, 2, 3):
                    yield PRE % n + "(t (list 'r " + e + "))(show)(if k1 (use k1 'again))(show)(if k1 (list (use k1 2)))(show)"
                yield PRE % 2 + "(define (main) " + e + ")(t (list (main) (main)))(show)(if k1 (use k1 'again))(show)"
                if i < 3:
                    for j in range(i + 1, 4):
                        b2 = body.replace(gen.H, "(begin (if (and k1 (eqv? a %d)) (use k1 (list 'from a))) %s)" % (j, cap))
                        yield PRE % 2 + "(t (list 'r " + tv.replace("BODY", b2) + "))(show)"
                        yield PRE % 2 + "(t (list 'r " + tv.replace("BODY", b2) + "))(show)(if k1 (use k1 1))(show)"
    yield from sizes.continuations(quick)


def check(run):
    driver.compare(run, programs(run.quick))
