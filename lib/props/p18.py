import itertools
import driver
import sizes
import gen

H = gen.H
PRE = ("(define log '())(define (t v) (set! log (cons v log)) v)(define n 0)(define (nx) (set! n (+ n 1)) n)"
       "(define a 'A)(define b 2)(define x '(1 2))(define e '())(define im '(p . q))(define v (vector 1 2))(define (show) (list n (reverse log) a b x e im v))")
# the parts of templates
LEAF = ["a", "()", "1", ",a", ",x", ",@x", ",@e", ",(nx)", ",(t b)", ",@(list (nx) (nx))", "(quote a)", "#t", "\"s\""]
LEAF2 = ["a", ",a", ",x", ",@x", ",@e", ",@(list (nx) (nx))", ",(t (nx))"]
CTXQ = ["(%%)", "(a %%)", "(%% b)", "(%% . c)", "(c . %%)", "((%%) d)", "(d (%% %%))", "#(%%)", "#(f %% g)", "(quote %%)", "(%% ,@x)", "(,@x %%)", "`%%", "`(a ,%%)", "`(a ,(b %%))", "`(,@(%%) z)", ",(list %% `%%)", ",(car '(%%))",
        "(unquote (list 1 `%%))", "(quasiquote (1 %%))"]
USE = ["`%%", "(list `%% `%%)", "(let ((a 'L) (b 'M)) `%%)", "(define (f a) `%%)(f 'P)(f 'Q)", "(map (lambda (a) `%%) '(u w))"]


def ok(t):
    # a splice is meaningful only inside a list or vector
    return not t.startswith(",@")


# macros: (definition of m, uses)
TRANS = ["x", "'x", "(list 'quote x)", "`(list ,x ,x)", "`(quote (,x . end))", "`(begin (t 'in) ,x)", "`(let ((tmp ,x)) (list tmp tmp))", "`(if ,x 'yes 'no)", "(begin (t (list 'expand x)) `(t ,x))", "(if (pair? x) `(quote ,(car x)) `(list ,x))",
         "`(lambda (y) (list y ,x))", "`((lambda (y) (list y ,x)) 7)", "(cons '+ (list 1 x))", "`(set! n ,x)", "`(define g ,x)", "'n", "5", "\"str\"", "`(m2 ,x)", "(let ((k n)) (set! n (+ n 1)) `(list ,k ,x))", "`(quote (m ,x))", "`(quasiquote (,x (unquote n)))",
         "`(,(car '(list)) ,@(list x x))", "`(let ((m (lambda (z) (list 'local z)))) (m ,x))", "`(cond (,x => list) (else 'none))", "`(do ((i 0 (+ i 1))) ((= i 2) i) (t ,x))", "''x", "'()", "#f", "`(catch #t (lambda () ,x) (lambda r (car r)))"]
OPND = ["1", "n", "'s", "(t 4)", "(nx)", "(+ n 1)", "(list 'q n)", "(car '())", "undefd", "(m 2)", "\"s\"", "#(1)", "()", "tmp", "(lambda (q) q)", "(throw 'k n)", "'(m 1)", "`(m ,n)"]
HOW = ["(define-macro (m x) %T)", "(define-macro m (lambda (x) %T))", "(define-macro m (let ((n 100)) (lambda (x) %T)))"]
WHERE = ["%%", "(list %% %%)", "(let ((n 50) (tmp 3)) (list %% n))", "(define (h n) %%)(h 60)(h 61)", "(map (lambda (n) %%) '(7 8))", "(if #t %%)", "(begin (t 'b) %%)", "(let ((y %%)) y)", "(catch #t (lambda () %%) (lambda r (t 'caught)))", "(quote %%)",
         "(let ((list vector)) %%)", "(cond (%% => (lambda (z) z)) (else 'no))", "(do ((i 0 (+ i 1))) ((= i 2) n) %%)", "(case 1 ((1) %%) (else %%))", "(define q %%)q", "(set! b %%)b", "(and %% %%)", "(let loop ((i 2)) (if (> i 0) (begin %% (loop (- i 1))) 'done))", "(let ((m (lambda (z) (list 'shadow)))) %%)", "(let ((m (lambda (z) (list 'shadow)))) (let ((w 1)) %%))", "(define (h m) (lambda (n) (let* ((w n) (u w)) %%)))((h list) 5)", "(define (h) (define-macro (m y) `(list 'inner ,y)) (let ((w 1)) %%))(h)%%",
         "(define (h m) %%)(h list)", "((lambda args args) %% 2)", "(apply list (list %%))", "(force (delay %%))", "(call/cc (lambda (k) (k %%)))", "(eval '%%)"]
ARITY = ["(define-macro (m) %T)", "(define-macro (m . r) %T)", "(define-macro (m p) %T)", "(define-macro (m p . r) %T)", "(define-macro (m p q) %T)", "(define-macro (m p q . r) %T)", "(define-macro m (lambda r %T))", "(define-macro m (lambda (p . r) %T))"]


def programs(quick):
    base = [l for l in LEAF]
    lvl1 = [gen.fill(c, l) for c in CTXQ for l in LEAF if c.count(H) == 1 or True]
    ok1 = [t for t in lvl1 if ",@,@" not in t]
    for t in base + ok1:
        if ok(t):
            for u in USE:
                yield PRE + u.replace(H, t) + "(show)"
    for c in CTXQ:
        for t in ok1:
            s = gen.fill(c, t)
            yield PRE + "`" + s + "(show)" if not s.startswith(",@") else PRE
    if not quick:
        l2 = [gen.fill(c, gen.fill(d, l)) for c in CTXQ for d in CTXQ for l in LEAF2]
        for c in CTXQ:
            for t in l2:
                yield PRE + "`" + c.replace(H, t) + "(show)"
    # independent parts: flat templates with every combination of parts
    P = ["a", ",a", ",@x", ",@e", ",(nx)", ",@(list (nx))", "(,b)", "(,@x)", "()", ",x", "#(,a)", "(q . ,b)"]
    for k in range(0, 4 if quick else 5):
        for ps in itertools.product(P, repeat=k):
            yield PRE + "`(" + " ".join(ps) + ")(show)"
            if k < 3 or not quick:
                yield PRE + "`#(" + " ".join(ps) + ")(show)"
                for tail in (" . d", " . ,x", " . ,a", " . ,(nx)", " . #(1)", " . (,@x)", " . ,im"):
                    if k:
                        yield PRE + "`(" + " ".join(ps) + tail + ")(show)"
    # nested quasiquotation: every chain of constructors between two levels
    W = ["(%%)", "(f %%)", "(%% g)", "(f . %%)", "#(%%)", "#(f %%)", "(f (%%) g)", "(quote %%)", "(f #(%%))", "#((%%))", "(,(nx) %%)", "(%% ,@x)"]
    for w1 in W:
        for w2 in W:
            for w3 in ["%%"] + W:
                for lf in (",,a", ",(f ,a)", ",(f ,@x)", ",@(f ,a)", ",@,x", ",a", "`,,,a", ",(g `,(h ,,a))") if w3 in ("%%", "(%%)", "#(%%)") or not quick else (",,a", ",(f ,@x)"):
                    t = w1.replace(H, "`" + w2.replace(H, w3.replace(H, lf)))
                    if lf == ",@,x" and w3 == "%%" and w2 in ("(f . %%)", "(quote %%)"):
                        continue
                    yield PRE + "`" + t + "(show)"
    # the template is unchanged, a fresh structure is returned each time
    for k in (1, 2):
        for ps in itertools.product(P, repeat=k):
            t = "`(" + " ".join(ps) + ")"
            if ps[-1] != ",@x" and ps != (",@x", ",@e"):  # the last spliced list may be shared with the result
              yield PRE + "(define (f) %s)(define r1 (f))(define r2 (f))(list r1 r2)(f)(if (pair? (f)) (set-car! (f) 'z))(f)(show)" % t
            yield PRE + "(map (lambda (a) %s) '(1 2 3))(show)" % t
            yield PRE + "(define k1 #f)(define c 0)(list `(%s ,(call/cc (lambda (k) (set! k1 k) 0)) %s))(set! c (+ c 1))(if (< c 3) (k1 c))(show)" % (ps[0], ps[-1])
    # macros
    for h in HOW:
        for tr in TRANS:
            d = PRE + "(define-macro (m2 z) `(list 'two ,z))" + h.replace("%T", tr)
            for o in OPND:
                u = "(m %s)" % o
                for w in WHERE if o in ("(nx)", "n", "(t 4)") or not quick else WHERE[:9]:
                    yield d + w.replace(H, u) + "(show)"
    for ar in ARITY:
        for tr in ("(list 'quote (list %s))", "`(list ,@(map (lambda (z) `(quote ,z)) (list %s)))"):
            names = [s for s in ("p", "q", "r") if (" %s" % s) in ar or ("(%s" % s) in ar or ("r)" in ar and s == "r" and ". r" in ar)]
            if ar.startswith("(define-macro m (lambda r"):
                names = ["r"]
            for k in range(0, 5):
                for os in itertools.product(["1", "(nx)", "n"], repeat=k) if k < 3 else [tuple(["(nx)"] * k)]:
                    yield PRE + ar.replace("%T", tr % " ".join(names)) + "(m %s)" % " ".join(os) + "(list (m %s))(show)" % " ".join(os)
    # redefinition, recursion, local macros, macros and procedures of the same name
    D = ["(define-macro (m . r) `(list 'm1 ,@r))", "(define-macro (m . r) `(list 'm2 ,@r))", "(define (m . r) (cons 'proc r))", "(define (f x) (m x x))", "(define (g m) (m n))", "(f (nx))", "(g vector)", "(m (nx))", "(define f2 (lambda () (m n)))", "(f2)", "(let ((m list)) (m 1 2))",
         "(define (h) (define-macro (m y) `(list 'inner ,y)) (m n))", "(h)"]
    for s in gen.seqs(D, 3 if quick else 5, 3):
        yield PRE + "(define (m . r) 'none)(define (f x) 0)(define (f2) 0)(define (h) 0)(define (g z) 0)" + "".join(s) + "(m 1)(f 2)(show)"
    for r in ("(define-macro (my-or . r) (if (null? r) #f `(let ((t1 ,(car r))) (if t1 t1 (my-or ,@(cdr r))))))", "(define-macro (my-or . r) (cond ((null? r) #f) ((null? (cdr r)) (car r)) (else `(if ,(car r) #t (my-or ,@(cdr r))))))"):
        for k in range(0, 5):
            for os in itertools.product(["#f", "(nx)", "(t #f)", "b"], repeat=k) if k < 4 else [("#f",) * k]:
                yield PRE + r + "(my-or %s)(show)" % " ".join(os)
    for e in ("(define-macro (while c . body) `(let lp () (if ,c (begin ,@body (lp)) 'done)))(while (< n 5) (nx) (t n))(define (f k) (while (< n k) (nx)))(f 8)(f 3)", "(define-macro (swap! p q) `(let ((tmp ,p)) (set! ,p ,q) (set! ,q tmp)))(swap! a b)(let ((u 1) (w 2)) (swap! u w) (list u w))",
              "(define-macro (inc! p) `(set! ,p (+ ,p 1)))(inc! n)(let ((n 10)) (inc! n) n)(define (cnt) (let ((c 0)) (lambda () (inc! c) c)))(define q (cnt))(q)(q)", "(define-macro (deff nm . body) `(define (,nm) ,@body))(deff foo (nx) 'r)(foo)(foo)",
              "(define-macro (mm nm) `(define-macro (,nm x) (list 'quote (list ',nm x))))(mm foo)(foo bar)(mm foo2)(foo2 (foo 1))", "(define-macro (lit) (list 1 2))", "(define-macro (th) '(throw 'e 1))(catch 'e (lambda () (th)) (lambda r r))(th)",
              "(define-macro (bad) (car '()))(bad)(catch #t (lambda () (bad)) (lambda r 'h))(define (u) (bad))(catch #t u (lambda r 'h2))"):
        yield PRE + e + "(show)"
    yield from sizes.templates(quick)


def check(run):
    driver.compare(run, programs(run.quick))
