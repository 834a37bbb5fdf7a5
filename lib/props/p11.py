import driver
import gen

PRE = ("(define v (vector 'a 'b 'c))(define w (make-vector 2 'f))(define u (list->vector '(1 2)))(define e (vector))(define s '(p q))(define nest (vector v (list v) 0))"
       "(define (cont x) (let lp ((i 0) (acc '())) (if (< i (vector-length x)) (lp (+ i 1) (cons (vector-ref x i) acc)) (reverse acc))))"
       "(define (show) (list (cont v) (cont w) (cont u) (cont e) s (vector-length v) (vector-length w) (vector->list u) (vector->list v) (eq? v w) (eq? (vector-ref nest 0) v) (vector? v)))(define tmp #f)")
ERR = "(catch #t (lambda () %%) (lambda r 'err))"
IDX = ["-1", "0", "1", "2", "3"]
# steps of a history
STEP = (["(vector-set! v %s 'n)" % i for i in IDX] + ["(vector-set! w %s (list 1 2))" % i for i in ("0", "1", "2")] + ["(vector-set! u 0 v)", "(vector-set! u 1 (vector-ref u 0))", "(set! u (list->vector (vector->list v)))", "(set! s (vector->list v))",
        "(set! u v)", "(set! w (make-vector 3 (list 'sh)))", "(set-car! s 'mut)", "(set! u (list->vector s))", "(set! v (vector v (vector-ref v 0)))", "(set! w (make-vector 0 'z))", "(set! w (apply vector s))", "(vector-set! (vector-ref nest 0) 0 'via)", "(vector-set! e 0 'x)", "(set! v (vector))",
        "(set-cdr! s (list 'r v))", "(set! v '#(k l))", "(vector-set! v (- (vector-length v) 1) 'last)", "(set! w (make-vector 4))", "(set! w `#(0 ,@s ,v))", "(if (pair? (vector-ref w 0)) (set-car! (vector-ref w 0) 'inw))", "(set! tmp (cont v))"])
VAL = ["0", "-7", "1.5", "1/2", "#t", "#f", "'()", "'sym", "\"str\"", "#\\a", "'(1 . 2)", "'(1 2)", "(vector)", "(vector 1)", "car", "(lambda (x) x)", "(make-hash-table)", "(delay 1)", "(make-variable 1)", "(string-append \"a\" \"b\")"]
BADI = ["-1", "0", "1", "2", "3", "1.5", "1/2", "'a", "\"0\"", "#\\0", "'()", "#f", "(vector)", "4294967296", "-4294967296", "9223372036854775807", "(- 0 9223372036854775807)"]


def programs(quick):
    # histories
    for h in gen.seqs(STEP, 2 if quick else 3):
        yield PRE + "".join(ERR.replace(gen.H, x) + "(show)" for x in h)
    if quick:
        for h in gen.seqs(STEP[:16], 3, 3):
            yield PRE + "".join(ERR.replace(gen.H, x) for x in h) + "(show)"
    # every length, every index, every kind of value
    for n in list(range(0, 20 if quick else 70)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 5000]:
        lst = "(let lp ((i 0) (acc '())) (if (< i %d) (lp (+ i 1) (cons i acc)) (reverse acc)))" % n
        yield PRE + "(define l %s)(define x (list->vector l))(define y (make-vector %d 'f))(define z (apply vector l))(list (vector-length x) (vector-length y) (vector-length z))(equal? (vector->list x) l)(equal? (vector->list z) l)(equal? x z)(eq? x z)" % (lst, n) + \
            "(do ((i 0 (+ i 1))) ((= i %d)) (vector-set! y i (* i i)))(apply + (vector->list y))(apply + (vector->list x))" % n + ERR.replace(gen.H, "(vector-ref x %d)" % n) + ERR.replace(gen.H, "(vector-set! x %d 0)" % n) + "(equal? x (list->vector l))(equal? x y)(length (vector->list x))"
        for i in range(0, n, 1 if n < 20 else 7):
            if n <= 300:
                yield "(define l %s)(define x (list->vector l))(define y (make-vector %d 'f))(vector-set! x %d 'X)(vector-set! y %d x)(vector->list x)(eq? (vector-ref y %d) x)(vector-ref x %d)l(vector-set! x 0 y)(eq? (vector-ref x 0) y)(vector-length y)" % (lst, n, i, i, i, i)
    for a in VAL:
        yield PRE + "(define q %s)(vector-set! v 1 q)(eqv? (vector-ref v 1) q)(define w2 (make-vector 3 q))(eqv? (vector-ref w2 2) q)(define w3 (vector q q))(eqv? (vector-ref w3 0) (vector-ref w3 1))(eqv? (car (vector->list w3)) q)(eqv? (vector-ref (list->vector (list 1 q)) 1) q)(show2)(vector-length w2)(vector? q)" % a
        yield PRE + "(define w2 (make-vector 3 %s))(vector-set! w2 1 'k)(list (vector-ref w2 1) (eqv? (vector-ref w2 0) (vector-ref w2 2)))" % a
        for op in ("(vector-ref %% 0)", "(vector-set! %% 0 1)", "(vector-length %%)", "(vector->list %%)", "(list->vector %%)", "(make-vector %% 0)", "(make-vector %%)", "(vector-ref v %%)", "(vector-set! v %% 0)", "(list->vector (cons 1 %%))", "(vector? %%)", "(apply vector %%)"):
            if op.startswith("(make-vector") and a.startswith("1") and a != "1":
                pass
            yield PRE + ERR.replace(gen.H, op.replace(gen.H, a)) + "(show)"
    for i in BADI:
        for op in ("(vector-ref v %%)", "(vector-set! v %% 'z)", "(vector-ref e %%)", "(vector-set! e %% 'z)", "(vector-ref w (- %% 1))"):
            yield PRE + ERR.replace(gen.H, op.replace(gen.H, i)) + "(show)"
    for op in ("vector-ref", "vector-set!", "vector-length", "vector->list", "list->vector", "make-vector", "vector?"):
        for args in gen.seqs(["v", "0", "'()", "'z"], 4, 0):
            if op == "make-vector" and args[:1] == ("v",) or len(args) < 4 or op == "vector-set!":
                yield PRE + ERR.replace(gen.H, "(" + op + " " + " ".join(args) + ")") + "(show)"
    # sharing and traversals
    for mk in ("(vector 1 2 3)", "(list->vector (list 1 2 3))", "(make-vector 3 0)", "`#(1 ,x 3)", "(apply vector (list 1 2 3))", "(list->vector (vector->list (vector 1 2 3)))", "(vector (vector 1) 2 3)"):
        p = "(define x 9)(define (mk) %s)(define a (mk))(define b (mk))(define c a)" % mk
        for i in "012":
            yield p + "(vector-set! a %s 'A)(list a b c (eq? a b) (eq? a c) (equal? a b))(vector-set! b %s 'A)(list a b c (equal? a b))" % (i, i)
            yield p + "(define l (vector->list a))(vector-set! a %s 'A)l(set-car! l 'M)a(define d (list->vector l))(vector-set! d %s 'D)l(set-car! (cdr l) 'N)d" % (i, i)
            yield p + "(define l (list a b))(map (lambda (z) (vector-set! z %s (list 'in z2))) l)l(map (lambda (z) (vector-set! z %s 'in) (vector-length z)) l)l(for-each (lambda (z k) (vector-set! z %s k)) l '(5 6))(list a b)" % (i, i, i)
        yield p + "(define k #f)(define n 0)(vector-set! a 1 (call/cc (lambda (c) (set! k c) 'first)))(set! n (+ n 1))(list n a b)(if (< n 3) (k (list n)))(list n a b)"
    # a small program class: sorting, reversing, matrix access over all permutations
    import itertools
    for n in (3, 4, 5) if quick else (3, 4, 5, 6):
        for p in itertools.permutations(range(n)):
            yield ("(define v (vector %s))(define (swap! i j) (let ((t (vector-ref v i))) (vector-set! v i (vector-ref v j)) (vector-set! v j t)))(do ((i 0 (+ i 1))) ((= i %d)) (do ((j 0 (+ j 1))) ((= j %d)) (if (> (vector-ref v j) (vector-ref v (+ j 1))) (swap! j (+ j 1)))))v"
                   "(define r (make-vector %d 0))(do ((i 0 (+ i 1))) ((= i %d)) (vector-set! r (- %d i) (vector-ref v i)))r(list v r (vector->list r))") % (" ".join(map(str, p)), n, n - 1, n, n, n - 1)
    for r in range(1, 4):
        for c in range(1, 4):
            yield "(define (mat r c) (let ((m (make-vector r #f))) (do ((i 0 (+ i 1))) ((= i r) m) (vector-set! m i (make-vector c 0)))))(define m (mat %d %d))(do ((i 0 (+ i 1))) ((= i %d)) (do ((j 0 (+ j 1))) ((= j %d)) (vector-set! (vector-ref m i) j (+ (* 10 i) j))))m(define sh (make-vector %d (make-vector %d 0)))(vector-set! (vector-ref sh 0) 0 1)sh" % (r, c, r, c, r, c)


def check(run):
    driver.compare(run, programs(run.quick))
