import itertools
import driver
import gen

ERR = "(catch #t (lambda () %%) (lambda r 'err))"
EL = ["'a", "1", "\"s\"", "'()", "(list 'a)", "#f"]


def shapes(elems, maxlen, tails=("'()",)):
    """expressions that build every list over elems up to maxlen with every tail"""
    for n in range(maxlen + 1):
        for es in itertools.product(elems, repeat=n):
            for t in tails:
                r = t
                for e in reversed(es):
                    r = "(cons %s %s)" % (e, r)
                yield r


NONL = ["'sym", "7", "\"str\"", "#t", "#f", "(vector 1 2)", "#\\c", "car", "1.5", "(lambda (x) x)", "(make-hash-table)", "(delay 1)"]
UN = ["car", "cdr", "cadr", "cddr", "caddr", "length", "reverse", "last-pair", "list?", "pair?", "null?", "list", "(lambda (l) (append l))", "(lambda (l) (append l '(z)))", "(lambda (l) (append '(z) l))", "(lambda (l) (append l l))", "(lambda (l) (append '() l '()))", "(lambda (l) (append l 'tail))", "(lambda (l) (cons l l))",
      "(lambda (l) (apply list l))", "(lambda (l) (map (lambda (x) x) l))", "(lambda (l) (let ((n 0)) (for-each (lambda (x) (set! n (+ n 1))) l) n))", "(lambda (l) (equal? l (reverse (reverse l))))", "(lambda (l) (list->vector l))", "(lambda (l) (append l '(1 . 2)))"]
IDX = ["-1", "0", "1", "2", "3", "4"]
IDXF = ["(lambda (l k) (list-head l k))", "(lambda (l k) (list-tail l k))", "(lambda (l k) (list-ref l k))", "(lambda (l k) (append (list-head l k) (list-tail l k)))"]
KEYS = ["'a", "'b", "1", "2", "1.5", "\"s\"", "\"t\"", "(list 'a)", "(list 1 2)", "'()", "#\\a", "#f", "#t", "(vector 1)", "(vector)", "car", "'(1 . 2)"]
MEM = ["memq", "memv", "member"]
ASS = ["assq", "assv", "assoc", "(lambda (k l) (assoc-ref l k))"]


def programs(quick):
    tails = ["'()", "'t", "5", "\"s\""]
    L3 = list(shapes(["'a", "1", "(list 'b 2)"], 3, tails)) + list(shapes(EL, 2, ["'()"])) + list(shapes(["'a"], 8)) + ["'(1 2 . 3)", "'((1 . 2) . (3 . 4))", "'(quote x)", "'(1 quote x)", "(cons 1 (quote (quote a)))"] + NONL
    if not quick:
        L3 += list(shapes(EL, 4, ["'()", "'t"]))
    for l in L3:
        # two groups of operations per program
        for i in range(0, len(UN), 6):
            yield "(define l %s)" % l + "".join(ERR.replace(gen.H, "(%s l)" % f) for f in UN[i:i + 6]) + "l"
        for f in IDXF:
            yield "(define l %s)" % l + "".join(ERR.replace(gen.H, "(%s l %s)" % (f, k)) for k in IDX) + "l"
    for l in ("(list 1 2 3)", "'()", "'(1 2 . 3)"):
        for f in IDXF:
            for k in ["1.5", "'a", "\"1\"", "#f", "'()", "4294967297", "9223372036854775807", "(- 0 9223372036854775807)", "1/2", "#\\1"]:
                yield "(define l %s)" % l + ERR.replace(gen.H, "(%s l %s)" % (f, k)) + "l"
    # append of all combinations
    A = ["'()", "(list 1)", "(list 'x 'y)", "'(1 . 2)", "'z", "(list '() 3)"]
    for n in range(0, 5 if quick else 6):
        for xs in itertools.product(A, repeat=n):
            yield ERR.replace(gen.H, "(append %s)" % " ".join(xs))
    # sharing: the last argument of append, the tails; nothing else
    for n in range(1, 4):
        for xs in itertools.product(["(list 1 2)", "(list 3)", "'()"], repeat=n):
            names = ["p%d" % i for i in range(n)]
            d = "".join("(define %s %s)" % z for z in zip(names, xs))
            m = "".join("(if (pair? %s) (set-car! %s '%s))" % (x, x, x) for x in names)
            yield d + "(define r (append %s))r(list %s)" % (" ".join(names), " ".join(names)) + m + "r(list %s)" % " ".join(names)
            yield d + "(define r (append %s))(if (pair? r) (set-car! r 'M))(if (and (pair? r) (pair? (cdr r))) (set-car! (cdr r) 'N))r(list %s)" % (" ".join(names), " ".join(names))
    MUT = ["(set-car! l 'c)", "(set-cdr! l 'd)", "(set-cdr! l '())", "(set-cdr! l (list 8 9))", "(set-car! (cdr l) 'e)", "(set-cdr! (cdr l) 'f)", "(set-cdr! (cdr l) (list 7))", "(set-car! l l2)", "(set-cdr! l l2)", "(set-car! r 'g)", "(set-cdr! r 'h)", "(set-cdr! r (list 6))", "(set-cdr! (last-pair l) (list 'end))",
           "(set-cdr! (last-pair l) 'dot)", "(set-car! l2 'i)", "(set-cdr! l2 '())", "(set! r (cons 'p l))", "(set! r (cdr l))", "(set! r (list-tail l 2))", "(set! r (append r l2))", "(set! r (memq 'm l))", "(set! r (reverse l))", "(set! r (list-head l 2))", "(set! r l)", "(set! l (cdr l))", "(set! l2 (cons l l2))"]
    obs = "(list l l2 r (eq? l r) (list? l) (list? r) (catch #t (lambda () (length l)) (lambda e 'err)) (pair? r) (null? r) (equal? l r))"
    for h in gen.seqs(MUT, 2 if quick else 3):
        for start in ("(list 1 'm 3)",) if len(h) == 3 else ("(list 1 'm 3)", "(list 'm)", "'(1 . 2)", "(cons 1 (cons 'm 5))"):
            if "(set-car! l l2)" in h and ("(set! l2 (cons l l2))" in h):
                continue
            yield "(define l2 (list 'x 'y))(define l %s)(define r '())" % start + "".join(ERR.replace(gen.H, x) for x in h) + obs
    if quick:
        for h in gen.seqs(MUT[:16:2] + MUT[16::2], 3, 3):
            yield "(define l2 (list 'x 'y))(define l (list 1 'm 3))(define r '())" + "".join(ERR.replace(gen.H, x) for x in h) + obs
    # identity of parts
    for sel in ("(cdr l)", "(cddr l)", "(list-tail l 1)", "(memq 'm l)", "(memv 'm l)", "(member 'm l)", "(cdr (cons 0 l))", "(car (list l))", "(append l)", "(append '() l)", "(last-pair l)", "(cdr (append '(1) l))", "(car l)", "(assq 'k al)", "(car al)", "(assoc 'k al)", "(assv 'k al)", "(list-ref al 0)", "(car (list-tail al 0))"):
        for sel2 in ("(cdr l)", "(cddr l)", "(list-tail l 1)", "(memq 'm l)", "(member 'm l)", "l", "(car (list l))", "(last-pair l)", "(car al)", "(assq 'k al)", "(assoc 'k al)", "(list-tail l 2)", "(cdr (cdr l))"):
            yield "(define l (list 'z 'm 'q))(define al (list (list 'k 1) (list 'j 2)))(list (eq? %s %s) (eqv? %s %s) (equal? %s %s))" % ((sel, sel2) * 3)
            yield "(define l (list 'z 'm 'q))(define al (list (list 'k 1) (list 'j 2)))(define x %s)(define y %s)(list (eq? x y) (if (memq x (list 1 y 2)) #t #f) (if (assq x (list (cons y 1))) #t #f) (eq? (car (list x)) x) (eq? (vector-ref (vector y) 0) y))(if (pair? x) (begin (set-car! x 'MUT) (list l al y)))" % (sel, sel2)
    # membership and association
    for k in KEYS:
        for n in (0, 1, 2):
            for es in itertools.product(KEYS, repeat=n):
                if quick and n == 2 and k not in es and (KEYS.index(es[0]) + KEYS.index(es[1]) + KEYS.index(k)) % 3:
                    continue
                yield "(define k %s)(define l (list %s))" % (k, " ".join(es)) + "".join(ERR.replace(gen.H, "(%s k l)" % f) for f in MEM) + "".join(ERR.replace(gen.H, "(%s k l)" % f) for f in ["(lambda (k l) (member k (append l (list k))))"]) + "l"
                al = " ".join("(cons %s 'v%d)" % (e, i) for i, e in enumerate(es))
                yield "(define k %s)(define l (list %s))" % (k, al) + "".join(ERR.replace(gen.H, "(%s k l)" % f) for f in ASS) + "l"
    for f in MEM + ASS[:3]:
        for l in NONL + ["'(1 . 2)", "'((a . 1) . 2)", "'(b a . c)"]:
            for k in ("'a", "9", "(list 1)"):
                yield ERR.replace(gen.H, "(%s %s %s)" % (f, k, l))
    # values of every shape in association lists
    VALS = ["1", "'()", "'(1)", "'(1 2)", "'(1 . 2)", "#f", "(vector 1)", "\"s\"", "'((a . 1))", "car"]
    for v in VALS:
        for v2 in VALS:
            yield "(define l (list (cons 'a %s) (cons 'b %s) (cons 'a 'late)))(assoc-ref l 'a)(assoc-ref l 'b)(assoc-ref l 'c)(assq 'b l)(assoc 'a l)(acons 'a %s l)(define m (assoc-set! l 'b %s))m(assoc-ref m 'b)(assoc-ref (assoc-set! l 'd %s) 'd)(assoc-remove! l 'a)" % (v, v2, v, v, v2)
    # histories of association-list updates
    OPS = ["(set! l (acons 'a N l))", "(set! l (acons \"s\" N l))", "(set! l (assoc-set! l 'a N))", "(set! l (assoc-set! l 'b (list N)))", "(set! l (assq-set! l 'a N))", "(set! l (assq-set! l 'c (cons N N)))", "(set! l (assoc-set! l \"s\" N))", "(set! l (assoc-set! l '(1 2) N))", "(set! l (assoc-remove! l 'a))", "(set! l (assoc-remove! l \"s\"))", "(set! l (assoc-remove! l 'b))",
           "(set! l (assoc-remove! l '(1 2)))", "(set! l (acons '(1 2) N l))", "(set! l (assoc-set! l 2 N))", "(set! l (cons 'nopair l))"]
    ob = "(list l (length l) (assoc-ref l 'a) (assoc-ref l \"s\") (assoc-ref l '(1 2)) (assq 'b l) (assoc 'c l) (assv 2 l))"
    for h in gen.seqs(OPS, 3 if quick else 5):
        if "(set! l (cons 'nopair l))" in h[1:]:
            continue
        yield "(define l '())" + "".join(x.replace("N", str(i)) for i, x in enumerate(h)) + ob
    for al in NONL + ["'(1 . 2)", "'((a . 1) . 2)", "'(x (a . 1))"]:
        for f in ("(assoc-set! %% 'a 1)", "(assq-set! %% 'a 1)", "(assoc-remove! %% 'a)", "(assoc-ref %% 'a)", "(assoc-set! %% 'q 1)", "(assoc-remove! %% 'q)"):
            yield ERR.replace(gen.H, f.replace(gen.H, al))
    # arities
    for f in ("car", "cdr", "cadr", "cons", "length", "reverse", "list-head", "list-tail", "list-ref", "set-car!", "set-cdr!", "last-pair", "memq", "memv", "member", "assq", "assv", "assoc", "acons", "assoc-ref", "assoc-set!", "assq-set!", "assoc-remove!", "list?", "pair?", "null?", "append", "list"):
        for n in range(0, 5):
            yield ERR.replace(gen.H, "(%s %s)" % (f, " ".join(["'((a . 1))", "'((b . 2))", "'((c . 3))", "'d"][:n])))
    # long lists
    for n in (10, 100, 999, 1000, 1001, 4096, 9999, 10000, 10001, 20000) if quick else (10, 100, 999, 1000, 1001, 4096, 9999, 10000, 10001, 20000, 50000):
        if n <= 20000:
            yield "(define (mk n) (let ((l '())) (do ((i 0 (+ i 1))) ((= i n) l) (set! l (cons i l)))))(define l (mk %d))(length l)(list? l)(car (reverse l))(list-ref l %d)(length (append l l))(car (last-pair l))(length (list-tail l 7))(length (list-head l 9))(equal? l (reverse (reverse l)))(car (memv 0 l))(equal? l (append l '()))(pair? (member 3 l))" % (n, n - 1)


def check(run):
    driver.compare(run, programs(run.quick))
