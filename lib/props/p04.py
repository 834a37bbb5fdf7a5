import driver
import sizes
import gen

PRE = ("(define log '())(define fuel %d)(define k1 #f)(define n 0)"
       "(define (t v) (set! log (cons v log)) v)"
       "(define (use k v) (if (and k (> fuel 0)) (begin (set! fuel (- fuel 1)) (k v)) 'nofuel))"
       "(define (deep n th) (if (= n 0) (th) (let ((r (deep (- n 1) th))) (t (list 'ret n)) r)))"
       "(define (show) (reverse log))")
H = gen.H
WR = ["(catch 'a (lambda () %%) (lambda x (t (cons 'ha x))))", "(catch 'b (lambda () (t 'inb) %%) (lambda (k . r) (t (list 'hb k r))))", "(catch #t (lambda () %%) (lambda x (t (list 'hall (car x)))))",
      "(catch 'error (lambda () %%) (lambda x (t 'herr)))", "(catch 'a (lambda () %%) (lambda (k . r) (t 're) (throw k 'again r)))", "(catch 'a (lambda () %%) (lambda x (throw 'b (car x))))",
      "(catch 'b (lambda () (catch 'a (lambda () (throw 'a)) (lambda x (t 'done))) %%) (lambda x (t (cons 'h2 x))))",
      "(list 'l %% (t 'after))", "(let ((v %%)) (t (list 'v v)) v)", "(deep 3 (lambda () %%))", "(map (lambda (i) (catch 'a (lambda () (list i %%)) (lambda x (list i 'caught)))) '(1 2 3))",
      "(for-each (lambda (i) (t (list 'fe i)) %%) '(1 2))", "(dynamic-wind (lambda () (t 'in)) (lambda () %%) (lambda () (t 'out)))", "(call/cc (lambda (k) (catch 'a (lambda () %%) (lambda x (k (list 'esc x))))))",
      "(call/cc (lambda (k) (catch 'a (lambda () (k %%)) (lambda x 'never))))", "(apply (lambda r %%) '(1 2))", "(force (delay %%))", "(eval '%%)",
      "(catch 'a (lambda () (call-with-output-string (lambda (p) (display 'x p) %%))) (lambda x (t 'cws)))", "(or (catch 'b (lambda () %% #f) (lambda x #f)) (t 'orelse))",
      "(catch 'nomatch (lambda () %%) (lambda x (t 'wrong)))", "(begin (catch #t (lambda () (car 1)) (lambda x (t 'ign))) %%)"]
ACT = ["(throw 'a)", "(throw 'a 1 '(2) \"s\")", "(throw 'b 'x)", "(throw 'zz 1)", "(car 5)", "(undefined-variable)", "((lambda (x) x))", "(vector-ref (vector 1) 9)", "(t 'fine)", "(begin (set! k1 (call/cc (lambda (k) k))) (throw 'a k1))",
       "(call/cc (lambda (k) (set! k1 k) (throw 'b 1)))", "(list (call/cc (lambda (k) (set! k1 k) 'c)) (throw 'a 'late))", "(throw 'a (t 'arg1) (t 'arg2))", "(error-not-defined \"boo\" 1 2)", "(throw (t 'b) (throw 'a 'first))", "(string-append \"a\" 5)", "(throw 'error \"own\")"]
TAIL = "(show)(catch 'a (lambda () (throw 'a 'post)) (lambda x (t x)))(catch 'b (lambda () (throw 'b 'post)) (lambda x (t x)))(throw 'a)(show)"


def programs(quick):
    pre = PRE % 2
    for d in (0, 1, 2):
        for e in gen.nest(WR, ACT, d):
            yield pre + e + TAIL
    for e in gen.nest(WR, ACT if not quick else ACT[:4] + ACT[4:5], 3):
        yield pre + e + TAIL
    if not quick:
        for e in gen.nest(WR[:14], ACT[:4], 4):
            yield pre + e + TAIL
    for e in gen.nest(WR, ACT[9:12], 2):
        yield pre + e + "(show)(use k1 'r1)(show)(catch 'a (lambda () (use k1 'r2)) (lambda x (t 'outer)))(show)" + TAIL
    # many catches, throws from every level to every level
    for n in range(1, 8):
        for m in range(1, n + 1):
            for leaf in ("(throw 'k%d 'arg)" % m, "(begin (catch 'k%d (lambda () (throw 'k%d)) (lambda x (t 'inner))) (throw 'k%d 'second))" % (m, m, m), "(car %d)" % m):
                e = leaf
                for i in range(n, 0, -1):
                    e = "(catch 'k%d (lambda () (list %d %s)) (lambda x (t (list 'h%d x)) (if (< n 3) (begin (set! n (+ n 1)) (throw 'k%d n)) 'stop)))" % (i, i, e, i, max(1, i - 1))
                yield pre + "(catch #t (lambda () " + e + ") (lambda x (t (list 'top x))))" + TAIL
    # long histories of caught and uncaught throws: the handler set must not drift
    pre = PRE % 3
    ops = ["(catch 'a (lambda () (throw 'a 1)) (lambda x (t x)))", "(throw 'a 'un)", "(catch 'a (lambda () (throw 'b 1)) (lambda x (t 'wrong)))", "(catch 'b (lambda () (catch 'a (lambda () (throw 'b)) list)) (lambda x (t 'okb)))",
           "(catch #t (lambda () (car 1)) (lambda x (t 'err)))", "(t (catch 'a (lambda () (call/cc (lambda (k) (set! k1 k) 'cap))) (lambda x 'h)))", "(use k1 'back)", "(catch 'b (lambda () (use k1 'b2) (throw 'b 'nf)) (lambda x (t 'hb)))",
           "(t (call/cc (lambda (k) (catch 'a (lambda () (k 'out)) (lambda x 'h)))))", "(t (catch 'a (lambda () (call/cc (lambda (k) (set! k1 k) 0)) (throw 'a 'thr)) (lambda x x)))"]
    for s in gen.seqs(ops, 4 if quick else 6, 2):
        yield pre + "".join(s) + TAIL
    # more failures than any fixed table holds
    for n in (99, 100, 101, 250, 1000) if quick else (99, 100, 101, 102, 127, 128, 129, 250, 255, 256, 257, 1000, 3000):
        for body in ("(catch 'a (lambda () (throw 'a i)) (lambda x (set! n (+ n 1))))", "(catch 'a (lambda () (catch 'b (lambda () (throw 'a i)) (lambda x (t 'bad)))) (lambda x (set! n (+ n 1))))",
                     "(catch #t (lambda () (car i)) (lambda x (set! n (+ n 1))))", "(call/cc (lambda (k) (catch 'a (lambda () (k 1)) (lambda x (t 'bad)))))",
                     "(catch 'a (lambda () (dynamic-wind (lambda () 1) (lambda () (throw 'a)) (lambda () (set! n (+ n 1))))) (lambda x 1))"):
            yield PRE % 1 + "(do ((i 0 (+ i 1))) ((= i %d)) %s)n" % (n, body) + TAIL
    for n in (10, 50, 90, 98, 99, 100, 101, 150, 300):
        yield PRE % 1 + "(define (nest i) (if (= i 0) (throw 'a 'bottom) (catch 'b (lambda () (nest (- i 1))) (lambda x (t 'bad)))))(catch 'a (lambda () (nest %d)) (lambda x (t x)))" % n + TAIL
    # keys match by identity of the symbol, whatever the names look like
    names = ["e", "ex", "exx", "x", "xe", "E", "e1", "e-x", "error", "err", "errors", "misc", "misc-error", "quote", "|e|", "t", "true"]
    names = [n for n in names if n[0] != "|"]
    for a in names:
        for b in names:
            for c in names:
                yield "(catch '%s (lambda () (catch '%s (lambda () (throw '%s 1)) (lambda r (cons 'inner r)))) (lambda r (cons 'outer r)))" % (b, a, c)
            yield "(catch #t (lambda () (catch '%s (lambda () (throw '%s 1)) (lambda r (cons 'inner r)))) (lambda r (cons 'outer r)))(throw '%s)(catch '%s (lambda () (car 5)) (lambda r 'h))" % (a, b, b, a)
            yield "(catch (string->symbol \"%s\") (lambda () (throw (string->symbol (string-append \"%s\" \"\")) 'v)) list)" % (a, b)
    yield from sizes.catches(quick)


def check(run):
    driver.compare(run, programs(run.quick))
