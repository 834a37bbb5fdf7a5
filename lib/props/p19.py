import driver
import sizes
import gen

PRE = ("(define log '())(define fuel %d)(define n 0)(define x 1)(define k1 #f)"
       "(define (t v) (set! log (cons v log)) v)"
       "(define (use k v) (if (and k (> fuel 0)) (begin (set! fuel (- fuel 1)) (k v)) 'nofuel))"
       "(define (show) (list n x (reverse log)))(define p #f)(define p2 #f)")
H = gen.H
BODY = ["(t 'once)", "(begin (set! n (+ n 1)) (t n))", "(begin (set! n (+ n 1)) (if (> n 3) n (force p)))", "(begin (set! n (+ n 1)) (if (< n 3) (force p) (list 'v n)))", "(throw 'e n)",
        "(begin (set! n (+ n 1)) (if (< n 2) (throw 'e n) (t (list 'ok n))))", "(car n)", "(delay (t 'inner))", "(force p2)", "(list x (begin (set! x (+ x 1)) x))", "#f", "'()", "p",
        "(call/cc (lambda (k) (set! k1 k) (t 'cap)))", "(begin (set! n (+ n 1)) (let ((m n)) (if (= m 1) (begin (force p) (t (list 'outer m)) 'first) (list 'second m))))", "(dynamic-wind (lambda () (t 'in)) (lambda () 'dw) (lambda () (t 'out)))",
        "(let ((v (call/cc (lambda (k) (set! k1 k) 0)))) (set! n (+ n 1)) (list v n))", "(catch 'e (lambda () (throw 'e 'in)) (lambda a a))", "(values 1)", "(eval '(+ n 1))"]
CTX = ["%%", "(list (force p) (force p) %%)", "(let ((x 'shadow)) %%)", "(catch 'e (lambda () %%) (lambda a (t (cons 'h a))))", "(catch #t (lambda () %%) (lambda a (t 'err)))", "(begin (t 'pre) %% %%)", "(map (lambda (i) %%) '(1 2))",
       "(force (delay (list %%)))", "(let ((r %%)) (t (list 'r r)) r)", "(call/cc (lambda (k) (set! k1 k) %%))", "(if (force p) %% 'no)", "(let ((q (delay %%))) (list (force q) (force q)))"]


def programs(quick):
    pre = PRE % 2
    tail = "(show)(force p)(force p2)(use k1 'again)(force p)(show)"
    for b in BODY:
        for c in BODY:
            if c == "(force p2)":
                continue
            ds = "(set! p (delay %s))(set! p2 (delay %s))(show)" % (b, c)
            for e in CTX:
                yield pre + ds + e.replace(H, "(force p)") + tail
                if not quick or c == BODY[0]:
                    for f in CTX:
                        yield pre + ds + e.replace(H, f.replace(H, "(force p)")) + tail
                        yield pre + ds + e.replace(H, "(force p2)") + f.replace(H, "(force p)") + tail
    # creation in an environment
    for b in BODY:
        for mk in ("(let ((x 'cl)) (set! p (delay (list x %s))))", "(define (mk x) (set! p (delay (list x %s))))(mk 'arg)", "(do ((x 0 (+ x 1))) ((= x 2)) (if (= x 1) (set! p (delay (list x %s)))))",
                   "(let ((x 5)) (set! p (delay (list x %s))) (set! x 6))"):
            for c in CTX:
                yield pre + mk % b + c.replace(H, "(force p)") + tail
    # promises are values; forcing something else
    for e in ("(force 5)", "(force '())", "(force (delay (delay 1)))", "(force (force (delay (delay 1))))", "(let ((a (delay 1)) (b (delay 2))) (eq? (force a) (force b)))",
              "(define (from i) (cons i (delay (begin (t i) (from (+ i 1))))))(define s (from 0))(define (nth s k) (if (= k 0) (car s) (nth (force (cdr s)) (- k 1))))(nth s 3)(nth s 2)(nth s 4)",
              "(define r (delay (begin (set! n (+ n 1)) (if (> n x) n (force r)))))(set! x 5)(force r)(set! x 100)(force r)",
              "(define q (let ((d (list 1 2))) (delay d)))(eq? (force q) (force q))(set-car! (force q) 9)(force q)", "(map force (list (delay 1) (delay (t 2))))", "(let ((a (delay (t 1)))) (list a 1) 2)"):
        yield pre + e + tail
    # histories
    ops = ["(set! p (delay (begin (set! n (+ n 1)) (list 'p n x))))", "(set! p2 (delay (list (force p) x)))", "(t (force p2))", "(t (force p))", "(set! x (+ x 1))", "(set! p2 p)",
           "(set! p (delay (call/cc (lambda (k) (set! k1 k) (set! n (+ n 1)) n))))", "(use k1 'back)", "(set! p (delay (begin (set! n (+ n 1)) (if (< n 2) (throw 'e) n))))", "(set! p (delay (begin (set! n (+ n 1)) (if (< n 3) (list (force p)) n))))"]
    pre2 = pre + "(set! p (delay 0))(set! p2 (delay 00))"
    for s in gen.seqs(ops, 4 if quick else 6, 2):
        yield pre2 + "".join(s) + "(show)(force p)(force p2)(show)"
    yield from sizes.promises(quick)


def check(run):
    driver.compare(run, programs(run.quick))
