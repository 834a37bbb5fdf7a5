"""P24: a call in tail position takes no stack.  Every composition of tail contexts is the body of a loop; how far down
the stack each iteration runs is measured: once the stack is the same after n and after 2n rounds, it stays so for ever."""
import itertools
import driver
from gen import H
from p21 import hist

PRE = ["Rh:mark mark 1 0 0", "Rh:flat flat 2 0 0",
       "S(begin (define-macro (same x) x) (define-macro (wrapped x) `(if #t ,x 'no)) (define-macro (twice x) `(same (begin 1 (same ,x)))) (define-macro (bound v x) `(let ((,v 3)) ,x)) 'ok)"]
TAIL = ["%%", "(if #t %%)", "(if n %% 1)", "(if #f 1 %%)", "(cond (#f 1) (#t %%))", "(cond (#t 1 %%) (else 2))", "(cond (#f 1) (else %%))", "(cond (else 1 %%))", "(cond (n => (lambda (m) %%)))", "(case (car '(a)) ((b) 1) ((c a) %%))", "(case n ((99) 1) (else 2 %%))",
        "(and 1 n %%)", "(and %%)", "(or #f %%)", "(or %%)", "(let () %%)", "(let ((m n)) %%)", "(let ((n n) (m 1)) (+ n m) %%)", "(let* ((m n) (n m)) %%)", "(let* () %%)", "(letrec ((m 1)) 1 %%)", "(letrec ((l (lambda (m) %%))) (l 1))",
        "(let again ((i 1)) (if (> i 0) (again (- i 1)) %%))", "(let again ((i 1)) %%)", "(begin %%)", "(begin 1 (car '(2)) %%)", "(do () (#t %%))", "(do ((i 0 (+ i 1))) ((= i 2) i %%) i)", "((lambda () %%))", "((lambda (n m) n %%) n 2)", "((lambda r %%) 1 2)", "((lambda (m . r) %%) 1)",
        "(same %%)", "(wrapped %%)", "(twice %%)", "(bound m %%)", "(let () (define (l m) %%) (l 1))", "((lambda () (define m 1) (set! m 2) %%))", "((car (list (lambda () %%))))", "(let ((t (lambda () %%))) (t))"]
NEXT = "(- n 1) (+ acc n)"
CALLS = ["(f %s)", "(g %s)", "((car fs) %s)", "((if (even? n) f g) %s)", "(let ((k f)) (k %s))", "(r %s 'more 'yet)", "(c %s (lambda (a b) (f a b)))", "(acc-of %s)", "((mk f) %s)", "(mod-f %s)"]
DEFS = ("S(begin (define fs #f) (define (g a b) (f a b)) (define (r a b . l) (if (null? l) 'no (f a b))) (define (c a b k) (k a b)) (define acc-of (lambda l (f (car l) (cadr l)))) (define (mk h) (lambda (a b) (h a b)))"
        " (define mod-f (let ((count 0)) (lambda (a b) (set! count (+ count 1)) (f a b)))) 'ok)")
N = 40


def loop(body, call=0, other=None):
    """the loop with that body; other: the body of a second procedure, the two call each other"""
    nx = CALLS[call] % NEXT
    if other is None:
        d = "(define (f n acc) (h:mark n) (if (= n 0) acc %s))" % body.replace(H, nx)
    else:
        d = "(define (f n acc) (h:mark n) (if (= n 0) acc %s)) (define (f2 n acc) (if (= n 0) acc %s))" % (body.replace(H, "(f2 %s)" % NEXT), other.replace(H, nx))
    return hist(*PRE, DEFS, "S(begin %s (set! fs (list f g)) 'ok)" % d, "S(f %d 0)" % N, "S(h:flat 4 36)")


WHERE = ["S(let ((v %s)) v)", "S(catch #t (lambda () %s) (lambda r r))", "S(dynamic-wind (lambda () 1) (lambda () %s) (lambda () 2))", "S(map (lambda (x) %s) '(1 2))", "S(call/cc (lambda (k) %s))", "S(eval '%s)", "S(apply f '(40 0))", "S(force (delay %s))",
         "S(call-with-values (lambda () %s) list)", "S(begin (define x %s) x)", "E%s", "S(list `(,%s))"]


def programs(level):
    for b in TAIL:
        for c in range(len(CALLS)):
            yield loop(b, c)
        for w in WHERE:
            for c in (0, 1):
                yield hist(*PRE, DEFS, "S(begin (define (f n acc) (h:mark n) (if (= n 0) acc %s)) (set! fs (list f g)) 'ok)" % b.replace(H, CALLS[c] % NEXT), w.replace("%s", "(f %d 0)" % N), "S(h:flat 4 36)", w.replace("%s", "(f %d 1)" % N), "S(h:flat 4 36)")
        # named let, a loop without procedures of its own
        yield hist(*PRE, "S(let f ((n %d) (acc 0)) (h:mark n) (if (= n 0) acc %s))" % (N, b.replace(H, "(f %s)" % NEXT)), "S(h:flat 4 36)")
        # in a module
        yield hist(*PRE, "Ms (m)", "S(begin (define-macro (same x) x) (define-macro (wrapped x) `(if #t ,x 'no)) (define-macro (twice x) `(same (begin 1 (same ,x)))) (define-macro (bound v x) `(let ((,v 3)) ,x)) 'ok)", DEFS,
                   "S(begin (define (f n acc) (h:mark n) (if (= n 0) acc %s)) 'ok)" % b.replace(H, "(f %s)" % NEXT), "S(f %d 0)" % N, "S(h:flat 4 36)")
        for c in TAIL:
            n = b.replace(H, c)
            for k in range(len(CALLS)) if level else (0,):
                yield loop(n, k)
                yield loop(b, k, c)
            if level > 1:
                for d in TAIL:
                    yield loop(n.replace(H, d))
                    yield loop(n, 0, d)
    # three and more procedures, state machines: every transition is a tail call
    T4 = TAIL if level else TAIL[:12]
    for a, b in itertools.product(T4, TAIL):
        yield hist(*PRE, "S(begin (define (p n acc) (h:mark n) (if (= n 0) acc %s)) (define (q n acc) %s) (define (s n acc) (if (odd? n) (q n acc) (p (- n 1) (+ acc n)))) 'ok)"
                   % (a.replace(H, "(s n acc)"), b.replace(H, "(p %s)" % NEXT)), "S(p %d 0)" % N, "S(h:flat 4 36)")


def check(run):
    driver.compare(run, programs(1 if run.quick else 2))
