import driver
import sizes
import gen

PRE = ("(define log '())(define fuel %d)(define k1 #f)(define k2 #f)(define q 0)"
       "(define (t v) (set! log (cons v log)) v)"
       "(define (w n th) (dynamic-wind (lambda () (t (list 'in n))) th (lambda () (t (list 'out n)))))"
       "(define (use k v) (if (and k (> fuel 0)) (begin (set! fuel (- fuel 1)) (k v)) 'nofuel))"
       "(define (show) (reverse log))")

# nestings: what surrounds a point of the program
WR = ["(w 'A (lambda () %%))", "(w 'B (lambda () (t 'b0) %% (t 'b1)))", "(catch 'e (lambda () %%) (lambda a (t (cons 'h a))))", "(catch #t (lambda () (t 'ct) %%) (lambda a (t 'any)))",
      "(let ((r %%)) (t (list 'r r)) r)", "(call/cc (lambda (k) (set! k2 k) %%))",
      "(dynamic-wind (lambda () (t 'i0)) (lambda () (dynamic-wind (lambda () (t 'i1)) (lambda () %%) (lambda () (t 'o1)))) (lambda () (t 'o0)))",
      "(begin (w 'S (lambda () (t 's))) %%)", "(map (lambda (i) (w i (lambda () %%))) '(1 2))",
      "(let loop ((n 2)) (if (> n 0) (w n (lambda () (loop (- n 1)))) %%))"]
# what happens at the innermost point
ACT = ["(t 'body)", "(call/cc (lambda (k) (set! k1 k) 'cap))", "(use k1 'j1)", "(use k2 'j2)", "(throw 'e 1 2)", "(throw 'other 3)", "(car '())", "(no-such-variable)",
       "(begin (call/cc (lambda (k) (set! k1 k) 'c)) (use k2 'x))", "(begin (call/cc (lambda (k) (set! k1 k) 'c)) (throw 'e 'after))"]
# guards that do things themselves
GUARDS = ["(lambda () (t '%s))", "(lambda () (w 'G%s (lambda () (t 'g%s))))", "(lambda () (catch 'e (lambda () (throw 'e '%s)) (lambda a (t a))))", "(lambda () (set! q (+ q 1)) (t (list '%s q)))",
          "(lambda () (t '%s) (throw 'e 'guard))", "(lambda () (t '%s) (use k2 'guardjump))", "(lambda () (call/cc (lambda (k) (t '%s) (k 0))))"]
TAIL = "(show)(use k1 'again)(show)(t (list 'T (use k1 'thrice)))(show)(w 'Z (lambda () (use k2 'z)))(show)"


def programs(quick):
    pre = PRE % 2
    for d in (0, 1, 2):
        for e in gen.nest(WR, ACT, d):
            yield pre + e + TAIL
            yield pre + "(t (list 'top " + e + "))" + TAIL
    for e in gen.nest(WR, ACT if not quick else ACT[1:6], 3):
        yield pre + e + TAIL
    if not quick:
        for e in gen.nest(WR, ACT[1:6], 4):
            yield pre + e + TAIL
    # from a point inside one nesting to a point inside another
    outer = list(gen.nest(WR[:7], ["%%"], 1)) + list(gen.nest(WR[:3] + WR[5:7], ["%%"], 2))
    for a in outer:
        for b in outer:
            yield pre + a.replace(gen.H, ACT[1]) + b.replace(gen.H, "(begin (t 'from) (use k1 'jump))") + "(show)"
            yield pre + "(w 'common (lambda () " + a.replace(gen.H, ACT[1]) + b.replace(gen.H, "(use k1 'jump)") + "))(show)(use k1 'late)(show)"
    # guards
    for g in GUARDS:
        for h in GUARDS:
            for act in ACT:
                dw = "(dynamic-wind " + g.replace("%s", "in") + " (lambda () " + act + ") " + h.replace("%s", "out") + ")"
                for c in ("%%", "(w 'A (lambda () %%))", "(catch 'e (lambda () %%) (lambda a (t (cons 'h a))))", "(call/cc (lambda (k) (set! k2 k) %%))",
                          "(catch #t (lambda () (w 'M (lambda () (catch 'e (lambda () %%) (lambda a (throw 'f a)))))) (lambda a (t (cons 'hh a))))"):
                    yield pre + c.replace(gen.H, dw) + "(show)(use k1 'again)(show)"
    # histories: captures in winds, jumps between them, throws
    pre = PRE % 4
    ops = ["(w 'A (lambda () (t (call/cc (lambda (k) (set! k1 k) 'a)))))", "(w 'B (lambda () (w 'C (lambda () (t (call/cc (lambda (k) (set! k2 k) 'c)))))))",
           "(use k1 1)", "(w 'D (lambda () (use k2 2)))", "(catch 'e (lambda () (w 'E (lambda () (use k1 3) (throw 'e)))) (lambda a (t a)))",
           "(w 'F (lambda () (t (call/cc (lambda (k) (set! k1 k) (use k2 'sw))))))", "(w 'H (lambda () (throw 'unhandled)))"]
    for s in gen.seqs(ops, 5 if quick else 7, 2):
        yield pre + "".join(s) + "(show)"
    # loops through a wind: leave and re-enter several times
    for n in range(1, 6):
        for a in WR:
            for b in WR:
                yield (PRE % n) + a.replace(gen.H, b.replace(gen.H, "(let ((v (call/cc (lambda (k) (set! k1 k) 0)))) (t v) v)")) + "(if (< q 4) (begin (set! q (+ q 1)) (use k1 q)))" * 2 + "(show)"
    yield from sizes.winds(quick)


def check(run):
    driver.compare(run, programs(run.quick))
