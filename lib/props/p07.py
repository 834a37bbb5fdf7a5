import itertools
import driver
import p06

NEW = ["(cons %o %s)", "(vector %o %s \"v\")", "(string-append \"s\" \"t\")", "(let ((x %o) (y %s)) (lambda () (list 'clo x y)))", "(let ((x %o)) (delay (list x \"p\")))", "(make-variable %o)",
       "(let ((t (make-hash-table 3))) (hash-set! t 'a %o) (hash-set! t \"b\" %s) (lambda () (list (hash-ref t 'a) (hash-ref t \"b\"))))", "(let ((p (open-output-string))) (display \"port\" p) p)", "(list 1.5 1/3 'sym #\\a 77)", "(let ((x %o)) (call/cc (lambda (k) (lambda () (list 'k x (procedure? k))))))",
       "(make-vector 40 %o)", "(string->list \"abcdefgh\")"]
SHOW = ("(define (show x d) (cond ((= d 0) '...) ((pair? x) (cons (show (car x) (- d 1)) (show (cdr x) (- d 1)))) ((vector? x) (list->vector (map (lambda (y) (show y (- d 1))) (vector->list x))))"
        " ((procedure? x) (show (x) (- d 1))) ((variable? x) (list 'var (show (variable-ref x) (- d 1)))) ((output-port? x) (list 'port (get-output-string x))) (else x)))"
        "(define r0 0)(define r1 1)")


def ops():
    for i, n in enumerate(NEW):
        for d, o in (("r0", "r1"), ("r1", "r0")):
            yield "(set! %s %s)" % (d, n.replace("%o", o).replace("%s", d))
    yield "(set! r0 0)"
    yield "(set! r1 1)"
    yield "(gc)"
    yield "(if (pair? r0) (set-car! r0 r1) (if (vector? r0) (vector-set! r0 0 r1) 0))"
    yield "(if (pair? r1) (set-cdr! r1 (list \"new\")) (if (vector? r1) (vector-set! r1 1 (list \"new\")) 0))"


BULK = ["(set! r0 (string->list (make-string 60000 #\\a)))", "(set! r1 (string->list (make-string 60000 #\\b)))", "(set! r0 '())", "(set! r1 '())", "(gc)",
        "(set! r2 (let ((x (list 1 r0))) (call/cc (lambda (k) (lambda () (list (car x) (length (cadr x)) (procedure? k)))))))", "(set! r0 (append r1 r0))", "(do ((i 0 (+ i 1))) ((= i 20)) (set! r3 (list (make-vector 50 i) (call/cc (lambda (k) k)))))"]
BPRE = "(define r0 '())(define r1 '())(define r2 (lambda () 'none))(define r3 0)(define (sum l) (do ((l l (cdr l)) (a 0 (+ a (char->integer (car l))))) ((null? l) a)))"


def programs(quick):
    O = list(ops())
    for n in range(1, 4 if quick else 5):
        for t in itertools.product(O, repeat=n):
            if n == 4 and (t[0].startswith(("(set! r0 0", "(set! r1 1", "(gc", "(if")) or "r1" in t[0][:8]):
                continue  # as with three operations
            yield "\x1cL\x1c" + SHOW + "".join(x + "(gc)" if n < 4 else x.replace("make-vector 40", "make-vector 9") for x in t) + "(gc)(define j (list (vector 9 9) \"junk\" 2.5))" + "(show r0 %d)(show r1 %d)" % ((6, 6) if n < 4 else (4, 4))
    for n in range(1, 5 if quick else 6):
        for t in itertools.product(BULK, repeat=n):
            if sum(x.startswith("(set! r0 (a") for x in t) <= 2 and any("make-string" in x for x in t[:1]):
                yield "\x1cL\x1c" + BPRE + "".join(x.replace("(set! r2", "(begin (set! r2").replace("k)))))))", "k))))))) 'r2)") for x in t) + "(length r0)(length r1)(r2)(set! r0 (if (null? r0) r0 (list-head r0 50)))(gc)(set! r1 (if (null? r1) r1 (list-tail r1 59000)))(string->list (make-string 3000 #\\z))(gc)(list (length r0) (length r1))(list (sum r0) (sum r1))(r2)"


def bounded(quick):
    exp = "heap bounded\nmalloc bounded\n"
    for i, e in enumerate(p06.EXPRS):
        yield "\x1cM\x1c" + p06.PRE + "\x1b" + e, exp
        if "call/cc" not in e:  # an earlier continuation may stay in a dead stack slot of a later one
            yield "\x1cN%d\x1c" % (1000 if quick else 3000) + p06.PRE + "\x1b" + e, exp
        if not quick:
            for c in p06.CTX[1:] if i % 2 else ():
                if "call/cc" in c + e:
                    continue
                yield "\x1cM\x1c" + p06.PRE + "\x1b" + c.replace("%s", e), exp
    for v in p06.VALUES:
        if "call/cc" in v:
            continue
        for s, g in p06.STORES if not quick else p06.STORES[::3]:
            if s.startswith("(hash-set! ht %s"):
                continue  # keeps every key
            yield "\x1cM\x1c" + p06.PRE + "\x1b" + s.replace("%s", v) + g, exp
    for t in ("(", ")", "(car '())", "(undefined-thing)", "(throw 'x (mk 1))", "(if)", "(let ((x)) x)", "(mk 1 2 3)", "\"abc", "#\\", "(vector-ref (vector 1) 9)", "(dynamic-wind (lambda () 1) (lambda () (throw 'x 1)) (lambda () 2))", "(catch #t (lambda () (car 1)) (lambda r (car 2)))",
              "(call-with-output-string (lambda (p) (throw 'x p)))", "(open-input-file \"missing\")", "(map car '(1 2))", "(load \"missing\")", "(read (open-input-string \"(a\"))", "(string->symbol (number->string (junk 3)))"):
        if t in ("(", "\"abc", "#\\", ")"):
            t = "(catch #t (lambda () (read (open-input-string \"%s\"))) (lambda r 'err))" % t.replace("\\", "\\\\").replace("\"", "\\\"")
        yield "\x1cM\x1c" + p06.PRE + "\x1b" + t, exp

    # ports that nothing refers to any more, open or closed, used or not
    W = "(let ((p (open-output-file \"f\"))) (display \"(define loaded '(1 2))\" p) (close-output-port p))"
    for t in DROPPED:
        for u in (t, "(catch #t (lambda () (let ((p %s)) (throw 'x p))) (lambda (k p) 'r))" % t, "(set! r0 %s)" % t):
            yield "\x1cM\x1c" + p06.PRE + "(define r0 #f)" + W + "\x1b" + u, exp


DROPPED = ["(open-input-file \"f\")", "(let ((p (open-input-file \"f\"))) (read-char p) p)", "(let ((p (open-input-file \"f\"))) (read p) (close-input-port p) p)", "(let ((p (open-input-file \"f\"))) (read p) p)", "(open-output-file \"g\")",
           "(let ((p (open-output-file \"g\"))) (write '(some text) p) p)", "(let ((p (open-output-file \"g\"))) (write '(some text) p) (close-output-port p) p)", "(with-output-to-file \"g\" (lambda () (display 1)))",
           "(with-input-from-file \"f\" read-char)", "(call-with-input-file \"f\" read)", "(call-with-output-file \"g\" (lambda (p) (write 'x p)))", "(open-input-string (make-string 300 #\\x))", "(let ((p (open-output-string))) (display (make-string 5000 #\\x) p) p)", "(load \"f\")",
           "(make-soft-port (vector (lambda (c) c) (lambda (s) s) (lambda () #f) (lambda () #f) (lambda () #f)) \"rw\")"]


def check(run):
    driver.compare(run, programs(run.quick), args=("--fast-ms", "12000"))
    run.cov["bounded_memory_programs"] = driver.compare(run, bounded(run.quick), args=("--fast-ms", "15000", "--slow-ms", "60000"), label="bounded memory")
