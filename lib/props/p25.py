"""P25: recursion that runs out of stack is an error like any other.  Every way of recursing (nested two deep) without
end, under every way of handling the error, with what is left of the state observed; the same recursions, ended after a
few levels, give their exact value.  And every operation on data nested deeper than the stack allows."""
import driver
from gen import H

PRE = ("(define x 0)(define kk #f)(define ins 0)(define outs 0)(define (in) (set! ins (+ ins 1)))(define (out) (set! outs (+ outs 1)))(define h (make-hash-table 3))(hash-set! h 'a 1)"
       "(define (sum n) (if (= n 0) 0 (+ n (sum (- n 1)))))(define-macro (same e) e)(define-macro (plus e) `(+ 1 ,e))")
REC = ["(+ 1 %%)", "(list %% 2)", "(if %% 1 2)", "(begin %% 1)", "(let ((v %%)) v)", "(let* ((a 1) (v %%)) v)", "(letrec ((v %%)) v)", "(cond (%% 1))", "(cond (#t %% 1))", "(case %% ((1) 1) (else 2))", "(and %% 1)", "(list (or #f %%))", "(begin (set! x %%) 1)",
       "(let () (define y %%) y)", "`(a ,%%)", "`(a ,@(list %%) b)", "`#(1 ,%%)", "(map (lambda (i) %%) '(1))", "(begin (for-each (lambda (i) %%) '(1 2)) 1)", "(list (apply (lambda r %%) '(1)))", "(+ 1 (call/cc (lambda (k) %%)))", "(list (call/cc (lambda (k) (k %%))))",
       "(dynamic-wind in (lambda () %%) out)", "(dynamic-wind (lambda () %%) (lambda () 1) (lambda () 2))", "(dynamic-wind (lambda () 1) (lambda () 2) (lambda () %%))", "(list (catch 'never (lambda () %%) (lambda r r)))", "(list (catch 'a (lambda () (throw 'a)) (lambda r %%)))",
       "(list (force (delay %%)))", "(string-length (call-with-output-string (lambda (p) (display %% p))))", "(call-with-values (lambda () %%) list)", "(hash-fold (lambda (k v a) %%) 0 h)", "(vector (same %%))", "(plus %%)", "(do ((i %% 1)) (#t 1))", "(do ((i 0 (+ i 1))) ((= i 1) 1) %%)",
       "(do ((i 0 (begin %% 1))) ((= i 1) 1))", "((lambda (v) v) %%)", "((lambda (v . r) r) 1 %%)", "((begin %% car) '(1))", "(let again ((i %%)) 1)", "(not %%)", "(list (eval '(begin 1)) %%)", "(list (with-output-to-string (lambda () %%)))", "(cons 1 (let ((l (list %%))) l))"]
F = "(f (+ n 1))"
HANDLE = ["%%", "(catch #t (lambda () %%) (lambda r 'over))", "(catch 'never (lambda () %%) (lambda r 'never))", "(catch #t (lambda () (catch 'never (lambda () %%) (lambda r 'never))) (lambda r 'over))", "(catch #t (lambda () (dynamic-wind in (lambda () %%) out)) (lambda r (list 'over (- ins outs))))",
          "(catch #t (lambda () (catch #t (lambda () %%) (lambda r (apply throw r)))) (lambda r 'over))", "(catch #t (lambda () (catch #t (lambda () %%) (lambda r %%))) (lambda r 'over))", "(map (lambda (i) (catch #t (lambda () %%) (lambda r i))) '(1 2 3))",
          "(call-with-output-string (lambda (p) (display 'a p) (catch #t (lambda () %%) (lambda r (display 'b p)))))", "(call/cc (lambda (k) (catch #t (lambda () %%) (lambda r (k 'out)))))", "(dynamic-wind in (lambda () (catch #t (lambda () (list %%)) (lambda r (list 'over (- ins outs))))) out)",
          "(let ((c 0)) (catch #t (lambda () (call/cc (lambda (k) (set! kk k))) (set! c (+ c 1)) (if (< c 4) %% 'enough)) (lambda r (if (< c 3) (kk 1) (list 'over c)))))", "(catch #t (lambda () (eval '%%)) (lambda r 'over))", "(let ((p (delay %%))) (catch #t (lambda () (force p)) (lambda r (catch #t (lambda () (force p)) (lambda r 'twice)))))",
          "(let loop ((i 0)) (if (< i 5) (begin (catch #t (lambda () %%) (lambda r #f)) (loop (+ i 1))) i))", "(catch #t (lambda () (for-each (lambda (i) %%) '(1 2))) (lambda r (sum 9)))", "(call-with-output-string (lambda (p) (dynamic-wind (lambda () (display 'i p)) (lambda () (catch #t (lambda () %%) (lambda r (display 'h p)))) (lambda () (display 'o p)))))",
          "(catch #t (lambda () (let again ((i 5)) (dynamic-wind in (lambda () (if (= i 0) %% (again (- i 1)))) out))) (lambda r (- ins outs)))"]
AFTER = "(list (- ins outs) x)(sum 30)(catch 'a (lambda () (dynamic-wind in (lambda () (throw 'a 1)) out)) (lambda r r))(call/cc (lambda (k) (+ 1 (k 5))))(map (lambda (i) (* i i)) '(1 2 3))(let loop ((i 0)) (if (< i 50) (loop (+ i 1)) i))(- ins outs)"
# every level handles the errors of the levels below: what comes out depends on the depth, but it comes out
INNER = ["(+ 1 (catch #t (lambda () %%) (lambda r 1)))", "(list (catch #t (lambda () %%) (lambda r (sum 5))))", "(+ 1 (dynamic-wind in (lambda () (catch #t (lambda () %%) (lambda r 1))) out))", "(+ 1 (catch #t (lambda () %%) (lambda r (apply throw r))))",
         "(+ 1 (catch #t (lambda () (dynamic-wind in (lambda () %%) out)) (lambda r 1)))", "(let ((v (catch #t (lambda () %%) (lambda r 0)))) (catch 'b (lambda () (throw 'b)) (lambda r (list v))))", "(map (lambda (i) (catch #t (lambda () %%) (lambda r i))) '(1))"]


def infinite(level):
    for r in REC:
        for w in HANDLE:
            g = w.replace(H, "(f 0)")
            yield PRE + "(define (f n) %s)" % r.replace(H, F) + g + AFTER + g + AFTER
        # mutual recursion
        yield PRE + "(define (g n) (+ 1 (f n)))(define (f n) %s)" % r.replace(H, "(g n)") + "(f 0)" + HANDLE[4].replace(H, "(g 0)") + AFTER
        for s in REC:
            c = r.replace(H, s)
            for w in HANDLE if level else (HANDLE[4],):
                yield PRE + "(define (f n) %s)" % c.replace(H, F) + w.replace(H, "(f 0)") + AFTER
            if level:
                for q in REC:
                    yield PRE + "(define (f n) %s)" % c.replace(H, q.replace(H, F)) + HANDLE[4].replace(H, "(f 0)") + AFTER
    for i in INNER:
        for w in HANDLE:
            g = w.replace(H, "(begin (f 0) 'done)")
            yield PRE + "(define (f n) %s)" % i.replace(H, F) + g + AFTER
            yield PRE + "(define (f n) %s)" % i.replace(H, F) + g + g + AFTER
    # macros that expand without end, promises that force each other, conversions between text and values
    for d, e in (("(define-macro (m) '(+ 1 (m)))", "(m)"), ("(define-macro (m e) `(list (m (m ,e))))", "(m 1)"), ("(define p (delay (+ 1 (force p))))", "(force p)"), ("(define q #f)(define p (delay (+ 1 (force q))))(set! q (delay (+ 1 (force p))))", "(force q)"),
                 ("(define (ev) (list (eval '(ev))))", "(ev)"), ("(define-macro (m) (list '+ 1 (m)))", "(m)"), ("(define (y g) (g g))", "(y (lambda (g) (+ 1 (g g))))"), ("(define (o) (call-with-output-string (lambda (p) (display (o) p))))", "(o)"),
                 ("(define ones (delay (cons 1 (force ones))))", "(force ones)"), ("(define v (vector #f))(vector-set! v 0 (lambda () (+ 1 ((vector-ref v 0)))))", "((vector-ref v 0))"), ("(define (each) (for-each (lambda (i) (each)) '(1)) 1)", "(each)"),
                 ("(define (app l) (+ 1 (apply app (list l))))", "(app 1)")):
        for w in HANDLE:
            yield PRE + d + w.replace(H, e) + AFTER + w.replace(H, e) + AFTER


def finite(level):
    for r in REC:
        for n in (0, 1, 2, 3, 5, 8, 40):
            yield PRE + "(define (f n) (if (= n 0) 'end %s))" % r.replace(H, "(f (- n 1))") + "(f %d)" % n + AFTER
            if n and n < 40:
                for s in REC:
                    yield PRE + "(define (f n) (if (= n 0) 7 %s))" % r.replace(H, s).replace(H, "(f (- n 1))") + "(f %d)" % n + AFTER


BUILD = ["(list l)", "(cons l 1)", "(vector l)", "(list 'a l 'b)", "(list (vector l))", "(list 'quote l)", "(list 'quasiquote (list l))", "(cons 'x (cons l 'y))", "(list 1 2 (cons l 3))", "(vector 1 l 2)", "(cons (list l) 4)", "(list (cons 1 l) 2)", "(list 'if l)", "(list 'list l)", "(list '+ l 1)", "(list 'begin l)", "(list 'unquote l)",
         "(list 'let '() l)", "(list 'lambda 'r l)", "(list 'same l)"]
USE = ["(string-length (call-with-output-string (lambda (p) (display d p))))", "(string-length (call-with-output-string (lambda (p) (write d p))))", "(display d)", "(write d)", "(equal? d e)", "(equal? e d)", "(equal? d g)", "(eqv? d e)", "(member d (list 1 e))", "(assoc d (list (cons e 1)))", "(hash-set! h d 1)", "(hash-ref h d)",
       "(begin (hash-set! h d 1) (hash-ref h e))", "(begin (hash-set! h d 1) (hash-remove! h e))", "(eval (list 'quote d))", "(eval (list 'quasiquote d))", "(eval d)", "(eval (list 'same (list 'quote d)))", "(eval (list d 1))", "(throw 'k d)", "(car (vector d))", "(+ d 1)", "(string-append d)", "(d)", "(vector-ref d 'a)", "(undefined-one d)",
       "(apply list (list d))", "(append (list d) d)", "(length d)", "(reverse (list d d))", "(list->vector (list d))", "(map (lambda (q) q) (list d))", "(let loop ((i 0)) (if (< i 20000) (begin (list d) (loop (+ i 1)))))", "(call/cc (lambda (k) (k d)))", "(values d d)", "(string->symbol d)", "(error \"text\" d)", "(force (delay d))", "((lambda (a) a) d 1)",
       "(let ((s (call-with-output-string (lambda (p) (write d p))))) (call-with-input-string s read))", "(assq d d)", "(list-ref d 5)", "(memq 'a d)", "(eval (list 'define 'dd (list 'quote d)))", "(let ((s (list 1))) (set-car! s d) (equal? s (list e)))", "(procedure? d)", "(for-each (lambda (q) q) d)", "(sum (list d))", "(display (list d d))", "(catch 'k (lambda () (throw 'k d)) (lambda r (write r)))"]
STATE = "(list (- ins outs) x)(sum 30)(call-with-output-string (lambda (p) (write '(1 \"a\" (b)) p)))(equal? '(1 (2 #(3))) (list 1 (list 2 (vector 3))))"
STATE_EXP = ["(0 0)", "465", "\"(1 \\\"a\\\" (b))\"", "#t"]


def data(level):
    for b in BUILD:
        pre = PRE + "(define (deep n leaf) (do ((i 0 (+ i 1)) (l leaf %s)) ((= i n) l)))" % b
        for n in (0, 1, 2, 3, 7, 40):  # not deep: exact
            yield pre + "(define d (deep %d 5))(define e (deep %d 5))(define g (deep %d 6))" % (n, n, n) + "".join("(catch #t (lambda () %s) (lambda r 'failed))" % u for u in USE if "(sum (list" not in u) + AFTER
        for n in (1000, 8000, 20000) if level else (8000,):
            for u in USE:
                defs = ["(define d (deep %d 5))" % n] + ["(define %s (deep %d %d))" % (v, n, k) for v, k in (("e", 5), ("g", 6)) if " %s)" % v in u or " %s " % v in u]
                one = "(catch #t (lambda () %s 'ok) (lambda r 'ok))"
                wind = "(catch #t (lambda () (dynamic-wind in (lambda () %s) out) 'ok) (lambda r 'ok))"
                exprs = [one % u, wind % u, one % u]
                prog = pre + "".join(defs) + "".join(s + STATE for s in exprs)
                exp = ["\x01"] * (PRE.count("(define") + 2 + len(defs))
                for _ in exprs:
                    exp += ["ok"] + STATE_EXP
                yield prog, "".join(l + "\n" for l in exp)


LONG = ["'(1 2)", "'(a \"b\" 2.5)", "'((1) (2 3) ())", "'(1 (x . y) #(4) #\\c 7)", "(list #f 1 (list 2 #t))"]
LUSE = ["d", "(equal? d e)", "(equal? e d)", "(equal? d g)", "(equal? (list d 1) (list e 1))", "(equal? (vector d) (vector e))", "(length d)", "(reverse d)", "(append d e)", "(append d 'end)", "(append '() d '())", "(list-tail d 900)", "(list-ref d (- (length d) 1))", "(list-head d 1500)", "(last-pair d)", "(memq 'none d)", "(memv 5.5 d)",
        "(member '(none) d)", "(member 6 d)", "(list->vector d)", "(vector->list (list->vector d))", "(apply list d)", "(apply vector d)", "(apply append (map list d))", "(map (lambda (x) x) d)", "(map eq? d d)", "(map list d e g)", "(let ((n 0)) (for-each (lambda (x) (set! n (+ n 1))) d) n)", "(let ((n 0)) (for-each (lambda (x y) (set! n (+ n 1))) d e) n)",
        "(eval (list 'quote d))", "(eval (cons 'list (map (lambda (x) 1) d)))", "(eval (cons 'begin (map (lambda (x) 1) d)))", "(eval (cons 'and (map (lambda (x) 1) d)))", "(eval (cons 'or (map (lambda (x) #f) d)))", "(eval (cons 'cond (map (lambda (x) '(#f)) d)))", "(eval `(case 'q ,@(map (lambda (x) '((1) 1)) d) (else 2)))",
        "(eval `(case 'q (,d 1) (else 2)))", "(eval `((lambda r r) ,@(map (lambda (x) 2) d)))", "(eval `(let () ,@(map (lambda (x) '(define z 1)) d) z))", "(eval `(let ((f (lambda () ,@(map (lambda (x) '(set! x (+ x 1))) d)))) (f)))", "`(1 ,@d 2)", "`(1 (,@d) ,@e)", "(cadr (list 1 d))", "(string-length (call-with-output-string (lambda (p) (write d p))))",
        "(let ((s (call-with-output-string (lambda (p) (write d p))))) (equal? d (call-with-input-string s read)))", "(call-with-values (lambda () (apply values d)) list)", "(catch 'k (lambda () (apply throw 'k d)) list)", "(car ((lambda (a . r) r) 1 d))", "(apply (lambda (a . r) r) d)", "(apply (lambda r (length r)) d)", "(apply max (map (lambda (x) 1) d))", "(apply + (map (lambda (x) 1) d))",
        "(apply < (map (lambda (x) 1) d))", "(apply string-append (map (lambda (x) \"ab\") d))", "(list->string (map (lambda (x) #\\a) d))", "(string->list (make-string (length d) #\\b))", "(hash-fold (lambda (k v n) (+ n 1)) 0 (let ((h (make-hash-table 1))) (for-each (lambda (x) (hash-set! h x 1)) (list-head d 300)) h))", "(assq 'none (map (lambda (x) (cons 1 x)) d))",
        "(assoc '(n) (map (lambda (x) (cons 1 x)) d))", "(assv 2.5 (map (lambda (x) (cons 1 x)) d))", "(let ((l (map (lambda (x) (cons 1 x)) d))) (length (assoc-remove! l 3)))", "(string->symbol (make-string (length d) #\\c))", "(vector-fill! (make-vector (length d) 1) 2)", "(make-vector (length d) 3)", "(equal? (make-vector (length d) 3) (make-vector (length d) 3))",
        "(call/cc (lambda (k) (apply k d)))", "(eval `(let* ,(map (lambda (x) '(z 1)) (list-head d 300)) z))", "(eval `(do ,(map (lambda (x) '(z 1)) '(1)) (#t ,@(map (lambda (x) 3) d))))", "(eval `(letrec ((z 1)) ,@(map (lambda (x) '(+ z 1)) d)))", "(eval `(begin (define-macro (m . b) (length b)) (m ,@d)))", "(delay (length d))", "(force (delay (length d)))"]
BRIEF = ("(define (brief v) (cond ((vector? v) (brief (vector->list v))) ((string? v) (string-length v)) ((symbol? v) (string-length (symbol->string v))) ((pair? v) (if (list? v) (list (length v) (list-head v 4) (list-tail v (- (length v) 3)) (list-ref v (quotient (length v) 2))) (car v))) (else v)))"
         "(define (lng n l leaf) (if (= n 0) (append l (list leaf)) (lng (- n 1) (append l l) leaf)))")


def long(level):
    for b in LONG:
        pre = PRE + BRIEF
        for n in (8, 12, 14) if level else (12,):  # the list is doubled that often
            for u in LUSE:
                defs = "(define d (lng %d %s 5))" % (n, b) + "".join("(define %s (lng %d %s %d))" % (v, n, b, k) for v, k in (("e", 5), ("g", 6)) if " %s)" % v in u or " %s " % v in u)
                yield pre + defs + "(brief %s)" % u + AFTER + "(catch #t (lambda () (brief %s)) (lambda r 'failed))" % u


BIGUSE = [("(vector->list v)", 1, 0), ("(append l '())", 1, 0), ("(append l l)", 2, 0), ("(reverse l)", 1, 0), ("(list-head l (length l))", 1, 0), ("(string->list s)", 1, 0), ("(cons l (append l '()))", 1, 1),
          ("(apply list l)", 1, 0), ("(list (vector->list v) (string->list (string-append s s)) (list->vector l))", 0, 3), ("(map cons l l)", 1, 0), ("(list->vector (map list l))", 1, 0)]


def big(level):
    """more data that stay than the heap has room for at first; then again, with the first dropped"""
    for u, f, c in BIGUSE:
        for n, k in ((100000, 60),) + (((2000, 3000), (20000, 300), (1000000, 6)) if level else ()):
            if "map" in u:
                k = k // 2 + 1
            yield ("((lambda () (define v (make-vector %d 'a))(define l (vector->list v))(define s (make-string %d #\\x))(define keep '())"
                   "(define (size x) (if (vector? x) (vector-length x) (length x)))"
                   "(define (fill) (do ((i 0 (+ i 1))) ((= i %d)) (set! keep (cons %s keep))))"
                   "(define (good) (let loop ((k keep) (i 0)) (if (pair? k) (if (= (size (car k)) %d) (loop (cdr k) (+ i 1)) (list 'bad i (size (car k)))) i)))"
                   "(fill) (define one (good)) (set! keep '()) (fill) (list one (good) (length l) (string-length s) (vector-length v)))) '!" % (n, n, k, u, f * n + c), "(%d %d %d %d %d)\n!\n" % (k, k, n, n, n))


def check(run):
    level = 0 if run.quick else 1
    driver.compare(run, infinite(level), args=("--stack-kb", "512"), label="recursion without end")
    driver.compare(run, finite(level), args=("--stack-kb", "1024"), label="recursion that ends")
    driver.compare(run, long(level), args=("--stack-kb", "256"), label="long data")
    driver.compare(run, data(level), args=("--stack-kb", "256"), label="deep data")
    driver.compare(run, big(level), args=("--fast-ms", "15000"), label="big data")
