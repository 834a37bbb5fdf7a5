import importlib
import itertools
import driver

# Everything a program can keep: S is a fresh structured value, with its parts only reachable through it
PRE = ("(define (mk n) (list n (number->string n) (vector n (list n)) (string->symbol (string-append \"s\" (number->string n))) (* n 1.5) (/ n 7) (string (integer->char 65)) (cons n n)))"
       "(define (chk . l) l)(define (junk n) (do ((i 0 (+ i 1)) (l '() (cons (number->string i) l))) ((= i n) (length l))))(define ht (make-hash-table 7))(define log '())")
EXPRS = """(mk 1)
(list (mk 1) (mk 2))
(apply list (mk 1) (mk 2) (list (mk 3)))
(apply + (list 1 2 3))
(map mk '(1 2))
(map (lambda (a b) (list (mk a) b)) (list 1 2) (list "x" "y"))
(map-in-order (lambda (a) (mk a)) (list 1 2))
(let ((r '())) (for-each (lambda (a) (set! r (cons (mk a) r))) (list 1 2 3)) r)
(append (mk 1) (mk 2) (list (mk 3)))
(append (list 1 2) (mk 1))
(reverse (mk 3))
(list-head (mk 1) 3)
(list-tail (mk 1) 3)
(list-ref (mk 1) 2)
(last-pair (mk 1))
(member (list 2) (list (list 1) (list 2) (mk 3)))
(memq 'b (list 'a 'b (mk 3)))
(memv 2 (list 1 2 (mk 3)))
(assoc "b" (list (cons "a" 1) (cons "b" (mk 2))))
(assq 'b (list (cons 'a 1) (cons 'b (mk 2))))
(assv 2 (list (cons 1 1) (cons 2 (mk 2))))
(acons (mk 1) (mk 2) '())
(assoc-ref (list (cons "a" (mk 1))) "a")
(assoc-set! (list (cons "a" 1)) "b" (mk 2))
(assoc-set! (list (cons "a" 1)) "a" (mk 2))
(assq-set! (list (cons 'a 1)) 'b (mk 2))
(assoc-remove! (list (cons "a" (mk 1)) (cons "b" (mk 2))) "a")
(let ((p (mk 1))) (set-car! p (mk 2)) (set-cdr! (cdr p) (mk 3)) p)
(let ((v (make-vector 3 (mk 1)))) (vector-set! v 1 (mk 2)) v)
(vector (mk 1) (mk 2))
(vector->list (vector (mk 1) (mk 2)))
(list->vector (list (mk 1) (mk 2)))
(vector-length (vector (mk 1)))
(make-string 3 #\\a)
(string #\\a #\\b)
(string-append (number->string 123) (symbol->string 'abc) (substring "abcdef" 2 4))
(string->list (string-append "ab" "cd"))
(list->string (string->list "abc"))
(let ((s (make-string 3 #\\a))) (string-set! s 1 #\\b) s)
(string->symbol (string-append "ab" "cd"))
(symbol? (gensym))
(eq? (string->symbol (string-append "a" "b")) 'ab)
(list (string->number "12") (string->number "1.5") (string->number "1/3") (string->number "x"))
(list (number->string 255 16) (number->string 1.5) (number->string (/ 1 3)))
(list (+ 1/2 1/3) (- 1/2 1/3) (* 1.5 2) (/ 7 2) (max 1 2.5) (min 1/2 1/3) (gcd 12 18) (lcm 4 6) (expt 2 10) (sqrt 16) (abs -5) (quotient 17 5) (remainder 17 5) (modulo -7 2))
(list (< 1 2 3) (= 1 1.0) (>= 1/2 1/3) (even? 4) (zero? 0.0))
(list (char-upcase #\\a) (char->integer #\\a) (integer->char 97) (char<? #\\a #\\b))
(list (string<? "a" "b") (string-ci=? "aB" "Ab") (string=? "a" "a") (string>? "a" "b"))
(list (equal? (mk 1) (mk 1)) (eqv? 1.5 1.5) (eq? 'a 'a))
(begin (hash-set! ht (mk 1) (mk 2)) (hash-ref ht (mk 1)))
(begin (hashq-set! ht 'k (mk 2)) (hashq-ref ht 'k))
(begin (hashv-set! ht 1.5 (mk 2)) (hashv-ref ht 1.5))
(begin (hash-set! ht (mk 1) (mk 2)) (hash-set! ht (mk 2) (mk 3)) (hash-set! ht (mk 1) (mk 4)) (hash-remove! ht (mk 2)) (list (hash-ref ht (mk 1)) (hash-ref ht (mk 2))))
(let ((h (hash-create-handle! ht (mk 3) (mk 1)))) (set-cdr! h (mk 2)) (hash-get-handle ht (mk 3)))
(let ((t (make-hash-table 3))) (for-each (lambda (i) (hash-set! t i (mk i))) (list 1 2 3)) (apply + (hash-fold (lambda (k v a) (cons k a)) '() t)))
(hash-fold (lambda (k v a) (list k v a)) (mk 9) (let ((t (make-hash-table 3))) (hash-set! t (mk 1) (mk 2)) t))
(force (delay (mk 1)))
(let ((p (delay (mk 1)))) (force p) (junk 5) (force p))
(let ((p (let ((x (mk 1))) (delay (list x x))))) (junk 5) (list (force p) (force p)))
(variable-ref (make-variable (mk 1)))
(let ((v (make-variable 1))) (variable-set! v (mk 2)) (list (variable? v) (variable-ref v)))
(call-with-values (lambda () (values (mk 1) (mk 2))) (lambda (a b) (list b a)))
(call-with-values (lambda () (mk 1)) list)
(catch 'a (lambda () (throw 'a (mk 1) (mk 2))) (lambda r r))
(catch #t (lambda () (car (mk 1)) (throw 'zz (mk 2))) (lambda (k . r) (list k r)))
(catch #t (lambda () (list (mk 1) (car 5))) (lambda (k . r) k))
(catch 'a (lambda () (catch 'b (lambda () (list (mk 0) (throw 'a (mk 1)))) (lambda r 'no))) (lambda (k v) (list (mk 2) v)))
(catch 'a (lambda () (dynamic-wind (lambda () (set! log (mk 1))) (lambda () (throw 'a (mk 2))) (lambda () (set! log (list log (mk 3)))))) (lambda r (list log r)))
(dynamic-wind (lambda () (mk 1)) (lambda () (mk 2)) (lambda () (mk 3)))
(call/cc (lambda (k) (list 1 (k (mk 2)))))
(call/cc (lambda (k) (mk 2)))
(let ((k (call/cc (lambda (c) (list c (mk 1)))))) (if (procedure? (car k)) ((car k) (cdr k)) k))
(let* ((n 0) (l (list (mk 1) (call/cc (lambda (k) (set! log k) (mk 2)))))) (set! n (+ n 1)) (junk 5) (if (< n 3) (log (mk n)) l))
(call-with-output-string (lambda (p) (write (mk 1) p) (display (mk 2) p) (newline p) (write-char #\\a p)))
(call-with-input-string "(a \\"b\\" #(1 2) 1.5 . c) d" (lambda (p) (let* ((a (read p)) (b (read p))) (list a b (eof-object? (read p))))))
(let ((p (open-output-string))) (display (mk 1) p) (let ((s (get-output-string p))) (display "x" p) (list s (get-output-string p))))
(let ((p (open-input-string (string-append "ab" "(c d)")))) (let* ((a (read-char p)) (b (peek-char p)) (c (read p)) (d (read p))) (list a b c d (eof-object? (peek-char p)))))
(let ((p (open-output-file "f"))) (write (mk 1) p) (close-output-port p) (let* ((q (open-input-file "f")) (x (read q))) (close-input-port q) x))
(begin (call-with-output-file "f" (lambda (p) (display (mk 1) p) (display " (a b)" p))) (call-with-input-file "f" (lambda (p) (let* ((a (read p)) (b (read p))) (list a b)))))
(begin (call-with-output-file "f" (lambda (p) (display "(define lx (list (mk 1) 2)) (define (lf y) (cons lx y)) (lf (mk 2))" p))) (load "f") (lf (mk 3)))
(let* ((src (string->list "ab (c)")) (p (make-soft-port (vector #f #f #f (lambda () (junk 2) (if (null? src) #f (let ((c (car src))) (set! src (cdr src)) c))) #f) "r"))) (let* ((a (read-char p)) (b (peek-char p)) (c (read p)) (d (read p))) (list a b c d)))
(let* ((l '()) (p (make-soft-port (vector (lambda (c) (set! l (cons (list c (mk 1)) l))) (lambda (s) (set! l (cons (list s (mk 2)) l))) (lambda () #t) #f #f) "w"))) (write (mk 3) p) (write-char #\\x p) (display "str" p) l)
(let* ((p (open-output-string)) (old (current-output-port))) (set-current-output-port p) (display (mk 1)) (newline) (set-current-output-port old) (get-output-string p))
(eval (list 'list (list 'mk 1) (list 'quote (mk 2))))
(eval '(let ((x (mk 1))) (list x x)))
`(1 ,(mk 1) ,@(mk 2) #(,(mk 3) ,@(mk 4)) . ,(mk 5))
`(a `(b ,(c ,(mk 1))))
(let loop ((i 0) (l '())) (if (< i 4) (loop (+ i 1) (cons (mk i) l)) l))
(do ((i 0 (+ i 1)) (l '() (cons (mk i) l))) ((= i 3) (junk 5) l))
(let* ((a (mk 1)) (b (list a (mk 2))) (c (list b (mk 3)))) (list a b c))
(letrec ((f (lambda (n) (if (= n 0) (mk 0) (cons (mk n) (f (- n 1))))))) (f 3))
(let () (define a (mk 1)) (define (f) (list a (mk 2))) (f))
(cond ((assv 2 (list (cons 2 (mk 2)))) => cdr) (else 1))
(cond ((mk 1)) (else 2))
(case (string->symbol (string-append "a" "b")) ((ab) (mk 1)) (else (mk 2)))
(and (mk 1) (mk 2))
(or #f (mk 1) (mk 2))
(if (mk 1) (mk 2) (mk 3))
(begin (mk 1) (mk 2))
((lambda (a . r) (list a r)) (mk 1) (mk 2) (mk 3))
((lambda r r) (mk 1) (mk 2))
(((lambda (x) (lambda (y) (list x y))) (mk 1)) (mk 2))
(let ((c (let ((n (mk 0))) (lambda () (set! n (cons 1 n)) n)))) (c) (junk 3) (c))
(let ((x (mk 1))) (define-macro (mm a) (list 'list a (list 'quote (mk 7)))) (mm x))
(let ((f (let ((a 1) (b (mk 2)) (c 3) (d 4) (e 5)) (lambda (g) (list a b c d e g))))) (junk 3) (f (mk 6)))
(module? (current-module))
(list (procedure? car) (procedure-name mk) (procedure? mk))
(let ((ge (lambda () (list (gensym) (gensym))))) (eq? (car (ge)) (cadr (ge))))
(begin (define zz (mk 1)) (define zz (list zz (mk 2))) zz)
(begin (set! log (mk 1)) (set! log (list log (mk 2))) log)
(let ((s (call-with-output-string (lambda (p) (write car p) (write mk p) (write (current-output-port) p))))) (string? s))
(length (let loop ((i 0)) (if (< i 30) (cons (mk i) (loop (+ i 1))) '())))
(catch #t (lambda () (call-with-output-string (lambda (p) (write (mk 1) p) (throw 'x (get-output-string p))))) (lambda (k v) (list k v)))
(catch #t (lambda () (undefined-function (mk 1))) (lambda (k . r) (list k (mk 2))))
(catch #t (lambda () (mk 1 2)) (lambda (k . r) (list k (mk 2))))
(catch #t (lambda () (vector-ref (vector 1) 5)) (lambda (k . r) (list k (mk 2))))
(catch #t (lambda () (throw 'error "msg" (mk 1) (mk 2))) (lambda (k . r) (list k r)))
(map (lambda (k) (if (procedure? k) 'p k)) (list (call/cc (lambda (k) k)) (mk 1)))
(list (read (open-input-string "'(quote x)")) (read (open-input-string "`(a ,b ,@c)")) (read (open-input-string "#\\\\a")) (read (open-input-string "\\"str\\\\n\\"")))
(list (exact? 1) (inexact? 1.5) (null? '()) (list? (mk 1)) (pair? (mk 1)) (not (mk 1)))
(list (caddr (mk 1)) (cadr (mk 2)) (cddr (mk 1)))""".split("\n")
CTX = ["%s", "(chk (mk 11) %s (mk 12))", "(let ((u (mk 11)) (v (vector (mk 12)))) (let ((w %s)) (junk 4) (list u w v)))", "(map (lambda (q) %s) (list 1 2))",
       "(catch #t (lambda () (let ((u (mk 11))) (list u %s))) (lambda r r))", "(let ((n 0) (kk #f)) (let ((w (list (mk 11) (call/cc (lambda (c) (set! kk c) 1)) %s))) (set! n (+ n 1)) (if (< n 3) (kk (mk n)) w)))",
       "(force (delay (list (mk 11) %s)))", "(call-with-output-string (lambda (p) (write (list (mk 11) %s) p)))", "`(,(mk 11) ,@(list 1 %s) #(,(mk 12) 2))",
       "(begin (hash-set! ht (mk 11) %s) (junk 4) (hash-ref ht (mk 11)))", "(dynamic-wind (lambda () (mk 1)) (lambda () %s) (lambda () (junk 3)))",
       "(begin (define-macro (m a) (list 'list (list 'mk 11) a)) (m %s))", "(hash-fold (lambda (k v a) (list k v a %s)) (mk 11) (let ((t (make-hash-table 3))) (hash-set! t 'k (mk 12)) t))",
       "(cond (#f 1) (%s => (lambda (x) (list (mk 11) x))) (else 2))", "(call-with-values (lambda () (values (mk 11) %s)) list)",
       "(begin (define hold (let ((u (mk 11))) (lambda () (list u %s)))) (hold) (junk 4) (hold))", "(do ((i 0 (+ i 1)) (l '() (cons %s l))) ((= i 2) (list (mk 11) l)))",
       "(let loop ((i 0)) (if (< i 2) (cons %s (loop (+ i 1))) (mk 11)))", "(apply chk (mk 11) %s (list (mk 12)))", "(let ((v (make-vector 2 0))) (vector-set! v 0 (mk 11)) (vector-set! v 1 %s) v)",
       "(catch 'esc (lambda () (dynamic-wind (lambda () 1) (lambda () (throw 'esc (mk 11) %s)) (lambda () (junk 2)))) (lambda r r))",
       "(variable-ref (make-variable (list (mk 11) %s)))", "(eval '(list (mk 11) %s))"]
# what outlives a top-level form: stored in every kind of place, then used much later
STORES = [("(define g %s)", "g"), ("(define g 0)(set! g %s)", "g"), ("(define g (list 0))(set-car! g %s)", "g"), ("(define g (list 0))(set-cdr! g (list %s))", "g"), ("(define g (vector 0 0))(vector-set! g 1 %s)", "g"),
          ("(hash-set! ht 'k %s)", "(hash-ref ht 'k)"), ("(hash-set! ht %s 5)", "(hash-fold (lambda (k v a) (cons k a)) '() ht)"), ("(define g (let ((x %s)) (lambda () x)))", "(g)"), ("(define g (let ((x 0)) (lambda (o) (if (eq? o 'set) (set! x %s) x))))(g 'set)", "(g 'get)"),
          ("(define g (delay %s))", "(list (force g) (force g))"), ("(define g (delay %s))(force g)", "(force g)"), ("(define g (make-variable %s))", "(variable-ref g)"), ("(define-macro (g) (list 'quote %s))", "(g)"),
          ("(define kk #f)(define n 0)(define g (let ((x %s)) (call/cc (lambda (c) (set! kk c))) (set! n (+ n 1)) (list x n)))", "(if (< n 3) (kk 1) g)"), ("(define g (open-input-string (call-with-output-string (lambda (p) (write %s p)))))", "(read g)"),
          ("(define g (open-output-string))(write %s g)", "(get-output-string g)"), ("(define g (let* ((x %s) (l '())) (make-soft-port (vector (lambda (c) #t) (lambda (s) (set! x (cons s x))) (lambda () #t) (lambda () (if (pair? x) (begin (set! x (car x)) #\\a) #f)) #f) \"rw\")))(display \"zz\" g)", "(list (read-char g) (eof-object? (read-char g)))"),
          ("(define kk #f)(define m 0)(define g (catch 'a (lambda () (let ((x %s)) (call/cc (lambda (c) (set! kk c))) (throw 'a x))) (lambda (k v) (list v k))))(set! m (+ m 1))", "(if (< m 3) (kk 1) g)"),
          ("(define kk #f)(define m 0)(define g (dynamic-wind (lambda () (set! log (list (mk 5)))) (let ((x %s)) (lambda () (call/cc (lambda (c) (set! kk c))) (list x log))) (lambda () (set! log (cons (mk 6) log)))))(set! m (+ m 1))", "(if (< m 3) (kk 1) (list g log))"),
          ("(define (g a . r) (let ((b (list a))) (lambda (c) (list a b c r))))(define h (g %s (mk 5)))", "(h (mk 6))"), ("(define g `(1 ,@(list %s) . 2))", "g"), ("(define g (quote (1 (2 \"s\" #(3 x)) . 4)))(define g2 %s)", "(list g g2)"),
          ("(define g (lambda () '(a \"lit\" #(b) 1.5 #\\c)))(define g2 (list %s (g)))", "(list (g) g2)"), ("(set-current-output-port (let ((p (open-output-string))) (define g p) (set! log p) p))(define g2 %s)(display g2)", "(get-output-string log)"),
          ("(define n 0)(define g %s)(call-with-output-file \"f\" (lambda (p) (display \"(set! n (list (mk 2) n)) (define q (lambda () (list n \\\"str\\\" 'sym)))\" p)))(load \"f\")", "(list (q) g)")]
VALUES = ["(mk 1)", "(list \"a\" (string->symbol (string-append \"u\" \"v\")))", "(vector 1.5 (/ 1 3) \"str\")", "(lambda (x) (mk x))", "(call/cc (lambda (k) (list k)))", "(make-hash-table 3)", "(open-input-string \"(p q) r\")", "(delay (mk 4))", "(string-append \"ab\" \"cd\")", "'(q (w) #(e) \"r\" #\\t)", "(gensym)", "(make-variable (mk 3))", "(current-module)", "(list (integer->char 200) 1/3 -2.5e10)", "car"]
LATER = "(junk 30)(define junk2 (map mk '(1 2 3)))"
OTHERS = ["p01", "p02", "p03", "p04", "p08", "p09", "p10", "p11", "p12", "p13", "p15", "p16", "p17", "p18", "p19", "p20"]
# modules: what is only reachable through a module, its lists of uses, exports and autoloads, its binder
MODFILES = "\x1dWlz.scm\x19(define-module (lz))(define-public lv (list 'lz (list 1)))(define-public (lf x) (list x lv))(define-macro (lm a) (list 'list a 'lv))(export lm)\x19l2.scm\x19(define-module (l2) #:use-module (lz) #:export (l2v))(define l2v (lf 'two))\x1d"
MODPRE = "(define root (current-module))(define (junk n) (do ((i 0 (+ i 1)) (l '() (cons (list i) l))) ((= i n) (length l))))(define (try t) (catch #t t (lambda (k . r) k)))"
MODULES = ["(define-module (m) #:use-module (lz))", "(define-module (m) #:autoload (lz) (lv lf))", "(define-module (m) #:autoload (lz) (lm) #:autoload (l2) (l2v))", "(define-module (m))(use-modules (l2) (lz))",
           "(define-module (m))(module-use! (current-module) (resolve-module '(lz)))", "(define-module (m) #:use-module (l2) #:export (lv mine))(define mine (list 'mine))",
           "(define-module (m))(set-module-binder! (current-module) (let ((n (list 'bound))) (lambda (m s d) (if (eq? s 'lv) (list s n) #f))))",
           "(define-module (m))(set-module-binder! (current-module) (lambda (m s d) (if (eq? s 'lv) (make-variable (list s 1)) #f)))", "(define-module (m))(use-modules (lz))(re-export lv lf)(define-public own (list 'own))",
           "(define-module (a))(use-modules (lz))(re-export lf lv)(define-module (m))(use-modules (a))"]
MODUSE = [("", ""), ("(define (hold) (list lv 'held))", "(set-current-module root)"), ("(define-module (u))(use-modules (m))", ""), ("(set-current-module root)(use-modules (m))", "(define-module (other))(use-modules (m))"),
          ("(define k #f)(define n (list 0))(define g (call/cc (lambda (c) (set! k c) (list 'first))))(set! n (list n 1))", "(if (< (length n) 9) (if (pair? (car n)) (if (< (length (car n)) 2) (k (list 'again)) 0) 0) 0)"),
          ("(define p (delay (list lv (lf 1))))", "(force p)"), ("(define-macro (mm x) (list 'list x 'lv))", "(mm 1)")]
MODGET = ["(try (lambda () lv))", "(try (lambda () (lf 3)))", "(try (lambda () (list (lm 2))))", "(try (lambda () l2v))", "(try (lambda () (list own mine)))", "(try (lambda () (hold)))", "(try (lambda () (eval 'lv)))", "(procedure-name junk)",
          "(try (lambda () (module-ref (resolve-module '(m)) 'lv)))", "(try (lambda () (set! lv (list lv 2)) lv))", "(map (lambda (s) (module-bound? (resolve-module '(m)) s)) '(lv lf mine nope))", "(length (module-map (lambda (s v) (list s v)) (resolve-module '(lz))))"]


def programs(quick):
    for i, e in enumerate(EXPRS):
        yield "\x1cE1\x1c" + PRE + e if quick else "\x1cE2 300\x1c" + "(define (mk n) (list n (number->string n)))(define (chk . l) l)(define (junk n) n)(define ht (make-hash-table 7))(define log '())" + e
        for j, c in enumerate(CTX):
            if j:
                yield ("\x1cE0\x1c" if quick or (i + j) % 5 else "\x1cE1\x1c") + PRE + c.replace("%s", e)
    for v in VALUES:
        for i, (s, g) in enumerate(STORES):
            yield ("\x1cE0\x1c" if quick or i % 3 else "\x1cE1\x1c") + PRE + s.replace("%s", v) + LATER + g + "(junk 20)" + g
    for (s, g), (s2, g2) in itertools.product(STORES, repeat=2):  # several kept values
        yield "\x1cE0\x1c" + PRE + s.replace("%s", "(mk 1)") + "(define G %s)" % "(mk 3)" + s2.replace("%s", "(list G (mk 2))") + LATER + g2 + "G(junk 9)" + g2
    for mod, (use, late) in itertools.product(MODULES, MODUSE):
        for g in MODGET:
            body = MODPRE + mod + use + "(junk 9)" + g + late + "(junk 9)" + g
            yield ("\x1cE0\x1c" if quick else "\x1cE1\x1c") + MODFILES + body
    for m in OTHERS:
        for i, p in enumerate(importlib.import_module(m).programs(True)):
            if isinstance(p, tuple):
                p = p[0]
            if i % (401 if quick else 23) == 0 and p[0] != "\x1d":
                yield "\x1cE0\x1c" + p


def check(run):
    driver.compare(run, programs(run.quick))
