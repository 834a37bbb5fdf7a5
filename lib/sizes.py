"""Programs in which one quantity (operands, bindings, nesting, elements, ...) takes every value at which a
buffer, counter or cache might have its boundary."""
SMALL = list(range(0, 21)) + [31, 32, 33, 40, 50]
MID = SMALL + [63, 64, 65, 99, 100, 101, 127, 128, 129]
BIG = MID + [200, 254, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025]


def nums(n, a=0):
    return " ".join(str(i + a) for i in range(n))


def nest(pre, leaf, post, n):
    return pre * n + leaf + post * n


def core(quick):
    L = "(define c 0)(define (nx) (set! c (+ c 1)) c)(define x 'gx)"
    for n in BIG if not quick else MID + [256, 257, 512, 1000]:
        vs = ["v%d" % i for i in range(n)]
        b = " ".join("(%s (nx))" % v for v in vs)
        lv = "(list %s)" % " ".join(vs)
        rv = "(list %s)" % " ".join(reversed(vs))
        yield L + "(let (%s) %s)(let* (%s) %s)(letrec (%s) %s)c" % (b, lv, b, rv, b, lv)
        yield L + "(let loop ((i 0) %s) (if (< i 2) (loop (+ i 1) %s) (list i %s)))c" % (b, " ".join(vs[1:] + vs[:1]), lv)
        yield L + "(do ((i 0 (+ i 1)) %s) ((= i 2) (nx) %s) (nx))c" % (" ".join("(%s (nx) %s)" % (v, vs[(i + 1) % n]) for i, v in enumerate(vs)), lv)
        yield L + "(define (f %s) %s)(f %s)(f %s)c" % (" ".join(vs), lv, " ".join("(nx)" for _ in vs), nums(n))
        yield L + "((lambda (v . r) (list r v)) 'a %s)((lambda r r) %s)(define (g %s) %s)(g %s)c" % (" ".join("(nx)" for _ in vs), nums(n), " ".join((vs + [". r"]) if vs else ["r0", ". r"]), lv, nums(n + 2))
        yield L + "(begin %s 'end)c(define (f) %s 'last)(f)c(and %s 'all)(or %s 'none)(cond %s (else 'el))(case %d %s (else 'no))(case 'z ((%s) 'in) ((%s z) 'zz) (else 'no))" % (
            "(nx)" * n, "(nx)" * n, nums(n), "#f " * n, "(#f 1)" * n, n, "".join("((%d) 'k%d)" % (i + 1, i) for i in range(n)), " ".join(vs) or "q", " ".join(vs))
        yield "".join("(define g%d %d)" % (i, i * i) for i in range(n)) + "(list %s)" % " ".join("g%d" % i for i in range(n)) + "".join("(set! g%d (list g%d))" % (i, (i + 1) % n) for i in range(0, n, 7)) + "(list %s)" % " ".join("g%d" % i for i in range(n))
        yield "(define (f) %s (list %s))(f)(f)" % ("".join("(define d%d %s)" % (i, "d%d" % (i - 1) if i % 3 == 2 else i) for i in range(n)), " ".join("d%d" % i for i in range(n)))
        nm = "n" * max(n, 1)
        yield "(define %s 'v)%s(define %sx 'w)(list %s %sx)(let ((%s 1)) %s)(define (%sf %s) (list %s))(%sf 2)%s" % ((nm,) * 12)
        yield "(define (down k) (if (= k 0) '() (cons k (down (- k 1)))))(length (down %d))(define (up k) (if (= k 0) 0 (+ 1 (up (- k 1)))))(up %d)(let loop ((i 0) (a '())) (if (= i %d) (length a) (loop (+ i 1) (cons i a))))(do ((i 0 (+ i 1)) (s 0 (+ s i))) ((= i %d) s))" % (min(n, 500), min(n, 500), min(n, 500), n)
    for n in MID:
        if n > (65 if quick else 129):
            continue
        for leaf in ("(set! c (+ c 1))", "(list x y)", "z"):
            P = L + "(define y 'gy)(define z 'gz)"
            yield P + nest("(let ((x (list x))) ", leaf, ")", n) + "c"
            yield P + nest("(let* ((x y) (y x)) ", leaf, ")", n) + "c"
            yield P + nest("((lambda (x) ", leaf, ") y)", n) + "c"
            yield P + nest("(begin (nx) ", leaf, ")", n) + nest("(if #t ", leaf, " 1)", n) + nest("(cond (#f 1) (else ", leaf, "))", n) + nest("(and 1 ", leaf, ")", n) + nest("(or #f ", leaf, ")", n) + "c"
            yield P + "(define f %s)" % nest("(lambda (x) ", leaf, ")", n + 1) + "%s" % nest("(", "f", " 1)", n + 1) + "c"
            yield P + nest("(car (list ", leaf, "))", n) + nest("(letrec ((x (lambda () y))) ", leaf, ")", n) + nest("(case 1 ((1) ", leaf, "))", n) + "c"
            yield P + nest("(do ((i 0 (+ i 1)) (x i x)) ((= i 1) x) ", leaf, ")", min(n, 12)) + "c"
    for n in SMALL:
        yield "(define (mk i) (lambda (d) (set! i (+ i d)) i))(define l (list %s))(map (lambda (f) (f 1)) l)(map (lambda (f) (f 10)) (reverse l))" % "".join("(mk %d)" % i for i in range(n))


def continuations(quick):
    T = "(define log '())(define (t v) (set! log (cons v log)) v)(define (show) (reverse log))(define n 0)(define k1 #f)(define ks '())"
    for n in MID if quick else BIG:
        if n > 300:
            continue
        # captured under n pending calls, entered from the top, from as deep, and from deeper
        for body in ("(+ 1 (down (- k 1)))", "(let ((r (down (- k 1)))) (+ r 1))", "(car (map (lambda (z) (+ 1 (down z))) (list (- k 1))))", "(apply + (list 1 (down (- k 1))))"):
            P = T + "(define (down k) (if (= k 0) (call/cc (lambda (c) (set! k1 c) 0)) %s))(define (deep k) (if (= k 0) (k1 100) (+ 1 (deep (- k 1)))))(define (up k f) (if (= k 0) (f) (+ 0 (up (- k 1) f))))" % body
            m = n if "map" not in body else min(n, 65)
            for b in (0, 1, m, m + 7):
                yield P + "(t (down %d))(set! n (+ n 1))(if (< n 3) (deep %d))(show)" % (m, b)
                yield P + "(t (up %d (lambda () (down %d))))(set! n (+ n 1))(if (< n 3) (k1 (* 1000 n)))(show)" % (b, m)
            yield P + "(call/cc (lambda (out) (up %d (lambda () (out 'escaped)))))(let ((r (call/cc (lambda (out) (up %d (lambda () (down 3) (out 'esc)))))) (q n)) (t r) (set! n (+ n 1)) (if (< n 3) (k1 5)) (list r q))(show)" % (m, m)
    for n in SMALL if quick else MID:
        # n continuations, entered in every rotation
        for s in {0, 1, 2, n // 2, n - 1}:
            if 0 <= s < max(n, 1):
                yield T + "(define todo '(%s))(for-each (lambda (i) (t (list i (call/cc (lambda (c) (if (< (length ks) %d) (set! ks (append ks (list c)))) i))))) '(%s))(if (pair? todo) (let ((i (car todo))) (set! todo (cdr todo)) ((list-ref ks i) (list 'again i))))(show)" % (" ".join(str((i * 3 + s) % n) for i in range(min(n, 8))), n, nums(n))
        yield T + "(define (gen l) (define ret #f) (define (go) (for-each (lambda (v) (call/cc (lambda (next) (set! go (lambda () (next #f))) (ret v)))) l) (ret 'end)) (lambda () (call/cc (lambda (r) (set! ret r) (go)))))(define g (gen '(%s)))(define h (gen '(a b c)))%s(show)" % (nums(n), "(t (list (g) (h)))" * (min(n, 20) + 2))
        yield T + "(define x (call/cc (lambda (c) (set! k1 c) 0)))(t x)(if (< x %d) (k1 (+ x 1)))(show)" % n
        yield T + "(define s '())(do ((i 0 (+ i 1))) ((= i %d)) (set! s (cons (+ i (call/cc (lambda (c) (set! k1 c) (if (= i 3) (c 1000)) 0))) s)))s(set! n (+ n 1))(if (< n 3) (k1 n))s" % n
        a = "(list %s (call/cc (lambda (c) (set! k1 c) 'first)) %s)" % (" ".join("(t %d)" % i for i in range(n // 2)), " ".join("(t %d)" % i for i in range(n // 2, n)))
        yield T + a + "(set! n (+ n 1))(if (< n 3) (k1 n))(show)"
        yield T + nest("(t (+ 1 ", "(call/cc (lambda (c) (set! k1 c) 0))", "))", n) + "(set! n (+ n 1))(if (< n 3) (k1 (* n 1000)))(show)"
        yield T + nest("(call/cc (lambda (k) (set! ks (cons k ks)) (t 'in) (let ((r ", "'leaf", ")) (t r) r)))", n) + "(set! n (+ n 1))(if (and (< n 4) (pair? ks)) ((list-ref ks (quotient (length ks) 2)) n))(show)"


def winds(quick):
    T = "(define log '())(define (t v) (set! log (cons v log)) v)(define (show) (reverse log))(define n 0)(define k1 #f)(define k2 #f)(define (w i f) (dynamic-wind (lambda () (t (list 'in i))) f (lambda () (t (list 'out i)))))"
    D = T + "(define (d k f) (if (= k 0) (f) (w k (lambda () (d (- k 1) f)))))"
    for n in SMALL if quick else MID:
        yield D + "(d %d (lambda () (t 'body)))(show)" % n
        yield D + "(call/cc (lambda (out) (d %d (lambda () (out 'esc)))))(show)(catch 'e (lambda () (d %d (lambda () (throw 'e 1)))) (lambda r (t r)))(show)(d %d (lambda () (car '())))(show)(w 'after (lambda () 1))(show)" % (n, n, n)
        yield D + "(t (d %d (lambda () (call/cc (lambda (c) (set! k1 c) 'first)))))(set! n (+ n 1))(if (< n 3) (k1 n))(show)" % n
        yield D + "(t (d %d (lambda () (call/cc (lambda (c) (set! k1 c) 'first)))))(set! n (+ n 1))(if (< n 3) (w 'x (lambda () (d 2 (lambda () (k1 n))))))(show)" % n
        yield T + "(define (s k) (if (> k 0) (begin (w k (lambda () k)) (s (- k 1)))))(s %d)(show)(for-each (lambda (i) (catch 'e (lambda () (w i (lambda () (throw 'e)))) list)) '(%s))(show)" % (n, nums(n))
    for n in range(0, 9 if quick else 14):  # two continuations with i winds in common, n and m of their own
        for m in range(0, 5 if quick else 10):
            for i in (0, 1, 2, 5) if quick else (0, 1, 2, 3, 5, 9, 17):
                yield D + "(d %d (lambda () (t (d %d (lambda () (call/cc (lambda (c) (set! k1 c) 'a))))) (t (d %d (lambda () (call/cc (lambda (c) (set! k2 c) 'b))))) 'done))(set! n (+ n 1))(if (< n 4) ((if (odd? n) k1 k2) n))(show)" % (i, n, m)


def catches(quick):
    T = "(define log '())(define (t v) (set! log (cons v log)) v)(define (show) (reverse log))"
    for n in SMALL if quick else MID:
        yield T + "(define (d k f) (if (= k 0) (f) (catch (if (odd? k) 'odd 'even) (lambda () (d (- k 1) f)) (lambda r (t (cons k r))))))(d %d (lambda () (throw 'odd 1)))(d %d (lambda () (throw 'even 1)))(d %d (lambda () (throw 'other 1)))(d %d (lambda () 'value))(show)" % (n, n, n, n)
        yield T + "(define (d k) (if (= k 0) (throw 'e 'base) (catch 'e (lambda () (d (- k 1))) (lambda r (t k) (throw 'e (cons k (cdr r)))))))(catch 'e (lambda () (d %d)) list)(show)" % n
        yield T + "(catch 'e (lambda () (throw 'e %s)) list)(catch #t (lambda () (throw 'f %s)) (lambda (k . r) (length r)))(catch 'e (lambda () (throw 'e %s)) (lambda (k%s) k))" % (nums(n), nums(n), nums(n), "".join(" a%d" % i for i in range(n)))
        k = "k" * max(n, 1)
        yield T + "(catch '%s (lambda () (throw '%s 1)) list)(catch '%sx (lambda () (catch '%s (lambda () (throw '%sx 2)) (lambda r 'wrong))) list)(catch #t (lambda () (throw '%s 3)) list)" % ((k,) * 6)


def modules(quick):
    T = "(define root (current-module))"
    for n in SMALL if quick else MID:
        ns = " ".join("e%d" % i for i in range(n))
        D = "(define-module (m) #:export (%s))" % ns + "".join("(define e%d '(v %d))" % (i, i) for i in range(n)) + "(define hidden 1)"
        pick = sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))
        see = "".join("(catch #t (lambda () %s) (lambda r 'none))" % v for v in ["e%d" % i for i in pick] + ["hidden", "e%d" % n])
        yield T + D + "(define-module (u) #:use-module (m))" + see + "(set-current-module root)" + see + "(use-modules (m))" + see
        yield T + "(define-module (m))" + "".join("(define-public e%d '(v %d))" % (i, i) for i in range(n)) + "(define hidden 1)(define-module (u))(use-modules (m))" + see
        # a chain of modules, and one that uses all of them
        ch = "".join("(define-module (m%d)%s)(define-public x%d %s)" % (i, " #:use-module (m%d)" % (i - 1) if i else "", i, "(cons %d x%d)" % (i, i - 1) if i else "'(0)") for i in range(n))
        yield T + ch + "(define-module (all) %s)(list %s)" % (" ".join("#:use-module (m%d)" % i for i in range(n)), " ".join("x%d" % i for i in range(n))) + "(set-current-module root)(use-modules %s)(list %s)" % (" ".join("(m%d)" % i for i in range(n)) or "(m)", " ".join("x%d" % i for i in range(n)))
        # the same name in n modules: which is seen, and each keeps its own
        same = "".join("(define-module (m%d))(define x '(x of %d))(define (get%d) x)(export x get%d)" % (i, i, i, i) for i in range(n))
        yield T + same + "".join("(set-current-module (resolve-module '(m%d)))x(set! x (list 'new x))" % i for i in pick) + "(define-module (all))" + "".join("(use-modules (m%d))" % i for i in pick) + "(list %s)" % " ".join("(get%d)" % i for i in pick) + ("x" if pick else "")
        nm = "(%s)" % " ".join("p%d" % i for i in range(max(n, 1)))
        if n < 40:
            yield T + "(define-module %s)(define-public y 'long)(define-module (p0 q))(define-public y 'other)(define-module (u) #:use-module %s)y(eq? (resolve-module '%s) (resolve-module '%s))" % (nm, nm, nm, nm)
        l = "s" * max(n, 1)
        yield T + "(define-module (%s))(define-public %s 'val)(define-module (%st))(define-public %st 'valt)(define-module (u) #:use-module (%s))%s(catch #t (lambda () %st) (lambda r 'none))" % ((l,) * 7)


def templates(quick):
    P = "(define a 'A)(define x '(1 2 3))(define (nx) (set! c (+ c 1)) c)(define c 0)"
    for n in SMALL if quick else MID:
        yield P + "`(%s)c" % " ".join(["q", ",(nx)", ",a", ",@x", "(,a)", "#(,(nx))"][i % 6] for i in range(n))
        yield P + "`#(%s)c" % " ".join(["q", ",(nx)", ",a", ",@x", "(,a)"][i % 5] for i in range(n))
        yield P + "`(%s . ,a)c" % " ".join(["q", ",(nx)"][i % 2] for i in range(n + 1)) + "`(%s ,@x %s)" % (nums(n), nums(n)) + "`(%s ,@'(%s))" % (nums(n), nums(n)) + "`(,@'(%s) . z)" % nums(n)
        yield P + "`" + nest("(b ", ",(nx)", ")", n) + "`" + nest("(", ",a", " ,(nx))", n) + "`" + nest("#(", ",a", ")", n) + "c"
        yield P + "(define-macro (m . r) `(list ,@r (quote ,(length r))))(m %s)c(define-macro (p %s) (list 'quote (list %s)))(p %s)" % (" ".join("(nx)" for _ in range(n)), " ".join("v%d" % i for i in range(n)), " ".join("v%d" % i for i in range(n)), " ".join(["(nx)", "a", "'q"][i % 3] for i in range(n)))
        yield P + "(define-macro (rep k e) (if (= k 0) ''end `(cons ,e (rep ,(- k 1) ,e))))(rep %d (nx))(define (f) (rep %d (nx)))(f)(f)" % (n, n)
        yield P + "(define-macro (id e) e)%s%sc" % (nest("(id ", "(nx)", ")", n), nest("(id (car (list ", "(nx)", ")))", n))
        yield "".join("(define-macro (m%d x) `(list 'm%d ,x))" % (i, i) for i in range(n)) + "".join("(m%d %d)" % (i, i) for i in range(n)) + nest("", " ".join("(m%d " % i for i in range(n)) + "'core" + ")" * n, "", 0)
    for n in range(0, 7 if quick else 12):  # levels
        for u in range(0, n + 2):
            yield P + "`" * n + "(k " + "," * u + "a)" if u <= n else P + "(quasiquote (k " + "`" * n + "," * u + "a))"
            yield P + "`(" * max(n, 1) + "k " + ",(" * min(u, n - 1 if n else 0) + "list a x" + ")" * min(u, n - 1 if n else 0) + ")" * max(n, 1)
            yield P + "`" * n + "#(k " + "," * min(u, n) + "a)"


def promises(quick):
    P = "(define n 0)(define log '())(define (t v) (set! log (cons v log)) v)"
    for n in SMALL if quick else MID:
        yield P + "(define ps (list %s))(map force ps)(map force (reverse ps))log" % " ".join("(delay (t %d))" % i for i in range(n))
        yield P + "(define (chain k) (if (= k 0) (delay (t 'end)) (let ((p (chain (- k 1)))) (delay (begin (t k) (cons k (force p)))))))(define c (chain %d))(force c)log(force c)log" % n
        yield P + "(define c %s)" % nest("(delay ", "(t 'core)", ")", n + 1) + "(define (all p k) (if (= k 0) p (all (force p) (- k 1))))(all c %d)(all c %d)log" % (n + 1, n + 1)
        yield P + "(define (from i) (cons i (delay (begin (t i) (from (+ i 1))))))(define s (from 0))(define (nth s k) (if (= k 0) (car s) (nth (force (cdr s)) (- k 1))))(nth s %d)(nth s %d)(nth s %d)log" % (n, n // 2, n + 1)
        # forced again %d times before it is done: the first value stays
        yield P + "(define p (delay (begin (set! n (+ n 1)) (if (< n %d) (list n (force p)) 'first))))(force p)n(force p)n" % max(n, 1)
        yield P + "(define p (delay (begin (set! n (+ n 1)) (if (< n %d) (throw 'again n) (list 'ok n)))))%s(force p)(eq? (force p) (force p))n" % (n, "(catch 'again (lambda () (force p)) list)" * n)


def calls(quick):
    P = "(define log '())(define (t v) (set! log (cons v log)) v)(define (rr . r) r)(define (r1 a . r) (list a r))"
    for n in BIG if not quick else MID + [200, 255, 256, 257, 1000]:
        ns = nums(n, 1)
        vs = " ".join("a%d" % i for i in range(n))
        F = P + "(define (f %s) (list %s))" % (vs, vs)
        for c in ("(f %s)" % ns, "(apply f '(%s))" % ns, "(apply f %s '())" % ns, "(apply f %s '(%s))" % (nums(n // 2, 1), nums(n - n // 2, n // 2 + 1)), "(call-with-values (lambda () (values %s)) f)" % ns, "(apply apply f '(%s) '())" % ("(%s)" % ns)):
            yield F + c + c.replace("f", "rr", 1) if "apply apply" not in c else F + c
        yield F + "(catch #t (lambda () (f 0 %s)) (lambda (k . r) k))(catch #t (lambda () (f %s)) (lambda (k . r) (if (list? r) k)))(catch #t (lambda () (apply f '(0 %s))) (lambda (k . r) k))" % (ns, nums(n - 1) if n else "1", ns)
        for p in ("+", "*" if n < 21 else "-", "-", "max", "min", "list", "vector", "<", "=", ">=", "append", "values", "gcd", "lcm" if n < 21 else "gcd"):
            if n or p in ("+", "list", "vector", "append"):
                a = ns if p != "append" else " ".join("'(%d)" % i for i in range(n))
                if p == "values" and n != 1:
                    continue
                yield P + "(%s %s)(apply %s (list %s))(let ((g %s)) (g %s))(%s %s)" % (p, a, p, a, p, a, p, " ".join("(t %s)" % x for x in a.split(" ")) if n else "")
        yield P + "(string-append %s)(apply string-append '(%s))(apply string '(%s))" % (" ".join("\"s%d\"" % i for i in range(n)), " ".join("\"s%d\"" % i for i in range(n)), " ".join("#\\a" for i in range(n)))
        yield P + "(define l '(%s))(map t l)(map-in-order t l)(for-each t l)log(map + l l)(map (lambda r r) l l l)(apply map list (list l l))(eq? (map t l) l)" % ns
        if n <= 65 or not quick:
            ls = " ".join("'(%d %d %d)" % (i, i * 2, i * 3) for i in range(n)) or "'()"
            yield P + "(map (lambda r (t r)) %s)(for-each (lambda r (t r)) %s)(apply map list (list %s))log(map + %s)" % (ls, ls, ls, ls)
        yield P + "(rr %s)log" % " ".join("(t %d)" % i for i in range(n)) + "(apply rr %s (list %s))log" % (" ".join("(t %d)" % i for i in range(n // 2)), " ".join("(t %d)" % i for i in range(n // 2, n)))
        if n <= 65:
            yield P + "(define (nest k) (if (= k 0) '() (apply cons (list k (nest (- k 1))))))(nest %d)(define (mn k) (if (= k 0) 0 (car (map (lambda (z) (+ 1 (mn z))) (list (- k 1))))))(mn %d)" % (n, n)


def equalities(quick):
    for n in MID if quick else BIG:
        for i in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))) or [0]:
            a = nums(n)
            b = " ".join("x" if j == i else str(j) for j in range(n))
            st, su = "a" * n, "a" * i + "b" + "a" * (n - i - 1)
            yield "(define l '(%s))(define m (list %s))(define o '(%s))(equal? l m)(equal? m l)(equal? l o)(equal? o l)(equal? l (append m '(z)))(equal? (cdr (cons 0 l)) m)(eqv? l m)(equal? (append l 'z) (append m 'z))(equal? (append l 'z) (append o 'z))(equal? l (append m 'z))" % (a, a, b)
            yield "(define l (vector %s))(define m (vector %s))(define o (list->vector '(%s)))(equal? l m)(equal? l o)(equal? o l)(equal? l (list->vector '(%s z)))(equal? l '(%s))(member m (list o l))(assoc l (list (cons o 1) (cons m 2)))" % (a, a, b, a, a)
            yield "(define s \"%s\")(define t (string-append \"%s\" \"\"))(define u \"%s\")(equal? s t)(equal? s u)(equal? u s)(equal? s (string-append t \"a\"))(equal? (string->symbol s) (string->symbol t))(equal? (string->symbol s) (string->symbol u))(eq? (string->symbol s) (string->symbol t))(eqv? (string->symbol s) (string->symbol u))" % (st, st, su)
        if n <= 500:
            for o, c in (("(", ")"), ("#(", ")"), ("(a ", ")"), ("(a . ", ")"), ("(#(", "))"), ("(", " b)")):
                if o == "(a . " and quick and n > 130:
                    continue
                x, y = nest(o, "x", c, n), nest(o, "y", c, n)
                yield "(define p '(%s))(define q '(%s))(define r '(%s))(define s '(%s))(equal? p q)(equal? p r)(equal? r p)(equal? p s)(equal? q s)" % (x, x, y, nest(o, "x", c, n + 1))
