"""P21: what an embedding registers and asks for.  Histories of host steps (see src/host.hh) and evaluations are
run on the code and on the reference machine."""
import itertools
import driver

A = "\x1dA"
FIXED = {"rec0": 0, "rec1": 1, "rec2": 2, "rec3": 3, "id": 1, "thr": 2, "ithr": 2, "err": 1, "app": 2, "catch": 2, "lazy": 2, "def": 2, "look": 1, "mod": 2, "mlook": 2, "mdef": 3, "use": 1, "conv": 2, "port": 1,
         "inport": 1, "force": 1, "mk": 2, "get": 1, "set": 3, "isa": 2, "chk": 2}


def hist(*steps):
    return A + "\x1b".join(steps)


def reg(*names):
    """steps that register host functions as h:NAME, with their own numbers of arguments"""
    return ["Rh:%s %s %d 0 0" % (n, n, FIXED[n]) if n in FIXED else "Rh:%s %s %s" % (n, n, {"cb": "1 0 1", "recv": "0 0 1", "mk3": "3 1 0"}[n]) for n in names]


def arity(level):
    sigs = [("rec%d" % n, n, 0, 0) for n in range(4)] + [("recv", r, o, x) for r in range(5) for o in range(4) for x in (0, 1) if o + x]
    for fn, r, o, x in sigs:
        d = "Rf %s %d %d %d" % (fn, r, o, x)
        for n in range(7):
            a = " ".join(["1", "'b", "\"c\"", "(list 4 5)", "6.5", "#\\g"][:n])
            E = ["(f %s)" % a, "(apply f (list %s))" % a, "(let ((g f)) (g %s))" % a, "((lambda r (apply f r)) %s)" % a, "(call-with-values (lambda () (values %s)) f)" % a, "(catch #t (lambda () (f %s)) (lambda r 'wrong))" % a,
                 "(h:cb f %s)" % a, "(h:app f (list %s))" % a, "(f %s)" % " ".join("(begin (set! n (+ n 1)) (list n %s))" % y for y in ["1", "'b", "\"c\"", "4", "5", "6"][:n]), "(map (lambda (x) (f %s)) '(1 2))" % a, "(dynamic-wind (lambda () 1) (lambda () (f %s)) (lambda () 2))" % a,
                 "(force (delay (f %s)))" % a, "(let loop ((i 0) (r '())) (if (= i 3) r (loop (+ i 1) (cons (f %s) r))))" % a, "(h:catch 'k (lambda () (f %s)))" % a, "(h:mod \"(other)\" (lambda () (f %s)))" % a, "(h:conv 'ev '(f %s))" % a, "(eval '(f %s))" % a]
            if n:
                E += ["(map f %s)" % " ".join(["'(1 2 3)", "'(a b c)", "'(\"x\" \"y\" \"z\")", "'(7 8 9)", "'(g h i)", "'(0 1 2)"][:n]), "(for-each f %s)" % " ".join(["'(1 2 3)", "'(a b c)", "'(\"x\" \"y\" \"z\")", "'(7 8 9)", "'(g h i)", "'(0 1 2)"][:n]), "(apply f 0 (list %s))" % " ".join(["'b", "\"c\"", "(list 4 5)", "6.5", "#\\g"][:n - 1])]
            yield hist(d, *(reg("cb", "app", "catch", "mod", "conv") + ["S(define n 0)"] + ["S" + e for e in E] + ["Sn", "Cf (list %s)" % a, "T(f %s)" % a, "E(f %s)" % a, "S(procedure? f)"]))


NAMES = ["x", "car", "list"]
DEFS = ["D%s 1", "D%s (list 2 \"two\")", "D%s (lambda (y) (list 'program y))", "R%s rec1 1 0 0", "R%s recv 0 0 1", "S(begin (define %s 5) 'ok)", "S(begin (define (%s y) (list 'scheme y)) 'ok)", "S(begin (set! %s 6) 'ok)", "S(let ((%s 8)) (set! %s 9) %s)",
        "S(h:def '%s 7)", "S(begin (define (g) (%s 3)) 'ok)", "S(begin (define m %s) 'ok)", "S(h:mod \"(m)\" (lambda () (h:def '%s 'inm)))", "S(begin (define-module (m2)) 'ok)", "Ms (m)", "D%s (let ((p 0)) (lambda (y) (set! p (+ p y)) p))", "Ms (guile-user)"]
LOOK = ["S(catch #t (lambda () (let ((v %s)) (if (procedure? v) (list 'result (v 3)) v))) (lambda r 'none))", "S(catch #t (lambda () (g)) (lambda r 'none))", "S(catch #t (lambda () (let ((v (h:look '%s))) (if (procedure? v) (list 'looked (v 3)) v))) (lambda r 'none))",
        "L%s", "S(catch #t (lambda () (%s 4)) (lambda r 'none))", "S(catch #t (lambda () (if (procedure? m) (m 4) m)) (lambda r 'none))"]


def definitions(level):
    for name in NAMES:
        D = [d.replace("%s", name) for d in DEFS]
        P = [l.replace("%s", name) for l in LOOK]
        for n in range(1, 4 + level):
            for t in itertools.product(D, repeat=n):
                if n > 3 and (t[0][0] == "M" or "S(let" in "".join(t)):
                    continue
                yield hist(*(reg("def", "look", "mod") + ["S(define (g) 'g0)", "Mc"] + [y for s in t for y in ((s,) + (("L" + name,) if n < 4 else ()))] + P))
    # many host names at once, looked up in the other order
    for n in (10, 100, 300):
        for kind in ("D%s %d", "R%s recv 0 0 1", "S(define %s %d)"):
            st = [kind % (("v%d" % i, i) if "%d" in kind else "v%d" % i) for i in range(n)]
            yield hist(*(st + [("S(v%d %d)" if kind[0] == "R" else "Sv%d") % ((i, i) if kind[0] == "R" else i) for i in reversed(range(n))] + ["S(list %s)" % " ".join(("(v%d)" if kind[0] == "R" else "v%d") % i for i in range(n))]))


MODS = ["Md (m) x 1", "Md (m) y (list 'm \"y\")", "Md (m n) x 'mn", "Ml (m) x", "Ml (m) car", "Ms (m)", "Mu (m)", "Mu (m n)", "Mw (m) (begin (define y 'w) (list 'in (catch #t (lambda () x) (lambda r 'no))))", "Mw (m) (car '())", "Mn (m3) (begin (define z 3) (list z (catch #t (lambda () x) (lambda r 'no))))",
        "Ms (pscm-user)", "S(begin (define x 5) 'ok)", "Dx 7", "S(begin (use-modules (m)) 'ok)", "S(begin (define-module (m)) 'ok)", "S(begin (export x) 'ok)", "S(h:mod \"(m)\" (lambda () (h:def 'x 'hm) (h:look 'x)))", "S(h:mdef '\"(m)\" 'x 'md)", "S(begin (h:use \"(m n)\") 'ok)",
        "S(h:mod \"(m n)\" (lambda () (throw 'out 1)))", "S(begin (set! x (list 'set x)) 'ok)", "S(h:mod \"(m)\" (lambda () (eval '(begin (define x 'ev) 'ok))))", "S(define-module (m n) #:use-module (m))", "R x rec1 1 0 0".replace("R ", "R"), "S(let ((k2 k)) (h:mod \"(m)\" (lambda () (call/cc (lambda (c) (set! k c) (current-module)))))))"]
MLOOK = ["Mc", "S(current-module)", "S(catch #t (lambda () (if (procedure? x) 'proc x)) (lambda r 'none))", "S(catch #t (lambda () y) (lambda r 'none))", "S(catch #t (lambda () (h:mlook \"(m)\" 'y)) (lambda r 'none))", "Ms (pscm-user)", "S(catch #t (lambda () (if (procedure? x) 'proc x)) (lambda r 'none))", "Ms (m n)",
         "S(catch #t (lambda () (if (procedure? x) 'proc x)) (lambda r 'none))", "S(catch #t (lambda () y) (lambda r 'none))", "Ms (m3)", "S(catch #t (lambda () z) (lambda r 'none))", "S(catch #t (lambda () (if (procedure? x) 'proc x)) (lambda r 'none))"]


def modules(level):
    for n in range(1, 4 + level):
        for i, t in enumerate(itertools.product(MODS if n < 5 else MODS[:3] + MODS[5:16:2] + MODS[17:20] + MODS[23:24], repeat=n)):
            if n > 3 and i % 3 and len(set(t)) == n:
                continue
            yield hist(*(reg("def", "look", "mod", "mlook", "mdef", "use") + ["S(define k #f)"] + [y for s in t for y in ((s, "Mc") if n < 4 else (s,))] + MLOOK))


FRAMES = ["(h:cb (lambda () (set! d (+ d 1)) (h:rec1 'in) %s))", "(h:cb (lambda (a . r) (h:rec1 r) %s) 1 2 3 4 5)", "(h:catch 'a (lambda () %s))", "(h:catch #t (lambda () %s))", "(h:lazy 'a (lambda () %s))", "(h:lazy #t (lambda () %s))", "(h:mod \"(m)\" (lambda () %s))", "(h:app (lambda (p q) %s) (list 1 2))",
          "(dynamic-wind (lambda () (h:rec1 'before)) (lambda () %s) (lambda () (h:rec1 'after)))", "(catch 'a (lambda () %s) (lambda r (h:rec1 'handler) (if (pair? (cdr r)) (cadr r) 'h)))", "(catch #t (lambda () %s) (lambda (key . r) (h:rec1 'all) key))", "(call/cc (lambda (k) %s))", "(let ((v %s)) (h:rec1 v) (list v))",
          "(map (lambda (i) %s) '(1 2))", "(h:conv 'ev '%s)", "(list 'l %s (h:rec1 'right))", "(force (delay %s))", "(h:rec2 'arg %s)", "(apply h:cb (list (lambda (z) %s) 'z))", "(h:id (begin (h:rec1 'id) %s))"]
LEAVES = ["1", "(throw 'a 1)", "(throw 'b 2 3)", "(car '())", "(h:thr 'a 4)", "(h:ithr 'b 5)", "(h:err 6)", "(k 7)", "(let ((i (call/cc (lambda (c) (set! kk c) 0)))) (h:rec1 i) (if (and (procedure? kk) (< i 2)) (kk (+ i 1)) i))", "(begin (set! kk k) 'saved)", "(h:cb (lambda () (k 8)))", "(current-module)",
          "(h:cb k 9)", "(values 1)", "(h:rec0)", "(h:recv 1 \"s\" '(l))"]
CPRE = reg("cb", "catch", "lazy", "app", "rec0", "rec1", "rec2", "recv", "thr", "ithr", "err", "mod", "conv", "id") + ["S(define kk #f)", "S(define n 0)", "S(define d 0)"]
CPOST = ["S(list n d)", "S(current-module)", "S(begin (set! d 0) (h:catch #t (lambda () (throw 'later 1))))", "S(throw 'outside 1)", "S(dynamic-wind (lambda () (h:rec1 'i)) (lambda () 1) (lambda () (h:rec1 'o)))"]
AGAIN = "S(let ((r %s)) (h:rec1 r) (set! n (+ n 1)) (if (and kk (< n 3)) (let ((c kk)) (set! kk #f) (c (+ 100 n))) (list 'end n)))"


def control(level):
    def nest(fs, leaf):
        e = leaf
        for f in reversed(fs):
            e = f.replace("%s", e)
        return e
    for depth in range(0, 3 + level):
        for fs in itertools.product(FRAMES, repeat=depth):
            bound = any("(k)" in f for f in fs)
            for leaf in LEAVES:
                if not bound and ("(k " in leaf or " k)" in leaf or " k " in leaf):
                    continue
                if depth > 2 and fs[0] in (FRAMES[15], FRAMES[17], FRAMES[19], FRAMES[16]):
                    continue
                e = nest(fs, leaf)
                yield hist(*(CPRE + ["S" + e] + (["T" + e, "C(lambda_() %s) '()".replace("_", "") % e if " " not in e else "S" + e] if depth < 2 else []) + ([AGAIN % e] if "conv" not in e and "set! kk k" in e or depth < 2 and "conv" not in e else []) + CPOST))
    # a host call in a deep recursion, and a deep recursion of host calls
    for n in (1, 5, 30):
        yield hist(*(CPRE + ["S(define (deep i) (if (= i 0) 'bottom (h:cb (lambda () (list (deep (- i 1)))))))", "S(deep %d)" % n, "S(define (deep2 i) (if (= i 0) (h:thr 'a 1) (h:catch 'b (lambda () (deep2 (- i 1))))))", "S(h:catch 'a (lambda () (deep2 %d)))" % n, "S(deep2 %d)" % n] + CPOST))


VALUES = ["0", "1", "-1", "7", "2147483647", "-2147483648", "123456789", "1.5", "-0.25", "1e10", "0.1", "100.0", "1/3", "-7/2", "#t", "#f", "#\\a", "#\\space", "#\\newline", "#\\0", "\"\"", "\"a\"", "\"hello world\"", "\"line\\nnext\"", "\"q\\\"uo\\\\te\"", "(make-string 300 #\\x)", "\"(a b)\"", "\"(+ 1 2)\"", "\"'x\"", "\"\\\"s\\\"\"", "\"1 2\"", "\"(\"", "\"#t\"",
          "\"#\\\\a\"", "'sym", "'|a b|", "'()", "'(1 2)", "'(1 . 2)", "(list \"s\" #\\c 'd 1.5)", "(vector 1 2)", "#(a (b))", "'(+ 1 2)", "'(car '())", "'unbound-name-here", "'(throw 'a 1)", "'(begin 1 2)", "'(let ((x 3)) (list x x))", "'(lambda (x) x)", "'(1 2)", "'(quote q)", "(current-output-port)", "(make-hash-table 3)", "(string #\\a #\\b)", "(string->symbol \"sy m\")", "(symbol->string 'abc)",
          "'(define newly 5)", "'newly"]
KINDS = ["int", "big", "dbl", "chr", "str", "strz", "cstr", "sym", "symn", "symstr", "bool", "l1", "l3", "cons", "ev", "parse", "var", "novar", "nosuch", "preds", "mkvar", "es"]


def conversions(level):
    for t in ("1 2 3", "(define q 1) q", "(begin (define (q x) (* 2 x)) (q 4))", "(car '())", "1 (car '()) 2", "(define r '()) (set! r (cons 1 r)) (set! r (cons 2 r)) r", "(throw 'a 1)", "(call/cc (lambda (c) (c 5) 6)) ", "'a 'b", "; c\\n 5", "#t #f"):
        yield hist(*(reg("conv", "catch") + ["S(h:conv 'es \"%s\")" % t, "S(catch #t (lambda () (h:conv 'es \"%s\")) (lambda r 'caught))" % t, "S(h:catch 'a (lambda () (h:conv 'es \"%s\")))" % t, "S(catch #t (lambda () q) (lambda r 'none))", "S(let ((q 7)) (h:conv 'es \"%s\") q)" % t, "S(catch #t (lambda () r) (lambda r 'none))"]))
    for k in KINDS:
        for v in VALUES:
            if v in ("(current-output-port)", "(make-hash-table 3)") and k in ("l1", "l3", "cons", "var", "ev"):
                continue
            q = "(let ((r (h:conv '%s %s))) (if (procedure? r) (list 'procedure (r 1)) r))" % (k, v)
            yield hist(*(reg("conv", "rec1", "recv", "id", "cb") + ["S(define-module (m))", "Ms (guile-user)", "S" + q, "S(h:id %s)" % v, "S(eq? (h:conv '%s %s) (h:conv '%s %s))" % (k, v, k, v), "S(equal? (h:conv '%s %s) %s)" % (k, v, v), "S(let ((v %s)) (eq? (h:id v) v))" % v, "S(let* ((v %s) (l (h:recv v 1 v))) (eq? (car l) (caddr l)))" % v,
                              "S(catch #t (lambda () (let ((r (h:conv '%s %s))) (list (number? r) (string? r) (symbol? r) (pair? r) (char? r) (boolean? r)))) (lambda r 'failed))" % (k, v), "S(h:cb (lambda (a) (h:conv '%s a)) %s)" % (k, v)] + (["S(h:rec1 %s)" % v, "Dval %s" % v, "Lval", "Sval", "Ch:id (list %s)" % v] if v not in ("(current-output-port)", "(make-hash-table 3)") else [])))
        if v[0] != "(" or v[1] == "m" and "string" in v:
            yield hist(*(reg("conv") + ["Dv (h:conv 'mkvar %s)" % v, "S(list (variable? v) (variable-bound? v) (variable-ref v))", "S(begin (variable-set! v (list 1 (variable-ref v))) (variable-ref v))", "S(h:conv 'var (variable-ref v))", "Dw (h:conv 'undef 0)", "S(variable-bound? w)", "S(variable-ref w)", "S(begin (variable-set! w %s) (list (variable-bound? w) (variable-ref w)))" % v, "S(h:conv 'preds v)",
                                           "Lv", "S(eq? v (h:conv 'var v))"]))
    for a in VALUES:
        for b in VALUES:
            yield hist(*(reg("conv") + ["S(h:conv 'eqs (list %s %s))" % (a, b), "S(let ((x %s)) (h:conv 'eqs (list x x)))" % a, "S(h:conv 'app2 (list %s %s))" % (a, b), "S(let* ((x %s) (r (h:conv 'app2 (list (list 1 2) x)))) (list (length (list r)) r))" % a]))
            if a != b and "port" not in a + b and "hash" not in a + b and a[:2] != "'(" and b[:2] != "'(":
                yield hist(*(reg("conv", "recv") + ["Da %s" % a, "Db %s" % b, "S(list a b (h:conv 'str a) (h:conv 'str b))", "S(list a b (h:conv 'dbl a))", "S(list (h:conv 'int a) (h:conv 'int b) (h:conv 'int a))", "S(list (h:conv 'chr a) (h:conv 'chr b))", "S(let ((x (h:conv 'symn a))) (h:conv 'symn b) (list x a b))", "S(h:recv a b a b)", "S(equal? a b)", "La", "Lb"]))


SMK = ["(h:mk 0 5)", "(h:mk 0 15)", "(h:mk 0 6)", "(h:mk 1 5)", "(h:mk 1 6)", "(h:mk 2 5)", "(h:mk 2 15)", "(h:mk3 0 5 7 9)", "(h:mk3 1 5 7)", "(h:mk 0 -3)", "(scm-make-smob ptype 5)", "(scm-make-smob ptype 15)", "5", "\"s\"", "'(1)"]
SUSE = ["%a", "(list %a %a)", "(h:get %a)", "(equal? %a %b)", "(eq? %a %b)", "(eqv? %a %b)", "(eq? %a %a)", "(equal? %a %a)", "(equal? (list 1 %a) (list 1 %b))", "(equal? (vector %a 2) (vector %b 2))", "(equal? (list %a) (list %a))", "(if (member %a (list 1 %b %a)) (length (member %a (list 1 %b %a))) 'no)", "(assoc %a (list (cons 1 2) (cons %b 3)))",
        "(%a)", "(%a 1)", "(%a 1 \"two\")", "(%a 1 (lambda (x) (list 'called x)) 3)", "(%a 1 2 3)", "(%a 1 2 3 4)", "(apply %a '(1 2))", "(map %a '(1 2 3))", "(for-each %a '(1 2))", "(h:cb %a 1 2)", "(h:app %a '(1))", "(let ((r (h:catch #t (lambda () (%a 1 2 3 4 5))))) r)", "(procedure? %a)", "(list (number? %a) (symbol? %a) (string? %a) (vector? %a) (null? %a))", "(if %a 'true 'false)",
        "(call-with-output-string (lambda (p) (display %a p) (write %a p) (display (list \"s\" %a) p) (write (vector %a \"s\") p)))", "(begin (display %a) (newline) (write %a) (display \"/\") (display (list %a 'x %b)) 'shown)", "(list (h:isa 0 %a) (h:isa 1 %a) (h:isa 2 %a))", "(h:chk 0 %a)", "(h:chk 1 %a)", "(h:chk 2 %a)", "(h:set %a 0 9)",
        "(begin (h:set %a 1 21) (h:set %a 2 22) (h:set %a 3 23) (list (h:get %a) (h:get %b)))", "(let ((k (list %a))) (h:set (car k) 0 4) (list k %a (h:get %a)))", "(scm-smob? %a)", "(catch #t (lambda () (car %a)) (lambda r 'no))", "(catch #t (lambda () (%a 1 car car)) (lambda r 'no))", "(call-with-values (lambda () (values 1 2)) %a)", "(h:conv 'var %a)", "(h:conv 'l3 %a)", "(call/cc %a)",
        "(dynamic-wind %a (lambda () 1) %a)", "(h:rec1 %a)", "(let ((h (make-hash-table 5))) (hash-set! h %a 1) (list (hash-ref h %a) (hash-ref h %b)))", "`(q ,%a ,@(list %a))", "(eval (list 'quote %a))", "(list-copy2 (list %a))", "(vector-ref (make-vector 3 %a) 2)", "(length (list %a))", "(%a (%a) (%a))", "(let loop ((i 0)) (if (< i 40) (begin (list %a (make-vector 9 i)) (loop (+ i 1))) %a))"]
SPRE = reg("mk", "mk3", "get", "set", "isa", "chk", "cb", "app", "catch", "conv", "rec1") + ["S(define ptype (scm-make-smob-type \"ptype\" 0))"]


def objects(level):
    for a, b in itertools.product(SMK, repeat=2):
        for u in SUSE:
            if "%b" not in u and b != SMK[0]:
                continue
            if "ptype" in a and ("h:get" in u or "h:set" in u):
                pass
            yield hist(*(SPRE + ["S(begin (define a %s) (define b %s) 'ok)" % (a, b), "S" + u.replace("%a", "a").replace("%b", "b"), "Sa", "S(list a b)"]))
    O = ["S(h:set a 0 3)", "S(h:set a 1 4)", "S(h:set a 2 5)", "S(h:set a 3 6)", "S(h:set b 0 13)", "S(begin (set! b a) 'ok)", "S(begin (set! a %s) 'ok)" % SMK[4], "S(equal? a b)", "S(a 1)", "Da (h:mk 0 8)", "S(begin (set! b (car (h:conv 'cons a))) 'ok)", "S(begin (define p2 (scm-make-smob-type \"p2\" 0)) (set! a (scm-make-smob p2 4)) (scm-smob-data a))"]
    for m in ("(h:mk 0 5)", "(h:mk 1 5)", "(h:mk 2 5)"):
        for n in range(1, 4 + level):
            for t in itertools.product(O, repeat=n):
                yield hist(*(SPRE + ["S(begin (define a %s) (define b %s) 'ok)" % (m, SMK[0])] + [y for s in t for y in (s, "S(list a b)")] + ["S(list (h:get a) (h:get b) (h:isa 0 a) (h:isa 1 a) (h:isa 2 a))"]))
    # as many types as there can be
    for n in (100, 252, 253, 300):
        yield hist(*(SPRE + ["S(begin (define ts '()) (do ((i 0 (+ i 1))) ((= i %d)) (set! ts (cons (scm-make-smob-type \"many\" 0) ts))) (length ts))" % n, "S(h:mk 0 5)", "S(let ((o (scm-make-smob (car ts) 77))) (list o (scm-smob-data o) (equal? o o) (h:isa 0 o)))" if n < 253 else "Sptype2", "S(scm-make-smob ptype 3)", "S((h:mk 0 5) 1)"]))


FAIL = ["S(car '())", "S(throw 'a 1)", "Sunbound", "S(h:err 1)", "S(h:thr 'a 1)", "Lunbound", "Dz (car '())", "Ch:rec1 '()", "Ch:rec1 '(1 2)", "Ch:err '(1)", "C(car_'()) '()".replace("_", " "), "Ml (m) unbound", "Ml m x", "Md (m) x (car 1)", "Ms (", "Mw (m) (throw 'b 1)", "O(list 1)", "I5", "O(car 1)", "S(", "S)", "E(car '())", "S(h:catch 'zz (lambda () (throw 'a 1)))",
        "S(h:conv 'ev '(car '()))", "S(h:conv 'parse \"(\")", "S(list 1 (h:conv 'ev '(throw 'a 1)) 2)", "S(catch #t (lambda () (car '())) (lambda r 'caught))", "S(h:catch #t (lambda () (h:err 3)))", "Mu )", "P(car '())\x20(+ 1 2)", "T(car '())", "Mn (m9) (car '())", "D z", "S(dynamic-wind (lambda () (h:rec1 'i)) (lambda () (h:err 2)) (lambda () (h:rec1 'o)))"]
OKS = ["S(+ 1 2)", "Lcar2", "Dcar2 3", "Ch:rec1 '(1)", "Ms (m)", "H1", "H0", "Md (m) w 4", "O(begin (define op (open-output-string)) op)", "S(begin (display \"text\") 'shown)"]


def handler(level):
    ALL = FAIL + OKS
    for n in range(1, 3 + level):
        for t in itertools.product(ALL, repeat=n):
            if n > 2 and (t[0] not in FAIL or t[1] in FAIL and t[2] in FAIL and t[1] != t[0]):
                continue
            for h in (("H1",), ("H1", "H0"), ("H0", "H1", "H1"), ()):
                if n > 2 and h != ("H1",):
                    continue
                if any(x[0] == "P" or x[:2] in ("D ",) for x in t):
                    continue
                yield hist(*(reg("rec1", "err", "thr", "catch", "conv") + list(h) + list(t) + ["S(h:rec1 'still)", "S(car 'last)", "Mc"]))


PORTS = ["S(h:port p1)", "S(h:port p2)", "O p1".replace("O ", "O"), "Op2", "S(begin (display \"a\") 'ok)", "S(begin (write \"b\") (newline) 'ok)", "S(begin (display 'c p1) 'ok)", "S(h:force p1)", "S(h:inport i1)", "Ii1", "S(read-char)", "S(read)", "S(peek-char)", "S(let ((old (h:port p2))) (display \"in\") (h:port old) (display \"out\") 'ok)", "S(call-with-output-string (lambda (q) (h:port q) (display \"s\")))",
         "S(catch #t (lambda () (h:port p2) (car '())) (lambda r (display \"caught\") 'c))", "S(h:port i1)", "S(h:inport p1)", "S(h:port 5)", "S(eq? (h:port p1) p1)", "S(list (eq? (h:conv 'curout 0) p1) (eq? (h:conv 'curout 0) p2) (eq? (h:conv 'curin 0) i1) (eq? (h:conv 'curout 0) (current-output-port)))"]


def ports(level):
    for n in range(1, 4 + level):
        for t in itertools.product(PORTS, repeat=n):
            if n > 3 and t[0][-1] in ")" and "port" not in t[0]:
                continue
            yield hist(*(reg("port", "inport", "force", "conv") + ["S(define p1 (open-output-string))", "S(define p2 (open-output-string))", "S(define i1 (open-input-string \"ab (c d) e\"))", "S(define i2 (open-input-string \"x y z w\"))", "Ii2"] + list(t) + ["S(get-output-string p1)", "S(get-output-string p2)", "S(begin (display \"end\") 'ok)", "S(get-output-string p1)", "S(list (peek-char i1) (peek-char i2))"]))


GROUPS = [("procedures", arity), ("definitions", definitions), ("modules", modules), ("callbacks", control), ("conversions", conversions), ("objects", objects), ("errors", handler), ("ports", ports)]


def collected(quick):
    """histories in which the collector runs wherever it can"""
    for name, g in GROUPS:
        step = {"definitions": 97, "modules": 89, "callbacks": 23, "conversions": 41, "objects": 47, "errors": 37, "ports": 101, "procedures": 5}[name] if quick else 7
        for i, p in enumerate(g(0)):
            if i % step == 0:
                yield "\x1cR\x1c" + p


def check(run):
    for name, g in GROUPS:
        run.cov[name + "_histories"] = driver.compare(run, g(1 if run.quick else 2), label=name)
    run.cov["collected_histories"] = driver.compare(run, collected(run.quick), args=("--fast-ms", "12000"), label="collections")
