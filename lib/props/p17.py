import itertools
import driver
import sizes


def files(fs, prog):
    return "\x1dW" + "\x19".join("%s\x19%s" % f for f in fs) + "\x1d" + prog


PRE = "(define root (current-module))(define n 0)(define log '())(define (note! x) (set! log (cons x log)) x)"


def try_(e):
    return "(catch #t (lambda () %s) (lambda r 'none))" % e


def see(*names):
    return "(list %s)" % " ".join(try_(x) for x in names)


# ---- 1. histories of definitions, exports, uses and assignments in two modules and the initial one
MODS = ["(ma)", "(mb)"]
OPS = ["(define x %d)", "(define y %d)", "(export x)", "(use-modules OTHER)", "(define (f) (list x %d))", "(export f)", "(set! x %d)", "(define-public z %d)", "(define-macro (m a) (list '+ a x))", "(export m)", "(re-export x)",
       "(define (s v) (set! x v))", "(export s)", "(define (car v) %d)", "(export y)", "(define-public (g) (y))"]
CORE = [0, 2, 3, 4, 5, 6, 10]
LOOK = see("x", "y", "(f)", "z", "(m 5)", "(begin (s 90) x)", "(car '(1 2))", "(g)", "x")


def histories(ops, n):
    alphabet = [(m, op) for m in range(2) for op in ops]
    for h in itertools.product(alphabet, repeat=n):
        # a history that starts in the second module is one that starts in the first with the names exchanged
        if h[0][0]:
            continue
        yield h


def spell(h, final=True):
    out = [PRE + "(define-module (mb))"]
    at = None
    for i, (m, op) in enumerate(h):
        if m != at:
            out.append("(define-module %s)" % MODS[m])
            at = m
        t = op.replace("OTHER", MODS[1 - m])
        out.append(t % (i + 1 + 10 * m) if "%d" in t else t)
    if final:
        out.append("(define-module (ma))" + LOOK + "(define-module (mb))" + LOOK + "(define-module (mc))" + LOOK + "(use-modules (ma))" + LOOK + "(use-modules (mb))" + LOOK + "(set-current-module root)" + LOOK + "(use-modules (mb))" + LOOK + "(use-modules (ma))" + LOOK)
    return "".join(out)


# ---- 2. modules in files: what each file does, in which order, and how the program comes to use it
HEAD = ["", "(define-module (%s))", "(define-module (%s) #:export (x f))", "(define-module (%s) #:use-module (%s) #:export (x f))", "(define-module (%s) #:use-module (%s))"]
BODY = ["(define x '%s)", "(define (f) (note! (list '%s x y)))", "(define y (note! 'y%s))", "(export x f)", "(use-modules (%s))", "(throw 'boom 1)", "(f)", "(define x (list 'again x))"]
USES = ["(use-modules (ma))", "(use-modules (mb))", "(resolve-module '(ma))", "(module-use! (current-module) '(mb))", "(use-modules (ma) (mb))", "(define-module (mc))", "(define-module (mc) #:use-module (ma))", "(set-current-module root)",
        "(define-module (mc) #:autoload (ma) (x f))", "(module-ref (resolve-module '(mb)) 'x 'absent)", "(define x 'mine)"]
PEEK = "log " + see("x", "(f)", "y") + "(eq? (current-module) root)"


def text(spec, me, other):
    out = []
    for t in spec:
        k = t.count("%s")
        if "use-module" in t and k == 1:
            out.append(t % other)
        else:
            out.append(t % ((me, other)[:k] if "module" in t else (me,) * k))
    return "".join(out)


def bodies(heads, forms, n):
    for h in heads:
        for c in itertools.permutations(forms, n):
            yield (h,) + c


def fileprog(a, b, uses):
    p = [PRE]
    for u in uses:
        p.append("(define o (current-module))" + ("(catch #t (lambda () %s) (lambda (k . r) k))" % u if u.startswith(("(resolve", "(module")) else u))
        p.append("(eq? o (current-module))log")
    p.append(PEEK)
    return files([("ma.scm", text(a, "ma", "mb")), ("mb.scm", text(b, "mb", "ma"))], "".join(p))


ABODY = (HEAD[2], BODY[0], BODY[2], BODY[1])
BBODY = (HEAD[3], BODY[2], BODY[0], BODY[1])


# ---- 3. scopes: a name of the module, of a used module, of the initial module and local names
LIB = ("(define-module (lib))(define hidden 'lib-hidden)(define shown 'lib-shown)(define (get) (list hidden shown))(define (put v) (set! hidden v))(define (both v) (set! shown v) (get))"
       "(define-macro (mac a) (list 'list a 'shown))(define-macro (helper a) (list 'quote hidden))(define (call p) (p))(define (call1 p v) (p v))(define pr (delay (get)))(define (self k) (k))"
       "(define (local hidden) (list hidden shown))(define (inner) (define hidden 'inner) (set! hidden (list hidden)) hidden)(define (thunk) (lambda () hidden))(define (mk) (let ((c 0)) (lambda () (set! c (+ c 1)) (list c hidden))))"
       "(define (rd) (eval 'shown))(define data (list 1 2))(define (car v) 'lib-car)(define (use-car v) (car v))(define (list-all . hidden) hidden)"
       "(export shown get put both mac helper call call1 pr self local inner thunk mk rd data use-car list-all)")
USER = ["", "(define hidden 'my-hidden)", "(define shown 'my-shown)", "(define (get) 'my-get)", "(define hidden 'my-hidden)(define shown 'my-shown)", "(define-macro (hidden) 1)", "(define-macro (shown . r) ''my-macro)", "(define (car v) 'my-car)", "(define (mac a) (list 'proc a))"]
EXPR = ["shown", "(get)", "(put 'new)", "(both 'new)", "(mac 1)", "(helper 1)", "(call (lambda () shown))", "(call1 (lambda (hidden) (list hidden shown)) 7)", "(force pr)", "(local 4)", "(inner)", "((thunk))", "(rd)", "data", "(use-car '(1))", "(car '(1))", "(list-all 1 2)", "hidden", "(set! shown 'assigned)",
        "(let ((shown 'let)) (list shown (get)))", "(let ((get (lambda () 'let))) (list (get) (both 1)))", "(let ((mac (lambda (x) (list 'let x)))) (mac 2))", "(define (loc shown) (set! shown (list shown)) (list shown (get)))(loc 3)", "(map local '(1 2))", "(for-each put '(a b))", "(apply local '(9))",
        "(call get)", "(call1 local 5)", "(define c (mk))(c)(c)", "(let* ((shown 1) (get shown)) (list shown get))", "(letrec ((shown (lambda () (get)))) (shown))", "(do ((shown 0 (+ shown 1))) ((= shown 2) (get)))", "(define (h) (define shown 'in) (list shown (get)))(h)", "(eval '(list shown))", "(module-ref (resolve-module '(lib)) 'hidden)",
        "(module-bound? (resolve-module '(lib)) 'hidden)", "(module-bound? (current-module) 'shown)", "(module-bound? (current-module) 'hidden)", "(define shown 'late)", "(define hidden 'late)", "(set! hidden 'created)(list hidden (get))", "(call/cc (lambda (k) (call (lambda () (k shown)))))",
        "(catch 'e (lambda () (call (lambda () (throw 'e shown)))) (lambda (k v) (list k v (get))))", "(dynamic-wind (lambda () (put 'in)) get (lambda () (put 'out)))", "(call-with-values (lambda () (values shown (get))) list)", "`(a ,shown ,@(list (get)))", "(force (delay (list shown (get))))", "(mac (mac shown))", "(let ((x 'lib)) (mac x))",
        "(let ((shown 'rebound)) (mac 1))", "(if shown (get) 'no)", "(cond ((get) => (lambda (v) (list v shown))))", "(case shown ((lib-shown) (get)) (else 'other))", "(let loop ((i 0)) (if (< i 2) (loop (+ i 1)) (list shown i)))", "(and shown (get))", "(or #f shown)", "((lambda (shown) (get)) 1)", "((lambda shown (list shown (get))) 1)"]
PLACES = [("(define-module (app))(use-modules (lib))", ""), ("(define-module (app) #:use-module (lib))", ""), ("(set-current-module root)(use-modules (lib))", ""), ("(define-module (mid))(use-modules (lib))(re-export shown get put both mac call local)(define-module (app))(use-modules (mid))", ""), ("(define-module (app))", "(use-modules (lib))"), ("(define-module (app))", "(module-use! (current-module) '(lib))"),
          ("(define-module (app))(use-modules (lib))(set-current-module root)", "(set-current-module (resolve-module '(app)))")]


def scopes(k):
    for place, late in PLACES:
        for u in USER:
            for es in itertools.product(EXPR, repeat=k):
                yield (PRE + LIB + place + u + late, es)


# ---- 4. loading: where the program is when a load ends early, starts again, or is left by a continuation
LOADF = ["(define a 1)", "(note! 'f%d)", "(use-modules (mb))", "(throw 'boom 2)", "(car 5)", "(undefined-name)", "(define k #f)(call/cc (lambda (c) (set! k c)))", "(out 'left)", "(define-public v (note! 'v))", "(catch #t (lambda () (use-modules (mb))) (lambda r (note! 'caught)))", "(load \"plain.scm\")", "(unbalanced",
         "(dynamic-wind (lambda () (note! 'in)) (lambda () (use-modules (mb))) (lambda () (note! 'out)))", "(define-module (md))", "(set! n (+ n 1))"]
STARTS = ["(use-modules (ma))", "(catch #t (lambda () (resolve-module '(ma))) (lambda (k . r) (note! k)))", "(define-module (mc))(use-modules (ma))", "(define-module (mc) #:use-module (ma))", "(call/cc (lambda (c) (set! out c) (resolve-module '(ma))))", "(define-module (mc))(catch #t (lambda () (resolve-module '(ma))) (lambda (k . r) (note! k)))",
          "(dynamic-wind (lambda () (note! 'b)) (lambda () (resolve-module '(ma))) (lambda () (note! 'a)))", "(begin (resolve-module '(ma)) (note! 'after))", "(define-module (mc))(module-use! (current-module) '(ma))(define w 1)"]
AFTER = "(eq? (current-module) root)(define here 'here)log n here (set-current-module root)" + see("here", "a", "v", "plain")


def loads(n):
    for a in itertools.product(LOADF, repeat=n):
        for b in (("(note! 'mb)", "(define-public v 'mb)"), ("(note! 'mb)", "(throw 'inner 1)"), ("(use-modules (ma))", "(note! 'mb)"), ("(out 'mb-left)", "(note! 'no)")):
            if not any("(mb)" in x for x in a) and b[1] != "(define-public v 'mb)":
                continue
            for s in STARTS:
                ta = "".join(x % i if "%d" in x else x for i, x in enumerate(a))
                yield files([("ma.scm", ta), ("mb.scm", "".join(b)), ("plain.scm", "(define plain (note! 'plain))(define here 'no)")], PRE + "(define out (lambda (v) (note! v)))" + s + AFTER)


# ---- 5. names that load a module when they are first used, and binders
LAZYF = "(define-module (ma))(note! 'ma-loaded)(define x 'ma-x)(define y 'ma-y)(define-public (f v) (list 'f v x))(export x)"
LAZYM = ["(define-module (mc) #:autoload (ma) (x f))", "(define-module (mc) #:autoload (ma) (x) #:autoload (mb) (f))", "(define-module (mc) #:autoload (ma) (y))", "(define-module (mc) #:autoload (ma) (x f) #:export (w))", "(define-module (mc) #:autoload (mb) (x) #:use-module (ma))", "(define-module (mc) #:autoload (ma) x f)", "(define-module (mc) #:autoload (ma) (xx fx))", "(define-module (mc) #:autoload (ma) () #:autoload (mb) (xy f))"]
LAZYE = ["x", "(f 1)", "(define x 'mine)", "(define (w) x)", "(w)", "(let ((x 1)) x)", "(lambda () x)", "(quote x)", "y", "(use-modules (ma))", "(delay x)", "(if #f x 'no)", "(set! log '())", "(define-module (me))(use-modules (mc))", "(map f '(1 2))", "(list x (f x))"]
BIND = ["(lambda (m s d) (note! s) #f)", "(lambda (m s d) (note! s))", "(lambda (m s d) (if (eq? s 'x) 'bound #f))", "(lambda (m s d) (throw 'binder s))", "(lambda (m s d) (make-variable (list s)))", "(lambda (m s d) unknown)", "(lambda (m s d) (eq? m (current-module)))", "(lambda (m s d) (set-module-binder! m (lambda (m s d) 'second)) 'first)"]


def lazy(k):
    for m in LAZYM:
        for es in itertools.product(LAZYE, repeat=k):
            yield files([("ma.scm", LAZYF), ("mb.scm", "(define-module (mb))(note! 'mb-loaded)(define-public (f v) (list 'mb v))(define-public x 'mb-x)")], PRE + m + " ".join(es) + " log" + see("x", "(f 2)") + "log(set-current-module root)" + see("x", "(w)"))


def binders(k):
    for b in BIND:
        for es in itertools.product(["x", "(list x y)", "(define x 'mine)", "(let ((x 1)) x)", "(define (w) x)", "(w)", "(catch #t (lambda () x) (lambda (k . r) k))", "car", "(set-current-module root)", "(define-module (mc))", "(quote x)", "(use-modules (lib))", "shown"], repeat=k):
            yield PRE + LIB + "(define-module (mc))(set-module-binder! (current-module) %s)" % b + " ".join(es) + " log"


# ---- 6. names of modules, and where their files are
NAMES = ["(d)", "(d a)", "(d a b)", "(a-b)", "(d x)"]
PATHS = ["()", "(\"p\")", "(\"p\" \"q\")", "(\"q\" \"p\")", "(\"p/\" \"q\")", "(\"missing\" \"p\")"]


def paths():
    for nm in NAMES:
        f = nm.strip("()").replace(" ", "/") + ".scm"
        if f.count("/") > 1:
            continue
        for where in itertools.product((0, 1), repeat=3):
            fs = [(d + f, "(define-module %s)(set! n (+ n 1))(define-public me '%s)" % (nm, d)) for d, w in zip(("", "p/", "q/"), where) if w and d.count("/") + f.count("/") < 2]
            if not fs:
                continue
            for pth in PATHS:
                yield files(fs, PRE + "(set! %%load-path '%s)(use-modules %s)me n(use-modules %s)n(define-module (z))(use-modules %s)(list me n)" % (pth, nm, nm, nm))
    for a, b in itertools.permutations(["(d)", "(d a)", "(d a b)", "(a d)", "(e)"], 2):
        yield PRE + "(define-module %s)(define x 'first)(export x)(define-module %s)(define x 'second)(define-module %s)x(define-module (u))(use-modules %s)x(eq? (resolve-module '%s) (resolve-module '%s))(eq? (resolve-module '%s) (resolve-module '%s))(module? (resolve-module '%s))" % (a, b, a, a, a, b, a, a, b)


# three modules that use each other
OPS3 = ["(define x %d)", "(export x)", "(use-modules A)", "(use-modules B)", "(define (f) (list x %d))", "(export f)", "(set! x %d)", "(define-macro (x a) (list '+ a %d))"]
M3 = ["(ma)", "(mb)", "(md)"]
LOOK3 = see("x", "(f)", "(x 5)")


def uses(n):
    """all sequences of ways of using three modules that share some names"""
    mods = "".join("(define-module (m%s))(define-public %s '%s)(define-public x '%s-x)(define-public %s '%s-sh)" % (a, a + "n", a, a, sh, a) for a, sh in (("a", "ab"), ("b", "ab"), ("c", "bc"))) + "(define-module (mb))(define-public bc 'b-bc)"
    ops = [o % a for a in "abc" for o in ("(use-modules (m%s))", "(module-use! (current-module) '(m%s))", "(module-use! u (resolve-module '(m%s)))")] + ["(use-modules (ma) (mc))", "(use-modules (mb) (ma))", "(define x 'own)", "(define bn 'own-b)"]
    for k in range(1, n + 1):
        for h in itertools.product(ops, repeat=k):
            look = see("an", "bn", "cn", "x", "ab", "bc", "(f)")
            yield PRE + mods + "(define-module (u))(define u (current-module))(define (f) (list x ab))" + look + "".join(o + look for o in h) + "(use-modules (u))" + look + "(set-current-module root)" + see("an", "(f)")
            yield PRE + mods + "(set-current-module root)(define u root)" + "".join(o + look for o in h)


def three(n):
    for h in itertools.product([(m, op) for m in range(3) for op in OPS3], repeat=n):
        seen = []
        for m, _ in h:
            if m not in seen:
                seen.append(m)
        if seen != sorted(seen):
            continue
        out = [PRE]
        at = None
        for i, (m, op) in enumerate(h):
            if m != at:
                out.append("(define-module %s)" % M3[m])
                at = m
            t = op.replace("A", M3[(m + 1) % 3]).replace("B", M3[(m + 2) % 3])
            out.append(t % (i + 1 + 10 * m) if "%d" in t else t)
        for m in range(3):
            out.append("(define-module %s)" % M3[m] + LOOK3)
        out.append("(define-module (mc))(use-modules (mb))" + LOOK3 + "(set-current-module root)(use-modules (ma))" + LOOK3)
        yield "(define root (current-module))(define-module (ma))(define-module (mb))(define-module (md))(set-current-module root)" + "".join(out)


def programs(q):
    yield from paths()
    for n in (1, 2, 3):
        for h in histories(OPS, n):
            yield spell(h)
    for n in (4,) if q else (4, 5):
        for h in histories([OPS[i] for i in CORE], n):
            yield spell(h)
    for n in (2, 3) if q else (2, 3, 4):
        yield from three(n)
    yield from uses(3 if q else 4)
    for pre, es in scopes(1):
        yield pre + es[0] + see("shown", "(get)", "hidden")
    for i, (pre, es) in enumerate(scopes(2)):
        if not q or i % 11 == 0:
            yield pre + " ".join(es) + see("shown", "(get)", "hidden")
    for n in (1, 2) if q else (1, 2, 3):
        yield from loads(n)
    for k in (2,) if q else (2, 3):
        for u in itertools.product(USES, repeat=k):
            yield fileprog(ABODY, BBODY, u)
    for n in (2,) if q else (2, 3):
        for a in bodies(HEAD, BODY, n):
            for u in USES[:2]:
                yield fileprog(a, BBODY, (u,))
                yield fileprog(BBODY, a, (u,))
    if not q:
        for a in bodies(HEAD, BODY, 2):
            for b in bodies(HEAD[1:4], BODY[:6], 2):
                yield fileprog(a, b, (USES[0],))
    for k in (1, 2, 3):
        yield from lazy(k)
        yield from binders(k)
    if not q:
        for h in histories(OPS, 4):
            yield spell(h)
    yield from sizes.modules(q)


def check(run):
    driver.compare(run, programs(run.quick))
