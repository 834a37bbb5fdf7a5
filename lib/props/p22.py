import itertools
import driver
from p05 import hist, SETUP, SHORT

# every procedure of the initial environment but exit
PRIMS = ("* + - / < <= = > >= abs acons append apply assoc assoc-ref assoc-remove! assoc-set! assq assq-set! assv boolean? caddr cadr call-with-current-continuation call-with-input-file call-with-input-string "
         "call-with-output-file call-with-output-string call-with-values call/cc car catch cddr cdr char->integer char-alphabetic? char-ci<=? char-ci<? char-ci=? char-ci>=? char-ci>? char-downcase char-lower-case? "
         "char-numeric? char-ready? char-upcase char-upper-case? char-whitespace? char<=? char<? char=? char>=? char>? char? close-input-port close-output-port complex? cons current-error-port current-input-port "
         "current-module current-output-port debug-options-interface defined? display dynamic-wind eof-object? eq? equal? eqv? eval even? exact? expt for-each force force-output gc gcd gensym get-output-string "
         "hash-create-handle! hash-fold hash-get-handle hash-ref hash-remove! hash-set! hashq-create-handle! hashq-get-handle hashq-ref hashq-remove! hashq-set! hashv-create-handle! hashv-get-handle hashv-ref "
         "hashv-remove! hashv-set! inexact? input-port? integer->char integer? last-pair lcm length list list->string list->vector list-head list-ref list-tail list? load macroexpand macroexpand-1 make-hash-table "
         "make-soft-port make-string make-undefined-variable make-variable make-vector map map-in-order max member memq memv min module-bound? module-map module-ref module-use! module? modulo negative? newline noop "
         "not null? number->string number? odd? open-input-file open-input-string open-output-file open-output-string output-port? pair? peek-char positive? primitive-load procedure-name procedure? quotient rational? "
         "read read-char read-options-interface real? remainder resolve-module reverse scm-make-smob scm-make-smob-type scm-smob-data scm-smob? set-car! set-cdr! set-current-error-port set-current-input-port "
         "set-current-module set-current-output-port set-module-binder! sqrt string string->list string->number string->symbol string-append string-ci<=? string-ci<? string-ci=? string-ci>=? string-ci>? string-length "
         "string-ref string-set! string<=? string<? string=? string>=? string>? string? substring symbol->string symbol? throw values variable-bound? variable-ref variable-set! variable? vector vector->list "
         "vector-length vector-ref vector-set! vector? write write-char zero?").split()
VALUES = ["0", "1", "-1", "3", "1.5", "(/ 1 3)", "9223372036854775807", "-9223372036854775808", "#t", "#f", "'()", "'sym", "(string-append \"ab\" \"c\")", "\"\"", "#\\a", "(list 1 2)", "(cons 1 2)", "(list (cons 'a 1) (cons \"b\" 2))", "(list 'car 1 '(x))", "(vector 1 2)", "(vector)",
          "(make-hash-table 3)", "car", "(lambda (x) x)", "(lambda () 1)", "(lambda r r)", "(call/cc (lambda (c) c))", "(delay 1)", "(make-variable 1)", "(make-undefined-variable)", "(current-module)", "(open-input-string \"a (b\")", "(open-output-string)",
          "(read (open-input-string \"\"))", "(if #f #f)", "swap", "(list #\\a #\\b)", "1e300", "(list (list 1) (list 2 3))", "(vector (lambda (c) c) car (lambda () 1) (lambda () #\\a) #f)", "(let ((q (open-input-string \"ab\"))) (close-input-port q) q)", "0.0", "-2", "'(1 . (2 . 3))", "(scm-make-smob (scm-make-smob-type \"t\" 0) 1)"]
FEW = ["0", "-1", "1.5", "#f", "'()", "'sym", "\"abc\"", "(list 1 2)", "(cons 1 2)", "(vector 1 2)", "(make-hash-table 3)", "(lambda r r)", "car", "(open-input-string \"a (b\")"]
LEAST = ["1", "'sym", "\"abc\"", "(list 1 2)", "(make-hash-table 3)", "(lambda r r)"]
OBJECTS = ["(string-append \"ab\" \"c\")", "(list 1 2 3)", "(vector 1 2 3)"]
INDEX = ["0", "1", "2", "3", "4", "-1", "9223372036854775807", "#\\a"]
# these change what the probes look at
STATE = {"set-current-module", "set-module-binder!", "set-current-output-port", "set-current-error-port", "set-current-input-port", "module-use!", "load", "primitive-load", "eval"}
PRE = SETUP[:4] + SETUP[9:11]
HIGHER = {"apply", "map", "for-each", "call-with-values", "catch", "dynamic-wind", "hash-fold", "throw"}
GROUP = 160


def calls(quick):
    for p in PRIMS:
        for n in range(5):
            vs = VALUES if n < 3 else (FEW if quick else VALUES[::2]) if n == 3 else LEAST if quick else FEW[:8]
            if p in ("call/cc", "call-with-current-continuation", "catch", "dynamic-wind", "call-with-values") and n == 3:
                vs = FEW
            for t in itertools.product(vs, repeat=n):
                if sum("call/cc" in x for x in t) > 1 and p in HIGHER:
                    continue  # a program that goes back and back
                yield p, "(%s)" % " ".join((p,) + t)
        # positions in an object, in any order
        for o in OBJECTS:
            for n in (2, 3) if quick else (2, 3, 4):
                for t in itertools.product(INDEX if n < 4 else INDEX[:6], repeat=n):
                    yield p, "(%s)" % " ".join((p, o) + t)
        for t in itertools.chain(itertools.product(VALUES, repeat=1), itertools.product(FEW if quick else VALUES, repeat=2)):
            for v in VIA if len(t) == 1 or not quick else VIA[:1]:
                yield p, v.replace("%p", p).replace("%a", " ".join(t))
        for v in VALUES:
            yield p, "(hash-fold %s %s (let ((t (make-hash-table 3))) (hash-set! t 1 2) t))" % (p, v)
            yield p, "(catch #t %s %s)" % (p, v)
            yield p, "(catch #t (lambda () (throw 'x %s)) %s)" % (v, p)
            yield p, "(dynamic-wind %s (lambda () %s) (lambda () 1))" % (p, v)
            yield p, "(force (delay (%s %s)))" % (p, v)
            yield p, "(let ((sp (make-soft-port (vector %s %s %s %s %s) \"rw\"))) (write-char #\\a sp) (display %s sp) (force-output sp) (read-char sp) (close-input-port sp))" % (p, p, p, p, p, v)

# a primitive is also called by others
VIA = ["(apply %p (list %a))", "(map %p (list %a))", "(for-each %p '() (list %a))", "(call-with-values (lambda () (values %a)) %p)", "(catch #t (lambda () (%p %a)) (lambda r r))", "(eval (list '%p %a))", "(call-with-output-string (lambda (q) (write (%p %a) q)))", "(let ((x (%p %a))) (list x x))"]


def history(p, cs):
    return hist(*(PRE + ["s" + c for c in cs] + (["S(+ 1 2)", "S(throw 'last \"msg\")"] if p in STATE else SHORT)))


def programs(quick):
    for p, g in itertools.groupby(calls(quick), lambda c: c[0]):
        g = [c for _, c in g]
        for i in range(0, len(g), GROUP):
            yield history(p, g[i:i + GROUP])


def check(run):
    driver.compare(run, programs(run.quick), harness="vrun+asan")
    run.cov["calls"] = sum(1 for _ in calls(run.quick))
    if run.violations:  # which of the calls of a group it is
        groups, run.violations = run.violations, []
        for v in groups[:40]:
            steps = v["program"][2:].split("\x1b")
            cs = [s[1:] for s in steps if s[0] == "s"]
            p = cs[0][1:].split(" ")[0].rstrip(")")
            had = len(run.violations)
            driver.compare(run, (history(p, [c]) for c in cs), harness="vrun+asan")
            if len(run.violations) == had:
                run.violations.append(v)
