import itertools
import driver
import gen

ERR = "(catch #t (lambda () %%) (lambda r 'err))"
# keys of every type, with equal but distinct copies of those that have a structure
KEY = ["'a", "'b", "'ab", "\"a\"", "\"b\"", "\"\"", "(string #\\a)", "#\\a", "#\\A", "97", "97.0", "-1", "0", "0.0", "1/2", "0.5", "(/ 2 4)", "-1/2", "1.5", "9007199254740992", "9007199254740993", "9007199254740992.0", "9223372036854775807", "1e300", "'()", "#t", "#f",
       "(list 1 2)", "(list 1 2)", "(cons 1 2)", "(cons 1 2)", "(list 1 2.0)", "(list 2 1)", "(list 'a \"a\" #\\a)", "(list 'a \"a\" #\\a)", "(list (list 1) 2)", "(list (list 1) 2)", "(cons 1 (vector 2))", "(cons 1 (vector 2))", "(list '())", "(list #t)", "(list #t)",
       "(vector 1 2)", "(vector 1 2)", "(vector)", "(vector)", "(vector (list 1 \"s\") #f)", "(vector (list 1 \"s\") #f)", "car", "cdr", "(lambda (x) x)", "(make-hash-table)", "(make-variable 1)", "(delay 1)", "(if #f #f)", "(list 1/2 1.5)", "(list 1/2 1.5)", "'key", "'|a|" if False else "'c"]
VAL = ["0", "1.5", "1/2", "#t", "#f", "'()", "'sym", "\"str\"", "#\\a", "(cons 1 2)", "(list 1 2)", "(list)", "(list '())", "(list 'quote 'x)", "(vector 1)", "car", "(lambda (x) x)", "(make-hash-table)", "(cons 1 (list 2))", "'x"]
PFX = ["hash", "hashq", "hashv"]

DUMP = ("(define (pos k l) (let lp ((i 0) (l l)) (cond ((null? l) -1) ((eqv? k (car l)) i) (else (lp (+ i 1) (cdr l))))))"
        "(define (ins x l) (cond ((null? l) (list x)) ((< (car x) (car (car l))) (cons x l)) (else (cons (car l) (ins x (cdr l))))))"
        "(define (dump h ks) (hash-fold (lambda (k v acc) (ins (list (pos k ks) v) acc)) '() h))")


def keys(ks):
    return DUMP + "".join("(define k%d %s)" % (i, k) for i, k in enumerate(ks)) + "(define ks (list %s))" % " ".join("k%d" % i for i in range(len(ks)))


def refs(p, n, h="h"):
    return "(list %s)" % " ".join("(%s-ref %s k%d)" % (p, h, i) for i in range(n))


def programs(quick):
    sizes = ["1", "2", "31"] if quick else ["1", "2", "3", "7", "31", "1000"]
    # every pair of keys, in every mode: the second finds or does not find the first
    for p in PFX:
        for a in KEY:
            for b in KEY:
                yield keys([a, b]) + "(define h (make-hash-table 1))(define g (make-hash-table))(%s-set! h k0 'v0)(%s-set! g k0 'v0)(list (%s-ref h k1) (%s-ref g k1) (pair? (%s-get-handle g k1)))(%s-set! h k1 'v1)(cdr (%s-create-handle! g k1 'w1))(dump h ks)(dump g ks)" % ((p,) * 7) + refs(p, 2) + refs(p, 2, "g") + "(%s-remove! h k1)(%s-remove! g k0)(dump h ks)(dump g ks)" % (p, p) + refs(p, 2) + refs(p, 2, "g")
    # triples of keys that could be confused
    near = ["'a", "\"a\"", "#\\a", "97", "97.0", "(list 1 2)", "(cons 1 2)", "(list 1 2)", "(vector 1 2)", "#f", "'()", "0", "(list '(1 . 2))"]
    for p in PFX:
        for t in itertools.combinations(near, 3):
            yield keys(t) + "(define h (make-hash-table 1))(%s-set! h k0 'v0)(%s-set! h k1 'v1)(%s-set! h k2 'v2)(dump h ks)" % (p, p, p) + refs(p, 3) + "(%s-remove! h k1)(dump h ks)" % p + refs(p, 3) + "(%s-remove! h k0)(dump h ks)(%s-set! h k1 'n)(dump h ks)" % (p, p) + refs(p, 3)
    # histories over keys that share buckets
    def op(p):
        r = []
        for i in (0, 1, 2):
            r += ["(%s-set! h k%d (next))" % (p, i), "(%s-remove! h k%d)" % (p, i), "(%s-create-handle! h k%d (next))" % (p, i)]
        return r + ["(set-cdr! (%s-create-handle! h k0 1) (list (next)))" % p, "(let ((e (%s-get-handle h k1))) (if e (set-cdr! e '())))" % p, "(set! saved (%s-get-handle h k2))" % p, "(if saved (set-cdr! saved (next)))", "(%s-set! h k2 (%s-ref h k0))" % (p, p)]
    pools = [["'a", "'b", "'c"], ["1", "2.0", "\"1\""], ["(list 1)", "(list 1)", "(list 1 1)"]]
    for p in PFX:
        for pool in pools:
            for size in sizes[:2] if quick else sizes[:4]:
                pre = keys(pool) + "(define h (make-hash-table %s))(define n 0)(define (next) (set! n (+ n 1)) n)(define saved #f)" % size
                o = op(p)
                for s in gen.seqs(o, 3 if (p == "hash" or not quick) and size == "1" or p == "hash" and pool is pools[0] else 2, 1):
                    yield pre + "".join(s) + "(dump h ks)" + refs(p, 3) + "saved h"
    if not quick:
        o = op("hash")
        for s in gen.seqs(o, 4, 4):
            yield keys(pools[0]) + "(define h (make-hash-table 2))(define n 0)(define (next) (set! n (+ n 1)) n)(define saved #f)" + "".join(s) + "(dump h ks)" + refs("hash", 3) + "saved h"
    # insertion and removal in every order
    N = 4 if quick else 5
    for perm in itertools.permutations(range(N)):
        for rem in itertools.permutations(range(N), 2):
            for size in sizes[:2]:
                yield keys(["'a", "\"a\"", "7", "(list 7)", "#\\a"][:N]) + "(define h (make-hash-table %s))" % size + "".join("(hash-set! h k%d %d)" % (i, i) for i in perm) + "".join("(hash-remove! h k%d)" % i for i in rem) + "(dump h ks)" + refs("hash", N) + "(hash-fold (lambda (k v n) (+ n 1)) 0 h)h"
    # values of every type replaced by values of every type
    for p in PFX:
        for a in VAL:
            for b in VAL:
                yield keys(["'a", "'b"]) + "(define h (make-hash-table 1))(define v %s)(define w %s)(define (sh x) (cond ((and (eqv? x v) (eqv? x w)) 'vw) ((eqv? x v) 'v) ((eqv? x w) 'w) (else (list x))))(%s-set! h k1 'o)(begin (%s-set! h k0 v) 0)(define e (%s-get-handle h k0))(list (sh (%s-ref h k0)) (car e) (sh (cdr e)) (pair? e) (list? e))(begin (%s-set! h k0 w) 0)(list (sh (%s-ref h k0)) (sh (cdr e)) (list? e))(set-cdr! e v)(sh (%s-ref h k0))(hash-fold (lambda (k v n) (ins (list (pos k ks) (sh v)) n)) '() h)(eq? (%s-create-handle! h k0 'no) e)(sh (%s-ref h k0))(list (equal? (%s-ref h k0) v) (equal? (%s-ref h k0) w))" % ((a, b) + (p,) * 11)
        for a in VAL:
            yield keys(["'a", "'b"]) + "(define h (make-hash-table))(define e (%s-create-handle! h k0 %s))(list (pair? e) (list? e) (if (list? e) (length e)))(eq? e (%s-get-handle h k0))(eqv? (cdr e) (%s-ref h k0))(set-cdr! e 'new)e(%s-ref h k0)(set-cdr! e (list 1 2))(%s-ref h k0)(append '(z) e)(%s-remove! h k0)(%s-ref h k0)e(begin (%s-set! h k0 %s) 0)(list? (%s-ref h k0))" % (p, a, p, p, p, p, p, p, p, a, p)
            yield keys(["'a", "'b"]) + "(define h (make-hash-table))(define v %s)(begin (%s-set! h k0 v) 0)(if (pair? v) (set-car! v 'mut))(eqv? v (%s-ref h k0))(if (vector? v) (vector-set! v 0 'mut))(eqv? (%s-ref h k0) v)(equal? v (%s-ref h k0))" % (a, p, p, p, p)
    # modes agree on atoms
    atoms = ["'a", "\"a\"", "#\\a", "97", "97.0", "1/2", "#t", "#f", "'()", "-1", "0.5", "car"]
    for a in atoms:
        for x, y, z in itertools.product(PFX, repeat=3):
            yield keys([a]) + "(define h (make-hash-table))(%s-set! h %s 1)(list (%s-ref h %s) (hash-ref h k0))(cdr (%s-create-handle! h k0 2))(%s-set! h %s 3)(dump h (list k0))(%s-remove! h k0)(dump h ks)" % (x, a if a not in ("car",) else "car", y, a, z, y, a, z)
    # traversals
    procs = ["(lambda (k v s) (+ s v))", "(lambda (k v s) (hash-set! h k (* 10 v)) (+ s 1))", "(lambda (k v s) (hash-remove! h k) (+ s v))", "(lambda (k v s) (+ s (hash-fold (lambda (k2 v2 s2) (+ s2 v2)) 0 h)))", "(lambda (k v s) (hash-set! g k v) (+ s 1))", "(lambda (k v s) (+ s v (length (list k v s))))",
             "(lambda (k v . r) (+ (car r) v))", "(lambda (k v s) (if (hash-ref h k) (+ s 1) s))", "(lambda (k v s) (+ s (call/cc (lambda (c) (c v)))))", "(lambda (k v s) (+ s (catch 'x (lambda () (throw 'x)) (lambda r v))))"]
    for n in range(0, 5 if quick else 7):
        for size in sizes:
            pre = keys(["'a", "\"a\"", "7", "(list 7)", "#\\a", "'b", "#f"][:n]) + "(define h (make-hash-table %s))(define g (make-hash-table 1))" % size + "".join("(hash-set! h k%d %d)" % (i, 2 ** i) for i in range(n))
            for pr in procs:
                yield pre + ERR.replace(gen.H, "(hash-fold %s 0 h)" % pr) + "(dump h ks)(dump g ks)"
            yield pre + "(call/cc (lambda (out) (hash-fold (lambda (k v s) (out 'left)) 'none h)))(dump h ks)" + ERR.replace(gen.H, "(hash-fold (lambda (k v s) (throw 'x)) 'none h)") + "(dump h ks)(length (hash-fold acons '() h))(length (hash-fold list 'z h))"
            yield pre + "(define c 0)(define w 'seed)(hash-fold (lambda (k v s) (set! c (+ c 1)) (list 'lambda s)) w h)c(define (walk f) (hash-fold (lambda (k v s) (f k v) s) #f h))(define t 0)(walk (lambda (k v) (set! t (+ t v))))t"
    # many keys, including those that differ in the last element only
    for n in ([0, 1, 30, 31, 32, 62, 63, 100] if quick else list(range(0, 130, 3)) + [500, 1000]):
        for size in sizes:
            for mk in ("i", "(* i 31)", "(number->string i)", "(string->symbol (number->string i))", "(list 'k i)", "(vector i 'k)", "(cons (list i) i)", "(/ i 7)", "(+ i 0.5)", "(integer->char (remainder i 256))"):
                yield DUMP + "(define h (make-hash-table %s))(define (key i) %s)(do ((i 0 (+ i 1))) ((= i %d)) (hash-set! h (key i) i))(define (all) (let lp ((i 0) (n 0)) (if (< i %d) (lp (+ i 1) (if (eqv? (hash-ref h (key i)) i) (+ n 1) n)) n)))(define (sum) (hash-fold (lambda (k v s) (if (equal? k (key v)) (+ v s) -1000000)) 0 h))(list (all) (sum) (hash-fold (lambda (k v s) (+ s 1)) 0 h))h(do ((i 0 (+ i 2))) ((>= i %d)) (hash-remove! h (key i)))(list (all) (sum))h(do ((i 0 (+ i 3))) ((>= i %d)) (hash-set! h (key i) i))(list (all) (sum))h" % (size, mk, n, n, n, n)
    # keys differing only at a position deep inside
    for n in (1, 2, 10, 63, 64, 65, 66, 130):
        for w in sorted({0, n // 2, n - 1}):
            yield DUMP + "(define (mk n w x) (let lp ((i (- n 1)) (acc '())) (if (< i 0) acc (lp (- i 1) (cons (if (= i w) x i) acc)))))(define h (make-hash-table))(define a (mk %d %d 'x))(define b (mk %d %d 'y))(hash-set! h a 1)(hash-set! h b 2)(list (hash-ref h a) (hash-ref h b) (hash-ref h (mk %d %d 'x)) (hash-ref h (mk %d %d 'y)) (hash-ref h (mk %d %d 'z)))(hash-remove! h (mk %d %d 'x))(list (hash-ref h a) (hash-ref h b))h(hash-set! h (list->vector a) 3)(list (hash-ref h (list->vector (mk %d %d 'x))) (hash-ref h (list->vector b)))" % ((n, w) * 7)
    # several tables do not affect each other, and wrong arguments change nothing
    for s in gen.seqs(["(hash-set! h k0 1)", "(hash-set! g k0 2)", "(hash-remove! h k0)", "(hash-create-handle! g k0 3)", "(hash-set! h k1 (hash-ref g k0))", "(hash-set! g h 'table)", "(set! g h)", "(hash-set! h g h)"], 3 if quick else 4):
        yield keys(["'a", "(list 1)"]) + "(define h (make-hash-table))(define g (make-hash-table 1))" + "".join(s) + "(list (hash-ref h k0) (hash-ref g k0) (hash-ref h k1) (hash-ref g h) (eq? (hash-ref h g) h))(list (hash-fold (lambda (k v n) (+ n 1)) 0 h) (hash-fold (lambda (k v n) (+ n 1)) 0 g))"
    for p in PFX:
        for bad in ("'()", "'a", "5", "#f", "(list 1)", "(vector 1)", "\"h\"", "car"):
            for o in ("-set! %s 'a 1", "-ref %s 'a", "-get-handle %s 'a", "-create-handle! %s 'a 1", "-remove! %s 'a"):
                yield keys(["'a"]) + "(define h (make-hash-table))(hash-set! h 'a 0)" + ERR.replace(gen.H, "(%s%s)" % (p, o % bad)) + "(dump h ks)"
        for o in ("-set!", "-ref", "-get-handle", "-create-handle!", "-remove!"):
            for args in gen.seqs(["h", "'a", "1"], 4, 0):
                if args[:1] == ("h",) or len(args) < 2:
                    if o == "-ref" and len(args) == 3:
                        continue
                    yield keys(["'a"]) + "(define h (make-hash-table))(hash-set! h 'a 0)" + ERR.replace(gen.H, "(%s%s %s)" % (p, o, " ".join(args))) + "(dump h ks)"
    for a in ("-1", "'a", "1.5", "\"1\"", "0", "1", "-9223372036854775807", "#f"):
        yield ERR.replace(gen.H, "(let ((h (make-hash-table %s))) (hash-set! h 'a 1) (hash-ref h 'a))" % a)
    for f in ("5", "'()", "car", "(lambda () 1)", "(lambda (a b) 1)", "\"f\""):
        for h in ("h", "'()", "5"):
            yield "(define h (make-hash-table))(hash-set! h 'a 1)" + ERR.replace(gen.H, "(hash-fold %s 0 %s)" % (f, h)) + "(hash-ref h 'a)"


def check(run):
    driver.compare(run, programs(run.quick))
