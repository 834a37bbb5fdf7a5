import itertools
import driver
import p14

PRE = ("(define (g f . a) (catch #t (lambda () (let ((c (apply f a))) (if (eof-object? c) 'eof c))) (lambda r 'err)))"
       "(define (o f . a) (catch #t (lambda () (apply f a) 'ok) (lambda r 'err)))"
       "(define (rest p) (do ((c (read-char p) (read-char p)) (l '() (cons c l))) ((eof-object? c) (list->string (reverse l)))))"
       "(define (all p) (do ((d (read p) (read p)) (l '() (cons d l))) ((eof-object? d) (reverse l))))"
       "(define (->file s) (let ((p (open-output-file \"f\"))) (display s p) (close-output-port p)))"
       "(define (<-file n) (let* ((p (open-input-file n)) (s (rest p))) (close-input-port p) s))")
CONT = ["", "a", "ab", "a b", " ", "\\n", "a\\n", "(a) b", "a(b)", "\\\"x\\\"y", "#\\\\a b", "'a 1", "; c\\n d", "ab)", "(a", "\\000\\377", "a\\000b"]
IN1 = ["(g read-char p)", "(g peek-char p)", "(g read p)", "(if (eof-object? (peek-char p)) 'e (char-ready? p))", "(o close-input-port p)"]
IN2 = ["(g read-char p)", "(g peek-char p)", "(g read p)", "(g read-char q)", "(g peek-char q)", "(g read q)"]
OUT2 = ["(o display \"a\" p)", "(o write \"b\" p)", "(o newline p)", "(o write-char #\\c p)", "(o display 'd q)", "(o write #\\e q)", "(o write-char #\\f q)", "(get-output-string p)", "(get-output-string q)", "(o close-output-port p)"]
CUR = ["(o set-current-output-port p)", "(o set-current-output-port q)", "(o set-current-output-port so)", "(o display \"a\")", "(o write #\\b)", "(o newline)", "(o write-char #\\c)", "(o display 'd p)", "(o display 'e so)", "(o force-output)", "(get-output-string p)", "(catch 'k (lambda () (set-current-output-port q) (display 1) (throw 'k)) (lambda r (display 2) 'c))", "(call/cc (lambda (k) (display 3) (k 4)))"]
CURT = CUR[:11] + ["(begin (set-current-output-port q) (display 1) 'x)", "(call/cc (lambda (k) (display 3) (k 4)))"]
CIN = ["(o set-current-input-port p)", "(o set-current-input-port q)", "(g read-char)", "(g peek-char)", "(g read)", "(g read-char p)", "(if (eq? (current-input-port) p) 'p 'q)"]
SOFT = ["(o display \"xy\" s)", "(o write \"xy\" s)", "(o write-char #\\z s)", "(o newline s)", "(o display 12 s)", "(o write '(a \"b\") s)", "(o force-output s)", "(g read-char s)", "(g peek-char s)", "(list (input-port? s) (output-port? s))", "(set! log (cons '- log))"]
SOFTDEF = "(define log '())(define src (string->list \"%s\"))(define (note . x) (set! log (cons x log)))(define s (make-soft-port (vector (lambda (c) (note 'c c)) (lambda (t) (note 's t)) (lambda () (note 'f)) (lambda () (note 'g) (if (null? src) #f (let ((c (car src))) (set! src (cdr src)) c))) (lambda () (note 'x))) \"%s\"))"
FILEOPS = ["(set! p (open-output-file \"f\"))", "(set! p (open-output-file \"h\"))", "(o display \"ab\" p)", "(o write-char #\\c p)", "(o force-output p)", "(o close-output-port p)", "(g <-file \"f\")", "(g <-file \"h\")", "(set! q (open-input-file \"f\"))", "(g read-char q)", "(o close-input-port q)",
           "(g call-with-output-file \"f\" (lambda (r) (display 'w r) 7))", "(g call-with-input-file \"f\" (lambda (r) (list (read-char r) (g read r))))"]
BODY = ["(display 'x p)", "(begin (write \"y\" p) (newline p))", "(display (call-with-output-string (lambda (r) (display 'n r) (display 'm p))) p)", "(k 'esc)", "(throw 'e 1)", "(set! saved p)", "(display (call/cc (lambda (c) (set! kk c) 'c1)) p)", "(with-out)", "(car '())"]


def sc(s):
    """string literal content for raw text"""
    return s.replace("\\", "\\\\").replace("\"", "\\\"").replace("\n", "\\n").replace("\t", "\\t")


def programs(quick):
    # one input port
    for kind in ("s", "f"):
        for c in CONT:
            if kind == "f" and quick and c not in CONT[:9]:
                continue
            op = "(define p (open-input-string \"%s\"))" % c if kind == "s" else "(->file \"%s\")(define p (open-input-file \"f\"))" % c
            for n in range(1, 5 if quick else 6):
                if kind == "f" and n == 4 and quick:
                    continue
                for t in itertools.product(IN1, repeat=n):
                    yield PRE + op + "".join(t) + "(g rest p)(g read-char p)"
            yield PRE + op + "(all p)(g read p)(g read-char p)(g peek-char p)"
            yield PRE + op + "(rest p)(g read-char p)(g peek-char p)(g read p)"
            for k in range(0, 6):  # peek before each read
                yield PRE + op + "(list %s)" % " ".join(["(g peek-char p) (g peek-char p) (g read-char p)"] * k)
                yield PRE + op + "(define l (map-in-order (lambda (x) (g read-char p)) '(%s)))l(g read p)(g rest p)" % ("1 " * k)
    # every character, written to and read from every kind of port
    for c in range(1, 256):
        for op in ("(define s (string #\\a (integer->char %d) #\\b (integer->char %d)))(define p (open-input-string s))", "(define q (open-output-file \"f\"))(write-char #\\a q)(write-char (integer->char %d) q)(display (string #\\b (integer->char %d)) q)(close-output-port q)(define p (open-input-file \"f\"))",
                   "(define src (list #\\a (integer->char %d) #\\b (integer->char %d)))(define p (make-soft-port (vector #f #f #f (lambda () (if (null? src) #f (let ((c (car src))) (set! src (cdr src)) c))) #f) \"r\"))",
                   "(define q (open-output-string))(write-char #\\a q)(write-char (integer->char %d) q)(display (string #\\b (integer->char %d)) q)(define p (open-input-string (get-output-string q)))"):
            op = PRE + op % (c, c)
            for t in itertools.product(("peek-char", "read-char"), repeat=3):
                yield op + "(define (n f) (let ((c (f p))) (if (char? c) (char->integer c) 'none)))" + "".join("(n %s)" % x for x in t) + "(map char->integer (string->list (rest p)))"
            if c not in (40, 41, 35, 34, 39, 44, 46, 59, 96, 92, 123, 125):
                yield op + "(g read p)(g rest p)"
    # two input ports, of every kind, do not affect each other
    for a, b in (("(open-input-string \"a b\")", "(open-input-string \"a b\")"), ("(open-input-file \"f\")", "(open-input-file \"f\")"), ("(open-input-file \"f\")", "(open-input-string \"xy (z)\")"), ("(open-input-string s)", "(open-input-string s)")):
        for n in range(1, 4 if quick else 6):
            for t in itertools.product(IN2, repeat=n):
                yield PRE + "(define s \"m n\")(->file \"a (b) c\")(define p %s)(define q %s)" % (a, b) + "".join(t) + "(string-set! s 0 #\\Z)(g rest p)(g rest q)"
    # output string ports
    for n in range(1, 4 if quick else 5):
        for t in itertools.product(OUT2, repeat=n):
            yield PRE + "(define p (open-output-string))(define q (open-output-string))" + "".join(t) + "(list (get-output-string p) (get-output-string q))"
    for a, b in itertools.product(["(g read-char %s)", "(g peek-char %s)", "(g read %s)", "(o display 1 %s)", "(o write 1 %s)", "(o newline %s)", "(o write-char #\\a %s)", "(o force-output %s)", "(g get-output-string %s)", "(o close-input-port %s)", "(o close-output-port %s)", "(o set-current-output-port %s)", "(o set-current-input-port %s)", "(list (input-port? %s) (output-port? %s))"], repeat=2):
        for p in ("(open-input-string \"a b\")", "(open-output-string)", "(open-output-file \"h\")", "(open-input-file \"f\")", "1", "\"f\"", "car", "'()"):
            if p in ("'()",):
                continue
            yield PRE + "(->file \"x\")(define p %s)" % p + a.replace("%s", "p") + b.replace("%s", "p")
    # the ports used when none is given
    for n in range(1, 4 if quick else 5):
        for t in itertools.product(CUR, repeat=n):
            yield PRE + "(define so (current-output-port))(define p (open-output-string))(define q (open-output-string))" + "".join(t) + "(set-current-output-port so)(list (get-output-string p) (get-output-string q))"
        for t in itertools.product(CURT, repeat=n):  # without errors: standard output is compared too
            yield "(define (o f . a) (apply f a) 'ok)(define so (current-output-port))(define p (open-output-string))(define q (open-output-string))" + "".join(t) + "(o display 'end)(o set-current-output-port so)(list (get-output-string p) (get-output-string q))(display 'end2)"
        for t in itertools.product(CIN, repeat=n + 1 if not quick else n):
            yield PRE + "(define p (open-input-string \"a b\"))(define q (open-input-string \"(c) d\"))(set-current-input-port p)" + "".join(t) + "(g rest p)(g rest q)"
    # soft ports
    for m in ("r", "w", "rw"):
        for n in range(1, 4 if quick else 5):
            for t in itertools.product(SOFT, repeat=n):
                yield PRE + SOFTDEF % ("uv", m) + "".join(t) + "log"
        for t in itertools.product(SOFT, repeat=2):
            for c in ("(o close-input-port s)", "(o close-output-port s)"):
                yield PRE + SOFTDEF % ("uv", m) + t[0] + c + t[1] + "log"
            yield PRE + SOFTDEF % ("uv", m) + "(define so (current-output-port))" + ("(set-current-output-port s)" if "w" in m else "(set-current-input-port s)") + "".join(x.replace(" s)", ")") for x in t) + "(set-current-output-port so)log"
    for f in ("(throw 'e 1)", "(k 'out)", "(display 'o p)", "(car '())", "(set! n (+ n 1))", "(call/cc (lambda (c) (set! kk c)))", "(write c p)", "#f"):
        for i in range(3):
            v = ["(lambda (c) 1)", "(lambda (c) 1)", "(lambda () 1)"]
            v[i] = v[i].replace("1)", f + ")")
            for x in ("(display 'a s)", "(write-char #\\b s)", "(newline s)", "(force-output s)"):
                yield "(define c 0)(define n 0)(define kk #f)(define p (open-output-string))(define s #f)(catch #t (lambda () (call/cc (lambda (k) (set! s (make-soft-port (vector %s (lambda () #f) #f) \"w\")) %s 'done))) (lambda (key . r) key))(get-output-string p)n(if kk (let ((q kk)) (set! kk #f) (q 1)) 'no)(get-output-string p)" % (" ".join(v), x)
        yield "(define p (open-output-string))(define n 0)(define s #f)(define kk #f)(define c 1)(catch #t (lambda () (call/cc (lambda (k) (set! s (make-soft-port (vector #f #f #f (lambda () %s #\\q) #f) \"r\")) (list (read-char s) (peek-char s) (read-char s))))) (lambda (key . r) key))(get-output-string p)n" % f
    for v in ("(vector)", "(vector 1 2 3 4)", "(vector #f #f #f #f #f)", "(vector #f #f #f #f #f #f)", "(vector #f #f #f #f #f #f #f)", "'(1)", "(vector 1 1 1 1 1)"):
        for m in ("\"r\"", "\"w\"", "\"rw\"", "\"\"", "\"x\"", "1"):
            yield PRE + "(define s (catch #t (lambda () (make-soft-port %s %s)) (lambda r 'err)))(if (eq? s 'err) s (list (input-port? s) (output-port? s)))" % (v, m)
    for a, b in itertools.product(p14.TEXTS, repeat=2):  # read takes the same data from every kind of port
        if not quick or a < b:
            t = sc(a + " " + b)
            yield PRE + "(define t \"%s\")(define l (all (open-input-string t)))l" % t
            yield PRE + "(define t \"%s\")(define src (string->list t))(->file t)(define l (all (open-input-string t)))(and (equal? l (all (open-input-file \"f\"))) (equal? l (all (make-soft-port (vector #f #f #f (lambda () (if (null? src) #f (let ((c (car src))) (set! src (cdr src)) c))) #f) \"r\"))))" % t, "\x02#t\n"
            yield PRE + "(define p (open-input-string \"%s\"))(define a (read p))a(g peek-char p)(g read p)(g rest p)" % sc(a + b)
            yield PRE + "(define p (open-input-string \"%s\"))(define a (read p))a(g rest p)" % t
    # files
    for n in range(1, 4 if quick else 5):
        for t in itertools.product(FILEOPS, repeat=n):
            if n > 1 or not quick:
                yield PRE + "(define p #f)(define q #f)(->file \"k l\")" + "".join(t) + "(o close-output-port p)(g <-file \"f\")(g <-file \"h\")"
    for c in CONT + ["x" * 5000, "(a . b) " * 700, "\\n" * 4097]:
        yield PRE + "(->file \"%s\")(define s (<-file \"f\"))(equal? s \"%s\")s(->file s)(equal? (<-file \"f\") s)" % (c, c)
    for n in (1, 100, 254, 255, 256, 257, 510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 20000):
        for w in ("(display (make-string n #\\a) p)", "(do ((i 0 (+ i 1))) ((= i n)) (write-char #\\b p))", "(begin (write-char #\\x p) (display (make-string n #\\y) p) (write-char #\\z p))", "(write (make-string n #\\newline) p)", "(do ((i 0 (+ i 1))) ((= i n)) (display i p))"):
            yield PRE + "(define n %d)(define p (open-output-string))%s(define s (get-output-string p))(string-length s)(define q (open-output-file \"f\"))(let ((p q)) %s)(close-output-port q)(equal? s (<-file \"f\"))(substring s 0 1)(equal? s (rest (open-input-string s)))(string-length (call-with-output-string (lambda (p) %s)))" % (n, w, w, w)
    for n in (1, 2, 3):
        for t in itertools.product(["\"a\"", "'(b c)", "#\\d", "12", "\"e f\\n\"", "'g", "1.5", "#(h \"i\")".replace("#(", "'#(")], repeat=n):
            for w in ("write", "display"):
                if n < 3 or not quick or w == "write":
                    yield PRE + "(define p (open-output-file \"f\"))" + "".join("(%s %s p)(newline p)" % (w, x) for x in t) + "(close-output-port p)(<-file \"f\")(all (open-input-file \"f\"))"
    # ports of a dynamic extent, left in every way
    for n in range(1, 4 if quick else 5):
        for t in itertools.product(BODY, repeat=n):
            b = " ".join(t)
            yield PRE + "(define saved #f)(define kk #f)(define i 0)(define so (current-output-port))(define (with-out) (let* ((r (open-output-string)) (old (current-output-port))) (set-current-output-port r) (display 'w) (set-current-output-port old)))(define r (call/cc (lambda (k) (catch #t (lambda () (call-with-output-string (lambda (p) %s 'v))) (lambda (e . a) (list e))))))r(if saved (get-output-string saved) 'none)(if saved (o display 'late saved) 'none)(if saved (get-output-string saved) 'none)(set! i (+ i 1))(if (and kk (< i 3)) (kk i) 'fin)r" % b
            if n < 3 or not quick:
                yield PRE + "(define saved #f)(define kk #f)(define (with-out) 1)(define r (call/cc (lambda (k) (catch #t (lambda () (call-with-output-file \"f\" (lambda (p) %s 'v))) (lambda (e . a) (list e))))))r(if saved (o display 'late saved) 'none)(g <-file \"f\")" % b
    for b in ("(read p)", "(list (read-char p) (read p))", "(begin (read p) (k (read p)))", "(begin (read p) (throw 'e (read p)))", "(begin (set! saved p) (read-char p))", "(car '())", "(call-with-input-string \"n m\" (lambda (q) (list (read q) (read p) (read q))))"):
        for w in ("(call-with-input-string \"(a) b c\"", "(call-with-input-file \"f\""):
            yield PRE + "(define saved #f)(->file \"(a) b c\")(define r (call/cc (lambda (k) (catch #t (lambda () %s (lambda (p) %s))) (lambda (e . a) (cons e a))))))(if (and (pair? r) (memq (car r) '(wrong-type-arg misc-error error))) 'err r)(if saved (g read saved) 'none)" % (w, b)
    # load
    LD = ["(define a 1)", "(set! b (+ b 1))", "b", "(display 'x)", "(throw 'e 1)", "(call/cc (lambda (k) (set! kk k)))", "(load \\\"h\\\")", "(", ")", "; c\\n", "'sym", "(define (f) b)"]
    for n in range(0, 3 if quick else 4):
        for t in itertools.product(LD, repeat=n):
            yield PRE + "(define b 0)(define kk #f)(define a 0)(define p (open-output-file \"h\"))(display \"(set! b (+ b 10)) 'h\" p)(close-output-port p)(->file \"%s\")(catch #t (lambda () (load \"f\")) (lambda (k . r) 'err))(list a b)(if (and kk (< b 5)) (begin (set! b (+ b 5)) (kk 1)) 'no)(list a b)" % "\\n".join(t)
            yield "(define b 0)(define kk #f)(define a 0)(define p (open-output-file \"h\"))(display \"(set! b (+ b 10)) 'h\" p)(close-output-port p)(define p (open-output-file \"f\"))(display \"%s\" p)(close-output-port p)(load \"f\")(list a b)" % "\\n".join(t)


def check(run):
    driver.compare(run, programs(run.quick))
