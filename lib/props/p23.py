"""The command line program: scripts and interactive sessions."""
import itertools
import driver

# what may be typed: texts of one form each, as tokens that may be laid out in any way
SETUP = "(define n 0) (define k #f) (define log '())\n"
FORMS = [["(", "+", "1", "2", ")"], ["(", "begin", "(", "set!", "n", "(", "+", "n", "1", ")", ")", "n", ")"], ["\"a(b\""], ["#\\("], ["#\\)"], ["#\\;"], ["#\\\""], ["'", "x"], ["'", "(", "a", ".", "b", ")"], ["`", "(", "1", ",", "n", ",@", "(", "list", "1", ")", ")"],
         ["#(", "1", "\"x;\"", ")"], ["'", "#{a (}#"], ["\"\\\")\""], ["(", "car", "'", "(", ")", ")"], ["(", "display", "n", ")"], ["(", "define", "(", "f", "x", ")", "x", ")"], ["\"two\nlines (\""], ["(", ")"], ["nowhere"],
         ["\"\\\\\""], ["'", "#{\\}(}#"], ["'", "#{{(}}#"], ["(", "string-length", "\"\\\\\\\"(\"", ")"], ["'", ":k"], ["'", "#:k"]]
SEPS = [" ", "\n", "\n\n", " ; ( \" '\n", "\t", "\r\n", ";\\\n", ";'\n", " \n ;x)\n "]
LINES = ["(set! n (+ n 1))", "n", "(begin (set! n (+ n 1)) n) (list n", "n)", "(list (begin (set! n (+ n 2)) n)", "1 \"a", "b\"", "; c (", "", "   ", "'", "x", ")", "(a . )", "#<", "(car 1)", "(throw 'oops \"text\")", "(display (list n 'd))",
         "(let ((v (call/cc (lambda (c) (set! k c) 0)))) (set! log (cons v log)) (list 'v v log))", "(if (< n 3) (begin (set! n (+ n 1)) (if (procedure? k) (k n) 'none)) 'done)", "(catch #t (lambda () (car n)) (lambda r 'caught))", "(exit 3)", "(begin (exit) 1)",
         "(define-macro (m x) (list '+ x 1)) (m n)", "(dynamic-wind (lambda () (set! n (+ n 1))) (lambda () (car '())) (lambda () (set! n (+ n 10))))", "1 2 3", "(list '(", "#\\a \"", "\\\"\" #\\\"", "#(1", "2)", "unbound-x"]
BAD = ["(", ")", "(a", "\"a", "'", "(a . )", "#<", "(1 2", "#(1", "#{a", "(a))", ", ", "#\\nosuch", "1 )"]
EXITS = ["(exit)", "(exit 0)", "(exit 1)", "(exit 7)", "(exit 255)", "(list 1 (exit 4) 2)", "(map (lambda (x) (exit x)) '(5 6))", "(catch #t (lambda () (exit 6)) (lambda r 'no))", "(let loop ((i 0)) (if (= i 100) (exit i) (loop (+ i 1))))", "(dynamic-wind (lambda () 1) (lambda () (exit 8)) (lambda () 2))", "(call/cc (lambda (c) (exit 9)))",
         "(force (delay (exit 11)))", "(begin (define (f) (exit 12)) (f))", "(apply exit '(13))", "(eval '(exit 14))", "(with-output-to-string (lambda () (exit 15)))", "(catch #t (lambda () (car 1)) (lambda r (exit 16)))", "(for-each exit '(17))", "(exit 'a)", "(exit 3.0)", "(exit 0.0)", "(exit 255.0)", "(catch #t (lambda () (exit \"x\")) (lambda r 'caught))"]
# programs that write files, which are complete when the program has ended, however it ends
WRITES = ["(define o (open-output-file \"out1\"))", "(display \"line 1\" o)", "(write '(a \"s\" #\\b) o)", "(newline o)", "(close-output-port o)", "(call-with-output-file \"out2\" (lambda (p) (write n p) (display n p)))", "(call-with-output-file \"out2\" (lambda (p) (display 'abc p) (car 1) (display 'never p)))",
          "(call-with-output-file \"out1\" (lambda (p) (display 'other p)))", "(define l (open-output-file \"out2\")) (do ((i 0 (+ i 1))) ((= i 3000)) (write i l))", "(car (display n o))", "(call/cc (lambda (c) (call-with-output-file \"out3\" (lambda (p) (display 'esc p) (c 1)))))", "(begin (display 5 o) (exit 2))", "(display 'part o) (exit)",
          "(define i (open-input-file \"out1\")) (read i)", "(begin (display \"(set! n 9)\" o) (close-output-port o) (load \"out1\") n)", "(begin (write-char #\\z o) (force-output o))", "(set-current-output-port o) (display 'cur)", "(call-with-output-file \"out4\" (lambda (p) (call-with-output-file \"out5\" (lambda (q) (display 1 p) (display 2 q) (exit 4)))))"]
# programs that read from standard input
READS = ["(read)", "(read-char)", "(peek-char)", "(list (read) (read-char))", "(begin (peek-char) (read))", "(read (current-input-port))", "(define p (current-input-port)) (read-char p)", "(let ((x (read-char))) (eof-object? x))", "(begin (set! log (cons (read) log)) log)",
         "(let loop ((i 0)) (let ((c (read-char))) (if (or (eof-object? c) (char=? c #\\newline)) i (loop (+ i 1)))))", "(do ((i 0 (+ i 1)) (l '() (cons (read) l))) ((= i 3) l))", "(eof-object? (peek-char))", "(char=? (read-char) #\\newline)", "(with-input-from-string \"q r\" (lambda () (read)))", "(catch #t (lambda () (read-char) (car 1)) (lambda r (read-char)))"]
DATA = ["", "\n", "5", "5\n", "x y\nz\n", "(a\n b) c\n", "\"s t\" 6\n", "; c\n1\n2\n", "'q 7\n", "n\n(+ n 1)\n", "#\\a#\\b\n", "\n\n4\n", "#(1 2)3\n"]
ARGS = ["a.scm", "b.scm", "missing", "-s", "--test", "-h", "--help", "-v", "--version", "--debug", "bad.scm", "empty.scm"]
FILES = "\x1f".join(["a.scm=(define n 5)\n(+ n 1)\n\"s\"\n", "b.scm=(display 'hello)\n'b\n(exit 3)\n", "bad.scm=(display 'never)\n1\n(car\n", "empty.scm=; nothing\n"])


def layouts(tok, sep):
    """The form with one gap replaced, with all gaps replaced, with none."""
    yield " ".join(tok)
    for s in sep:
        for i in range(len(tok) - 1):
            yield " ".join(tok[:i + 1]) + s + " ".join(tok[i + 1:])
        if len(tok) > 2:
            yield s.join(tok)


def texts(quick):
    L = [list(dict.fromkeys(layouts(f, SEPS))) for f in FORMS]
    P = [" ".join(f) for f in FORMS]
    end = ["", "\n", " ", "\n\n", " ; end", " ; end (\n"]
    for ls in L:  # one form in every layout, then another on the same or the next line
        for x in ls:
            for s in ("\n", " "):
                yield x + s + "(list n 'after)\n"
            yield x
    for a, b in itertools.product(P, repeat=2):  # two forms with everything between and after them
        for s in SEPS:
            yield a + s + b + "\n"
    for a in P:
        for s in SEPS:
            for e in end:
                yield a + s + a + e
    for a, b, c in itertools.product(P[::3] if quick else P[::2], repeat=3):
        for s, t in itertools.product(SEPS[:4:3 if quick else 1], repeat=2):
            yield a + s + b + t + c + "\n"


def checks(quick):
    for t in texts(quick):
        yield "I" + SETUP + t
    for i, t in enumerate(texts(True)):
        if not quick or i % 4 == 0:
            yield "B" + SETUP + t
    for n in range(1, 4 if quick else 5):
        for t in itertools.product(LINES if n < 3 or (n == 3 and not quick) else LINES[::3], repeat=n):
            yield "I" + SETUP + "\n".join(t) + "\nn\nlog\n"
            if n < 3:
                yield "I" + SETUP + "\n".join(t)
                yield "B" + SETUP + "\n".join(t) + "\nn\nlog\n"
    for a, b in itertools.product(LINES, repeat=2):  # errors again and again
        yield "I" + SETUP + (a + "\n" + b + "\n") * 20
    for b in BAD:  # nothing of a script that cannot be read is evaluated
        for g in LINES[:2] + LINES[15:18]:
            for t in (b, g + "\n" + b, b + "\n" + g, g + " " + b + "\n" + g):
                yield "B" + SETUP + "(display 'x)\n" + t + "\n"
    for x in EXITS:
        for pre, post in itertools.product(["", "(display 'out) ", "(car 1)\n", "1 2 "], ["", " (display 'never)", "\n(display 'never)\n5\n"]):
            yield "I" + SETUP + pre + x + post
            yield "B" + SETUP + pre + x + post
    # long lines, long forms, long sessions
    for n in [1, 2, 10, 100, 1000] + [b + d for b in (4096, 8192) for d in range(-9, 4)] + [20000] + ([] if quick else [65536 + d for d in range(-9, 4)] + list(range(4000, 4200))):
        for t in ("(string-length \"%s\")" % ("s" * n), "'%s" % ("y" * n), "(quote%s5)" % (" " * n), "; %s\n7" % ("c" * n), "(list 1 ; %s\n 2)" % ("(" * n), "%s1" % (" " * n), "1%s2" % (" " * n)):
            yield "I" + t + "\n8\n"
            yield "I" + t
            if n < 9000:
                yield "B" + t + "\n8\n"
    for n in [1, 2, 3, 10, 63, 64, 65, 255, 256, 257, 300, 1000] + ([2500, 5000] if not quick else []):
        yield "I" + SETUP + "(set! n (+ n 1))\n" * n + "n\n"
        yield "I" + SETUP + "(set! n (+ n 1)) " * n + "n\n"
        yield "I" + "(list\n" + "1\n" * n + ")\n2\n"
        yield "I" + SETUP + "(car n)\n" * n + "n\n"
        yield "I" + SETUP + ")\n" * n + "n\n"
        yield "I" + "\n" * n + "5\n"
        yield "B" + SETUP + "(set! n (+ n 1))\n" * n + "n\n"
        yield "B" + SETUP + "(car n)\n" * n + "n\n"
    for n in [1000, 2040, 2045, 2046, 2047, 2048, 2049, 2050, 3000, 4096, 5000, 9000] + ([50000] if not quick else []):  # an expression over many lines
        for x in ("1\n", "\n", ";(\n", "'x ; \"\n"):
            yield "I" + "(length '(a\n" + x * n + "b))\n2\n"
            yield "B" + "(length '(a\n" + x * n + "b))\n2\n"
    # what is still to be evaluated, and what was defined, survive collections
    G = "(define big (vector->list (make-vector 1000 'x)))\n(define (f n) (append big (list n)))\n"
    for n in (10, 50, 100, 200, 400) if quick else (10, 30, 50, 70, 100, 150, 200, 300, 400, 500):
        loop = "(do ((i 0 (+ i 1))) ((= i %d) 'done) (f 30))\n" % n
        for rest in ("(list 'a \"b\" (+ 1 2))\n", "(define (g x) (list x 'g))\n(g 1)\n", "'(a (b #(c \"d\")) . e)\n", "(let ((l (f 3))) (length l))\n", "(car 1)\n(catch #t (lambda () (car 1)) (lambda r 'c))\n"):
            for k in "IB":
                yield k + G + loop + rest * 3 + loop + rest + "(length (f 10))\n"
                yield k + G + (loop + rest) * 5
                yield k + G + (loop + rest).replace("\n", " ") * 3 + "\n"
    for n in range(1, 3 if quick else 4):
        for ws in itertools.product(WRITES, repeat=n):
            for e in ("", "(car 1)\n", "(exit 7)\n", "(throw 'x)\n(display \"end\" o)\n"):
                yield "B" + SETUP + WRITES[0] + "\n" + "\n".join(ws) + "\n" + e
                if n < 2:
                    yield "I" + SETUP + WRITES[0] + "\n" + "\n".join(ws) + "\n" + e
    for n in range(1, 3 if quick else 4):
        for rs in itertools.product(READS, repeat=n):
            for d in DATA:
                yield "B" + SETUP + "\n".join(rs) + "\nn\n\x1f" + d
                yield "I" + SETUP + "\n".join(rs) + "\n" + d + "n\n"
                if n < 3:
                    yield "I" + SETUP + " ".join(rs) + "\n" + d + "n\n"
                    yield "I" + SETUP + (d if d.endswith("\n") else d + "\n").join(rs) + "\n" + d + "log\n"
    for n in range(0, 4):
        for a in itertools.product(ARGS if n < 3 or not quick else ARGS[::2], repeat=n):
            yield "A" + "\x1d".join(a) + "\x1f" + FILES


def check(run):
    driver.compare(run, checks(run.quick), harness="vcli")
