import itertools
import driver
import gen

ERR = "(catch #t (lambda () %%) (lambda r 'err))"
REL = ["=?", "<?", ">?", "<=?", ">=?"]


def lit(s):
    """a string literal in the syntax of the reader; every byte that is no plain letter or digit as an octal escape"""
    return '"' + "".join(c if c.isalnum() and ord(c) < 128 or c in "-+./ " else "\\%03o" % ord(c) for c in s) + '"'


def cmps(a, b, kind="string"):
    return "(list " + " ".join("(%s%s%s %s %s)" % (kind, ci, r, a, b) for ci in ("", "-ci") for r in REL) + ")"


SHOW = "(define (codes s) (map char->integer (string->list s)))"
STRS = ["", "a", "abc", "ABC", " ", "a b", "0", "12", "-1", "é".encode().decode("latin-1"), "a\0b", "\n", "\"", "\\", "()", "xyzzy"]


def programs(quick):
    # every character
    for i in range(256):
        yield "(define c (integer->char %d))(define d (integer->char %d))(char->integer c)(list (char? c) (eqv? c d) (eq? c d) (equal? c d) (eqv? c (integer->char %d)))(char->integer (char-upcase c))(char->integer (char-downcase c))(list (char-alphabetic? c) (char-numeric? c) (char-whitespace? c) (char-upper-case? c) (char-lower-case? c))(define s (string c #\\x c))(map char->integer (string->list s))(string-length s)(string=? s (list->string (list d #\\x d)))(string=? (symbol->string (string->symbol s)) s)(eq? (string->symbol s) (string->symbol (string c #\\x d)))(define t (make-string 3 c))(list (string-length t) (char->integer (string-ref t 0)) (char->integer (string-ref t 2)))(string-set! t 1 #\\q)(map char->integer (string->list t))(string=? (substring t 0 1) (string c))(map char->integer (string->list (string-append s t s)))(string-set! s 1 c)(string=? s (make-string 3 c))" % (i, i, (i + 1) % 256)
        yield SHOW + "(define s (string (integer->char %d)))(list (string-ci=? s (string (char-upcase (string-ref s 0)))) (string-ci=? s (string (char-downcase (string-ref s 0)))) (char-ci=? (string-ref s 0) (char-upcase (string-ref s 0))))" % i + ERR.replace(gen.H, "(string->number s)") + ERR.replace(gen.H, "(string->number s 16)") + ERR.replace(gen.H, "(string->number s 36)") + ERR.replace(gen.H, "(string->number s 2)")
    cs = [0, 1, 9, 10, 31, 32, 47, 48, 57, 58, 64, 65, 66, 90, 91, 95, 96, 97, 98, 122, 123, 127, 128, 129, 192, 224, 254, 255] if quick else list(range(0, 256, 3)) + [65, 97, 98, 66, 90, 122, 127, 128]
    for a in cs:
        for b in cs:
            p = "(define a (integer->char %d))(define b (integer->char %d))" % (a, b)
            yield p + "(list " + " ".join("(char%s a b)" % r for r in REL) + ")(list " + " ".join("(string%s (string #\\k a) (string #\\k b))" % r for r in REL) + ")(list (eqv? a b) (equal? (string a b) (string b a)) (eq? (string->symbol (string a)) (string->symbol (string b))))"
            yield p + "(list " + " ".join("(char-ci%s a b)" % r for r in REL) + ")(list " + " ".join("(string-ci%s (string #\\k a) (string #\\K b))" % r for r in REL) + ")(list " + " ".join("(string-ci%s (string a) (string b #\\x))" % r for r in REL) + ")"
    # every pair of short strings
    al = "aAb0\0\xff"
    words = ["".join(w) for n in range(0, 3) for w in itertools.product(al, repeat=n)] + ["aaa", "aab", "aba", "aaA", "a\0b", "a\0c", "ab\0", "abc", "abd", "ABC", "aBd", "zz", "~~", "\x80\x80", "Zoo", "zoO"]
    for a in words:
        for b in words:
            p = "(define a %s)(define b %s)" % (lit(a), lit(b))
            yield p + "(list " + " ".join("(string%s a b)" % r for r in REL) + ")(list (equal? a b) (string-ci=? a b) (eq? (string->symbol a) (string->symbol b)))(equal? (codes (string-append a b)) (append (codes a) (codes b)))".replace("codes", "string->list") + "(string-length (string-append a b a))(map char->integer (string->list (string-append a b)))"
            yield p + "(list " + " ".join("(string-ci%s a b)" % r for r in REL) + ")"
    # every index and range
    for w in STRS + ["abcdefgh"]:
        n = len(w)
        idx = [-1] + list(range(n + 2)) + [2 ** 31, 2 ** 32, -2 ** 32, 2 ** 63 - 1]
        for i in idx:
            yield SHOW + "(define s %s)(define t (string-append s))" % lit(w) + ERR.replace(gen.H, "(char->integer (string-ref s %d))" % i) + ERR.replace(gen.H, "(begin (string-set! t %d #\\Q) 'ok)" % i) + "(codes t)(codes s)(string-length t)" + ERR.replace(gen.H, "(string-set! t 0 5)") + "(codes t)"
            for j in idx:
                yield SHOW + "(define s %s)" % lit(w) + ERR.replace(gen.H, "(let ((u (substring s %d %d))) (list (string-length u) (codes u) (equal? u s)))" % (i, j)) + "(codes s)"
        yield SHOW + "(define s %s)(define u (substring s 0 %d))(if (> %d 0) (string-set! u 0 #\\Q))(codes s)(codes u)(define l (string->list s))(define v (list->string l))(if (> %d 0) (string-set! v 0 #\\Q))(codes s)(equal? l (string->list s))(codes v)(define y (string->symbol s))(define z (symbol->string y))(if (> %d 0) (string-set! z 0 #\\Q))(codes (symbol->string y))(eq? y (string->symbol s))(codes z)" % (lit(w), n, n, n, n)
        yield SHOW + "(define s (string-append %s))(define y (string->symbol s))(if (> %d 0) (string-set! s 0 #\\Q))(codes (symbol->string y))(eq? y (string->symbol %s))(define a (string-append s \"\"))(define b (string-append s s))(if (> %d 0) (string-set! s %d #\\!))(list (codes a) (codes b) (codes s))" % (lit(w), n, lit(w), n, max(0, n - 1))
    # histories of mutations over strings that may share their characters
    st = ["(string-set! a 0 #\\P)", "(string-set! a 2 #\\Q)", "(string-set! b 1 (string-ref a 0))", "(set! b a)", "(set! b (substring a 0 3))", "(set! a (string-append b c))", "(set! c (list->string (string->list a)))", "(set! c (symbol->string (string->symbol b)))", "(set! b (make-string 3 (string-ref a 1)))", "(string-set! c 0 #\\R)", "(set! a (string (string-ref b 0) #\\- (string-ref c 0)))",
          "(string-set! (symbol->string y) 0 #\\!)", "(set! y (string->symbol a))", "(set! a (symbol->string y))", "(set! c (number->string 4711))", "(set! a (apply string (string->list c)))", "(string-set! (car l) 0 #\\L)", "(set! l (list a b))"]
    pre = "(define a (string #\\a #\\b #\\c))(define b (make-string 3 #\\-))(define c \"xyz\")(define y 'sym)(define l (list a c))"
    for h in gen.seqs(st, 3 if quick else 4):
        if len(h) < 4 or h[0] != h[1]:
            yield pre + "".join(ERR.replace(gen.H, x + "'ok") if False else "(catch #t (lambda () %s 'ok) (lambda r 'err))" % x for x in h) + "(list a b c y l)(list (eq? a b) (string=? a b) (string-length a))"
    # construction
    for n in list(range(0, 12)) + [30, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4095, 4096, 5000]:
        yield SHOW + "(define s (make-string %d #\\m))(string-length s)(if (> %d 0) (string-set! s %d #\\E))(length (string->list s))(string=? s (list->string (string->list s)))(string=? s (apply string (string->list s)))(string=? s (string-append (substring s 0 %d) (substring s %d %d)))(string=? s (symbol->string (string->symbol s)))(string-length (string-append s s \"x\" s))(string-ref (string-append s \"x\") %d)(string-ci=? s (make-string %d #\\M))(string<? s (string-append s \"\"))(string<? s (string-append s \"a\"))" % (n, n, max(0, n - 1), n // 2, n // 2, n, n, n)
    for k in range(0, 4):
        for xs in itertools.product(["\"\"", "\"a\"", "\"\\000\"", "\"bc\"", "'s", "#\\c"], repeat=k):
            yield SHOW + ERR.replace(gen.H, "(codes (string-append %s))" % " ".join(xs))
        for xs in itertools.product(["#\\a", "#\\space", "#\\(", "\"s\"", "97"], repeat=k):
            yield SHOW + ERR.replace(gen.H, "(codes (string %s))" % " ".join(xs)) + ERR.replace(gen.H, "(codes (list->string (list %s)))" % " ".join(xs))
    for bad in ("'(#\\a . #\\b)", "'(#\\a \"b\")", "(vector #\\a)", "#\\a", "\"a\"", "5", "'(())", "(cons #\\a 5)"):
        yield ERR.replace(gen.H, "(list->string %s)" % bad)
    for n in ("-1", "0", "1", "3", "'a", "1.5", "\"1\"", "-9223372036854775807"):
        for f in ("", "#\\z", "\"z\"", "5"):
            yield SHOW + ERR.replace(gen.H, "(codes (make-string %s %s))" % (n, f))
    # wrong arguments in every position
    vals = ["\"s\"", "'s", "#\\s", "5", "1.5", "'()", "#t", "(list #\\s)", "(vector)"]
    ops1 = ["string-length", "string->list", "list->string", "string->symbol", "symbol->string", "string->number", "number->string", "char->integer", "integer->char", "char-upcase", "char-downcase", "char-alphabetic?", "char-numeric?", "char-whitespace?", "char-upper-case?", "char-lower-case?", "string?", "symbol?", "char?", "string", "make-string", "string-append"]
    for o in ops1:
        for v in vals:
            if o == "make-string" and v == "5":
                continue
            yield SHOW + ERR.replace(gen.H, "(let ((r (%s %s))) r)" % (o, v))
        yield ERR.replace(gen.H, "(%s)" % o)
        if o not in ("string", "string-append", "make-string", "string->number", "number->string"):
            yield ERR.replace(gen.H, "(%s %s %s)" % (o, "'s", "'s"))
    for o in ["string-ref"] + ["string" + c + r for c in ("", "-ci") for r in REL] + ["char" + c + r for c in ("", "-ci") for r in REL]:
        for v in vals:
            for w in vals:
                yield ERR.replace(gen.H, "(%s %s %s)" % (o, v, w))
    for v in vals:
        for w in vals[:6]:
            for x in vals[:6]:
                yield "(define z \"zz\")" + ERR.replace(gen.H, "(begin (string-set! %s %s %s) 'ok)" % (v if v != "\"s\"" else "z", w, x)) + "z" + ERR.replace(gen.H, "(substring %s %s %s)" % (v, w, x))
    for n in ("-1", "256", "4294967296", "4294967361", "9223372036854775807", "-9223372036854775807", "1.5", "65.0"):
        if n not in ("256", "4294967296", "4294967361", "9223372036854775807"):
            yield ERR.replace(gen.H, "(integer->char %s)" % n)
    # numbers and their text
    al = "01-+./e "
    for n in range(0, 5 if quick else 6):
        ws = ["".join(w) for w in itertools.product(al, repeat=n)]
        for i in range(0, len(ws), 16):
            yield "".join("(string->number %s)" % lit(w) for w in ws[i:i + 16])
    for w in itertools.product(["", "-", "+"], ["", "0", "7", "12", "007", "4611686018427387904", "9223372036854775807"], ["", ".", "/", "e", "E", "e-", "x", "#", "("], ["", "0", "2", "5", "10", "3x"]):
        if "#" not in w:
            yield "(string->number %s)" % lit("".join(w))
    for rx in list(range(2, 37)):
        for v in [0, 1, -1, 7, 8, 9, 10, 11, 15, 16, 35, 36, 37, -35, 255, 1000, -1000, 123456789, 2 ** 31, -2 ** 31, 2 ** 62, 2 ** 63 - 1, -2 ** 63]:
            yield "(define n %d)(define s (number->string n %d))s(string-length s)(eqv? n (string->number s %d))" % (v, rx, rx) if v != -2 ** 63 else "(number->string %d %d)" % (v, rx)
        for w in ["0", "1", "2", "8", "9", "a", "A", "f", "g", "z", "Z", "10", "ff", "-zz", "+11", "1a2B", "", "-", "+", "--1", "1-", " 1", "1 ", "_1", "é".encode().decode("latin-1"), "00", "-0"]:
            yield "(string->number %s %d)" % (lit(w), rx)
    for rx in ("0", "1", "37", "-2", "'a", "1.5", "10", "2"):
        yield ERR.replace(gen.H, "(number->string 5 %s)" % rx) + ERR.replace(gen.H, "(string->number \"101\" %s)" % rx)
    for v in ["1/2", "-1/3", "7/3", "1.5", "-0.5", "0.1", "100.0", "1.0", "123456.789", "-2.25", "12345678.5", "0.001", "0.0001", "0.00001", "1e10", "1e17", "-1e5", "1e-7", "3.14159265358979", "9007199254740993", "1/9223372036854775807"]:
        yield "(define n %s)(define s (number->string n))s(eqv? n (string->number s))(string->number (string-append s \" \"))(string->number (string-append \" \" s))(string->number (string-append s \"x\"))" % v
    # symbols
    for w in STRS + ["+", "-", "...", "a.b", "->x", "A", "quote", "1+", "'", "a'b", "if", ":k", "x:"]:
        yield SHOW + "(define y (string->symbol %s))(symbol? y)(codes (symbol->string y))(eq? y (string->symbol %s))(list (eq? y (string->symbol (string-append %s \"x\"))) (string? y) (equal? y %s))(memq y (list 'zz y))(eq? (car (memq (string->symbol %s) (list 'p y))) y)(eq? y (string->symbol (symbol->string y)))" % ((lit(w),) * 5) if w not in ("()",) else "'a"
    yield "(define a (gensym))(define b (gensym))(list (symbol? a) (eq? a b) (eq? a a) (string? (symbol->string a)) (eq? a (string->symbol (symbol->string b))))"
    for n in (2, 5, 12, 40):
        yield "(define l (map (lambda (x) (gensym)) (vector->list (make-vector %d 0))))(define (dup l) (cond ((null? l) #f) ((memq (car l) (cdr l)) #t) (else (dup (cdr l)))))(dup l)(length l)(dup (cons (car l) l))" % n
    # character names and string escapes
    for nm, i in [("space", 32), ("newline", 10), ("a", 97), ("A", 65), ("(", 40), (")", 41), ("\"", 34), (";", 59), ("\\", 92), ("0", 48), ("#", 35), ("'", 39)]:
        yield "(char->integer #\\%s)(list #\\%s 'x)(eqv? #\\%s (integer->char %d))(string-length (string #\\%s))" % (nm, nm, nm, i, nm)


def check(run):
    driver.compare(run, programs(run.quick))
