"""P26: data know where they were read, and errors say where they happened.  Texts of data in every layout: the place of every
part of them, as the reader recorded it.  Programs in which one expression fails: the message names it, or an expression of
which it is the last part."""
import itertools
import re
import driver

K, L, V = "\x1dK", "\x1dL", "\x1dV"


def at(text, i):
    """line and column of the character at i"""
    return "%d:%d" % (text.count("\n", 0, i) + 1, i - text.rfind("\n", 0, i))


# ---- data: a datum is an atom, or (open, parts, close); gaps are between the parts
ATOMS = ["a", "12", "-3", "2.5", "1/2", "\"s t\"", "\"\\\"\\n;(\"", "\"x\ny\"", "#\\a", "#\\(", "#\\space", "foo-bar!", "...", "+", "a\\.b\\#c", "#{x (y\\}}#", "#{x\ny}#", "|a|"]
NOWHERE = ["#t", "()", "#:key", "#f"]  # without a place of their own
GAPS = [" ", "\n", "\n  ", " ; ) \" c\n", "\t", "\n\n ", "  ", "\r\n", ";\n"]


def render(d, gap, out, marks):
    """the text of the datum, and the string of the places, as a function of the text"""
    if isinstance(d, str):
        if d in NOWHERE:
            marks.append("?")
        else:
            marks.append(len(out[0]))
        out[0] += d
        return
    o, parts, c = d
    if o in ("'", "`", ",", ",@"):
        marks.append("'")
        out[0] += o
        render(parts[0], gap, out, marks)
        return
    if o == "(quote ":
        marks.append("'")
        out[0] += "(quote" + gap()
        render(parts[0], gap, out, marks)
        out[0] += ")"
        return
    marks.append(len(out[0]))
    marks.append("(" if o == "(" else "#(")
    out[0] += o
    for i, p in enumerate(parts):
        if i:
            out[0] += gap()
            if c == "." and i == len(parts) - 1:
                out[0] += "." + gap()
                marks.append(" . ")
            else:
                marks.append(" ")
        elif gap.inner:
            out[0] += gap()
        render(p, gap, out, marks)
    if gap.inner:
        out[0] += gap()
    out[0] += ")"
    marks.append(")")


class Gap:
    def __init__(self, gaps, inner):
        self.g, self.i, self.inner = gaps, 0, inner

    def __call__(self):
        self.i += 1
        return self.g[(self.i - 1) % len(self.g)]


def text(data, gaps, inner=False, before="", after=""):
    gap = Gap(gaps, inner)
    out, lines = [before], []
    for i, d in enumerate(data):
        if i:
            out[0] += gap()
        marks = []
        render(d, gap, out, marks)
        lines.append(marks)
    t = out[0] + after
    for k, f in ((K, "<unknown>"), (L, "text.scm")):
        yield k + t, "".join("".join(f + ":" + at(t, m) if isinstance(m, int) else m for m in l) + "\n" for l in lines)


def lst(*x):
    return ("(", x, ")")


def dot(*x):
    return ("(", x, ".")


def vec(*x):
    return ("#(", x, ")")


def q(x, o="'"):
    return (o, (x,), "")


def trees(level):
    A = ATOMS + NOWHERE
    for a in A:
        yield a
        for o in ("'", "`", ",", ",@", "(quote "):
            yield q(a, o)
        yield lst(a)
        yield vec(a)
        yield lst(lst(a))
    for a, b in itertools.product(A, repeat=2):
        yield lst(a, b)
        yield vec(a, b)
        if b not in NOWHERE:
            yield dot(a, b)
        yield lst(q(a), b)
        yield lst(lst(a), b)
        yield lst(a, lst(b), a)
        yield lst(vec(a), q(lst(b), "`"))
        if level:
            yield lst(a, q(vec(b, a), ","), dot(a, a, "z"), b)
            yield lst(lst(lst(a), b), lst(b, vec(lst(a, b))), a)
            for c in A:
                yield lst(a, b, c)
                yield lst(a, lst(b, c))
                yield vec(lst(a), b, q(c))


def data(level):
    for d in trees(level):
        for g in GAPS:
            yield from text([d], [g])
            yield from text([d, "b", d], [g])
            yield from text([d, lst("x", d)], [g], True)
        for before in ("\n", " ", "; c\n", "\n\n\t", ";\n;\n  "):
            yield from text([d], [" "], False, before, " ")
        for g in itertools.combinations(GAPS, 2):
            yield from text([d, lst("x", d, "y")], g)
            if level:
                yield from text([lst(d, "x", vec(d, d)), d], g, True)
    for a, b in itertools.product(ATOMS, repeat=2):
        for g in itertools.product(GAPS, repeat=2):
            yield from text([a, b, "z"], g)
            yield from text([lst(a, b, "z")], g)
    for n in [1, 2, 10, 63, 64, 100, 127, 128, 255, 256, 1000, 1023, 1024, 4095, 4096, 10000, 32767, 32768, 70000]:
        for g in (" ", "\n", "\t", " \n"):
            yield from text([lst("a", "b"), "c"], [g * n])
        yield from text(["a" * n, "b", lst("c", "d")], [" "])
        yield from text(["\"" + "a" * n + "\"", "b", lst("c", "d")], [" "])
        yield from text(["\"" + "a\n" * n + "\"", "b", lst("c", "d")], [" "])
        yield from text([lst(*["a"] * min(n, 2500)), "b"], [" "])
        yield from text([lst(*["a"] * min(n, 2500)), "b"], ["\n"])
        yield from text(["a", "b"], [";" + "c" * n + "\n"])
    for n in range(1, 60):
        d = "x"
        for i in range(n):
            d = lst("a", d) if i % 3 else vec(d, "b")
            yield from text([d, "z"], GAPS[i % len(GAPS):] + GAPS[:2])


def unreadable(level):
    """texts that end too early: the place of the end; too many parentheses: the place of the first that is too much"""
    seen = set()

    def one(t, i):
        if t in seen:
            return
        seen.add(t)
        for k, f in ((K, "<input>"), (L, "text.scm")):
            yield k + t, "! %s:%s\n" % (f, at(t, i))

    A = [a for a in ATOMS if a != "..."]
    data = [lst(a, b) for a in A for b in A] + [lst(a, lst(vec(b), q(a)), b) for a in A for b in A[:4]] + [dot(a, lst(b, a)) for a in A for b in A[:4]] + [lst(q(lst(a, "x"), o), dot("y", a)) for a in A for o in ("'", "`", ",", ",@", "(quote ")]
    data += [vec(a, lst(b), vec(a)) for a in A for b in A[:4]]
    for d in data:
        for g in GAPS if level else GAPS[:6]:
            for before in ("", "x\n", ";(\n 12 ") if level else ("", "x\n"):
                t = next(text([d], [g], bool(level) and g == " ", before))[0][2:]
                for i in range(len(before) + 1, len(t)):
                    p = t[:i]
                    if re.search(r"#[^\s()]*$", p) and not re.match(r"[\s()]", t[i]) or re.search(r"#\\[(]?$|(^|[\s(`,@'])#$", p):
                        continue  # part of an atom that starts with #
                    yield from one(p, i)
                yield from one(t + g + ")", len(t + g))
                yield from one(t + ") x", len(t))
                if d[2] == ".":
                    yield from one(t[:-1] + g + "zz)", len(t[:-1] + g))


# ---- errors: ~ is a gap, %% the hole.  T: what is in the hole is evaluated in place of the whole; N: it is an expression of its own; M: the use of a macro,
# whose expansion has the places of the use.  ^: an expression in the place of the whole that the hole is in the place of
PRE = "(define (f v) (list v))(define (g v) (if v (f v) 1))(define h (make-hash-table 3))(hash-set! h 1 1)(define-macro (same e) e)(define kk #f)"
CTX = [("N", "(list~1~%%)"), ("N", "(list~%%~(car '()))"), ("N", "(if~%%~1)"), ("T", "(if~#t~%%)"), ("T", "(if~#f~1~%%)"), ("T", "(begin~1~%%)"), ("N", "(begin~%%~2)"), ("N", "(cond~(%%~1))"), ("T", "(cond~(#f~2)~(#t~%%))"), ("N", "(cond~(#t~%%~1))"), ("T", "(cond~(else~%%))"),
       ("N", "(case~%%~((1)~2))"), ("T", "(case~1~((1)~%%))"), ("T", "(case~1~(else~(f 2)~%%))"), ("N", "(and~%%~1)"), ("T", "(and~1~%%)"), ("N", "(or~%%~1)"), ("T", "(or~#f~%%)"), ("N", "(let~((v~%%))~v)"), ("T", "(let~((v~1))~(f v)~%%)"), ("N", "(let~()~%%~1)"), ("N", "(let*~((v~1)~(w~%%))~v)"),
       ("T", "(let*~((v~1)~(w~v))~%%)"), ("N", "(letrec~((v~%%))~v)"), ("T", "(letrec~((v~1))~%%)"), ("T", "(let~again~((i~1))~^(if~(>~i~0)~(again~(-~i~1))~%%))"), ("N", "(do~((i~%%))~(#t~1))"), ("N", "(do~((i~0~(+~i~1)))~((=~i~1)~1)~%%)"), ("T", "(do~((i~0~(+~i~1)))~((=~i~2)~%%)~(f~i))"), ("N", "(do~((i~0~%%))~((=~i~1)~1))"),
       ("N", "(set!~kk~%%)"), ("N", "(define~dd~%%)"), ("T", "((lambda~(v)~%%)~1)"), ("N", "((lambda~(v)~%%~v)~1)"), ("N", "((lambda~(v)~v)~%%)"), ("T", "(%%~1)"), ("N", "(list~(f~1)~(g~2)~%%)"), ("N", "(list~(catch~'a~(lambda~()~(throw~'a))~(lambda~r~1))~%%)"), ("N", "(list~(catch~#t~(lambda~()~(car~1))~(lambda~r~r))~%%)"),
       ("N", "(list~(call/cc~(lambda~(k)~(k~1)))~%%)"), ("N", "(list~(call/cc~(lambda~(k)~(f~(k~1))))~%%)"), ("N", "(list~(map~(lambda~(x)~(f~x))~'(1~2))~%%)"), ("N", "(list~(dynamic-wind~(lambda~()~(f~1))~(lambda~()~2)~(lambda~()~(g~3)))~%%)"), ("N", "(list~(force~(delay~(f~1)))~%%)"), ("N", "(list~(eval~'(f~1))~%%)"),
       ("T", "(map~(lambda~(x)~%%)~'(1))"), ("T", "(for-each~(lambda~(x)~(f~x)~%%)~'(1))"), ("N", "(map~(lambda~(x)~%%~1)~'(1))"), ("T", "(apply~(lambda~(x)~%%)~'(1))"), ("T", "(call/cc~(lambda~(k)~%%))"), ("N", "(call/cc~(lambda~(k)~(k~%%)))"), ("T", "(dynamic-wind~(lambda~()~1)~(lambda~()~%%)~(lambda~()~(f~2)))"),
       ("T", "(dynamic-wind~(lambda~()~%%)~(lambda~()~1)~(lambda~()~2))"), ("T", "(dynamic-wind~(lambda~()~(f~1))~(lambda~()~2)~(lambda~()~%%))"), ("T", "(catch~'a~(lambda~()~%%)~(lambda~r~1))"), ("T", "(catch~'a~(lambda~()~(throw~'a))~(lambda~r~%%))"), ("T", "(force~(delay~%%))"), ("T", "(call-with-values~(lambda~()~%%)~list)"), ("T", "(call-with-values~(lambda~()~1)~(lambda~(v)~%%))"),
       ("T", "(call-with-output-string~(lambda~(p)~(display~1~p)~%%))"), ("T", "(hash-fold~(lambda~(k~v~a)~%%)~0~h)"), ("N", "`(1~,%%)"), ("N", "`(1~,@%%)"), ("T", "(begin~(define~(qq~v)~%%)~(qq~1))"), ("N", "(begin~(define~(qq~v)~%%~v)~(qq~1))"), ("T", "(let~()~(define~(qq~v)~%%)~(qq~1))"), ("T", "(begin~(define~(qq~v)~^(if~(=~v~0)~%%~(qq~(-~v~1))))~(qq~3))"),
       ("N", "(begin~(define~(qq~v)~(+~1~(if~(=~v~0)~(f~%%)~(qq~(-~v~1)))))~(qq~3))"), ("M", "(same~%%)"), ("M", "(same~(list~%%))"), ("T", "(eval~'%%)")]
FAIL = ["(car~5)", "(vector-ref~(vector~1)~9)", "undefined-var", "(undefined-fn~1)", "(+~1~'a)", "(string-append~1)", "((lambda~(x)~x))", "(hash-ref~1~2)", "(car~(car~(f~'()))~)", "(+~(catch~#t~(lambda~()~(car~1))~(lambda~r~1))~'a)", "(vector-ref~(vector~1)~(length~(map~f~'(1~2))))", "(if)", "(let~((x))~1)", "(set!~(car~1)~2)", "(string-length~(force~(delay~(g~1))))",
        "(car~(call/cc~(lambda~(k)~(f~(k~2)))))", "(list-ref~'(1)~(let~loop~((i~0))~(if~(=~i~3)~i~(loop~(+~i~1)))))", "(symbol->string~(dynamic-wind~(lambda~()~1)~(lambda~()~(f~2))~(lambda~()~3)))", "((f~1)~2)", "(list-tail~'(1~2)~4)", "((if~#t~f~g)~)", "(apply~car~'(5))", "(map~car~'(5))"]


def place_text(ctxs, fail, gap, wrap="%%", file="text.scm", pre=PRE + "\n"):
    """the program, and the places its error may be reported at"""
    w0, w1 = wrap.split("%%")
    chain, uses = [0], []
    t = ""
    tail = ""
    for kind, c in ctxs:
        a, b = c.replace("~", "\x00").split("%%")
        if kind == "M":
            uses.append((len(t), len(tail)))
        if kind == "N":
            chain = []
        for part in a.split("^")[:-1]:
            t += part
            chain.append(len(t))
        t += a.split("^")[-1]
        tail = b + tail
        chain.append(len(t))
    t = t + fail.replace("~", "\x00") + tail
    for b, e in uses:
        chain += range(b, len(t) - e)
    # the gaps are of one character now
    pos = []
    out = pre + w0
    for ch in t:
        pos.append(len(out))
        out += gap() if ch == "\x00" else ch
    pos.append(len(out))
    out += w1 + "\n"
    return " ".join(file + ":" + at(out, pos[i]) for i in dict.fromkeys(chain)), out


LAY = [[" "], ["\n"], ["\n  ", " "], [" ", "\n "], ["  ", " ; ) c\n\t", "\n"]]
WRAP = ["%%", "(list 1 %%)", "(begin (define (main) %%) (f 1) (main))", "(catch #t (lambda () %%) (lambda (k . r) (car r)))", "(catch 'error (lambda () (list 1 %%)) (lambda (k . r) (f 1) (car r)))"]


def errors(level):
    def one(*a, **k):
        p, t = place_text(*a, **k)
        return V + p + "\x19" + t, "ok\n"

    for f in FAIL:
        for g in LAY:
            for w in WRAP:
                yield one([], f, Gap(g, 0), w)
        for c in CTX:
            for g in LAY:
                for w in WRAP:
                    yield one([c], f, Gap(g, 0), w)
    for c, d in itertools.product(CTX, repeat=2):
        for i, f in enumerate(FAIL):
            for w in WRAP[1:4] if level else WRAP[3:4]:
                yield one([c, d], f, Gap(LAY[i % len(LAY)], 0), w)
            if level and i < 2:
                for e in CTX:
                    yield one([c, d, e], f, Gap(LAY[2 + i], 0), WRAP[3])
    # the code is in another file
    for c in CTX:
        for f in FAIL:
            for g in LAY[:3]:
                p, t = place_text([c], f, Gap(g, 0), "(define (main) %%)", "other.scm", "\n; other\n")
                for use in ("(load \"other.scm\")\n\n(main)", "(load \"other.scm\")\n(list 1\n (main))", "(load \"other.scm\")\n(catch #t main (lambda (k . r) (car r)))"):
                    yield V + p + "\x19" + PRE + "\n" + use + "\x19other.scm\x19" + t, "ok\n"


# a call whose place is that of the whole, with an operand (9) of every kind of expression
VALUE9 = ["9", "x9", "(or~9~1)", "(or~#f~9)", "(and~1~9)", "(and~9)", "(if~#t~9~1)", "(if~#f~1~9)", "(cond~(#f~1)~(9))", "(cond~(1~9))", "(cond~(9~=>~(lambda~(v)~v)))", "(cond~(else~1~9))", "(case~1~((1)~9)~(else~2))", "(case~3~((1)~1)~(else~9))", "(begin~1~9)", "(begin~9)", "(let~((v~9))~v)", "(let*~((v~1)~(w~(+~v~8)))~w)",
          "(letrec~((v~(lambda~()~9)))~(v))", "(let~loop~((i~0))~(if~(=~i~9)~i~(loop~(+~i~1))))", "(do~((i~0~(+~i~1)))~((=~i~9)~i))", "(do~((i~0~(+~i~1)))~((=~i~9)~(f~1)~i)~(f~i))", "((lambda~(v)~v)~9)", "((lambda~v~(car~v))~9)", "(quote~9)", "`9", "(car~`(,(+~1~8)))", "(begin~(set!~kk~9)~kk)", "(begin~(define~dd~9)~dd)",
          "(force~(delay~9))", "(apply~+~'(4~5))", "(car~(map~(lambda~(v)~v)~'(9)))", "(begin~(for-each~f~'(1~2))~9)", "(call/cc~(lambda~(k)~9))", "(call/cc~(lambda~(k)~(f~(k~9))))", "(call/cc~(lambda~(k)~(for-each~k~'(9))))", "(dynamic-wind~(lambda~()~1)~(lambda~()~9)~(lambda~()~2))", "(catch~'a~(lambda~()~9)~(lambda~r~1))", "(catch~'a~(lambda~()~(f~(throw~'a)))~(lambda~r~9))",
          "(catch~#t~(lambda~()~(car~1))~(lambda~r~9))", "(catch~#t~(lambda~()~(list~(or~(car~1))))~(lambda~r~9))", "(catch~#t~(lambda~()~undefined)~(lambda~r~(f~1)~9))", "(call-with-values~(lambda~()~(values~4~5))~+)", "(eval~'(+~4~5))", "(string-length~(call-with-output-string~(lambda~(p)~(display~123456789~p))))", "(hash-fold~(lambda~(k~v~a)~9)~0~h)", "(same~9)", "(same~(+~4~5))", "(length~(list~1~2~3~4~5~6~7~8~9))",
          "(vector-length~#(1~2~3~4~5~6~7~8~9))", "(f9)", "(cdr~(assq~'a~'((a~.~9))))", "(catch~#t~(lambda~()~(let~lp~((i~0))~(if~(=~i~3)~(car~i)~(lp~(+~i~1)))))~(lambda~r~9))", "(catch~'a~(lambda~()~(dynamic-wind~(lambda~()~1)~(lambda~()~(throw~'a))~(lambda~()~(f~2))))~(lambda~r~9))"]
OUTER = ["(vector-ref~v1~%%)", "(list-ref~l1~%%)", "(car~%%)", "(string-append~%%)", "(+~%%~'a)", "(%%~1)", "(hash-ref~%%~1)", "(vector-ref~(vector~%%~1)~%%)", "(list-tail~(list~%%)~%%)", "((lambda~(v)~v)~1~%%)", "(car~(or~#f~%%))", "(undefined-fn~%%)", "(apply~car~(list~%%))", "(symbol->string~(begin~%%~%%))"]

# macros; m is used
MAC = [("(define-macro~(m)~'(car~5))", "(m)"), ("(define-macro~(m~x)~(list~'car~x))", "(m~5)"), ("(define-macro~(m~x)~`(list~1~(car~,x)))", "(m~5)"), ("(define-macro~(m~x)~`(let~((v~,x))~(car~v)))", "(m~5)"), ("(define-macro~(m~.~r)~(cons~'begin~r))", "(m~1~(car~5))"), ("(define-macro~(n~x)~`(car~,x))(define-macro~(m~x)~`(n~,x))", "(m~5)"),
       ("(define-macro~(m~x)~`(if~,x~(car~5)~2))", "(m~(f~1))"), ("(define-macro~(m~x)~'(undefined-fn~1~2~(f~1)))", "(m~3)"), ("(define-macro~(m~x)~(car~x))", "(m~5)"), ("(define-macro~m~(lambda~(x)~(list~'list~(list~'car~x))))", "(m~5)"), ("(define-macro~(m~x~y)~(list~x~y))", "(m~car~5)"),
       ("(define-macro~(n~x)~(list~'quote~x))(define-macro~(m~x)~`(car~(car~(n~,x))))", "(m~(1~2))"), ("(define-macro~(m~x)~'undefined-var)", "(m~x)"), ("(define-macro~(m~x)~`(cond~((f~1)~(f~1)~(car~,x))))", "(m~(f~(car~5)))"), ("(define-macro~(m~x)~`(map~(lambda~(v)~(car~v))~',x))", "(m~(1~2))"), ("(define-macro~(m~x)~'(if))", "(m~2)")]


# the parts of an expansion have the places of the parts of the use
MACPARTS = [("(define-macro~(m~x)~'(list~(car~5)))", ("N", "(m~%%)"), "(f~1)"), ("(define-macro~(m~x)~(list~'list~(list~'car~5)))", ("N", "(m~%%)"), "(f~1)"), ("(define-macro~(m~x)~'(list~(list~(car~5))))", ("N", "(m~(f~%%))"), "(g~1)"), ("(define-macro~(m~x)~`(list~(undefined-fn~1)))", ("N", "(m~%%)"), "(f~1)"),
            ("(define-macro~(m~x)~(list~'begin~(list~'vector-ref~'(vector~1)~9)))", ("T", "(m~%%)"), "(g~1)"), ("(define-macro~(m~x~y)~'(list~(f~1)~(if)))", ("N", "(m~(f~1)~%%)"), "(g~1)"), ("(define-macro~(n~x)~'(list~(car~5)))(define-macro~(m~x)~(list~'n~(list~'f~2)))", ("N", "(m~%%)"), "(f~1)"), ("(define-macro~(m~x~.~r)~(cons~'list~r))", ("N", "(m~%%~(car~5))"), "(f~1)")]


def operands(level):
    pre = PRE + "(define v1 (vector 1))(define l1 '(1))(define x9 9)(define (f9) 9)\n"
    for o in OUTER:
        for v in VALUE9:
            for g in LAY:
                for c in [None] + CTX if level else [None]:
                    for w in WRAP if not c else WRAP[2:4]:
                        p, t = place_text([c] if c else [], o.replace("%%", v), Gap(g, 0), w, pre=pre)
                        yield V + p + "\x19" + t, "ok\n"


def macros(level):
    for d, use in MAC:
        for g in LAY:
            gap = Gap(g, 0)
            for other in (0, 1):
                head = PRE + "" + "\n" * 30
                deftext = "".join(gap() if c == "~" else c for c in d) + "\n"
                file = "other.scm" if other else "text.scm"
                whole = "\n" * 50 + deftext if other else head + deftext
                places = [file + ":" + at(whole, i) for i in range(len(whole) - len(deftext), len(whole))]
                pre = head + "(load \"other.scm\")\n" if other else whole
                for c in [None] + CTX:
                    for md, mc, mf in MACPARTS[:-1] if d is MAC[0][0] else ():
                        mdef = "\n\n" + "".join(gap() if x == "~" else x for x in md) + "\n"
                        if c and "quasi" in c[1] or c and c[1].startswith("(same"):
                            continue
                        p, t = place_text(([c] if c else []) + [mc], mf, gap, WRAP[3], pre=head + ("(load \"other.scm\")\n" if other else mdef))
                        yield V + p + "\x19" + t + ("\x19other.scm\x19" + "\n" * 40 + mdef if other else ""), "ok\n"
                    for w in (WRAP if level or not c else WRAP[3:4]) + ["(begin (define (main) %%) (catch #t main (lambda (k . r) 1)) (main))"]:
                        p, t = place_text(([c] if c else []) + [("M", use + "%%")], "", gap, w, pre=pre)
                        yield V + p + " " + " ".join(places) + "\x19" + t + ("\x19other.scm\x19" + whole if other else ""), "ok\n"


def check(run):
    level = 0 if run.quick else 1
    driver.compare(run, data(level), label="places of data")
    driver.compare(run, unreadable(level), label="places where texts cannot be read")
    driver.compare(run, errors(level), label="places of errors")
    driver.compare(run, operands(level), label="errors after operands of all kinds")
    driver.compare(run, macros(level), label="errors in macros")
