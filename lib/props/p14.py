import itertools
import driver

S, P, F = "\x1dS", "\x1dP", "\x1dF"
TOK = ["(", ")", ".", "'", "`", ",", ",@", "#(", "a", "-1", "\"s\"", "#\\b", "#t", ";c\n"]
CH_ALL = "().'`,#\\\";\n at1/-e@:{}"
CH_LONG = "().'`,#\\\"; a1"
NUM = "01.5/-+eE a"
TEXTS = ["a", "12", "-7", "1.5", "\"s t\"", "\"\"", "#\\x", "#\\space", "#t", "#f", "()", "(a)", "(a b)", "(a . b)", "(a b . c)", "(a . (b))", "(a . ())", "(())", "((a) (b c))", "#()", "#(1 a)", "#((a) #(b))", "'a", "'()", "'(a 'b)", "`(a ,b ,@c)", "`(1 `(2 ,(3 ,(4))))", "(define (f x) (if x 1 \"n\"))", "(lambda args args)", "(a \"b\" #\\c 1.5 -2 d)", "1/2", "-3/6", "(1 .5)", "(- -1 -a)", "(... a)", "#{a b}#", "(#{x}# y)", "a b c", "1 2", "(a)(b)", "(a) b \"c\"", "'a 'b", "#:key", "(#:a :b)", "(quote a)", "(a.b)", "(a. b)", "\"a\\nb\\\\c\\\"d\\te\"", "\"(\" \")\"", "(\"a;b\")", "#\\( #\\)", "#\\; a", "#\\' a", "#\\\" a", "(#\\))", "#\\# #\\a", "#\\  a"]
WS = [" ", "\n", "\t", "\r", "\f", "  ", "\n\n", ";\n", "; c\n", " ;(\n ", ";;;\"\n", ";)\n", ";\\\n", ";#|\n", "\n;'\n;`\n"]


def pieces(t):
    """the lexical pieces of a text, to put white space between"""
    out, i = [], 0
    while i < len(t):
        c, j = t[i], i + 1
        if c == '"':
            while t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            j += 1
        elif t[i:i + 2] == "#\\":
            j = i + 3
            while j < len(t) and t[j] not in " ()\";'\n":
                j += 1
        elif t[i:i + 2] == "#{":
            j = t.index("}#", i) + 2
        elif t[i:i + 2] == "#(" or t[i:i + 2] == ",@":
            j = i + 2
        elif c not in "()'`, \n":
            while j < len(t) and t[j] not in " ()\";'\n":
                j += 1
        if c not in " \n":
            out.append(t[i:j])
        elif out and not out[-1].isspace():
            out.append(" ")
        i = j
    return out


def programs(quick):
    # every text over the significant characters
    for n in range(0, 4 if quick else 5):
        for t in itertools.product(CH_ALL, repeat=n):
            yield S + "".join(t)
    for t in itertools.product(CH_LONG, repeat=4 if quick else 6):
        yield S + "".join(t)
    # every sequence of tokens, run together and separated
    for n in range(1, 5 if quick else 6):
        for t in itertools.product(TOK, repeat=n):
            yield S + " ".join(t)
            if n < 4 or not quick:
                yield S + "".join(t)
    # every sequence inside of a list and a vector
    for n in range(1, 4 if quick else 5):
        for t in itertools.product(TOK, repeat=n):
            yield S + "(x " + " ".join(t) + ")"
            if n < 3 or not quick:
                yield S + "#(" + " ".join(t) + " y)"
                yield S + "((" + "".join(t) + "))"
                yield S + "'(a . " + "".join(t) + ")"
    # one datum given to the parse entry point, and texts in a file
    for n in range(0, 4):
        for t in itertools.product(TOK, repeat=n):
            yield P + " ".join(t)
            if n < 3 or not quick:
                yield F + " ".join(t) + "\n"
    # numbers
    for n in range(1, 5 if quick else 6):
        for t in itertools.product(NUM, repeat=n):
            yield S + "".join(t)
    for a in ["9223372036854775807", "-9223372036854775808", "123456789012345678", "1e10", "1e-5", "123.456", "0.000001", "1e22", "00012", "-0", "-0.0", "+7", "1e+3", "1E3", "1/3", "10/4", "-10/4", "+1/2", "0/5", "1.25e2", ".5e1", "-.5", "+.5"]:
        for pre in ["", "(", "'", "#(", "( ", "(a ", "(a . "]:
            for post in ["", ")", " )", "a)", "\"x\"", ";", "(", " 1)", "#", "{", "."]:
                yield S + pre + a + post
    # strings and characters
    for c in range(1, 256):
        if c in (0x1e, 0x1f):
            continue
        ch = chr(c)
        yield S + "\"" + ch + "\""
        yield S + "\"a" + ch + "b\" c"
        yield S + "\"\\" + ch + "\""
        yield S + "\"\\" + ch
        yield S + "#\\" + ch
        yield S + "#\\" + ch + " a"
        yield S + "(#\\" + ch + ")"
        yield S + "(#\\" + ch + " b)"
        yield S + "#\\" + ch + "a"
        yield S + "'#\\" + ch + " b"
        yield S + "a" + ch + "b"
        yield S + "#" + ch
        yield S + "#t" + ch
        yield S + "(" + ch + "a)"
        yield S + "a ;" + ch + "\n b"
        yield S + "a ; b" + ch + "(c\n d"
        yield S + "(a ;" + ch + "b)\n d)"
        yield F + "; b" + ch + "c\nd\n"
        yield S + "(a" + ch + ")"
        yield P + ch
        yield P + "a" + ch
    for c in range(0, 512):
        yield S + "\"\\%03o\"" % c
        yield S + "\"a\\%03o1\" b" % c
    for n in ["space", "newline", "tab", "ht", "nul", "spac", "spaces", "new", "ta", "nu", "nulx", "a", "ab", "linefee", "t", "n", "s"]:
        for v in (n, n.upper(), n.capitalize(), n[:-1] + n[-1:].upper()):
            for pre in ["", "(", "'", "(list "]:
                for post in ["", " ", ")", "(", "\"", ";c", "\n", " a)", "1", "\\"]:
                    yield S + pre + "#\\" + v + post
    # comments and white space never change what is read
    for t in TEXTS:
        yield S + t
        yield P + t
        yield F + t
        ps = pieces(t)
        for w in WS:
            for m in (S, P, F) if not quick else (S,):
                yield m + w + t
                yield m + t + w
                yield m + t + w[:-1]
                yield m + w + t + w
            yield S + w.join(p for p in ps)
            for i in range(1, len(ps)):
                if ps[i] == " " or ps[i - 1] == " ":
                    yield S + "".join(ps[:i]) + w + "".join(ps[i:])
                elif ps[i] in "()" or ps[i - 1] in ("(", ")", "'", "`", ",", ",@", "#("):
                    yield S + "".join(ps[:i]) + w + "".join(ps[i:])
        # every prefix and every text with one character removed, doubled or replaced
        for i in range(len(t)):
            yield S + t[:i]
            yield S + t[:i] + t[i + 1:]
            yield S + t[:i] + t[i] + t[i:]
            for c in "()'\".# ;":
                yield S + t[:i] + c + t[i + 1:]
                if not quick:
                    yield S + t[:i] + c + t[i:]
                    yield P + t[:i] + c + t[i + 1:]
    for a, b in itertools.product(TEXTS, repeat=2):
        yield S + a + " " + b
        yield S + "(" + a + " " + b + ")"
        if not quick:
            yield F + a + "\n" + b + "\n"
            yield S + "(" + a + ";" + b + "\n)"
            yield S + "#(" + a + "\n" + b + ")"
            yield P + a + " " + b
    # nesting and size
    NEST = [("(", ")"), ("#(", ")"), ("'", ""), ("`", ""), (",", ""), ("(a ", ")"), ("(a . (", "))"), ("((", "))"), ("(quote ", ")"), ("#(1 ", " 2)"), (",@", ""), ("'(", ")"), ("(a . #(", "))")]
    for o, c in NEST:
        for n in [*range(1, 60), 100, 300, 900]:
            yield S + o * n + "x" + c * n
            yield S + o * n + "x" + c * n + " y"
            if n < 60:
                yield S + o * n + c * n
                yield S + o * n + "x" + c * (n - 1)
                yield S + o * n + "x" + c * n + ")"
                yield S + o * n
                yield S + o * n + ") x"
    for n in [1, 2, 10, 30, 50, 60, 62, 63, 64, 70, 100, 126, 127, 128, 129, 200, 255, 256, 300, 1000, 4095, 4096, 4097, 5000]:
        for t in ["%s", "(%s)", "\"%s\"", "#{%s}#", ";%s\nb", "%s)", "(%s", "\"%s", "a\n%s )\nb", "a\n%s #]\nb", "#\\%s", ") %s", "%s ) %s", "#{%s", "(%s . )"]:
            for c in ("a", "-", "ab ", "\\\\", "a\n"):
                yield S + t.replace("%s", c * n)
        yield P + "a" * n
        yield P + "a " + "b" * n
        yield P + "(" + "a " * n
        yield F + "a " * n
        yield F + "(" + "a\n" * n + ")"
        yield F + "(" + "a\n" * n
    for o, c in NEST:  # so deep that the reader may give up, but not fall over
        for n in [9999, 10000, 10001, 20000, 200000]:
            for m in (S, P, F) if n == 200000 else (S,):
                yield m + o * n + "x" + c * n, "\x02"
                yield m + o * n, "!\n"


def check(run):
    driver.compare(run, programs(run.quick))
