import itertools
import driver
import gen

ERR = "(catch #t (lambda () %%) (lambda r 'err))"
INT = ["0", "1", "-1", "2", "-2", "3", "-3", "7", "-7", "10", "12", "-12", "100", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "3037000499", "9007199254740993", "4611686018427387904", "-4611686018427387904", "9223372036854775807", "-9223372036854775807"]
RAT = ["(/ 1 2)", "(/ -1 2)", "(/ 7 3)", "(/ -7 3)", "(/ 1 3)", "(/ 2 3)", "(/ 10 4)", "(/ 3 -6)", "(/ 1 1000000)", "(/ 123456789 1000)", "(/ 4611686018427387904 3)", "(/ 1 9223372036854775807)"]
FLO = ["0.0", "1.0", "-1.0", "0.5", "-0.5", "1.5", "-2.5", "2.0", "3.0", "100.25", "0.1"]
NON = ["'a", "\"1\"", "#t", "'()", "#\\1", "(list 1)", "(vector 1)", "car"]
BIN = ["+", "-", "*", "/", "=", "<", ">", "<=", ">=", "max", "min"]
IBIN = ["quotient", "remainder", "modulo", "gcd", "lcm"]
UN = ["abs", "zero?", "positive?", "negative?", "odd?", "even?", "number?", "integer?", "rational?", "real?", "complex?", "exact?", "inexact?", "sqrt", "-", "/", "+", "*", "number->string", "max", "min", "gcd", "lcm"]


def programs(quick):
    num = INT + RAT + FLO
    for x in num + NON:
        for u in UN:
            yield "(define x %s)" % x + ERR.replace(gen.H, "(%s x)" % u) + "x"
    for x in num + NON[:3]:
        for y in num + NON[:3]:
            p = "(define x %s)(define y %s)" % (x, y)
            if len(x + y) > 16: # one result may not be representable: a program for each
                for b in BIN:
                    yield p + ERR.replace(gen.H, "(%s x y)" % b) + ERR.replace(gen.H, "(%s x y 1)" % b) + "(list x y)"
            else:
                yield p + "".join(ERR.replace(gen.H, "(%s x y)" % b) for b in BIN) + "(list x y)"
            if "." not in x + y:
                ps = [ERR.replace(gen.H, "(%s x y)" % b) for b in IBIN] + [ERR.replace(gen.H, "(= x (+ (* y (quotient x y)) (remainder x y)))"), ERR.replace(gen.H, "(= 0 (remainder (- (modulo x y) x) y))"), ERR.replace(gen.H, "(list (remainder x (gcd x y)) (remainder y (gcd x y)))")]
                if len(x + y) > 16:
                    for q in ps:
                        yield p + q
                else:
                    yield p + "".join(ps)
            yield p + "(list (catch #t (lambda () (exact? (+ x y))) (lambda r 'err)) (catch #t (lambda () (inexact? (* x y))) (lambda r 'err)) (catch #t (lambda () (exact? (max x y))) (lambda r 'err)))" + ERR.replace(gen.H, "(= (+ x y) (+ y x))") + ERR.replace(gen.H, "(if (and (exact? x) (exact? y)) (= (- (+ x y) y) x))") + ERR.replace(gen.H, "(eqv? (< x y) (> y x))")
    # quotient family: every pair of small integers of every sign
    R = range(-13, 14) if quick else range(-40, 41)
    for x in R:
        for y in R:
            yield "".join(ERR.replace(gen.H, "(%s %d %d)" % (b, x, y)) for b in IBIN + ["/"]) + ERR.replace(gen.H, "(expt %d %d)" % (x, y)) if abs(y) < 14 else "(quotient %d %d)" % (x, y)
    # fractions: all sums, products, comparisons of small numerators and denominators
    F = ["(/ %d %d)" % (n, d) for n in range(-5, 6) for d in (1, 2, 3, 4, 6)]
    for a in F:
        for b in F if not quick else F[::2]:
            yield "(define x %s)(define y %s)(list (+ x y) (- x y) (* x y) (= x y) (< x y) (<= x y) (>= y x) (max x y) (min x y) (+ x y 1) (- x y 2) (* x y 6) (+ x 0.5))" % (a, b) + ERR.replace(gen.H, "(/ x y)") + ERR.replace(gen.H, "(/ 1 x y)") + ERR.replace(gen.H, "(list (number->string (+ x y)) (integer? (* x y)) (rational? (+ x y)) (exact? (* x y)) (zero? (- x y)) (positive? (- x y)) (negative? (* x y)))")
    # n-ary operations
    S = ["0", "1", "-2", "3", "(/ 1 2)", "1.5", "4"] if quick else ["0", "1", "-2", "3", "(/ 1 2)", "(/ -2 3)", "1.5", "-0.5", "4", "1000000007"]
    for n in (0, 3, 4) if quick else (0, 3, 4, 5):
        for xs in itertools.product(S if n < 5 else S[:6], repeat=n):
            a = " ".join(xs)
            if n == 4 and quick and hash(xs[0]) and (S.index(xs[0]) + S.index(xs[3])) % 3:
                continue
            yield "".join(ERR.replace(gen.H, "(%s %s)" % (b, a)) for b in BIN) + ("" if "." in a or "/" in a else ERR.replace(gen.H, "(gcd %s)" % a) + ERR.replace(gen.H, "(lcm %s)" % a))
    for b in BIN + IBIN + ["abs", "expt", "sqrt", "zero?", "odd?", "even?", "positive?", "negative?", "exact?", "integer?"]:
        for i in range(3):
            for bad in NON:
                xs = ["1", "2", "3"][:3]
                xs[i] = bad
                for n in (1, 2, 3):
                    if i < n:
                        yield ERR.replace(gen.H, "(%s %s)" % (b, " ".join(xs[:n])))
        for n in range(0, 4):
            yield ERR.replace(gen.H, "(%s %s)" % (b, " ".join(["6", "4", "2"][:n])))
    # division by zero, in every position and operation
    for z in ("0", "(- 1 1)", "(* 0 5)", "(/ 0 3)"):
        for op in ("/", "quotient", "remainder", "modulo"):
            for x in ["0", "1", "-5", "(/ 1 2)"]:
                if op == "/" or "(" not in x:
                    yield ERR.replace(gen.H, "(%s %s %s)" % (op, x, z)) + ERR.replace(gen.H, "(/ %s)" % z) + ERR.replace(gen.H, "(/ 1 2 %s 3)" % z) + "(+ 1 1)"
    # expt and sqrt
    for b in INT[:12] + RAT[:6] + FLO[:8]:
        for e in range(-6, 14):
            yield ERR.replace(gen.H, "(expt %s %d)" % (b, e))
    for i in list(range(0, 150 if quick else 2000)) + [10 ** k for k in range(2, 19)] + [(10 ** k - 1) ** 2 for k in range(2, 9)] + [3037000499 ** 2, 3037000499 ** 2 - 1]:
        yield "(sqrt %d)" % i
        yield "(define r (sqrt %d))(list (= (* r r) %d) (exact? r))" % (i * i % 10 ** 12, i * i % 10 ** 12)
    # expression trees
    leaves = ["2", "-3", "(/ 1 2)"] if quick else ["2", "-3", "(/ 1 2)", "1.5", "7"]
    t2 = ["(%s %s %s)" % (o, a, b) for o in ("+", "-", "*", "/", "max") for a in leaves for b in leaves]
    for o in ("+", "-", "*", "/", "=", "<", "min"):
        for a in t2:
            for b in t2 if not quick else t2[::3]:
                yield ERR.replace(gen.H, "(%s %s %s)" % (o, a, b))
    # algorithms on whole ranges
    yield "(define (gcd2 a b) (if (= b 0) a (gcd2 b (remainder a b))))(define (tst a b) (if (= (gcd2 a b) (gcd a b)) #t (list a b)))" + "".join("(tst %d %d)" % (a, b) for a in range(1, 40) for b in range(1, 20))
    yield "(define (fib n) (if (< n 2) n (+ (fib (- n 1)) (fib (- n 2)))))(map fib '(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15))(define (fact n) (if (= n 0) 1 (* n (fact (- n 1)))))(map fact '(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20))"
    yield "(define (h n) (if (= n 0) 0 (+ (/ 1 n) (h (- n 1)))))(map h '(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 25 30))"


def check(run):
    driver.compare(run, programs(run.quick))
