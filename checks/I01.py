import math
from vlib.engine import Case, Group, ERR
from vlib.vals import big_int, lit

ID = "I01"
RULE = ("Each case asks fl for the value of a dozen generated integer operations (or one nested expression, or one "
        "random-number request) and compares with Python's unbounded integers.  Non-trivial: some operand or result "
        "needs more than 31 bits, or the operation is a division/modulus with operands of different sign.")


def B(b):
    return "T" if b else "F"


OPS2 = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
    "/": lambda a, b: a // b, "%": lambda a, b: a % b,
    "intAND": lambda a, b: a & b, "intOR": lambda a, b: a | b, "intXOR": lambda a, b: a ^ b,
}
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "=": lambda a, b: a == b, "!=": lambda a, b: a != b, "==": lambda a, b: a == b, "!==": lambda a, b: a != b}


def near(ch, a):
    """a value related to a"""
    k = ch.below(6)
    if k == 0:
        return a
    if k == 1:
        return -a
    if k == 2:
        return a + ch.rng_int(-2, 2)
    if k == 3:
        return a >> ch.rng_int(1, 70)
    return big_int(ch)


def g_arith(ch):
    c = Case()
    nt = False
    for _ in range(12):
        a = big_int(ch)
        b = near(ch, a)
        k = ch.below(20)
        if k < 11:
            op = ch.pick(list(OPS2))
            if op in ("/", "%") and ch.bool(1, 2) and b:
                # a dividend that is almost a multiple of the divisor, or with a high quotient digit
                a = b * big_int(ch) + ch.rng_int(-1, 1)
            e = "%s %s %s" % (lit(a), op, lit(b))
            if op in ("/", "%"):
                if b == 0:
                    c.ask("int2str (%s)" % e, ERR)
                    continue
                nt |= (a < 0) != (b < 0)
            r = OPS2[op](a, b)
            nt |= r.bit_length() > 31
            c.label("op" + op)
            c.ask("int2str (%s)" % e, str(r))
        elif k < 14:
            op = ch.pick(list(CMP))
            nt |= a.bit_length() > 31
            c.ask("bool2str 5 (%s %s %s)" % (lit(a), op, lit(b)), B(CMP[op](a, b)))
        elif k == 14:
            a, b = near(ch, a), b
            if ch.bool():
                g = abs(big_int(ch, 90))
                a, b = a * g, b * g
            c.ask("int2str (gcd %s %s)" % (lit(a), lit(b)), str(math.gcd(a, b)))
            nt |= min(abs(a), abs(b)).bit_length() > 31
        elif k == 15:
            c.ask("int2str (intNOT %s)" % lit(a), str(~a))
            nt |= a.bit_length() > 31
        elif k == 16:
            op = ch.pick(["min", "max"])
            c.ask("int2str (%s %s %s)" % (op, lit(a), lit(b)), str(min(a, b) if op == "min" else max(a, b)))
        elif k == 17:
            base = ch.pick([big_int(ch, 70), ch.rng_int(-12, 12)])
            n = ch.rng_int(0, 40)
            c.ask("int2str (%s ** %d)" % (lit(base), n), str(base ** n))
            nt |= n > 10
        elif k == 18:
            if a <= 0:
                c.ask("int2str (log2 %s)" % lit(a), ERR)
            else:
                c.ask("int2str (log2 %s)" % lit(a), str(a.bit_length() - 1))
        else:
            if ch.bool():
                c.ask("int2str (-%s)" % lit(a), str(-a))
            elif a and b:
                c.ask("int2str (lcm %s %s)" % (lit(a), lit(b)), str((a * b) // math.gcd(a, b)))
    c.nontrivial = nt
    return c


def g_expr(ch):
    """nested expressions over shared lets; intermediate results are never printed"""
    c = Case()
    vals = []
    n = ch.rng_int(1, 4)
    for i in range(n):
        v = big_int(ch, 250)
        c.st("let iv%d = %s;" % (i, lit(v)))
        vals.append(("iv%d" % i, v))
    mx = [0]

    def ex(d):
        if d == 0 or ch.bool(1, 6):
            if ch.bool(1, 3):
                v = ch.rng_int(-9, 9)
                return lit(v), v
            return ch.pick(vals)
        k = ch.below(13)
        a, va = ex(d - 1)
        if k == 0:
            return "(-%s)" % a, -va
        if k == 1:
            return "(intNOT %s)" % a, ~va
        b, vb = ex(d - 1)
        if k == 2:
            op = ch.pick(list(CMP))
            x, vx = ex(d - 1)
            y, vy = ex(d - 1)
            return "((%s %s %s) => %s | %s)" % (a, op, b, x, y), (vx if CMP[op](va, vb) else vy)
        if k == 3:
            return "(gcd %s %s)" % (a, b), math.gcd(va, vb)
        op = ch.pick(list(OPS2))
        if op in ("/", "%"):
            if vb == 0:
                return a, va
        r = OPS2[op](va, vb)
        if r.bit_length() > 6000:
            return a, va
        mx[0] = max(mx[0], r.bit_length())
        return "(%s %s %s)" % (a, op, b), r
    for _ in range(2):
        e, v = ex(ch.rng_int(1, 5))
        c.ask("int2str (%s)" % e, str(v))
    # the division identity, decided by fl itself
    a, va = ex(2)
    b, vb = ex(2)
    if vb != 0:
        c.ask("let a = %s in let b = %s in let q = a / b in let r = a %% b in "
              "bool2str 9 ((a = q*b+r) AND (b > 0 => (0 <= r AND r < b) | (b < r AND r <= 0)))" % (a, b), "T")
    c.nontrivial = mx[0] > 31
    if mx[0] > 64:
        c.label("over64")
    return c


def g_rand(ch):
    c = Case()
    s = ch.below(1 << 31)
    bits = ch.pick([0, 1, 5, 16, 30, 31, 32, 33, 61, 62, 63, 64, 93, 94, 124, 125, 200, ch.rng_int(0, 300)])
    c.st("srandom %d;" % s)
    def inrange(lo, hi):
        def f(v):
            return None if lo <= int(v) <= hi else "outside [%d,%d]" % (lo, hi)
        return f
    for i in range(4):
        c.out("a%d" % i, "int2str (random2 %d)" % bits)
    c.st("srandom %d;" % s)
    for i in range(4):
        c.out("b%d" % i, "int2str (random2 %d)" % bits)

    def j(vals, raw):
        for i in range(4):
            v = int(vals["a%d" % i])
            if not 0 <= v < (1 << bits):
                return "random2 %d gave %d, outside [0,2^%d)" % (bits, v, bits)
            if vals["a%d" % i] != vals["b%d" % i]:
                return "the same seed gave different numbers"
        return None
    c.judge(j)
    lo = big_int(ch, 200)
    hi = lo + abs(ch.pick([0, 1, 2, 5, big_int(ch, 150)]))
    for _ in range(3):
        c.ask("int2str (random %s %s)" % (lit(lo), lit(hi)), inrange(lo, hi))
    c.ask("int2str (random %s %s)" % (lit(hi + 1), lit(hi)), ERR)
    c.nontrivial = bits > 31
    return c


def tc(bits):
    return (-(1 << (len(bits) - 1)) if bits[0] == "T" else 0) + sum((1 << (len(bits) - 2 - i)) for i, b in enumerate(bits[1:]) if b == "T")


def g_bits(ch):
    """integers <-> lists of bits"""
    c = Case()
    for _ in range(4):
        n = ch.rng_int(1, 100)
        bl = [ch.pick("FT") for _ in range(n)]
        t = "[" + ",".join(bl) + "]"
        u = int("".join("1" if b == "T" else "0" for b in bl), 2)
        c.ask("int2str (bv2num %s)" % t, str(u))
        c.ask("int2str (bl2int %s)" % t, str(tc(bl)))
        v = tc(bl)
        c.ask("bool2str 5 ((int2bl %d %s) = %s)" % (n, lit(v), t), "T")
        w = v.bit_length() + 1 if v >= 0 else (-v - 1).bit_length() + 1
        c.ask("int2str (bl2int (int2bl %d %s))" % (w + ch.below(5), lit(v)), str(v))
        c.ask("int2str (bv2int (int2bv %s))" % lit(v), str(v))
        c.ask("int2str (bev2int (int2bev %s))" % lit(v), str(v))
        c.ask("int2str (bv2int (list2bv %s))" % t, str(v))
    return c


GROUPS = [
    Group("arith", g_arith, 3200, 60000, batch=100),
    Group("expr", g_expr, 2400, 40000, batch=100),
    Group("rand", g_rand, 400, 4000, batch=50),
    Group("bits", g_bits, 400, 4000, batch=50),
]
