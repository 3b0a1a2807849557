"""Shared value generators."""


def big_int(ch, maxbits=700):
    """integers with mass on small values, word boundaries and digit patterns"""
    k = ch.wpick([(4, "small"), (3, "pow"), (3, "words"), (3, "rand"), (1, "dec")])
    if k == "small":
        v = ch.below(20)
    elif k == "pow":
        e = ch.pick([7, 8, 15, 16, 17, 30, 31, 32, 33, 47, 48, 62, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 192, 255, 256, 320, 512])
        v = (1 << e) + ch.rng_int(-2, 2)
    elif k == "words":
        n = ch.rng_int(1, max(1, maxbits // 32))
        v = 0
        half = ch.bool()
        for _ in range(n):
            w = ch.pick([0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 0x8000ffff, 0xffff0000, 0x0000ffff, 0xfffffffe, None])
            if w is None:
                w = ch.below(1 << 32)
            v = (v << 32) | w
        if half:
            v >>= 16
    elif k == "rand":
        b = ch.rng_int(1, maxbits)
        v = 0
        for _ in range((b + 29) // 30):
            v = (v << 30) | ch.below(1 << 30)
        v >>= max(0, v.bit_length() - b)
    else:
        v = 10 ** ch.rng_int(1, maxbits // 4) + ch.rng_int(-1, 1)
    return -v if ch.bool(2, 5) else v


def lit(v):
    return "(%d)" % v if v < 0 else "%d" % v
