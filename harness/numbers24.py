"""Numbers in units of 10**-24 as a sign and little-endian base-1000 digits (spec/Big.tla)."""
import decimal


def big(v):
    with decimal.localcontext() as c:
        c.prec = 100
        i = int(decimal.Decimal(v).scaleb(24).to_integral_value(rounding=decimal.ROUND_HALF_EVEN))
    m, n = [], abs(i)
    while n:
        n, r = divmod(n, 1000)
        m.append(r)
    return (0 if i == 0 else 1 if i > 0 else -1), m
