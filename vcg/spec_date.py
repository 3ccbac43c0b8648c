"""Contracts of datemjd.c: the Gregorian calendar on 1901-2099."""
from tables import *

SPECS = {}
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
MJD1901 = 15385          # 1901-01-01


def leap(y):
    return y % 4 == 0     # exact on 1901-2099 (2000 is a leap year)


def jan1(y):
    """MJD of January 1st: days counted year by year from 1901"""
    return MJD1901 + 365 * (y - 1901) + (y - 1901) / 4


def days(y, m, d):
    cum = z3.IntVal(CUM[11])
    for k in range(10, -1, -1):
        cum = z3.If(m == k + 1, CUM[k], cum)
    return jan1(y) + cum + z3.If(z3.And(leap(y), m > 2), 1, 0) + d - 1


def dim(y, m):
    x = z3.IntVal(31)
    for k in range(11):
        x = z3.If(m == k + 1, z3.If(leap(y), 29, 28) if k == 1 else z3.IntVal(DIM[k]), x)
    return x


SPECS["date2mjd"] = Contract(
    "date2mjd", ["year", "month", "day"],
    lambda c: [("year", z3.And(1901 <= c.year, c.year <= 2099)), ("month", z3.And(1 <= c.month, c.month <= 12)),
               ("day", z3.And(1 <= c.day, c.day <= dim(c.year, c.month)))],
    lambda c: [("month%02d" % k, IMP(c.month == k, c.ret == days(c.year, z3.IntVal(k), c.day))) for k in range(1, 13)],
    config=dict(arith=True))


def mpost(c):
    out = []
    y, m, d = c.new.deref(c.year, "long"), c.new.deref(c.month, "long"), c.new.deref(c.day, "long")
    for Y in range(1901, 2100):
        a = int(str(z3.simplify(jan1(z3.IntVal(Y)))))
        lp = Y % 4 == 0
        cs = []
        for k in range(12):
            lo = a + CUM[k] + (1 if lp and k > 1 else 0)
            hi = lo + DIM[k] + (1 if lp and k == 1 else 0)
            cs.append(IMP(z3.And(lo <= c.mjd, c.mjd < hi), z3.And(y == Y, m == k + 1, d == c.mjd - lo + 1)))
        out.append(("year%d" % Y, z3.And(*cs)))
    return out


SPECS["mjd2date"] = Contract(
    "mjd2date", ["mjd", "year", "month", "day"],
    lambda c: [("range", z3.And(MJD1901 <= c.mjd, c.mjd < MJD1901 + 365 * 199 + 49))],
    mpost, argkinds=dict(year="out", month="out", day="out"), config=dict(arith=True))
