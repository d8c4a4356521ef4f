"""C28: time functions against an independent calendar (days-from-civil arithmetic and explicit daylight-saving rules)."""
from fractions import Fraction

from pbt import Violation
from runner import Sub
from engines import Err, build, check_call, outcome
from libfn import V, fnsub

RULE = ("one generated call per case, or one program that takes a timestamp apart and puts it together again; timestamps over years 1 to 9999 in zones of "
        "fixed offset and over the years in which the zone's daylight-saving rule is known, with emphasis on the hours around transitions, ends of "
        "months, leap days and the ends of the calendar; distinct = distinct (function, arguments)")
ASSUMPTIONS = ["day 0 of the week is Monday, as in the PFA specification",
               "local times that a transition skips or repeats may be read with either offset",
               "fractions of a second finer than a microsecond are rounded to the microsecond"]

DAY = 86400
LO, HI = -62135596800, 253402300799


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(y, m):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def days(y, m, d):
    """days since 1970-01-01"""
    n = 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400
    for k in range(1, m):
        n += mdays(y, k)
    return n + d - 1 - 719162


def civil(n):
    y = 1970 + n // 366
    while days(y + 1, 1, 1) <= n:
        y += 1
    while days(y, 1, 1) > n:
        y -= 1
    m = 1
    while m < 12 and days(y, m + 1, 1) <= n:
        m += 1
    return y, m, n - days(y, m, 1) + 1


def weekday(n):
    return (n + 3) % 7          # 1970-01-01 was a Thursday


def nth(y, m, wd, k):
    """days of the k-th (from 1; -1 = last) weekday wd of a month"""
    if k > 0:
        a = days(y, m, 1)
        return a + (wd - weekday(a)) % 7 + 7 * (k - 1)
    a = days(y, m, mdays(y, m))
    return a - (weekday(a) - wd) % 7


def us(std):
    def off(ts):
        y = civil((ts + std) // DAY)[0]
        if y >= 2007:
            a, b = nth(y, 3, 6, 2), nth(y, 11, 6, 1)
        else:
            a, b = nth(y, 4, 6, 1), nth(y, 10, 6, -1)
        start, end = a * DAY + 7200 - std, b * DAY + 3600 - std
        return std + (3600 if start <= ts < end else 0)
    return off


def eu(std):
    def off(ts):
        y = civil(ts // DAY)[0]
        start, end = nth(y, 3, 6, -1) * DAY + 3600, nth(y, 10, 6, -1) * DAY + 3600
        return std + (3600 if start <= ts < end else 0)
    return off


def sydney(ts):
    y = civil((ts + 36000) // DAY)[0]
    end, start = nth(y, 4, 6, 1) * DAY + 7200 - 36000, nth(y, 10, 6, 1) * DAY + 7200 - 36000
    return 36000 + (0 if end <= ts < start else 3600)


def fixed(o):
    return lambda ts: o


def ystart(y):
    return days(y, 1, 1) * DAY


ALL = (LO, HI)
ZONES = {
    "": (fixed(0), ALL), "UTC": (fixed(0), ALL), "Etc/UTC": (fixed(0), ALL), "Etc/GMT+5": (fixed(-5 * 3600), ALL), "Etc/GMT+12": (fixed(-12 * 3600), ALL),
    "Etc/GMT-14": (fixed(14 * 3600), ALL),
    "Asia/Tokyo": (fixed(9 * 3600), (ystart(1953), ystart(2037))), "Asia/Kolkata": (fixed(19800), (ystart(1946), ystart(2037))),
    "Asia/Kathmandu": (fixed(20700), (ystart(1987), ystart(2037))), "America/Phoenix": (fixed(-7 * 3600), (ystart(1969), ystart(2037))),
    "America/New_York": (us(-5 * 3600), (ystart(1988), ystart(2037))), "America/Los_Angeles": (us(-8 * 3600), (ystart(1988), ystart(2037))),
    "America/St_Johns": (us(-12600), (ystart(2012), ystart(2037))),
    "Europe/London": (eu(0), (ystart(1997), ystart(2037))), "Europe/Paris": (eu(3600), (ystart(1997), ystart(2037))),
    "Europe/Helsinki": (eu(7200), (ystart(1997), ystart(2037))), "Australia/Sydney": (sydney, (ystart(2009), ystart(2037))),
}
NAMES = sorted(ZONES)
BADZONES = ["Bogus", "America/Nowhere", "../etc/passwd", u"Zürich", " ", "GMT+25", "est5"]


def whole(ts):
    """second that a timestamp falls in, after rounding to the microsecond"""
    x = Fraction(ts) * 1000000
    f = x.numerator // x.denominator
    r = x - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f % 2):
        f += 1
    return f // 1000000


def fields(ts, zone, code):
    """(year, month, day, hour, minute, second, day of year, day of week)"""
    if ts != ts or ts < LO or ts > HI:
        raise Err(code + 1)
    if zone not in ZONES:
        raise Err(code)
    s = whole(ts)
    s += ZONES[zone][0](s)
    if s < LO or s > HI:
        raise Err(code + 1)
    n, r = s // DAY, s % DAY
    y, m, d = civil(n)
    return y, m, d, r // 3600, r // 60 % 60, r % 60, n - days(y, 1, 1) + 1, weekday(n)


def stamp(d, zone=None):
    lo, hi = ZONES[zone][1] if zone in ZONES else ALL
    k = d.below(10)
    if k == 0:
        s = d.choice([lo, hi, lo + d.below(2 * DAY), hi - d.below(2 * DAY)])
    elif k <= 2:            # ends of days, months and years
        y = d.int(civil(lo // DAY)[0] + 1, civil(hi // DAY)[0] - 1)
        m = d.int(1, 12)
        s = d.choice([days(y, 3, 1), days(y, 1, 1), days(y, m, 1), days(y, m, d.int(1, mdays(y, m)))]) * DAY + d.int(-3600, 3600) * d.choice([0, 1, 1, 4])
        off = ZONES[zone][0](s) if zone in ZONES else 0
        s -= d.choice([0, off])
    elif k <= 4:            # near transitions
        y = d.int(max(1988, civil(lo // DAY)[0] + 1), min(2036, civil(hi // DAY)[0] - 1))
        m = d.choice([3, 4, 10, 11])
        s = nth(y, m, 6, d.choice([1, 2, -1])) * DAY + d.int(-14 * 3600, 12 * 3600)
        if d.bool():
            s -= s % 3600 - d.choice([0, -1])
    elif k <= 6:
        s = d.int(lo, hi)
    elif k == 7:
        s = max(lo, min(hi, d.choice([0, -1, 1, 59, 60, -DAY, DAY])))
    else:
        s = max(lo, min(hi, d.int(-3 * 10 ** 9, 4 * 10 ** 9)))
    s = max(lo, min(hi, s))
    if d.chance(1, 3) and s < hi:
        f = s + d.choice([d.below(1000) / 1000.0, d.unit(), 0.5, 0.999])
        # a fraction that rounds into the next whole second only in the coarse range is left alone
        return f if f <= HI else float(s)
    return float(s)


def zoned(d):
    z = d.choice(NAMES) if not d.chance(1, 14) else d.choice(BADZONES)
    if d.chance(1, 30):
        return [d.choice([float("nan"), float("inf"), float("-inf"), LO - 1.0, HI + 1.0, 1e300]), z if z in ("", "UTC") else ""]
    return [stamp(d, z), z]


FIELDS = [("year", 40000, 0, None), ("monthOfYear", 40010, 1, 40140), ("dayOfYear", 40020, 6, 40150), ("dayOfMonth", 40030, 2, 40130),
          ("dayOfWeek", 40040, 7, 40120), ("hourOfDay", 40050, 3, 40110), ("minuteOfHour", 40060, 4, 40100), ("secondOfMinute", 40070, 5, 40090)]


def mkfield(code, i):
    return lambda ts, z: fields(ts, z, code)[i]


def mkrange(code, i):
    def ref(ts, z, lo, hi):
        if lo >= hi:
            raise Err(code)
        v = fields(ts, z, code + 1)[i]
        return lo <= v < hi

    def gen(d):
        ts, z = zoned(d)
        try:
            v = fields(ts, z, 0)[i]
        except Err:
            v = 5
        lo = v + d.choice([0, 0, -1, 1, -0.5, 0.5, d.int(-20, 20)])
        hi = v + d.choice([0, 0, 1, 1, 0.5, -0.5, d.int(-20, 20)])
        return [ts, z, float(lo), float(hi)]
    return gen, ref


def weekend(ts, z):
    return fields(ts, z, 40160)[7] >= 5


def work(ts, z):
    f = fields(ts, z, 40170)
    return f[7] < 5 and 9 <= f[3] < 17


# ---- construction

def make(y, m, d, h, mi, s, ms, z):
    """-> set of acceptable timestamps"""
    if z not in ZONES:
        if not (1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= mdays(y, m) and 0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60 and 0 <= ms < 1000):
            return "bad"
        raise Err(40080)
    if not (1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= mdays(y, m) and 0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60 and 0 <= ms < 1000):
        raise Err(40081)
    local = days(y, m, d) * DAY + h * 3600 + mi * 60 + s
    off = ZONES[z][0]
    offs = {off(local - off(local) + k * 3600 * 12) for k in (-4, -2, -1, 0, 1, 2, 4)}
    good = {local - o for o in offs if off(local - o) == o} or {local - o for o in offs}
    if any(g < LO or g > HI for g in good):
        raise Err(40081)
    return {float(Fraction(g * 1000 + ms, 1000)) for g in good}


def makecase(d):
    z = d.choice(NAMES) if not d.chance(1, 14) else d.choice(BADZONES)
    y, m, dd, h, mi, s = fields(stamp(d, "" if z not in ZONES else z), "", 0)[:6]
    ms = d.choice([0, 0, d.below(1000), 999])
    a = [y, m, dd, h, mi, s, ms]
    if d.chance(1, 4):
        i = d.below(7)
        a[i] = d.choice([a[i] + d.choice([-1, 1]), 0, -1, [10000, 13, mdays(y, m) + 1, 24, 60, 60, 1000][i], d.pfaint()])
    if z in ZONES:
        lo, hi = ZONES[z][1]
        if not (lo == LO):
            if 1 <= a[1] <= 12 and 1 <= a[0] <= 9999:
                if not (civil(lo // DAY)[0] < a[0] < civil(hi // DAY)[0]):
                    a[0] = d.int(civil(lo // DAY)[0] + 1, civil(hi // DAY)[0] - 1)
    return a + [z]


def makeeq(got, want):
    return any(abs(got - w) <= 1e-9 + 4e-16 * abs(w) for w in want)


def maketimestamp(d):
    args = makecase(d)

    def ref(*a):
        w = make(*a)
        if w == "bad":          # both the zone and the fields are wrong: either error
            raise Err(BOTH)
        return w
    # with a bad zone and bad fields the order of the checks is not specified
    try:
        if make(*args) == "bad":
            args[:7] = [2000, 2, 29, 12, 0, 0, 0]
    except Err:
        pass
    check_call(d, "time.makeTimestamp", ["int"] * 7 + ["string"], "double", args, ref, eq=makeeq)


BOTH = -1

# ---- apart and together again, over arbitrary zones

ANYZONES = ["America/Sao_Paulo", "Asia/Tehran", "Africa/Cairo", "Pacific/Apia", "Atlantic/Azores", "Asia/Kolkata", "America/Havana", "Europe/Moscow",
            "Australia/Lord_Howe", "Pacific/Chatham", "America/Caracas", "Asia/Pyongyang", "America/New_York", "Europe/Paris", "UTC", ""]
NM = ["year", "monthOfYear", "dayOfMonth", "hourOfDay", "minuteOfHour", "secondOfMinute"]
_rt = []


def rtengine():
    if not _rt:
        f = [{"name": n, "type": "int"} for n in NM + ["dayOfYear", "dayOfWeek"]] + [{"name": "back", "type": "double"}, {"name": "flat", "type": "double"},
                                                                                     {"name": "weekend", "type": "boolean"}, {"name": "work", "type": "boolean"}]
        c = [{"time." + n: ["input.ts", "input.zone"]} for n in NM]
        new = {n: {"time." + n: ["input.ts", "input.zone"]} for n in NM + ["dayOfYear", "dayOfWeek"]}
        new["back"] = {"time.makeTimestamp": c + [0, "input.zone"]}
        new["flat"] = {"time.makeTimestamp": c + [0, {"string": ""}]}
        new["weekend"] = {"time.isWeekend": ["input.ts", "input.zone"]}
        new["work"] = {"time.isWorkHours": ["input.ts", "input.zone"]}
        _rt.append(build({"input": {"type": "record", "name": "In", "fields": [{"name": "ts", "type": "double"}, {"name": "zone", "type": "string"}]},
                          "output": {"type": "record", "name": "Out", "fields": f},
                          "action": {"type": "Out", "new": new}}))
    return _rt[0]


def roundtrip(d):
    if d.bool():
        z = d.choice(NAMES)
        s = int(stamp(d, z))
        known = True
    else:
        z = d.choice(ANYZONES)
        s = d.int(ystart(1971), ystart(2037))
        known = False
    d.note({"ts": s, "zone": z})
    d.sut()
    got = outcome(rtengine().action, {"ts": float(s), "zone": z})
    if known and (s + ZONES[z][0](s) < LO or s + ZONES[z][0](s) > HI):
        if got[0] != "err":
            raise Violation("ts %s zone %r is outside of the calendar but gives %s" % (s, z, got))
        return
    if got[0] != "ok":
        raise Violation("ts %s zone %r: %s" % (s, z, got))
    r = got[1]
    n = r["flat"]
    off = n - s
    if known and off != ZONES[z][0](s):
        raise Violation("ts %s zone %r: the fields %s are %s seconds ahead of UTC, expected %s" % (s, z, r, off, ZONES[z][0](s)))
    if abs(off) > 15 * 3600:
        raise Violation("ts %s zone %r: the fields %s are %s seconds ahead of UTC" % (s, z, r, off))
    y, m, dd = r["year"], r["monthOfYear"], r["dayOfMonth"]
    k = days(y, m, dd)
    if r["dayOfYear"] != k - days(y, 1, 1) + 1 or r["dayOfWeek"] != weekday(k) or r["weekend"] != (weekday(k) >= 5) or \
            r["work"] != (weekday(k) < 5 and 9 <= r["hourOfDay"] < 17):
        raise Violation("ts %s zone %r: inconsistent fields %s" % (s, z, r))
    if known:
        ok = float(s) in make(y, m, dd, r["hourOfDay"], r["minuteOfHour"], r["secondOfMinute"], 0, z) and \
            r["back"] in make(y, m, dd, r["hourOfDay"], r["minuteOfHour"], r["secondOfMinute"], 0, z)
    else:
        ok = abs(r["back"] - s) in (0, 1800, 3600, 7200)
    if not ok:
        raise Violation("ts %s zone %r: taken apart and together again gives %r (fields %s)" % (s, z, r["back"], r))
    d.nontrivial(repr((s, z)))
    d.label("known zone" if known else "any zone")


SUBS = []
for _n, _c, _i, _rc in FIELDS:
    SUBS.append(fnsub("time." + _n, V(["double", "string"], "int", zoned, mkfield(_c, _i))))
for _n, _c, _i, _rc in FIELDS[1:]:
    _g, _r = mkrange(_rc, _i)
    SUBS.append(fnsub("time.is" + _n[0].upper() + _n[1:], V(["double", "string", "double", "double"], "boolean", _g, _r)))
SUBS.append(fnsub("time.isWeekend", V(["double", "string"], "boolean", zoned, weekend)))
SUBS.append(fnsub("time.isWorkHours", V(["double", "string"], "boolean", zoned, work)))
SUBS.append(Sub("time.makeTimestamp", maketimestamp, 800, 40000))
SUBS.append(Sub("roundtrip", roundtrip, 800, 40000))
