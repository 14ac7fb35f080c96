"""Texts of dates and durations (C25)."""
import common
from datetime import date, datetime, timedelta
if common.ezodf:
    from ezodf.timeparser import TimeParser
ALWAYS_FRESH = False


def build(k, v):
    if k == "date":
        return date(*v)
    if k == "datetime":
        return datetime(*v)
    return timedelta(days=v[0], seconds=v[1], microseconds=v[2])


def seen(p):
    v = p.value
    if type(v) is datetime:
        k, x = "datetime", [v.year, v.month, v.day, v.hour, v.minute, v.second] + ([v.microsecond] if v.microsecond or v.tzinfo else [])
    elif type(v) is date:
        k, x = "date", [v.year, v.month, v.day]
    elif type(v) is timedelta:
        k, x = "duration", [v.days, v.seconds, v.microseconds]
    else:
        k, x = "?" + type(v).__name__, []
    return {"k": k, "v": x, "w": list(str(p)), "date": bool(p.is_date), "time": bool(p.has_time), "dur": bool(p.is_duration)}


class Adapter(common.Adapter):
    def classify(self, op, e):
        return "rej" if isinstance(e, ValueError) else "crash:" + type(e).__name__

    def project(self):
        return {"n": 0}

    def op_parse(self, op):
        text = "".join(op["w"])
        p = TimeParser(text)
        x = seen(p)
        y = seen(TimeParser(TimeParser.parse(text)))
        return "ok", [x] if x == y and p.timestr == text else [x, y, list(p.timestr)]

    def op_format(self, op):
        p = TimeParser(build(op["k"], op["v"]))
        q = [seen(p), seen(TimeParser(p.timestr))]
        if p.timestr != str(p):
            q.append(list(p.timestr))
        return "ok", q


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng = rng

    def text(self):
        r = self.rng
        n = lambda hi: str(r.randint(0, hi)).zfill(r.choice([0, 0, 2, 3]))
        k = r.random()
        if k < 0.6:
            t = "P"
            for u, hi in (("Y", 300), ("M", 400), ("D", 9999)):
                if r.random() < 0.5:
                    t += n(r.choice([3, hi])) + u
            if r.random() < 0.8:
                t += "T"
                for u, hi in (("H", 9999), ("M", 99999)):
                    if r.random() < 0.6:
                        t += n(r.choice([60, hi])) + u
                if r.random() < 0.6:
                    t += n(r.choice([60, 999999])) + ("," + "".join(r.choice(r.choice(["0123456789", "0", "09"])) for _ in range(r.randint(1, r.choice([6, 9, 12])))) if r.random() < 0.5 else "") + "S"
        else:
            t = "%04d-%02d-%02d" % (r.choice([1, 999, 1000, 1900, 1999, 2000, 2024, 9999]), r.randint(0, 13), r.choice([0, 1, 15, 28, 29, 30, 31, 32]))
            if r.random() < 0.5:
                t += "T%02d:%02d:%02d" % (r.choice([0, 7, 23, 24]), r.choice([0, 59, 60]), r.choice([0, 59, 60]))
        while r.random() < 0.35:
            i = r.randint(0, len(t))
            c = r.choice("PTYMDHS,.-:0123 \nZ+a") if r.random() < 0.7 else ""
            t = t[:i] + c + t[i + r.randint(0, 1):]
        return t

    def next(self, s, last):
        r = self.rng
        k = r.random()
        if k < 0.5:
            t = self.text()
            while t[:1] == "P" and max([len(x) for x in "".join(c if c.isdigit() or c == "," else " " for c in t).replace(",", " ,").split() if x[0] != ","] or [0]) > 7 or self.big(t):
                t = self.text()
            return {"a": "parse", "w": list(t)}
        d = date.fromordinal(r.randint(r.choice([1, 1, date(1000, 1, 1).toordinal()]), date(9999, 12, 31).toordinal()))
        if k < 0.6:
            return {"a": "format", "k": "date", "v": [d.year, d.month, d.day]}
        if k < 0.75:
            return {"a": "format", "k": "datetime", "v": [d.year, d.month, d.day, r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)]}
        return {"a": "format", "k": "duration", "v": [r.choice([0, 1, r.randint(0, 400), r.randint(0, 999999999)]),
                                                      r.choice([0, 59, 60, 3600, 86399, r.randint(0, 86399)]), r.choice([0, 0, 1, 99, 100, 999999, r.randint(0, 999999)])]}

    def big(self, t):
        """sums that leave TLC's 32 bit integers"""
        num, tot = "", 0
        i = t.rfind(",")
        frac = t[i + 1:].rstrip("S")
        for c in t[:i] + "S" if i >= 0 and frac.isdigit() else t:
            if c.isdigit():
                num += c
            else:
                tot += int(num or 0) * {"H": 3600, "M": 60, "Y": 365}.get(c, 1)
                num = ""
        return tot > 10 ** 9
