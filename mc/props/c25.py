import builtins
import csv
import errno
import os
import shutil
import tempfile
import time

import freezegun

from mc import ref
from mc.core import Scen
from mc.frames import cents, eq, expect, near, rounded
from mc.market import see_trade
from mc.trades import TradeSystem, many
from fractions import Fraction

from estrade.reporting.csv import ReportingCSV

RULE = ("every sequence of reports (one, two, no strategies; with and without details; into a missing, nested or existing folder; in the same second or a "
        "later one) interleaved with orders, closes and ticks, to the stated depth, also with a report during which the n-th file operation fails, for a list of reference texts (separators, quotes, line breaks, "
        "blanks, accents); after every report all files of all folders are read back as CSV and compared with the ledger")
ASSUMPTIONS = ["strategy references are distinct and usable in a file name", "file names are not judged, only that files are separate per strategy and second",
               "every row of a details file has the columns of Trade.asdict()"]
TEXTS = ["T%d", "a,b;%d", 'say "hi" %d', "line\nbreak %d", "cr\rlf\r\n%d", " blank %d ", "'%d", "é€漢%d", "=1+%d", "%d\t|", "\"%d\"", ",%d,", "%d\n", "same", ""]
DETAILS = ("ref", "epic", "strategy", "open_date", "direction", "open_quantity", "open_value", "closed_quantities", "result", "status")


def text(pattern, n):
    return pattern % n if "%" in pattern else pattern


class Failing:
    """Files of one folder fail at the n-th time one of them is opened for writing, or written to."""

    def __init__(self, folder, n):
        self.folder, self.n, self.failed = folder, n, False

    def count(self):
        self.n -= 1
        if self.n < 0:
            self.failed = True
            raise OSError(errno.ENOSPC, "No space left on device")

    def __enter__(self):
        self.opened = builtins.open

        def failing(file, mode="r", *args, **kwargs):
            mine = isinstance(file, (str, os.PathLike)) and os.fspath(file).startswith(self.folder) and set(mode) & set("wax+")
            if mine:
                self.count()
            f = self.opened(file, mode, *args, **kwargs)
            return FailingFile(f, self) if mine else f

        builtins.open = failing
        return self

    def __exit__(self, *exc):
        builtins.open = self.opened
        return False


class FailingFile:
    def __init__(self, f, failing):
        self.f, self.failing = f, failing

    def write(self, text):
        self.failing.count()
        return self.f.write(text)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def __enter__(self):
        self.f.__enter__()
        return self

    def __exit__(self, *exc):
        return self.f.__exit__(*exc)

    def __iter__(self):
        return iter(self.f)

    def __getattr__(self, name):
        return getattr(self.f, name)


class SYSTEM(TradeSystem):
    """Events of TradeSystem plus ["fail", n, folder, [strategies], details], a report during which the n-th file operation fails, ["report", folder, [strategies], details] and ["sec", n]."""

    def __init__(self, cfg):
        self.dir = tempfile.mkdtemp(prefix="estrade-report-")
        self.freezer = freezegun.freeze_time("2021-03-04 05:06:07")
        self.clock = self.freezer.start()
        self.second = self.failures = 0
        self.summary, self.details = {}, {}
        super().__init__(cfg)

    def cleanup(self):
        self.freezer.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

    def do_sec(self, n):
        self.second += n
        self.clock.tick(n)

    def do_open(self, s, e, direction, qty, via="strategy"):
        before = len(self.all)
        super().do_open(s, e, direction, qty, via)
        for t in self.all[before:]:
            t.impl.ref = text(self.cfg.get("text", "T%d"), t.n)

    def idle(self):
        for p in self.providers.values():
            for _ in range(20000):
                if not p.is_alive:
                    break
                time.sleep(0.0001)

    def files(self):
        got = {}
        for folder, _, names in os.walk(self.dir):
            for n in names:
                with open(os.path.join(folder, n), "rb") as f:
                    got[os.path.join(folder, n)] = f.read()
        return got

    def do_fail(self, n, folder, names, details):
        """What was reported before is still there, whatever the report that failed left behind (which is then removed)."""
        self.idle()
        before = self.files()
        trades = [see_trade(t.impl) for t in self.all]
        with Failing(self.dir, n) as failing:
            try:
                ReportingCSV(target_folder=os.path.join(self.dir, folder)).report([self.strategies[x] for x in names], trade_details=details)
            except OSError:
                pass
        eq([see_trade(t.impl) for t in self.all], trades, "reporting changed the trades")
        self.failures += failing.failed
        after = self.files()
        for name, content in before.items():
            expect(after.get(name, b"").startswith(content), "a report that failed lost rows of", os.path.relpath(name, self.dir))
        for name in after:
            if name not in before:
                os.remove(name)
            elif after[name] != before[name]:
                with open(name, "wb") as f:
                    f.write(before[name])

    def do_report(self, folder, names, details):
        self.idle()
        before = [see_trade(t.impl) for t in self.all]
        args = {} if details is None else dict(trade_details=details)
        ReportingCSV(target_folder=os.path.join(self.dir, folder)).report([self.strategies[n] for n in names], **args)
        eq([see_trade(t.impl) for t in self.all], before, "reporting changed the trades")
        key = (folder, self.second)
        for n in names:
            mine = [t for t in reversed(self.ledger) if t.owner == n]
            gains = sum(t.result for t in mine if t.result > 0)
            losses = -sum(t.result for t in mine if t.result < 0)
            pf = Fraction(gains, 100) if not losses else Fraction(gains, max(losses, 100))
            self.summary.setdefault(key, []).append((n, len(mine), sum(t.result for t in mine), pf))
            if details is not False and mine:
                rows = []
                for t in mine:
                    loc = ref.local(t.us, self.cfg.get("tz", {}).get(t.epic, "UTC"))
                    rows.append(dict(ref=t.impl.ref, epic=t.epic, strategy=n, open_date=loc.strftime("%Y-%m-%d %H:%M:%S"),
                                     direction=str(t.impl.direction), open_quantity=str(t.qty), closed_quantities=str(t.closed_qty),
                                     status=str(t.impl.status), open_value=t.open, result=t.result))
                self.details.setdefault(key + (n,), []).extend(rows)
        self.read_back()

    def read_back(self):
        for folder in sorted({k[0] for k in list(self.summary) + list(self.details)}):
            path = os.path.join(self.dir, folder)
            sums, dets = [], []
            for name in sorted(os.listdir(path)):
                if os.path.isdir(os.path.join(path, name)):
                    continue
                with open(os.path.join(path, name), newline="", encoding="utf-8") as f:
                    reader = csv.DictReader(f, strict=True)
                    rows = list(reader)
                if not rows:
                    continue
                expect(all(None not in r and None not in r.values() for r in rows), f"{name}: rows and columns do not match", rows)
                (sums if "nb_trades" in rows[0] else dets).append(rows)
            want = [v for k, v in sorted(self.summary.items()) if k[0] == folder and v]
            eq(len(sums), len(want), "number of summary files with rows")
            for rows, exp in zip(sums, want):
                eq([(r["ref"], r["nb_trades"]) for r in rows], [(n, str(c)) for n, c, _, _ in exp], "summary rows")
                for r, (n, _, res, pf) in zip(rows, exp):
                    near(float(r["result"]), res, "result of strategy", n)
                    rounded(float(r["profit_factor"]), pf * 100, "profit factor of strategy", n)
            want = [v for k, v in self.details.items() if k[0] == folder and v]
            see = lambda rows: sorted((tuple(r[c] for c in DETAILS if c not in ("open_value", "result")) for r in rows))
            eq(len(dets), len(want), "number of detail files with rows")
            key = lambda rows: [tuple(str(r[c]) for c in DETAILS if c not in ("open_value", "result")) for r in rows]
            dets.sort(key=lambda rows: (key(rows), len(rows)))
            want.sort(key=lambda rows: (key(rows), len(rows)))
            for rows, exp in zip(dets, want):
                eq(key(rows), key(exp), "detail rows")
            # amounts: match every expected file with one that has exactly its amounts
            left = [[(cents(float(r["open_value"])), cents(float(r["result"]))) for r in rows] + key(rows) for rows in dets]
            for exp in want:
                amounts = [(r["open_value"], r["result"]) for r in exp] + key(exp)
                expect(amounts in left, "no detail file holds", amounts[: len(exp)], "they hold", lambda: [x[: len(x) // 2] for x in left])
                left.remove(amounts)

    def compare(self):
        pass

    def key(self):
        return (super().key(), self.second, tuple(sorted((k, tuple(v)) for k, v in self.summary.items())), tuple((k, len(v)) for k, v in self.details.items()))


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    base = dict(epics={"A": "P"}, strategies=["s", "r"], aspects=[], lead=[["t", "A", 100, 102]])

    def add(name, letters, depth, **kw):
        out.append(Scen(name, dict(base, **kw), letters, depth + deep, system=SYSTEM))

    rep = lambda folder, names, det=True: ["report", folder, names, det]
    add("history", [["open", "s", "A", "BUY", 3], ["close", "new", 1], ["t", "A", 90, 92], rep("d", ["s"]), ["sec", 1]], 5)
    add("same-second", [["open", "s", "A", "BUY", 3], ["close", "new", 2], ["open", "r", "A", "SELL", 1], rep("d", ["s", "r"]), rep("d", ["r"]), rep("d", ["s"], False)], 4)
    add("folders", [["open", "s", "A", "BUY", 3], rep("d", ["s"]), rep("d/e/f", ["s", "r"], None), rep("d", []), rep("x y/é", ["r", "s"], False), ["sec", 3600]], 4)
    add("two-instruments", [["open", "s", "A", "BUY", 3], ["open", "s", "B", "SELL", 1], ["t", "B", 7, 8], ["closeall", "s"], rep("d", ["s", "r"]), ["sec", 1]], 4,
        epics={"A": "P", "B": "P"}, lead=[["t", "A", 100, 102], ["t", "B", 10, 10]], tz={"A": "America/New_York"})
    for names in ([], ["r"]):  # strategies that trade without having been added to an instrument
        add(f"unattached-{len(names)}", [["open", "s", "A", "BUY", 3], ["open", "r", "A", "SELL", 1], ["close", "old", 1], rep("d", ["s", "r"]), ["sec", 1]], 4, attached=names)
    # strategies that also trade instruments they have not been added to
    add("partly-attached", [["open", "s", "A", "BUY", 3], ["open", "s", "B", "SELL", 1], ["open", "r", "B", "BUY", 2], ["closeall", "s"], rep("d", ["s", "r"]), ["sec", 1]], 4,
        epics={"A": "P", "B": "P"}, lead=[["t", "A", 100, 102], ["t", "B", 10, 10]], attached=["s@A", "r@A", "r@B"])
    for n in range(7):  # files that fail, reports before and after, in the same second and a later one
        add(f"failing-{n}", [["open", "s", "A", "BUY", 3], rep("d", ["s", "r"]), ["fail", n, "d", ["s", "r"], True], ["sec", 1]], 5)
    words = []
    for n in (1, 2, 3):
        lead = [["open", "s", "A", "BUY", k + 1] for k in range(n)]
        words += [lead + [rep("d", ["s", "r"])] * 2 + [["close", "new", None], rep("d", ["s"]), ["sec", 1], rep("d", ["s", "r"], False), rep("d", ["s"])],
                  lead + [["open", "r", "A", "SELL", 2], ["t", "A", -50, -49], rep("d", ["r", "s"]), rep("d", ["s", "r"])]]
    for k, t in enumerate(TEXTS):
        out.append(Scen(f"text-{k}", dict(base, text=t), words=words, system=SYSTEM))
        ename = text(t, 1).strip() or "x"
        ws = [[["t", ename, 100, 102]] + [[ename if x == "A" else x for x in ev] for ev in w] for w in words[:2]]
        out.append(Scen(f"epic-text-{k}", dict(base, epics={ename: "P"}, lead=[]), words=ws, system=SYSTEM))
    for k, name in enumerate(("s p", "é", "a,b", 'q"q', "trades", "strategies")):
        ws = [[[name if x == "s" else [name if y == "s" else y for y in x] if isinstance(x, list) else x for x in ev] for ev in w] for w in words]
        out.append(Scen(f"strategy-text-{k}", dict(base, strategies=[name, "r"]), words=ws, system=SYSTEM))
    # references that are easily mistaken for one another
    for k, (x, y) in enumerate((("s-1", "s_1"), ("s 1", "s-1"), ("s", "S"), ("s", "s_s"), ("s", "ss"), ("s", "s "), ("s.csv", "s"), ("é", "e"), ("1", "01"), ("s+", "s"))):
        letters = [["open", x, "A", "BUY", 3], ["open", y, "A", "SELL", 1], rep("d", [x, y]), rep("d", [y, x], False), rep("d", [y])]
        out.append(Scen(f"look-alikes-{k}", dict(base, strategies=[x, y]), letters, 3 + deep, system=SYSTEM))
    out.append(many(base, SYSTEM, tail=[rep("d", ["s", "r"]), ["open", "r", "A", "BUY", 4], rep("d", ["r", "s"]), ["sec", 1], rep("d", ["s"])], deep=deep))
    return out
