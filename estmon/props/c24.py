"""C24: CSV reports contain every reported trade and strategy exactly once, readable by any CSV reader."""
import csv
import os
import re
import shutil
import tempfile

from estmon import trading
from estmon.world import World

PROP = "C24"
TEMPLATES = [("mixed", 120, 1800), ("refs", 80, 1200), ("repeat", 60, 900), ("long", 6, 100)]
RULE = ("seeded trading sessions with hostile references (separators, quotes, line breaks, unicode), reported into new, "
        "nested and already used folders, once or several times within and across seconds, with and without details; "
        "non-trivial: details of several trades were read back; distinct: hash of the reports")
REQUIRED = ("judged:strategies", "judged:details", "judged:header", "reports_same_second", "quoted_refs", "empty_details", "slash_refs",
            "reporting_used_again")
SHRINK = ("feed",)
ASSUMPTIONS = ["references of strategies are different and contain no line break or null character",
               "report files are recognised by the end of their names (strategies.csv, <strategy>_trades.csv)"]

HOSTILE = ["a,b", 'say "hi"', "line\nbreak", "semi;colon", " lead", "été", "'single'", "tab\there", "=1+1", "日本",
           "crlf\r\nx", '"', ",", "a\\b", "EUR/USD", "/", "../x", "a/b/c", "%s", "{0}", "x_trades.csv", "*", " ", "  x  ", "long" * 15, "Long" * 15]
TRADE_COLUMNS = ["ref", "status", "epic", "strategy", "open_date", "direction", "open_quantity", "open_value",
                 "closed_quantities", "result"]


def gen(template, rng):
    spec = trading.trading_spec(rng, 200 if template == "long" else rng.choice([4, 10, 25]), density=0.8)
    hostile = template == "refs" or rng.random() < 0.3
    names = ["alpha", "beta", "gamma", "delta"] + [f"s{k}" for k in range(20)]
    for k, s in enumerate(spec["strategies"]):
        s["ref"] = names[k]
        if hostile:
            # no line break: some file systems and tools refuse them
            s["ref"] += rng.choice([x for x in HOSTILE if "\n" not in x and "\t" not in x])
            if rng.random() < 0.2:
                s["ref"] = rng.choice([" ", "  ", "\xa0", "long" * 15]) + s["ref"]
    for k, e in enumerate(spec["epics"]):
        e["ref"] = f"E{k}" + (rng.choice(HOSTILE) if hostile else "")
    if hostile:
        for k, acts in spec["actions"].items():
            for j, a in enumerate(acts):
                if a[2] == "open":
                    a[7] = {"ref": f"{k}.{j}" + rng.choice(HOSTILE)}
    if rng.random() < 0.35:
        # the very same order, several times
        for k, acts in spec["actions"].items():
            for a in [a for a in acts if a[2] == "open" and rng.random() < 0.4]:
                a[7] = {"ref": rng.choice(["t", "again"])}
                for _ in range(rng.choice([1, 2])):
                    acts.insert(acts.index(a), list(a[:7]) + [dict(a[7])])
    n = len(spec["feed"])
    spec["reports"] = []
    for _ in range(rng.choice([2, 3, 5]) if template == "repeat" else rng.choice([1, 1, 2])):
        spec["reports"].append([rng.randrange(n) if template == "repeat" else n - 1, rng.random() < 0.8,
                                sorted(rng.sample(range(len(spec["strategies"])),
                                                  rng.randrange(0, len(spec["strategies"]) + 1)))
                                if rng.random() < 0.3 else list(range(len(spec["strategies"]))),
                                rng.choice([0, 0, 1]), rng.random() < 0.5])
    spec["reports"].sort()
    spec["folders"] = [rng.choice(["r", "a/b/c", "with space", "r.d"]), rng.choice(["r2", "a/b/d", "r.d/x"])]
    spec["exists"] = rng.random() < 0.3
    spec["pause"] = template == "repeat" and rng.random() < 0.08
    return spec


def text(v):
    return "" if v is None else str(v)


class Book:
    """What is expected in a folder."""

    def __init__(self, folder):
        self.folder = folder
        self.reporting = None
        self.strategies = []  # rows expected
        self.details = {}  # ref -> rows expected


class Listener:
    def __init__(self, spec, mon, folders):
        self.spec, self.mon = spec, mon
        self.todo = [tuple(r) for r in spec["reports"]]
        self.books = [Book(f) for f in folders]
        self.calls = 0

    def settled(self, world, i, e):
        while self.todo and (self.todo[0][0] <= i or i == len(world.spec["feed"]) - 1):
            _, details, chosen, k, same = self.todo.pop(0)
            self.report(self.books[k], same, details, [world.strategies[s] for s in chosen if s < len(world.strategies)])

    def report(self, book, same, details, strategies):
        from estrade.reporting.csv import ReportingCSV

        if self.calls and self.spec["pause"]:
            import time

            time.sleep(1.05)
        elif self.calls:
            self.mon.ev("reports_same_second")
        self.calls += 1
        if same and book.reporting:
            self.mon.ev("reporting_used_again")
        else:
            folder = [book.folder, os.path.relpath(book.folder), book.folder + os.sep][self.calls % 3]
            book.reporting = ReportingCSV(target_folder=folder)
        reporting = book.reporting
        if details and self.calls % 2:
            reporting.report(strategies)
        else:
            reporting.report(strategies, trade_details=details)
        for s in strategies:
            trades = list(s.get_trades())
            book.strategies.append([text(s.ref), text(len(trades)), text(s.result()), text(s.profit_factor())])
            if details:
                rows = book.details.setdefault(s.ref, [])
                for t in trades:
                    rows.append([text(t.ref), text(t.status), text(t.epic.ref), text(s.ref),
                                 t.datetime.datetime.strftime("%Y-%m-%d %H:%M:%S"), text(t.direction),
                                 text(t.open_quantity), text(t.open_value), text(t.closed_quantities), text(t.result)])
                if len({tuple(r) for r in rows}) < len(rows):
                    self.mon.ev("same_rows")
                if not trades:
                    self.mon.ev("empty_details")


def read(path):
    with open(path, newline="", encoding="utf-8") as f:
        return [r for r in csv.reader(f) if r]


def run(spec, mon):
    root = tempfile.mkdtemp(prefix="report", dir=os.environ.get("ESTMON_TMP"))
    try:
        folders = [os.path.join(root, str(k), f) for k, f in enumerate(spec["folders"])]
        if spec["exists"]:
            os.makedirs(folders[0])
        listener = Listener(spec, mon, folders)
        world = World(spec, listener)
        world.run()
        total = sum(judge(mon, book) for book in listener.books)
        mon.nontrivial = total > 1
    finally:
        shutil.rmtree(root, ignore_errors=True)


def judge(mon, book):
    folder = book.folder
    files = sorted(os.path.relpath(os.path.join(d, n), folder) for d, _, names in os.walk(folder) for n in names)
    rows = []
    for name in files:
        if name.endswith("_strategies.csv"):
            content = read(os.path.join(folder, name))
            mon.ok(content[:1] == [["ref", "nb_trades", "result", "profit_factor"]], "header", "strategies header %s", content[:1])
            rows += content[1:]
    mon.ok(sorted(rows) == sorted(book.strategies), "strategies", "strategies reported as %s, expected %s", rows,
           book.strategies)
    total, seen = 0, set()
    for ref, want in book.details.items():
        # how a reference with a slash names its file is free
        suffix = re.compile(".*_%s_trades[.]csv" % ".{0,9}".join(re.escape(x) for x in ref.split("/")), re.DOTALL)
        mine = [n for n in files if suffix.fullmatch(n)]
        seen |= set(mine)
        got = []
        for name in mine:
            content = read(os.path.join(folder, name))
            if not content:
                continue
            mon.ok(content[0] == TRADE_COLUMNS, "header", "the details of %r start with %s", ref, content[0])
            mon.ok(content.count(TRADE_COLUMNS) == 1, "header", "several headers in the details of %r", ref)
            got += content[1:]
        mon.ok(mine or not want, "details", "no details of %r in %s", ref, files)
        missing = [r for r in want if r not in got]
        mon.ok(sorted(got) == sorted(want), "details", "%s rows for the %s trades reported for %r, missing %s", len(got),
               len(want), ref, missing[:2])
        total += len(want)
        for r in want:
            if any(c in r[0] for c in ',"\n\r'):
                mon.ev("quoted_refs")
        if "/" in ref:
            mon.ev("slash_refs")
    # nothing is written elsewhere
    extra = [n for n in files if not n.endswith("_strategies.csv") and n not in seen]
    mon.ok(not extra, "details", "details nobody asked for: %s", extra)
    mon.sig(book.strategies, sorted(book.details.items()))
    return total
