"""Trades built, updated and closed by the program itself, without an epic feeding them (as live providers do)."""
from datetime import datetime
from fractions import Fraction

from estmon import gen
from estmon.core import Inconclusive
from estmon.timeutil import MIN, SEC, make_datetime
from estmon.trading import CENT, Rec
from estmon.world import lib


def direct_spec(rng, n, any_price=True):
    """`any_price`: closes may be made at another price than the last known one."""
    quotes = gen.prices(rng, n + 1)
    ops = []
    for i in range(n):
        bid, ask = quotes[i]
        r = rng.random()
        style = gen.tick_style(rng, rng.choice(gen.ZONES))
        k = rng.randrange(1000)
        q = rng.choice([None, None, 0, 1, 1, 2, 3, 5, 50])
        if not ops or r < 0.15:
            how = rng.choice(["trade", "tick", "epic"])
            ops.append(["open", how, rng.choice([1, -1]), rng.choice([1, 2, 3, 7, 10]), bid, ask, style,
                        quotes[i + 1][0] if rng.random() < 0.3 else None])
        elif r < 0.4:
            # some providers repeat the current price
            ops.append(["update", k, rng.choice([bid, ask, None])])
        elif r < 0.45:
            ops.append(["epic", k, bid, ask, style])
        elif r < 0.58:
            ops.append(["tick", k, bid, ask, style])
        elif r < 0.61:
            ops.append(["refused", k, bid, q])
        elif r < 0.8 and any_price:
            ops.append(["close", k, rng.choice([bid, ask]), q, style])
        else:
            ops.append([rng.choice(["close_tick", "close_tick", "close_epic"]), k, bid, ask, q, style])
    return {"direct": ops, "feed": [], "epics": []}


class Books:
    """What a ledger expects of a world."""

    def __init__(self):
        self.trades, self.epics, self.strategies = [], [], []


def run_direct(spec, ledger, judge):
    """Performs the operations; judge(books, when) after each."""
    L, books, mon = lib(), Books(), ledger.mon
    prices = [x for op in spec["direct"] for x in op if isinstance(x, float)]
    ledger.unit_tol = 1e-6 if all(abs(x * 100 - round(x * 100)) < 1e-6 for x in prices) else CENT
    epic = L.Epic(ref="direct")
    us = 1_600_000_000 * SEC
    for n, op in enumerate(spec["direct"]):
        us += MIN
        what = op[0]

        def tick(bid, ask, style):
            return L.Tick(datetime=make_datetime(us, style), bid=bid, ask=ask)

        if what == "open":
            _, how, d, q, bid, ask, style, current = op
            kw = {"direction": L.Direction(d), "quantity": q}
            rec = Rec(len(ledger.recs), None, 0, None, d, q, (bid, ask), us)
            if how == "trade":
                trade = L.Trade(open_value=ask if d == 1 else bid, open_datetime=make_datetime(us, style), epic=epic,
                                current_close_value=current, **kw)
                rec.cur = rec.price if current is None else Fraction(current)
            elif how == "tick":
                trade = L.Trade.open_from_tick(tick(bid, ask, style), epic, **kw)
            else:
                epic.on_new_tick(tick(bid, ask, style))
                trade = L.Trade.open_from_epic(epic, **kw)
            rec.mark()
            ledger.recs.append(rec)
            books.trades.append(trade)
        else:
            rec = ledger.recs[op[1] % len(ledger.recs)]
            trade = books.trades[rec.n]
            if what == "update":
                price = float(rec.cur) if op[2] is None else op[2]
                trade.update(price)
                move(rec, price)
            elif what == "epic":
                epic.on_new_tick(tick(*op[2:]))
                trade.update_from_epic()
                move(rec, op[2] if rec.d == 1 else op[3])
            elif what == "refused":
                # a close without a known instant
                try:
                    trade.close(op[2], datetime(2020, 1, 1, 12), **({} if op[3] is None else {"quantity": op[3]}))
                    raise Inconclusive("a close without timezone is accepted")
                except L.exc.EstradeException:
                    mon.ok(len(trade.closes) == len(rec.closes), "amount", "a refused close is recorded")
            elif what == "tick":
                trade.update_from_tick(tick(*op[2:]))
                move(rec, op[2] if rec.d == 1 else op[3])
            else:
                had = rec.opened
                if what == "close":
                    _, _, price, asked, style = op
                    kw = {} if asked is None else {"quantity": asked}
                    close = trade.close(price, make_datetime(us, style), **kw)
                else:
                    _, _, bid, ask, asked, style = op
                    move(rec, bid if rec.d == 1 else ask)
                    price = rec.cur
                    kw = {} if asked is None else {"quantity": asked}
                    if what == "close_tick":
                        close = trade.close_from_tick(tick(bid, ask, style), **kw)
                    else:
                        epic.on_new_tick(tick(bid, ask, style))
                        close = trade.close_from_epic(**kw)
                rec.closes.append([had if asked is None else min(had, asked), Fraction(price), us, close])
                mon.ok(close.quantity == rec.closes[-1][0], "amount", "closing %s of %s open closed %s", asked, had, close.quantity)
                mon.ok(list(trade.closes)[-1] is close and len(trade.closes) == len(rec.closes), "amount",
                       "the close returned is not recorded once")
                mon.ok(not close.quantity or Fraction(close.close_value) == rec.closes[-1][1], "amount",
                       "closed at %s instead of %s", close.close_value, float(price))
                mon.ev("closes")
        mon.ev("direct:" + what)
        judge(books, "operation %d %s" % (n, what))


def move(rec, price):
    if rec.opened > 0:
        rec.cur = Fraction(price)
        rec.mark()
