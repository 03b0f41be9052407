from mc import ref
from mc.core import Scen, pumped
from mc.frames import FrameSystem, FrameSet, RSI, Unit, expect

S = 1_000_000
LOOKS = (1, 2, 0)
RULE = ("every sequence of the alphabet (same frame, next frame, gap; rising, falling, equal, zero and negative prices) to the stated depth "
        "for N = 1-4, 6 (also as periods x quantity) and 14/50 (pumped), memories from exactly N to 100; the RSI of every kept frame compared "
        "after every tick; plus the refusal rule on a grid of periods x quantity x memory")
ASSUMPTIONS = ["frame memory of at least 2", "market-hours RSI is C11's subject", "ties may be rounded either way"]


class SYSTEM(FrameSystem):
    def other(self, letter):
        """["grid", unit, quantity, memory]: the refusal rule for every number of periods up to memory + 3."""
        _, unit, q, memory = letter
        for periods in range(1, memory + 4):
            fs = FrameSet(unit=Unit[unit], unit_quantity=q, max_frames_in_memory=memory)
            try:
                fs.add_indicator(RSI(periods=periods))
                refused = False
            except Exception:
                refused = True
            expect(refused == (periods * q > memory),
                   f"RSI({periods}) on {q} {unit}, {memory} frames kept: {'refused' if refused else 'accepted'}")

    def compare(self, final=False):
        if self.n:
            super().compare(final)

    def key(self):
        return super().key() if self.n else None


def rsi(*ns):
    return [dict(ref=f"r{n}", kind="rsi", n=n) for n in ns]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    same = [["t", S, a, b] for a, b in ((100, 102), (-310, -308), (0, 0), (555, 555))]
    nxt = [["next", 1, 0, a, b] for a, b in ((100, 102), (120, 160), (-903, -900))]
    gap = [["next", 3, 1, 50, 52]]

    def add(name, letters, depth, unit="MINUTE", q=1, inds=(), max=50, **kw):
        cfg = dict(sets=[dict(ref="fs", unit=unit, q=q, max=max, inds=list(inds))], base=ref.at("2020-01-06 09:58:30"), tz="UTC",
                   aspects=["indicators"], **kw)
        out.append(Scen(name, cfg, letters, depth + deep, system=SYSTEM))
        return cfg

    add("minute", same + nxt + gap, 4, inds=rsi(1, 2, 3))
    add("long", [same[1], nxt[0], nxt[1], nxt[2]], 6, inds=rsi(1, 2, 3, 4))
    add("very-long", [nxt[0], nxt[1], nxt[2]], 8, inds=rsi(2, 6))
    # tiny changes among huge ones
    tiny = [["t", S, 100, 100], ["t", S, 90000, 90002], ["next", 1, 0, 101, 101], ["next", 1, 0, 90001, 90001], ["next", 1, 0, 90100, 90100]]
    add("tiny", tiny, 5, inds=rsi(1, 2))
    add("tiny-window", tiny[1:], 6, inds=rsi(2, 3), max=4)
    for n in (2, 3, 4):
        add(f"window-{n}", [same[0], same[1], nxt[0], nxt[2], gap[0]], 6 if n < 4 else 5, inds=rsi(1, n), max=n)
    add("quantity-2", [same[0], nxt[0], nxt[1], nxt[2], gap[0]], 5, q=2, inds=rsi(1, 2))
    add("quantity-3", [same[0], nxt[0], nxt[1], nxt[2]], 6, q=3, inds=rsi(1), max=3)
    add("ticks-1", same, 6, "TICK", inds=rsi(1, 2, 3), max=4)
    add("ticks-2", same, 7, "TICK", 2, inds=rsi(1), max=2)
    for n, m, total in ((14, 100, 120), (14, 14, 60), (50, 50, 160), (100, 100, 260)):
        cfg = dict(sets=[dict(ref="fs", unit="MINUTE", q=1, max=m, inds=rsi(n))], base=ref.at("2020-01-06 09:58:30"), tz="UTC",
                   aspects=["indicators"], sparse=True)
        out.append(Scen(f"pumped-{n}-{m}", cfg, words=pumped([same[3], nxt[0], nxt[2], ["next", 2, 1, 50, 52]], 3 if deep else 2, total),
                        system=SYSTEM))
    out.append(Scen("refusals", dict(sets=[], base=0, aspects=[]),
                    words=[[["grid", u, q, m]] for u, q in (("MINUTE", 1), ("MINUTE", 5), ("TICK", 1), ("TICK", 7), ("HOUR", 4), ("DAY", 7))
                           for m in (1, 2, 3, 5, 14, 35, 100)], system=SYSTEM))
    return out
