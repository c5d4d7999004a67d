"""Runs pools of the reference prototype on request, one line per request.
argv: path of v3_pool.py"""
import importlib.util
import math
import signal
import sys

sys.dont_write_bytecode = True
spec = importlib.util.spec_from_file_location("v3_pool", sys.argv[1])
v3 = importlib.util.module_from_spec(spec)
sys.modules["v3_pool"] = v3
spec.loader.exec_module(v3)
v3.print = lambda *a, **k: None  # the prototype reports each operation
Pool = v3.Pool
pools = {}


class Stalled(BaseException):
    pass


def stalled(*_):
    raise Stalled("operation does not end")


signal.signal(signal.SIGALRM, stalled)


def num(s):
    return float(s)


def show(v):
    return " ".join("0.0" if z is None else repr(z) for z in v)


def run(c):
    k = c[0]
    if k == "new":
        pools[c[1]] = Pool("X", 12, "Y", 6, num(c[2]), int(c[3]), num(c[4]), num(c[5]))
        return ""
    if k == "del":
        pools.pop(c[1], None)
        return ""
    if k == "liq":
        x, y, rp = (num(z) for z in c[1:4])
        pa, pb = Pool.tick_to_rP(int(c[4])), Pool.tick_to_rP(int(c[5]))
        return repr(float(math.floor(Pool.liq_from_x_y_rP_rng(x, y, rp, pa, pb))))
    if k == "has":
        return str(hasattr(Pool, c[1]))
    if k == "f":
        a = [num(z) for z in c[2:]]
        if c[1] in ("_liq_from_x_y_rP_rng", "_x_from_L_rP_rng", "_y_from_L_rP_rng"):
            a = a[:-3] + [int(z) for z in a[-3:]]
        return repr(float(getattr(Pool, c[1])(*a)))
    if k == "rp":
        return repr(float(Pool.tick_to_rP(int(c[1]))))
    if k in ("poss", "possrp"):
        p = Pool("X", 12, "Y", 6, 1.00002, int(c[2]))
        if k == "poss":
            return str(int(p.tick_to_possible_tick(int(c[1]), c[3] == "1")))
        return str(int(p.rP_to_possible_tick(num(c[1]), c[3] == "1")))
    if k == "tick":
        return str(Pool.rP_to_tick(num(c[1]), c[2] == "1"))
    p = pools[c[1]]
    if k == "dep":
        p.deposit(c[2], num(c[3]), num(c[4]), num(c[5]), num(c[6]))
        return ""
    if k == "wd":
        p.withdraw(c[2], num(c[3]), num(c[4]), num(c[5]))
        return ""
    if k in ("sx", "sy"):
        o = num(c[3])
        f = p.execute_swap_from_X if k == "sx" else p.execute_swap_from_Y
        a, b, adj, fee, avg, end = f(num(c[2]), o if o != 0.0 else None)
        return show((a, b, adj, fee, avg, end)) if k == "sx" else show((b, a, adj, fee, avg, end))
    if k == "obs":
        g = p.global_state
        v = [p.X, p.X_adj, p.X_fee, p.Y, p.Y_adj, p.Y_fee, g.L, g.rP]
        return show([float(z) for z in v]) + " " + " ".join(
            str(int(z)) for z in [g.tick, len(p.positions)] + sorted(p.active_ticks)
        )
    raise KeyError(k)


for line in sys.stdin:
    c = line.split()
    try:
        signal.setitimer(signal.ITIMER_REAL, 20.0)
        try:
            r = "ok " + run(c)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0.0)
    except (Exception, Stalled) as e:
        r = "err %s: %s" % (type(e).__name__, " ".join(str(e).split())[:200])
    sys.stdout.write(r + "\n")
    sys.stdout.flush()
