"""Log silencing and progress switches are restored faithfully."""
import logging
from contextlib import contextmanager

BOUNDS = ["all histories of four (quick: three) operations out of 11, the temporary console silencer nested to depth two around further operations",
          "arbitrary numerical console and file levels (reals) at the start and wherever a level is set",
          "records of the five standard levels after every history of two (quick: one) operations"]
ASSUMPTIONS = ["re-activating logs that were not silenced is unspecified",
               "the record sinks (stream and file writing) are replaced by lists; the real loggers, handlers, filters and levels decide what reaches them"]
REACH = ["silenced", "restored", "twice", "exception", "nested", "filtered", "quiet", "loud", "debug", "record"]
KEEP_LOGS = True
OPTS = {"witnesses": 3}

OPS = ["silence", "activate", "quiet", "loud", "debug", "update", "file", "warnings off", "warnings on", "bars", "console"]


def variants(tier):
    q = tier == "quick"
    out = [{"first": k, "steps": 3 if q else 4, "emit": 0} for k in range(len(OPS))]
    out += [{"first": k, "steps": 2 if not q or k in (7, 8) else 1, "emit": 1} for k in range(len(OPS))]
    return sorted(out, key=lambda v: (-v["first"], v["emit"]))


class State:
    """what the documentation promises"""

    def __init__(self, ctx, con, usr):
        self.ctx, self.con, self.usr = ctx, con, usr
        self.saved = None           # levels before the first pending silencing
        self.filter = False
        self.bars = True
        self.named = False
        self.k = 0

    def level(self, what):
        self.k += 1
        return self.ctx.real("%s%d" % (what, self.k), lo=0, hi=60)


class Boom(Exception):
    pass


def world(ctx):
    import popsynth.utils.logging as L
    con, usr, dev = L.popsynth_console_log_handler, L.popsynth_usr_log_handler, L.popsynth_dev_log_handler
    return L, con, usr, dev


@contextmanager
def prepared(ctx):
    import popsynth
    from popsynth.utils.configuration import popsynth_config
    L, con, usr, dev = world(ctx)
    check = logging._checkLevel
    old = (con.level, usr.level, dev.level, list(con.filters), list(usr.filters), popsynth_config.show_progress)
    got = {"console": [], "file": []}
    logging._checkLevel = lambda level: check(level) if isinstance(level, str) else level
    con.emit = lambda r: got["console"].append(r.levelno)
    usr.emit = lambda r: got["file"].append(r.levelno)
    try:
        L.silence_logs()        # an earlier, completed round; nothing is silenced at the start
        L.activate_logs()
        for h in (con, usr):
            for f in list(h.filters):
                h.removeFilter(f)
        yield L, con, usr, popsynth_config, got
    finally:
        del con.emit, usr.emit
        L.activate_logs()
        con.setLevel(old[0]), usr.setLevel(old[1]), dev.setLevel(old[2])
        L.silence_logs()        # the stored levels are plain numbers again
        L.activate_logs()
        con.setLevel(old[0]), usr.setLevel(old[1]), dev.setLevel(old[2])
        logging._checkLevel = check
        con.filters[:], usr.filters[:] = old[3], old[4]
        popsynth_config.show_progress = old[5]


def agree(m, env, label):
    ctx, (L, con, usr, cfg, got) = m.ctx, env
    ctx.check_eq(con.level, m.con, "%s: console level" % label)
    ctx.check_eq(usr.level, m.usr, "%s: file level" % label)
    ctx.check(bool(cfg.show_progress) == m.bars, "%s: progress switch" % label)


def one(m, env, op, left):
    """one operation on the code and on the model"""
    import popsynth
    ctx, (L, con, usr, cfg, got) = m.ctx, env

    def save():
        if m.saved is None:
            m.saved = (m.con, m.usr)
        else:
            ctx.reach("twice")
    if op == "silence":
        popsynth.silence_logs()
        save()
        m.con = m.usr = logging.CRITICAL
        ctx.reach("silenced")
    elif op == "quiet":
        popsynth.quiet_mode()
        save()
        m.con = m.usr = logging.CRITICAL
        m.bars = False
        ctx.reach("quiet")
    elif op == "activate":
        popsynth.activate_logs()
        if m.saved is None:
            m.con, m.usr = con.level, usr.level      # unspecified
        else:
            m.con, m.usr = m.saved
            m.saved = None
            ctx.reach("restored")
    elif op == "loud":
        popsynth.loud_mode()
        m.con = m.usr = logging.INFO
        m.bars = True
        ctx.reach("loud")
    elif op == "debug":
        popsynth.debug_mode()
        m.con = logging.DEBUG
        ctx.reach("debug")
    elif op == "update":
        name = ("", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")[ctx.choice("name%d" % m.k, 6) if m.named else 0]
        if name:
            m.k += 1
            popsynth.update_logging_level(name)
            m.con = getattr(logging, name)
        else:
            v = m.level("console")
            popsynth.update_logging_level(v)
            m.con = v
    elif op == "file":
        v = m.level("file")
        usr.setLevel(v)
        m.usr = v
    elif op == "warnings off":
        popsynth.silence_warnings()
        m.filter = True
        ctx.reach("filtered")
    elif op == "warnings on":
        popsynth.activate_warnings()
        m.filter = False
    elif op == "bars":
        on = bool(ctx.bool("bars%d" % m.k))
        m.k += 1
        (popsynth.show_progress_bars if on else popsynth.silence_progress_bars)()
        m.bars = on
    elif op == "console":
        boom = bool(ctx.bool("boom%d" % m.k))
        m.k += 1
        before = (m.con, m.usr)
        err = None
        try:
            with L.silence_console_log():
                m.con = m.usr = logging.ERROR
                agree(m, env, "inside the silencer")
                if left > 1:
                    ctx.reach("nested")
                    step(m, env, left - 1)
                if boom:
                    ctx.reach("exception")
                    raise Boom()
        except Boom as e:
            err = e
        ctx.check((err is not None) == boom, "an exception passes through the silencer")
        m.con, m.usr = before
        return 2 if left > 1 else 1
    return 1


def step(m, env, left, first=None):
    k = m.ctx.choice("op%d" % m.k, len(OPS)) if first is None else first
    m.k += 1
    used = one(m, env, OPS[k], left)
    agree(m, env, "after %s" % OPS[k])
    return used


def records(m, env):
    """what reaches the sinks is decided by the levels and the warning filter"""
    ctx, (L, con, usr, cfg, got) = m.ctx, env
    log = L.setup_logger("popsynth.symx")
    level = (logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL)[ctx.choice("record", 5)]
    for h in list(log.handlers):
        if h not in (con, usr):
            log.removeHandler(h)
    got["console"].clear(), got["file"].clear()
    log.log(level, "message")
    ctx.reach("record")
    for name, want in (("console", m.con), ("file", m.usr)):
        shown = len(got[name])
        ctx.check(shown in (0, 1), "%s shows a record at most once" % name)
        if m.filter and level == logging.WARNING:
            ctx.check(shown == 0, "%s: warnings are silenced" % name)
        else:
            ctx.check_iff(shown == 1, want <= level, "%s shows the records of its level and above" % name)


def bars(m, env):
    from popsynth.utils.progress_bar import progress_bar
    items = [object(), object(), object()]
    seen = list(progress_bar(items, desc="x"))
    m.ctx.check(len(seen) == 3 and all(a is b for a, b in zip(seen, items)), "a progress bar passes its items on")
    if not m.bars:
        m.ctx.check(progress_bar(items) is items, "no progress bar when they are switched off")
    else:
        m.ctx.check(progress_bar(items) is not items, "a progress bar when they are switched on")


def harness(ctx, first, steps, emit):
    with prepared(ctx) as env:
        L, con, usr, cfg, got = env
        m = State(ctx, ctx.real("console", lo=0, hi=60), ctx.real("file", lo=0, hi=60))
        con.setLevel(m.con), usr.setLevel(m.usr)
        cfg.show_progress = True
        m.named = bool(emit)
        left = steps
        left -= step(m, env, left, first)
        while left > 0:
            left -= step(m, env, left)
        if emit:
            records(m, env)
        bars(m, env)
