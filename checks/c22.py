"""C22: timed blocks restore output and alarms, and never hide errors."""
import contextlib
import io
import logging
import os
import re
import shutil
import signal
import sys
import tempfile
import threading
import time

import opinf

from pbt.runner import Check
from pbt.oracle import Violation, check, raises

CHECK = Check("C22", factor=1.5, assumptions=[
    "main thread of a Unix process; expiries are provoked by shortening the running interval "
    "timer (as if the time had passed) or, in sub 'realtime', by letting whole seconds pass",
    "programs of at most about 25 actions nested at most four deep",
    "exceptions whose str() works; a TimeoutError raised by the user inside a block with a time "
    "limit counts as a timeout",
])
Timed = opinf.utils.TimedBlock
USER = 5000.0        # seconds until the user's own alarm
SPENT = -1           # the time limit of an open block that has expired


class Custom(Exception):
    pass


class LateTimeout(TimeoutError):
    pass


class Base(BaseException):
    pass


class UserAlarm(Exception):
    pass


EXCEPTIONS = [ValueError, KeyError, Custom, KeyboardInterrupt, SystemExit, GeneratorExit,
              StopIteration, LateTimeout, Base, OSError, AssertionError, RuntimeError,
              TimeoutError]


def armed():
    return signal.getitimer(signal.ITIMER_REAL)[0]


class Stream(io.StringIO):
    pass


class Sandbox:
    """Save and restore everything a timed block may touch."""

    def __enter__(self):
        self.out, self.err = sys.stdout, sys.stderr
        self.flags = Timed.verbose, Timed.rebuffer
        self.logger = logging.getLogger()
        self.handlers = list(self.logger.handlers)
        self.level = self.logger.level
        self.handler = signal.getsignal(signal.SIGALRM)
        for h in self.handlers:
            self.logger.removeHandler(h)
        self.logger.addHandler(logging.NullHandler())   # no basicConfig()
        self.dir = tempfile.mkdtemp()
        os.mkdir(os.path.join(self.dir, "sub"))
        return self

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.handler or signal.SIG_DFL)
        sys.stdout, sys.stderr = self.out, self.err
        Timed.verbose, Timed.rebuffer = self.flags
        for h in list(self.logger.handlers):
            self.logger.removeHandler(h)
            h.close()
        for h in self.handlers:
            self.logger.addHandler(h)
        self.logger.setLevel(self.level)
        shutil.rmtree(self.dir)


# Programs ------------------------------------------------------------------------------------
def program(g, depth, budget):
    """A list of actions."""
    out = []
    for _ in range(g.int(0 if depth else 1, 3, "len")):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        kinds = ["print", "print", "raise", "expire", "log", "busy", "flags"]
        if depth < 4:
            kinds += ["block"] * 6 + ["redirect", "try", "try"]
        kind = g.choice(kinds, "action")
        if kind == "block":
            out.append({
                "do": "block", "id": budget[1].pop(),
                "limit": g.choice([None, None, 1, 5, 50, 100, 3.9, 0, 200], "limit"),
                "style": g.choice(["{}", "{}", "{}\n", "\r{}", "", None, "{} 100%"], "style"),
                "rebuffer": g.choice([None, True, False], "rebuffer"),
                "verbose": g.choice([None, True, True, False], "verbose"),
                "early": g.rarely("early", 4), "reuse": g.rarely("reuse", 5),
                "stack": g.rarely("stack", 5) and g.choice(["plain", "raise"], "stack.kind"),
                "body": program(g, depth + 1, budget)})
        elif kind in ("redirect", "try"):
            out.append({"do": kind, "body": program(g, depth + 1, budget)})
        elif kind == "raise":
            out.append({"do": "raise", "type": g.choice(EXCEPTIONS, "exc")})
        elif kind == "log":
            out.append({"do": "log", "file": g.int(0, 3, "file"), "rel": g.bool("rel")})
        elif kind == "flags":
            out.append({"do": "flags", "rebuffer": g.bool("fl.rebuffer"),
                        "verbose": g.bool("fl.verbose")})
        else:
            out.append({"do": kind})
    return out


class Machine:
    def __init__(self, box, user_alarm):
        self.box = box
        self.user_alarm = user_alarm
        self.token = 0
        self.expected = {}            # id(stream) -> (stream, tokens in order)
        self.limits = []              # time limits of the open blocks, outermost first
        self.buffers = []             # for each open rebuffered block: the covered stream
        self.files = {}               # path -> blocks expected to be logged
        self.early = {}
        self.depth = 0
        self.stats = {"blocks": 0, "exceptions": 0, "timeouts": 0, "nested": 0}

    def base(self):
        return self.stream

    def tok(self):
        self.token += 1
        return f"<tok{self.token}>"

    def emit(self, token):
        print(token, end=" ")
        self.expected.setdefault(id(self.stream), (self.stream, []))[1].append(token)
        if self.buffers and self.buffers[-1] is self.stream:
            check(token not in self.stream.getvalue(), "buffered text printed before the end")
        else:
            check(token in self.stream.getvalue(), "text printed outside of buffers is missing")

    def prepare(self, prog):
        """Construct the blocks that are created long before they are entered."""
        for a in prog:
            if a["do"] == "block" and a["early"]:
                self.early[a["id"]] = self.new(a)
            if "body" in a:
                self.prepare(a["body"])

    def new(self, a):
        msg = a["style"] and a["style"].format(f"blk{a['id']}")
        if a["limit"] is None:
            return Timed(msg)
        return Timed(msg, timelimit=a["limit"])

    def alarm_ok(self, msg):
        """The running alarm is the one that is due first, or none."""
        if SPENT in self.limits:      # enclosing alarms are put back when that block ends
            return
        due = min([x for x in self.limits if x is not None]
                  + ([USER] if self.user_alarm else []), default=None)
        now = armed()
        if due is None:
            check(now == 0, f"{msg}: an alarm is set ({now:.2f} s)")
        else:
            check(now > 0, f"{msg}: the pending time limit was cancelled")
            check(now <= due + 0.01, f"{msg}: alarm later than the time limit")

    def run(self, prog):
        for a in prog:
            getattr(self, "do_" + a["do"])(a)

    def do_print(self, a):
        self.emit(self.tok())

    def do_busy(self, a):
        x = 0
        for i in range(2000):
            x += i

    def do_flags(self, a):
        Timed.rebuffer, Timed.verbose = a["rebuffer"], a["verbose"]

    def do_raise(self, a):
        raise a["type"](self.tok())

    def do_expire(self, a):
        if not any(x is not None for x in self.limits) or SPENT in self.limits:
            return
        self.stats["timeouts"] += 1
        # the alarm belongs to the outermost of the strictest limits; blocks inside of that one
        # did not need an alarm of their own
        owner = self.limits.index(min(x for x in self.limits if x is not None))
        self.limits[owner:] = [SPENT] * (len(self.limits) - owner)
        signal.setitimer(signal.ITIMER_REAL, 0.0005)
        end = time.monotonic() + 5
        while time.monotonic() < end:
            pass
        raise Violation("the time limit expired but no timeout error was raised")

    def do_log(self, a):
        path = os.path.join(self.box.dir, ["", "sub"][a["file"] // 2], f"log{a['file'] % 2}.log")
        Timed.add_logfile(os.path.relpath(path) if a["rel"] else path)
        self.files.setdefault(path, [])

    def do_try(self, a):
        try:
            self.run(a["body"])
        except Violation:
            raise
        except BaseException:
            pass
        self.alarm_ok("after an exception was caught")

    def do_redirect(self, a):
        outer, new, buffers = self.stream, Stream(), self.buffers
        self.stream, self.buffers = new, []
        try:
            with contextlib.redirect_stdout(new):
                self.run(a["body"])
                check(sys.stdout is new, "redirected output lost")
        finally:
            self.stream, self.buffers = outer, buffers

    def do_block(self, a):
        block = self.early.get(a["id"]) or self.new(a)
        self.enter(a, block)
        if a["reuse"]:
            self.enter(a, block)

    def enter(self, a, block):
        if a["rebuffer"] is not None:
            Timed.rebuffer = a["rebuffer"]
        if a["verbose"] is not None:
            Timed.verbose = a["verbose"]
        self.stats["blocks"] += 1
        self.stats["nested"] += len(self.limits) > 0
        limit = None if a["limit"] is None else max(int(a["limit"]), 1)
        check(block.timelimit == limit, "timelimit")
        before, rebuffer, nopen = sys.stdout, Timed.rebuffer, len(self.limits)
        handler = signal.getsignal(signal.SIGALRM)
        raised, second = None, None
        info = {}
        try:
            if a["stack"]:
                with contextlib.ExitStack() as stack:
                    check(stack.enter_context(block) is block, "entering returns the block")
                    if a["stack"] == "raise":
                        def callback():
                            raise info.setdefault("second", Custom(self.tok()))
                        stack.callback(callback)
                    self.inside(a, limit, before, rebuffer, info)
            else:
                with block as b:
                    check(b is block, "entering returns the block")
                    self.inside(a, limit, before, rebuffer, info)
        except Violation:
            raise
        except BaseException as ex:
            raised = ex
        del self.limits[nopen:]
        # output and alarm as before
        check(sys.stdout is before, "leaving the block did not restore the output")
        self.alarm_ok("after the block")
        if not any(x is not None for x in self.limits) and self.user_alarm:
            check(signal.getsignal(signal.SIGALRM) == handler, "alarm handler not restored")
        # exceptions
        want = info.get("second") or info.get("raised")
        if want is None:
            check(raised is None, f"the block raised {raised!r} though nothing was raised inside")
            check(isinstance(block.elapsed, (int, float)) and block.elapsed >= 0, "elapsed")
        else:
            self.stats["exceptions"] += 1
            check(raised is not None, f"the block hid {want!r}")
            if limit is not None and type(want) is TimeoutError:
                check(type(raised) is TimeoutError, "timeout error replaced")
                check("timed out" in str(raised).lower(), "timeout error message")
            else:
                check(raised is want, f"the block replaced {want!r} by {raised!r}")
        if a["style"]:
            for path in self.files:
                self.files[path].append(a["id"])
        if raised is not None:
            raise raised

    def inside(self, a, limit, before, rebuffer, info):
        buffers = self.buffers
        self.limits.append(limit)
        depth = len(self.limits)
        try:
            if rebuffer:
                check(sys.stdout is not before, "output is not buffered")
                self.buffers = buffers + [self.stream]
            else:
                check(sys.stdout is before, "output replaced without buffering")
            self.alarm_ok("inside the block")
            c0 = time.process_time()
            self.run(a["body"])
            info["cpu"] = time.process_time() - c0
            check(len(self.limits) == depth, "harness: block stack")
            self.alarm_ok("at the end of the block")
        except Violation:
            raise
        except BaseException as ex:
            info["raised"] = ex
            raise
        finally:
            self.buffers = buffers




@CHECK.sub(quick=3000, rule="an exception or timeout inside a block, or nested blocks")
def programs(g):
    prog = program(g, 0, [25, list(range(1000, 1100))])
    user = g.rarely("user-alarm", 4)

    def user_handler(signum, frame):
        raise UserAlarm("user")

    with Sandbox() as box:
        m = Machine(box, user)
        top = m.stream = Stream()
        sys.stdout = top
        Timed.verbose = Timed.rebuffer = False
        Timed.verbose = g.bool("verbose0")
        Timed.rebuffer = g.bool("rebuffer0")
        if user:
            signal.signal(signal.SIGALRM, user_handler)
            signal.setitimer(signal.ITIMER_REAL, USER)
        m.prepare(prog)
        check(sys.stdout is top, "creating a block changes the output")
        if not user:
            check(armed() == 0, "creating a block starts an alarm")
        try:
            m.run(prog)
        except Violation:
            raise
        except BaseException:
            pass
        check(sys.stdout is top, "output not restored at the end")
        m.limits.clear()
        m.alarm_ok("at the end")
        if user:
            check(armed() > USER - 600, "the user's alarm was rescheduled")
            check(signal.getsignal(signal.SIGALRM) is user_handler, "user alarm handler")
        signal.setitimer(signal.ITIMER_REAL, 0)
        # every stream holds exactly the text printed to it, in order
        for stream, tokens in m.expected.values():
            text = stream.getvalue()
            where = -1
            for tok in tokens:
                check(text.count(tok + " ") == 1, f"{tok} emitted {text.count(tok + ' ')} times")
                check(text.index(tok + " ") > where, "output out of order")
                where = text.index(tok + " ")
        for h in logging.getLogger().handlers:
            h.flush()
        for path, ids in m.files.items():
            with open(path) as f:
                text = f.read()
            for i in set(ids):
                n = text.count(f"blk{i}")
                check(n == ids.count(i), f"block logged {n} times instead of {ids.count(i)}")
        g.tag(*[k for k, v in m.stats.items() if v], "log" if m.files else "nolog")
        g.nontrivial(m.stats["exceptions"] or m.stats["nested"])


@CHECK.sub(quick=600, rule="every generated case")
def messages(g):
    """What a single block prints."""
    style = g.choice(["{}", "{}\n", "\r{}", "{} {{0}} %d", "", None, "default", "two\nlines {}"],
                     "style")
    verbose, rebuffer = g.bool("verbose"), g.bool("rebuffer")
    how = g.choice(["normal", "normal", "error", "expire"], "how")
    with Sandbox() as box:
        top = sys.stdout = Stream()
        Timed.verbose, Timed.rebuffer = verbose, rebuffer
        log = os.path.join(box.dir, "a.log")
        inner = g.choice(["INNER", "INNER", "", "\n", " ", "\t \n", "INNER\r", "a\nb", "\u00e9{0}%d",
                          "x" * 100 + "\n"], "inner")
        earlier = g.choice([None, "", "earlier line\n"], "earlier content")
        if earlier is not None:
            with open(log, "w") as f:
                f.write(earlier)
        Timed.add_logfile(log)
        check((log in top.getvalue()) == verbose, "add_logfile() report")
        if g.bool("again"):
            Timed.add_logfile(g.choice([log, os.path.relpath(log)], "path"))
        top.truncate(0), top.seek(0)
        msg = style and style.format("mark")
        limit = g.choice([None, 60], "limit") if how != "expire" else 60
        block = (Timed(timelimit=limit) if style == "default" else Timed(msg, limit))
        text = "Running code block" if style == "default" else (msg or "").rstrip()
        check(block.message == text, "message")
        check(block.elapsed is None, "elapsed before the block")
        w0, c0 = time.monotonic(), time.process_time()
        cpu = 0.0
        try:
            with block:
                if not rebuffer:
                    check(top.getvalue().startswith(f"{text}...") == verbose or not text,
                          "message printed first")
                    check(verbose or top.getvalue() == "", "silent block printed")
                c1 = time.process_time()
                while time.process_time() < c1 + 0.002:
                    pass
                cpu = time.process_time() - c1
                print(inner, end="")
                if how == "error":
                    raise ValueError("boom")
                if how == "expire":
                    signal.raise_signal(signal.SIGALRM)
        except ValueError as ex:
            check(how == "error" and str(ex) == "boom", "unexpected exception")
        except TimeoutError as ex:
            check(how == "expire" and str(ex).startswith("TIMED OUT after "), "timeout message")
        else:
            check(how == "normal", "exception hidden")
            total = max(time.monotonic() - w0, time.process_time() - c0)
            check(cpu - 1e-3 <= block.elapsed <= total + 1e-3, "elapsed is the duration")
        out = top.getvalue()
        if inner == "INNER":
            check(out.count("INNER") == 1, "inner text once")
        if how == "normal":
            front = f"{text}..." + ("\n" if (msg or "").endswith("\n") else "")
            if verbose:
                check(out.startswith(front + inner), f"printed {out!r}, not {front + inner!r} first")
                tail = out[len(front + inner):]
                check(re.fullmatch(r"(done in \d+\.\d\d s\.\n?)?", tail), f"printed {tail!r}")
            if verbose and text:
                check(out.startswith(text + "...") and out.count(text + "...") == 1, "message")
                check(f"done in {block.elapsed:.2f} s." in out, "report")
                check(out.endswith("\n") == (not (msg or "").startswith("\r")), "line end")
            if not verbose:
                check(out == inner, f"silent block printed {out!r}")
        elif how == "error":
            check("ValueError: boom" in out, "exception reported")
        if how != "normal":
            check(inner in out, "text printed before an exception is lost")
        for h in logging.getLogger().handlers:
            h.flush()
        with open(log, newline="") as f:
            logged = f.read()
        check(logged.startswith(earlier or ""), "earlier content of the log file lost")
        logged = logged[len(earlier or ""):]
        check(re.match(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d  INFO:\t", logged), "format of the log")
        if text:
            check(logged.count(text) == 1, f"logged {logged.count(text)} times")
        check(("done in" in logged) == (how == "normal"), "log of completion")
        check(("boom" in logged) == (how == "error"), "log of the exception")
        check(("TIMED OUT" in logged) == (how == "expire"), "log of the timeout")
        g.tag(how, "verbose" if verbose else "silent", "buffered" if rebuffer else "direct")
        g.nontrivial()


@CHECK.sub(quick=200, rule="every generated case")
def threads(g):
    """Blocks in other threads: no time limit possible, output left alone."""
    limit = g.choice([None, None, 5], "limit")
    rebuffer = g.bool("rebuffer")
    result = {}
    with Sandbox():
        top = sys.stdout = Stream()
        Timed.rebuffer = rebuffer
        Timed.verbose = g.bool("verbose")

        def work():
            try:
                with Timed("in a thread", limit):
                    print("INNER")
            except BaseException as ex:
                result["ex"] = ex
        t = threading.Thread(target=work)
        t.start()
        t.join()
        check(sys.stdout is top, "output not restored")
        check(armed() == 0, "alarm left")
        if limit is None:
            check("ex" not in result, "block in a thread failed")
            check(top.getvalue().count("INNER") == 1, "text once")
        else:
            check(isinstance(result.get("ex"), ValueError) or "ex" not in result,
                  "time limit in a thread")
        g.nontrivial()


@CHECK.sub(quick=40, thorough=200, rule="every generated case")
def realtime(g):
    """Real seconds: limits fire when due and never after the block."""
    how = g.choice(["sleep", "loop", "left", "left-error", "outer-due", "inner-due", "swallowed",
                    "fraction", "zero"], "how")
    rebuffer = g.bool("rebuffer")
    with Sandbox():
        top = sys.stdout = Stream()
        Timed.rebuffer = rebuffer
        t0 = time.monotonic()

        def wait(seconds, busy=False):
            end = time.monotonic() + seconds
            while time.monotonic() < end:
                if not busy:
                    time.sleep(max(0.0, min(seconds, end - time.monotonic())))

        def timed_out(fn, lo, msg):
            ex = raises(TimeoutError, fn, msg)
            took = time.monotonic() - t0
            check(str(ex).startswith("TIMED OUT after "), msg + ": message")
            check(took >= lo - 0.05, f"{msg}: fired after only {took:.2f} s")
            check(sys.stdout is top, msg + ": output not restored")

        def block(limit, seconds, busy=False):
            with Timed("block", limit):
                wait(seconds, busy)

        if how in ("sleep", "loop"):
            timed_out(lambda: block(1, 20, how == "loop"), 1, "time limit")
        elif how in ("fraction", "zero"):
            timed_out(lambda: block(1.9 if how == "fraction" else 0.2, 20), 1, "rounded limit")
        elif how in ("left", "left-error"):
            try:
                with Timed("quick", 1):
                    if how == "left-error":
                        raise ValueError("boom")
            except ValueError:
                check(how == "left-error", "unexpected exception")
            try:
                wait(1.15)
            except TimeoutError:
                raise Violation("a time limit fired after its block was left")
        elif how == "outer-due":
            def nested():
                with Timed("outer", 1):
                    with Timed("inner", 30):
                        wait(0.1)
                    wait(20)
            timed_out(nested, 1, "outer limit after an inner block")
        elif how == "inner-due":
            def nested():
                with Timed("outer", 30):
                    with Timed("inner", 1):
                        wait(20)
            timed_out(nested, 1, "inner limit")
        elif how == "swallowed":
            seen = []

            def nested():
                with Timed("outer", 2):
                    try:
                        with Timed("inner", 1):
                            wait(20)
                    except TimeoutError:
                        seen.append(time.monotonic() - t0)
                    wait(20)
            timed_out(nested, 2, "outer limit after an inner timeout")
            check(len(seen) == 1 and seen[0] >= 0.95, "inner limit")
        check(armed() == 0, "alarm left")
        g.tag(how)
        g.nontrivial()
