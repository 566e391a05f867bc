"""C29: every record shape through the JSON formatter."""
import io
import json
import logging
import math
import pickle
import traceback
from collections import OrderedDict, namedtuple
from datetime import datetime
from enum import IntEnum
from logging.handlers import QueueHandler

from aiomisc_log import LogFormat, create_logging_handler
from aiomisc_log.formatter.json import JSONLogFormatter, json_handler
from mc.core import Violation
from mc.run import Unit

PROPERTY = "C29"
ASSUMPTIONS = [
    "extra fields are attributes of the record whose names do not start with an underscore, are "
    "not None and are not the names of fields the formatter itself writes",
    "the default serialiser of the formatter is used",
]
CUSTOM = 25
logging.addLevelName(17, "TRACE")
LEVELS = {10: "debug", 20: "info", 30: "warn", 40: "error", 50: ("crit", "fatal"), 0: None,
          CUSTOM: "level 25", 17: "trace"}
OWN = {"errno", "code_file", "code_func", "code_line", "code_module", "identifier", "message_raw",
       "pid", "process_name", "thread_name"}


class BadRepr:
    def __repr__(self):
        raise ValueError("no repr")


class BadStr:
    def __str__(self):
        raise ValueError("no str")

    def __repr__(self):
        return "<badstr>"


class Falsy(Exception):
    def __bool__(self):
        return False


class BadError(Exception):
    def __str__(self):
        raise ValueError("no str")


class Color(IntEnum):
    red = 1


Pt = namedtuple("Pt", "x y")
CIRCULAR = {"a": 1}
CIRCULAR["self"] = CIRCULAR
DEEP = []
for _ in range(3000):
    DEEP = [DEEP]
MESSAGES = {
    "plain": ("hello", ()),
    "empty": ("", ()),
    "percent": ("100%", ()),
    "args": ("a %s b %d", ("x", 3)),
    "named": ("a %(k)s", ({"k": "v\n"},)),
    "emptydict": ("a %s", ({},)),
    "repr": ("a %r", (BadStr(),)),
    "tuple": ("a %s", ((1, 2),)),
    "list": ("a %s", ([1, "q"],)),
    "none": ("a %s", (None,)),
    "lines": ("first\nsecond\r\n\x00 \"q\" \\ \u2028 \x85 привет %s", ("\n",)),
    "object": (Pt(1, 2), ()),
    "exc": (ValueError("bad\nvalue"), ()),
    "int": (42, ()),
    "surrogate": ("\ud800", ()),
    "float": ("a %.1f", (float("nan"),)),
}
VALUES = {
    "str": "v", "lines": "a\nb\r", "int": 1, "zero": 0, "false": False, "empty": "",
    "big": 10 ** 30, "huge": 10 ** 5000, "float": 0.5, "nan": math.nan, "inf": -math.inf,
    "none": None, "list": [1, None, "x"], "tuple": (1, (2,)), "set": {1}, "bytes": b"\xff",
    "dict": {"a": {"b": [1]}}, "intkeys": {1: "x", None: 2, True: 3}, "tuplekeys": {(1, 2): {"k": 1}},
    "bytekeys": OrderedDict([(b"k", b"v")]), "nankey": {math.nan: 1}, "badkey": {BadRepr(): 1},
    "badrepr": BadRepr(), "badstr": BadStr(), "nestedbad": {"a": [BadRepr(), 2]},
    "nestednan": [{"x": math.nan}, 1], "circular": CIRCULAR, "deep": DEEP, "enum": Color.red,
    "namedtuple": Pt(1, math.inf), "datetime": datetime(2020, 1, 2), "class": BadStr,
    "exception": KeyError("k"), "generator": iter(()), "level": logging.INFO,
}
KEYS = ("user", "a b", "", "\n", "_private", "errno", "pid", "code_file", "identifier", "argument_0",
        "ключ", "argument_count", "arguments", "message_raw", "level", "@fields", "stackTrace", "msg2", 7, (1, 2), None, 1.5)
ERRORS = ("no", "simple", "chained", "none3", "badstr", "group", "falsy", "lines", "notb", "nested",
          "false", "emptytuple")


def exc_info(kind):
    if kind == "no":
        return None
    if kind == "false":              # log.error("...", exc_info=False)
        return False
    if kind == "emptytuple":
        return ()
    if kind == "none3":
        return (None, None, None)
    if kind == "notb":
        return (ValueError, ValueError("notb"), None)
    try:
        try:
            if kind == "chained":
                raise KeyError("first")
        except KeyError as e:
            raise ValueError("second") from e
        raise {"simple": ValueError("boom"), "badstr": BadError(), "falsy": Falsy("f"),
               "lines": ValueError("a\nb\r"), "nested": RuntimeError(ValueError("x")),
               "group": ExceptionGroup("g", [ValueError("in"), KeyError("k")])}[kind]
    except Exception as e:
        return (type(e), e, e.__traceback__)


def strict(line):
    def bad(x):
        raise Violation("not JSON: %s" % x, "constant")
    try:
        return json.loads(line, parse_constant=bad)
    except ValueError as e:
        raise Violation("not JSON: %s: %.80r" % (e, line), "invalid")


def same(value, got, depth=10):
    """Whether the parsed value stands for the original one."""
    if value is None or isinstance(value, (bool, str)):
        return type(got) is type(value) and got == value
    if isinstance(value, int):
        return got == value if abs(value) < 10 ** 1000 else isinstance(got, (str, int))
    if isinstance(value, float):
        return got == value if math.isfinite(value) else isinstance(got, str)
    if isinstance(got, str):               # the representation
        try:
            return got == repr(value) or not scalar(value)
        except Exception:
            return True
    if isinstance(value, dict):
        if not isinstance(got, dict) or len(got) != len(value):
            return False
        return not depth or all(
            (k == g or not isinstance(k, str)) and same(v, w, depth - 1)
            for (k, v), (g, w) in zip(value.items(), got.items()))
    if isinstance(value, (list, tuple)):
        return isinstance(got, list) and len(got) == len(value) and (
            not depth or all(same(v, w, depth - 1) for v, w in zip(value, got)))
    return False


def scalar(value):
    """Whether the value has no structure of its own to be preserved."""
    return not isinstance(value, (list, tuple, dict)) or value is CIRCULAR or value is DEEP


def check_line(line, record, datefmt, extra):
    if "\n" in line or "\r" in line:
        raise Violation("more than one line: %r" % line, "lines")
    data = strict(line)
    fields = data.get("@fields")
    if not isinstance(fields, dict):
        raise Violation("no fields: %r" % data, "fields")
    message = record.getMessage()
    if data.get("msg") != message:
        raise Violation("message %r instead of %r" % (data.get("msg"), message), "message")
    if record.levelno not in LEVELS:
        raise Violation("level", "level")
    level = LEVELS[record.levelno]
    if data.get("level", 0) not in (level if isinstance(level, tuple) else (level,)):
        raise Violation("level %r instead of %r" % (data.get("level"), level), "level")
    if fields.get("identifier") != record.name:
        raise Violation("logger %r" % fields.get("identifier"), "logger")
    for field, attr, conv in (("code_file", "filename", str), ("code_line", "lineno", int),
                              ("code_func", "funcName", str), ("code_module", "module", str),
                              ("pid", "process", int), ("process_name", "processName", str),
                              ("thread_name", "threadName", str)):
        v = getattr(record, attr)
        try:
            want = v if v is None else conv(v)
        except Exception:
            if field not in fields:
                raise Violation("no %s" % field, "location")
            continue
        if v is not None and fields.get(field) != want:
            raise Violation("%s is %r instead of %r" % (field, fields.get(field), v), "location")
    for key, value in extra.items():
        if value is None or not isinstance(key, str) or key.startswith("_") or key in OWN or \
                key in ("argument_0", "argument_1"):
            continue
        if key not in fields:
            raise Violation("extra field %r is missing" % key, "extra-missing")
        if not same(value, fields[key]):
            raise Violation("extra field %r is %.60r" % (key, fields[key]), "extra")
    for key, value in extra.items():
        if not isinstance(key, str) and value is not None and len(fields) <= len(OWN):
            raise Violation("extra field %r is missing" % (key,), "extra-missing")
    for key in OWN - {"errno"}:
        if key not in fields:
            raise Violation("no %s" % key, "own")
    if record.exc_info:
        text = data.get("stackTrace")
        if not isinstance(text, str):
            raise Violation("no traceback", "traceback")
        for want in traceback.format_exception(*record.exc_info):
            if want.strip() not in text:
                raise Violation("traceback lacks %r: %r" % (want, text), "traceback")
    elif "stackTrace" in data:
        raise Violation("traceback without exception", "traceback")
    if bool(record.exc_info) != bool(fields["errno"]):
        raise Violation("errno %r" % fields["errno"], "errno")
    if datefmt and datefmt is not Ellipsis:
        ts = data.get("@timestamp")
        want = record.created if datefmt == "%s" else logging.Formatter().formatTime(record, datefmt)
        if ts != want:
            raise Violation("time stamp %r instead of %r" % (ts, want), "timestamp")
    elif "@timestamp" in data:
        raise Violation("time stamp %r" % data["@timestamp"], "timestamp")
    return data


def make(level, message, error, extra, sinfo=None):
    msg, args = MESSAGES[message]
    r = logging.LogRecord("some.logger", level, "/src/mod.py", 12, msg, args, exc_info(error),
                          func="func", sinfo=sinfo)
    r.__dict__.update(extra)
    return r


def change(record, kind):
    """What logging options, filters and transports do to records."""
    if kind == "noprocess":
        record.process = record.processName = None
    elif kind == "nothread":
        record.thread = record.threadName = None
    elif kind == "nofunc":
        record.funcName = None
    elif kind == "strline":
        record.lineno = "7"
    elif kind == "formatted":
        logging.Formatter("%(asctime)s %(message)s").format(record)
    elif kind == "prepared":
        record = QueueHandler(None).prepare(record)
    elif kind == "noargs":
        record.msg, record.args = record.getMessage(), None
    elif kind == "stack":
        record.stack_info = "Stack (most recent call last):\n  x"
    elif kind == "pickled":
        q = QueueHandler(None).prepare(record)
        record = pickle.loads(pickle.dumps(q))
    elif kind == "made":
        record = logging.makeLogRecord({k: v for k, v in record.__dict__.items()
                                        if k not in ("process", "thread", "taskName")})
    elif kind == "badline":
        record.lineno = "?"
    elif kind == "badprocess":
        record.process = "worker-1"
    elif kind == "badfile":
        record.filename = BadStr()
    elif kind == "scalarargs":
        if isinstance(record.args, tuple) and len(record.args) == 1:
            record.args = record.args[0]
    elif kind == "listargs":
        if isinstance(record.args, tuple) and len(record.args) == 1:
            record.args = list(record.args)
    return record


CHANGES = ("no", "noprocess", "nothread", "nofunc", "strline", "formatted", "prepared", "noargs",
           "stack", "pickled", "made", "listargs",
           "scalarargs", "badline", "badprocess", "badfile")


def renders(record):
    try:
        record.getMessage()
    except Exception:
        return False
    return True


def one(ch, levels, messages, errors, datefmts, keys, values, changes=("no",), n=1, first=...):
    level = ch.pick(levels, "level")
    message = ch.pick(messages, "message")
    error = ch.pick(errors, "error")
    datefmt = ch.pick(datefmts, "datefmt")
    extra = {}
    for i in range(n):
        if keys:
            extra[first if first is not ... and not i else ch.pick(keys, "key")] = VALUES[ch.pick(values, "value")]
    how = ch.pick(changes, "change")
    record = change(make(level, message, error, extra), how)
    if not renders(record):
        return "unrenderable"
    before = dict(record.__dict__)
    try:
        line = JSONLogFormatter(datefmt=datefmt).format(record)
    except Violation:
        raise
    except BaseException as e:
        raise Violation("%s: %s" % (type(e).__name__, str(e)[:80]), "raised")
    if {k: id(v) for k, v in record.__dict__.items()} != {k: id(v) for k, v in before.items()}:
        raise Violation("the record was changed", "changed")
    data = check_line(line, record, datefmt, extra)
    ch.observe("line", (message, data["level"], error, tuple(sorted(data["@fields"]))))
    return sorted(data)


def stream(ch, via, n):
    """Records written by the configured handler: one line each."""
    out = io.StringIO()
    h = json_handler(out, "%s") if via == "handler" else create_logging_handler(
        LogFormat.json, date_format="%s", stream=out)
    errors = []
    h.handleError = lambda record: errors.append(record)
    log = logging.Logger("some.logger")
    log.addHandler(h)
    records = []
    disabled = log.manager.disable
    log.manager.disable = 0
    log.addFilter(lambda r: records.append(r) or True)
    for i in range(n):
        msg, args = MESSAGES[ch.pick(sorted(set(MESSAGES) - {"surrogate"}), "message")]
        log.log(ch.pick((20, CUSTOM), "level"), msg, *args,
                exc_info=exc_info(ch.pick(("no", "chained"), "error")), extra={"k": i})
    log.manager.disable = disabled
    if errors:
        raise Violation("record was not written", "unwritten")
    lines = out.getvalue().split("\n")
    if lines.pop() or len(lines) != n:
        raise Violation("%d lines for %d records" % (len(lines), n), "lines")
    for i, (line, r) in enumerate(zip(lines, records)):
        check_line(line, r, "%s", {"k": i})
    return n


def units(tier):
    deep = tier == "thorough"
    cap = 400000

    def add(name, *a, w=1, **kw):
        return Unit(name, lambda ch: one(ch, *a, **kw), bound=0, cap=cap, weight=w)

    every = tuple(VALUES)
    yield add("shapes", tuple(LEVELS), tuple(MESSAGES), ERRORS, (None, "", "%s", "%Y-%m-%d", "[%X]",
              Ellipsis), (), (), w=6)
    for e in ERRORS:
        yield add("extra %s" % e, (20, CUSTOM), ("plain", "named"), (e,), (None, "%s"), KEYS, every, w=3)
    for c in CHANGES:
        yield add("changed %s" % c, tuple(LEVELS) if deep else (20, CUSTOM), tuple(MESSAGES), ERRORS,
                  (None, "%s"), ("user", "note"), ("str", "badrepr", "dict"), changes=(c,), w=3)
    for k in KEYS:
        yield add("two extras %r" % (k,), (20,), ("args",), ("no",), (None,),
                  ("user", "pid", 7, "") if not deep else KEYS, every if deep else
                  ("str", "tuplekeys", "circular", "nan"), n=2, first=k, w=2)
    for via in ("handler", "format"):
        yield Unit("stream %s" % via, lambda ch, via=via: stream(ch, via, 2), bound=0, cap=cap, weight=5)
        if deep:
            yield Unit("stream 3 %s" % via, lambda ch, via=via: stream(ch, via, 3), bound=0, cap=cap, weight=9)
