"""A wall clock tied to a virtual event loop."""
import datetime as _dt
import math
import time as _time

_REAL_DT = _dt.datetime
_REAL_TIME = _time.time


class WallClock:
    """time.time() and datetime.now() follow loop.time() + offset."""

    def __init__(self, loop, offset, modules=None):
        self.loop = loop
        self.offset = offset
        if modules is None:
            import aiomisc.cron
            modules = [aiomisc.cron]
        self.modules = modules

    def now(self):
        return self.loop.time() + self.offset

    def next_second(self, t):
        """first whole second (in loop time) strictly later than loop time t"""
        return math.floor(round(t + self.offset, 6)) + 1 - self.offset

    def __enter__(self):
        clock = self

        class FakeDatetime(_REAL_DT):
            @classmethod
            def now(cls, tz=None):
                return _REAL_DT.fromtimestamp(clock.now(), tz)

            @classmethod
            def utcnow(cls):
                return _REAL_DT.fromtimestamp(clock.now(), _dt.timezone.utc).replace(tzinfo=None)

        self.saved = []
        for m in self.modules:
            if getattr(m, "datetime", None) is _REAL_DT:
                self.saved.append((m, "datetime", _REAL_DT))
                m.datetime = FakeDatetime
            if getattr(m, "time", None) is _REAL_TIME:
                self.saved.append((m, "time", _REAL_TIME))
                m.time = self.now
        _time.time = self.now
        return self

    def __exit__(self, *a):
        _time.time = _REAL_TIME
        for m, n, v in self.saved:
            setattr(m, n, v)
