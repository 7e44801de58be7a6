"""Injected preemptions: at lines of the package a thread gives up the
interpreter with a given probability, and the switches are recorded."""

import random
import sys
import threading
import time
import zlib

TOOL = 4
mon = sys.monitoring


class Preempt:
    def __init__(self, root, seed, prob, hot=0.04, favour=""):
        """Some functions (a share `hot` of them, and half of those in files
        named `favour`) are preempted often and for a longer time."""
        self.root, self.prob = root, prob
        self.seed, self.share, self.favour = seed, hot, favour
        self.hot = {}
        self.nhot = 0
        self.rnd = random.Random(seed)
        self.last = None
        self.switches = []
        self.nlines = 0
        self.threads = set()

    def line(self, code, lineno):
        if not code.co_filename.startswith(self.root):
            return mon.DISABLE
        me = threading.get_ident()
        self.nlines += 1
        if me != self.last:
            self.threads.add(me)
            if self.last is not None and len(self.switches) < 400:
                self.switches.append((code.co_name, lineno))
            self.last = me
        hot = self.hot.get(code)
        if hot is None:
            x = zlib.crc32(f"{self.seed}-{code.co_qualname}".encode()) / 2**32
            like = self.favour and self.favour in code.co_filename
            hot = self.hot[code] = x < (0.5 if like else self.share)
        if hot and self.nhot < 400 and self.rnd.random() < 0.4:
            self.nhot += 1
            time.sleep(0.0003)
        elif self.rnd.random() < self.prob:
            time.sleep(0.00002)

    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        mon.use_tool_id(TOOL, "rfv")
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        mon.set_events(TOOL, mon.events.LINE)
        return self

    def __exit__(self, *_):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        mon.restart_events()
        sys.setswitchinterval(self.old)
