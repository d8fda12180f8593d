"""Virtual-time event loop. All tasks, timers and simulated I/O of all nodes run on one instance of it."""
import asyncio
import collections
import heapq


class Hang(KeyboardInterrupt):
    """Raised out of code that burns CPU without ever returning to the loop."""


class SimLoop(asyncio.AbstractEventLoop):
    def __init__(self):
        self._now = 0.0
        self._heap = []
        self._seq = 0
        self._ready = collections.deque()
        self.steps = 0
        self.on_task = None            # hook: called with every created task
        self.errors = []               # contexts given to the exception handler
        self.hang = False

    # -- scheduling
    def time(self):
        return self._now

    def call_soon(self, callback, *args, context=None):
        h = asyncio.Handle(callback, args, self, context)
        self._ready.append(h)
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(self._now + max(0.0, delay), callback, *args, context=context)

    def call_at(self, when, callback, *args, context=None):
        h = asyncio.TimerHandle(when, callback, args, self, context)
        self._seq += 1
        heapq.heappush(self._heap, (max(when, self._now), self._seq, h))
        return h

    def _timer_handle_cancelled(self, handle):
        pass

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        task = asyncio.Task(coro, loop=self, name=name or "sim", context=context)
        if self.on_task is not None:
            self.on_task(task)
        return task

    def get_debug(self):
        return False

    def set_debug(self, enabled):
        pass

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def call_exception_handler(self, context):
        self.errors.append(str(context.get("message")))

    def default_exception_handler(self, context):
        self.call_exception_handler(context)

    # -- running
    def step(self, until=None):
        """Run one event. Returns False if there is none (before ``until``)."""
        if self.hang:
            raise Hang()
        if not self._ready:
            while self._heap and self._heap[0][2]._cancelled:
                heapq.heappop(self._heap)
            if not self._heap:
                return False
            when = self._heap[0][0]
            if until is not None and when > until:
                return False
            self._now = when
            self._ready.append(heapq.heappop(self._heap)[2])
        h = self._ready.popleft()
        self.steps += 1
        if not h._cancelled:
            h._run()
        return True

    def run_until(self, pred, max_time=None, max_steps=50000):
        """Run until ``pred()``. Returns whether that was reached within the limits."""
        steps = self.steps + max_steps
        while not pred():
            if self.steps >= steps or not self.step(max_time):
                return pred()
        return True

    def run_for(self, duration, max_steps=200000):
        end = self._now + duration
        steps = self.steps + max_steps
        while self.steps < steps and self.step(end):
            pass
        self._now = max(self._now, end)
        return self.steps < steps
