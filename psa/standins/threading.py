"""Stand-in of threading: the actions of the other threads happen when a lock is acquired and after it was released.

Nothing of another thread happens while a lock is held by this one; INTERFERENCE is the list of the actions another
thread makes, one before each outermost acquisition and one after each outermost release.
"""

INTERFERENCE = []
ACQUIRED = []
HELD = []


def other_thread():
    if INTERFERENCE:
        action = INTERFERENCE.pop(0)
        if action is not None:
            HELD.append(None)
            action()
            HELD.pop()


class Lock:
    def acquire(self, blocking=True, timeout=-1):
        if not HELD:
            other_thread()
            ACQUIRED.append(self)
        HELD.append(self)
        return True

    def release(self):
        HELD.pop()
        if not HELD:
            other_thread()

    def locked(self):
        return self in HELD

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


class RLock(Lock):
    pass
