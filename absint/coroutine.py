# -*- coding: utf-8 -*-
"""generators whose body must run in step with its consumer (endless generators, context managers):
the body is interpreted in a thread of its own, and exactly one of the two sides runs at any time"""
import threading

threading.stack_size(256 << 20)


class _Kill(BaseException):
    pass


class Coroutine(object):
    def __init__(self, I, fn, fr):
        self.I, self.fn, self.fr = I, fn, fr
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.thread = None
        self.value = None
        self.inject = None
        self.error = None
        self.done = False
        self.dead = False
        self.stack = []
        fr.yields = self
        I.coroutines.append(self)

    def __len__(self):
        return 0

    # ---- body side
    def body(self):
        self.go.acquire()
        try:
            if not self.dead:
                self.fn.body(self.fr)
        except _Kill:
            pass
        except BaseException as e:
            self.error = e
        self.done = True
        self.back.release()

    def append(self, v):
        self.value = v
        self.back.release()
        self.go.acquire()
        if self.dead:
            raise _Kill()
        if self.inject is not None:
            e, self.inject = self.inject, None
            raise e

    # ---- consumer side
    def resume(self, inject=None):
        """next value as a tuple, or None at the end"""
        if self.done:
            return None
        if self.thread is None:
            self.thread = threading.Thread(target=self.body, daemon=True)
            self.thread.start()
        self.inject = inject
        old = self.I.stack
        if not self.stack:
            self.stack.append(self.fn)
        self.I.stack = self.stack
        self.go.release()
        self.back.acquire()
        self.I.stack = old
        if self.error is not None:
            e, self.error = self.error, None
            raise e
        return None if self.done else (self.value,)

    def __iter__(self):
        while True:
            r = self.resume()
            if r is None:
                return
            self.I.tick()
            yield r[0]

    def kill(self):
        if self.thread is not None and not self.done:
            self.dead = True
            self.go.release()
            self.back.acquire()
            self.thread.join()
