"""Threads which perform what they are told, one thing at a time."""
import queue
import threading


class Thread(object):

    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put(('ok', f()))
            except BaseException as e:
                self.r.put(('err', e))

    def do(self, f):
        self.start(f)
        return self.result()

    def start(self, f):
        self.q.put(f)

    def result(self):
        kind, r = self.r.get()
        if kind == 'err':
            raise r
        return r

    def stop(self):
        self.q.put(None)
