'''A controlled scheduler: real threads of which one runs at a time, which one being
decided at every scheduling point (locks, events, thread starts, and whatever the
harness adds).  Executions are enumerated by iterative context bounding.'''
import sys
import threading as real_threading
import thread as real_thread
from java.util.concurrent import Semaphore, TimeUnit
from java.lang import Thread as JThread, Runnable, Throwable


class Abort(BaseException):
  'ends a thread of an execution that is given up'


class Diverged(Exception):
  pass


class T(object):
  def __init__(self, n, name):
    self.n, self.name = n, name
    self.sem = Semaphore(0)
    self.wait = None        # what it waits for: a function that says when it may go on
    self.done = False
    self.error = None


class Execution(object):
  HORIZON = 4000

  def __init__(self, prefix=()):
    self.prefix = list(prefix)
    self.points = []        # (choices, still enabled, chosen)
    self.threads = []
    self.finished = Semaphore(0)
    self.aborting = False
    self.deadlock = None
    self.diverged = None
    self.outside = False
    self.log = []
    self.by_id = {}

  # -- threads
  def spawn(self, f, name):
    t = T(len(self.threads), name)
    self.threads.append(t)
    ex = self
    class R(Runnable):
      def run(self):
        ex.by_id[real_thread.get_ident()] = t
        try:
          t.sem.acquire()
          try:
            if not ex.aborting:
              f()
          except Abort:
            pass
          except SystemExit:
            pass
          except (Exception, Throwable), e:
            t.error = e
            ex.log.append(('crash', t.name, '%s: %s' % (type(e).__name__, e)))
        finally:
          t.done = True
          ex.leave()
    j = JThread(R())
    j.setDaemon(True)
    j.start()
    return t

  def me(self):
    return self.by_id.get(real_thread.get_ident())

  def enabled(self):
    r = []
    for t in self.threads:
      if not t.done and (t.wait is None or t.wait()):
        r.append(t)
    return r

  def choose(self, n, still, kind='thread'):
    i = len(self.points)
    c = 0
    if i < len(self.prefix):
      c = self.prefix[i]
      if c >= n:
        self.diverged = 'choice %d of %d at point %d' % (c, n, i)
        c = 0
    self.points.append((n, still, c, kind))
    if i > self.HORIZON:
      self.deadlock = 'no end within %d points' % self.HORIZON
      self.give_up()
    return c

  def environment(self, options):
    'which of the answers the environment gives'
    if self.me() is None:
      return options[0]
    return options[self.choose(len(options), True, 'environment')]

  def give_up(self):
    self.aborting = True
    for t in self.threads:
      t.sem.release()
    if self.me() is not None:
      raise Abort()

  def point(self):
    t = self.me()
    if t is None or self.aborting:
      if t is not None:
        raise Abort()
      return
    self.switch(t)

  def block(self, until):
    t = self.me()
    if t is None:
      return
    if self.aborting:
      raise Abort()
    t.wait = until
    self.switch(t)
    t.wait = None

  def switch(self, t):
    go = self.enabled()
    if not go:
      self.deadlock = 'deadlock: ' + ', '.join(x.name for x in self.threads if not x.done)
      self.give_up()
    if t in go:
      go.remove(t)
      go.insert(0, t)
    nxt = go[len(go) > 1 and self.choose(len(go), go[0] is t) or 0]
    if nxt is not t:
      nxt.sem.release()
      t.sem.acquire()
      if self.aborting:
        raise Abort()

  def leave(self):
    'the running thread has ended'
    if self.aborting:
      if [t for t in self.threads if not t.done]:
        return
      self.finished.release()
      return
    if not [t for t in self.threads if not t.done]:
      self.finished.release()
      return
    go = self.enabled()
    if not go:
      self.deadlock = 'deadlock: ' + ', '.join(x.name for x in self.threads if not x.done)
      self.aborting = True
      for t in self.threads:
        t.sem.release()
      return
    try:
      nxt = go[len(go) > 1 and self.choose(len(go), False) or 0]
    except Abort:
      return
    nxt.sem.release()

  def run(self, body):
    global CURRENT
    CURRENT = self
    first = self.spawn(body, 'main')
    first.sem.release()
    if not self.finished.tryAcquire(60, TimeUnit.SECONDS):
      self.deadlock = 'a thread waits outside the scheduler'
      self.outside = True
    CURRENT = None
    return self


CURRENT = None


def point():
  if CURRENT is not None:
    CURRENT.point()


# ------------------------------------------------------- what the code gets
class Lock(object):
  REENTRANT = False

  def __init__(self, *args):
    self.owner, self.count, self.execution = None, 0, None

  def fresh(self):
    if self.execution is not CURRENT:
      self.execution, self.owner, self.count = CURRENT, None, 0

  def acquire(self, blocking=True, timeout=-1):
    self.fresh()
    ex = CURRENT
    if ex is None or ex.me() is None:
      return True
    t = ex.me()
    ex.point()
    if self.REENTRANT and self.owner is t:
      self.count += 1
      return True
    if self.owner is not None:
      if not blocking:
        return False
      while self.owner is not None:
        ex.block(lambda: self.owner is None)
    self.owner, self.count = t, 1
    return True

  def release(self):
    self.fresh()
    ex = CURRENT
    if ex is None or ex.me() is None or ex.aborting:
      return
    if self.owner is None or (self.REENTRANT and self.owner is not ex.me()):
      raise RuntimeError('release of a lock not held')
    self.count -= 1
    if self.count == 0:
      self.owner = None

  def locked(self):
    return self.owner is not None

  __enter__ = acquire
  def __exit__(self, *args):
    self.release()


class RLock(Lock):
  REENTRANT = True


class Condition(object):
  def __init__(self, lock=None):
    self.lock = lock or RLock()
    self.acquire, self.release = self.lock.acquire, self.lock.release
    self.waiting = []

  def __enter__(self):
    return self.lock.acquire()

  def __exit__(self, *args):
    self.lock.release()

  def wait(self, timeout=None):
    count, token = self.lock.count, [False]
    self.waiting.append(token)
    self.lock.owner, self.lock.count = None, 0
    if timeout is None:
      CURRENT.block(lambda: token[0])
    else:
      CURRENT.point()
    while self.lock.owner is not None:
      CURRENT.block(lambda: self.lock.owner is None)
    self.lock.owner, self.lock.count = CURRENT.me(), count

  def notify(self, n=1):
    for token in self.waiting[:n]:
      token[0] = True
    del self.waiting[:n]

  def notifyAll(self):
    self.notify(len(self.waiting))
  notify_all = notifyAll


class Event(object):
  def __init__(self):
    self.flag = False

  def is_set(self):
    point()
    return self.flag
  isSet = is_set

  def set(self):
    point()
    self.flag = True

  def clear(self):
    self.flag = False

  def wait(self, timeout=None):
    point()
    if not self.flag and timeout is None:
      CURRENT.block(lambda: self.flag)
    return self.flag


def start(f, args=(), kw={}):
  if CURRENT is None or CURRENT.me() is None:
    return real_thread.start_new_thread(f, args, kw)
  CURRENT.spawn(lambda: f(*args, **kw), 'thread%d' % len(CURRENT.threads))
  point()
  return len(CURRENT.threads)


class Thread(object):
  def __init__(self, group=None, target=None, name=None, args=(), kwargs=None):
    self.target, self.args, self.kwargs = target, args, kwargs or {}
    self.daemon, self.t = False, None
    self.name = name

  def setDaemon(self, flag):
    self.daemon = flag

  def run(self):
    if self.target:
      self.target(*self.args, **self.kwargs)

  def start(self):
    self.t = CURRENT.spawn(self.run, self.name or 'thread%d' % len(CURRENT.threads))
    point()

  def isAlive(self):
    return self.t is not None and not self.t.done
  is_alive = isAlive

  def join(self, timeout=None):
    point()
    if timeout is None:
      CURRENT.block(lambda: self.t.done)


class Module(object):
  def __init__(self, real, **kw):
    self.__dict__.update(kw)
    self.__dict__['real'] = real

  def __getattr__(self, name):
    return getattr(self.real, name)


fake_threading = Module(real_threading, Lock=Lock, RLock=RLock, Condition=Condition, Event=Event, Thread=Thread)


def exit_thread():
  raise SystemExit()


def ident():
  if CURRENT is not None and CURRENT.me() is not None:
    return CURRENT.me().n
  return real_thread.get_ident()


fake_thread = Module(real_thread, start_new_thread=start, start_new=start, allocate_lock=Lock, exit=exit_thread,
                     get_ident=ident)


def import_under(name):
  'imports a module so that the threads and locks it makes are ours'
  saved = dict((k, sys.modules.get(k)) for k in ('threading', 'thread'))
  sys.modules['threading'], sys.modules['thread'] = fake_threading, fake_thread
  try:
    __import__(name)
  finally:
    for k, m in saved.items():
      if m is None:
        del sys.modules[k]
      else:
        sys.modules[k] = m
  return sys.modules[name]


# ---------------------------------------------------------------- exploration
def explore(run, check, bound, mine=lambda: True):
  '''run(prefix) -> Execution.  Enumerates every execution with at most bound
  deviations (preemptions and unusual answers of the environment).  mine() deals
  the branches off the first execution out over the shards.'''
  stack = [()]
  count = points = 0
  while stack:
    prefix = stack.pop()
    ex = run(prefix)
    if ex.diverged:
      raise Diverged(ex.diverged)
    if prefix or mine():
      count += 1
      points += len(ex.points)
    check(ex, [p[2] for p in ex.points])
    cost = 0
    costs = []
    for n, still, c, kind in ex.points:
      costs.append(cost)
      if c and (still or kind == 'environment'):
        cost += 1
    for i in range(len(ex.points) - 1, len(prefix) - 1, -1):
      n, still, c, kind = ex.points[i]
      deviation = (still or kind == 'environment') and 1 or 0
      if costs[i] + deviation > bound:
        continue
      for alt in range(1, n):
        if prefix or mine():
          stack.append(tuple([p[2] for p in ex.points[:i]] + [alt]))
  return count, points
