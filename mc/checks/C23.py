'''A session with a server: messages reach the subscribers, in order, and closing and
(un)registering work, under every interleaving of the listener with its users.

The real Session runs on threads that the scheduler of sched.py switches; telnetlib is
replaced by a scripted server.  Every schedule with at most B preemptions (and unusual
answers of the network) is executed.'''
import logging
import socket
import telnetlib
import sched
from java.lang import Thread as JThread

logging.disable(logging.CRITICAL)
session = sched.import_under('bglib.protocol.session')
fibs = session.bglib.protocol.fibs

MESSAGES = {'p': ('login: ', 'FIBS_LoginPrompt'), 'w': ('1 bob 1207724539 host', 'CLIP_WELCOME'),
            'm': ('3', 'CLIP_MOTD_BEGIN'), 't': (' hello\r', 'FIBS_MOTD'), 'u': ('\nthere ', 'FIBS_MOTD'),
            'e': ('4', 'CLIP_MOTD_END'), 'y': ('zed moves 24-18 .', 'FIBS_PlayerMoves')}
ALL = sorted(set([n for m, n in MESSAGES.values()])) + ['EOFError', 'socket_error']


class Wire(object):
  'the server: what it sends, and what it was sent'
  def __init__(self, ex, script, ends):
    self.ex, self.script, self.ends = ex, list(script), ends
    self.sent, self.closed = [], False


class Points(list):
  '''the list of subscribers, with a scheduling point at every access that is
  not part of an operation which the list carries out in one piece'''
  def point(self):
    if not JThread.holdsLock(self):
      sched.point()

  def append(self, x):
    self.point()
    list.append(self, x)

  def remove(self, x):
    self.point()
    list.remove(self, x)

  def __contains__(self, x):
    self.point()
    return list.__contains__(self, x)

  def __getitem__(self, i):
    self.point()
    return list.__getitem__(self, i)

  def __len__(self):
    self.point()
    return list.__len__(self)

  def __iter__(self):
    i = 0
    while True:
      self.point()
      if i >= list.__len__(self):
        return
      yield list.__getitem__(self, i)
      i += 1


# the scripted server in place of the network
def t_init(self, *args, **kw):
  self.eof, self.sock = 0, None

def t_open(self, host, port=0, timeout=None):
  sched.point()

def t_expect(self, patterns, timeout=None):
  w = self.wire
  w.ex.log.append(('idle', self.label))
  sched.point()
  if w.closed or (not w.script and w.ends):
    return gone(w)
  if not w.script:
    sched.CURRENT.block(lambda: w.closed or w.ends)
    return gone(w)
  k = w.script.pop(0)
  w.ex.log.append(('recv', self.label, k))
  m = MESSAGES[k][0]
  if m == 'login: ':
    return 1, None, m
  return 0, None, m + '\r\n'

def gone(w):
  answer = w.ex.environment(('eof', 'reset', 'attribute'))
  if answer == 'reset':
    raise socket.error('connection reset')
  if answer == 'attribute' and w.closed:
    raise AttributeError("'int' object has no attribute 'recv'")
  raise EOFError('telnet connection closed')

def t_write(self, data):
  half = len(data) // 2
  for part in (data[:half], data[half:]):
    sched.point()
    self.wire.sent.append(part)

def t_close(self):
  sched.point()
  self.wire.closed = True
  sched.point()

for name, f in (('__init__', t_init), ('open', t_open), ('expect', t_expect), ('write', t_write), ('close', t_close),
                ('set_debuglevel', lambda self, level: None), ('__del__', lambda self: None)):
  setattr(telnetlib.Telnet, name, f)


class Watched(session.Session):
  'every change of a flag is a scheduling point too'
  def __setattr__(self, name, value):
    sched.point()
    self.__dict__[name] = value


class Sub(session.Subscriber):
  '''logs the messages it is given; acts: what it does on the nth of them'''
  def __init__(self, ex, s, label, acts=None, names=ALL):
    session.Subscriber.__init__(self)
    self.ex, self.s, self.label, self.acts = ex, s, label, acts or {}
    self.n = 0
    for name in names:
      setattr(self, name, self.handler(name))

  def handler(self, name):
    def f(got):
      log = self.ex.log
      text = isinstance(got, (str, unicode)) and str(got) or name
      log.append(('call', self.label, name, text, self.ex.me().n))
      sched.point()
      act = self.acts.get(self.n)
      self.n += 1
      if act:
        act()
      log.append(('return', self.label, name, text, self.ex.me().n))
    return f


class Scene(object):
  def __init__(self, ex, script, ends=False, label='A'):
    self.ex, self.label = ex, label
    s = Watched()
    s.label = label
    s.wire = self.wire = Wire(ex, script, ends)
    if isinstance(s.subscribers, list):
      s.subscribers = Points(s.subscribers)
    self.s = s
    ex.scenes.append(self)

  def sub(self, label, acts=None, names=ALL):
    return Sub(self.ex, self.s, label, acts, names)

  def logged(self, what, f, *args):
    labels = [a.label for a in args if isinstance(a, Sub)]
    self.ex.log.append((what, self.label, tuple(labels)))
    try:
      f(*args)
    finally:
      self.ex.log.append((what + '-done', self.label, tuple(labels)))

  def register(self, *subs):
    self.logged('register', self.s.register, *subs)

  def unregister(self, *subs):
    self.logged('unregister', self.s.unregister, *subs)

  def close(self):
    self.logged('close', self.s.close)
    active = self.s.is_active()
    if active:
      self.ex.log.append(('wrong', 'active', 'the session is active after close()'))

  def open(self):
    self.s.open('localhost', 4321)
    self.ex.log.append(('opened', self.label, ()))

  def terminated(self):
    'wait until the listener says it has ended'
    self.s.terminated.wait()
    self.ex.log.append(('terminated', self.label, ()))


# ------------------------------------------------------------------ scenarios
def several(scene, *subs):
  for s in subs:
    scene.register(s)


def late_comer(ex):
  a = Scene(ex, 'pm')
  x, y = a.sub('x'), a.sub('y')
  a.register(x)
  a.open()
  a.register(y)
  a.close()

def leaver(ex):
  a = Scene(ex, 'pmt')
  x, y = a.sub('x'), a.sub('y')
  several(a, x, y)
  a.open()
  a.unregister(x)
  a.unregister(y)
  a.close()

def two_users(ex):
  a = Scene(ex, 'pm')
  x, y, z = a.sub('x'), a.sub('y'), a.sub('z')
  a.register(x)
  a.open()
  def other():
    a.register(y)
    a.unregister(y)
  sched.start(other)
  a.register(z)
  a.unregister(x)

def closing(ex):
  a = Scene(ex, 'pwmt')
  x = a.sub('x')
  a.register(x)
  a.open()
  a.close()
  a.terminated()

def close_idle(ex):
  a = Scene(ex, '')
  a.open()
  a.close()
  a.terminated()

def server_goes(ex):
  a = Scene(ex, 'p', ends=True)
  x, y = a.sub('x'), a.sub('y', names=['EOFError', 'socket_error'])
  several(a, x, y)
  a.open()
  a.terminated()

def close_twice(ex):
  a = Scene(ex, 'pm')
  x = a.sub('x')
  a.register(x)
  a.open()
  sched.start(a.close)
  a.close()
  a.terminated()

def leaves_itself(ex):
  a = Scene(ex, 'pmt')
  x, y, z = a.sub('x'), a.sub('y'), a.sub('z')
  x.acts = {0: lambda: a.unregister(x)}
  several(a, x, y, z)
  a.open()
  a.register(a.sub('w'))

def throws_out(ex):
  a = Scene(ex, 'pmt')
  x, y, z = a.sub('x'), a.sub('y'), a.sub('z')
  y.acts = {0: lambda: a.unregister(x), 1: lambda: a.unregister(z)}
  several(a, x, y, z)
  a.open()

def throws_out_next(ex):
  a = Scene(ex, 'pm')
  x, y, z = a.sub('x'), a.sub('y'), a.sub('z')
  x.acts = {0: lambda: a.unregister(y)}
  several(a, x, y, z)
  a.open()
  a.unregister(z)

def takes_over(ex):
  a = Scene(ex, 'pmt')
  x, y, z = a.sub('x'), a.sub('y'), a.sub('z')
  def swap():
    a.unregister(x)
    a.register(z)
  x.acts = {0: swap}
  several(a, x, y)
  a.open()

def closes_itself(ex):
  a = Scene(ex, 'pmt')
  x = a.sub('x')
  x.acts = {1: a.close}
  a.register(x)
  a.open()
  a.terminated()

def sending(ex):
  a = Scene(ex, 'pm')
  x = a.sub('x')
  x.acts = {0: lambda: a.s.send_line('bob'), 1: lambda: a.s.send_line('secret')}
  a.register(x)
  a.open()
  sched.start(a.s.send_line, ('hello',))
  a.s.send_line('bye')
  ex.expect_sent = ['bob', 'secret', 'hello', 'bye']
  ex.wire = a.wire

def selective(ex):
  a = Scene(ex, 'pwmtue')
  x, y = a.sub('x', names=['FIBS_MOTD']), a.sub('y', names=['CLIP_WELCOME', 'CLIP_MOTD_END'])
  several(a, x, y)
  a.open()

def two_sessions(ex):
  'a handler of one session waits for a message of the other'
  a, b = Scene(ex, 'pm', label='A'), Scene(ex, 'pw', label='B')
  got = sched.Event()
  x, y = a.sub('x'), b.sub('y')
  x.acts = {0: got.wait}
  y.acts = {1: got.set}
  a.register(x)
  b.register(y)
  a.open()
  b.open()

def whole_session(ex):
  a = Scene(ex, 'pwmtuey')
  x, y = a.sub('x'), a.sub('y')
  a.register(x)
  a.open()
  a.register(y)
  a.unregister(x)

def together(ex):
  'several come and leave with one call'
  a = Scene(ex, 'pmt')
  x, y, z = a.sub('x'), a.sub('y'), a.sub('z')
  a.register(x, y)
  a.open()
  a.register(z)
  a.unregister(y, x)

def crowd(ex):
  'the last of many leaves, sent away by the first'
  a = Scene(ex, 'pwmt')
  subs = [a.sub(n) for n in 'xyzuvw']
  subs[0].acts = {1: lambda: a.unregister(subs[5], subs[2])}
  subs[4].acts = {0: lambda: a.register(subs[1]), 3: lambda: a.unregister(subs[0])}
  a.register(subs[0])
  a.register(*subs[2:])
  a.open()

SCENES = dict((f.__name__, f) for f in (late_comer, leaver, two_users, closing, close_idle, server_goes, close_twice,
              leaves_itself, throws_out, throws_out_next, takes_over, closes_itself, sending, selective, two_sessions, together, crowd,
              whole_session))
ENDS = ('closing', 'close_idle', 'server_goes', 'close_twice', 'closes_itself')


# --------------------------------------------------------------------- oracle
def judge(ctx, scene, ex):
  log = ex.log
  def bad(key, message):
    ctx.fail('%s-%s' % (scene, key), '%s; what happened: %s' % (message, log))
  if ex.deadlock:
    return bad('stuck', ex.deadlock)
  for e in log:
    if e[0] == 'crash':
      return bad('crash', 'thread %s ends with %s' % e[1:3])
    if e[0] == 'wrong':
      return bad(e[1], e[2])
  # one handler at a time in a session
  where, inside = {}, {}
  for label in ('A', 'B'):
    inside[label] = []
  for e in log:
    if e[0] == 'call':
      s = owner(e[1])
      if inside[s] and inside[s][-1][4] != e[4]:
        return bad('overlap', 'two handlers run at the same time')
      inside[s].append(e)
    elif e[0] == 'return':
      s = owner(e[1])
      if not inside[s] or inside[s].pop()[:4] != ('call',) + e[1:4]:
        return bad('overlap', 'two handlers run at the same time')
  for s in ('A', 'B'):
    deliveries(ctx, bad, log, s)
  if getattr(ex, 'expect_sent', None):
    lines = ''.join(ex.wire.sent).split('\r\n')
    if sorted(lines) != sorted(ex.expect_sent + ['']):
      bad('sent', 'the lines sent came out as %r' % lines)


def owner(label):
  return OWNERS.get(label, 'A')


OWNERS = {}


def deliveries(ctx, bad, log, s):
  # for each subscriber: the spans in which it is surely, and possibly, registered
  subs = {}
  for i, e in enumerate(log):
    if e[0] in ('register', 'register-done', 'unregister', 'unregister-done') and e[1] == s:
      for label in e[2]:
        subs.setdefault(label, []).append((i, e[0]))
  closes = [i for i, e in enumerate(log) if e[0] == 'close' and e[1] == s]
  closed = [i for i, e in enumerate(log) if e[0] == 'close-done' and e[1] == s]
  # the rounds: from a message received to the next time the listener waits
  rounds = []
  for i, e in enumerate(log):
    if e[0] == 'recv' and e[1] == s:
      end = [j for j in range(i + 1, len(log)) if log[j][0] == 'idle' and log[j][1] == s]
      rounds.append((i, end and end[0] or len(log), e[2]))
  for label, events in subs.items():
    calls = [(i, e) for i, e in enumerate(log) if e[0] == 'call' and e[1] == label and e[2] not in ('EOFError', 'socket_error')]
    def state(at, sure):
      on = False
      for i, what in events:
        if i >= at:
          break
        if what == 'register' and not sure:
          on = True
        elif what == 'register-done' and sure:
          on = True
        elif what == 'unregister' and sure:
          on = False
        elif what == 'unregister-done' and not sure:
          on = False
      return on
    for i, e in calls:
      if not state(i, False):
        return bad('unregistered', '%s is given %r though it is not registered' % (label, e[3]))
      if [c for c in closed if c < i] and not inside_round(rounds, closed, i):
        return bad('after-close', '%s is given %r after close() returned' % (label, e[3]))
    used = set()
    for begin, end, k in rounds:
      text, name = MESSAGES[k]
      got = [(i, e) for i, e in calls if begin < i < end]
      for i, e in got:
        used.add(i)
        if (e[2], e[3]) != (name, text):
          return bad('message', '%s is given %s %r when %r was received' % (label, e[2], e[3], text))
      if len(got) > 1:
        return bad('twice', '%s is given %r %d times' % (label, text, len(got)))
      sure = state(begin, True) and not [i for i, w in events if begin < i < end and w == 'unregister']
      if sure and not got and not [c for c in closes if c < end] and name in NAMES.get(label, ALL):
        return bad('lost', '%s is registered but not given %r' % (label, text))
      ctx.outcome(got and 'delivered' or sure and 'closing' or 'not-registered')
    for i, e in calls:
      if i not in used:
        return bad('invented', '%s is given %r out of turn' % (label, e[3]))
  # the end of the connection is told too
  if not closes:
    for label in subs:
      if state_at_end(subs[label]) and 'EOFError' in NAMES.get(label, ALL):
        told = [e for e in log if e[0] == 'call' and e[1] == label and e[2] in ('EOFError', 'socket_error')]
        if len(told) != 1:
          return bad('end', '%s is told %d times that the connection has gone' % (label, len(told)))


def state_at_end(events):
  return events[-1][1] == 'register-done' and len(events) == 2


NAMES = {}


def inside_round(rounds, closed, at):
  'the round of this call had begun when close() was called from one of its own handlers'
  for begin, end, k in rounds:
    if begin < at < end:
      return not [c for c in closed if c < begin] and OWN_CLOSE
  return False


OWN_CLOSE = False


def execution(name, prefix):
  global OWN_CLOSE
  ex = sched.Execution(prefix)
  ex.expect_sent, ex.scenes = None, []
  OWN_CLOSE = name == 'closes_itself'
  OWNERS.clear()
  NAMES.clear()
  if name == 'two_sessions':
    OWNERS['y'] = 'B'
  if name == 'selective':
    NAMES.update(x=['FIBS_MOTD'], y=['CLIP_WELCOME', 'CLIP_MOTD_END'])
  if name == 'server_goes':
    NAMES.update(y=['EOFError', 'socket_error'])
  body = SCENES[name]
  def main():
    body(ex)
    if name not in ENDS:
      # let the listeners read everything, then the server goes
      for a in ex.scenes:
        a.wire.ends = True
  ex.run(main)
  return ex


def check_one(ctx, case):
  name, prefix = case
  ex = execution(name, prefix)
  if ex.diverged:
    raise sched.Diverged(ex.diverged)
  judge(ctx, name, ex)


def run(ctx):
  bound = ctx.thorough and 3 or 2
  total = {}
  for name in sorted(SCENES):
    def go(prefix):
      ctx.case([name, list(prefix)])
      return execution(name, prefix)
    def check(ex, choices):
      ctx.case([name, choices])
      if ex.outside:
        ctx.MAX_KEYS = 1      # the others would wait as long
      judge(ctx, name, ex)
    # the same schedule twice gives the same observations
    first, again = go(()), go(())
    if first.log != again.log:
      ctx.fail('nondeterminism', 'the same schedule gave %s and %s' % (first.log, again.log))
    n, points = sched.explore(go, check, bound, ctx.mine)
    ctx.states += n
    ctx.traces += n
    ctx.transitions += points
    total[name] = n
    ctx.outcome('schedules-' + name, n)
  ctx.sample(dict(scenarios=len(SCENES), preemptions=bound, schedules_of_this_shard=total))
  ctx.notes['bounds'] = ('%d scenarios of 1-2 sessions, 1-3 subscribers and 2-4 threads; every schedule with at most %d '
                         'preemptions or unusual answers of the network' % (len(SCENES), bound))


class THIS(object):
  check_one = staticmethod(check_one)
