# Jython 2.7.  One shard of one check:  worker.py ID TIER SHARD NSHARDS OUT
# or one replay:                        worker.py ID --replay FILE
import sys
import os
import json
import time
import threading
import traceback

from java.lang import System, Throwable, Runtime, OutOfMemoryError, StackOverflowError


class Null(object):
  softspace = 0
  def write(self, s): pass
  def flush(self): pass
  def writelines(self, s): pass


class TooMany(Exception):
  pass


class Ctx(object):
  '''What a check reports to.  case() marks the unit of work (the artefact that
  replays); fail() records a violation of the property on it.'''
  MAX_KEYS = 25
  HANG_S = 150

  def __init__(self, prop, tier, shard, nshards):
    self.prop, self.tier, self.shard, self.nshards = prop, tier, shard, nshards
    self.thorough = tier == 'thorough'
    self.states = self.transitions = self.traces = 0
    self.outcomes, self.samples, self.violations = {}, [], {}
    self.assumptions, self.notes = [], {}
    self.current, self.since, self.n = None, System.nanoTime(), 0
    self.strict = False
    self.repo = os.environ.get('BGLIB_REPO', '/repo')

  def mine(self):
    'Deal the units of work out over the shards.'
    self.n += 1
    return self.n % self.nshards == self.shard

  def case(self, c):
    self.current = c
    self.since = System.nanoTime()

  def outcome(self, name, n=1):
    self.outcomes[name] = self.outcomes.get(name, 0) + n

  def sample(self, s, limit=2):
    if len(self.samples) < limit:
      self.samples.append(s)

  def fail(self, key, message, case=None):
    key = '-'.join(str(key).split())
    if case is None:
      case = self.current
    old = self.violations.get(key)
    if old is None or len(json.dumps(case)) < len(json.dumps(old['case'])):
      self.violations[key] = dict(key=key, message=message, case=case)
    if len(self.violations) >= self.MAX_KEYS:
      raise TooMany()

  def guarded(self, module, case):
    'One case; an exception the check did not expect from the code is a violation.'
    self.case(case)
    try:
      module.check_one(self, case)
    except (TooMany, KeyboardInterrupt):
      raise
    except OutOfMemoryError:
      self.fail('out-of-memory', 'runs out of memory on %r' % (case,))
    except (Exception, Throwable), e:
      self.fail('raises-' + type(e).__name__, 'unexpected exception %s: %s on %r\n%s' % (
                type(e).__name__, e, case, traceback.format_exc()[-1500:]))

  def result(self, error=None):
    return dict(states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.traces, outcomes=self.outcomes,
                samples=self.samples, violations=sorted(self.violations.values(), key=lambda v: v['key']),
                assumptions=self.assumptions, notes=self.notes, error=error)


def load(prop):
  return __import__('checks.' + prop, globals(), locals(), ['check_one'])


def main(argv):
  real = sys.stdout
  prop = argv[1]
  if argv[2] == '--replay':
    rep = json.load(open(argv[3]))
    ctx = Ctx(prop, 'quick', 0, 1)
    sys.stdout = Null()
    try:
      module = load(prop)
      ctx.guarded(module, rep['case'])
    finally:
      sys.stdout = real
    for v in ctx.result()['violations']:
      print 'VIOLATION property=%s replay=%s' % (prop, argv[3])
      print '  %s: %s' % (v['key'], v['message'])
    if not ctx.violations:
      print 'replay: the property holds on this case'
    return len(ctx.violations) and 1 or 0

  tier, shard, nshards, out = argv[2], int(argv[3]), int(argv[4]), argv[5]
  ctx = Ctx(prop, tier, shard, nshards)

  def dump(error=None):
    f = open(out + '.tmp', 'w')
    json.dump(ctx.result(error), f)
    f.close()
    os.rename(out + '.tmp', out)

  born = System.nanoTime()
  def watchdog():
    while True:
      time.sleep(2)
      if ctx.violations and not ctx.thorough and System.nanoTime() - born > 600 * 1000000000L:
        dump()                # enough is known, and there may be no end to it
        Runtime.getRuntime().halt(1)
      c = ctx.current
      if c is not None and System.nanoTime() - ctx.since > ctx.HANG_S * 1000000000L:
        ctx.violations['hang'] = dict(key='hang', case=c, message=
            'no answer within %d s on %r' % (ctx.HANG_S, c))
        dump()
        Runtime.getRuntime().halt(1)
  t = threading.Thread(target=watchdog)
  t.setDaemon(True)
  t.start()

  sys.stdout = Null()
  error = None
  try:
    try:
      module = load(prop)
      module.run(ctx)
    except TooMany:
      pass
    except (Exception, Throwable), e:
      error = traceback.format_exc()
      if isinstance(e, Throwable):
        error = '%s\n%s' % (e, error)
  finally:
    sys.stdout = real
  ctx.current = None
  dump(error)
  sys.stdout.flush()
  Runtime.getRuntime().halt(0)


if __name__ == '__main__':
  sys.exit(main(sys.argv))
