'''Position IDs: 14 characters, one per position, read back to the same position;
any other text is answered, in finite time, with a position or an error.'''
import threading
from bglib.encoding import gnubgid
from bglib.encoding import EncodingError
import bgrules as R
import idref

ERRORS = (EncodingError, TypeError, ValueError)


def check_one(ctx, case):
  kind = case[0]
  if kind == 'position':
    first, second = tuple(case[1]), tuple(case[2])
    want = idref.position_id(first, second)
    got = gnubgid.encode_position((first, second))
    ctx.transitions += 2
    if got != want:
      ctx.fail('encode', 'position %s is written %r, gnubg writes %r' % ((first, second), got, want))
    back = gnubgid.decode_position(want)
    back = (tuple(back[0]), tuple(back[1]))
    if back != (first, second):
      ctx.fail('decode', '%r is read as %s, it is the ID of %s' % (want, back, (first, second)))
    back = gnubgid.decode_position(unicode(want))
    if (tuple(back[0]), tuple(back[1])) != (first, second):
      ctx.fail('decode-unicode', '%r is read as %s, it is the ID of %s' % (unicode(want), back, (first, second)))
    ctx.outcome('total%d' % (sum(first) + sum(second)))
  else:
    text = case[1].encode('ascii')
    ctx.transitions += 1
    try:
      got = gnubgid.decode_position(text)
    except ERRORS, e:
      got = None
      ctx.outcome('refused-' + type(e).__name__)
    good = len(text) == 14 and not [c for c in text if c not in idref.VALUE]
    want = good and idref.read_position(text) or None
    if got is not None:
      got = tuple(got[0]), tuple(got[1])
      ctx.outcome('read')
      if len(got[0]) != 25 or len(got[1]) != 25 or min(got[0] + got[1]) < 0:
        ctx.fail('shape', '%r is read as %s, which is no position' % (text, got))
    if want is not None and got != want:
      ctx.fail('decode', '%r is read as %s, it is the ID of %s' % (text, got, want))
    if got is not None and good and want is None and sum(got[0]) + sum(got[1]) <= 30:
      ctx.fail('invented', '%r is read as %s but does not hold 50 points' % (text, got))
  ctx.states += 1
  ctx.traces += 1


def sides(ctx):
  empty = [0] * 25
  yield empty
  for p in range(25):
    for n in range(1, 16):
      s = list(empty)
      s[p] = n
      yield s
  for p in range(25):
    for q in range(p + 1, 25):
      for a, b in ctx.thorough and [(a, b) for a in range(1, 15) for b in range(1, 16 - a)] or \
                  ((1, 1), (1, 2), (2, 1), (7, 8), (14, 1), (1, 14), (5, 5)):
        s = list(empty)
        s[p], s[q] = a, b
        yield s
  yield [1] * 15 + [0] * 10
  yield [0] * 10 + [1] * 15
  yield [1, 0] * 12 + [1]
  yield list(R.START)
  if ctx.thorough:
    for places in R.multisets(range(25), 3):
      yield R.side(places)


def others():
  empty = [0] * 25
  yield empty
  yield list(R.START)
  s = list(empty)
  s[24] = 15
  yield s
  s = list(empty)
  s[0] = 1
  yield s
  for n in range(2, 16, 2):
    s = list(empty)
    s[n] = n
    yield s


def texts(ctx):
  seeds = ['4HPwATDgc/ABMA', 'vzsAAFhu2xFABA', 'AAAAAAAAAAAAAA', '//////////////', '/////38AAAAAAA', 'sM/BATCwZ/ABMA',
           idref.position_id([15] + [0] * 24, [0] * 24 + [15])]
  alphabet = idref.B64 + '-_ *=\n:.'
  for s in seeds:
    for n in range(len(s) + 1):
      yield s[:n]
      yield s[n:]
      yield s + s[:n]
      for c in ctx.thorough and alphabet or 'A/+= *':
        yield s[:n] + c + s[n:]
    for i in range(len(s)):
      yield s[:i] + s[i + 1:]
      for c in alphabet:
        yield s[:i] + c + s[i + 1:]
      if i + 1 < len(s):
        for j in range(0, 64, ctx.thorough and 1 or 5):
          for k in range(0, 64, ctx.thorough and 1 or 7):
            yield s[:i] + idref.B64[j] + idref.B64[k] + s[i + 2:]
  for n in range(0, 20):
    for c in alphabet:
      yield c * n


def run(ctx):
  ctx.HANG_S = 60
  rest = list(others())
  for s in sides(ctx):
    if ctx.mine():
      for o in rest:
        ctx.guarded(THIS, ['position', s, o])
        ctx.guarded(THIS, ['position', o, s])
      ctx.sample(dict(side=s))
  for t in texts(ctx):
    if ctx.mine():
      ctx.guarded(THIS, ['text', t])
  ctx.notes['bounds'] = ('one side: 0-2 stacks of any height (quick: 7 height pairs) on any points; the other: 11 shapes; '
    'texts: all truncations, deletions, single-character changes and insertions, adjacent pairs of 7 IDs')


class THIS(object):
  check_one = staticmethod(check_one)
