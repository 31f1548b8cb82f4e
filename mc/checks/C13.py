'''The 26 byte form of a position for databases: exact both ways, seen from the player
to act, and distance() is the squared difference of the chequers.'''
from bglib.encoding import dbbyte
from bglib.model import Board, BoardEditor
from bglib.model.constants import YOU, HIM
import bgrules as R

FIELDS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state',
          'on_inner_action', 'doubled', 'resign_offer', 'rolled', 'match_length', 'score')


def reference(first, second):
  out = []
  for i in range(26):
    mine = i and first[i - 1] or 0
    theirs = i < 25 and second[24 - i] or 0
    n = mine - theirs
    out.append(chr(n % 256))
  return ''.join(out)


def check_one(ctx, case):
  ctx.states += 1
  ctx.traces += 1
  if case[0] == 'position':
    first, second = tuple(case[1]), tuple(case[2])
    want = reference(first, second)
    got = dbbyte.encode_position((first, second))
    ctx.transitions += 2
    if got != want:
      ctx.fail('encode', '%s is written %r instead of %r' % ((first, second), got, want))
    back = dbbyte.decode_position(want)
    if (tuple(back[0]), tuple(back[1])) != (first, second):
      ctx.fail('decode', '%r is read as %s instead of %s' % (want, back, (first, second)))
    kept = []
    for n in range(2):
      b = BoardEditor(position=(first, second), on_action=n).freeze()
      e = dbbyte.DatabaseBytesExpression(b)
      ctx.transitions += 1
      kept.append((b, e))
      mine = n == 0 and want or reference(second, first)
      if e.position != mine:
        ctx.fail('view', '%s with player %d to act is stored as %r instead of %r' % ((first, second), n, e.position, mine))
      if not e.tomodel() == b:
        ctx.fail('tomodel', '%s with player %d to act comes back as %s' % ((first, second), n, e.tomodel().position))
    for b, e in kept:
      if not e.tomodel() == b:
        ctx.fail('tomodel-later', '%s with player %d to act comes back as %s after another was stored' % (
                 b.position, b.on_action, e.tomodel().position))
    ctx.outcome('position')
  elif case[0] == 'byte':
    x, y = case[1:]
    sx, sy = x > 127 and x - 256 or x, y > 127 and y - 256 or y
    ctx.transitions += 3
    if x == y and (dbbyte.signedord(chr(x)) != sx or dbbyte.signedchr(sx) != chr(x)):
      ctx.fail('byte', 'byte %d is read as %r, %d is written as %r' % (
               x, dbbyte.signedord(chr(x)), sx, dbbyte.signedchr(sx)))
    pad = case[1] % 25
    a = chr(3) * pad + chr(x) + chr(255) * (25 - pad)
    b = chr(3) * pad + chr(y) + chr(255) * (25 - pad)
    if dbbyte.distance(a, b) != (sx - sy) ** 2 or dbbyte.distance(b, a) != (sx - sy) ** 2:
      ctx.fail('distance', 'bytes %d and %d are %r apart instead of %d' % (x, y, dbbyte.distance(a, b), (sx - sy) ** 2))
    ctx.outcome('byte')
  elif case[0] == 'pair':
    a = reference(case[1], case[2])
    b = reference(case[3], case[4])
    want = 0
    for p, q in zip(a, b):
      m, n = ord(p), ord(q)
      want += ((m > 127 and m - 256 or m) - (n > 127 and n - 256 or n)) ** 2
    ctx.transitions += 2
    if dbbyte.distance(a, b) != want or dbbyte.distance(b, a) != want:
      ctx.fail('distance', '%r and %r are %r and %r apart instead of %d' % (
               a, b, dbbyte.distance(a, b), dbbyte.distance(b, a), want))
    ctx.outcome('pair')
  else:
    values = case[1]
    kw = {}
    for k, v in values.items():
      kw[str(k)] = isinstance(v, list) and tuple(v) or v
    kw['position'] = (tuple(R.side((24, 12, 5, 5))), tuple(R.side((24, 24, 6, 1))))
    b = BoardEditor(**kw).freeze()
    e = dbbyte.DatabaseBytesExpression(b)
    m = e.tomodel()
    ctx.transitions += 2
    for n in FIELDS:
      if getattr(m, n) != getattr(b, n):
        ctx.fail('field-' + n, 'a board with %s comes back with %s %r' % (values, n, getattr(m, n)))
      if n != 'position' and getattr(e, n) != getattr(b, n):
        ctx.fail('field-' + n, 'a board with %s is stored with %s %r' % (values, n, getattr(e, n)))
    for n in FIELDS:
      try:
        setattr(e, n, getattr(m, n))
      except TypeError:
        continue
      ctx.fail('mutable', 'field %s of the stored form can be changed' % n)
    ctx.outcome('board')


def run(ctx):
  empty = [0] * 25
  shapes = [(list(R.START), list(R.START)), (empty, empty)]
  for p in range(25):
    for n in range(1, 16):
      shapes.append((R.side([p] * n), empty))
      shapes.append((empty, R.side([p] * n)))
  for p in range(25):
    for q in range(25):
      if p == 24 or q == 24 or q != 23 - p:
        for a, b in ((1, 1), (2, 3), (15, 14)):
          shapes.append((R.side([p] * a), R.side([q] * b)))
  for places in R.multisets(range(25), 2):
    shapes.append((R.side(places), R.side([24])))
  for s in shapes:
    if ctx.mine():
      ctx.guarded(THIS, ['position', s[0], s[1]])
      ctx.sample(dict(you=s[0], him=s[1]))
  for x in range(256):
    if ctx.mine():
      for y in range(256):
        ctx.guarded(THIS, ['byte', x, y])
  few = shapes[::ctx.thorough and 5 or 29]
  for a in few:
    if ctx.mine():
      for b in few:
        ctx.guarded(THIS, ['pair', a[0], a[1], b[0], b[1]])
  k = 0
  for cube in (0, 1, 3, 15):
    for owner in (0, 1, 3):
      for act in (0, 1):
        if not ctx.mine():
          continue
        for inner in (0, 1):
          for state in range(5):
            for doubled in (False, True):
              for resign in range(4):
                for crawford in (False, True):
                  k += 1
                  ctx.guarded(THIS, ['board', dict(cube_in_logarithm=cube, cube_owner=owner, on_action=act,
                    on_inner_action=inner, game_state=state, doubled=doubled, resign_offer=resign, crawford=crawford,
                    rolled=((0, 0), (3, 1), (6, 6), (1, 5))[k % 4], match_length=(0, 1, 7, 25)[k // 4 % 4],
                    score=((0, 0), (6, 2), (0, 6))[k % 3])])
  ctx.notes['bounds'] = ('stacks of 1-15 on every point for either side, all pairs of stacks one each and all pairs of '
    'chequers of one side; all 65536 pairs of byte values; full product of the other fields')


class THIS(object):
  check_one = staticmethod(check_one)
