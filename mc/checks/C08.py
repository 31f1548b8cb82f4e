'''Names of points, and the text of moves.

Complete over the point numbers and both players, and over all texts of up to
three of the letters that numbers are written with; all moves up to four steps
from a small set.'''
from bglib.model import util, PartialMove, Move, MoveFactory, BoardEditor
from bglib.model.constants import *

OWNER = {YOU: 'your', HIM: 'his'}


LETTERS = '0123456789-+. bx'
ENDS = [''] + list(LETTERS) + [a + b for a in LETTERS for b in LETTERS]


def position_name(n, who):
  if n == -1:
    return OWNER[who] + ' home'
  if n == 24:
    return OWNER[who] + ' bar'
  return str(who == YOU and n + 1 or 24 - n)


def move_name(n):
  return n == -1 and 'off' or n == 24 and 'bar' or str(n + 1)


def refused(f, *args):
  try:
    return False, f(*args)
  except (ValueError, TypeError):
    return True, None


def check_one(ctx, case):
  kind = case[0]
  ctx.transitions += 1
  if kind == 'position':
    n, who = case[1:]
    name = util.position_ntop(n, who)
    if name != position_name(n, who):
      ctx.fail('position_ntop', 'point %d for player %d is named %r' % (n, who, name))
    back = util.position_pton(position_name(n, who), who)
    if back != n:
      ctx.fail('position_pton', '%r for player %d is point %s, not %d' % (position_name(n, who), who, back, n))
    if 0 <= n < 24:
      # the two players name the same physical point alike
      if util.position_ntop(util.flip_point(n), 1 - who) != name or util.flip_point(util.flip_point(n)) != n:
        ctx.fail('flip_point', 'point %d of player %d and its flip %s have different names' % (n, who, util.flip_point(n)))
      if util.flip_point(n) != 23 - n:
        ctx.fail('flip_point', 'flip_point(%d) is %s' % (n, util.flip_point(n)))
  elif kind == 'move':
    n = case[1]
    if util.move_ntop(n) != move_name(n):
      ctx.fail('move_ntop', 'point %d in a move is named %r' % (n, util.move_ntop(n)))
    if util.move_pton(move_name(n)) != n:
      ctx.fail('move_pton', '%r in a move is point %s, not %d' % (move_name(n), util.move_pton(move_name(n)), n))
  elif kind == 'bad-name':
    name = case[1]
    bad, got = refused(util.move_pton, name)
    if not bad:
      ctx.fail('move_pton-bad', '%r is accepted as point %s' % (name, got))
    for who in (YOU, HIM):
      bad, got = refused(util.position_pton, name, who)
      if not bad:
        ctx.fail('position_pton-bad', '%r is accepted as point %s' % (name, got))
  elif kind == 'texts':
    # every text of these letters after the given start names a point or is refused
    for end in ENDS:
      name = case[1] + end
      ctx.states += 1
      ctx.transitions += 3
      try:
        i = int(name)
      except ValueError:
        i = None
      # 0 and 25 in a move are nobody's business (the code says: not well defined)
      if i not in (0, 25) and name not in ('bar', 'off'):
        bad, got = refused(util.move_pton, name)
        if bad != (i is None or not 0 < i < 25) or not bad and got != i - 1:
          ctx.fail('move_pton-text', '%r in a move is %s' % (name, bad and 'refused' or 'point %s' % got))
      for who in (YOU, HIM):
        bad, got = refused(util.position_pton, name, who)
        if bad != (i is None or not 0 < i < 25) or not bad and got != [24 - i, i - 1][int(who == YOU)]:
          ctx.fail('position_pton-text', '%r for player %d is %s' % (name, who, bad and 'refused' or 'point %s' % got))
  elif kind == 'bad-number':
    n = case[1]
    for f, args in ((util.move_ntop, (n,)), (util.position_ntop, (n, YOU)), (util.position_ntop, (n, HIM))):
      bad, got = refused(f, *args)
      if not bad:
        ctx.fail('ntop-bad', '%d is named %r' % (n, got))
  elif kind == 'bad-position':
    for who in (YOU, HIM):
      bad, got = refused(util.position_pton, case[1], who)
      if not bad:
        ctx.fail('position_pton-bad', '%r is accepted as point %s' % (case[1], got))
  elif kind == 'player':
    for who in (YOU, HIM):
      if util.get_opp(who) != 1 - who or util.get_opp(util.get_opp(who)) != who:
        ctx.fail('get_opp', 'the opponent of %d is %s' % (who, util.get_opp(who)))
    bad, got = refused(util.get_opp, CENTER)
    if not bad:
      ctx.fail('get_opp', 'the opponent of nobody is %s' % got)
  elif kind == 'text':
    steps = [tuple(s) for s in case[1]]
    mv = Move()
    want = []
    for die, src, dest, hit in steps:
      pm = PartialMove(die, src, dest, hit)
      text = '%s/%s%s' % (move_name(src), move_name(dest), hit and '*' or '')
      if str(pm) != text:
        ctx.fail('text', 'step %s is written %r' % ((die, src, dest, hit), str(pm)))
      if pm.is_undo() != (dest > src) or pm.is_dance() != (dest == src):
        ctx.fail('kind', 'step %s: is_undo %s, is_dance %s' % ((die, src, dest, hit), pm.is_undo(), pm.is_dance()))
      # the text reads back to the step
      a, b = str(pm).rstrip('*').split('/')
      if (util.move_pton(a), util.move_pton(b), str(pm).endswith('*')) != (src, dest, hit):
        ctx.fail('text-back', 'step %s is written %r, which reads back differently' % ((die, src, dest, hit), str(pm)))
      inverse = (die, dest, src, hit)
      if inverse in [w[0] for w in want]:
        k = max([i for i, w in enumerate(want) if w[0] == inverse])
        del want[k]
      else:
        want.append(((die, src, dest, hit), text))
      mv.append(pm)
    got = [(pm.die, pm.src, pm.dest, pm.is_hitting) for pm in mv]
    if got != [w[0] for w in want] or len(mv) != len(want):
      ctx.fail('append', 'appending %s gives %s' % (steps, got))
    if str(mv) != (want and ', '.join([w[1] for w in want]) or 'o-o'):
      ctx.fail('move-text', 'the move %s is written %r' % (want, str(mv)))
    copied = Move(src=mv)
    copied.append(PartialMove(1, 3, 2, False))
    if [(pm.die, pm.src, pm.dest, pm.is_hitting) for pm in mv] != got:
      ctx.fail('copy', 'changing a copy changed the move')
    for dest in range(-1, 25):
      found = [(pm.die, pm.src, pm.dest, pm.is_hitting) for pm in mv.find(dest)]
      if found != [g for g in reversed(got) if g[2] == dest]:
        ctx.fail('find', 'steps of %s to %d: found %s' % (got, dest, found))
    a, b = PartialMove(*steps[0]), PartialMove(*steps[-1])
    s, t = steps[0], steps[-1]
    if bool(a.are_invertible_element(b)) != (t == (s[0], s[2], s[1], s[3])):
      ctx.fail('invertible', '%s and %s: are_invertible_element is %s' % (s, t, a.are_invertible_element(b)))
    ctx.outcome('cancelled', len(want) < len(steps) and 1 or 0)


def run(ctx):
  cases = []
  for n in range(-1, 25):
    cases.append(['move', n])
    for who in (YOU, HIM):
      cases.append(['position', n, who])
  for name in ['', ' ', 'your', 'home', 'bar ', '26', '99', '-1', '-24', 'x', '1.5', '1/2', 'BAR']:
    cases.append(['bad-name', name])
  for start in [''] + list(LETTERS):
    cases.append(['texts', start])
  for name in ['bar', 'off', 'home', 'your', 'his', 'your  home', 'her bar', ' your bar', 'bar your']:
    cases.append(['bad-position', name])
  for n in (25, 26, 100):
    cases.append(['bad-number', n])
  cases.append(['player'])
  steps = []
  for src in range(-1, 25):
    for dest in range(-1, 25):
      for hit in (False, True):
        if not (hit and (dest == -1 or src == -1)):
          steps.append((min(6, abs(src - dest)), src, dest, hit))
  for s in steps:
    cases.append(['text', [s]])
  few = [(3, 7, 4, False), (3, 4, 7, False), (3, 7, 4, True), (3, 4, 7, True), (3, 4, 1, False), (3, 1, 4, False),
         (1, 24, 23, False), (1, 23, 24, False), (2, 1, -1, False), (2, -1, 1, False), (4, 7, 4, False)]
  for a in few:
    for b in few:
      cases.append(['text', [a, b]])
      for c in few:
        cases.append(['text', [a, b, c]])
        for d in few:
          cases.append(['text', [a, b, c, d]])
  for c in cases:
    if ctx.mine():
      ctx.states += 1
      ctx.traces += 1
      ctx.guarded(THIS, c)
      ctx.sample(c)


class THIS(object):
  check_one = staticmethod(check_one)
