'''Playing and taking back partial moves, in lock step with the rules: the board,
the dice left and the recorded move always agree with what was played, chequers
are conserved, hits go to the bar and come back, and asking changes nothing.

Explores every sequence of steps of a turn (and, at every point of it, every
undo) from a set of positions.'''
from bglib.model import Board, BoardEditor, MoveFactory, Move, PartialMove
from bglib.model.constants import YOU, HIM
import bgrules as R


def counts(dice):
  return [(d, list(dice).count(d)) for d in range(1, 7)]


def inverse(die, src, dest, hit):
  return PartialMove(die, dest, src, hit)


class World(object):
  'the real factory and the reference side by side'
  def __init__(self, ctx, mine, theirs, who, rolled, copied):
    self.ctx, self.who, self.rolled = ctx, who, tuple(rolled)
    self.start = (mine, theirs)
    self.m, self.t = mine, theirs
    self.dice = self.left = R.dice_of(rolled)
    self.played = []
    self.trace = []
    self.b = BoardEditor(position=R.position(mine, theirs, who), rolled=self.rolled,
                         on_action=who, on_inner_action=who, score=(1, 2), match_length=5)
    self.frozen = self.b.freeze()
    if copied:
      self.b = BoardEditor(self.frozen)
    self.mf = MoveFactory(self.b)

  def about(self):
    return 'after %s with dice %s from %s (on action %d)' % (
      self.trace, self.dice, R.position(self.start[0], self.start[1], self.who), self.who)

  def agree(self, key):
    want = R.position(self.m, self.t, self.who)
    if self.b.position != want:
      self.ctx.fail(key + '-board', '%s: the board is %s, should be %s' % (self.about(), self.b.position, want))
      return False
    if sorted(self.mf.available.items()) != counts(self.left):
      self.ctx.fail(key + '-dice', '%s: dice left are %s, should be %s' % (
                    self.about(), self.mf.available.items(), self.left))
      return False
    if len(self.mf.available) != len(self.left):
      self.ctx.fail(key + '-count', '%s: %d dice left, should be %d' % (
                    self.about(), len(self.mf.available), len(self.left)))
      return False
    got = sorted((pm.die, pm.src, pm.dest, bool(pm.is_hitting)) for pm in self.mf.move)
    if got != sorted(self.played):
      self.ctx.fail(key + '-move', '%s: the move is %s, should be %s' % (self.about(), got, self.played))
      return False
    for side in self.b.position:
      if min(side) < 0:
        self.ctx.fail(key + '-negative', '%s: negative count in %s' % (self.about(), side))
        return False
    if sum(self.b.position[1 - self.who]) != sum(self.start[1]):
      self.ctx.fail(key + '-lost', '%s: the opponent has %d chequers' % (
                    self.about(), sum(self.b.position[1 - self.who])))
      return False
    for name, was in (('rolled', self.rolled), ('on_action', self.who), ('on_inner_action', self.who),
                      ('score', (1, 2)), ('match_length', 5)):
      if getattr(self.b, name) != was:
        self.ctx.fail(key + '-attribute', '%s: %s changed to %s' % (self.about(), name, getattr(self.b, name)))
        return False
    return True

  def play(self, die, src):
    dest, hit = R.step(self.m, self.t, src, die)
    self.trace.append(['play', die, src])
    self.mf.append(PartialMove(die, src, dest, hit))
    self.m, self.t = R.play(self.m, self.t, src, dest, hit)
    self.left = R.less(self.left, die)
    self.played.append((die, src, dest, hit))
    return self.agree('play')

  def unplay(self, k):
    'take back the k-th step played'
    die, src, dest, hit = self.played[k]
    self.trace.append(['unplay', k])
    self.mf.append(inverse(die, src, dest, hit))
    self.m, self.t = R.unplay(self.m, self.t, src, dest, hit)
    self.left = self.left + (die,)
    del self.played[max(i for i, p in enumerate(self.played) if p == (die, src, dest, hit))]
    return self.agree('unplay')


def replay(ctx, case):
  w = World(ctx, case[0], case[1], case[2], case[3], case[4])
  for op in case[5]:
    if op[0] == 'play':
      if not w.play(op[1], op[2]):
        return None
    else:
      if not w.unplay(op[1]):
        return None
  return w


def check_often(ctx, mine, theirs, who, rolled, times):
  'played and taken back, over and over, by one factory'
  w = World(ctx, mine, theirs, who, rolled, 0)
  for k in range(times):
    for j in range(1 + k % 4):
      steps = sorted(R.steps(w.m, w.t, w.left))
      if not steps:
        break
      die, src, dest, hit = steps[(k * 7 + j) % len(steps)]
      ctx.transitions += 1
      if not w.play(die, src):
        return
    while w.played:
      die, src, dest, hit = w.played[-1]
      ctx.transitions += 1
      und = w.mf.guess_your_multiple_partial_undoes(dest, src)
      if not und or not w.agree('ask-undo'):
        return ctx.fail('often', 'playing for the %d. time: undoing the last step is answered %s; %s' % (k + 1, und, w.about()))
      if not w.unplay(len(w.played) - 1):
        return
  ctx.states += 1
  ctx.traces += 1
  ctx.outcome('often')


def check_one(ctx, case):
  if case[0] == 'often':
    return check_often(ctx, *case[1:])
  w = replay(ctx, case)
  if w is None:
    return
  ctx.traces += 1
  # the last step can be taken back, by name
  if w.played:
    die, src, dest, hit = w.played[-1]
    und = w.mf.guess_your_multiple_partial_undoes(dest, src)
    if not w.agree('ask-undo'):
      return
    if not und:
      ctx.fail('no-undo', '%s: undoing the last step is refused: %s' % (w.about(), und))
      return
  # every undo that is offered takes back steps that were played
  for frm in sorted(set([p[2] for p in w.played])):
    for to in range(frm + 1, 25):
      und = w.mf.guess_your_multiple_partial_undoes(frm, to)
      ctx.transitions += 1
      if not w.agree('ask-undo'):
        return
      if not und:
        ctx.outcome('undo-refused')
        continue
      ctx.outcome('undo%d' % len(und))
      v = replay(ctx, case)
      at = frm
      for pm in und:
        step = (pm.die, pm.dest, pm.src, bool(pm.is_hitting))
        if step not in v.played or pm.src != at:
          ctx.fail('undo-not-played', '%s: undo %d to %d offers %s' % (w.about(), frm, to, und))
          return
        at = pm.dest
        v.m, v.t = R.unplay(v.m, v.t, step[1], step[2], step[3])
        v.left = v.left + (step[0],)
        v.played.remove(step)
      if at != to:
        ctx.fail('undo-elsewhere', '%s: undo %d to %d offers %s' % (w.about(), frm, to, und))
        return
      if min(v.m) < 0 or min(v.t) < 0:
        ctx.fail('undo-nobody', '%s: undo %d to %d offers %s, where no chequer stands' % (w.about(), frm, to, und))
        return
      v.trace.append(['undo', frm, to])
      v.mf.add(und)
      if not v.agree('undo'):
        return
  # both chequers that make a point
  for dest in range(24):
    got = w.mf.guess_your_making_point(dest)
    ctx.transitions += 1
    if not w.agree('ask-point'):
      return
    want = point_makers(w.m, w.t, dest, w.left)
    if bool(got) != bool(want):
      ctx.fail('point', '%s: making point %d is answered %s, the rules give %s' % (w.about(), dest, got, want))
      return
    if got:
      ctx.outcome('point')
      steps = tuple([(pm.die, pm.src, pm.dest, bool(pm.is_hitting)) for pm in got])
      if steps not in want:
        ctx.fail('point', '%s: making point %d is answered %s, the rules give %s' % (w.about(), dest, got, want))
        return
  # all the way back
  n = len(w.played)
  for k in range(n - 1, -1, -1):
    if not w.unplay(k):
      return
  if n and not (w.b.freeze() == w.frozen):
    ctx.fail('not-restored', '%s: taking everything back gives %s' % (w.about(), w.b.position))
  # the recorded move, made at once on another editor, gives the same position
  w = replay(ctx, case)
  if w is not None and w.played:
    other = BoardEditor(w.frozen)
    other.make(w.mf.move)
    if other.position != w.b.position:
      ctx.fail('make', '%s: making the move at once gives %s, step by step %s' % (
               w.about(), other.position, w.b.position))
    again = MoveFactory(BoardEditor(w.frozen))
    again.add(Move(src=w.mf.move))
    if again.board.position != w.b.position or sorted(again.available.items()) != counts(w.left):
      ctx.fail('add', '%s: adding the move at once gives %s %s' % (
               w.about(), again.board.position, again.available.items()))
    if w.frozen.position != R.position(w.start[0], w.start[1], w.who):
      ctx.fail('frozen', '%s: the frozen board changed' % w.about())
  check_fork(ctx, case)


def check_fork(ctx, case):
  'a turn tried out from here, by another factory: this one is where it was; and the other way round'
  for turned in (0, 1):
    w, v = replay(ctx, case), replay(ctx, case)
    if w is None or v is None:
      return
    v.b = BoardEditor(w.b)
    v.mf = MoveFactory(v.b, w.mf.move, w.mf.available)
    if not v.agree('fork'):
      return
    one, other = turned and (v, w) or (w, v)
    ctx.transitions += 1
    for die, src, dest, hit in sorted(R.steps(one.m, one.t, one.left))[:1]:
      if not one.play(die, src) or not other.agree('fork-other'):
        return
    while one.played:
      if not one.unplay(len(one.played) - 1) or not other.agree('fork-other'):
        return
    ctx.outcome('fork')


def point_makers(m, t, dest, left):
  found = []
  for die in set(left):
    if dest + die > 24:
      continue
    r = R.step(m, t, dest + die, die)
    if not r:
      continue
    m2, t2 = R.play(m, t, dest + die, r[0], r[1])
    rest = R.less(left, die)
    for die2 in set(rest):
      if dest + die2 > 24:
        continue
      r2 = R.step(m2, t2, dest + die2, die2)
      if r2:
        found.append(((die, dest + die, dest, r[1]), (die2, dest + die2, dest, r2[1])))
  return found


def explore(ctx, mine, theirs, who, rolled, orders):
  seen = set()
  stack = [(mine, theirs, R.dice_of(rolled), [])]
  k = 0
  while stack:
    m, t, left, ops = stack.pop()
    key = orders and tuple(map(tuple, ops)) or (tuple(m), tuple(t), left)
    if key in seen:
      continue
    seen.add(key)
    k += 1
    ctx.states += 1
    ctx.transitions += 1
    ctx.guarded(THIS, [mine, theirs, who, list(rolled), k % 2, ops])
    for die, src, dest, hit in R.steps(m, t, left):
      m2, t2 = R.play(m, t, src, dest, hit)
      stack.append((m2, t2, R.less(left, die), ops + [['play', die, src]]))
    # taking back a step other than the last, then going on
    if orders and len(ops) >= 2 and not [o for o in ops if o[0] == 'unplay']:
      for i in range(len(ops) - 1):
        w = replay(ctx, [mine, theirs, who, list(rolled), 0, ops])
        if w is None:
          continue
        die, src, dest, hit = w.played[i]
        m2, t2 = R.unplay(w.m, w.t, src, dest, hit)
        if min(m2) < 0 or min(t2) < 0:
          continue
        if hit and [p for p in w.played[i + 1:] if dest in (p[1], p[2])]:
          continue      # the hit chequer comes back last
        stack.append((m2, t2, left + (die,), ops + [['unplay', i]]))


def cases(ctx):
  sides = [
    ((24, 20), ((18, 1), (22, 2), (0, 1))),
    ((24, 24), ((4, 1), (2, 1), (5, 2))),
    ((24,), ((0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1))),
    ((7, 5), ((17, 1), (19, 1), (21, 1))),
    ((12, 7), ((12, 1), (15, 1), (17, 1), (18, 2))),
    ((8, 8), ((17, 1), (18, 1), (20, 1))),
    ((5, 4), ()),
    ((5, 3, 0), ((23, 1),)),
    ((2, 1, 0), ((24, 1),)),
    ((6, 3, 1), ((18, 1), (24, 2))),
    ((23, 22), ((1, 1), (2, 1), (3, 2), (4, 1))),
    ((2, 2), ((21, 1),)),
    ((0, 0), ()),
    ((14, 13), ((10, 2), (11, 1), (12, 1), (13, 1), (14, 1))),
  ]
  for places, opp in sides:
    for rolled in R.ROLLS:
      yield R.side(places), opp, rolled, ctx.thorough or len(places) < 3
  # the opening position
  for rolled in R.ROLLS:
    if rolled[0] != rolled[1] or ctx.thorough:
      yield list(R.START), None, rolled, False
  for p in range(25):
    for hit in range(24):
      mine = R.side((p, 11))
      if not mine[23 - hit]:
        for rolled in ((1, 2), (6, 5), (4, 3), (3, 3), (6, 6)):
          if 23 - hit in [p - rolled[0], p - rolled[1], p - sum(rolled), 11 - rolled[0], 11 - rolled[1]]:
            yield mine, ((hit, 1),), rolled, ctx.thorough


def run(ctx):
  for mine, opp, rolled, orders in cases(ctx):
    for who in (YOU, HIM):
      if not ctx.mine():
        continue
      if opp is None:
        theirs = list(R.START)
      else:
        theirs = [0] * 25
        for p, c in opp:
          if p == 24 or not mine[23 - p]:
            theirs[p] += c
      explore(ctx, mine, theirs, who, rolled, orders)
      ctx.guarded(THIS, ['often', mine, theirs, who, list(rolled), 24])
      ctx.sample(dict(mover=mine, opponent=theirs, on_action=who, rolled=list(rolled)))


class THIS(object):
  check_one = staticmethod(check_one)
