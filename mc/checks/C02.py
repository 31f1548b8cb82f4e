'''Moving one chequer over several dice: the offered move is a legal path, one
is offered whenever the rules have one, and asking changes nothing.'''
from bglib.model import BoardEditor, MoveFactory, AvailableToPlay
from bglib.model.constants import YOU, HIM
import bgrules as R


def legs(mv):
  if not mv:
    return None
  return [(pm.die, pm.src, pm.dest, bool(pm.is_hitting)) for pm in mv]


def check_one(ctx, case):
  mine, theirs, who, rolled, sources, used = case
  position = R.position(mine, theirs, who)
  b = BoardEditor(position=position, rolled=tuple(rolled), on_action=who, on_inner_action=who)
  dice = R.dice_of(rolled)
  if used:
    # part of the roll is played already
    rest = AvailableToPlay(tuple(rolled))
    for die in used:
      rest.consume(die)
      dice = R.less(dice, die)
    mf = MoveFactory(b, available=rest)
  else:
    mf = MoveFactory(b)
  items = sorted(mf.available.items())
  for src in sources:
    for dest in range(-1, src):
      if dest >= 0 and src - dest > sum(dice):
        continue
      want = R.reach(mine, theirs, src, dest, dice)
      got = legs(mf.guess_your_multiple_pms(src, dest))
      ctx.transitions += 1
      about = 'from %d to %d with dice %s on %s (on action %d)' % (src, dest, dice, position, who)
      if got is None:
        ctx.outcome('refused')
        if want:
          ctx.fail('no-path', '%s: refused, but dice %s do it' % (about, want[0]))
      else:
        ctx.outcome('path%d' % len(got))
        if tuple([g[0] for g in got]) not in want:
          ctx.fail('bad-path', '%s: offered %s, which the rules do not allow' % (about, got))
        else:
          m, t, at = mine, theirs, src
          for die, s, d, hit in got:
            r = R.step(m, t, s, die)
            if s != at or r != (d, hit):
              ctx.fail('bad-leg', '%s: leg %s of %s is wrong; the rules give %s' % (about, (s, d, hit), got, r))
              break
            m, t = R.play(m, t, s, d, hit)
            at = d
      if b.position != position or sorted(mf.available.items()) != items or len(mf.move):
        ctx.fail('asking-changes', '%s: asking changed the board to %s, dice %s' % (
                 about, b.position, mf.available.items()))
        return
  ctx.states += 1
  ctx.traces += 1


def run(ctx):
  turn = 0
  base = [()] + [(p,) for p in (0, 1, 2, 3, 4, 5, 6, 12, 23, 24)]
  extra = list(base)
  extra += [(p, q) for p in range(0, 6) for q in range(p, 6)]
  for src in range(25):
    for other in extra:
      if not ctx.mine():
        continue
      mine = R.side((src,) + other)
      for rolled in R.ROLLS:
        dice = R.dice_of(rolled)
        near = set()
        for k in (1, 2, 3, 4):
          for d in set(dice):
            if d * k <= src and rolled[0] == rolled[1]:
              near.add(23 - (src - d * k))
        if rolled[0] != rolled[1]:
          near = set([23 - (src - d) for d in (rolled[0], rolled[1], sum(rolled)) if src - d >= 0])
        near = sorted(near)
        if not ctx.thorough and len(other) == 2:
          near = near[:1]
        counts = [0] * len(near)
        while True:
          theirs = [0] * 25
          ok = True
          for p, c in zip(near, counts):
            if c and mine[23 - p]:
              ok = False
            theirs[p] = c
          if ok:
            for who in (YOU, HIM):
              if not ctx.thorough and who != (sum(counts) + rolled[0]) % 2 and len(other) > 0:
                continue
              turn += 1
              order = turn % 2 and rolled or rolled[::-1]
              ctx.guarded(THIS, [mine, theirs, who, order, [src], []])
              if len(other) < 2 and (len(other) == 0 or turn % 3 == 0):
                if rolled[0] != rolled[1]:
                  ctx.guarded(THIS, [mine, theirs, who, order, [src], [order[0]]])
                  ctx.guarded(THIS, [mine, theirs, who, order, [src], [order[1]]])
                  ctx.guarded(THIS, [mine, theirs, who, order, [src], list(order)])
                else:
                  ctx.guarded(THIS, [mine, theirs, who, order, [src], [order[0]]])
                  ctx.guarded(THIS, [mine, theirs, who, order, [src], [order[0]] * 2])
                  ctx.guarded(THIS, [mine, theirs, who, order, [src], [order[0]] * 3])
          i = 0
          while i < len(counts) and counts[i] == 2:
            counts[i] = 0
            i += 1
          if i == len(counts):
            break
          counts[i] += 1
      ctx.sample(dict(src=src, others=list(other)))
  ctx.notes['bounds'] = ('one moving chequer on each of 25 points, 0-2 others, every point the roll can touch '
     'empty/blot/held, all 21 rolls in both orders, whole or partly used, every destination')


class THIS(object):
  check_one = staticmethod(check_one)
