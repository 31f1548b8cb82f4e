'''A partial move that the move factory offers is exactly what the rules allow.

Enumerates positions x rolls x players x points; the oracle is bgrules.'''
from bglib.model import Board, BoardEditor, MoveFactory, AvailableToPlay
from bglib.model.constants import YOU, HIM
import bgrules as R


def opponents(places, dice, thorough):
  'the opponent: empty, one point held by 1 or 2, and the pairs a roll can meet'
  yield ()
  for p in range(24):
    yield ((p, 1),)
    yield ((p, 2),)
  seen = set()
  near = set()
  for s in places:
    for d in dice:
      if s - d >= 0:
        near.add(23 - (s - d))
  near = sorted(near)
  for i, p in enumerate(near):
    for q in near[i + 1:]:
      for a in (1, 2):
        for b in (1, 2):
          k = ((p, a), (q, b))
          if k not in seen:
            seen.add(k)
            yield k
  if thorough:
    for p in range(24):
      yield ((p, 3),)
      yield ((p, 1), (24, 1))
      yield ((p, 2), (24, 2))


def movers(thorough):
  for n in (1, 2):
    for places in R.multisets(range(25), n):
      yield places
  for places in R.multisets(range(0, 7), 3):
    yield places
  for places in R.multisets(range(0, 6), 2):
    for far in (6, 7, 12, 17, 18, 23, 24):
      if far > 6:
        yield places + (far,)
  if thorough:
    for places in R.multisets(range(0, 25), 3):
      yield places
    for places in R.multisets(range(0, 7), 4):
      yield places


def expected_source(mine, theirs, src, dice):
  for die in sorted(set(dice), reverse=True):
    got = R.step(mine, theirs, src, die)
    if got:
      return (die, src, got[0], got[1])
  return None


def expected_dest(mine, theirs, dest, dice):
  for die in sorted(set(dice), reverse=True):
    if dest >= 0:
      sources = dest + die <= 24 and [dest + die] or []
    else:
      sources = range(0, 6)
    for src in sources:
      got = R.step(mine, theirs, src, die)
      if got and got[0] == dest:
        return (die, src, got[0], got[1])
  return None


def as_tuple(pm):
  if not pm:
    return None
  return (pm.die, pm.src, pm.dest, bool(pm.is_hitting))


OTHERS = {}


def OTHER(who):
  'a factory with another board and other dice'
  if who not in OTHERS:
    OTHERS[who] = MoveFactory(BoardEditor(rolled=(6, 4), on_action=1 - who, on_inner_action=1 - who))
  return OTHERS[who]


def check_one(ctx, case):
  mine, theirs, who, rolled, left = case
  position = R.position(mine, theirs, who)
  b = BoardEditor(position=position, rolled=tuple(rolled), on_action=who, on_inner_action=who)
  if left is None:
    mf = MoveFactory(b)
    dice = R.dice_of(rolled)
  else:
    mf = MoveFactory(b, available=AvailableToPlay((left, 0)))
    dice = left and (left,) or ()
  items = sorted(mf.available.items())
  asked = 0
  frozen = b.freeze()
  own = AvailableToPlay(copy_src=mf.available)
  for src in range(25):
    if mine[src] == 0 and src not in (0, 5, 24):
      continue
    want = expected_source(mine, theirs, src, dice)
    got = as_tuple(mf.guess_your_single_pm_from_source(src))
    asked += 1
    if got != want:
      ctx.fail('source', 'from point %d with dice %s on %s (on action %d): offered %s, the rules give %s' % (
               src, dice, position, who, got, want))
    if sum(mine) == 1 or src == 5:
      # of another board, with dice of one's own, by a factory that has something else in hand
      again = as_tuple(OTHER(who).guess_your_single_pm_from_source(src, frozen, own))
      if again != want:
        ctx.fail('source-given', 'from point %d, given dice %s and %s (on action %d): offered %s, the rules give %s' % (
                 src, dice, position, who, again, want))
    ctx.outcome(want is None and 'refused' or want[2] < 0 and 'bearoff' or want[3] and 'hit' or 'plain')
  dests = range(-1, 24)
  if not ctx.thorough and sum(mine) > 1:
    dests = set([-1, 0, 18, 23])
    for p in range(25):
      if mine[p]:
        dests.update([p - d for d in dice if p - d >= 0])
  for dest in dests:
    want = expected_dest(mine, theirs, dest, dice)
    got = as_tuple(mf.guess_your_single_pm_from_dest(dest))
    asked += 1
    if got != want:
      ctx.fail('dest', 'to point %d with dice %s on %s (on action %d): offered %s, the rules give %s' % (
               dest, dice, position, who, got, want))
    if sum(mine) == 1 or dest == -1:
      again = as_tuple(OTHER(who).guess_your_single_pm_from_dest(dest, frozen, own))
      if again != want:
        ctx.fail('dest-given', 'to point %d, given dice %s and %s (on action %d): offered %s, the rules give %s' % (
                 dest, dice, position, who, again, want))
    if want:
      ctx.outcome(want[2] < 0 and 'to-off' or 'to-point')
  if sorted(own.items()) != items:
    ctx.fail('asking-takes-dice', 'asking with dice %s on %s (on action %d) took some of them: %s are left' % (
             dice, position, who, own))
  if b.position != position or sorted(mf.available.items()) != items or len(mf.move):
    ctx.fail('asking-changes', 'asking for moves changed the board or the dice: %s -> %s' % (position, b.position))
  ctx.states += 1
  ctx.transitions += asked
  ctx.traces += 1


def without(mine, opp):
  theirs = [0] * 25
  for p, c in opp:
    if p == 24 or mine[23 - p] == 0:
      theirs[p] += c
  return theirs


def run(ctx):
  unit = 0
  for places in movers(ctx.thorough):
    if not ctx.mine():
      continue
    mine = R.side(places)
    for k, rolled in enumerate(R.ROLLS):
      dice = R.dice_of(rolled)
      for j, opp in enumerate(opponents(places, dice, ctx.thorough or len(places) == 1)):
        theirs = without(mine, opp)
        players = (YOU, HIM)
        if not ctx.thorough and len(places) > 1:
          # quick: the players take turns, and single far points are dealt out over the rolls
          if len(opp) == 1 and (opp[0][0] + k) % 8 and 23 - opp[0][0] not in [p - d for p in places for d in dice]:
            continue
          unit += 1
          players = ((YOU, HIM)[unit % 2],)
        for who in players:
          ctx.guarded(THIS, [mine, theirs, who, (unit + j) % 2 and rolled or rolled[::-1], None])
    # many chequers, of either
    if len(places) < 3:
      for k, rolled in enumerate(R.ROLLS):
        for many in (3, 4, 15):
          full = [c and c + many - 2 for c in mine]
          near = places[0] >= rolled[0] and ((23 - (places[0] - rolled[0]), many),) or ()
          theirs = without(mine, near + ((24, many - 1), (12, 1)))
          who = (k + many) % 2
          ctx.guarded(THIS, [mine, theirs, who, rolled[::-1], None])
          ctx.guarded(THIS, [full, theirs, 1 - who, rolled, None])
    for die in range(1, 7):
      for who in (YOU, HIM):
        theirs = without(mine, ((23, 2), (21, 1), (0, 1)))
        ctx.guarded(THIS, [mine, theirs, who, (die, die % 6 + 1), die])
    ctx.guarded(THIS, [mine, without(mine, ((3, 1),)), len(places) % 2, (6, 5), 0])
    ctx.sample(dict(mover=list(places), rolls=len(R.ROLLS)))
  ctx.notes['bounds'] = ('mover: all placements of 1-2 chequers, all home-board placements of 3 and 2+1 far; '
    'opponent: none, every single point x {1,2}, every pair of points the roll reaches, 3, 4 and 15 chequers there and on the bar; '
    'all 21 rolls in both orders; both players')


class THIS(object):
  check_one = staticmethod(check_one)
