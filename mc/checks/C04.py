'''When a turn may end: compared with the rules (as many dice as possible, the
larger when only one can be played), for every reachable point of the turn, and
asking has no effect on the board, the dice or the move.'''
from bglib.model import BoardEditor, MoveFactory
from bglib.model.constants import YOU, HIM
import bgrules as R


def check_one(ctx, case):
  'case: the position, roll and the steps played so far'
  mine, theirs, who, rolled, played = case
  b = BoardEditor(position=R.position(mine, theirs, who), rolled=tuple(rolled),
                  on_action=who, on_inner_action=who)
  mf = MoveFactory(b)
  dice = left = R.dice_of(rolled)
  m, t = mine, theirs
  for src, dest in played:
    mv = mf.guess_your_multiple_pms(src, dest)
    if not mv or len(mv) != 1:
      ctx.outcome('step-not-offered')   # C01's and C02's business
      return
    pm = list(mv)[0]
    r = R.step(m, t, pm.src, pm.die)
    if r is None:
      return
    mf.add(mv)
    m, t = R.play(m, t, pm.src, r[0], r[1])
    left = R.less(left, pm.die)
  before = (b.position, sorted(mf.available.items()), str(mf.move), b.rolled, b.on_action)
  want = R.may_stop(mine, theirs, dice, left)
  got = bool(mf.is_leagal_to_pickup_dice())
  again = bool(mf.is_leagal_to_pickup_dice())
  after = (b.position, sorted(mf.available.items()), str(mf.move), b.rolled, b.on_action)
  ctx.transitions += 2
  about = 'after %s with dice %s from %s (on action %d)' % (
    played, dice, R.position(mine, theirs, who), who)
  ctx.outcome('%s-left%d-%s' % (len(set(dice)) == 1 and 'doubles' or 'mixed', len(left), want))
  if got != want:
    ctx.fail('answer', '%s: %s to pick up the dice, but the rules say %s' % (
             about, got and 'allowed' or 'not allowed', want))
  # the same asked of a factory that comes to the turn in the middle
  late = MoveFactory(BoardEditor(b), move=mf.move, available=mf.available)
  if bool(late.is_leagal_to_pickup_dice()) != want:
    ctx.fail('late', '%s: a factory made then %s' % (about, want and 'does not allow to pick up the dice' or
             'allows to pick up the dice'))
  # and done
  try:
    late.pickupdice()
    done = True
  except AssertionError:
    done = False
  passed = (late.board.position == b.position and late.board.rolled == (0, 0) and
            late.board.on_action == 1 - who and late.board.on_inner_action == 1 - who)
  kept = (late.board.position == b.position and late.board.rolled == b.rolled and
          late.board.on_action == who and late.board.on_inner_action == who)
  if done != want or not (want and passed or not want and kept):
    ctx.fail('done', '%s: picking up the dice is %s, and leaves %s' % (about, done and 'done' or 'refused', late.board))
  if again != got or before != after:
    ctx.fail('asking-changes', '%s: asking changed %s to %s' % (about, before, after))


def explore(ctx, mine, theirs, who, rolled):
  'every point of every turn from here (steps as (src, dest))'
  seen = set()
  dice = R.dice_of(rolled)
  stack = [(mine, theirs, dice, [])]
  while stack:
    m, t, left, played = stack.pop()
    key = (tuple(m), tuple(t), left)
    if key in seen:
      continue
    seen.add(key)
    ctx.states += 1
    ctx.traces += 1
    ctx.guarded(THIS, [mine, theirs, who, list(rolled), played])
    for die, src, dest, hit in R.steps(m, t, left):
      m2, t2 = R.play(m, t, src, dest, hit)
      stack.append((m2, t2, R.less(left, die), played + [[src, dest]]))


def holds(ctx):
  'opponents: sets of held points, and blots, that matter to small positions'
  yield []
  # a prime of length n ending at each place, with gaps
  for first in range(0, 24):
    for n in (1, 2, 4, 6):
      if first + n <= 24:
        yield [(p, 2) for p in range(first, first + n)]
  # single open point in the home board
  for gap in range(18, 24):
    yield [(23 - p, 2) for p in range(18, 24) if p != gap]
  yield [(23 - p, 2) for p in range(18, 24)]
  for gap in (18, 20, 23):
    yield [(23 - p, p == gap and 1 or 2) for p in range(18, 24)]


def cases(ctx):
  # one or two chequers against primes, everywhere
  for places in list(R.multisets((24, 23, 20, 17, 14, 12, 8, 6, 5, 3, 1, 0), 1)) + \
                list(R.multisets((24, 23, 18, 13, 10, 7, 6, 5, 4, 2, 0), 2)):
    for opp in holds(ctx):
      yield places, opp
  # two or three chequers and all patterns of the landing points of two dice
  for places in [(24,), (24, 24), (23,), (23, 22), (15, 10), (24, 12), (24, 5), (9, 8), (12, 6), (24, 6, 6)]:
    pts = sorted(set([s - d for s in set(places) for d in (1, 2, 3, 6) if s - d >= 0]))[:7]
    for mask in range(1 << len(pts)):
      yield places, [(23 - p, 2) for i, p in enumerate(pts) if mask >> i & 1]
  # bearing off
  for n in (1, 2, 3):
    for places in R.multisets(range(0, 7), n):
      yield places, []
      yield places, [(23, 2)]
      yield places, [(21, 2), (24, 1)]


def run(ctx):
  k = 0
  for places, opp in cases(ctx):
    if not ctx.mine():
      continue
    mine = R.side(places)
    theirs = [0] * 25
    for p, c in opp:
      if p == 24 or mine[23 - p] == 0:
        theirs[p] += c
    for rolled in R.ROLLS:
      k += 1
      if not ctx.thorough and len(places) > 1 and opp and (k % 3):
        continue
      for who in (YOU, HIM):
        if ctx.thorough or who == k % 2:
          explore(ctx, mine, theirs, who, k % 4 < 2 and rolled or rolled[::-1])
    ctx.sample(dict(mover=list(places), opponent=opp))


class THIS(object):
  check_one = staticmethod(check_one)
