'''Both players play by the same rules: flipping a board is an involution that
swaps the players and nothing else, and every question asked and every action
made on the flipped board gives the flipped answer.'''
from bglib.model import Board, BoardEditor, MoveFactory, PartialMove
from bglib.model.constants import *
import bgrules as R

KEYS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state',
        'on_inner_action', 'doubled', 'resign_offer', 'rolled', 'match_length', 'score')
SWAP = {YOU: HIM, HIM: YOU, CENTER: CENTER}
POSITIONS = [
  (tuple(R.START), tuple(R.side((23, 12, 5, 5, 0)))),
  (tuple(R.side((24, 20, 5, 4))), tuple(R.side((24, 18, 18, 3)))),
  (tuple(R.side((0, 1, 4))), tuple(R.side((0, 2, 5, 5)))),
  (tuple(R.side((24, 24))), tuple(R.side((5, 5, 4, 3)))),
]


def read(b):
  return dict([(k, getattr(b, k)) for k in KEYS])


def mirror(s):
  n = dict(s)
  n['position'] = (s['position'][1], s['position'][0])
  n['score'] = (s['score'][1], s['score'][0])
  for k in ('cube_owner', 'on_action', 'on_inner_action'):
    n[k] = SWAP[s[k]]
  return n


def outcome(f, *args):
  try:
    return f(*args)
  except Exception, e:
    return type(e).__name__


def moves(b):
  if b.rolled == (0, 0):
    return None
  mf = MoveFactory(b)
  found = []
  for src in range(25):
    found.append(str(mf.guess_your_single_pm_from_source(src)))
  for dest in range(-1, 24):
    found.append(str(mf.guess_your_single_pm_from_dest(dest)))
  found.append(mf.is_leagal_to_pickup_dice())
  for src in (24, 23, 20, 12, 5):
    for dest in (-1, 0, 5, 12, 18):
      if dest < src:
        found.append(str(mf.guess_your_multiple_pms(src, dest)))
  for dest in range(24):
    found.append(str(mf.guess_your_making_point(dest)))
  return found


def landing(b):
  found = []
  for n in range(-1, 24):
    found.append((bool(b.is_open_to_land(n)), bool(b.is_hitting_to_land(n))))
  for n in range(25):
    found.append(int(b.has_chequer_to_move(n)))
  for n in range(6):
    for die in range(n + 1, 7):
      found.append(bool(b.is_ok_to_bearoff_from(n, die)))
  for die in range(1, 7):
    found.append(b.find_src_of_bearoff_with(die))
  return found


ASK = ('is_leagal_to_roll', 'is_leagal_to_move', 'is_leagal_to_double', 'is_cube_take_or_pass',
       'is_leagal_to_redouble', 'is_leagal_to_resign', 'is_to_accept_resign')
DO = (('double', ()), ('take', ()), ('drop', ()), ('offer_resign', (1,)), ('offer_resign', (2,)), ('offer_resign', (3,)),
      ('accept_resign', ()), ('reject_resign', ()))


def check_one(ctx, case):
  values, deep = case
  s = dict(zip(KEYS, values))
  s['position'] = tuple([tuple(x) for x in s['position']])
  s['rolled'], s['score'] = tuple(s['rolled']), tuple(s['score'])
  about = ', '.join(['%s=%s' % (k, s[k]) for k in KEYS])
  make = lambda: BoardEditor(Board(**s))
  a, z = make(), make()
  if read(a) != s:
    ctx.fail('copy', 'an editor of the board with %s reads %s' % (about, read(a)))
    return
  z.flip()
  if read(z) != mirror(s):
    got, want = read(z), mirror(s)
    ctx.fail('flip', 'flipping %s: %s' % (about, ', '.join(
      ['%s=%s instead of %s' % (k, got[k], want[k]) for k in KEYS if got[k] != want[k]])))
    return
  y = make()
  y.flip()
  y.flip()
  if read(y) != s:
    ctx.fail('involution', 'flipping twice %s gives %s' % (about, read(y)))
  ctx.transitions += 3
  for name in ASK:
    for who in (YOU, HIM):
      p, q = outcome(getattr(a, name), who), outcome(getattr(z, name), 1 - who)
      ctx.transitions += 1
      if bool(p) != bool(q):
        ctx.fail(name, '%s(%d) is %s, but %s(%d) is %s when flipped, with %s' % (
                 name, who, p, name, 1 - who, q, about))
  for name, args in DO:
    for who in (YOU, HIM):
      a2, z2 = make(), BoardEditor(z)
      p = outcome(getattr(a2, name), who, *args)
      q = outcome(getattr(z2, name), 1 - who, *args)
      ctx.transitions += 1
      if p is None and q is None:
        ctx.outcome(name)
      if (p is None) != (q is None) or read(z2) != mirror(read(a2)):
        ctx.fail(name, '%s(%d%s) on %s gives %s, flipped %s' % (name, who, args, about, p or read(a2), q or read(z2)))
  a2, z2 = make(), BoardEditor(z)
  if a2.on_inner_action != CENTER:
    a2.pickupdice()
    z2.pickupdice()
    if read(z2) != mirror(read(a2)):
      ctx.fail('pickupdice', 'pickupdice() on %s gives %s, flipped %s' % (about, read(a2), read(z2)))
  if deep:
    p, q = landing(a), landing(z)
    if p != q:
      ctx.fail('landing', 'points open to land on, chequers and bear-offs differ when flipped: %s' % about)
    p, q = moves(a), moves(z)
    ctx.transitions += 100
    if p != q:
      ctx.fail('moves', 'the moves offered differ when flipped: %s: %s' % (about, [
        (x, y) for x, y in zip(p, q) if x != y][:3]))
    if a.rolled != (0, 0):
      ctx.outcome('moves')
      for src in range(24, -1, -1):
        if not a.has_chequer_to_move(src):
          continue
        pm = MoveFactory(a).guess_your_single_pm_from_source(src)
        if pm:
          a2, z2 = make(), BoardEditor(z)
          a2.make_partial_move(pm)
          z2.make_partial_move(pm)
          if read(z2) != mirror(read(a2)):
            ctx.fail('make', 'making %s on %s gives %s, flipped %s' % (pm, about, a2.position, z2.position))


def run(ctx):
  cubes = [(0, CENTER), (1, YOU), (1, HIM), (2, HIM)]
  matches = [(0, (0, 0)), (0, (3, 1)), (1, (0, 0)), (5, (4, 2)), (5, (2, 4)), (5, (1, 4)), (5, (3, 3)), (7, (6, 5))]
  if ctx.thorough:
    cubes += [(0, YOU), (0, HIM), (2, YOU), (3, CENTER), (2, CENTER)]
    matches = [(0, (0, 0)), (0, (3, 1))] + [(m, (i, j)) for m in (1, 2, 3, 5, 7) for i in range(m) for j in range(m)]
  for match_length, score in matches:
    for on_action in (YOU, HIM):
      for inner in (YOU, HIM, CENTER):
        for cube, owner in cubes:
          for state in (ON_GOING, NOT_STARTED, FINISHED, RESIGNED, DOUBLED_OUT):
            if not ctx.mine():
              continue
            for crawford in (False, True):
              for doubled in (False, True):
                for offer in range(4):
                  for rolled in ((0, 0), (6, 1), (3, 3), (2, 4)):
                    deep = (state == ON_GOING and offer == 0 and not doubled and inner == on_action
                            and match_length == 5)
                    for i, position in enumerate(POSITIONS):
                      if i and not deep:
                        continue
                      ctx.states += 1
                      ctx.traces += 1
                      ctx.guarded(THIS, [[position, cube, owner, on_action, crawford, state, inner, doubled,
                                          offer, rolled, match_length, score], deep])
            ctx.sample(dict(on_action=on_action, inner=inner, cube=cube, owner=owner, match=match_length, score=score))
  # flipping positions: every single chequer on either side
  for side in (0, 1):
    for p in range(25):
      if ctx.mine():
        pos = [[0] * 25, R.side((3, 3, 24))]
        pos[0][p] = 2
        if side:
          pos.reverse()
        for rolled in R.ROLLS + [(1, 6), (2, 5), (4, 5)]:
          ctx.states += 1
          ctx.traces += 1
          ctx.guarded(THIS, [[pos, 0, CENTER, YOU, False, ON_GOING, YOU, False, 0, rolled, 0, (0, 0)], True])


class THIS(object):
  check_one = staticmethod(check_one)
