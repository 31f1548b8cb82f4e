'''A FIBS board line is read as the board it describes, whoever is to play, whichever
colour and direction you have, and whatever the board read before.'''
from bglib.encoding import FIBS
from bglib.model import BoardEditor
from bglib.model.constants import YOU, HIM, CENTER, ON_GOING, FINISHED
import bgrules as R


def line(you, him, colour, direction, turn, dice, cube, you_may, he_may, doubled, length, scores):
  'as FIBS sends it; you, him: 25 counts as seen by their owner'
  board = [0] * 26
  for side, col, di in ((you, colour, direction), (him, -colour, -direction)):
    for i in range(25):
      if side[i]:
        # a side with direction -1 runs from 24 to 1 and enters from 25
        board[di < 0 and i + 1 or 24 - i] = col * side[i]
  yours = turn == colour and dice or (0, 0)
  his = turn == -colour and dice or (0, 0)
  left = [15 - sum(you), 15 - sum(him)]
  f = ['You', 'someplayer', length, scores[0], scores[1]] + board + [turn] + list(yours) + list(his) + \
      [1 << cube, you_may, he_may, doubled, colour, direction, direction < 0 and 0 or 25, direction < 0 and 25 or 0] + \
      left + [you[24], him[24], 2, 0, 0, 0]
  return 'board:' + ':'.join([str(x) for x in f])


def used():
  b = BoardEditor()
  b.position = (tuple(R.side((3, 4))), tuple(R.side((7,))))
  b.cube_in_logarithm = 4
  b.cube_owner = HIM
  b.on_action = HIM
  b.on_inner_action = YOU
  b.crawford = True
  b.doubled = True
  b.resign_offer = 2
  b.rolled = (6, 6)
  b.match_length = 13
  b.score = (4, 5)
  return b


def check_one(ctx, case):
  if case[0] == 'message':
    return check_message(ctx, case[1], case[2], case[3])
  if case[0] == 'after':
    return check_after(ctx, *case[1:])
  text, act, want = expected(case)
  for kind, b in (('new', BoardEditor()), ('used', used())):
    read(ctx, kind, b, kind == 'new' and unicode(text) or text, want)
  ctx.states += 1
  ctx.traces += 1
  ctx.outcome('colour%d-direction%d-act%s-doubled%s' % (case[2], case[3], act, case[9]))


def read(ctx, kind, b, text, want):
  FIBS.decode(b, text)
  ctx.transitions += 1
  for n, v in sorted(want.items()):
    got = getattr(b, n)
    if got != v:
      ctx.fail('%s-%s' % (kind, n), '%r read into a %s board: %s is %r instead of %r' % (text, kind, n, got, v))
      return False
  return True


def check_after(ctx, cases):
  'one board reads one line after the other'
  b = BoardEditor()
  for k, case in enumerate(cases):
    text, act, want = expected(case)
    ctx.states += 1
    if not read(ctx, 'after %d lines' % k, b, text, want):
      return
  ctx.traces += 1
  ctx.outcome('one after the other')


def expected(case):
  you, him, colour, direction, turn, dice, cube, you_may, he_may, doubled, length, scores = case
  text = line(you, him, colour, direction, turn, tuple(dice), cube, you_may, he_may, doubled, length, scores)
  act = {colour: YOU, -colour: HIM, 0: None}[turn]
  want = dict(position=(tuple(you), tuple(him)), cube_in_logarithm=cube,
              cube_owner={(1, 1): CENTER, (1, 0): YOU, (0, 1): HIM, (0, 0): CENTER}[(you_may, he_may)],
              crawford=not you_may and not he_may, doubled=bool(doubled), resign_offer=0,
              match_length=length, score=tuple(scores))
  if act is None:
    want.update(game_state=FINISHED, rolled=(0, 0))
  else:
    want.update(on_action=act, on_inner_action=(act, 1 - act)[doubled], game_state=ON_GOING,
                rolled=tuple(dice))
  return text, act, want


def check_message(ctx, function, text, want):
  ctx.states += 1
  ctx.transitions += 1
  ctx.traces += 1
  got = getattr(FIBS, function)(text.encode('ascii'))
  if isinstance(got, tuple):
    got = list(got)
  if got != want:
    ctx.fail(function, '%s(%r) is %r instead of %r' % (function, text, got, want))
  ctx.outcome(function)


def run(ctx):
  empty = [0] * 25
  plain = (6, 2)
  start = list(R.START)
  shapes = [(start, start)]
  for p in range(25):
    for n in range(1, 16):
      shapes.append((R.side([p] * n), empty))
      shapes.append((empty, R.side([p] * n)))
  for p in range(25):
    for q in range(25):
      if p == 24 or q == 24 or q != 23 - p:
        shapes.append((R.side([p, p]), R.side([q] * 3)))
  for you, him in shapes:
    if not ctx.mine():
      continue
    for colour in (1, -1):
      for direction in (1, -1):
        for turn in (1, -1):
          ctx.guarded(THIS, [you, him, colour, direction, turn, plain, 0, 1, 1, 0, 3, (0, 1)])
    ctx.sample(dict(you=you, him=him))
  you = R.side([24, 23, 12, 12, 5, 5, 5, 0])
  him = R.side([24, 24, 20, 7, 6, 6, 6, 1])
  dice = [(0, 0)] + [(a, b) for a in range(1, 7) for b in range(1, 7)]
  for cube in range(0, 11):
    for colour in (1, -1):
      for direction in (1, -1):
        if not ctx.mine():
          continue
        for turn in (1, -1, 0):
          for d in turn and dice or [(0, 0)]:
            for may in ((1, 1), (1, 0), (0, 1), (0, 0)):
              for doubled in turn and (0, 1) or (0,):
                if doubled and d != (0, 0):
                  continue
                for length, scores in ((1, (0, 0)), (7, (6, 2)), (9999, (12, 30))):
                  if not ctx.thorough and length != 7 and d not in ((0, 0), (3, 1), (6, 6)):
                    continue
                  ctx.guarded(THIS, [you, him, colour, direction, turn, d, cube, may[0], may[1], doubled, length, scores])
  sometimes = [[you, him, c, d, t, roll, cube, may[0], may[1], doubled, length, scores]
               for c, d, t in ((1, 1, 1), (-1, 1, 1), (1, -1, -1), (-1, -1, 0))
               for roll, doubled in (t and [((0, 0), 0), ((0, 0), 1), ((6, 6), 0)] or [((0, 0), 0)])
               for cube, may, length, scores in ((0, (1, 1), 7, (6, 2)), (3, (0, 1), 11, (0, 10)), (1, (1, 0), 1, (0, 0)), (0, (0, 0), 9999, (12, 30)))]
  sometimes += [[start, start, 1, 1, 1, (3, 1), 0, 1, 1, 0, 3, (0, 1)], [empty, R.side([4] * 15), -1, 1, -1, (2, 2), 2, 1, 0, 0, 5, (1, 4)]]
  for first in sometimes:
    if ctx.mine():
      for second in sometimes:
        ctx.guarded(THIS, ['after', [first, second, first]])
  if ctx.mine():
    ctx.guarded(THIS, ['after', sometimes * 12])
  for n in range(40, 10000, ctx.thorough and 7 or 83) + [99, 100, 127, 128, 255, 256, 257, 999, 1000, 9998, 9999]:
    if ctx.mine():
      for scores in ((0, n - 1), (n - 1, n // 2), (n - 1, n - 1)):
        for colour, direction in ((1, 1), (-1, -1)):
          ctx.guarded(THIS, [you, him, colour, direction, colour, (4, 2), n % 20, 1, 0, 0, n, scores])
  names = ['You', 'a', 'gBOTworldclass', 'some_player', '<x>', 'Zed_']
  for name in names:
    if not ctx.mine():
      continue
    for a, b in dice[1:]:
      for s in ('%s rolls %d and %d.', '%s roll %d and %d'):
        ctx.guarded(THIS, ['message', 'get_dice', s % (name, a, b), [a, b]])
    for s in ('%s accepts the double. The cube shows 2.', '%s rolls 3 and 1.', '%s wins a 3 point match', '%s moves 24-18 .'):
      ctx.guarded(THIS, ['message', 'get_name', s % name, name])
    ctx.guarded(THIS, ['message', 'get_taker_name', '%s accepts the double. The cube shows 2.' % name, name])
    ctx.guarded(THIS, ['message', 'get_taker_name', '%s gives up. You win 1 point.' % name, None])
    for n in range(0, 200, 3) + [1, 2, 3]:
      ctx.guarded(THIS, ['message', 'get_score', '%s gets %d points' % (name, n), n])
      ctx.guarded(THIS, ['message', 'get_resign_score', '%s wants to resign. You will win %d points.' % (name, n), n])
      ctx.guarded(THIS, ['message', 'get_match_scores', '%s-%d %s-%d in a %d point match' % (name, n, name, n // 2, n + 1),
                         [n, n // 2, n + 1]])
  ctx.notes['bounds'] = ('every stack of 1-15 on every point for either side, every pair of one stack each, all four '
    'colour/direction pairings, both turns; cube, rights to double, all rolls, doubled, lengths and scores to 9999; new and used boards, every two of %d lines in turn and %d lines one after the other' % (len(sometimes), 12 * len(sometimes)))


class THIS(object):
  check_one = staticmethod(check_one)
