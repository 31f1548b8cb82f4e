'''Backgammon's rules, written from the rules of the game and not from bglib:
the oracle the checks of the model compare bglib with.

A side is a list of 25 counts: index 0 is its ace point, 23 its 24 point, 24
the bar.  "mine" is the side that moves; the same point is mine[i] and
theirs[23 - i].'''
OFF = -1
BAR = 24


def dice_of(rolled):
  a, b = rolled
  if a == 0:
    return ()
  if a == b:
    return (a,) * 4
  return tuple(sorted((a, b), reverse=True))


def step(mine, theirs, src, die):
  '(dest, hit) when the rules let one chequer move from src by die, else None.'
  if mine[src] <= 0:
    return None
  if src != BAR and mine[BAR]:
    return None
  dest = src - die
  if dest >= 0:
    blots = theirs[23 - dest]
    if blots > 1:
      return None
    return dest, blots == 1
  for i in range(6, 25):
    if mine[i]:
      return None
  if dest == -1:
    return OFF, False
  for i in range(src + 1, 6):
    if mine[i]:
      return None
  return OFF, False


def play(mine, theirs, src, dest, hit):
  mine, theirs = list(mine), list(theirs)
  mine[src] -= 1
  if dest != OFF:
    mine[dest] += 1
  if hit:
    theirs[23 - dest] -= 1
    theirs[BAR] += 1
  return mine, theirs


def unplay(mine, theirs, src, dest, hit):
  mine, theirs = list(mine), list(theirs)
  mine[src] += 1
  if dest != OFF:
    mine[dest] -= 1
  if hit:
    theirs[23 - dest] += 1
    theirs[BAR] -= 1
  return mine, theirs


def steps(mine, theirs, dice):
  'every legal (die, src, dest, hit)'
  for die in sorted(set(dice)):
    for src in range(25):
      got = step(mine, theirs, src, die)
      if got:
        yield die, src, got[0], got[1]


def less(dice, die):
  dice = list(dice)
  dice.remove(die)
  return tuple(dice)


def most(mine, theirs, dice, memo=None):
  'the largest number of dice that can be played'
  if not dice:
    return 0
  if memo is None:
    memo = {}
  key = (tuple(mine), tuple(theirs), tuple(sorted(dice)))
  if key in memo:
    return memo[key]
  best = 0
  for die, src, dest, hit in steps(mine, theirs, dice):
    m, t = play(mine, theirs, src, dest, hit)
    best = max(best, 1 + most(m, t, less(dice, die), memo))
    if best == len(dice):
      break
  memo[key] = best
  return best


def may_stop(mine, theirs, dice, left):
  '''Whether a turn that started at (mine, theirs) with dice and has left
  unplayed may end: as many dice as possible were played, and when only one of
  two different dice can be played, the larger if either can.'''
  n = most(mine, theirs, dice)
  if len(dice) - len(left) < n:
    return False
  if n == 1 and len(set(dice)) == 2:
    big = max(dice)
    if big in left:
      for src in range(25):
        if step(mine, theirs, src, big):
          return False
  return True


def reach(mine, theirs, src, dest, dice):
  'the dice sequences by which one chequer gets from src to dest'
  found = []
  for die in sorted(set(dice), reverse=True):
    got = step(mine, theirs, src, die)
    if not got:
      continue
    if got[0] == dest:
      found.append((die,))
    elif got[0] > dest:
      m, t = play(mine, theirs, src, got[0], got[1])
      for rest in reach(m, t, got[0], dest, less(dice, die)):
        found.append((die,) + rest)
  return found


def position(mine, theirs, on_action):
  mine, theirs = tuple(mine), tuple(theirs)
  if on_action == 0:
    return (mine, theirs)
  return (theirs, mine)


def side(places):
  'a side with a chequer on each index of places'
  s = [0] * 25
  for p in places:
    if p != OFF:
      s[p] += 1
  return s


def multisets(points, n):
  points = list(points)
  if n == 0:
    yield ()
    return
  for i, p in enumerate(points):
    for rest in multisets(points[i:], n - 1):
      yield (p,) + rest


ROLLS = [(a, b) for a in range(1, 7) for b in range(1, a + 1)]
START = [0] * 25
for _i, _n in ((5, 5), (7, 3), (12, 5), (23, 2)):
  START[_i] = _n
