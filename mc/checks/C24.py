'''A tournament: every draw and every result of a round, until it is decided.

The random module is the environment: every shuffle of the players and both results of
every match are enumerated, and all states of the tournament reachable that way are visited.'''
import itertools
import math
import random
from bglib.stat import tourney, rating

PLAYERS = {'equal': [1000] * 6, 'spread': [1000, 1200, 1500, 1800, 900, 2000]}


class Environment(object):
  '''random.shuffle gives the chosen permutation; random.random the chosen numbers'''
  def __init__(self, order, results):
    self.order, self.results, self.asked = list(order), list(results), 0

  def shuffle(self, xs, *ignored):
    ys = sorted(xs)
    xs[:] = [ys[i] for i in self.order]

  def sample(self, xs, k):
    ys = sorted(xs)
    return [ys[i] for i in self.order][:k]

  def random(self):
    self.asked += 1
    return self.results[self.asked - 1]

  def uniform(self, a, b):
    return a + (b - a) * self.random()


CHANCE = dict((n, getattr(random, n)) for n in ('shuffle', 'sample', 'random', 'uniform'))
# under whatever names the modules have them
PLACES = [(m, k, n) for m in (random, tourney, rating) for k, v in sorted(vars(m).items()) for n in sorted(CHANCE) if v == CHANCE[n]]


def controlled(env):
  'chance is the environment'
  for m, k, n in PLACES:
    setattr(m, k, getattr(env, n))


def put_back():
  for m, k, n in PLACES:
    setattr(m, k, CHANCE[n])


def played(state, env, length=7):
  'a round from this state: (lives, rating) by name -> the tournament afterwards'
  controlled(env)
  try:
    alive = dict([(k, tourney.Player(lives, r)) for k, lives, r in state if lives > 0])
    t = tourney.Tourney(len(alive), alive)
    for k, lives, r in state:
      if lives <= 0:
        t.dead[k] = tourney.Player(lives, r)
    t.matchlength = length
    t.round()
    return t
  finally:
    put_back()


def chance(a, b, length):
  'that a beats b'
  return 1.0 / (1.0 + math.pow(10.0, (b - a) * math.sqrt(length) / 2000.0))


def after(ctx, state, t):
  'what the round did; None if it is no round'
  before = dict([(k, (lives, r)) for k, lives, r in state])
  if sorted(t.alive.keys() + t.dead.keys()) != sorted(before):
    return ctx.fail('lost', 'from %s the tournament has %s alive and %s dead' % (state, sorted(t.alive), sorted(t.dead)))
  losers = []
  for k, (lives, r) in before.items():
    p = k in t.alive and t.alive[k] or t.dead[k]
    if (k in t.alive) != (p.lives > 0) or p.isdead() != (p.lives <= 0):
      return ctx.fail('dead', 'from %s player %s has %d lives and is %s' % (state, k, p.lives, k in t.alive and 'alive' or 'dead'))
    if p.rating != r:
      return ctx.fail('rating', 'from %s the rating of %s becomes %s' % (state, k, p.rating))
    if lives > 0 and p.lives == lives - 1:
      losers.append(k)
    elif p.lives != lives:
      return ctx.fail('lives', 'from %s player %s goes from %d lives to %d' % (state, k, lives, p.lives))
  alive = [k for k, lives, r in state if lives > 0]
  if len(losers) != len(alive) // 2:
    return ctx.fail('losers', 'of %d players %d lose a round' % (len(alive), len(losers)))
  return frozenset(losers)


LOW, HIGH = 1e-9, 1.0 - 1e-9


def check_one(ctx, case):
  if case[0] == 'round':
    return check_round(ctx, [tuple(p) for p in case[1]], True)
  if case[0] == 'pair':
    return check_pair(ctx, *case[1:])
  if case[0] == 'new':
    return check_new(ctx, case[1])
  if case[0] == 'large':
    return check_large(ctx, *case[1:])
  if case[0] == 'whole':
    return check_whole(ctx, *case[1:])
  return check_money(ctx, *case[1:])


def check_round(ctx, state, count=False):
  'all draws and results from this state; gives the states they lead to'
  alive = sorted([k for k, lives, r in state if lives > 0])
  n = len(alive)
  found = set()
  met = {}
  for order in itertools.permutations(range(n)):
    sets = set()
    for results in itertools.product((LOW, HIGH), repeat=n // 2):
      env = Environment(order, results)
      t = played(state, env)
      ctx.transitions += 1
      losers = after(ctx, state, t)
      if losers is None:
        return found
      sets.add(losers)
      found.add(tuple([(k, lives - (k in losers and 1 or 0), r) for k, lives, r in state]))
    if len(sets) != 2 ** (n // 2):
      ctx.fail('results', 'with %s drawn from %s only %d of %d results are possible' % (
               order, state, len(sets), 2 ** (n // 2)))
      return found
    # who met whom: two players who never lose together, in pairs
    for a, b in itertools.combinations(alive, 2):
      if not [s for s in sets if (a in s) == (b in s)]:
        met[a, b] = met.get((a, b), 0) + 1
  ctx.traces += 1
  ctx.outcome('%d-alive' % n)
  if n > 1:
    times = [met.get(p, 0) for p in itertools.combinations(alive, 2)]
    if len(set(times)) != 1 or not times[0]:
      ctx.fail('draw', 'over all shuffles of %s the pairs meet %s times' % (state, met))
  return found


def check_pair(ctx, a, b, length):
  'the share of the numbers random() may give for which each of two players wins'
  grid = 64
  state = [('a', 3, a), ('b', 3, b)]
  for order in ((0, 1), (1, 0)):
    wins = 0
    for i in range(grid):
      t = played(state, Environment(order, [(i + .5) / grid]), length)
      ctx.transitions += 1
      losers = after(ctx, state, t)
      if losers is None:
        return
      if 'b' in losers:
        wins += 1
    want = chance(a, b, length) * grid
    if abs(wins - want) > 1.0:
      ctx.fail('chance', 'rated %s, against %s, over %d points: wins %d of %d, should be %.1f' % (
               a, b, length, wins, grid, want))
  ctx.traces += 1


def check_large(ctx, n, length):
  'more players than all draws can be tried of: some draws with all results, and each match at every random number'
  ratings = [1000 + 137 * (i * 5 % n) for i in range(n)]
  state = [(i, 1 + i % 2, ratings[i]) for i in range(n)]
  orders = [[(i + k) % n for i in range(n)] for k in range(0, n, max(1, n // 4))]
  orders += [o[::-1] for o in orders] + [range(0, n, 2) + range(1, n, 2)]
  for order in orders:
    sets = set()
    m = n // 2
    for results in itertools.product((LOW, HIGH), repeat=m) if m < 7 else [
        [(i >> j) % 2 and LOW or HIGH for j in range(m)] for i in range(0, 1 << m, (1 << m) // 64 + 1)]:
      t = played(state, Environment(order, results), length)
      ctx.transitions += 1
      losers = after(ctx, state, t)
      if losers is None:
        return
      sets.add(losers)
    pairs = [(a, b) for a, b in itertools.combinations(range(n), 2) if not [s for s in sets if (a in s) == (b in s)]]
    if m < 7 and (len(sets) != 2 ** m or len(pairs) != m or len(set(sum(map(list, pairs), []))) != 2 * m):
      ctx.fail('large-draw', 'with %s drawn %d results are possible, with these pairs always on two sides: %s' % (order, len(sets), pairs))
      return
    if m >= 7:
      continue
    # the share of the numbers with which each wins its match, whatever happens in the others
    grid = 32
    for others in LOW, HIGH:
      wins = {}
      for at in range(m):
        for i in range(grid):
          results = [others] * m
          results[at] = (i + .5) / grid
          losers = after(ctx, state, played(state, Environment(order, results), length))
          ctx.transitions += 1
          if losers is None:
            return
          for k in losers:
            wins[k, at] = wins.get((k, at), 0) + 1
      for a, b in pairs:
        best = min([abs(wins.get((b, at), 0) - chance(ratings[a], ratings[b], length) * grid) for at in range(m)
                    if wins.get((a, at), 0) + wins.get((b, at), 0) == grid and (0 < wins.get((a, at), 0) < grid or m == 1)] or [99])
        p = chance(ratings[a], ratings[b], length)
        if best > 1.0 and 2.0 / grid < p < 1 - 2.0 / grid:
          ctx.fail('large-chance', 'rated %d, against %d, over %d points, among %d: the chance is %.3f, and the results are %s' % (
                   ratings[a], ratings[b], length, n, p, wins))
          return
  ctx.traces += 1
  ctx.outcome('%d-alive' % n)


def check_whole(ctx, n, lives, rounds):
  'one tournament object from its start: every sequence of results, round after round'
  start = tuple([(k, lives, PLAYERS['spread'][k]) for k in range(n)])
  try:
    for results in itertools.product((LOW, HIGH), repeat=rounds * (n // 2)):
      t = tourney.Tourney(n, dict([(k, tourney.Player(l, r)) for k, l, r in start]))
      state, left = start, list(results)
      for i in range(rounds):
        alive = len([p for p in state if p[1] > 0])
        order = range(alive)[i % max(1, alive):] + range(alive)[:i % max(1, alive)]
        env = Environment(order, left[:alive // 2])
        left = left[alive // 2:]
        controlled(env)
        t.round()
        ctx.transitions += 1
        losers = after(ctx, state, t)
        if losers is None:
          return
        state = tuple([(k, l - (k in losers and 1 or 0), r) for k, l, r in state])
      ctx.traces += 1
  finally:
    put_back()
  ctx.outcome('whole')


def check_new(ctx, n):
  t = tourney.Tourney(n)
  if sorted(t.alive) != range(n) or t.dead:
    ctx.fail('entries', 'a tournament of %d has %s' % (n, sorted(t.alive)))
    return
  if len(set(map(id, t.alive.values()))) != n or [p for p in t.alive.values() if p.isdead()]:
    ctx.fail('entries', 'the %d players of a new tournament are not different, living players' % n)
  entries = dict([(chr(97 + i), tourney.Player(2, 1000 + i)) for i in range(n)])
  given = dict(entries)
  t = tourney.Tourney(n, entries)
  try:
    for i in range(6):
      controlled(Environment(range(len(t.alive)), [0.5] * n))
      t.round()
  finally:
    put_back()
  if entries != given:
    ctx.fail('entries-changed', 'playing a tournament changed the list of entries')
  ctx.traces += 1


def near(a, b):
  return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


def check_money(ctx, player, average, rounds, length):
  p = chance(player, average, length)
  want = p ** rounds, p ** (rounds - 1) * (1.0 - p)
  got = tourney.tourney_chance(player, average, rounds, length)
  about = 'rated %s among %s, %d rounds of %d points' % (player, average, rounds, length)
  ctx.transitions += 3
  if not (near(got[0], want[0]) and abs(got[1] - want[1]) < 1e-9):
    return ctx.fail('tourney_chance', '%s: chances %s instead of %s' % (about, got, want))
  # win, be second, or lose to one of the earlier opponents
  rest = sum([p ** i * (1 - p) for i in range(rounds - 1)])
  if abs(sum(got) + rest - 1.0) > 1e-9:
    ctx.fail('tourney_chance', '%s: the chances add up to %r' % (about, sum(got) + rest))
  for winner, second in ((100.0, 30.0), (64.0, 0.0), (10.0, 10.0)):
    w, r = tourney.prize_handicap(player, average, rounds, length, winner, second)
    av = tourney.tourney_chance(average, average, rounds, length)
    if not (near(w * got[0], winner * av[0]) and near(r * got[1], second * av[1]) and
            near(av[0], 0.5 ** rounds) and near(av[1], 0.5 ** rounds)):
      return ctx.fail('prize_handicap', '%s: prizes %s for %s' % (about, (w, r), (winner, second)))
  for fee in (100.0, 1.0):
    f = tourney.entryfee_handicap(player, average, rounds, length, fee)
    if not near(f * 0.5 ** rounds, fee * got[0]):
      return ctx.fail('entryfee_handicap', '%s: fee %s for %s' % (about, f, fee))
  ctx.traces += 1
  ctx.outcome(player > average and 'stronger' or player < average and 'weaker' or 'average')


def run(ctx):
  # every reachable state of a tournament
  for n, lives, names in ((2, 3, ('equal', 'spread')), (3, 2, ('equal', 'spread')), (4, ctx.thorough and 2 or 1, ('equal', 'spread')),
                          (5, 1, ('spread',))) + (ctx.thorough and ((3, 3, ('spread',)), (6, 1, ('spread',))) or ()):
    for name in names:
      start = tuple([(k, lives, PLAYERS[name][k]) for k in range(n)])
      seen, frontier = set([start]), [start]
      while frontier:
        s = frontier.pop(0)
        alive = [p for p in s if p[1] > 0]
        # the states are dealt out over the shards; all shards know how they are reached
        if ctx.mine():
          ctx.states += 1
          ctx.guarded(THIS, ['round', [list(p) for p in s]])
        # all results in the reference
        for pairs in pairings([p[0] for p in alive]):
          for result in itertools.product((0, 1), repeat=len(pairs)):
            lost = [p[r] for p, r in zip(pairs, result)]
            nxt = tuple([(k, l - (k in lost and 1 or 0), r) for k, l, r in s])
            if nxt not in seen:
              seen.add(nxt)
              frontier.append(nxt)
  ratings = [1000, 1000.0, 500, 999, 1200, 1543.21, 1800, 2400]
  for a in ratings:
    for b in ratings:
      for length in (1, 3, 7, 25):
        if ctx.mine():
          ctx.states += 1
          ctx.guarded(THIS, ['pair', a, b, length])
        for rounds in ctx.thorough and range(1, 9) or (1, 2, 4, 6):
          if ctx.mine():
            ctx.states += 1
            ctx.guarded(THIS, ['money', a, b, rounds, length])
  for n in range(0, 9) + [16, 17, 33]:
    if ctx.mine():
      ctx.guarded(THIS, ['new', n])
  for n in range(2, 17) + [23, 32, 33]:
    for length in (7, 1):
      if ctx.mine():
        ctx.states += 1
        ctx.guarded(THIS, ['large', n, length])
  for n, lives, rounds in (2, 2, 5), (3, 2, 6), (4, 2, 5), (5, 1, 5), (4, 3, ctx.thorough and 7 or 4), (6, 1, ctx.thorough and 4 or 3):
    if ctx.mine():
      ctx.states += 1
      ctx.guarded(THIS, ['whole', n, lives, rounds])
  ctx.sample(dict(players='2-5', lives='1-3', ratings=ratings))
  ctx.notes['bounds'] = ('every state of tournaments of 2 to 5 players (thorough: 6) with up to 3 lives, every shuffle and result from each; '
                         'two players over all pairs of %d ratings, 4 lengths and %d values of random(); up to 33 players with some draws and all (from 14 on: some) results; '
                         'whole tournaments of 2 to 6 players, every sequence of results for 3 to 6 rounds' % (len(ratings), 64))


def pairings(names):
  'all ways to pair off, one sitting out if odd'
  if len(names) < 2:
    yield []
    return
  a = names[0]
  for b in names[1:]:
    for rest in pairings([x for x in names if x not in (a, b)]):
      yield [(a, b)] + rest
  if len(names) % 2:
    for rest in pairings(names[1:]):
      yield rest


class THIS(object):
  check_one = staticmethod(check_one)
