'''Ratings: the chances of two players add up, do not depend on who is asked, grow with
the difference and the length of the match, and what one can win the other can lose.

Every pair of ratings on a grid, in integers and floats, and every length of match.'''
import math
from bglib.stat import rating


def reference(high, low, length):
  return 1.0 / (1.0 + math.pow(10.0, (high - low) * math.sqrt(length) / 2000.0))


def near(a, b):
  return abs(a - b) <= 1e-12


def check_one(ctx, case):
  a, b, lengths = case
  high, low = max(a, b), min(a, b)
  last = None
  for n in lengths:
    u, w = rating.upset_chance(high, low, n), rating.winning_chance(high, low, n)
    ctx.transitions += 4
    about = 'rated %r against %r over %d points' % (a, b, n)
    if not near(u, reference(high, low, n)):
      return ctx.fail('upset', '%s: the weaker wins with %r instead of %r' % (about, u, reference(high, low, n)))
    if not near(u + w, 1.0):
      return ctx.fail('sum', '%s: the chances are %r and %r' % (about, u, w))
    if not 0.0 <= u <= 0.5 or (high == low) != (u == 0.5):
      return ctx.fail('range', '%s: the weaker wins with %r' % (about, u))
    if last is not None and high != low and u > 1e-9 and not u < last:
      return ctx.fail('length', '%s: a longer match does not favour the stronger (%r, %r)' % (about, last, u))
    last = u
    # what is at stake: gain of one is the loss of the other, shared by the chances
    x, y = rating.gain_on_win(a, b, n), rating.gain_on_win(b, a, n)
    pa = a >= b and w or u
    if high == low:
      pa = 0.5
    if not abs(x * pa - y * (1.0 - pa)) <= 1e-9 * n:
      return ctx.fail('fair', '%s: gains %r or loses %r though winning with %r' % (about, x, y, pa))
    if not near((x + y) / n, 1.0):
      return ctx.fail('stake', '%s: %r and %r are at stake, not %d in all' % (about, x, y, n))
    if a < b and not x >= y or a > b and not y >= x:
      return ctx.fail('favour', '%s: the stronger gains %r, the weaker %r' % (about, x, y))
    ctx.outcome(a == b and 'equal' or a > b and 'stronger' or 'weaker')
  ctx.traces += 1


def run(ctx):
  lengths = range(1, 26) + [64]
  step = ctx.thorough and 5 or 20
  top = 2600
  for a in range(0, top, step):
    for b in range(0, top, step):
      if ctx.mine():
        ctx.states += 1
        ctx.guarded(THIS, [a, b, lengths])
  for a in (999.99, 1000.0, 1000.01, 1543.21, 1e-3, 1700.5, -50, -0.5, 10000):
    for b in (1000, 1000.0, 1543.21, 1543.22, 0, 0.0, 1700.5, 9999):
      if ctx.mine():
        ctx.states += 1
        ctx.guarded(THIS, [a, b, lengths])
        ctx.guarded(THIS, [b, a, lengths])
  for d in range(0, 2000):
    if ctx.mine():
      ctx.states += 1
      ctx.guarded(THIS, [1000 + d, 1000, [1, 2, 5, 7, 11, 25]])
      ctx.guarded(THIS, [1000, 1000 + d, [1, 2, 5, 7, 11, 25]])
  ctx.sample(dict(step=step, top=top, lengths=lengths))
  ctx.notes['bounds'] = 'all pairs of ratings 0..%d in steps of %d, every difference to 2000, fractions; lengths 1-25 and 64' % (top, step)


class THIS(object):
  check_one = staticmethod(check_one)
