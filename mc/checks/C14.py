'''Bear-off databases: the index numbers every home-board position exactly once, in
gnubg's order; reading a record gives its bytes however the file answers.'''
import struct
import itertools
import bglib.encoding.bearoff as bearoff
from bglib.encoding.bearoff import gnubgdb, nori, trice
import bgrules as R


def choose(n, r):
  c = 1
  for i in range(r):
    c = c * (n - i) // (i + 1)
  return c


def homes(p, c):
  'all ways to have at most c chequers on p points'
  if p == 0:
    yield ()
    return
  for n in range(c + 1):
    for rest in homes(p - 1, c - n):
      yield (n,) + rest




def order(t, p):
  'what gnubg sorts by: position of the bars, the highest one first'
  at = sum(t[:p]) + p - 1
  key = []
  for i in range(p):
    key.append(at)
    at -= t[i] + 1
  return tuple(key)


class File(object):
  'answers reads as told: the sizes of the pieces, then everything'
  def __init__(self, data, pieces):
    self.data, self.pieces, self.pos, self.calls = data, list(pieces), 0, 0

  def seek(self, n, whence=0):
    if whence == 0:
      self.pos = n
    elif whence == 1:
      self.pos += n
    else:
      self.pos = len(self.data) + n

  def tell(self):
    return self.pos

  def read(self, n=-1):
    self.calls += 1
    if self.calls > 200:
      raise RuntimeError('reads for ever')
    if n < 0:
      n = len(self.data)
    if self.pieces:
      n = min(n, self.pieces.pop(0))
    r = self.data[self.pos:self.pos + n]
    self.pos += len(r)
    return r

  def close(self):
    pass


def record(k):
  return struct.pack('ffff', (k % 1000003) * 3.25 - 5, -7.5 - k % 4099, 12.5 + k % 257, 1.0 / (k % 8191 + 1))


class Far(File):
  'a file of so many records, too large to have'
  def __init__(self, records, pieces):
    File.__init__(self, '', pieces)
    self.size = records * 16

  def read(self, n=-1):
    self.calls += 1
    if self.calls > 200:
      raise RuntimeError('reads for ever')
    if n < 0 or n > 64:
      n = 64
    if self.pieces:
      n = min(n, self.pieces.pop(0))
    n = max(0, min(n, self.size - self.pos))
    first = self.pos // 16
    r = ''.join([record(first + i) for i in range(n // 16 + 2)])[self.pos - first * 16:][:n]
    self.pos += len(r)
    return r


def far(ctx, size, index, pieces):
  reader = trice.DBRreader()
  reader.f = Far(size, pieces)
  about = 'record %d of %d, read in pieces %s' % (index, size, pieces)
  ctx.transitions += 1
  ctx.traces += 1
  try:
    got = reader.dump(index)
  except IndexError:
    if index < size:
      ctx.fail('far-refused', '%s: out of range' % about)
    ctx.outcome('out-of-range')
    return
  if index >= size:
    return ctx.fail('far-invented', '%s: read as %r' % (about, got))
  a, b, c, e = struct.unpack('ffff', record(index))
  if tuple(got) != (a, b, c, e):
    return ctx.fail('far', '%s: read as %r instead of %r' % (about, got, (a, b, c, e)))
  reader.f = Far(size, pieces)
  got = reader.human_readable(index + 1)
  if tuple(got) != (a, b * 2, c * 2, e):
    return ctx.fail('far-human', '%s: reads %r instead of %r' % (about, got, (a, b * 2, c * 2, e)))
  ctx.outcome('far')


def turns(ctx, sizes, reads):
  'readers of files side by side, record after record, each from a file which stays open'
  readers = []
  for n in sizes:
    r = trice.DBRreader()
    r.f = Far(n, [5])
    readers.append(r)
  for which, index in reads:
    ctx.transitions += 1
    r = readers[which]
    r.f.calls = 0
    about = 'after the reads %s of files of %s records: record %d of file %d' % (reads, sizes, index, which)
    try:
      got = r.rawread(index)
    except IndexError:
      if index < sizes[which]:
        return ctx.fail('turn-refused', about + ': out of range')
      continue
    if index >= sizes[which] or got != record(index):
      return ctx.fail('turn', '%s is read as %r' % (about, got))
  ctx.traces += 1
  ctx.outcome('turns')


def check_one(ctx, case):
  ctx.states += 1
  if case[0] == 'far':
    return far(ctx, *case[1:])
  if case[0] == 'turns':
    return turns(ctx, *case[1:])
  if case[0] == 'index':
    p, c = case[1:]
    every = list(homes(p, c))
    every.sort(key=lambda t: order(t, p))
    assert len(every) == choose(p + c, p)
    for i, t in enumerate(every):
      got = gnubgdb.oneside_index(t + (0,) * (25 - p), p, c)
      ctx.transitions += 1
      ctx.traces += 1
      if got != i:
        ctx.fail('index', 'position %s of %d points, up to %d chequers has index %r instead of %d' % (t, p, c, got, i))
    ctx.outcome('index-p%d' % p, len(every))
  elif case[0] == 'nori':
    # Nori's numbering: fewer chequers first, then those with fewer on the six point, on the five point ...
    c = case[1]
    every = [t for t in homes(6, c) if sum(t) == c]
    every.sort(key=lambda t: t[::-1])
    first = choose(6 + c - 1, 6)
    for i, t in enumerate(every):
      ctx.transitions += 2
      ctx.traces += 1
      n = nori.oneside_upto6_t2k(t)
      if n != first + i:
        ctx.fail('nori-number', 'position %s has number %r instead of %d' % (t, n, first + i))
      back = nori.oneside_upto6_k2t(first + i)
      if tuple(back) != t:
        ctx.fail('nori-back', 'number %d is read as %r instead of %s' % (first + i, back, t))
    ctx.outcome('nori-%d' % c, len(every))
  elif case[0] == 'read':
    records, index, pieces, cut = case[1:]
    data = ''.join([struct.pack('ffff', i + 0.5, -0.25 * i, i * 0.125, 1.0 / (i + 1)) for i in range(records)])
    data = data[:len(data) - cut]
    whole = index * 16 + 16 <= len(data)
    want = data[index * 16:index * 16 + 16]
    reader = trice.DBRreader()
    ctx.transitions += 1
    ctx.traces += 1
    reader.f = File(data, pieces)
    about = 'record %d of %d bytes, read in pieces %s' % (index, len(data), pieces)
    try:
      got = reader.rawread(index)
    except IndexError:
      if whole:
        ctx.fail('refused', '%s: out of range' % about)
      ctx.outcome('out-of-range')
      return
    if not whole:
      ctx.fail('invented', '%s: read as %r though the file ends before it does' % (about, got))
      return
    if got != want:
      ctx.fail('bytes', '%s: read as %r instead of %r' % (about, got, want))
    reader.f = File(data, pieces)
    d = reader.dump(index)
    reader.f = File(data, pieces)
    h = reader.human_readable(index + 1)
    a, b, c, e = struct.unpack('ffff', want)
    if tuple(d) != (a, b, c, e):
      ctx.fail('dump', '%s: dumped as %r instead of %r' % (about, d, (a, b, c, e)))
    if tuple(h) != (a, b * 2, c * 2, e):
      ctx.fail('human', '%s: position %d reads %r instead of %r' % (about, index + 1, h, (a, b * 2, c * 2, e)))
    ctx.outcome('read-%d-pieces' % len(pieces))
  elif case[0] == 'side':
    t = tuple(case[1])
    ctx.transitions += 2
    ctx.traces += 1
    back = 0
    for i in range(25):
      if t[i]:
        back = i + 1
    if bearoff.backward(t) != back:
      ctx.fail('backward', 'the backmost point of %s is %r instead of %d' % (t, bearoff.backward(t), back))
    if bearoff.count(t) != sum(t):
      ctx.fail('count', '%s has %r chequers' % (t, bearoff.count(t)))
    for u in case[2]:
      ub = 0
      for i in range(25):
        if u[i]:
          ub = i + 1
      want = (max(back, ub), max(sum(t), sum(u)))
      if tuple(gnubgdb.bearoff_param(t, tuple(u))) != want:
        ctx.fail('param', 'the table for %s against %s is %r instead of %r' % (
                 t, u, gnubgdb.bearoff_param(t, tuple(u)), want))
    ctx.outcome('side')
  else:
    m = case[1]
    want = choose(24, m) * choose(16, 15 - m) * choose(40 - m, 15)
    ctx.transitions += 2
    ctx.traces += 1
    for f in (bearoff.BackgammonCombination, bearoff.BackgammonCombination_allC):
      if f(m) != want:
        ctx.fail('combinations', '%s(%d) is %r instead of %d' % (f.__name__, m, f(m), want))
    for n in range(1, 30):
      if bearoff.D(n, m) != choose(n + m - 1, m):
        ctx.fail('D', 'D(%d, %d) is %r, the ways to place %d chequers on %d points are %d' % (
                 n, m, bearoff.D(n, m), m, n, choose(n + m - 1, m)))
    if sum([bearoff.BackgammonCombination(i) for i in range(16)]) != bearoff.WTN:
      ctx.fail('WTN', 'the combinations do not add up to the number of positions')
    ctx.outcome('count')


def run(ctx):
  for p in range(1, ctx.thorough and 9 or 8):
    for c in range(1, 16):
      if choose(p + c, p) > (ctx.thorough and 400000 or p == 6 and 54264 or 5100):
        continue
      if ctx.mine():
        ctx.guarded(THIS, ['index', p, c])
        ctx.sample(dict(points=p, chequers=c, positions=choose(p + c, p)))
  for c in range(15, -1, -1):
    if ctx.mine():
      ctx.guarded(THIS, ['nori', c])
  def cuts(n):
    yield []
    for a in range(1, n):
      yield [a]
      for b in range(1, n - a):
        yield [a, b]
    for a in range(1, n):
      for k in (2, 3, 4, 7, 16):
        yield [a] + [1] * k
    yield [1] * n
    if ctx.thorough:
      for a in range(1, n):
        for b in range(1, n - a):
          for c in range(1, n - a - b):
            yield [a, b, c]
  for records in range(0, 5):
    for index in range(0, records + 2):
      if ctx.mine():
        for pieces in cuts(16):
          for cut in records and (0, 1, 8, 15) or (0,):
            ctx.guarded(THIS, ['read', records, index, pieces, cut])
  at = sorted(set([k for j in range(2, 41) for k in (2 ** j - 1, 2 ** j, 2 ** j + 1)] + [54263, 54264, 54264 ** 2 - 1, 924 * 924 - 1, 10 ** 9]))
  for index in at:
    for size in (index, index + 1, index + 2, 2 * index + 5):
      for pieces in ([], [1], [15, 1], [3, 3, 3, 3, 3]):
        if ctx.mine():
          ctx.guarded(THIS, ['far', size, index, pieces])
  one = [(0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 4), (1, 5)]
  for n in range(1, ctx.thorough and 6 or 5):
    for reads in itertools.product(one, repeat=n):
      if ctx.mine():
        ctx.guarded(THIS, ['turns', [3, 5], [list(x) for x in reads]])
  sides = [[0] * 25] + [R.side(q) for n in (1, 2) for q in R.multisets(range(25), n)]
  against = sides[::13]
  for s in sides:
    if ctx.mine():
      ctx.guarded(THIS, ['side', s, against])
  for m in range(16):
    if ctx.mine():
      ctx.guarded(THIS, ['count', m])
  ctx.notes['bounds'] = ('all home positions of 1-7 points whose tables hold up to 5100 positions, the whole 15 chequer home board (54264, also in Nori\'s order) (thorough: 8 points, '
    '400000); files of 0-4 records, every record, every first two short reads, ends cut by 0-15 bytes; records up to number 2**41 of large files; all sequences of %d reads of two files in turn' % (ctx.thorough and 5 or 4))


class THIS(object):
  check_one = staticmethod(check_one)
