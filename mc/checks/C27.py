'''Match records: accepted just when their lines are in order, with the digest of exactly
their bytes, and cut into their games.

All sequences of kinds of lines to a length, all shapes of moves, all single-line edits of
stored records; against a state machine and splitting done here.'''
import glob
import hashlib
import imp
import itertools
import os
import re

REPO = os.environ.get('BGLIB_REPO', '/repo')
snowietxt = imp.load_source('snowietxt', REPO + '/bglib/record/snowietxt.py')

LINES = {'L': ' 5 point match\n', 'E': '\n', 'G': ' Game 1\n', 'P': ' foo : 0                            bar,2 : 3\n',
         '1': '  1) 31: 8/5 6/5                     41: 24/23 13/9\n', '2': '  2) 53:                              Doubles => 2\n',
         '3': '  3)  Takes                          54: 8/4* 7/2\n', 'R': '                                     Wins 2 points\n',
         'B': 'something else\n', 'S': '   \t\n', 'H': ' Game 12\n', 'Q': ' foo,1500 : 3                   bar : 12\n'}
SAME = {'S': 'E', 'H': 'G', 'Q': 'P'}
LEFT = ['', '31: 8/5 6/5', '64:', '11: 25/24 24/23 6/5* 6/5*', ' Takes', ' Drops', ' Doubles => 64', '66: 6/0 6/0 5/0']
RIGHT = ['', '31: 8/5 6/5', '64:', '11: 25/24 24/23 6/5* 6/5*', ' Takes', ' Drops', ' Doubles => 2', 'Wins 1 point', 'Wins 12 points',
         'Wins 4 points and the match']
ENDS = ['\n', '\r\n', '', '   \n']


def kind(line):
  'what a line of a real record is (by its looks)'
  s = line.strip()
  if not s:
    return 'E'
  if re.match(r'\d+ point match', s):
    return 'L'
  if re.match(r'Game \d+', s):
    return 'G'
  m = re.match(r'(\d+)\)', s)
  if m:
    return int(m.group(1))
  if s.startswith('Wins '):
    return 'R'
  if s.count(' : ') == 2:
    return 'P'
  return 'B'


def verdict(kinds):
  '''(accepted, index of the line refused), or None where nothing is promised: results outside
  of moves, empty lines first or in the head of a game.'''
  state, n, loose = None, 0, False
  for i, k in enumerate(kinds):
    if k == 'B':
      return None if loose else (False, i)
    if k == 'R':
      if state != 'M':
        loose = True
    elif k == 'E':
      if state in (None, 'G', 'P'):
        loose = True
      if state == 'E':
        pass
      state = 'E'
    elif k == 'L':
      if state is not None:
        return None if loose else (False, i)
      state = 'L'
    elif k == 'G':
      if state not in ('L', 'E', 'M'):
        return None if loose else (False, i)
      state = 'G'
    elif k == 'P':
      if state != 'G':
        return None if loose else (False, i)
      state, n = 'P', 0
    else:
      if state not in ('P', 'M') or k != n + 1:
        return None if loose else (False, i)
      state, n = 'M', n + 1
  return None if loose else (True, len(kinds))


def split(lines, kinds):
  'the games'
  games = []
  for line, k in zip(lines, kinds):
    if k == 'G':
      games.append([lines[0], '\n'])
    if k not in ('L', 'E'):
      games[-1].append(line)
  return [''.join(g) for g in games]


def check_record(ctx, lines, kinds, what):
  ctx.states += 1
  want = verdict(kinds)
  if want is None:
    ctx.outcome('nothing promised')
    return
  text = ''.join(lines)
  # line by line: which one is refused
  v = snowietxt.Validator()
  at = len(lines)
  for i, line in enumerate(lines):
    ctx.transitions += 1
    try:
      v.feed(line)
    except ValueError:
      at = i
      break
  if (at == len(lines)) != want[0]:
    ctx.fail(what + ('-refused' if want[0] else '-accepted'), 'record %r: line %d %s' % (
             text[-300:], want[1], 'refused' if want[0] else 'accepted'))
    return
  if at != want[1]:
    ctx.fail(what + '-where', 'record %r refused at line %d, the bad one is %d' % (text[-300:], at, want[1]))
  try:
    whole = snowietxt.Validator(None).validate(iter(lines))
  except ValueError:
    whole = None
  if (whole is not None) != want[0]:
    ctx.fail(what + '-whole', 'validate says otherwise of %r' % (text[-300:],))
    return
  ctx.outcome('accepted' if want[0] else 'refused')
  if want[0]:
    sha1 = hashlib.sha1(text).hexdigest()
    for h in v.done(), whole:
      if h.hexdigest() != sha1:
        ctx.fail(what + '-digest', 'digest of %r is %s, SHA-1 is %s' % (text[-300:], h.hexdigest(), sha1))
  if 'G' in kinds and kinds[0] == 'L':
    ctx.traces += 1
    try:
      got = list(snowietxt.chop(text))
    except ValueError:
      got = None
    good = split(lines, kinds) if want[0] else None
    if got != good:
      ctx.fail(what + '-games', 'games of %r are %r, expected %r' % (text[-400:], got, good))


def check_one(ctx, case):
  what, rest = case[0], case[1:]
  if what == 'order':
    for seq in itertools.product(''.join(rest[1]), repeat=rest[2]):
      seq = list(rest[0]) + list(seq)
      kinds = [SAME.get(c, int(c) if c.isdigit() else c) for c in seq]
      check_record(ctx, [LINES[c] for c in seq], kinds, 'order')
  elif what == 'moves':
    left, end = rest
    for right in RIGHT:
      for nth in 1, 9, 10, 100:
        head = [LINES['L'], LINES['E'], LINES['G'], LINES['P']]
        body = ['%3d) %-34s %s%s' % (n, left, right, end if n == nth else '\n') for n in range(1, nth + 1)]
        check_record(ctx, head + body, ['L', 'E', 'G', 'P'] + range(1, nth + 1), 'moves')
        for wrong in nth - 1, nth + 1, nth + 10, nth * 10:
          bad = body[:-1] + ['%3d) %-34s %s%s' % (wrong, left, right, end)]
          check_record(ctx, head + bad, ['L', 'E', 'G', 'P'] + range(1, nth) + [wrong], 'number')
  elif what == 'heads':
    for n, (a, ra), (b, rb), s, t, g in itertools.product(
        (1, 5, 25), (('foo', ''), ('A B', ',1650'), ('x_y-1', ',12')), (('bar', ''), ('a.b', ',1')), (0, 9, 24), (0, 10), (1, 7, 13)):
      lines = [' %d point match\n' % n, '\n', ' Game %d\n' % g, ' %s%s : %d                %s%s : %d\n' % (a, ra, s, b, rb, t), LINES['1']]
      check_record(ctx, lines, ['L', 'E', 'G', 'P', 1], 'heads')
  elif what == 'size':
    lines = [LINES[c] for c in rest[0]]
    total = sum(len(l) for l in lines)
    for limit in range(1, total + 3):
      ctx.states += 1
      try:
        snowietxt.Validator(max_size=limit).validate(iter(lines))
        ok = True
      except ValueError:
        ok = False
      if ok != (total < limit):
        ctx.fail('size', 'a record of %d bytes, limit %d: %s' % (total, limit, 'accepted' if ok else 'refused'))
    ctx.outcome('sizes')
  elif what == 'two':
    # validators and cutters side by side do not disturb each other
    a, b = [LINES[c] for c in rest[0]], [LINES[c] for c in rest[1]]
    for order in set(itertools.permutations('a' * len(a) + 'b' * len(b))) if len(a) + len(b) < 8 else ():
      va, vb, ia, ib = snowietxt.Validator(), snowietxt.Validator(), iter(a), iter(b)
      for o in order:
        ctx.transitions += 1
        (va if o == 'a' else vb).feed((ia if o == 'a' else ib).next())
      ctx.states += 1
      if va.done().hexdigest() != hashlib.sha1(''.join(a)).hexdigest() or vb.done().hexdigest() != hashlib.sha1(''.join(b)).hexdigest():
        ctx.fail('two-digests', 'validators side by side mix up their digests: %r' % (order,))
    # cutters too, taking games in turn
    ta, tb = [''.join(LINES[c] for c in t) for t in ('LEGP12REGP1', 'LGQ1EGP12EGP1')]
    for order in set(itertools.permutations('aabbb')):
      its, got = {'a': snowietxt.chop(ta), 'b': snowietxt.chop(tb)}, {'a': [], 'b': []}
      for o in order:
        got[o].append(its[o].next())
      ctx.states += 1
      if got != {'a': list(snowietxt.chop(ta)), 'b': list(snowietxt.chop(tb))}:
        ctx.fail('two-cuts', 'cutters side by side mix up their games: %s' % (got,))
        break
    ctx.outcome('side by side')
  else:
    # a stored record, and all edits of one line
    text = open(os.path.join(REPO, 'bglib/record/snowietxt', rest[0]), 'rb').read()
    lines = text.splitlines(True)
    kinds = [kind(l) for l in lines]
    check_record(ctx, lines, kinds, 'stored')
    if rest[1]:
      for i in range(len(lines)):
        for k, l in (kinds[:i] + kinds[i + 1:], lines[:i] + lines[i + 1:]), \
                    (kinds[:i + 1] + kinds[i:], lines[:i + 1] + lines[i:]), \
                    (kinds[:i] + kinds[i:i + 2][::-1] + kinds[i + 2:], lines[:i] + lines[i:i + 2][::-1] + lines[i + 2:]), \
                    (kinds[:i], lines[:i]):
          if k:
            check_record(ctx, l, k, 'edited')


class THIS(object):
  check_one = staticmethod(check_one)


def run(ctx):
  full = 'LEGP123RB'
  depth = 3 + ctx.thorough
  for head in [''.join(h) for h in itertools.product(full, repeat=2)]:
    for n in range(0, depth + 1):
      if ctx.mine():
        ctx.guarded(THIS, ['order', head, full, n])
  for first in full:
    if ctx.mine():
      ctx.guarded(THIS, ['order', first, full, 0])
  # on from a game under way
  for head in 'LEGP1', 'LEGP12', 'LGP1', 'LSHQ1', 'LEGP1R', 'LEGP12E', 'LEGP12RE', 'LEGP1EGP12', 'LEEGP1':
    for n in range(0, depth + 2):
      for first in full:
        if ctx.mine():
          ctx.guarded(THIS, ['order', head + first, 'LESGHPQ123R', max(0, n - 2)])
  for left in LEFT:
    for end in ENDS:
      if ctx.mine():
        ctx.guarded(THIS, ['moves', left, end])
  if ctx.mine():
    ctx.guarded(THIS, ['heads'])
  for c in 'L', 'LE', 'LEGP1', 'LEGP12RE', 'LEGP1EGP12':
    if ctx.mine():
      ctx.guarded(THIS, ['size', c])
  for a, b in itertools.product(('L', 'LE', 'LEG', 'LEGP', 'LGP1'), repeat=2):
    if ctx.mine():
      ctx.guarded(THIS, ['two', a, b])
  names = sorted(os.path.basename(f) for f in glob.glob(REPO + '/bglib/record/snowietxt/*.txt'))
  edits = 258 if ctx.thorough else 24
  for i, name in enumerate(names):
    if ctx.mine():
      ctx.guarded(THIS, ['stored', name, i < edits])
  ctx.notes['bounds'] = dict(sequences='all of kinds of lines up to %d, and up to %d more after 9 starts' % (2 + depth, depth),
                             moves='%d x %d shapes, 4 line ends, numbers to 1000' % (len(LEFT), len(RIGHT)),
                             stored='%d records, all edits of one line of %d' % (len(names), min(edits, len(names))))
  ctx.assumptions = ['tonic.lineparser, which is not installed, matches _first, then _last, and calls handle_<name> '
                     'for the outermost group which matched (stubs/tonic/lineparser.py)']
