'''XGIDs: every field is read as it is meant, agrees with the gnubg IDs of the same
board, and a field that cannot be read is refused with an encoding error.'''
from bglib.encoding import gnubgid, xgid
from bglib.encoding import EncodingError, DecodeError, InconsistentData
from bglib.model import BoardEditor
import bgrules as R
import idref

FIELDS = ('position', 'cube', 'owner', 'turn', 'roll', 'yours', 'his', 'flag', 'length', 'max')
SIDES = {}


def text_of(fields):
  return ':'.join([str(fields[n]) for n in FIELDS])


def position_text(you, him):
  'XG: his bar, the 24 points as you number them, your bar; capitals are yours'
  cells = ['-'] * 26
  for i in range(25):       # i 0..23 your points 1..24, 24 the bar
    if you[i]:
      cells[i + 1] = '-ABCDEFGHIJKLMNO'[you[i]]
    if him[i]:
      cells[24 - i] = '-abcdefghijklmno'[him[i]]
  return ''.join(cells)


def base():
  return dict(position='-b----E-C---eE---c-e----B-', cube=0, owner=0, turn=1, roll='31', yours=0, his=0,
              flag=0, length=7, max=10)


def expected(f, you, him):
  length = int(f['length'])
  act = f['turn'] == 1 and 1 or 0
  return dict(position=(tuple(him), tuple(you)), cube_in_logarithm=f['cube'],
              cube_owner={1: 1, -1: 0, 0: 3}[f['owner']], on_action=act, on_inner_action=act,
              rolled=(int(f['roll'][0]), int(f['roll'][1])), score=(f['his'], f['yours']),
              crawford=bool(length and f['flag']), match_length=length, game_state=1)


def check_one(ctx, case):
  ctx.states += 1
  ctx.transitions += 1
  ctx.traces += 1
  if case[0] == 'literal':
    return literal(ctx, *case[1:])
  if case[0] == 'bad':
    text = case[1].encode('ascii')
    try:
      xgid.decode(BoardEditor(), text)
    except EncodingError, e:
      ctx.outcome('refused-' + type(e).__name__)
      return
    except Exception, e:
      ctx.fail('wrong-error', '%r is refused with %s (%s), which is not an encoding error' % (
               text, type(e).__name__, e))
      return
    ctx.fail('accepted', '%r was accepted as an XGID' % (text,))
    return
  f = dict(zip(FIELDS, case[1]))
  you, him = case[2], case[3]
  text = text_of(f).encode('ascii')
  want = expected(f, you, him)
  want.update(doubled=False, resign_offer=0)
  used = BoardEditor(cube_in_logarithm=3, cube_owner=1, on_action=1, crawford=True, doubled=True, resign_offer=2,
                     rolled=(6, 6), match_length=13, score=(4, 5), game_state=3)
  for kind, got in (('used', used), ('new', BoardEditor())):
    try:
      xgid.decode(got, kind == 'new' and unicode(text) or text)
    except EncodingError, e:
      ctx.fail('refused', '%r is refused: %s' % (text, e))
      return
    for n, v in sorted(want.items()):
      if getattr(got, n) != v:
        ctx.fail('%s-%s' % (kind, n), '%r read into a %s board: %s is %r instead of %r' % (
                 text, kind, n, getattr(got, n), v))
  ctx.outcome('%s-flag%s-owner%s-turn%s' % (want['match_length'] and 'match' or 'money', f['flag'], f['owner'], f['turn']))
  if want['match_length'] == 0 and max(want['score']) > 0:
    return
  # the same board by its gnubg IDs
  flat = dict(want, die1=want['rolled'][0], die2=want['rolled'][1],
              score0=want['score'][0], score1=want['score'][1])
  first, second = want['position']
  if want['on_action'] == 0:
    first, second = second, first
  pid, mid = idref.position_id(first, second), idref.match_id(flat)
  other = BoardEditor()
  gnubgid.decode(other, pid, mid)
  ctx.transitions += 1
  if not other == got:
    ctx.fail('disagree', '%r and the gnubg IDs %s %s of the same board are read as different boards' % (text, pid, mid))


def placements(ctx):
  empty = [0] * 25
  yield empty, empty
  yield list(R.START), list(R.START)
  for p in range(25):
    for n in range(1, 16):
      s = list(empty)
      s[p] = n
      yield s, empty
      yield empty, s
      o = list(R.START)
      if p == 24 or o[23 - p] == 0:
        yield s, o
        yield o, s
  for p in range(25):
    for q in range(25):
      if p == 24 or q == 24 or q != 23 - p:
        for a, b in ctx.thorough and ((2, 3), (15, 15), (1, 1)) or ((2, 3),):
          s, o = list(empty), list(empty)
          s[p], o[q] = a, b
          yield s, o


BAD = dict(
  position=('', '-', '-b----E-C---eE---c-e----B', '-b----E-C---eE---c-e----B--', 'A' * 25, 'a' * 27),
  cube=('', 'x', '1.5', 'two', '-', '0x1'),
  owner=('', 'x', '2', '-2', '3', '1.0'),
  turn=('', 'x', '0', '2', '-2', '1.0'),
  roll=('', '1', '123', 'x1', '1x', 'DD', '1.', '-'),
  yours=('', 'x', '1.5', '-'),
  his=('', 'x', '1.5', '-'),
  flag=('', 'x', '2', '3', '4', '-1', '1.0'),
  length=('', 'x', '-1', '-7', '1.5'),
)


LITERAL = dict(cube=('-1', '-3', '+2', '007', '16', '99'), yours=('-1', '-3', '+2', '007', '8', '99999'), his=('-1', '-3', '+2', '007', '8', '99999'),
               roll=('71', '07', '70', '99', '10', '06'), length=('+7', '007', '99999'), turn=('+1', '01', '-01'), owner=('+1', '01', '-01', '-0'), flag=('+1', '01', '00'))


def literal(ctx, name, value, f):
  'numbers which are out of the ordinary: refused, or read as what they are'
  f = dict(f)
  f[name] = value
  text = text_of(f).encode('ascii')
  got = BoardEditor()
  try:
    xgid.decode(got, text)
  except EncodingError, e:
    ctx.outcome('refused-' + type(e).__name__)
    return
  if name != 'roll':
    f[name] = int(value)
  you = [0, 0, 0, 0, 0, 5, 0, 3, 0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0]
  want = expected(f, you, you)
  want.update(doubled=False, resign_offer=0)
  for n, v in sorted(want.items()):
    if getattr(got, n) != v:
      ctx.fail('literal-' + n, '%r is accepted, but %s is %r instead of %r' % (text, n, getattr(got, n), v))
  ctx.outcome('literal')


def run(ctx):
  ctx.HANG_S = 60
  for name in sorted(LITERAL):
    for value in LITERAL[name]:
      for turn in (1, -1):
        for length in (0, 7):
          if ctx.mine():
            ctx.guarded(THIS, ['literal', name, value, dict(base(), turn=turn, length=length)])
  row = base()
  for you, him in placements(ctx):
    if ctx.mine():
      for turn in (1, -1):
        f = dict(row, position=position_text(you, him), turn=turn)
        ctx.guarded(THIS, ['good', [f[n] for n in FIELDS], you, him])
      ctx.sample(f['position'])
  you = [0, 1, 0, 0, 0, 5, 0, 3, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 1]
  him = [2, 0, 4, 0, 0, 3, 1, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0]
  him[11], him[21], him[0] = 0, 0, 0
  for i in range(24):
    if you[i]:
      him[23 - i] = 0
  row['position'] = position_text(you, him)
  rolls = ['00'] + ['%d%d' % (a, b) for a in range(1, 7) for b in range(1, 7)]
  k = 0
  for cube in range(0, 16):
    for owner in (0, 1, -1):
      for turn in (1, -1):
        if not ctx.mine():
          continue
        for length in (0, 1, 2, 7, 15, 25, 64, 32767):
          for flag in length and (0, 1) or (0, 1, 2, 3):
            for yours, his in length and ((0, 0), (length - 1, 0), (0, length - 1), (length // 2, length // 3)) or ((0, 0), (3, 0), (0, 9)):
              k += 1
              for roll in ctx.thorough and rolls or [rolls[k % 37]]:
                f = dict(row, cube=cube, owner=owner, turn=turn, roll=roll, yours=yours, his=his,
                         flag=flag, length=length, max=(8, 10, 16, 0)[k % 4])
                ctx.guarded(THIS, ['good', [f[n] for n in FIELDS], you, him])
  for roll in rolls:
    for turn in (1, -1):
      if ctx.mine():
        f = dict(row, roll=roll, turn=turn, yours=2, his=5)
        ctx.guarded(THIS, ['good', [f[n] for n in FIELDS], you, him])
  # one unreadable field on each of several otherwise sound IDs; and missing or extra fields
  for turn in (1, -1):
    for owner in (0, 1, -1):
      for length in (3, 0):
        f = dict(base(), turn=turn, owner=owner, length=length)
        for name in FIELDS[:-1]:
          for bad in BAD[name]:
            if name == 'flag' and length == 0 and bad in ('2', '3'):
              continue
            if ctx.mine():
              g = dict(f)
              g[name] = bad
              ctx.guarded(THIS, ['bad', text_of(g)])
        parts = text_of(f).split(':')
        if ctx.mine():
          for n in range(len(parts)):
            ctx.guarded(THIS, ['bad', ':'.join(parts[:n])])
            ctx.guarded(THIS, ['bad', ':'.join(parts[:n] + parts[n + 1:])])
            ctx.guarded(THIS, ['bad', ':'.join(parts[:n] + [''] + parts[n:])])
  ctx.notes['bounds'] = ('every stack height on every point for either player, all pairs of one stack each; '
    'cube x owner x turn x length x flag x score; all rolls; a menu of unreadable values for each field')


class THIS(object):
  check_one = staticmethod(check_one)
