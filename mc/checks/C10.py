'''Match IDs, and a whole board through (position ID, match ID) and back.'''
from bglib.encoding import gnubgid
from bglib.model import BoardEditor
from bglib.encoding import EncodingError, InconsistentData
import idref

NAMES = ('cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action',
         'doubled', 'resign_offer', 'rolled', 'match_length', 'score')
YOU_SIDE = [0, 1, 0, 0, 0, 5, 0, 3, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 1]
HIM_SIDE = [2, 0, 4, 0, 0, 3, 1, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0]


def check_one(ctx, case):
  if case[0] == 'text':
    return check_text(ctx, case[1].encode('ascii'))
  if case[0] == 'proxies':
    return proxies(ctx, *case[1:])
  cube, owner, act, crawford, state, inner, doubled, resign, rolled, length, score = case
  values = dict(cube_in_logarithm=cube, cube_owner=owner, on_action=act, crawford=bool(crawford),
                game_state=state, on_inner_action=inner, doubled=bool(doubled), resign_offer=resign,
                rolled=tuple(rolled), match_length=length, score=tuple(score))
  flat = dict(values)
  flat.update(die1=rolled[0], die2=rolled[1], score0=score[0], score1=score[1])
  want_mid = idref.match_id(flat)
  position = (tuple(YOU_SIDE), tuple(HIM_SIDE))
  if act == 0:
    want_pid = idref.position_id(HIM_SIDE, YOU_SIDE)
  else:
    want_pid = idref.position_id(YOU_SIDE, HIM_SIDE)
  model = BoardEditor(position=position, **values)
  pid, mid = gnubgid.encode(model)
  ctx.transitions += 2
  ctx.states += 1
  ctx.traces += 1
  if mid != want_mid:
    ctx.fail('match-id', '%s is written %r, gnubg writes %r' % (values, mid, want_mid))
  if pid != want_pid:
    ctx.fail('position-id', 'with player %d to act %s is written %r, should be %r' % (act, position, pid, want_pid))
  if gnubgid.encode(model.freeze()) != (pid, mid):
    ctx.fail('frozen', '%s is written %r, the same board frozen %r' % (values, (pid, mid), gnubgid.encode(model.freeze())))
  proxy = gnubgid.decode_match(want_mid)
  other = gnubgid.decode_match('QYkqASAAIAAA')
  for n in NAMES:
    if getattr(proxy, n) != values[n]:
      ctx.fail('proxy-' + n, '%r says %s is %r, it is %r' % (want_mid, n, getattr(proxy, n), values[n]))
  if gnubgid.encode_match(proxy) != want_mid or gnubgid.encode_match(other) != 'QYkqASAAIAAA':
    ctx.fail('proxy-back', '%r is written again as %r' % (want_mid, gnubgid.encode_match(proxy)))
  if model.position != position or [n for n in NAMES if getattr(model, n) != values[n]]:
    ctx.fail('encode-changes', 'writing the IDs changed the board')
  odd = state == 1 and length == 0 and max(score) > 0   # a money game has no score
  back = BoardEditor()
  used = BoardEditor(position=(tuple(HIM_SIDE), tuple([0] * 24 + [3])), cube_in_logarithm=5, cube_owner=1, on_action=1 - act,
                     on_inner_action=1 - inner, crawford=not crawford, doubled=not doubled, resign_offer=3 - resign,
                     rolled=(1, 6), match_length=11, score=(3, 9), game_state=4 - state)
  try:
    gnubgid.decode(back, want_pid, want_mid)
    gnubgid.decode(used, unicode(want_pid), unicode(want_mid))
  except InconsistentData:
    if not odd:
      ctx.fail('refused', '%s %s, the IDs of a sound board, is refused' % (want_pid, want_mid))
    ctx.outcome('refused')
    return
  if back.position != position:
    ctx.fail('position-back', '%s %s: the board comes back with %s instead of %s' % (
             want_pid, want_mid, back.position, position))
  for n in NAMES:
    v = getattr(back, n)
    if v != values[n]:
      ctx.fail('field-' + n, '%s %s: %s comes back as %r instead of %r' % (want_pid, want_mid, n, v, values[n]))
  if not odd and used != model:
    ctx.fail('used', '%s %s read into a used board is not the board written: %s' % (pid, mid,
             [(n, getattr(used, n)) for n in NAMES + ('position',) if getattr(used, n) != getattr(model, n)]))
  if not odd and back != model:
    ctx.fail('equal', '%s %s: the board read back is not equal to the board written' % (pid, mid))
  ctx.outcome('state%d-act%d-inner%d-doubled%d-resign%d' % (state, act, inner, doubled, resign))


def check_text(ctx, text):
  'a match ID that is no match ID: an answer or an error, in finite time'
  ctx.states += 1
  ctx.transitions += 1
  ctx.traces += 1
  try:
    gnubgid.decode_match(text)
    ctx.outcome('text-read')
  except (EncodingError, TypeError, ValueError), e:
    ctx.outcome('text-refused-' + type(e).__name__)


def proxies(ctx, first, second, order):
  'two match proxies filled field by field, in turn: each keeps its own values'
  values = [dict(zip(NAMES, v)) for v in (first, second)]
  both = [gnubgid.MatchProxy(), gnubgid.MatchProxy()]
  for n in order and NAMES or NAMES[::-1]:
    for p, v in zip(both, values):
      x = v[n]
      setattr(p, n, isinstance(x, list) and tuple(x) or x)
      ctx.transitions += 1
  late = gnubgid.MatchProxy()
  for p, v in zip(both, values):
    for n in NAMES:
      x = isinstance(v[n], list) and tuple(v[n]) or v[n]
      if getattr(p, n) != x:
        return ctx.fail('proxies', 'of two match IDs filled in turn with %s one says %s is %r' % (values, n, getattr(p, n)))
    flat = dict(v)
    flat.update(die1=v['rolled'][0], die2=v['rolled'][1], score0=v['score'][0], score1=v['score'][1])
    if gnubgid.encode_match(p) != idref.match_id(flat):
      return ctx.fail('proxies-text', 'of two match IDs filled in turn with %s one is %s' % (values, gnubgid.encode_match(p)))
  if [n for n in NAMES if getattr(late, n) not in (0, (0, 0))]:
    return ctx.fail('proxies-blank', 'a new match proxy is not blank after others were filled with %s' % values)
  ctx.states += 1
  ctx.traces += 1
  ctx.outcome('proxies')


def run(ctx):
  ctx.HANG_S = 60
  some = [[2, 1, 1, True, 1, 0, False, 0, [3, 4], 7, [1, 2]], [0, 3, 0, False, 0, 1, True, 2, [0, 0], 0, [0, 0]],
          [15, 0, 1, False, 4, 1, True, 3, [6, 6], 32767, [32767, 1]], [5, 1, 0, True, 2, 0, False, 1, [1, 2], 1, [40, 0]]]
  for a in some:
    for b in some:
      for order in (0, 1):
        if ctx.mine():
          ctx.guarded(THIS, ['proxies', a, b, order])
  rolls = [(0, 0)] + [(a, b) for a in range(1, 7) for b in range(1, 7)]
  lengths = [(0, (0, 0)), (1, (0, 0)), (5, (4, 2)), (7, (3, 6)), (32767, (32766, 1)), (16384, (8192, 16383))]
  k = 0
  for cube in range(16):
    for owner in (0, 1, 3):
      if not ctx.mine():
        continue
      for act in (0, 1):
        for crawford in (0, 1):
          for state in range(5):
            for inner in (0, 1):
              for doubled in (0, 1):
                for resign in range(4):
                  k += 1
                  for roll in ctx.thorough and rolls or [rolls[k % 37]]:
                    for length, score in ctx.thorough and lengths[:5:2] or [lengths[k % 6]]:
                      ctx.guarded(THIS, [cube, owner, act, crawford, state, inner, doubled, resign,
                                         roll, length, score])
      ctx.sample(dict(cube=cube, owner=owner))
  for roll in rolls:
    for act in (0, 1):
      for inner in (0, 1):
        if ctx.mine():
          for length, score in lengths:
            for cube, owner in ((0, 3), (3, 0), (15, 1)):
              ctx.guarded(THIS, [cube, owner, act, 0, 1, inner, 0, 0, roll, length, score])
  numbers = sorted(set(range(0, ctx.thorough and 300 or 40) +
                       [n for j in range(5, 15) for n in (2 ** j - 1, 2 ** j, 2 ** j + 1)] + [32766, 32767]))
  for n in numbers:
    if ctx.mine():
      for length, score in ((n, (0, 0)), (32767, (n, 0)), (32767, (0, n)), (32767, (n, n)), (n, (n, n)),
                            (n, (max(n - 1, 0), n // 2)), (0, (n, n // 2)), (1, (n // 3, n)), (5, (n, 3))):
        for act in (0, 1):
          for state in (0, 1):
            ctx.guarded(THIS, [2, 1, act, 0, state, act, 0, 0, (5, 2), length, score])
  for s in ('cAmgAEAAGAAA', 'QYkqASAAIAAA', '////////////', 'AAAAAAAAAAAA'):
    for i in range(len(s) + 1):
      for t in [s[:i], s[i:], s[:i] + s[i + 1:]] + [s[:i] + c + s[i:] for c in 'A/= *'] + \
               [s[:i] + c + s[i + 1:] for c in '*= -\n']:
        if ctx.mine():
          ctx.guarded(THIS, ['text', t])
  ctx.notes['bounds'] = ('full product of cube (16), owner (3), player to act, Crawford, state (5), inner turn, doubled, '
    'resignation (4); all 37 rolls; lengths and scores 0-39 and around every power of two up to 32767; match proxies filled in turn')


class THIS(object):
  check_one = staticmethod(check_one)
