'''The protocol of a game: whose turn it is, rolling, the cube, resigning.

Explores every reachable state of the game protocol on the real BoardEditor, all
actions by both players at each, in lock step with a reference written from the
rules.  Illegal actions must be refused and change nothing.'''
from bglib.model import Board, BoardEditor
from bglib.model.constants import *
import bgrules as R

FIELDS = ('on_action', 'on_inner_action', 'game_state', 'doubled', 'resign_offer', 'rolled',
          'cube_in_logarithm', 'cube_owner', 'score', 'match_length', 'crawford')
ROLLED = ((3, 1), (2, 2), (6, 5))


class Ref(object):
  'the rules; a state is a dict of FIELDS'
  @staticmethod
  def may_roll(s, who):
    return (s['game_state'] == ON_GOING and s['resign_offer'] == RESIGN_NONE and s['rolled'] == (0, 0)
            and s['on_action'] == who and s['on_inner_action'] == who)

  @staticmethod
  def may_move(s, who):
    return (s['game_state'] == ON_GOING and s['resign_offer'] == RESIGN_NONE and s['rolled'] != (0, 0)
            and s['on_action'] == who and s['on_inner_action'] == who)

  @staticmethod
  def may_double(s, who):
    if s['game_state'] != ON_GOING or s['rolled'] != (0, 0) or s['crawford'] or s['doubled']:
      return False
    if s['on_action'] != who or s['on_inner_action'] != who:
      return False
    if s['cube_owner'] not in (CENTER, who):
      return False
    if s['match_length'] == 0:
      return True
    # a cube is dead when the stake already wins the match
    return s['score'][who] + 2 ** s['cube_in_logarithm'] < s['match_length']

  @staticmethod
  def may_answer_double(s, who):
    return (s['game_state'] == ON_GOING and bool(s['doubled']) and s['on_inner_action'] == who
            and s['on_action'] == 1 - who)

  @staticmethod
  def may_beaver(s, who):
    return Ref.may_answer_double(s, who) and s['match_length'] == 0

  @staticmethod
  def may_resign(s, who):
    return s['game_state'] == ON_GOING and s['on_action'] == who and s['on_inner_action'] == who

  @staticmethod
  def may_answer_resign(s, who):
    return s['game_state'] == ON_GOING and s['resign_offer'] in (1, 2, 3) and s['on_inner_action'] == who

  @staticmethod
  def award(s, who, points):
    score = list(s['score'])
    score[who] += points
    return tuple(score)

  @staticmethod
  def actions(s):
    'every (name, who, argument) with the state it leads to, None where it is illegal'
    for who in (YOU, HIM):
      n = dict(s)
      if Ref.may_double(s, who):
        n.update(doubled=True, on_inner_action=1 - who)
        yield ('double', who, None), n
      else:
        yield ('double', who, None), None
      n = dict(s)
      if Ref.may_answer_double(s, who):
        n.update(doubled=False, on_inner_action=1 - who, cube_owner=who,
                 cube_in_logarithm=s['cube_in_logarithm'] + 1)
        yield ('take', who, None), n
        n = dict(s)
        n.update(game_state=DOUBLED_OUT, score=Ref.award(s, 1 - who, 2 ** s['cube_in_logarithm']))
        yield ('drop', who, None), n
      else:
        yield ('take', who, None), None
        yield ('drop', who, None), None
      for much in (0, 1, 2, 3, 4):
        n = dict(s)
        if Ref.may_resign(s, who) and much in (1, 2, 3):
          n.update(resign_offer=much, on_inner_action=1 - who)
          yield ('offer_resign', who, much), n
        else:
          yield ('offer_resign', who, much), None
      n = dict(s)
      if Ref.may_answer_resign(s, who):
        n.update(game_state=RESIGNED,
                 score=Ref.award(s, who, s['resign_offer'] * 2 ** s['cube_in_logarithm']))
        yield ('accept_resign', who, None), n
        n = dict(s)
        n.update(resign_offer=RESIGN_NONE, on_inner_action=1 - who)
        yield ('reject_resign', who, None), n
      else:
        yield ('accept_resign', who, None), None
        yield ('reject_resign', who, None), None
      if Ref.may_roll(s, who):
        for rolled in ROLLED:
          n = dict(s)
          n.update(rolled=rolled)
          yield ('roll', who, rolled), n
      if Ref.may_move(s, who):
        n = dict(s)
        n.update(rolled=(0, 0), on_action=1 - who, on_inner_action=1 - who)
        yield ('pickupdice', who, None), n


QUERIES = (('is_leagal_to_roll', Ref.may_roll), ('is_leagal_to_move', Ref.may_move),
           ('is_leagal_to_double', Ref.may_double), ('is_cube_take_or_pass', Ref.may_answer_double),
           ('is_leagal_to_redouble', Ref.may_beaver), ('is_leagal_to_resign', Ref.may_resign),
           ('is_to_accept_resign', Ref.may_answer_resign))
POSITION = (tuple(R.START), tuple(R.side((23, 12, 5, 5, 0))))
# other positions, under which the protocol is the same: at the bar, bearing off, closed out, the last chequers
POSITIONS = [POSITION, (tuple(R.START), tuple(R.START)), (tuple(R.side((24, 24, 5, 3))), tuple(R.side((24, 0, 0)))),
             (tuple(R.side((0,))), tuple(R.side((0, 0)))), (tuple(R.side((0, 1, 2, 3, 4, 5) * 2)), tuple(R.side((24,)))),
             (tuple(R.side((23, 22))), tuple(R.side((18,)))), (tuple(R.side((5,) * 15)), tuple(R.side((12,) * 15))),
             (tuple(R.side((24,) * 15)), tuple(R.side((23,) * 15)))]


def editor(s, position=POSITION):
  b = BoardEditor(position=position)
  for k in FIELDS:
    setattr(b, k, s[k])
  return b


def read(b):
  return dict([(k, getattr(b, k)) for k in FIELDS])


def acted(b, name, who, arg):
  try:
    if name == 'roll':
      b.rolled = arg
    elif name == 'pickupdice':
      b.pickupdice()
    elif name == 'offer_resign':
      b.offer_resign(who, arg)
    else:
      getattr(b, name)(who)
    return True
  except Exception, e:
    return False


def check_path(ctx, key, path, depth):
  '''one editor through a whole game: every sequence of actions on from this one, and at its
  end every action that is not allowed'''
  s = dict(zip(FIELDS, key))
  s['rolled'], s['score'] = tuple(s['rolled']), tuple(s['score'])
  b = editor(s)
  done = []
  for i in path:
    (name, who, arg), n = legal(s, len(done))[i]
    done.append('%s(%s, %s)' % (name, who, arg))
    ctx.transitions += 1
    if not acted(b, name, who, arg):
      return ctx.fail('path-refused', 'from %s: %s: the last is refused' % (key, ', '.join(done)))
    s = n
    if read(b) != s:
      got = read(b)
      return ctx.fail('path-wrong', 'from %s: %s gives %s' % (key, ', '.join(done),
               ', '.join(['%s=%s instead of %s' % (k, got[k], s[k]) for k in FIELDS if got[k] != s[k]])))
  for name, may in QUERIES:
    for who in (YOU, HIM):
      if name == 'is_leagal_to_double' and (s['rolled'] != (0, 0) or s['game_state'] != ON_GOING):
        continue
      if bool(getattr(b, name)(who)) != may(s, who):
        return ctx.fail('path-' + name, 'from %s: %s: %s(%d) is not %s' % (key, ', '.join(done), name, who, may(s, who)))
  for (name, who, arg), n in Ref.actions(s):
    if n is None and (acted(b, name, who, arg) or read(b) != s):
      return ctx.fail('path-illegal', 'from %s: %s: %s(%s, %s) is not refused' % (key, ', '.join(done), name, who, arg))
  ctx.states += 1
  ctx.traces += 1
  ctx.outcome('path')
  if len(path) < depth:
    for i in range(len(legal(s, len(path)))):
      check_path(ctx, key, path + [i], depth)


def legal(s, at):
  'what is allowed; of the rolls and resignations one of each, in turn'
  return [(a, n) for a, n in Ref.actions(s) if n is not None and
          (a[0] != 'roll' or a[2] == ROLLED[at % 3]) and (a[0] != 'offer_resign' or a[2] == 1 + at % 3)]


def check_one(ctx, case):
  if case[0] == 'path':
    return check_path(ctx, *case[1:])
  place = case[len(FIELDS):] and POSITIONS[case[len(FIELDS)]] or POSITION
  s = dict(zip(FIELDS, case))
  s['rolled'], s['score'] = tuple(s['rolled']), tuple(s['score'])
  b = editor(s, place)
  about = ', '.join(['%s=%s' % (k, s[k]) for k in FIELDS])
  for name, may in QUERIES:
    for target in (b, b.freeze()):
      for who in (YOU, HIM):
        want = may(s, who)
        try:
          got = bool(getattr(target, name)(who))
        except AssertionError:
          # asking about the cube is only defined before rolling in a game going on
          if name == 'is_leagal_to_double' and (s['rolled'] != (0, 0) or s['game_state'] != ON_GOING):
            got = False
          else:
            raise
        if got != want:
          ctx.fail(name, '%s(%d) is %s with %s' % (name, who, got, about))
  if read(b) != s or b.position != place:
    ctx.fail('query-changes', 'asking changed %s to %s' % (about, read(b)))
  if b.has_rolled() != (s['rolled'] != (0, 0)):
    ctx.fail('has_rolled', 'has_rolled() is %s with %s' % (b.has_rolled(), about))
  if b.has_rolled() and b.is_doubles() != (s['rolled'][0] == s['rolled'][1]):
    ctx.fail('is_doubles', 'is_doubles() is %s with %s' % (b.is_doubles(), about))
  for (name, who, arg), n in Ref.actions(s):
    b = editor(s, place)
    ctx.transitions += 1
    refused = not acted(b, name, who, arg)
    got = read(b)
    if n is None:
      ctx.outcome('refused')
      if not refused or got != s:
        ctx.fail(name + '-illegal', '%s(%s, %s) is illegal with %s, but led to %s' % (
                 name, who, arg, about, dict([(k, got[k]) for k in FIELDS if got[k] != s[k]])))
    else:
      ctx.outcome(name)
      if refused:
        ctx.fail(name + '-refused', '%s(%s, %s) is legal with %s, but is refused' % (name, who, arg, about))
      elif got != n:
        ctx.fail(name + '-wrong', '%s(%s, %s) with %s gives %s' % (name, who, arg, about,
                 ', '.join(['%s=%s instead of %s' % (k, got[k], n[k]) for k in FIELDS if got[k] != n[k]])))
    if b.position != place:
      ctx.fail(name + '-position', '%s(%s, %s) changed the position' % (name, who, arg))


def starts(ctx):
  for on_action in (YOU, HIM):
    for match_length in (0, 1, 2, 3, 5, 9):
      top = max(match_length, 3)
      for score in [(a, b) for a in range(top) for b in range(top)]:
        if match_length > 5 and not ctx.thorough and score not in ((0, 0), (1, 7), (7, 1), (8, 8), (4, 6)):
          continue
        for crawford in (False, True):
          if crawford and match_length == 0:
            continue
          s = dict(zip(FIELDS, (on_action, on_action, ON_GOING, False, 0, (0, 0), 0, CENTER, score,
                                match_length, crawford)))
          yield s


def phases(on, cube, owner, score, length, crawford, dice):
  other = 1 - on
  tail = [cube, owner, score, length, crawford]
  yield [on, on, ON_GOING, False, 0, (0, 0)] + tail
  for d in dice:
    yield [on, on, ON_GOING, False, 0, d] + tail
    yield [on, other, ON_GOING, False, 3, d] + tail
  for offer in (1, 2, 3):
    yield [on, other, ON_GOING, False, offer, (0, 0)] + tail
  if Ref.may_double(dict(zip(FIELDS, [on, on, ON_GOING, False, 0, (0, 0)] + tail)), on):
    yield [on, other, ON_GOING, True, 0, (0, 0)] + tail


def reachable(cube, owner, score, length, crawford):
  'whether the cube can have come there'
  if cube == 0:
    return owner == CENTER
  if owner == CENTER or crawford:
    return False
  for c in range(cube - 1, -1, -1):
    if length and score[1 - owner] + 2 ** c >= length:
      return False
    owner = 1 - owner
  return True


def details(ctx):
  dice = [(a, b) for a in range(1, 7) for b in range(1, 7)]
  for on in (YOU, HIM):
    for place in range(len(POSITIONS)):
      for cube, owner in ((0, CENTER), (1, YOU), (2, HIM), (3, YOU), (3, HIM)):
        for length, score, crawford in ((0, (0, 0), False), (5, (1, 3), False), (11, (2, 0), False), (5, (4, 2), True)):
          if reachable(cube, owner, score, length, crawford):
            for state in phases(on, cube, owner, score, length, crawford, place < 2 and dice or [(6, 6), (1, 2)]):
              yield state + [place]
    for length in (0, 4, 7, 8, 11, 15, 16, 17, 21, 25, 33, 64, 99) + (ctx.thorough and (128, 255, 32767) or ()):
      for cube in range(0, 13):
        marks = [0, 1]
        for c in (cube - 1, cube, cube + 1):
          if c >= 0:
            marks += [length - 2 ** c - 1, length - 2 ** c, length - 2 ** c + 1]
        marks = sorted(set([m for m in marks + [length - 2, length - 1] if 0 <= m < max(length, 2)]))
        for owner in (CENTER, YOU, HIM):
          for a in marks:
            for b in marks:
              for crawford in length and (False, True) or (False,):
                if crawford and length - 1 not in (a, b):
                  continue
                if reachable(cube, owner, (a, b), length, crawford):
                  for state in phases(on, cube, owner, (a, b), length, crawford, [(5, 4)]):
                    yield state


def run(ctx):
  cap = ctx.thorough and 6 or 3
  for s in starts(ctx):
    if not ctx.mine():
      continue
    ctx.sample(dict([(k, s[k]) for k in FIELDS]))
    seen = set()
    stack = [s]
    while stack:
      s = stack.pop()
      key = tuple([s[k] for k in FIELDS])
      if key in seen or s['cube_in_logarithm'] > cap:
        continue
      seen.add(key)
      ctx.states += 1
      ctx.traces += 1
      ctx.guarded(THIS, list(key))
      for act, n in Ref.actions(s):
        if n is not None:
          stack.append(n)
  # games that are not going on: nothing is allowed
  for state in (NOT_STARTED, FINISHED, RESIGNED, DOUBLED_OUT):
    for on_action in (YOU, HIM):
      for inner in (YOU, HIM):
        for doubled in (False, True):
          for offer in range(4):
            for rolled in ((0, 0), (4, 2)):
              if ctx.mine():
                ctx.states += 1
                ctx.traces += 1
                ctx.guarded(THIS, [on_action, inner, state, doubled, offer, rolled, 1, CENTER, (2, 1), 5, False])
  # whole games on one editor
  depth = ctx.thorough and 12 or 10
  for on_action in (YOU, HIM):
    for length, score, crawford in ((0, (0, 0), False), (7, (0, 0), False), (9, (6, 3), False), (3, (2, 1), True), (25, (0, 20), False)):
      key = [on_action, on_action, ON_GOING, False, 0, (0, 0), 0, CENTER, score, length, crawford]
      ctx.states += 1
      first = dict(zip(FIELDS, key))
      for i, (a, n) in enumerate(legal(first, 0)):
        for j in range(len(legal(n, 1))):
          for k in range(len(legal(legal(n, 1)[j][1], 2))):
            if ctx.mine():
              ctx.guarded(THIS, ['path', key, [i, j, k], depth])
  # other positions; all dice; long matches and high cubes
  for state in details(ctx):
    if ctx.mine():
      ctx.states += 1
      ctx.traces += 1
      ctx.guarded(THIS, state)
  ctx.notes['bounds'] = 'cube up to 2**%d; match lengths 0,1,2,3,5,9 with their scores; 3 rolls; complete otherwise; whole games on one editor to %d actions; 8 positions, all rolls, matches to 99 points with all cubes' % (cap, depth)


class THIS(object):
  check_one = staticmethod(check_one)
