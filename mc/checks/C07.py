'''Boards are immutable values and editors are independent of each other.

Explores every sequence of operations, to a depth, over a small family of boards
and editors made from each other, and compares all of them with plain values
after each step; and compares equality and hashes over pairs of boards.'''
import copy
from bglib.model import Board, BoardEditor, PartialMove
from bglib.model.constants import *
import bgrules as R

KEYS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state',
        'on_inner_action', 'doubled', 'resign_offer', 'rolled', 'match_length', 'score')
OTHER = dict(position=(tuple(R.side((24, 5))), tuple(R.side((12, 3)))), cube_in_logarithm=2, cube_owner=HIM,
             on_action=HIM, crawford=True, game_state=ON_GOING, on_inner_action=HIM, doubled=True,
             resign_offer=RESIGN_GAMMON, rolled=(6, 5), match_length=7, score=(2, 3))
START = dict(position=INITIAL_POSITION, cube_in_logarithm=0, cube_owner=CENTER, on_action=YOU, crawford=False,
             game_state=NOT_STARTED, on_inner_action=YOU, doubled=False, resign_offer=RESIGN_NONE,
             rolled=(0, 0), match_length=0, score=(0, 0))
SWAP = {YOU: HIM, HIM: YOU, CENTER: CENTER}


def read(b):
  return dict([(k, getattr(b, k)) for k in KEYS])


# operations on (boards, editors): each names its target by index
def ops(nb, ne):
  yield ('board',)
  yield ('other',)
  for i in range(nb):
    yield ('edit', i)
    yield ('copy', i)
    yield ('deepcopy', i)
    yield ('poke', i)
  for i in range(ne):
    yield ('freeze', i)
    yield ('clone', i)
    yield ('ecopy', i)
    yield ('edeepcopy', i)
    yield ('override', i)
    yield ('flip', i)
    yield ('move', i)
    yield ('turn', i)
    yield ('score', i)
    yield ('double', i)


def small_ops(nb, ne):
  for i in range(nb):
    yield ('edit', i)
  for i in range(ne):
    yield ('freeze', i)
    yield ('clone', i)
    yield ('flip', i)
    yield ('move', i)
    yield ('score', i)


class World(object):
  def __init__(self):
    self.boards, self.editors = [], []       # [real, expected values]

  def do(self, ctx, op):
    kind = op[0]
    if kind == 'board':
      self.boards.append([Board(), dict(START)])
    elif kind == 'other':
      self.boards.append([Board(**OTHER), dict(OTHER)])
    elif kind == 'edit':
      b, v = self.boards[op[1]]
      self.editors.append([BoardEditor(b), dict(v)])
    elif kind in ('copy', 'deepcopy'):
      b, v = self.boards[op[1]]
      self.boards.append([getattr(copy, kind)(b), dict(v)])
    elif kind == 'poke':
      b, v = self.boards[op[1]]
      for k in KEYS + ('nosuch',):
        for f in (lambda: setattr(b, k, OTHER.get(k)), lambda: delattr(b, k)):
          try:
            f()
          except (TypeError, AttributeError):
            continue
          ctx.fail('poke', 'an attribute of a board could be changed: %s' % k)
    elif kind == 'freeze':
      e, v = self.editors[op[1]]
      b = e.freeze()
      if not isinstance(b, Board):
        ctx.fail('freeze', 'freeze() gives a %s' % type(b))
      self.boards.append([b, dict(v)])
    elif kind == 'clone':
      e, v = self.editors[op[1]]
      self.editors.append([BoardEditor(e), dict(v)])
    elif kind in ('ecopy', 'edeepcopy'):
      e, v = self.editors[op[1]]
      self.editors.append([getattr(copy, kind[1:])(e), dict(v)])
    elif kind == 'override':
      e, v = self.editors[op[1]]
      v = dict(v)
      v.update(cube_owner=YOU, doubled=False, rolled=(2, 2), crawford=False)
      self.editors.append([BoardEditor(e, cube_owner=YOU, doubled=False, rolled=(2, 2), crawford=False), v])
    else:
      e, v = self.editors[op[1]]
      if kind == 'flip':
        e.flip()
        v['position'] = (v['position'][1], v['position'][0])
        v['score'] = (v['score'][1], v['score'][0])
        for k in ('cube_owner', 'on_action', 'on_inner_action'):
          v[k] = SWAP[v[k]]
      elif kind == 'move':
        who = v['on_action']
        src = max([p for p in range(25) if v['position'][who][p]])
        e.make_partial_move(PartialMove(1, src, src - 1, False))
        m, t = R.play(v['position'][who], v['position'][1 - who], src, src - 1, False)
        v['position'] = R.position(m, t, who)
      elif kind == 'turn':
        e.pickupdice()
        v['rolled'] = (0, 0)
        v['on_action'], v['on_inner_action'] = 1 - v['on_action'], SWAP[v['on_inner_action']]
      elif kind == 'score':
        e.score = v['score'] = (v['score'][0] + 1, v['score'][1])
      elif kind == 'double':
        e.game_state = v['game_state'] = ON_GOING
        e.rolled = v['rolled'] = (0, 0)
        who = v['on_action']
        e.on_inner_action = v['on_inner_action'] = who
        e.doubled = v['doubled'] = False
        e.crawford = v['crawford'] = False
        e.match_length = v['match_length'] = 0
        e.cube_owner = v['cube_owner'] = CENTER
        e.double(who)
        v['doubled'], v['on_inner_action'] = True, 1 - who

  def agree(self, ctx, trace):
    for kind, things in (('board', self.boards), ('editor', self.editors)):
      for i, (b, v) in enumerate(things):
        got = read(b)
        if got != v:
          ctx.fail(kind + '-changed', 'after %s: %s %d has %s' % (trace, kind, i, ', '.join(
            ['%s=%s instead of %s' % (k, got[k], v[k]) for k in KEYS if got[k] != v[k]])))
    for i, (b, v) in enumerate(self.boards):
      for c, w in self.boards[i:]:
        same = v == w
        if (b == c) != same or (c == b) != same or (b != c) == same or (c != b) == same:
          ctx.fail('equality', 'after %s: == is %s and != is %s for boards that are %s: %s and %s' % (
                   trace, b == c, b != c, same and 'the same' or 'different', v, w))
        if same and hash(b) != hash(c):
          ctx.fail('hash', 'after %s: equal boards hash differently' % (trace,))
    for i, (b, v) in enumerate(self.editors):
      for c, w in self.editors[i:]:
        same = v == w
        if (b == c) != same or (b != c) == same:
          ctx.fail('editor-equality', 'after %s: == is %s and != is %s for editors that are %s' % (
                   trace, b == c, b != c, same and 'the same' or 'different'))
    fresh = Board()
    if read(fresh) != START or read(BoardEditor()) != START:
      ctx.fail('defaults', 'after %s: a new board has %s' % (trace, read(fresh)))


def check_one(ctx, case):
  if case[0] == 'pair':
    return check_pair(ctx, case[1], case[2])
  if case[0] == 'long':
    return check_long(ctx, case[1], case[2])
  w = World()
  for op in case[1]:
    w.do(ctx, op)
  w.agree(ctx, case[1])


def check_long(ctx, pattern, times):
  'the operations of the pattern over and over, each on the board or editor that comes next'
  w = World()
  w.do(ctx, ['board'])
  w.do(ctx, ['other'])
  w.do(ctx, ['edit', 0])
  w.do(ctx, ['edit', 1])
  trace = []
  for k in range(times):
    for name in pattern:
      if name in ('board', 'other'):
        op = [name]
      else:
        op = [name, (k * 3 + len(trace)) % len(name in ('edit', 'copy', 'deepcopy', 'poke') and w.boards or w.editors)]
      if name == 'move' and not [p for p in range(1, 25) if w.editors[op[1]][1]['position'][w.editors[op[1]][1]['on_action']][p]]:
        continue
      trace.append(op)
      w.do(ctx, op)
      ctx.transitions += 1
  w.agree(ctx, '%d times %s' % (times, pattern))
  ctx.states += 1
  ctx.traces += 1
  ctx.outcome('long')


ALTERED = [('position', (INITIAL_POSITION[0], tuple(R.side((1,))))), ('position', (tuple(R.side((1,))), INITIAL_POSITION[1])),
           ('cube_in_logarithm', 1), ('cube_owner', YOU), ('cube_owner', HIM), ('on_action', HIM), ('crawford', True),
           ('game_state', ON_GOING), ('game_state', FINISHED), ('on_inner_action', HIM), ('doubled', True),
           ('resign_offer', 1), ('resign_offer', 3), ('rolled', (1, 0)), ('rolled', (0, 1)), ('rolled', (6, 6)),
           ('match_length', 1), ('score', (1, 0)), ('score', (0, 1))]


def check_pair(ctx, i, j):
  'boards that differ from the start in at most two attributes each'
  vs = []
  for sel in (i, j):
    v = dict(START)
    for k in sel:
      v[ALTERED[k][0]] = ALTERED[k][1]
    vs.append(v)
  v, w = vs
  b, c = Board(**v), Board(**w)
  same = v == w
  if (b == c) != same or (b != c) == same:
    ctx.fail('equality', '== is %s and != is %s for %s and %s' % (b == c, b != c, v, w))
  if same and hash(b) != hash(c):
    ctx.fail('hash', 'equal boards hash differently: %s' % v)
  e, f = BoardEditor(b), BoardEditor(c)
  if (e == f) != same or (e != f) == same:
    ctx.fail('editor-equality', '== is %s and != is %s for editors with %s and %s' % (e == f, e != f, v, w))
  if read(e) != v or read(e.freeze()) != v or not (e.freeze() == b):
    ctx.fail('freeze', 'editing and freezing %s gives %s' % (v, read(e.freeze())))
  ctx.outcome(same and 'equal' or 'different')


def run(ctx):
  depth = ctx.thorough and 6 or 5
  deep = depth + 2
  count = [0]
  def walk(trace, nb, ne, left, gen):
    for op in gen(nb, ne):
      t = trace + [list(op)]
      b2, e2 = nb, ne
      if op[0] in ('board', 'other', 'copy', 'deepcopy', 'freeze'):
        b2 += 1
      if op[0] in ('edit', 'clone', 'override', 'ecopy', 'edeepcopy'):
        e2 += 1
      if b2 > 3 or e2 > 3:
        continue
      if len(t) == 3 and not ctx.mine():
        continue
      if len(t) >= 3 or ctx.shard == 0:
        ctx.states += 1
        ctx.traces += 1
        ctx.transitions += len(t)
        ctx.guarded(THIS, ['ops', t])
      if left > 1:
        walk(t, b2, e2, left - 1, gen)
  walk([], 0, 0, depth, ops)
  walk([['other']], 1, 0, deep - 1, small_ops)
  subsets = [()] + [(i,) for i in range(len(ALTERED))]
  if ctx.thorough:
    subsets += [(i, j) for i in range(len(ALTERED)) for j in range(i)]
  for i in subsets:
    if ctx.mine():
      for j in subsets:
        ctx.states += 1
        ctx.transitions += 1
        ctx.guarded(THIS, ['pair', i, j])
  makers = ['board', 'other', 'edit', 'copy', 'freeze', 'clone', 'ecopy', 'edeepcopy', 'override']
  changes = ['flip', 'move', 'turn', 'score', 'double', 'freeze', 'clone']
  for a in makers:
    for b in changes:
      for c in changes:
        if ctx.mine():
          ctx.guarded(THIS, ['long', [a, b, c], 20])
  ctx.notes['bounds'] = 'all operation sequences to depth %d (all operations) and %d (core operations), at most 3 boards and 3 editors' % (depth, deep)


class THIS(object):
  check_one = staticmethod(check_one)
