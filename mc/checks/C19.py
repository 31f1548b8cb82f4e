'''Style sheets of board pictures: a rule applies to the elements it selects and no
others, later rules win, unset values come from the enclosing elements or the defaults.

Every selector chain up to a length over a set of simple selectors, and every sequence of
rules up to a length over a set of rules, on the trees of real boards, against imgref.'''
import itertools
import os
import tempfile
import imgref
from imgref import Absent, Node
import bglib.model.board
import bglib.image.css
from bglib.image.base import ElementTree

START = bglib.model.board.AbstractBoard.defaults['position']
END = ((2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1), (15,) + (0,) * 24)
BASIS = dict(position=START, cube_in_logarithm=0, cube_owner=3, on_action=0, crawford=False, game_state=1, on_inner_action=0,
             doubled=False, resign_offer=0, rolled=(0, 0), match_length=5, score=(1, 2))
BOARDS = [dict(BASIS, rolled=(3, 1)), dict(BASIS, position=END, on_action=1, on_inner_action=0, doubled=True),
          dict(BASIS, position=END, cube_in_logarithm=1, cube_owner=1, crawford=True, match_length=2),
          dict(BASIS, on_action=1, on_inner_action=0, resign_offer=2, cube_owner=0, cube_in_logarithm=2)]
PATH = os.path.join(tempfile.gettempdir(), 'sheet-%d', 'default.css')


def board(b):
  return bglib.model.board.Board(**b)


def load(text, shard):
  path = PATH % shard
  if not os.path.isdir(os.path.dirname(path)):
    os.makedirs(os.path.dirname(path))
  f = open(path, 'wb')
  f.write(text)
  f.close()
  return path, bglib.image.css.load(path)


def pairs(real, told):
  'the elements of both trees, side by side'
  yield real, told
  a = [k for k in real.children if hasattr(k, 'attributes')]
  b = [k for k in told.kids if isinstance(k, Node)]
  assert len(a) == len(b)
  for x, y in zip(a, b):
    for p in pairs(x, y):
      yield p


VALUES = {'image': ['uri("a.png")', 'uri("x/b-1_c.jpg")'], 'font': ['uri("f.ttf")', 'uri("../g.ttf")'], 'flip': ['True', 'False'], 'fill': ['True', 'False'],
          'hide_count': ['True', 'False'], 'mag': ['0.5', '1.0', '3.25'], 'diestyle': ['dot', 'numeric'], 'player': ['you', 'him'],
          'parity': ['odd', 'even'], 'id': ['left', 'other'], 'color': ['red', '#a0B1c2', 'none'], 'background': ['blue', '#000'],
          'backgammon': ['red'], 'text': ['abc', 'x.y,z!'], 'initialCube': ['64', '1', 'A']}
ELEMENTS = ['board', 'match', 'action', 'length', 'crawford', 'score', 'position', 'top_frame', 'bottom_frame', 'cubeholder', 'field', 'die', 'cube',
            'resign', 'home', 'chequer', 'bar', 'point']


def two_trees(ctx, first, second, n, m, how):
  'one or two style sheets, from different folders, on one or two trees'
  path, rules = load(first, ctx.shard)
  other = os.path.join(os.path.dirname(path), 'other')
  if not os.path.isdir(other):
    os.makedirs(other)
  other = os.path.join(other, 'x.css')
  f = open(other, 'wb')
  f.write(second)
  f.close()
  a, b = ElementTree(board(BOARDS[n])), ElementTree(board(BOARDS[m]))
  ta, tb = imgref.tree(BOARDS[n]), imgref.tree(BOARDS[m])
  if how == 'both':               # both sheets on a, the second on b
    also = bglib.image.css.load(other)
    rules.apply(a)
    also.apply(b)
    also.apply(a)
    for t, p in ((ta, path), (tb, other), (ta, other)):
      imgref.cascade(imgref.sheet(p), p, t)
  elif how == 'again':            # one sheet on a, on b and on a again
    for t, x in ((a, ta), (b, tb), (a, ta)):
      rules.apply(t)
      imgref.cascade(imgref.sheet(path), path, x)
  else:                           # asked of the tree itself
    a.css(path)
    b.css(other)
    a.css(other)
    for t, p in ((ta, path), (tb, other), (ta, other)):
      imgref.cascade(imgref.sheet(p), p, t)
  ctx.states += 2
  for tree, told in ((a, ta), (b, tb)):
    for real, want in pairs(tree.board, told):
      ctx.transitions += 1
      has = dict([(k, v.get()) for k, v in real.attributes.items()])
      if has != want.attrs:
        return ctx.fail('two', 'the style sheets %r and %r (%s) on boards %d, %d give %s the values %s instead of %s' % (
                        first, second, how, n, m, real, has, want.attrs))
  ctx.traces += 1
  ctx.outcome('two')


def built(ctx, text, holder, kids):
  'an element with text and elements in some order, put into the picture of a board'
  path, rules = load(text, ctx.shard)
  tree = ElementTree(board(BOARDS[0]))
  told = imgref.tree(BOARDS[0])
  for real, want in list(pairs(tree.board, told)):
    if real.name == holder:
      for k in kids:
        if k[0] == 'text':
          real.append(str(k[1]))
          want.kids.append(str(k[1]))
        else:
          e = bglib.image.base.Element(str(k[0]))
          e.append(str(k[1]))
          real.append(e)
          want.add(Node(str(k[0]), str(k[1])))
  rules.apply(tree)
  imgref.cascade(imgref.sheet(path), path, told)
  ctx.states += 1
  for real, want in pairs(tree.board, told):
    ctx.transitions += 1
    has = dict([(k, v.get()) for k, v in real.attributes.items()])
    if has != want.attrs:
      return ctx.fail('built', 'the style sheet %r, with %s added to each %s, gives %s the values %s instead of %s' % (
                      text, kids, holder, real, has, want.attrs))
  ctx.traces += 1
  ctx.outcome('built')


def check_one(ctx, case):
  if case[0] == 'two':
    return two_trees(ctx, *case[1:])
  if case[0] == 'built':
    return built(ctx, *case[1:])
  text, which, deep = case
  path, rules = load(text, ctx.shard)
  for n in which:
    tree = ElementTree(board(BOARDS[n]))
    told = imgref.tree(BOARDS[n])
    about = 'the style sheet %r on board %d' % (text, n)
    rules.apply(tree)
    imgref.cascade(imgref.sheet(path), path, told)
    ctx.states += 1
    for real, want in pairs(tree.board, told):
      ctx.transitions += 1
      has = dict([(k, v.get()) for k, v in real.attributes.items()])
      if has != want.attrs:
        return ctx.fail('applied', '%s gives %s the values %s instead of %s' % (about, real, has, want.attrs))
      if not deep:
        continue
      for name in imgref.BASE + imgref.OWN.get(want.name, []):
        try:
          value = getattr(real, name)
        except AttributeError:
          value = Absent
        try:
          expect = want.get(name)
        except Absent:
          expect = (name == 'fill' and want.name in ('home', 'point')) and 'any' or Absent
        if expect != 'any' and (value != expect or type(value) is not type(expect)):
          return ctx.fail('value', '%s makes %s of %s %r instead of %r' % (about, name, real, value, expect))
    ctx.traces += 1
  ctx.outcome(deep and 'sequence' or 'selector')


NAMES = ['board', 'match', 'position', 'point', 'chequer', 'bar', 'home', 'cube', 'field', 'die', 'score', 'action', 'resign',
         'cubeholder', 'player', 'top_frame']
CONDITIONS = ['', '[player=you]', '[player=him]', '[parity=odd]', '[parity="even"]', "[id='left']", '[player="you"]', '[id=right]']
DATA = ['', ':data(1)', ':data(2)', ":data('5')", ':data("15")', ':data(True)', ':data(0)', ':data(24)']
SIMPLE = [n + c + d for n in NAMES for c in CONDITIONS for d in DATA]
OUTER = ['board', 'match', 'position', 'point', 'point[parity=odd]', 'point[parity="even"]:data(24)', 'point:data(6)', 'home', 'home[player=him]',
         'field[player=you]', 'bar', 'bar[player=him]', 'player', 'chequer', 'point:data(5)']
INNER = ['chequer', 'chequer[player=you]', "chequer[player='him']:data(5)", 'cube', 'cube:data(1)', 'die', 'die[id=left]', 'point', 'point[parity=odd]',
         'home', 'score', 'score[player="him"]', 'position', 'board', 'resign', 'field']
RULES = ['chequer {x: 1}', 'point chequer {x: 2; image: uri("a.png")}', 'chequer[x=1] {y: 3}', 'chequer[x=2] {y: 4; x: 1}',
         'chequer {image: uri("b.png"); flip: False;}', 'point {flip: True; color: red}', 'point:data(6) {flip: False}',
         'point[flip=True] {color: blue}', 'board {font: uri("f.ttf"); width: 100; x: 5}', 'position chequer {font: uri("g/h.ttf"); hide_count: False}',
         'chequer:data(5) {hide_count: True; x_offset: -3}', 'chequer[hide_count=True] {max_count: 1}', 'cube {initialCube: 64; background: none}',
         'a line which is not a rule', 'position {mag: 0.5; x: 6}', 'die {diestyle: numeric; eyesize: 4}', 'field {text: abc; width: 7}', '',
         'bar, home', 'point[flip=False] {y: 9; flip: True}', 'cube[initialCube=64] {x: 8}']
WORDS = ['point {x: 1; y: 2}', '  point {x: 1; y: 2}', 'point{x:1;y:2}', 'point {x: 1; y: 2;}', 'point { x : 1 ; y : 2 ; }', 'point   {x:1;   y:2}  ',
         'point[parity=odd]{x: 1}', 'point[parity="odd"]{x: 1}', "  point[parity='odd']  {  x: 1 }", 'board  point{x: 1}', '   board   position  point { x: 1 }',
         'point {x: 1', 'point x: 1}', 'point {x 1; y: 2}', 'point {; y: 2}', 'point { ;y: 2; ; }', 'point {x: 1} tail', 'point {x: 1; x: 2}',
         'point {y: 2; x: 1; y: 3}', 'point:data(1){x: -1}', "point:data('1') {x: 1}", 'point:data("1"){x: 1}', 'point {image: uri("a-b_c.1.png")}',
         'point {image:uri("sub/a.png");x:1}', 'point {color: #a0B1c2}', 'point {color:#a0B1c2;flip:True}', 'chequer {max_count:1 ; hide_count: True}',
         'point[parity=odd] chequer[player=him]:data(5) {x: 1}', 'chequer {x: 1}\r', 'chequer {color: red; background:blue;}\r', 'die{diestyle:dot}']


def run(ctx):
  all_boards = range(len(BOARDS))
  def go(case):
    if ctx.mine():
      ctx.guarded(THIS, case)
  for s in SIMPLE:
    go(['%s {x: 7}\n' % s, all_boards, False])
  for a in OUTER:
    for b in INNER:
      go(['%s %s {y: 7; color: red}\n' % (a, b), all_boards, False])
      for c in OUTER:
        go(['%s %s %s {x: 7}\n' % (c, a, b), all_boards[:2], False])
  for w in WORDS:
    for v in [''] + WORDS:
      go([w + '\n' + v + '\n', all_boards, False])
      go([w + '\n' + v, all_boards[:1], True])
  for n in range(1, 3):
    for l in itertools.product(RULES, repeat=n):
      go(['\n'.join(l) + '\n', all_boards, True])
  for l in itertools.product(RULES, repeat=3):
    go(['\n'.join(l) + '\n', [hash(l) % 4], ctx.thorough])
  if ctx.thorough:
    for l in itertools.product(RULES, repeat=4):
      go(['\n'.join(l) + '\n', all_boards[1:2], False])
  for name in ELEMENTS:
    for attr in imgref.BASE + imgref.OWN.get(name, []):
      values = VALUES.get(attr, ['0', '7', '-12', '1000'])
      for v in values:
        go(['%s {%s: %s}\n' % (name, attr, v), all_boards, True])
        for u in values:
          go(['%s {%s: %s}\n%s {%s: %s}\nboard {%s: %s}\n' % (name, attr, v, name, attr, u, attr in imgref.BASE and attr or 'x',
                                                          attr in imgref.BASE and u or '1'), all_boards[:1], True])
          if attr not in ('image', 'font'):
            go(['%s {%s: %s}\n%s[%s=%s] {x: 99}\n' % (name, attr, v, name, attr, u), all_boards, False])
            go(['%s {%s: %s}\n%s[%s="%s"] {x: 99}\n' % (name, attr, v, name, attr, u), all_boards[:1], False])
  # long sheets
  for k in range(len(RULES)):
    for n in (12, 60, 500):
      l = [RULES[(k + i * (k % 5 + 1)) % len(RULES)] for i in range(n)]
      go(['\n'.join(l) + '\n', all_boards[:2], n == 12])
  for n in (10, 100, 1000):
    go(['\n'.join(['point {x: %d; y: %d}' % (i, n - i) for i in range(n)]) + '\n', all_boards, True])
    go(['\n'.join(['point[x=%d] {x: %d}' % (i, i + 1) for i in range(n)]) + '\n', all_boards, False])
    go(['\n'.join(['point {x: 0}'] + ['point[x=%d] {x: %d}' % (i, i + 1) for i in range(n)]) + '\n', all_boards, False])
    go(['chequer {%s}\n' % '; '.join(['%s: %d' % ('xy'[i % 2], i) for i in range(n)]), all_boards, False])
    go(['\n' * n + 'chequer {x: 1}\n' + 'nothing\n' * n + 'chequer {y: 1}', all_boards, False])
  for a in RULES:
    for b in RULES:
      for n in (0, 1):
        for how in ('both', 'again', 'asked'):
          go(['two', a + '\n', b + '\n', n, 1 - n, how])
  # elements with more than one text
  for holder, kind in (('field', 'die'), ('field', 'resign'), ('cubeholder', 'cube'), ('home', 'chequer'), ('bar', 'chequer'), ('point', 'chequer')):
    some = [('text', '1'), ('text', '2'), (kind, '2')]
    for n in range(1, 4):
      for kids in itertools.product(some, repeat=n):
        for rule in ('%s:data(1) {x: 3}', '%s:data(2) {x: 3}', "%s:data('1') {x: 3; y: 4}", '%s:data(12) {x: 3}', 'position %s:data("2") {x: 4}'):
          go(['built', rule % holder + '\n', holder, kids])
        go(['built', '%s:data(2) %s {x: 3}\n%s:data(1) %s:data(2) {y: 3}\n' % (holder, kind, holder, kind), holder, kids])
  # long words
  for n in (31, 32, 60, 61, 64, 100, 127, 128, 255, 256, 1000):
    go(['point {color: %s}\n' % ('r' * n), all_boards[:1], True])
    go(['point {image: uri("%s.png"); x: 7}\n' % ('d/' * n + 'a' * n), all_boards[:1], True])
    go(['point {color: %s}\npoint[color=%s] {x: 1}\npoint[color=%s] {x: 2}\n' % ('r' * n, 'r' * n, 'r' * (n - 1)), all_boards[:1], True])
    go(['board %s point {x: 1}\n' % (' ' * n), all_boards[:1], True])
    go(['point {%sx:%s1;%sy: %s2}\n' % ((' ' * n,) * 4), all_boards[:1], True])
    go(['field {text: %s}\nfield:data(%s) {x: 1}\n' % ('t' * n, '1' * n), all_boards[:1], True])
  ctx.sample(dict(selectors=SIMPLE[:40], rules=RULES))
  ctx.notes['bounds'] = ('%d simple selectors, %d of two and %d of three parts, every sequence of up to %d of %d rules, '
    'every two of %d spellings; on %d boards' % (len(SIMPLE), len(OUTER) * len(INNER), len(OUTER) ** 2 * len(INNER),
    ctx.thorough and 4 or 3, len(RULES), len(WORDS), len(BOARDS)))


class THIS(object):
  check_one = staticmethod(check_one)
