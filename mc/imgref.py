'''The board picture, told independently of bglib.image: the tree of elements of
a board, the rules of a style sheet, the cascade, and what is painted.  Written
for Jython 2.7; imports nothing of bglib.'''
import os.path

YOU, HIM, CENTER = 0, 1, 3
NAME = ('you', 'him')

INHERITED = ('x', 'y', 'width', 'height', 'flip', 'font', 'mag', 'fill')
BASE = ['x', 'y', 'width', 'height', 'image', 'flip', 'background', 'color', 'font', 'mag']
OWN = dict(action=['player'], score=['player'], field=['player', 'text'],
           die=['backgammon', 'diestyle', 'eyesize', 'id'], cube=['initialCube'],
           resign=['player', 'x_offset', 'y_offset'], home=['fill', 'player'],
           chequer=['player', 'x_offset', 'y_offset', 'x_offset2', 'y_offset2', 'hide_count', 'max_count'],
           bar=['player'], point=['fill', 'parity'])
INTS = ('x', 'y', 'width', 'height', 'x_offset', 'y_offset', 'x_offset2', 'y_offset2', 'max_count', 'eyesize')
DEFAULTS = dict(x_offset=0, y_offset=0, x_offset2=0, y_offset2=0, flip=False, hide_count=False, diestyle='dot')


class Absent(Exception):
  pass


class Node(object):
  def __init__(self, name, text=None, **attrs):
    self.name, self.attrs, self.kids, self.parent = name, attrs, [], None
    if text is not None:
      self.kids.append(text)

  def add(self, *nodes):
    for n in nodes:
      n.parent = self
      self.kids.append(n)
    return self

  def get(self, name):
    'The value in force: its own, else the parents\' if inherited, else the default.'
    if name in self.attrs:
      return self.attrs[name]
    if name not in BASE + OWN.get(self.name, []):
      raise Absent(name)
    if name in INHERITED and self.parent is not None:
      return self.parent.get(name)
    if name in DEFAULTS:
      return DEFAULTS[name]
    raise Absent(name)

  def get_or(self, name, default):
    try:
      return self.get(name)
    except Absent:
      return default

  def nodes(self):
    yield self
    for k in self.kids:
      if isinstance(k, Node):
        for n in k.nodes():
          yield n

  def ancestors(self):
    n, r = self.parent, []
    while n is not None:
      r.append(n)
      n = n.parent
    return r

  def plain(self):
    return [self.name, dict([(k, str(v)) for k, v in self.attrs.items()]),
            [isinstance(k, Node) and k.plain() or k for k in self.kids]]


def plain(e):
  'The same form of an element of bglib.image.base.'
  return [e.name, dict([(k, str(v)) for k, v in e.attributes.items()]),
          [hasattr(k, 'attributes') and plain(k) or k for k in e.children]]


# ---- the tree of a board

def what_is_on(b):
  '''(who acts, text, [(element, field, value)...], does the cube lie at its owner)'''
  him = b['on_action']
  other = 1 - him
  subject, verb = [('you', 'your'), ('him', 'his')][him]
  if b['rolled'] != (0, 0):
    return him, '%s to move.' % subject, [('right', him, b['rolled'][0]), ('left', him, b['rolled'][1])]
  inner = b['on_inner_action']
  if b['doubled']:
    doubler = him == YOU and 'you' or 'he'
    if inner == him:
      return him, him == YOU and 'you doubled. he took. you to roll.' or 'he doubled. you took. him to roll.', []
    return other, him == YOU and 'you doubled. him to take or drop.' or 'he doubled. you to take or drop.', \
           [('cube', other, b['cube_in_logarithm'] + 1)]
  if inner == him:
    return him, '%s to roll or double.' % subject, []
  if b['resign_offer'] in (1, 2, 3):
    return other, him == YOU and 'him to accept your resignation or not.' or 'you to accept his resignation or not.', \
           [('resign', other, b['resign_offer'])]
  raise Absent('no such state')


def tree(b):
  actor, words, things = what_is_on(b)
  if b['rolled'] == (0, 0) and b['doubled'] and b['on_inner_action'] != b['on_action'] and b['on_action'] == YOU:
    actor = YOU            # as the reference pictures have it
  pos = b['position']

  def pile(owner, count):
    return count and [Node('chequer', str(count), player=NAME[owner])] or []

  cube_lies = not b['doubled'] or b['on_inner_action'] == b['on_action']
  home, bar, field = {}, {}, {}
  holder = Node('cubeholder')
  for who in (YOU, HIM):
    home[who] = Node('home', player=NAME[who]).add(*pile(who, 15 - sum(pos[who])))
    bar[who] = Node('bar', player=NAME[who]).add(*pile(who, pos[who][24]))
    field[who] = Node('field', player=NAME[who])
  if cube_lies:
    place = b['cube_owner'] == CENTER and holder or home[b['cube_owner']]
    place.add(Node('cube', str(b['cube_in_logarithm'])))
  for kind, where, value in things:
    if kind in ('left', 'right'):
      field[where].add(Node('die', str(value), id=kind))
    else:
      field[where].add(Node(kind, str(value)))
  points = []
  for i in range(1, 25):
    p = Node('point', str(i), parity=i % 2 and 'odd' or 'even')
    p.add(*(pile(YOU, pos[YOU][i - 1]) + pile(HIM, pos[HIM][24 - i])))
    points.append(p)
  match = Node('match').add(Node('action', words, player=NAME[actor]), Node('length', str(b['match_length'])),
                            Node('crawford', str(b['crawford'])),
                            Node('score', str(b['score'][YOU]), player='you'),
                            Node('score', str(b['score'][HIM]), player='him'))
  position = Node('position').add(Node('top_frame'), Node('bottom_frame'), holder, field[YOU], home[YOU], bar[HIM])
  position.add(*points)
  position.add(bar[YOU], home[HIM], field[HIM])
  return Node('board').add(match, position)


# ---- style sheets

def rule(line):
  'A line as (selectors, declarations), or None.'
  if '{' not in line or '}' not in line:
    return None
  head, rest = line.split('{', 1)
  block = rest.rsplit('}', 1)[0]
  selectors = []
  for word in head.split():
    attr = val = data = None
    if ':data(' in word:
      word, data = word.split(':data(')
      data = data[:-1].strip('\'"')
    if '[' in word:
      word, cond = word[:-1].split('[')
      attr, val = cond.split('=')
      val = val.strip('\'"')
    selectors.append((word, attr, val, data))
  decls = []
  for d in block.split(';'):
    if ':' in d:
      k, v = d.split(':', 1)
      decls.append((k.strip(), v.strip()))
  return selectors, decls


def sheet(path):
  return [r for r in [rule(line) for line in open(path)] if r]


def simple(sel, n):
  name, attr, val, data = sel
  if n.name != name:
    return False
  if attr is not None and (attr not in n.attrs or str(n.attrs[attr]) != val):
    return False
  return data is None or data in [k for k in n.kids if not isinstance(k, Node)]


def matches(selectors, n):
  'Descendant selectors: try every way of placing them on the ancestors.'
  def place(sels, chain):
    if not sels:
      return True
    for i, a in enumerate(chain):
      if simple(sels[-1], a) and place(sels[:-1], chain[i + 1:]):
        return True
    return False
  return simple(selectors[-1], n) and place(selectors[:-1], n.ancestors())


def value(name, text, path):
  if name in INTS:
    return int(text)
  if name == 'mag':
    return float(text)
  if name in ('flip', 'fill', 'hide_count'):
    return text == 'True'
  if name in ('image', 'font'):
    return os.path.join(os.path.dirname(path), text.split('"')[1])
  return text


def cascade(rules, path, board):
  for n in board.nodes():
    for sels, decls in rules:
      if matches(sels, n):
        for k, v in decls:
          n.attrs[k] = value(k, v, path)
  return board


# ---- painting

def paint(board, size):
  'What ends up on the canvas, in order.'
  w, h = board.get('width'), board.get('height')
  mag = min(float(size[0]) / w, float(size[1]) / h)
  board.attrs['mag'] = mag
  ops = []

  for n in board.nodes():
    def px(v):
      return int(v * n.get('mag'))

    def box():
      return (px(n.get('x')), px(n.get('y'))), (px(n.get('width')), px(n.get('height')))

    def image(at, sz, flip=None):
      if flip is None:
        flip = n.get('flip')
      ops.append(('image', n.get('image'), at, sz, flip))

    def text(at, sz, words, color):
      ops.append(('text', words, at, sz, n.get('font'), n.get_or('color', color)))

    if n.get_or('background', None) is not None:
      at, sz = box()
      ops.append(('rect', at, sz, n.get('background')))
    picture, color = n.get_or('image', None), n.get_or('color', None)
    if picture is None and color is None:
      continue
    at, sz = box()
    font = n.get_or('font', None)
    if n.name == 'chequer':
      count = int(n.kids[0])
      x, y = at
      right = px(n.parent.get('x')) + px(n.parent.get('width'))
      bottom = px(n.parent.get('y')) + px(n.parent.get('height'))
      for i in range(min(count, n.get('max_count'))):
        if picture:
          image((x, y), sz)
        else:
          ops.append(('ellipse', (x, y), sz, color))
        x, y = x + px(n.get('x_offset')), y + px(n.get('y_offset'))
        if x + sz[0] > right or y + sz[1] > bottom:
          x, y = x + px(n.get('x_offset2')), y + px(n.get('y_offset2'))
      if font and not n.get('hide_count') and count > n.get('max_count'):
        text((x, y), sz, str(count), 'white')
    elif n.name == 'resign':
      if picture:
        x, y = at
        for i in range(int(n.kids[0])):
          x, y = x + px(n.get('x_offset')), y + px(n.get('y_offset'))
          image((x, y), sz, False)
      elif font:
        text(at, sz, ['none', 'single', 'gammon', 'backgammon'][int(n.kids[0])], 'white')
    elif picture:
      image(at, sz)
    elif n.name == 'point':
      (x, y), (w, h) = at, sz
      if n.get('flip'):
        corners = ((x, y), (x + w // 2, y + h), (x + w, y))
      else:
        corners = ((x, y + h), (x + w // 2, y), (x + w, y + h))
      ops.append(('polygon', corners, n.get_or('fill', True) and color or None))
    elif n.name == 'die' and n.get('diestyle') == 'dot':
      e = px(n.get('eyesize'))
      cx = [at[0] + sz[0] * k // 4 - e // 2 for k in (1, 2, 3)]
      cy = [at[1] + sz[1] * k // 4 - e // 2 for k in (1, 2, 3)]
      cx[1], cy[1] = at[0] + sz[0] // 2 - e // 2, at[1] + sz[1] // 2 - e // 2
      L, M, R = cx
      T, C, B = cy
      eyes = {1: [(M, C)], 2: [(R, T), (L, B)], 3: [(R, T), (M, C), (L, B)],
              4: [(R, T), (R, B), (L, T), (L, B)], 5: [(R, T), (R, B), (L, T), (L, B), (M, C)],
              6: [(R, T), (R, C), (R, B), (L, T), (L, C), (L, B)]}[int(n.kids[0])]
      ops.append(('eyes', sorted([(p, (e, e), color) for p in eyes])))
    elif font and n.name in ('action', 'length', 'score', 'field', 'crawford', 'cube', 'die'):
      if n.name == 'crawford':
        words = n.kids[0] == 'True' and '*' or None
      elif n.name == 'cube':
        v = 2 ** int(n.kids[0])
        words = str(v == 1 and n.get_or('initialCube', v) or v)
      elif n.name == 'field':
        words = n.get_or('text', None)
      else:
        words = n.kids[0]
      if words:
        text(at, sz, words, n.name in ('field', 'die') and 'black' or 'white')
  return ops
