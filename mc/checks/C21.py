'''Pictures: what is painted is what the tree and the style sheet say, in order, scaled to
fit the size asked for; it depends on nothing painted before and changes nothing.

Every theme on every board of a list at every size of a range; every small style sheet
made of the properties that matter to each element; every order of a few paintings.'''
import itertools
import os
import imgref
import C19
from C19 import BASIS, START
from C20 import side, ROLLS
import bglib.model.board
import bglib.model.boardeditor
import bglib.image.css
import bglib.image.draw

THEMES = ('deutsche', 'flower', 'kotobuki', 'matrix', 'minimal', 'nature', 'neon', 'safari')


class Recorder(bglib.image.draw.Draw):
  'a canvas that remembers'
  def draw_text(self, position, size, text, font_name, fill):
    self.dc.append(('text', text, tuple(position), tuple(size), font_name, fill))

  def draw_ellipse(self, position, size, fill=None):
    self.dc.append(('ellipse', tuple(position), tuple(size), fill))

  def draw_polygon(self, points, fill=None):
    self.dc.append(('polygon', tuple([tuple(p) for p in points]), fill))

  def draw_rect(self, position, size, fill=None):
    self.dc.append(('rect', tuple(position), tuple(size), fill))

  def load_image(self, uri, size, flip):
    return uri, tuple(size), flip

  def paste_image(self, src, position, size):
    assert src[1] == tuple(size), 'an image of size %s pasted as %s' % (src[1], size)
    self.dc.append(('image', src[0], tuple(position), tuple(size), src[2]))


def eyes_apart(ops):
  'the eyes of a die may be painted in any order'
  r = []
  for o in ops:
    if o[0] == 'eyes':
      r += [('ellipse',) + e for e in o[1]]
    else:
      r.append(o)
  return runs(r)


def runs(ops):
  'neighbouring ellipses of one size and colour sorted'
  r = []
  for key, group in itertools.groupby(ops, lambda o: o[0] == 'ellipse' and o[2:]):
    group = list(group)
    r += key and sorted(group) or group
  return r


def check_one(ctx, case):
  globals()['check_' + case[0]](ctx, *case[1:])


LOADED, TREES = {}, {}


def sheet_of(ctx, sheet):
  if '{' in sheet:
    path, rules = C19.load(sheet, ctx.shard)
    return path, rules, imgref.sheet(path)
  if sheet not in LOADED:
    path = os.path.join(ctx.repo, 'bglib', 'image', 'resource', sheet, 'default.css')
    LOADED[sheet] = path, bglib.image.css.load(path), imgref.sheet(path)
  return LOADED[sheet]


def told(path, lines, b, size):
  key = path, str(lines[-1]), str(b)
  if key not in TREES:
    if len(TREES) > 50:
      TREES.clear()
    TREES[key] = imgref.cascade(lines, path, imgref.tree(b))
  return eyes_apart(imgref.paint(TREES[key], size))


def real_board(b):
  b = dict(b, position=(tuple(b['position'][0]), tuple(b['position'][1])), rolled=tuple(b['rolled']), score=tuple(b['score']))
  return b, bglib.model.board.Board(**b)


def compare(ctx, about, got, want):
  ctx.transitions += len(want)
  if got != want:
    for n, (x, y) in enumerate(zip(got + ['nothing'], want + ['nothing'])):
      if x != y:
        ctx.fail('painted-' + (x == 'nothing' and y or x)[0], '%s: stroke %d is %s instead of %s' % (about, n, x, y))
        return False
  return True


def check_paint(ctx, sheet, which, sizes):
  path, rules, lines = sheet_of(ctx, sheet)
  for n, size in itertools.product(which, sizes):
    size = tuple(size)
    b, board = real_board(BOARDS[n])
    got = runs(Recorder(rules).draw(board, size))
    ctx.states += 1
    about = 'board %d with the sheet %r at %s' % (n, sheet, size)
    if not compare(ctx, about, got, told(path, lines, b, size)):
      return
    for o in got:
      if o[0] == 'rect' and (o[2][0] > size[0] or o[2][1] > size[1]) and '{' not in sheet:
        return ctx.fail('fits', '%s: %s does not fit' % (about, o))
    for name, value in b.items():
      if getattr(board, name) != value:
        return ctx.fail('changed', '%s: painting changes %s' % (about, name))
    ctx.traces += 1
  ctx.outcome('{' in sheet and 'small-sheet' or sheet)


def check_order(ctx, sheet, steps):
  'one Draw object paints the steps one after the other'
  path, rules, lines = sheet_of(ctx, sheet)
  d = Recorder(rules)
  for k, (n, size) in enumerate(steps):
    b, board = real_board(BOARDS[n])
    ctx.states += 1
    if not compare(ctx, 'after %s, board %d with %s at %s' % (steps[:k], n, sheet, size), runs(d.draw(board, tuple(size))),
                   told(path, lines, b, tuple(size))):
      return
  ctx.traces += 1
  ctx.outcome('order')


def check_edit(ctx, sheet, steps, size):
  'one board, edited, is painted as it is each time'
  path, rules, lines = sheet_of(ctx, sheet)
  d = Recorder(rules)
  editor = bglib.model.boardeditor.BoardEditor()
  for k, n in enumerate(steps):
    b, board = real_board(BOARDS[n])
    for name, value in b.items():
      setattr(editor, name, value)
    ctx.states += 1
    if not compare(ctx, 'a board edited to be %s, now board %d with %s at %s' % (steps[:k], n, sheet, size), runs(d.draw(editor, tuple(size))),
                   told(path, lines, b, tuple(size))):
      return
  ctx.traces += 1
  ctx.outcome('edit')


def check_turns(ctx, sheets, which, sizes):
  'several Draw objects paint the same boards in turn'
  draws = [(Recorder(sheet_of(ctx, s)[1]), s) for s in sheets]
  boards = [real_board(BOARDS[n]) for n in which]
  for size in sizes:
    for b, board in boards:
      for d, s in draws:
        path, rules, lines = sheet_of(ctx, s)
        ctx.states += 1
        if not compare(ctx, 'with %s in turn, %s on %s at %s' % (sheets, s, b, size), runs(d.draw(board, tuple(size))), told(path, lines, b, tuple(size))):
          return
  ctx.traces += 1
  ctx.outcome('turns')


class Failing(Recorder):
  'a canvas on which the stroke of some number fails'
  failing = None
  def stroke(self):
    if self.failing is not None and len(self.dc) == self.failing:
      self.failing = None
      raise IOError('no such file')

  def draw_text(self, *args):
    self.stroke()
    Recorder.draw_text(self, *args)

  def draw_rect(self, *args):
    self.stroke()
    Recorder.draw_rect(self, *args)

  def load_image(self, *args):
    self.stroke()
    return Recorder.load_image(self, *args)


def check_failed(ctx, sheet, n, m, size):
  'a picture which could not be painted to its end leaves nothing for the next'
  path, rules, lines = sheet_of(ctx, sheet)
  b, board = real_board(BOARDS[n])
  c, other = real_board(BOARDS[m])
  whole = len(Recorder(rules).draw(board, tuple(size)))
  d = Failing(rules)
  for k in range(whole):
    d.failing = k
    try:
      d.draw(board, tuple(size))
    except IOError:
      ctx.outcome('failed')
    d.failing = None
    ctx.states += 1
    if not compare(ctx, 'after board %d failed at stroke %d, board %d with %s at %s' % (n, k, m, sheet, size), runs(d.draw(other, tuple(size))),
                   told(path, lines, c, tuple(size))):
      return
  ctx.traces += 1


OTHER = side((0, 2), (11, 5), (16, 3), (19, 4))
BOARDS = ([dict(BASIS, rolled=r) for r in ROLLS[1:]] + [dict(BASIS, rolled=r, on_action=1, on_inner_action=1) for r in ROLLS[1:]] +
  [dict(BASIS), dict(BASIS, on_action=1, on_inner_action=1),
   dict(BASIS, on_inner_action=1, doubled=True), dict(BASIS, on_inner_action=0, doubled=True), dict(BASIS, on_action=1, doubled=True),
   dict(BASIS, on_action=1, on_inner_action=1, doubled=True)] +
  [dict(BASIS, on_inner_action=1 - me, on_action=me, resign_offer=n) for me in (0, 1) for n in (1, 2, 3)] +
  [dict(BASIS, cube_in_logarithm=n, cube_owner=o) for n in (0, 1, 3, 6) for o in (0, 1, 3)] +
  [dict(BASIS, crawford=True, score=(n, 25 - n)) for n in (0, 1, 9, 24)] +
  [dict(BASIS, match_length=n) for n in (0, 1, 25)])
STATES = len(BOARDS)
for at in range(25):
  for n in (1, 2, 3, 5, 6, 7, 15):
    BOARDS.append(dict(BASIS, position=(side((at, n)), side((24 - at, 15 - n)))))
    BOARDS.append(dict(BASIS, position=(side((24 - at, 3), (at, 1)), side((at, n - 1)))))
BOARDS = [b for b in BOARDS if not [1 for i in range(24) if b['position'][0][i] and b['position'][1][23 - i]]]
STACKS = range(STATES, len(BOARDS))
BOARDS += ([dict(BASIS, cube_in_logarithm=n, cube_owner=n % 2, match_length=0) for n in range(7, 16)] +
  [dict(BASIS, cube_in_logarithm=n, cube_owner=0, on_inner_action=1, doubled=True, match_length=0) for n in (6, 9, 10, 14)] +
  [dict(BASIS, match_length=n, score=(n - 1, n / 2)) for n in (64, 99, 100, 1023, 32767)])

FRAME = 'board {x: 0; y: 0; width: 100; height: 60; background: grey}\npoint {x: 20; y: 10; width: 6; height: 20}\nbar {x: 40; y: 3; width: 9; height: 50}\n' \
        'home {x: 90; y: 3; width: 9; height: 50}\n'
# for each element, the choices for each of its properties
SMALL = {
  'chequer': [['x: 21; y: 11; width: 5; height: 4; color: red'], ['', 'image: uri("c.png")'], ['', 'flip: True'], ['', 'x_offset: 2', 'x_offset: 9; x_offset2: -9; y_offset2: 4'],
              ['', 'y_offset: 5', 'y_offset: 4; y_offset2: -14; x_offset2: 2', 'y_offset: -4'], ['max_count: 1', 'max_count: 5', 'max_count: 20'],
              ['', 'font: uri("f.ttf")'], ['', 'hide_count: True', 'hide_count: False']],
  'cube': [['x: 3; y: 7; width: 9; height: 8', 'width: 10; x: 60'], ['font: uri("f.ttf")', 'image: uri("c.png")'], ['', 'color: red'], ['', 'initialCube: 64'],
           ['', 'flip: True', 'flip: False'], ['', 'background: blue']],
  'resign': [['x: 3; y: 7; width: 9; height: 8'], ['font: uri("f.ttf")', 'image: uri("c.png")'], ['', 'color: red'], ['', 'x_offset: 7'], ['', 'y_offset: -3'],
             ['', 'flip: True']],
  'die': [['x: 3; y: 7; width: 19; height: 17', 'x: 3; y: 7; width: 8; height: 9'], ['color: red', 'image: uri("d.png")', 'background: red; font: uri("f.ttf")'],
          ['eyesize: 3', 'eyesize: 4'], ['', 'diestyle: numeric; font: uri("f.ttf")', 'diestyle: dot']],
  'point': [['color: red', 'image: uri("p.png")', 'background: blue', ''], ['', 'flip: True', 'flip: False'], ['', 'fill: False', 'fill: True'],
            ['', 'width: 7; height: 31', 'x: 33; y: 2']],
  'field': [['x: 5; y: 5; width: 20; height: 10'], ['', 'color: red', 'image: uri("f.png")'], ['', 'text: Hello'], ['', 'font: uri("f.ttf")'], ['', 'background: pink']],
  'crawford': [['x: 5; y: 5; width: 20; height: 10'], ['', 'color: red', 'image: uri("f.png")'], ['', 'font: uri("f.ttf")'], ['', 'flip: True']],
  'score': [['x: 5; y: 5; width: 20; height: 10'], ['', 'color: red', 'image: uri("f.png")'], ['', 'font: uri("f.ttf")'], ['', 'flip: True']],
  'action': [['x: 5; y: 5; width: 20; height: 10'], ['', 'color: red', 'image: uri("f.png")'], ['', 'font: uri("f.ttf")'], ['', 'flip: True']],
  'length': [['x: 5; y: 5; width: 20; height: 10'], ['', 'color: red', 'image: uri("f.png")'], ['', 'font: uri("f.ttf")'], ['', 'flip: True']],
  'bar': [['', 'color: red', 'image: uri("f.png")'], ['', 'background: blue'], ['', 'flip: True']],
  'home': [['', 'color: red', 'image: uri("f.png")'], ['', 'background: blue'], ['', 'flip: True']],
  'position': [['x: 1; y: 2; width: 30; height: 31'], ['', 'color: red', 'image: uri("f.png")'], ['', 'background: blue'], ['', 'flip: True'], ['', 'mag: 2.5']],
  'top_frame': [['x: 1; y: 2; width: 30; height: 31', ''], ['', 'color: red', 'image: uri("f.png")'], ['', 'background: blue']],
  'match': [['', 'color: red', 'image: uri("f.png")'], ['', 'background: blue'], ['', 'flip: True', 'font: uri("m.ttf")']],
}
SHOWN = {'chequer': STACKS[::29] + STACKS[1::29], 'cube': range(72, 78) + range(84, 96), 'resign': range(78, 84), 'die': range(0, 6) + range(6, 42, 7), 'crawford': range(95, 98)}
SIZES = [(100, 60), (341, 262), (150, 200), (33, 17)]


def run(ctx):
  def go(case):
    if ctx.mine():
      ctx.guarded(THIS, case)
  for t in THEMES:
    for n in range(len(BOARDS)):
      go(['paint', t, [n], [(341, 262)] + (ctx.thorough and [(400, 300), (1000, 800), (50, 700), (10, 10)] or [])])
  # a picture of any size
  step = ctx.thorough and 1 or 3
  for t in ('matrix', 'nature', 'safari'):          # the three sizes of boards
    for s in range(1, ctx.thorough and 2000 or 700, 8 * step):
      go(['paint', t, [0], [(k, k) for k in range(s, s + 8 * step, step)]])
      go(['paint', t, [80], [(k * 3, 600) for k in range(s, s + 8 * step, 4 * step)]])
  for name in sorted(SMALL):
    for choice in itertools.product(*SMALL[name]):
      sheet = FRAME + '%s {%s}\n' % (name, '; '.join([c for c in choice if c] or ['x: 20']))
      go(['paint', sheet, SHOWN.get(name, [0, 73, 77, 95])[:ctx.thorough and 99 or 6], ctx.thorough and SIZES or SIZES[1:2]])
  few = [(n, s) for n in (0, 80, STACKS[40]) for s in ((341, 262), (100, 90))]
  for t in ctx.thorough and THEMES or ('safari', 'nature'):
    for l in itertools.product(few, repeat=3):
      go(['order', t, list(l)])
    for l in itertools.permutations((0, 36, 72, 74, STACKS[40]), 3):
      go(['edit', t, list(l), (341, 262)])
  for s in itertools.permutations(THEMES, 2):
    go(['turns', list(s), [0, 74, STACKS[40]], [(341, 262), (100, 90)]])
  go(['turns', list(THEMES), [0, 73, STACKS[40]], [(341, 262)]])
  # one Draw, one after the other: all the boards, and a picture of many sizes
  for t in ctx.thorough and THEMES or THEMES[::3]:
    go(['order', t, [(n, (341, 262)) for n in range(len(BOARDS)) + range(0, len(BOARDS), 9)]])
    go(['order', t, [((0, 80, STACKS[40])[k % 3], (3 * k + 20, 2 * k + 31)) for k in range(300)]])
    go(['edit', t, range(0, len(BOARDS), 2) + range(0, len(BOARDS), 9), (341, 262)])
    for n, m in ((0, 0), (0, STACKS[40]), (74, 0), (STACKS[3], 74)):
      go(['failed', t, n, m, (341, 262)])
  ctx.sample(dict(boards=len(BOARDS), small=SMALL['chequer']))
  ctx.notes['bounds'] = ('%d themes on %d boards; pictures of every %s size to %d; %d small sheets; every order of 3 paintings of 6, and of a board edited in between; all boards one after the other, and 300 sizes, with one Draw' % (
    len(THEMES), len(BOARDS), step == 1 and 'square' or 'third square', ctx.thorough and 2000 or 700,
    sum([len(list(itertools.product(*SMALL[n]))) for n in SMALL])))


class THIS(object):
  check_one = staticmethod(check_one)
