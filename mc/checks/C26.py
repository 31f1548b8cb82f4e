'''The Pillow canvas: every stroke lands where and as large as it was asked for, texts are
centred in their box in the largest letters that fit, pictures are the ones asked for.

The imaging library is replaced by one that remembers (pilstub).  Every box up to a size for
a few fonts and texts; every sequence of pictures and fonts asked for; whole boards.'''
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'pilstub'))
import Image
import ImageFont
from ImageDraw import flat
import C21
from C21 import BOARDS, STACKS, real_board, sheet_of
import imgref
import bglib.image.PIL

FONTS = ('wide.ttf', 'low.ttf', 'usual.ttf')
TEXTS = ('1', '64', '*', 'you to roll or double.', '')
LEAST = 8


def letters(size, words, font):
  'how large letters are'
  for f in range(size[1], LEAST - 1, -1):
    w, h = ImageFont.measure(font, f, words)
    if w < size[0] and h < size[1]:
      return f, w, h


def written(at, size, words, font, fill):
  fits = letters(size, words, font)
  if not fits:
    return None
  f, w, h = fits
  return ('text', (at[0] + (size[0] - w) // 2, at[1] + (size[1] - h) // 2), words, font, f, fill)


def on_canvas(o):
  'what an operation of imgref.paint leaves on the canvas'
  if o[0] == 'text':
    return written(o[2], o[3], o[1], o[4], o[5])
  if o[0] == 'image':
    kind, uri, at, size, flip = o
    picture = (uri, flip and (Image.FLIP_TOP_BOTTOM,) or (), size)
    return ('image',) + picture + ((at[0], at[1], at[0] + size[0], at[1] + size[1]), uri.endswith('.png') and picture or None)
  if o[0] == 'rect':
    return ('rect', (o[1][0], o[1][1], o[1][0] + o[2][0] - 1, o[1][1] + o[2][1] - 1), o[3])
  if o[0] == 'ellipse':
    return ('ellipse', (o[1][0], o[1][1], o[1][0] + o[2][0], o[1][1] + o[2][1]), o[3])
  if o[0] == 'polygon':
    return ('polygon', flat(o[1]), o[2])


def runs(log):
  'the eyes of a die, in any order'
  r = []
  for key, group in itertools.groupby(log, lambda o: o[0] == 'ellipse' and (o[1][2] - o[1][0], o[1][3] - o[1][1], o[2])):
    r += key and sorted(group) or list(group)
  return r


def check_one(ctx, case):
  globals()['check_' + case[0]](ctx, *case[1:])


def fresh(size):
  d = bglib.image.PIL.Draw(None)
  d.create_dc(size)
  return d


def check_text(ctx, font, words, width, heights):
  for height in heights:
    at, size = (5, 7), (width, height)
    d = fresh((100, 100))
    d.draw_text(at, size, words, font, 'red')
    log = d.result_from_dc().log
    ctx.states += 1
    want = written(at, size, words, font, 'red')
    if height < LEAST:
      # letters too small to read may be left out
      for o in log:
        w, h = ImageFont.measure(font, o[4], words)
        if w >= width or h >= height:
          return ctx.fail('text', '%r in %s is written as %s, which does not fit' % (words, size, o))
      ctx.outcome('tiny')
      continue
    if log != (want and [want] or []):
      return ctx.fail('text', '%r in %s is written as %s instead of %s' % (words, size, log, want))
    ctx.outcome(want and 'written' or 'left-out')
  ctx.traces += 1


def check_asked(ctx, asked):
  'pictures and fonts asked for one after the other'
  d = fresh((100, 100))
  for k, (what, uri, size, flip) in enumerate(asked):
    ctx.transitions += 1
    if what == 'font':
      f = d.load_font(uri, size[0])
      if (f.uri, f.size) != (uri, size[0]):
        return ctx.fail('font', 'after %s, the font %s of %d is %s of %d' % (asked[:k], uri, size[0], f.uri, f.size))
    else:
      p = d.load_image(uri, size, flip)
      got, want = (p.uri, p.flips, p.size), (uri, flip and (Image.FLIP_TOP_BOTTOM,) or (), tuple(size))
      if got != want:
        return ctx.fail('picture', 'after %s, %s' % (asked[:k], 'the picture is %s instead of %s' % (got, want)))
  ctx.states += 1
  ctx.traces += 1
  ctx.outcome('asked')


def check_boards(ctx, sheet, steps, missing):
  'one canvas maker paints boards one after the other; some may fail for want of a file'
  path, rules, lines = sheet_of(ctx, sheet)
  d = bglib.image.PIL.Draw(rules)
  for k, (n, size) in enumerate(steps):
    b, board = real_board(BOARDS[n])
    ops = []
    for o in C21.told(path, lines, b, tuple(size)):
      ops.append(on_canvas(o))
    want = [o for o in ops if o]
    uris = sorted(set([o[1] for o in want if o[0] == 'image']))
    if missing == k:
      Image.MISSING.update(uris[:1])
      ctx.outcome('missing')
    try:
      try:
        got = d.draw(board, tuple(size))
      except IOError:
        if not Image.MISSING:
          raise
        continue
    finally:
      Image.MISSING.clear()
    ctx.states += 1
    ctx.transitions += len(want)
    if got.mode != 'RGBA' or tuple(got.size) != tuple(size):
      return ctx.fail('canvas', 'the picture of %s is %s of %s' % (steps[k], got.mode, got.size))
    if missing == k:
      continue      # it was made from pictures loaded before
    a, w = runs([o for o in got.log if o[0] != 'text' or o[4] >= LEAST]), runs(want)
    if a != w:
      for i, (x, y) in enumerate(zip(a + ['nothing'], w + ['nothing'])):
        if x != y:
          return ctx.fail('canvas-' + (y == 'nothing' and x or y)[0],
                          'after %s, board %s with %s: stroke %d is %s instead of %s' % (steps[:k], steps[k], sheet, i, x, y))
  ctx.traces += 1
  ctx.outcome('boards')


def run(ctx):
  def go(case):
    if ctx.mine():
      ctx.guarded(THIS, case)
  top = ctx.thorough and 80 or 40
  for font in FONTS:
    for words in TEXTS:
      for width in range(1, len(words) > 5 and 5 * top or top):
        go(['text', font, words, width, range(1, top)])
  asks = [('image', u, s, f) for u in ('a.png', 'b.jpg') for s in ((9, 8), (8, 9), [9, 8]) for f in (False, True)] + \
         [('font', u, s, None) for u in ('a.ttf', 'a.png') for s in ((9, 9), (10, 10))]
  for n in range(1, ctx.thorough and 5 or 4):
    for l in itertools.product(asks, repeat=n):
      go(['asked', list(l)])
  # many, asked for again when the last has come
  for n in (20, 70, 300):
    all = [('image', 'a%d.png' % (i % 7), (9 + i / 7, 8), bool(i % 2)) for i in range(n)]
    fonts = [('font', 'f%d.ttf' % (i % 5), (8 + i / 5, 8), None) for i in range(n)]
    mixed = [i % 2 and all[i] or fonts[i] for i in range(n)]
    for l in all, fonts, mixed, all + fonts:
      go(['asked', l + l])
      go(['asked', l + l[::-1]])
  some = [0, 36, 42, 72, 74, 78, 81, 90] + STACKS[::13]
  for t in C21.THEMES:
    for n in ctx.thorough and range(len(BOARDS)) or some:
      for size in ((341, 262), (800, 600)):
        go(['boards', t, [(n, size)], None])
  few = [(n, s) for n in (0, 80) for s in ((341, 262), (100, 90))]
  for t in ('safari', 'nature'):
    for l in itertools.product(few, repeat=3):
      for missing in (None, 0, 1):
        go(['boards', t, list(l), missing])
  ctx.sample(dict(texts=TEXTS, asked=asks[:3]))
  ctx.notes['bounds'] = ('boxes to %dx%d for %d fonts and %d texts; every sequence of %d of %d pictures and fonts; %d boards in %d themes; '
    'every 3 paintings of 4, with a file missing at each' % (top, top, len(FONTS), len(TEXTS), ctx.thorough and 4 or 3, len(asks),
    ctx.thorough and len(BOARDS) or len(some), len(C21.THEMES)))


class THIS(object):
  check_one = staticmethod(check_one)
