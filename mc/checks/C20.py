'''The tree of a board picture tells the board: every chequer, the cube, the dice, scores and
whose turn it is for what, where they belong; its XML reads back as the same tree.

All placements of up to two groups of chequers, and all well-formed states of the game,
against a tree built from the board by imgref; and the stored reference pictures.'''
import copy
import itertools
import os
import re
import xml.dom.minidom
import idref
import imgref
from imgref import Node
from C19 import BASIS, START
import bglib.model.board
import bglib.model.boardeditor
import bglib.image.base
import bglib.image.css
from bglib.image.testwriter import tests


def read(xml_text):
  'an XML text as plain() forms'
  body = re.sub(r'<!DOCTYPE[^>]*>', '', xml_text)
  def form(e):
    kids = []
    for k in e.childNodes:
      if k.nodeType == k.ELEMENT_NODE:
        kids.append(form(k))
      elif k.nodeType == k.TEXT_NODE and k.data.strip():
        kids.append(str(k.data.strip()))
    return [str(e.tagName), dict([(str(k), str(v)) for k, v in e.attributes.items()]), kids]
  return form(xml.dom.minidom.parseString(body).documentElement)


def without_player(plain):
  'the reference pictures do not agree on who acts when your double awaits its answer'
  for k in plain[2][0][2]:
    if k[0] == 'action':
      k[1].pop('player', None)
  return plain


def first_difference(a, b):
  if isinstance(a, list) and isinstance(b, list):
    if a[:2] != b[:2]:
      return a[:2], b[:2]
    for x, y in zip(a[2], b[2]):
      if x != y:
        return first_difference(x, y)
    return [a[0], len(a[2])] + [k[0] for k in a[2]], [b[0], len(b[2])] + [k[0] for k in b[2]]
  return a, b


def check_one(ctx, case):
  globals()['check_' + case[0]](ctx, *case[1:])


def check_board(ctx, b):
  b = dict(b, position=(tuple(b['position'][0]), tuple(b['position'][1])), rolled=tuple(b['rolled']), score=tuple(b['score']))
  board = bglib.model.board.Board(**b)
  want = imgref.tree(b).plain()
  one, two = bglib.image.base.ElementTree(board), bglib.image.base.ElementTree()
  two.set(board)
  ctx.states += 1
  loose = b['doubled'] and b['rolled'] == (0, 0) and b['on_inner_action'] != b['on_action']
  for tree in (one, two):
    got = imgref.plain(tree.board)
    if loose:
      without_player(got), without_player(want)
    if got != want:
      return ctx.fail('tree', 'the tree of %s has %s instead of %s' % ((b,) + first_difference(got, want)))
  ctx.transitions += 2
  text = read(one.xml())
  if loose:
    without_player(text)
  if text != want:
    return ctx.fail('xml', 'the XML of %s has %s instead of %s' % ((b,) + first_difference(text, want)))
  for name, value in b.items():
    if getattr(board, name) != value:
      return ctx.fail('changed', 'making the tree changes %s of %s to %r' % (name, b, getattr(board, name)))
  ctx.traces += 1
  ctx.outcome(' '.join(imgref.what_is_on(b)[1].split()[-3:]))


def check_reference(ctx, theme, name):
  'the stored tree, which bglib once made, is what imgref tells, and what bglib makes now'
  here = os.path.join(ctx.repo, 'bglib', 'image', 'resource', theme)
  stored = read(open(os.path.join(here, 'test', name + '.xml')).read())
  path = os.path.join(here, 'default.css')
  b = from_ids(*tests[name])
  told = imgref.cascade(imgref.sheet(path), path, imgref.tree(b))
  tree = bglib.image.base.ElementTree(bglib.model.board.Board(**b))
  bglib.image.css.load(path).apply(tree)
  ctx.states += 1
  ctx.transitions += 2
  for who, plain in (('imgref', told.plain()), ('bglib', imgref.plain(tree.board))):
    plain, expect = without_prefix(plain), without_prefix(stored)
    if plain != expect:
      return ctx.fail('reference-' + who, 'picture %s of %s: %s has %s instead of %s' % ((name, theme, who) + first_difference(plain, expect)))
  ctx.traces += 1
  ctx.outcome('reference')


def without_prefix(p):
  return [p[0], dict([(k, k in ('image', 'font') and v[v.rindex('bglib'):] or v) for k, v in p[1].items()]),
          [isinstance(k, list) and without_prefix(k) or k for k in p[2]]]


def from_ids(pid, mid):
  second, first = idref.read_position(pid)
  bits, v, at = idref.from_text(mid, 9), {}, 0
  for name, width in idref.FIELDS:
    v[name] = sum([bits[at + j] << j for j in range(width)])
    at += width
  b = dict(rolled=(v.pop('die1'), v.pop('die2')), score=(v.pop('score0'), v.pop('score1')), **v)
  b['crawford'], b['doubled'] = bool(b['crawford']), bool(b['doubled'])
  b['position'] = b['on_action'] and (second, first) or (first, second)
  return b


ROLLS = [(0, 0)] + [(i, j) for i in range(1, 7) for j in range(1, 7)]


def well_formed(b):
  try:
    imgref.what_is_on(b)
  except imgref.Absent:
    return False
  if b['rolled'] != (0, 0):
    return b['on_inner_action'] == b['on_action'] and not b['doubled'] and not b['resign_offer']
  return not (b['resign_offer'] and (b['doubled'] or b['on_inner_action'] == b['on_action']))


def side(*groups):
  s = [0] * 26          # the last are borne off
  for at, n in groups:
    s[at] += n
  s[25] += 15 - sum(s)
  return s[25] >= 0 and tuple(s[:25]) or None


def run(ctx):
  def go(case):
    if case[0] == 'board':
      mine, his = case[1]['position']
      if [1 for i in range(24) if mine[i] and his[23 - i]]:
        return          # nobody shares a point
    if ctx.mine():
      ctx.guarded(THIS, case)

  START_OTHER = side((0, 2), (11, 5), (16, 3), (19, 4))
  for me, inner, doubled, resign, roll in itertools.product((0, 1), (0, 1), (False, True), (0, 1, 2, 3), ROLLS):
    for cube, owner in [(0, 3)] + [(n, o) for n in (1, 2, 6, 10) for o in (0, 1)] + [(1, 3)]:
      b = dict(BASIS, on_action=me, on_inner_action=inner, doubled=doubled, resign_offer=resign, rolled=roll, cube_in_logarithm=cube,
               cube_owner=owner)
      if well_formed(b):
        go(['board', b])
  for length, mine, his, crawford in itertools.product((0, 1, 2, 7, 25), (0, 1, 6, 24), (0, 1, 6, 24), (False, True)):
    go(['board', dict(BASIS, match_length=length, score=(mine, his), crawford=crawford, position=(START_OTHER, START[1]))])
  for at in range(25):
    for n in range(1, 16):
      s = side((at, n))
      go(['board', dict(BASIS, position=(s, START_OTHER))])
      go(['board', dict(BASIS, position=(START_OTHER, s), on_action=1, on_inner_action=1)])
      go(['board', dict(BASIS, position=(s, side((24 - at, 15 - n))))])
      go(['board', dict(BASIS, position=(side((24, 2)), s))])
  for n in range(25, 10000, ctx.thorough and 7 or 53) + [99, 100, 127, 128, 255, 256, 999, 1000, 9999]:
    for cube in (0, 1, n % 15 + 1):
      go(['board', dict(BASIS, match_length=n, score=(n // 3, n - 1), cube_in_logarithm=cube, cube_owner=cube and n % 2 or 3)])
  few = ctx.thorough and range(1, 15) or (1, 2, 7, 14)
  for one, two in itertools.combinations(range(25), 2):
    for n in few:
      for m in few:
        s = side((one, n), (two, m))
        if s:
          go(['board', dict(BASIS, position=(s, side((24 - one, 3))))])
          go(['board', dict(BASIS, position=(side((two, 1)), s), on_inner_action=1, on_action=1)])
  for theme in ('deutsche', 'flower', 'kotobuki', 'minimal', 'nature', 'neon'):
    for name in sorted(tests):
      if os.path.exists(os.path.join(ctx.repo, 'bglib', 'image', 'resource', theme, 'test', name + '.xml')):
        go(['reference', theme, name])
  ctx.sample(dict(BASIS))
  ctx.notes['bounds'] = ('all groups of chequers on one point, on two points with %d sizes each; every well-formed combination of turn, '
    'dice, double, resignation and cube; scores and lengths to 9999; 120 stored trees' % len(few))


class THIS(object):
  check_one = staticmethod(check_one)
