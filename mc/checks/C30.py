'''The document type of board pictures: what make_dtd() declares is what elements take, and the XML
of every picture is valid by it and reads back as what the tree holds.

Every pair of kinds of elements, every kind and attribute, every sequence of two or three things
given to an element, against the declarations; and the XML of every board of a family, in every theme,
and with every awkward value of every attribute, read by the validating parser of the Java library.'''
import itertools
import os
import re
import imgref
from C19 import BASIS, ELEMENTS, START, VALUES, load
from C20 import ROLLS, side, well_formed
import bglib.model.board
import bglib.image.base
import bglib.image.css
from bglib.image.base import Element, ElementTree
from java.io import StringReader, IOException
from javax.xml.parsers import SAXParserFactory
from org.xml.sax import InputSource, SAXException
from org.xml.sax.helpers import DefaultHandler

UNDECLARED = ('height2', 'class', 'colour', 'z', '_x', 'children', 'size')
SPECIAL = ('a&b', '<c>', "it's", '&amp;', 'a"b', ']]>', '<!--', '&#38;', 'x>y', '\'"', '<?p?>', '%e')
THEMES = ('deutsche', 'flower', 'kotobuki', 'matrix', 'minimal', 'nature', 'neon', 'safari')


class Reader(DefaultHandler):
  'reads one document with the declarations given; notes what is wrong with it'
  def __init__(self, dtd):
    self.dtd, self.wrong, self.top, self.open, self.asked = dtd, [], None, [], 0

  def resolveEntity(self, public, system):
    self.asked += 1
    return InputSource(StringReader(self.dtd))

  def error(self, e):
    self.wrong.append(str(e.getMessage()))
  fatalError = warning = error

  def startElement(self, uri, local, name, attributes):
    form = [str(name), dict([(str(attributes.getQName(i)), attributes.getValue(i)) for i in range(attributes.getLength())]), []]
    if self.open:
      self.open[-1][2].append(form)
    else:
      self.top = form
    self.open.append(form)

  def endElement(self, uri, local, name):
    kids = self.open.pop()[2]
    kids[:] = [k for k in [isinstance(k, list) and k or k.strip() for k in kids] if k]

  def characters(self, text, start, length):
    kids = self.open[-1][2]
    piece = ''.join([unichr(ord(c)) for c in text[start:start + length]])
    if kids and not isinstance(kids[-1], list):
      kids[-1] += piece
    else:
      kids.append(piece)
  ignorableWhitespace = characters


def read(text, dtd):
  factory = SAXParserFactory.newInstance()
  factory.setValidating(True)
  r = Reader(dtd)
  try:
    factory.newSAXParser().parse(InputSource(StringReader(text)), r)
  except (SAXException, IOException), e:
    if not r.wrong:
      r.wrong.append(str(e.getMessage()))
  return r


def declarations(text):
  'what a document type declares: the children and the attributes of each kind of element'
  kids, attributes, twice = {}, {}, []
  for name, content in re.findall(r'<!ELEMENT\s+(\S+)\s+(.*?)\s*>', text):
    if name in kids:
      twice.append(name)
    kids[name] = set(re.findall(r'#?[\w\-]+', content)) - set(['EMPTY'])
  for name, body in re.findall(r'<!ATTLIST\s+(\S+)(.*?)>', text, re.S):
    names = re.findall(r'(\S+)\s+(?:CDATA|NMTOKENS?|ID|\([^)]*\))\s+(?:#IMPLIED|#REQUIRED|(?:#FIXED\s+)?(?:"[^"]*"|\'[^\']*\'))', body)
    if len(set(names)) < len(names) or name in attributes:
      twice.append(name)
    attributes[name] = set(names)
  return kids, attributes, twice


def check_one(ctx, case):
  globals()['check_' + case[0]](ctx, *case[1:])


def check_document(ctx):
  'the declarations are a document type that can be read, of each kind of element once; asking twice says the same'
  text = Element.make_dtd()
  kids, attributes, twice = declarations(text)
  ctx.states += 1
  if twice:
    return ctx.fail('twice', '%s is declared twice' % ', '.join(twice))
  r = read('<?xml version="1.0"?>\n<!DOCTYPE board SYSTEM "x">\n<board></board>', text)
  if r.wrong:
    return ctx.fail('document', 'the document type cannot be used: %s' % r.wrong[0])
  if declarations(Element.make_dtd()) != (kids, attributes, twice):
    return ctx.fail('again', 'the document type made again is another one')
  for name in set(ELEMENTS) | set(kids):
    ctx.transitions += 1
    if name not in kids or name not in attributes:
      return ctx.fail('missing', '%s is not declared' % name)
    for child in kids[name]:
      if child != '#PCDATA' and child not in kids:
        return ctx.fail('child', '%s, which %s may hold, is not declared' % (child, name))
  for name in ('no', 'Board', 'board ', '', 'board2'):
    try:
      Element(name)
    except (KeyError, TypeError, AttributeError, AssertionError):
      continue
    if name not in kids:
      return ctx.fail('kind', 'an element %r can be made, which is not declared' % name)
  url = Element.dtd_url()
  if '"%s"' % url not in ElementTree().xml():
    return ctx.fail('url', 'the XML does not name the document type %s' % url)
  ctx.traces += 1
  ctx.outcome('document')


def check_factory(ctx, order):
  'kinds of elements registered with a factory of their own, in any order, some of them twice'
  made = bglib.image.base.ElementFactory()
  base = bglib.image.base.BaseElement
  def kind(n, kids, **attributes):
    return type(base)(str(n).title() + 'Test', (base,), dict(name=str(n), DTD_ELEMENT=tuple(kids), DTD_ATTLIST=dict(base.DTD_ATTLIST, **attributes)))
  of = bglib.image.base
  kinds = {'a': kind('one', ['two', 'three']), 'b': kind('two', ['#PCDATA']), 'c': kind('three', ['#PCDATA', 'two'], extra=of.StringAttribute),
           'd': kind('two', ['#PCDATA', 'three'], other=of.IntAttribute)}
  last = {}
  before = Element.make_dtd()
  for letter in order:
    made.register(kinds[letter])
    last[kinds[letter].name] = kinds[letter]
    ctx.states += 1
    got = declarations(made.make_dtd())
    want = (dict([(n, set(k.DTD_ELEMENT)) for n, k in last.items()]), dict([(n, set(k.DTD_ATTLIST)) for n, k in last.items()]), [])
    if got != want:
      return ctx.fail('factory', 'after registering %s: %r, not %r' % (order, got, want))
    for n, k in last.items():
      ctx.transitions += 1
      if made(n).__class__ is not k:
        return ctx.fail('made', 'after registering %s, an element %s is a %r' % (order, n, made(n).__class__))
  if declarations(Element.make_dtd()) != declarations(before):
    return ctx.fail('global', 'kinds registered elsewhere show up in the document type of pictures')
  ctx.traces += 1
  ctx.outcome('factory')


def check_children(ctx, name, given):
  'things given to an element one after another: it takes those that are declared, in order'
  kids, attributes, twice = declarations(Element.make_dtd())
  e = Element(name)
  want = []
  for g in given:
    thing = g == '#PCDATA' and 'text' or Element(g)
    holder = None
    if g not in kids[name]:
      for n in sorted(kids):
        if g in kids[n] and g != '#PCDATA':
          holder = Element(n)         # it has its place already, and keeps it
          holder.append(thing)
          break
    ctx.states += 1
    try:
      e.append(thing)
      taken = True
    except (KeyError, TypeError, AttributeError, AssertionError):
      taken = False
    if taken != (g in kids[name]):
      return ctx.fail('append-' + name, '%s given %s: %s it, though the document type says otherwise' % (name, g, taken and 'takes' or 'refuses'))
    if taken:
      want.append(thing)
    if g != '#PCDATA' and thing.parent is not (taken and e or holder):
      return ctx.fail('parent', '%s given to %s has the parent %r' % (g, name, thing.parent))
    if len(e.children) != len(want) or [1 for x, y in zip(e.children, want) if x is not y]:
      return ctx.fail('kept-' + name, '%s, given %s, holds %r' % (name, given, e.children))
  ctx.transitions += len(given)
  ctx.traces += 1
  ctx.outcome('children')


def check_attribute(ctx, name, attribute):
  kids, attributes, twice = declarations(Element.make_dtd())
  declared = attribute in attributes[name]
  ctx.states += 1
  text = VALUES.get(attribute, ['3'])[0]
  holders = sorted(kids, key=lambda k: (attribute not in attributes[k], k))      # those which have the attribute first
  for how in 'made', 'applied', 'applied inside':
    e = Element(name, x=1)
    if how == 'applied inside':
      for n in range(len(holders)):
        if name in kids[holders[n]]:
          outer = Element(holders[n])
          outer.append(e)
          if attribute in attributes[holders[n]]:
            outer.apply('s/default.css', {attribute: text})
          break
      else:
        continue
    try:
      if how == 'made':
        e = Element(name, **dict({attribute: 'you'}, x=1))
      else:
        e.apply('s/default.css', {attribute: text})
      taken = True
    except (KeyError, TypeError, AttributeError, AssertionError):
      taken = False
    ctx.transitions += 1
    if taken != declared:
      return ctx.fail('attribute-' + name, '%s of %s is %s, though the document type says otherwise (%s)' % (attribute, name, taken and 'taken' or 'refused', how))
    if set(e.attributes) != set(['x'] + [attribute] * taken):
      return ctx.fail('held-' + name, '%s, given %s, holds %r' % (name, attribute, e.attributes))
  ctx.traces += 1
  ctx.outcome('attribute')


def judge(ctx, tree, what):
  r = read(tree.xml(), Element.make_dtd())
  ctx.transitions += 1
  if r.wrong:
    return ctx.fail('valid', 'the XML of %s is not valid: %s' % (what, r.wrong[0]))
  want = imgref.plain(tree.board)
  if r.top != want:
    return ctx.fail('reads', 'the XML of %s reads as %r, not as %r' % ((what,) + first_difference(r.top, want)))
  ctx.traces += 1


def first_difference(a, b):
  if isinstance(a, list) and isinstance(b, list):
    if a[:2] != b[:2]:
      return a[:2], b[:2]
    for x, y in zip(a[2], b[2]):
      if x != y:
        return first_difference(x, y)
    return [a[0], len(a[2])], [b[0], len(b[2])]
  return a, b


SHEETS = {}


def check_board(ctx, b, theme, size):
  b = dict(b, position=(tuple(b['position'][0]), tuple(b['position'][1])), rolled=tuple(b['rolled']), score=tuple(b['score']))
  tree = ElementTree(bglib.model.board.Board(**b))
  ctx.states += 1
  if theme:
    if theme not in SHEETS:
      SHEETS[theme] = bglib.image.css.load(os.path.join(ctx.repo, 'bglib', 'image', 'resource', theme, 'default.css'))
    SHEETS[theme].apply(tree)
    if size:
      tree.board.set_mag((size, size))
  judge(ctx, tree, (b, theme, size))
  ctx.outcome(theme and 'styled' or 'plain')


def check_value(ctx, name, attribute, value, quoted):
  'a value which needs care in XML, given by a style sheet'
  path, rules = load('%s { %s: %s; }\n' % (name, attribute, quoted % value), ctx.shard)
  field = name == 'resign' and dict(BASIS, on_action=1, on_inner_action=0, resign_offer=2) or name == 'die' and dict(BASIS, rolled=(3, 1)) or BASIS
  tree = ElementTree(bglib.model.board.Board(**field))
  rules.apply(tree)
  ctx.states += 1
  if value not in str(imgref.plain(tree.board)).replace("\\'", "'"):
    return
  judge(ctx, tree, 'a board with %s: %s' % (attribute, value))
  ctx.outcome('value')


def check_text(ctx, name, value):
  'a text given to an element of the tree'
  tree = ElementTree(bglib.model.board.Board(**BASIS))
  ctx.states += 1
  getattr(tree, name).append(value)
  getattr(tree, name).children[:-1] = []
  judge(ctx, tree, 'a board whose %s says %s' % (name, value))
  ctx.outcome('text')


def boards(ctx):
  for me, inner, doubled, resign, roll in itertools.product((0, 1), (0, 1), (False, True), (0, 1, 2, 3), ctx.thorough and ROLLS or [(0, 0), (1, 1), (3, 1), (2, 6)]):
    for cube, owner in [(0, 3), (1, 0), (2, 1), (10, 0)]:
      b = dict(BASIS, on_action=me, on_inner_action=inner, doubled=doubled, resign_offer=resign, rolled=roll, cube_in_logarithm=cube, cube_owner=owner)
      if well_formed(b):
        yield b
  for length, mine, his, crawford in itertools.product((0, 1, 7, 25), (0, 6), (0, 24), (False, True)):
    yield dict(BASIS, match_length=length, score=(mine, his), crawford=crawford)
  for at in range(25):
    for n in ctx.thorough and range(1, 16) or (1, 7, 15):
      yield dict(BASIS, position=(side((at, n)), side((24 - at, 15 - n))))


def run(ctx):
  def go(case):
    if ctx.mine():
      ctx.guarded(THIS, case)
  go(['document'])
  for n in range(1, ctx.thorough and 6 or 5):
    for order in itertools.product('abcd', repeat=n):
      go(['factory', ''.join(order)])
  kids, attributes, twice = declarations(Element.make_dtd())
  names = sorted(set(ELEMENTS) | set(kids))
  everything = names + ['#PCDATA']
  for name in names:
    if name in kids:
      for pair in itertools.product(everything, repeat=2):
        go(['children', name, pair])
      own = sorted(kids[name])
      for triple in itertools.product(own + [e for e in everything if e not in own][:2], repeat=ctx.thorough and 4 or 3):
        go(['children', name, triple])
      for attribute in sorted(set(sum([list(a) for a in attributes.values()], list(UNDECLARED)))):
        go(['attribute', name, attribute])
  for i, b in enumerate(boards(ctx)):
    go(['board', b, None, 0])
    for theme in ctx.thorough and THEMES or (THEMES[i % 8], THEMES[(i + 3) % 8]):
      go(['board', b, theme, 0])
      go(['board', b, theme, 100 + i % 700])
  for name in names:
    for value in SPECIAL:
      for attribute, quoted in [('color', '%s'), ('background', '%s'), ('image', 'uri("%s.png")'), ('font', 'uri("%s.ttf")'), ('text', '%s'), ('initialCube', '%s'), ('backgammon', '%s')]:
        if attribute in attributes.get(name, ()) and not ('"' in value and '"' in quoted):
          go(['value', name, attribute, value, quoted])
  for value in SPECIAL + ('a & b < c', '1 > 0'):
    for name in 'action', 'length', 'crawford':
      go(['text', name, value])
  ctx.sample(['children', 'home', ['cube', 'die']])
  ctx.notes['bounds'] = ('all of %d kinds of elements given every two of %d things, and every three (thorough: four) of those it may hold and two others; every kind with every attribute; every sequence of '
    '%d registrations of four kinds; every state of turn, double, resignation and cube, and piles on every point, without a sheet and in %s themes; %d awkward values in every text attribute of every kind'
    % (len(names), len(everything), ctx.thorough and 5 or 4, ctx.thorough and 'all' or 'two of eight', len(SPECIAL)))


class THIS(object):
  check_one = staticmethod(check_one)
