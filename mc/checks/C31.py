'''The document tree under wiki pages: whatever is entered, appended, written, left and removed, in whatever
order, every node stands in the nearest open one that takes its kind, and the page shows the tree.

Every sequence of operations on the real Editor to a depth, with every kind of node, against a model of
the tree: what stands where, what is open, what visitors are shown, what HTML is written.'''
import itertools
import re
import bglib.doc.doctree as T
import bglib.doc.html

LIST = dict(star='*', sign=None, ordered_numeric=None, ordered_alpha=None, ordered_roman=None)
SPANS = 'span b i u del sub sup mono a img br'.split()
#        name   class of node               what it takes, besides macros and spans
KINDS = {
  'span': ('SpanElement', ''), 'b': ('BoldElement', ''), 'i': ('ItalicElement', ''), 'u': ('UnderlineElement', ''),
  'del': ('StrikeElement', ''), 'sub': ('SubscriptElement', ''), 'sup': ('SuperscriptElement', ''),
  'mono': ('MonospaceElement', ''), 'a': ('AnchorElement', ''), 'img': ('ImgElement', ''), 'br': ('BRElement', ''),
  'td': ('TableCellElement', ''), 'th': ('TableHeaderElement', ''), 'tr': ('TableRowElement', 'td th'),
  'table': ('TableElement', 'tr td th'),
  'list': ('ListElement', 'list li'), 'li': ('ItemizeElement', 'list li table tr td th'),
  'dl': ('DefinitionListElement', 'dt dd list'), 'dt': ('DefinitionHeaderElement', ''), 'dd': ('DefinitionBodyElement', 'list'),
  'h1': ('H1Element', ''), 'h2': ('H2Element', ''), 'h3': ('H3Element', ''),
  'quote': ('BlockQuoteElement', ''), 'cite': ('CitationElement', 'cite said'), 'said': ('CitationContentElement', 'cite said'),
  'div': ('DivElement', 'list dl dd h1 h2 h3 quote cite table div'),
  'macro': ('BgWikiElementMacroNode', None),
}
GROUPS = {'Span': SPANS, 'Box': 'list dl dd h1 h2 h3 quote cite table div'.split(), 'Heading': 'h1 h2 h3'.split(),
          'quote|cite': ['quote', 'cite'], 'li|said|b': ['li', 'said', 'b'], 'root': ['root'], 'all': sorted(KINDS) + ['root']}
GROUP_CLASS = {'Span': T.SpanElement, 'Box': T.BoxElement, 'Heading': T.HeadingElement,
               'quote|cite': (T.BlockQuoteElement, T.CitationElement),
               'li|said|b': (T.ItemizeElement, T.CitationContentElement, T.BoldElement),
               'root': T.BgWikiElementRoot, 'all': T.BgWikiElementNode}
ALSO = {'span': SPANS}              # a kind that others are of, too
HTML = {'b': 'strong', 'u': 'span', 'mono': 'span', 'quote': 'blockquote', 'cite': 'blockquote', 'said': 'p'}
SINGLE = ('img', 'br')
DESIGNS = {  # attributes of lists -> element, class
  'star': ('ul', None), 'sign': ('ul', 'sign'), 'ordered_numeric': ('ol', None), 'ordered_alpha': ('ol', 'loweralpha'),
  'ordered_roman': ('ol', 'lowerroman')}
SIGNS = {'+': 'plus', '++': 'doubleplus', '+++': 'tripleplus', '-': 'minus', '--': 'doubleminus', '---': 'tripleminus'}
VALUES = ['x', 'a b', 'a&b', '<i>', 'say "x"', "it's", '', '100%', '%s', '?', '&lt;', 'http://a.b/c?d=e&f=g', '{0}', '\\']


def klass(kind):
  return getattr(T, KINDS[kind][0])

TAKES = {'root': None}
for _k in KINDS:
  if KINDS[_k][1] is None:
    TAKES[_k] = set()
  else:
    TAKES[_k] = set(KINDS[_k][1].split()) | set(SPANS) | set(['macro'])
TAKES['div'].discard('macro')       # left open, see run()


def kinds_of(named):
  return set(named in GROUPS and GROUPS[named] or ALSO.get(named, [named]))


def class_of(named):
  return named in GROUP_CLASS and GROUP_CLASS[named] or klass(named)


class M(object):
  'a node of the model'
  def __init__(self, kind, up, attrs):
    self.kind, self.up, self.attrs, self.inside = kind, up, attrs, []

  def path(self):
    at = self
    while at:
      yield at
      at = at.up


class Model(object):
  def __init__(self):
    self.root = self.at = M('root', None, {})

  def append(self, kind, attrs):
    for to in self.at.path():
      if TAKES[to.kind] is None or kind in TAKES[to.kind]:
        break
    new = M(kind, to, attrs)
    to.inside.append(new)
    self.at = to
    return new

  def do(self, op):
    what, rest = op[0], op[1:]
    if what in 'EA':
      new = self.append(rest[0], len(rest) > 1 and dict(rest[1]) or attributes(rest[0]))
      if what == 'E':
        self.at = new
    elif what == 'L':
      for to in self.at.path():
        if to.kind in kinds_of(rest[0]):
          self.at = to.up or to
          return
    elif what == 'T':
      if self.at.inside and not isinstance(self.at.inside[-1], M):
        self.at.inside[-1] += rest[0]
      else:
        self.at.inside.append(rest[0])
    elif what == 'R':
      if self.at.inside:
        self.at.inside.pop()
    elif what == 'D':
      self.at = self.root


def attributes(kind):
  'what a node of the kind must at least be given'
  if kind == 'list':
    return dict(LIST)
  if kind == 'li':
    return dict(style=None)
  if kind == 'a':
    return dict(href='/x?a=1&b=2')
  if kind == 'img':
    return dict(src='/y')
  return {}


def perform(editor, op):
  what, rest = op[0], op[1:]
  if what in 'EA':
    attrs = len(rest) > 1 and dict(rest[1]) or attributes(rest[0])
    attrs = dict((str(k), v) for k, v in attrs.items())
    f = what == 'E' and editor.enter or editor.append
    return f(klass(rest[0]), **attrs)
  if what == 'L':
    return editor.leave(class_of(rest[0]))
  if what == 'T':
    return editor.append_text(str(rest[0]))
  if what == 'R':
    return editor.current.children and editor.remove(editor.current.children[-1])
  if what == 'D':
    return editor.done()


def fresh():
  e = T.HtmlEditor()
  e.start(T.BgWikiElementRoot())
  return e


class Wrong(Exception):
  def __init__(self, key, message):
    Exception.__init__(self, message)
    self.key = key


def agree(node, model, pairs):
  'the real tree is the tree of the model'
  if len(node.children) != len(model.inside):
    raise Wrong('children', '%s has %d things in it, not %d' % (model.kind, len(node.children), len(model.inside)))
  pairs[id(node)] = model
  for c, m in zip(node.children, model.inside):
    if isinstance(m, M):
      if c.__class__ is not klass(m.kind):
        raise Wrong('kind', 'a %s where a %s is to be' % (c.__class__.__name__, m.kind))
      if c.parent is not node:
        raise Wrong('parent', 'a %s in %s has %s as its parent' % (m.kind, model.kind, c.parent))
      agree(c, m, pairs)
    else:
      if not isinstance(c, T.Text) or c.text != m:
        raise Wrong('text', 'in %s stands %s, not the text %r' % (model.kind, c, m))
      if c.children:
        raise Wrong('text', 'text has something in it')


TAG = re.compile(r'<(/?)([a-z0-9]+)((?: +[a-z]+="[^"<>]*")*) *(/?)>')
ATTR = re.compile(r'([a-z]+)="([^"]*)"')


def plain(s):
  if re.search('&(?!(?:amp|lt|gt|quot);)', s):
    raise Wrong('escape', 'an & on its own in %r' % s)
  return s.replace('&lt;', '<').replace('&gt;', '>').replace('&quot;', '"').replace('&amp;', '&')


def tokens(html):
  out, at = [], 0
  def text(s):
    if '<' in s or '>' in s:
      raise Wrong('tags', 'no tag: %r' % s)
    s = s.strip('\n')
    if s:
      out.append(s)
  for m in TAG.finditer(html):
    text(html[at:m.start()])
    at = m.end()
    attrs = ATTR.findall(m.group(3))
    if len(dict(attrs)) != len(attrs):
      raise Wrong('attributes', 'given twice in %r' % m.group())
    out.append((m.group(1), m.group(2), tuple(sorted((k, plain(v)) for k, v in attrs)), m.group(4)))
  text(html[at:])
  return out


def expected(model, out):
  tag, attrs = HTML.get(model.kind, model.kind), dict(model.attrs)
  if model.kind in ('u', 'mono'):
    attrs = {'class': model.kind == 'u' and 'underline' or 'monospace'}
  elif model.kind == 'cite':
    attrs = {'class': 'citation'}
  elif model.kind == 'list':
    design = [d for d in DESIGNS if model.attrs[d]]
    tag, c = DESIGNS[design and design[0] or 'star']
    attrs = c and {'class': c} or {}
  elif model.kind == 'li':
    sign = model.attrs.get('minus') or model.attrs.get('plus')
    attrs = model.attrs['style'] and sign and {'class': SIGNS[sign]} or {}
  elif model.kind in ('quote', 'said'):
    attrs = {}
  single = model.kind in SINGLE and '/' or ''
  shown = model.kind not in ('root', 'macro')
  if shown:
    out.append(('', tag, tuple(sorted(attrs.items())), single))
    if model.kind == 'quote':
      out.append(('', 'p', (), ''))
  for c in model.inside:
    if isinstance(c, M):
      expected(c, out)
    else:
      out.append(c)
  if shown and not single:
    if model.kind == 'quote':
      out.append(('/', 'p', (), ''))
    out.append(('/', tag, (), ''))
  return out


def joined(ts):
  'texts side by side (what was between them is removed, or not shown, or they follow an element which has no end) may be on lines of their own'
  out = []
  for t in ts:
    if not isinstance(t, tuple):
      t = t.replace('\n', '')
      if out and not isinstance(out[-1], tuple):
        out[-1] += t
        continue
    out.append(t)
  return out


class Recorder(T.Visitor):
  def __init__(self):
    self.seen = []
  def enter(self, node):
    self.seen.append(('in', node))
  def leave(self, node):
    self.seen.append(('out', node))


def order(node, out):
  out.append(('in', node))
  for c in node.children:
    order(c, out)
  out.append(('out', node))
  return out


def same_events(a, b):
  return len(a) == len(b) and not [1 for x, y in zip(a, b) if x[0] != y[0] or x[1] is not y[1]]


def inspect(ctx, editor, model, names=None):
  pairs = {}
  agree(editor.root, model.root, pairs)
  if pairs.get(id(editor.current)) is not model.at:
    raise Wrong('open', 'open is %s, not %s' % (editor.current, model.at.kind))
  path = list(model.at.path())
  for name in names or QUERIES:
    of = kinds_of(name)
    found = [m for m in path if m.kind in of]
    got = editor.ancestor(class_of(name))
    if (got is None) != (not found) or got is not None and pairs[id(got)] is not found[0]:
      raise Wrong('ancestor', 'the nearest open %s is %s, said to be %s' % (name, found and found[0].kind, got))
    c = class_of(name)
    n = isinstance(c, tuple) and editor.count_nesting(*c) or not isinstance(c, tuple) and editor.count_nesting(c)
    if n != len(found):
      raise Wrong('nesting', '%d open of %s, said to be %s' % (len(found), name, n))
  # what is open, and the whole, shown to visitors
  v, w = Recorder(), T.HtmlWriter()
  editor.accept(v)
  if not same_events(v.seen, order(editor.current, [])):
    raise Wrong('visitor', 'what is open is not shown once, in order')
  editor.root.accept(w)
  html = w.html()
  p = T.PDFWriter()
  editor.root.accept(p)
  if p.pdf() != html:
    raise Wrong('writer', 'written again it is %r, not %r' % (p.pdf(), html))
  got, want = tokens(html), expected(model.root, [])
  if got != want and not (beside(want) and joined(got) == joined(want)):
    raise Wrong('html', 'written as %r; in the tree: %r' % (html, want))


def beside(ts):
  return [1 for x, y in zip(ts, ts[1:]) if not isinstance(x, tuple) and not isinstance(y, tuple)]


QUERIES = sorted(KINDS) + sorted(GROUPS)
FEW = ['list', 'span', 'cite', 'quote|cite', 'Box', 'li|said|b', 'root']


def drive(ctx, ops, names=None):
  editor, model = fresh(), Model()
  for op in ops:
    got = perform(editor, op)
    model.do(op)
    if op[0] == 'E' and got is not editor.current or op[0] == 'D' and got is not editor.root:
      raise Wrong('answer', '%s gives %s' % (op, got))
    if op[0] == 'A' and got is not editor.current.children[-1]:
      raise Wrong('answer', '%s gives %s' % (op, got))
  inspect(ctx, editor, model, names)
  ctx.transitions += len(ops)
  ctx.states += 1
  return editor, model


def check_one(ctx, case):
  what, rest = case[0], case[1:]
  ops = None
  try:
    if what == 'ops':
      drive(ctx, rest[0])
    elif what == 'after':
      for last in LISTS[rest[1]]:
        ops = list(rest[0]) + [last]
        if div_and_macro(ops):
          continue
        drive(ctx, ops, len(ops) > 3 and FEW or None)
        ctx.traces += 1
    elif what == 'two':
      a, b = rest
      for first in (0, 1):
        editors, models = [fresh(), fresh()], [Model(), Model()]
        for x, y in zip(a, b):
          for i in (first, 1 - first):
            op = (x, y)[i]
            ops = (a, b)
            perform(editors[i], op)
            models[i].do(op)
        for i in (0, 1):
          inspect(ctx, editors[i], models[i], FEW)
        ctx.states += 2
      # and one after the other with one editor; the first tree stays as it is
      editor, first = fresh(), Model()
      for op in a:
        perform(editor, op)
        first.do(op)
      was, old = editor.root, T.HtmlWriter()
      was.accept(old)
      editor.start(T.BgWikiElementRoot())
      second = Model()
      for op in b:
        perform(editor, op)
        second.do(op)
      inspect(ctx, editor, second, FEW)
      new = T.HtmlWriter()
      was.accept(new)
      agree(was, first.root, {})
      if old.html() != new.html():
        raise Wrong('old-tree', 'the tree before was %r, and became %r' % (old.html(), new.html()))
    elif what == 'attrs':
      kind, attrs = rest
      drive(ctx, [['E', kind, attrs], ['T', 'x'], ['L', kind], ['T', 'y']])
      drive(ctx, [['E', kind, attrs], ['A', kind, attrs], ['T', 'x']])
    elif what == 'many':
      drive(ctx, many(*rest))
    elif what == 'foreign':
      # removing what is not there: refused, and nothing happens
      editor, model = drive(ctx, rest[0])
      other, _ = drive(ctx, rest[0])
      for node in [other.current, other.root, editor.current] + list(other.current.children):
        ops = rest[0]
        try:
          editor.remove(node)
        except AssertionError:
          inspect(ctx, editor, model, FEW)
          continue
        except ValueError:
          inspect(ctx, editor, model, FEW)
          continue
        raise Wrong('foreign', 'removing what is not there is not refused')
      ctx.outcome('refused')
    elif what == 'hand':
      hand(ctx, rest[0])
  except Wrong, e:
    ctx.fail(e.key, '%s (after %r)' % (e, ops or case), ops and what == 'after' and ['ops', ops] or None)


def hand(ctx, shape):
  'a tree put together by hand: nodes given to one another, the last of some removed again'
  root = T.BgWikiElementRoot()
  nodes, kids = [root], {0: []}
  for up, remove in shape:
    up %= len(nodes)
    new = T.SpanElement(nodes[up])
    nodes[up].append(new)
    nodes.append(new)
    kids[len(nodes) - 1] = []
    kids[up].append(len(nodes) - 1)
    if remove:
      gone = kids[up].pop(0)
      nodes[up].remove(nodes[gone])
  def walk(i, out):
    out.append(('in', nodes[i]))
    for k in kids[i]:
      walk(k, out)
    out.append(('out', nodes[i]))
    return out
  v = Recorder()
  root.accept(v)
  ctx.states += 1
  if not same_events(v.seen, walk(0, [])):
    raise Wrong('hand', 'a tree made as %r is not shown as it was made' % (shape,))
  d = T.DebugVisitor()
  root.accept(d)
  if d.buf.count('\n') != len([e for e in v.seen if e[0] == 'in']):
    raise Wrong('hand', 'a tree made as %r is listed as %r' % (shape, d.buf))


def many(kind, n, how):
  if how == 'deep':
    return [['E', kind] for i in range(n)] + [['T', 'x']] + [['L', kind] for i in range(n // 2)] + [['T', 'y'], ['E', 'b'], ['T', 'z']]
  if how == 'wide':
    ops = []
    for i in range(n):
      ops += [['A', kind], ['T', 'x%d' % i]]
    return ops
  if how == 'texts':
    return [['E', kind]] + [['T', 'w%d ' % i] for i in range(n)]
  ops = []
  for i in range(n):
    ops += [['E', kind], ['T', 'x%d' % i], ['L', kind]]
  return ops


def div_and_macro(ops):
  names = [op[1] for op in ops if op[0] in 'EA']
  return 'div' in names and 'macro' in names


ALL = [[w, k] for k in sorted(KINDS) for w in 'EA'] + [['L', k] for k in sorted(KINDS) + sorted(GROUPS)] + \
      [['T', 'ab'], ['T', 'c &amp; d'], ['R'], ['D']]
CORE = [['E', k] for k in 'b a td tr table list li dl dd div quote said cite h1'.split()] + \
       [['L', k] for k in 'b table list li Box quote|cite Span root'.split()] + [['T', 'ab'], ['A', 'br'], ['R'], ['D']]
LITTLE = [['E', 'list'], ['E', 'li'], ['E', 'table'], ['E', 'b'], ['L', 'li'], ['L', 'list'], ['T', 'ab'], ['A', 'br'], ['R']]
WIDE = [op for op in ALL if op[0] != 'A' or op[1] in ('br', 'b', 'li', 'macro', 'tr')]
LISTS = {'all': ALL, 'core': CORE, 'little': LITTLE, 'wide': WIDE}


class THIS:
  check_one = staticmethod(check_one)


def run(ctx):
  def do(*case):
    if ctx.mine():
      ctx.guarded(THIS, list(case))
  do('ops', [])
  for n in (0, 1):
    for head in itertools.product(ALL, repeat=n):
      do('after', list(head), 'all')
  for head in itertools.product(WIDE, repeat=2):
    do('after', list(head), 'wide')
  for head in itertools.product(CORE, repeat=ctx.thorough and 4 or 3):
    do('after', list(head), 'core')
  for head in itertools.product(LITTLE, repeat=ctx.thorough and 6 or 4):
    do('after', list(head), 'little')
  few = [['E', 'list'], ['E', 'li'], ['E', 'b'], ['L', 'list'], ['T', 'ab'], ['R']]
  for a in itertools.product(few, repeat=3):
    for b in itertools.product(few, repeat=3):
      do('two', list(a), list(b))
  for kind in 'span b i del sub sup a img td th tr table dl dt dd h1 h2 h3 div br'.split():
    for v in VALUES:
      do('attrs', kind, {'class': v})
      do('attrs', kind, {'class': v, 'title': 'x', 'id': 'y'})
      do('attrs', kind, {'title': v, 'class': '"', 'href': '&', 'src': v})
  for d in sorted(LIST):
    do('attrs', 'list', dict([(k, k == d and 'x' or None) for k in LIST]))
  do('attrs', 'list', dict([(k, None) for k in LIST]))
  for style in (None, T.ListElement._design['sign'][2]):
    for s in sorted(SIGNS):
      do('attrs', 'li', dict(style=style, minus=s[0] == '-' and s or None, plus=s[0] == '+' and s or None))
    do('attrs', 'li', dict(style=style, minus=None, plus=None))
    do('attrs', 'li', dict(style=style))
  for kind in sorted(KINDS):
    for n in (2, 7, 8, 9, 16, 17, 33, 64, 65, 100, 129):
      for how in ('deep', 'wide', 'texts', 'turns'):
        if how != 'deep' or n < 101:
          do('many', kind, n, how)
  for head in itertools.product([op for op in CORE if op[0] != 'R'], repeat=2):
    do('foreign', list(head))
  for n in (1, 2, 3, 4):
    for shape in itertools.product([(u, r) for u in range(n) for r in (0, 1)], repeat=n):
      if not [1 for i, (u, r) in enumerate(shape) if u > i]:
        do('hand', [list(s) for s in shape])
  ctx.notes['bounds'] = ('all operations (%d) to length 2, %d to 3, %d to %d, %d to %d; two trees in turn, 3 operations each; '
    'all attributes; to 129 of a kind. Left open: macros put into a division') % (
    len(ALL), len(WIDE), len(CORE), ctx.thorough and 5 or 4, len(LITTLE), ctx.thorough and 7 or 5)
