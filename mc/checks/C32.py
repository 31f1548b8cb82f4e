'''The fuzzer of pages: every text of its letters can come up, and none but these; its verdict on a formatter is what the
formatter did; the shorter genes of a gene are all those with one letter left out.

The random choices are taken over by an enumerator: every sequence of choices is played, on the real genes. Formatters which
do well or fail in each way, in all short orders of formatting and verifying.'''
import itertools
import random
import checks.C29 as C29

CHOOSER = [None]


class Chooser(object):
  'plays the choices of a script, the first choice after that, and remembers out of how many'
  def __init__(self, script):
    self.script, self.of = list(script), []

  def choose(self, n):
    i = len(self.of)
    self.of.append(n)
    return i < len(self.script) and self.script[i] % n or 0

  def next(self):
    'the script which comes after the one played, or None'
    played = self.script[:len(self.of)] + [0] * (len(self.of) - len(self.script))
    for i in reversed(range(len(played))):
      if played[i] + 1 < self.of[i]:
        return played[:i] + [played[i] + 1]
    return None


class Wrong(Exception):
  def __init__(self, key, text):
    Exception.__init__(self, text)
    self.key = key


def choose(n):
  if n < 1:
    raise ValueError('nothing to choose from')
  if CHOOSER[0] is None:
    return int(RANDOM() * n)
  return CHOOSER[0].choose(n)

RANDOM = random.random
random.randint = lambda a, b: a + choose(b - a + 1)
random.randrange = lambda a, b=None, step=1: b is None and choose(a) or b is not None and a + step * choose((b - a + step - 1) // step) or 0
random.choice = lambda seq: seq[choose(len(seq))]

import bglib.doc
import bglib.doc.bgwiki
import bglib.doc.mkdn
import bglib.doc.mock
import bglib.doc.rst
from bglib.doc import fuzzing


class Small(fuzzing.Gene):
  single = ['a', '<']
  multi = ['bc', '||', '\n']


class Single(fuzzing.Gene):
  single = ['x']


class Words(fuzzing.Gene):
  single = []
  multi = ['http:', 'CamelWord']

GENES = {'gene': fuzzing.Gene, 'small': Small, 'single': Single, 'words': Words, 'wiki': bglib.doc.bgwiki.wGene, 'rst': bglib.doc.rst.rstGene,
         'mkdn': bglib.doc.mkdn.mkdnGene}
# how long the texts of each are that are all drawn
LENGTHS = {'gene': 6, 'small': 5, 'single': 6, 'words': 8, 'wiki': 2, 'rst': 2, 'mkdn': 2}


def letters(name):
  return list(GENES[name].single) + list(GENES[name].multi)


def draw(klass, length, script):
  CHOOSER[0] = Chooser(script)
  try:
    return klass(length), CHOOSER[0]
  finally:
    CHOOSER[0] = None


def drawn(ctx, name, length, first):
  '''every sequence of choices which starts with the one given: all texts of so many letters (which start with one and the same) come up, each as
  often as any other'''
  klass, seen, script = GENES[name], {}, first
  scripts = 0
  while script is not None and script[:len(first)] == first:
    g, chooser = draw(klass, length, script)
    played = chooser.script[:len(chooser.of)] + [0] * (len(chooser.of) - len(chooser.script))
    scripts += 1
    ctx.transitions += 1
    if scripts > 100000:
      raise Wrong('endless', 'genes of %d letters take too many choices' % length)
    if len(g.code) != length:
      raise Wrong('length', 'a gene of %d has %d letters' % (length, len(g.code)))
    text = g.get_text()
    if text != g.get_text() or text != ''.join([g.num_to_text(c) for c in g.code]):
      raise Wrong('unsteady', '%r is the text, and then %r' % (text, g.get_text()))
    key = tuple(g.code)
    again, _ = draw(klass, length, played)
    if again.get_text() != text or hash(again) != hash(g) or tuple(again.code) != key:
      raise Wrong('again', 'the same choices give %r and %r' % (text, again.get_text()))
    if repr(text) not in str(g) or repr(g.code) not in str(g):
      raise Wrong('shown', '%r is shown as %s' % (text, g))
    seen.setdefault(key, []).append(text)
    script = chooser.next()
    ctx.states += 1
  return seen


def exact(ctx, name, length):
  seen = drawn(ctx, name, length, [])
  got = {}
  for texts in seen.values():
    for t in texts:
      got[t] = got.get(t, 0) + 1
  want = {}
  for seq in itertools.product(letters(name), repeat=length):
    t = ''.join(seq)
    want[t] = want.get(t, 0) + 1
  odd = [t for t in want if t not in got] + [t for t in got if t not in want]
  if odd:
    raise Wrong('texts', 'of the texts of %d letters of %s, %r %s' % (length, name, sorted(odd)[0], odd[0] in want and 'never comes up' or 'comes up'))
  share = set([got[t] * 1000 // want[t] for t in want])
  if len(share) > 1:
    raise Wrong('often', 'some texts of %d letters of %s come up more often than others' % (length, name))
  if len(seen) != len(letters(name)) ** length:
    raise Wrong('codes', '%d codes of %d letters' % (len(seen), length))
  if draw(GENES[name], 0, [])[0].count() != len(letters(name)):
    raise Wrong('count', '%s counts %d letters' % (name, draw(GENES[name], 0, [])[0].count()))


# ------------------------------------------------------------------- verdicts
class Odd(Exception):
  pass


class Unsaid(Exception):
  def __str__(self):
    return ''

ERRORS = {'assert': AssertionError('hm'), 'key': KeyError('k'), 'odd': Odd('x', 1), 'plain': Exception(), 'unicode': UnicodeError('u'), 'value': ValueError('v'), 'index': IndexError(3),
          'empty': Unsaid(), 'stop': StopIteration(), 'memory': MemoryError(), 'zero': ZeroDivisionError()}
PAGES = ['<p>w1</p>', '<p><b>w1</b></p>', 'w1', '<br/>', '<p>', '</p>', '<p></b>', '<p><b></p></b>', '<a b>', '&', '&amp;', '<', 'a > b', '<p>' * 9 + '</p>' * 9, '<p>' * 9 + '</p>' * 8, ' ',
         '<div><table></div></table>', '<a href="x" href="y"/>', '<!-- -->', u'<p>w1</p>', '<i class="a">x</i>\n', '<P></p>']


class Scripted(bglib.doc.Formatter):
  def __init__(self, how):
    self.how, self.log = how, []

  def parse(self, text):
    self.log.append(('parse', text))
    if self.how[0] == 'parse':
      self.failing(ERRORS[self.how[1]])

  def make_html(self):
    self.log.append(('make_html',))
    if self.how[0] == 'make':
      self.failing(ERRORS[self.how[1]])
    return self.how[1]

  def failing(self, e):
    raise e

HOWS = [('parse', e) for e in sorted(ERRORS)] + [('make', e) for e in sorted(ERRORS)] + [('page', p) for p in PAGES]


def history(ctx, name, script, ops):
  g, _ = draw(GENES[name], len(script), script)
  text, html = g.get_text(), None
  code = tuple(g.code)
  for op in ops:
    ctx.transitions += 1
    if op is None:
      if not html:
        continue
      got = g.verify()
      if C29.well_formed(html):
        if got is not True and (isinstance(got, fuzzing.Error) or not got):
          raise Wrong('verify', '%r is said not to be right: %r' % (html, got))
      else:
        if got or not isinstance(got, fuzzing.ParseError) or isinstance(got, fuzzing.FormatError):
          raise Wrong('verify', '%r is said to be right, or to have another fault: %r' % (html, got))
        if not isinstance(got.exception, Exception) or not got.stacktrace:
          raise Wrong('verify-why', '%r: no reason is given: %r, %r' % (html, got.exception, got.stacktrace))
        ctx.outcome('bad page')
    else:
      f = Scripted(HOWS[op])
      got = g.format(f)
      kind, how = HOWS[op]
      want = [('parse', text)] + (kind != 'parse' and [('make_html',)] or [])
      if f.log != want:
        raise Wrong('calls', 'formatting %r calls %s' % (text, f.log))
      if kind == 'page':
        if not got or isinstance(got, fuzzing.Error):
          raise Wrong('format', 'formatting well is reported as %r' % (got,))
        html = how
        if g.html != how:
          raise Wrong('html', 'the page is %r, kept as %r' % (how, g.html))
        ctx.outcome('page')
      else:
        if got or not isinstance(got, fuzzing.FormatError) or isinstance(got, fuzzing.ParseError):
          raise Wrong('format', 'a failing formatter (%s) is reported as %r' % (how, got))
        if got.exception is not ERRORS[how]:
          raise Wrong('exception', 'the exception was %r, reported is %r' % (ERRORS[how], got.exception))
        if 'in failing' not in got.stacktrace or ('in parse' in got.stacktrace) != (kind == 'parse') or ('in make_html' in got.stacktrace) != (kind == 'make'):
          raise Wrong('trace', '%s failed in %s, but the trace is %r' % (how, kind, got.stacktrace))
        html = None           # which page is kept now is left open
        ctx.outcome('failed')
    if g.get_text() != text or tuple(g.code) != code:
      raise Wrong('changed', '%r has become %r' % (text, g.get_text()))
    ctx.states += 1


def subsets(ctx, name, script):
  g, _ = draw(GENES[name], len(script), script)
  code, text = tuple(g.code), g.get_text()
  got = list(g.iter_subset())
  want = [code[:i] + code[i + 1:] for i in range(len(code))]
  if sorted([tuple(s.code) for s in got]) != sorted(want):
    raise Wrong('subset', 'the genes shorter than %r are %r' % (code, [s.code for s in got]))
  for s in got:
    if s.get_text() != ''.join([letters(name)[c] for c in s.code]):
      raise Wrong('subset-text', 'the gene %r of %s reads %r' % (s.code, name, s.get_text()))
    if s.html is not None and s.html is g.html:
      raise Wrong('subset-html', 'a shorter gene has the page of the longer one')
  if tuple(g.code) != code or g.get_text() != text:
    raise Wrong('subset-changed', '%r has become %r' % (text, g.get_text()))
  ctx.states += len(got)
  ctx.outcome('shorter')


FORMATTERS = {'wiki': lambda: bglib.doc.bgwiki.Formatter(bglib.doc.mock.DataBaseMock()), 'rst': bglib.doc.rst.Formatter, 'mkdn': bglib.doc.mkdn.Formatter}


def real(ctx, name, script):
  'with the formatters there are: the verdict is what comes of doing the same by hand'
  g, _ = draw(GENES[name], len(script), script)
  text, f, html, error = g.get_text(), FORMATTERS[name](), None, None
  try:
    f.parse(text)
    html = f.make_html()
  except Exception, e:
    error = e
  got = g.format(FORMATTERS[name]())
  if error is None:
    if not got or g.html != html:
      raise Wrong('real', 'the page of %r is %r, here it is %r' % (text, html, g.html))
    if html:
      ok = g.verify()
      if bool(ok) != C29.well_formed(html) and not odd_entities(html):
        raise Wrong('real-verify', 'the page %r of %r is said to be %r' % (html, text, ok))
    ctx.outcome('page')
  else:
    if got or type(got.exception) is not type(error):
      raise Wrong('real-error', 'for %r the formatter fails with %r, here with %r' % (text, error, got))
    ctx.outcome('failed')
  ctx.states += 1


def odd_entities(html):
  return '&' in html.replace('&amp;', '').replace('&lt;', '').replace('&gt;', '').replace('&quot;', '') or [c for c in html if ord(c) > 126]


def check_one(ctx, case):
  what, rest = case[0], case[1:]
  try:
    if what == 'exact':
      exact(ctx, *rest)
    elif what == 'history':
      history(ctx, *rest)
    elif what == 'subsets':
      subsets(ctx, *rest)
    elif what == 'real':
      for i in range(len(letters(rest[0]))):
        real(ctx, rest[0], rest[1] + [i])
  except Wrong, e:
    ctx.fail(e.key, str(e))
  ctx.traces += 1


class THIS(object):
  check_one = staticmethod(check_one)


def run(ctx):
  more = ctx.thorough and 1 or 0
  for name in sorted(GENES):
    for length in range(LENGTHS[name] + 1 + (LENGTHS[name] > 2 and more)):
      if ctx.mine():
        ctx.guarded(THIS, ['exact', name, length])
  n = len(HOWS)
  ops = range(n) + [None]
  for name, script in [('small', [0, 1]), ('wiki', [5, 50, 0]), ('gene', [])]:
    for size in 1, 2, 3:
      for seq in itertools.product(ops, repeat=size):
        if seq[-1] is None and size > 1 and seq[-2] is None and seq[0] is None:
          continue
        if size == 3 and name != 'small' and not ctx.thorough:
          continue
        if ctx.mine():
          ctx.guarded(THIS, ['history', name, script, list(seq)])
  for name in sorted(GENES):
    k = len(letters(name))
    picks = k < 6 and range(k) or [0, 1, 2, k // 2, k - 9, k - 8, k - 2, k - 1]
    for size in range(0, k < 6 and 6 or 4):
      for script in itertools.product(picks, repeat=size):
        if ctx.mine():
          ctx.guarded(THIS, ['subsets', name, list(script)])
    for size in 10, 40:
      if ctx.mine():
        ctx.guarded(THIS, ['subsets', name, [i % k for i in range(size)]])
  for name in sorted(FORMATTERS):
    k = len(letters(name))
    for i in range(k):
      if ctx.mine():
        ctx.guarded(THIS, ['real', name, [i]])
      if name == 'wiki' or ctx.thorough:
        for j in (0, 1, 5, k - 1, k - 2):
          if ctx.mine():
            ctx.guarded(THIS, ['real', name, [j, i]])
  ctx.notes['bounds'] = ('all sequences of choices for genes of up to %s letters (the letters of the wiki, reStructuredText and Markdown genes: 2); all histories of up to 3 of %d ways of formatting and of verifying; '
                         'all genes of up to 5 (3) letters shortened; the real formatters on all texts of 2 letters, and 3 of some' % (ctx.thorough and '7' or '6', n))
