'''Wiki pages: any text renders, to well-formed and escaped HTML that keeps the words in
their order; rendering again, parsing line by line and reusing the formatter change nothing.

All sequences of markup up to a length, with words between; all strings of special characters.'''
import itertools
import re
import wiki

INLINE = ["'''", "''", "'''''", '__', '~~', ',,', '^', '`', '{{{', '}}}', '===', '==', '=']
LINKS = ['#1', '{2}', '[3]', 'm4', 'entry:5', 'query:6', 'match:7', 'http://a.b/?c&d', 'https://a.b/x=1',
         '[http://a.b/?c&d e"f<g]', '[http://a.b/]', '[wiki:Ab]', 'CamelCase']
MACROS = ['[[BR]]', '[[TableOfContent]]', '[[Position]]', '[[Foo(bar)]]', '[[Foo]]',
          '[[Position(vzsAAFhu2xFABA:QYkqASAAIAAA)]]', '[[Position(x)]]', '[[Analysis]]', '[[Analysis(x)]]',
          '[[Analysis(vzsAAFhu2xFABA:QYkqASAAIAAB)]]', '[[Analysis(vzsAAFhu2xFABA:QYkqASAAIAAA)]]']
BLOCKS = ['\n * ', '\n - ', '\n +++ ', '\n  a. ', '\n 1. ', '\n   i. ', '\n> ', '\n>> ', '\n||', '||', '||\n', '\n\n', '\n',
          '\n  ', '::\n', '\n{{{\n', '\n}}}\n', '\n=', '=\n']
LITERAL = ['&', '<', '>', '"', '!', '?', '&amp;', u'\u3042', '::', ' * ', '> ', '  ', '<b>', '--', '$x', '%s', '\\']
QUOTED = ['!http://a.b/?c&d', '!https://a.b/?"e', '![http://a.b/?c&d e"f<g]', '![[Foo(a&b)]]', '![[BR]]', '!CamelCase', '!#1',
          "!'''", '!==', '!`', '!{2}', '!{{{', '!||']
ALL = INLINE + LINKS + MACROS + BLOCKS + LITERAL + QUOTED
CORE = ["'''", "''", '__', '`', '{{{', '}}}', '==', '=', '[[BR]]', '[[TableOfContent]]', '[[Foo(bar)]]', '#1', 'CamelCase',
        '[http://a.b/?c&d e"f<g]', '\n * ', '\n  a. ', '\n - ', '\n>> ', '\n> ', '||', '||\n', '\n\n', '\n  ', '::\n', '\n{{{\n',
        '\n}}}\n', '<', '![http://a.b/?c&d e"f<g]']
DEEP = ["'''", '==', '`', '\n * ', '\n  a. ', '\n>> ', '||', '||\n', '\n\n', '\n  ', '::\n', '\n{{{\n', '\n']
CHARS = list("'_~,^`{}=[]()|!#:* ><&\"\n1aAm-+./?") + ['$', '%', u'\u3042']
MORE = list("'`{}=[]()|!:* >\n1A&")

ANALYSIS = {('vzsAAFhu2xFABA', 'QYkqASAAIAAA'): (False, [dict(nth=1, ply=2, move='21/15(2)', equity=.975, diff=0.0,
            Win=.7, WinG=.1, WinBg=0.0, Lose=.2, LoseG=0.0, LoseBg=0.0)])}
FREE = set(INLINE + BLOCKS + LITERAL + QUOTED) - set(['&amp;'])


def check_one(ctx, case):
  if case[0] == 'raw':
    text = case[1]
    check_text(ctx, text, False, False)
  elif case[0] == 'pages':
    check_pages(ctx, case[1], case[2])
  elif case[0] == 'lines':
    check_lines(ctx, case[1])
  elif case[0] == 'same':
    check_same(ctx, case[1], case[2])
  else:
    _, kind, tokens = case
    pieces = []
    for i, t in enumerate(tokens):
      if kind == 'spaced':
        pieces.append('w%d ' % i + t)
      else:
        pieces.append(t + 'w%d' % i)
    if kind == 'spaced':
      pieces.append('w%d' % len(tokens))
    check_text(ctx, ''.join(pieces), True, not set(tokens) - FREE)


def check_text(ctx, text, ordered, literal):
  db = wiki.Db(ANALYSIS)
  w = wiki.formatter('/wiki/', db)
  w.parse(text)
  html = w.make_html()
  ctx.states += 1
  try:
    tree = wiki.read(html)
  except wiki.Bad, e:
    return ctx.fail(e.key, '%s in the page for %r: %r' % (e, text, html))
  if ordered:
    found = [x for x, path in wiki.words(tree) if not [e for e in path if e.attrs.get('href', '').startswith('#')]]
    if found != wiki.WORD.findall(text):
      return ctx.fail('words', 'the page for %r has the words %s: %r' % (text, found, html))
    if literal:
      shown = tree.text()
      for c in '<"&':
        if shown.count(c) != text.count(c):
          return ctx.fail('literal', 'the page for %r shows %d %s: %r' % (text, shown.count(c), c, html))
  again = w.make_html()
  if again != html:
    return ctx.fail('twice', 'rendering %r again gives %r after %r' % (text, again, html))
  ctx.transitions += 2
  lines = text.splitlines()
  if len(lines) > 1:
    v = wiki.formatter('/wiki/', db)
    for line in lines:
      # an empty line on its own is written as a line end
      v.parse(line or '\n')
    if v.make_html() != html:
      return ctx.fail('pieces', '%r line by line gives %r instead of %r' % (text, v.make_html(), html))
    ctx.transitions += 1
  w.reset()
  w.parse(text)
  if w.make_html() != html:
    return ctx.fail('reset', '%r after a reset gives %r instead of %r' % (text, w.make_html(), html))
  ctx.traces += 1
  ctx.outcome(tree.all('table') and 'table' or tree.all('li') and 'list' or tree.all('blockquote') and 'quote'
              or tree.all('pre') and 'preformatted' or tree.all('a') and 'link' or tree.all() and 'other' or 'text')


def check_pages(ctx, first, second):
  'two pages made at the same time, and one after the other by the same formatter'
  want = [wiki.render(first), wiki.render(second)]
  a, b = wiki.formatter(), wiki.formatter()
  a.parse(first)
  b.parse(second)
  found = [a.make_html(), b.make_html()]
  ctx.states += 2
  if found != want:
    return ctx.fail('apart', 'the pages %r and %r, made at the same time, are %r instead of %r' % (first, second, found, want))
  a, b = wiki.formatter(), wiki.formatter()
  la, lb = first.splitlines(), second.splitlines()
  for i in range(max(len(la), len(lb))):
    for w, l in ((a, la), (b, lb)):
      if i < len(l):
        w.parse(l[i] or '\n')
  found = [a.make_html(), b.make_html()]
  if found != want:
    return ctx.fail('apart', 'the pages %r and %r, line by line in turn, are %r instead of %r' % (first, second, found, want))
  a.reset()
  a.parse(second)
  if a.make_html() != want[1]:
    return ctx.fail('reset', 'after %r and a reset the page of %r is %r' % (first, second, a.make_html()))
  a.reset()
  if a.make_html() != wiki.render(''):
    return ctx.fail('reset', 'after %r, %r and a reset the empty page is %r' % (first, second, a.make_html()))
  w = wiki.formatter()
  w.parse(first)        # begun and given up
  w.reset()
  w.parse(second)
  if w.make_html() != want[1]:
    return ctx.fail('reset', 'after %r was begun and a reset the page of %r is %r' % (first, second, w.make_html()))
  ctx.transitions += 5
  ctx.traces += 1
  ctx.outcome('pages')


ENDS = ['%s', '%s ', ' * %s', '  a. %s', '> %s', '>> %s', '  %s', '%s::', "'''%s", "'''%s'''", '== %s', '== %s ==', '`%s', '|| %s ||', '#1 %s',
        'CamelCase %s', '%s {2}', '}}} %s', '[[BR]]%s', '%s[[BR]]', '[[Foo]] %s', '{{{\n%s\n}}}', ' 1. a\n%s']


def check_lines(ctx, ends):
  'words on different lines are different words'
  text = '\n'.join([e.replace('%s', 'w%d' % i) for i, e in enumerate(ends)])
  html = wiki.render(text)
  ctx.states += 1
  try:
    tree = wiki.read(html)
  except wiki.Bad, e:
    return ctx.fail(e.key, '%s in the page for %r: %r' % (e, text, html))
  shown = [x for x in tree.text().split() if wiki.WORD.search(x)]
  if shown != ['w%d' % i for i in range(len(ends))]:
    return ctx.fail('lines', 'the page for %r reads %s: %r' % (text, shown, html))
  ctx.transitions += 1
  ctx.traces += 1
  ctx.outcome('lines')


def check_same(ctx, text, other):
  'another way of giving the same text'
  a, b = wiki.render(text), wiki.render(other)
  ctx.states += 2
  ctx.transitions += 1
  if a != b:
    return ctx.fail('same', '%r gives %r but %r gives %r' % (text, a, other, b))
  ctx.traces += 1
  ctx.outcome('same')


def run(ctx):
  def go(case):
    if ctx.mine():
      ctx.guarded(THIS, case)
  def sequences(alphabet, n, kinds=('spaced', 'tight')):
    for tokens in itertools.product(alphabet, repeat=n):
      for kind in kinds:
        go(['tokens', kind, list(tokens)])
  for n in (0, 1, 2):
    sequences(ALL, n)
  sequences(ctx.thorough and ALL or CORE, 3, ctx.thorough and ('spaced', 'tight') or ('tight',))
  sequences(ctx.thorough and CORE[::2] + DEEP[4:] or DEEP, 4, ('tight',))
  for n in (1, 2, 3):
    for s in itertools.product(CHARS, repeat=n):
      go(['raw', ''.join(s)])
  if ctx.thorough:
    for s in itertools.product(MORE, repeat=4):
      go(['raw', ''.join(s)])
  texts = ['', 'w0'] + [t + 'w1' for t in CORE] + ['w0 ' + t for t in MACROS + LINKS] + ['= w0 =\nw1', '{{{\nw0', '||w0||\n||w1||']
  for a in texts:
    for b in texts:
      go(['pages', a, b])
  for n in (1, 2):
    for t in itertools.product(CORE, repeat=n):
      text = 'w0 ' + ' w1 '.join(t) + 'w2'
      go(['same', text, unicode(text)])
      go(['same', text, text.replace('\n', '\r\n')])
      go(['same', text, text + '\n'])
  for n in (1, 2, 3):
    for t in itertools.product(ENDS, repeat=n):
      go(['lines', list(t)])
  for n in (10, 11, 50, 100, 200):       # many of a kind
    for t in ALL:
      if n <= 50 or t in CORE and (ctx.thorough or t.strip() and n == 100):
        go(['tokens', 'tight', [t] * n])
    for t in (' ' * n + '* ', '>' * n + ' ', '||' * n, '\n' * n, 'A' + 'b' * n + 'Cd ', '#' + '1' * n + ' ', '  ' * n):
      go(['tokens', 'spaced', ['\n' + t, ' ', '\n' + t]])
  ctx.sample(dict(tokens=CORE, characters=''.join(CHARS)))
  ctx.notes['bounds'] = ('%d tokens to length 2, %d to 3, and a core to 4, with words around; strings of %d characters to length 3%s; every two of %d pages; up to 200 of each'
                         % (len(ALL), ctx.thorough and len(ALL) or len(CORE), len(CHARS), ctx.thorough and ', of 20 to 4' or '', len(texts)))


class THIS(object):
  check_one = staticmethod(check_one)
