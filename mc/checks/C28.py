'''Pages in reStructuredText and Markdown: what the library makes of all of the text, in
whatever pieces it came, rendered however often, with other pages being made meanwhile.

All histories of parsing pieces and rendering, to a depth, on two pages of either kind.'''
import itertools
import warnings
warnings.simplefilter('ignore')
import docutils.core
import markdown
from bglib.doc import rst, mkdn, Formatter
import bglib.doc.bgwiki

PIECES = ['w1\n', '\n', '*w2* & <i>"x"</i> ', 'w3\n==\n\n', '* w4\n', '    w5\n', '[a]: http://host/?p=1&q=2\n', '[w6][a] `w7` w8_\n', '.. _w8: http://h/\n',
          ' \t', u'w9 \xe9\n']


def by_docutils(text, **kw):
  over = dict(input_encoding='us-ascii', doctitle_xform=1, initial_header_level=1)
  over.update(kw)
  return docutils.core.publish_parts(source=text, writer_name='html', settings_overrides=over)['html_body']


def by_markdown(text):
  return markdown.Markdown().convert(text)


MADE = {}
def wanted(kind, text):
  if (kind, text) not in MADE:
    if len(MADE) > 50000:
      MADE.clear()
    MADE[kind, text] = (kind == 'rst' and by_docutils or by_markdown)(text)
  return MADE[kind, text]


def new(kind):
  return (kind == 'rst' and rst or mkdn).Formatter()




def check_one(ctx, case):
  what = case[0]
  if what == 'options':
    text, title, level, encoding = case[1:]
    ctx.states += 1
    ctx.traces += 1
    f = rst.Formatter()
    got = f.html_body(text, doctitle=title, initial_header_level=level, output_encoding=encoding)
    want = by_docutils(text, input_encoding='unicode', doctitle_xform=title, initial_header_level=level)
    if encoding != 'unicode':
      want = want.encode(encoding)
    if got != want:
      ctx.fail('options', '%r with title %s, level %s, %s: %r instead of %r' % (text, title, level, encoding, got, want))
    if f.html_parts(text, doctitle=title)['whole'].find('<body>') < 0:
      ctx.fail('options-whole', 'no whole page for %r' % (text,))
    ctx.outcome('options')
    return
  if what == 'encoded':
    text, encoding, path = case[1:]
    ctx.states += 1
    ctx.traces += 1
    data = text.encode(encoding)
    f = rst.Formatter()
    want = docutils.core.publish_parts(source=data, source_path=path, writer_name='html', settings_overrides=dict(
        input_encoding=encoding, doctitle_xform=1, initial_header_level=1))
    if f.html_body(data, source_path=path, input_encoding=encoding) != want['html_body']:
      ctx.fail('encoded', '%r, given in %s: %r' % (text, encoding, f.html_body(data, input_encoding=encoding)))
    got = f.html_parts(data, source_path=path, input_encoding=encoding)
    for k in want:
      if got.get(k) != want[k]:
        ctx.fail('encoded-part', 'part %s of %r, given in %s, is %r' % (k, text, encoding, got.get(k)))
    ctx.outcome('encoded')
    return
  if what == 'many':
    kind, pages, rounds, pattern = case[1:]
    ctx.states += 1
    all = [new(kind) for i in range(pages)]
    texts = [''] * pages
    for r in range(rounds):
      for i in range(pages):
        n = pattern[(r * (i % 3 + 1) + i) % len(pattern)]
        all[i].parse(PIECES[n])
        texts[i] += PIECES[n]
        ctx.transitions += 1
    for i in range(pages):
      for again in range(pages == 1 and 12 or 2):
        ctx.traces += 1
        if all[i].make_html() != wanted(kind, texts[i]):
          return ctx.fail(kind + '-many', 'page %d of %d, of %d pieces, shown the %d. time, is not what it should be: %r' % (i + 1, pages, rounds, again + 1, texts[i][:200]))
    ctx.outcome('many')
    return
  # a history: ['a' or 'b', piece] or ['a' or 'b', None] (render)
  ops = case[1]
  pages, texts = {}, {}
  for k in 'ab':
    pages[k] = new(what[k == 'b' and -1 or 0] == 'r' and 'rst' or 'md')
    texts[k] = ''
  ctx.states += 1
  for name, n in list(ops) + [['a', None], ['b', None], ['a', None]]:
    ctx.transitions += 1
    if n is not None:
      pages[name].parse(PIECES[n])
      texts[name] += PIECES[n]
      continue
    kind = what[name == 'b' and -1 or 0] == 'r' and 'rst' or 'md'
    want = wanted(kind, texts[name])
    got = pages[name].make_html()
    ctx.traces += 1
    if got != want:
      ctx.fail(kind + '-page', '%r as %s gives %r instead of %r after %s' % (texts[name], kind, got, want, ops))
      return
  if not isinstance(pages['a'], Formatter) or not isinstance(pages['a'].make_pdf(), basestring):
    ctx.fail('kind', 'not a formatter that makes texts')
  ctx.outcome('pages-' + what)


class THIS(object):
  check_one = staticmethod(check_one)


def run(ctx):
  pieces = range(len(PIECES))
  one = [['a', n] for n in pieces] + [['a', None]]
  depth = ctx.thorough and 4 or 3
  for kind in 'r', 'm':
    for n in range(0, depth + 1):
      some = one
      if n == 3 and not ctx.thorough:
        some = [['a', i] for i in (0, 1, 3, 6, 7)] + [['a', None]]
      for ops in itertools.product(some, repeat=n):
        if ctx.mine():
          ctx.guarded(THIS, [kind, [list(o) for o in ops]])
  # two pages at a time
  few = [['a', 0], ['a', 3], ['a', 6], ['a', None], ['b', 7], ['b', 8], ['b', None]]
  for kinds in 'rr', 'rm', 'mm':
    for n in range(2, ctx.thorough and 4 or 3):
      for ops in itertools.product(few, repeat=n):
        if ctx.mine():
          ctx.guarded(THIS, [kinds, [list(o) for o in ops]])
  for text in [u'', u'w1', u'T1\n==\n\nw1\n', u'T1\n==\n\nT2\n--\n\nw1\n\nT3\n~~\n\nw2 \xe9\n', u'w0\n\nT1\n==\n\nw1\n\nT2\n--\n\nw2\n']:
    for title in 0, 1:
      for level in 1, 2, 3:
        for encoding in 'unicode', 'utf-8', 'utf-16':
          if ctx.mine():
            ctx.guarded(THIS, ['options', text, title, level, encoding])
  for text in u'', u'w1\n', u'w1 \xe9 *w2*\n', u'T\n==\n\n``w1 \xfc``\n', u'w1_ *w2\n':
    for encoding in 'utf-8', 'latin-1', 'utf-16', 'cp1252':
      for path in None, 'a.rst':
        if ctx.mine():
          ctx.guarded(THIS, ['encoded', text, encoding, path])
  for kind in 'rst', 'md':
    for pages, rounds in (1, 40), (1, 300), (3, 50), (25, 6), (70, 3):
      for pattern in [0, 1, 3, 1], [2, 0, 1], [4, 4, 1, 7, 1], [6, 1, 7, 1, 0]:
        if ctx.mine():
          ctx.guarded(THIS, ['many', kind, pages, rounds, pattern])
  ctx.notes['bounds'] = ('all histories of %d steps (parsing one of %d pieces, or rendering) on a page of either kind, of %d steps over fewer, and of %d steps on two pages; '
                         'options and encodings of reStructuredText; 70 pages at once, 300 pieces' % (depth - (not ctx.thorough), len(PIECES), depth, depth - 1))
