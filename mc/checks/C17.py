'''Wiki blocks: lists nest as their indentation says, citations as their marks say, tables
have the rows and cells written, definitions their terms and bodies, preformatted text is
untouched, and an empty line ends whatever was open.

All sequences of lines of each kind up to a length, against the structure computed from them.'''
import itertools
import wiki

def kind_of(kind):
  if kind in KINDS:
    return KINDS[kind]
  c = kind.rstrip('.')
  return c.isdigit() and ('ol', None) or c in 'abcdefgh' and ('ol.loweralpha', None) or ('ol.lowerroman', None)


KINDS = {'*': ('ul', None), '-': ('ul.sign', 'minus'), '--': ('ul.sign', 'doubleminus'), '---': ('ul.sign', 'tripleminus'),
         '+': ('ul.sign', 'plus'), '++': ('ul.sign', 'doubleplus'), '+++': ('ul.sign', 'tripleplus'),
         '1.': ('ol', None), '2': ('ol', None), 'a.': ('ol.loweralpha', None), 'b': ('ol.loweralpha', None),
         'i.': ('ol.lowerroman', None), 'iv.': ('ol.lowerroman', None)}
TEXT, BLANK = 'text', 'blank'


def check_one(ctx, case):
  globals()['check_' + case[0]](ctx, *case[1:])


def tree_of(ctx, text):
  html = wiki.render(text)
  ctx.states += 1
  try:
    return wiki.read(html)
  except wiki.Bad, e:
    ctx.fail(e.key, '%s in the page for %r: %r' % (e, text, html))


def placed(ctx, text, n):
  'the path of each of the n words'
  tree = tree_of(ctx, text)
  if tree is None:
    return
  found = wiki.words(tree)
  if [w for w, p in found] != ['w%d' % i for i in range(n)]:
    return ctx.fail('order', 'the page for %r has the words %s' % (text, [w for w, p in found]))
  ctx.traces += 1
  return [p for w, p in found]


def check_list(ctx, lines):
  'a line is the indent and kind of an item, and whether a bold text begins in it'
  text, want, i = '', [], 0
  open_, level = [], 0        # the design of each list open; the page, as a list of ids
  ids, fresh = [], itertools.count()
  item, bolds, bold = None, [], False
  for l in lines:
    if l == BLANK:
      text += '\n'
      open_, ids, item, bold = [], [], None, False
      continue
    if l == TEXT:
      text += 'w%d\n' % i
      want.append((list(open_), list(ids), item))
      bolds.append(bold)
      i += 1
      continue
    indent, kind = l[:2]
    bold = len(l) > 2
    bolds.append(bold)
    design, klass = kind_of(kind)
    text += ' ' * indent + kind + (bold and " '''w%d\n" or ' w%d\n') % i
    del open_[indent:], ids[indent:]
    while len(open_) < indent:
      last = len(open_) == indent - 1
      open_.append(last and design or 'ul')
      ids.append(fresh.next())
    item = (fresh.next(), open_[-1] == 'ul.sign' and klass or None)
    want.append((list(open_), list(ids), item))
    i += 1
  paths = placed(ctx, text, i)
  if paths is None:
    return
  ctx.transitions += i
  known = {}
  for k in range(i):
    lists = [e for e in paths[k] if e.tag in ('ul', 'ol')]
    items = [e for e in paths[k] if e.tag == 'li']
    designs, ids, item = want[k]
    if bool([e for e in paths[k] if e.tag == 'strong']) != bolds[k]:
      return ctx.fail('bold', 'in %r w%d is%s bold' % (text, k, bolds[k] and ' not' or ''))
    if [e.design() for e in lists] != designs:
      return ctx.fail('nesting', 'in %r w%d is in the lists %s instead of %s' % (text, k, [e.design() for e in lists], designs))
    if item is not None:
      if not items or items[-1].up is not lists[-1]:
        return ctx.fail('item', 'in %r w%d is not an item of its list' % (text, k))
      if items[-1].attrs.get('class') != item[1]:
        return ctx.fail('class', 'in %r w%d is an item of class %s' % (text, k, items[-1].attrs.get('class')))
    elif items:
      return ctx.fail('item', 'in %r w%d is in an item' % (text, k))
    same = zip(ids, lists) + (item is not None and [(item[0], items[-1])] or [])
    for number, e in same:
      if known.setdefault(number, e) is not e or [n for n in known if known[n] is e] != [number]:
        return ctx.fail('apart', 'in %r w%d is not in the list or item it belongs to' % (text, k))
  ctx.outcome('list-%d' % max([len(d) for d, x, y in want] + [0]))


NO_KINDS = ['9.', '0.', '9', '0', '10.', '12', 'x.', 'j.', 'A.', 'I.', 'x', 'iz.', 'ab.', '**', '----', '++++', '+-', '1)', 'a)', '.', '*x', '-x', '1.x', 'a.b', '#', u'\u30fb']


def check_nolist(ctx, line, what):
  'what begins no item is text'
  tree = tree_of(ctx, line + ' ')
  if tree is None:
    return
  if tree.all('li') or tree.all('ul') or tree.all('ol'):
    return ctx.fail('nolist', 'there is a list on the page for %r' % line)
  if what not in tree.text():
    return ctx.fail('nolist', 'the page for %r reads %r' % (line, tree.text()))
  ctx.transitions += 1
  ctx.traces += 1
  ctx.outcome('nolist')


def check_citation(ctx, depths):
  text, i, want = '', 0, []
  ids, fresh = [], itertools.count()
  for d in depths:
    if d == BLANK:
      text += '\n'
      ids = []
      continue
    text += (d and '>' * d + ' ' or '') + 'w%d\n' % i
    del ids[d:]
    while len(ids) < d:
      ids.append(fresh.next())
    want.append(list(ids))
    i += 1
  paths = placed(ctx, text, i)
  if paths is None:
    return
  ctx.transitions += i
  known = {}
  for k in range(i):
    quotes = [e for e in paths[k] if e.design() == 'blockquote.citation']
    if len(quotes) != len(want[k]):
      return ctx.fail('depth', 'in %r w%d is cited %d deep' % (text, k, len(quotes)))
    for number, e in zip(want[k], quotes):
      if known.setdefault(number, e) is not e or [n for n in known if known[n] is e] != [number]:
        return ctx.fail('apart', 'in %r w%d is not in the citation it belongs to' % (text, k))
    if [e for e in paths[k] if e.tag not in ('div', 'blockquote', 'p')]:
      return ctx.fail('citation', 'in %r w%d is in %s' % (text, k, [e.design() for e in paths[k]]))
  ctx.outcome('citation')


CELLS = {'w': 'w%d', 'e': '', 's': ' ', 'b': " '''w%d''' ", 'B': " '''w%d ", 'l': ' w%d CamelCase', 'n': ' w%d '}


def check_table(ctx, rows):
  text, i, want, tables = '', 0, [], 0
  shape, inside = [], False
  for r in rows:
    if r in (TEXT, BLANK):
      if r == TEXT:
        text += 'w%d' % i
        want.append(None)
        i += 1
      text += '\n'
      inside = False
      continue
    if not inside:
      shape.append([])
      inside = True
    line = '||'
    trail = ''
    if r[0] == ' ':
      line, r = ' ||', r[1:]
    if r[-1] == ' ':
      trail, r = '  ', r[:-1]
    for n, c in enumerate(r):
      cell = CELLS[c]
      if '%d' in cell:
        cell = cell % i
        want.append((len(shape) - 1, len(shape[-1]), n, c in 'bB'))
        i += 1
      line += cell + '||'
    shape[-1].append(len(r))
    text += line + trail + '\n'
  tree = tree_of(ctx, text)
  if tree is None:
    return
  ctx.transitions += i
  tables = tree.all('table')
  is_ = [[len([c for c in row.inside if isinstance(c, wiki.E)]) for row in t.all('tr')] for t in tables]
  if is_ != shape:
    return ctx.fail('shape', 'the page for %r has tables with cells %s instead of %s' % (text, is_, shape))
  found = wiki.words(tree)
  if [w for w, p in found] != ['w%d' % k for k in range(i)]:
    return ctx.fail('order', 'the page for %r has the words %s' % (text, [w for w, p in found]))
  for k, (w, path) in enumerate(found):
    if want[k] is None:
      if [e for e in path if e.tag != 'div']:
        return ctx.fail('after', 'in %r %s is in %s' % (text, w, [e.design() for e in path]))
      continue
    t, r, c, bold = want[k]
    cell = [e for e in tables[t].all('tr')[r].inside if isinstance(e, wiki.E)][c]
    if cell not in path:
      return ctx.fail('cell', 'in %r %s is not in cell %s' % (text, w, want[k][:3]))
    if bool([e for e in path if e.tag == 'strong']) != bold:
      return ctx.fail('cell', 'in %r the styles of %s are wrong' % (text, w))
  ctx.traces += 1
  ctx.outcome('table-%d' % len(shape))


def check_definition(ctx, lines):
  text, i, want = '', 0, []
  state, dl, term = None, 0, 0
  for l in lines:
    if l == BLANK:
      text += '\n'
      state = None
      continue
    if l == 'term':
      text += 'w%d::\n' % i
      if state != 'dl':
        dl += 1
      state = 'dl'
      term += 1
      want.append(('dt', dl, term))
    elif l == 'body':
      text += '  w%d\n' % i
      if state == 'dl':
        want.append(('dd', dl, term))
      else:
        if state != 'quote':
          dl += 1
        state = 'quote'
        want.append(('quote', dl, None))
    else:
      text += 'w%d\n' % i
      state = None
      want.append(('text', None, None))
    i += 1
  paths = placed(ctx, text, i)
  if paths is None:
    return
  ctx.transitions += i
  blocks, bodies = {}, {}
  for k in range(i):
    what, block, term = want[k]
    tags = [e.design() for e in paths[k] if e.tag != 'div']
    expect = {'dt': ['dl', 'dt'], 'dd': ['dl', 'dd'], 'quote': ['blockquote', 'p'], 'text': []}[what]
    if tags != expect:
      return ctx.fail('definition', 'in %r w%d is in %s instead of %s' % (text, k, tags, expect))
    if what == 'text':
      continue
    e = [x for x in paths[k] if x.tag != 'div'][0]
    if blocks.setdefault(block, e) is not e or [n for n in blocks if blocks[n] is e] != [block]:
      return ctx.fail('apart', 'in %r w%d is not in the block it belongs to' % (text, k))
    if what in ('dt', 'dd'):
      e = paths[k][-1]
      if bodies.setdefault((what, term), e) is not e or [n for n in bodies if bodies[n] is e] != [(what, term)]:
        return ctx.fail('term', 'in %r w%d does not belong to its term' % (text, k))
  ctx.outcome('definition')


INSIDE = ["'''b'''", '', '<&>"', ' * x', '= h =', ' }}}', '}}} x', '{{{', '||a||', '  y', '> z', 'a::', '[[BR]]', '!x', '#!/bin/sh', u'\u3042', 'x  ', '   ', '\tx', ' {{{', '#!', '!}}}', '[[Foo]]', '%s $x \\1', '&lt;']
BEFORE = ['', 'w0\n', ' * w0\n', '> w0\n', '|| w0 ||\n', "'''w0\n", '  w0\n', 'w0::\n']


def check_preformat(ctx, before, inside, after):
  text = before + '{{{\n' + ''.join([l + '\n' for l in inside]) + '}}}\n' + after
  tree = tree_of(ctx, text)
  if tree is None:
    return
  ctx.transitions += len(inside)
  pre = tree.all('pre')
  if len(pre) != 1:
    return ctx.fail('pre', 'the page for %r has %d preformatted texts' % (text, len(pre)))
  if pre[0].text().rstrip('\n') != '\n'.join(inside).rstrip('\n'):
    return ctx.fail('kept', 'the page for %r has the preformatted text %r' % (text, pre[0].text()))
  if [e for e in pre[0].inside if isinstance(e, wiki.E)]:
    return ctx.fail('kept', 'there are elements in the preformatted text for %r' % text)
  found = wiki.words(tree)
  if [w for w, p in found] != wiki.WORD.findall(text):
    return ctx.fail('order', 'the page for %r has the words %s' % (text, [w for w, p in found]))
  for w, p in found:
    if w == 'w9' and [e for e in p if e.tag != 'div']:
      return ctx.fail('after', 'in %r w9 is in %s' % (text, [e.design() for e in p]))
  ctx.traces += 1
  ctx.outcome('preformatted')


LINES = ['w1', "'''w1", '= w1', '= w1 =', ' * w1', '  a. w1', '   - w1', '> w1', '>> w1', '|| w1', '|| w1 ||', 'w1::', '  w1', '{{{w1',
         '{{{\nw1\n}}}', "__''w1", '[[BR]]', '#1 CamelCase', '==w1', '||']


def same(a, b):
  if not isinstance(a, wiki.E) or not isinstance(b, wiki.E):
    return a == b
  return (a.tag, a.attrs) == (b.tag, b.attrs) and len(a.inside) == len(b.inside) and \
         not [1 for x, y in zip(a.inside, b.inside) if not same(x, y)]


def flat(e):
  'what is on the page, without the space between'
  r = []
  for x in e.inside:
    if isinstance(x, wiki.E):
      r.append((x.tag, sorted(x.attrs.items()), flat(x)))
    elif x.strip():
      r.append(x.strip())
  return r


def check_apart(ctx, first, second):
  a, b = '\n'.join(first), '\n'.join(second)
  one, two, both = tree_of(ctx, a), tree_of(ctx, b), tree_of(ctx, a + '\n\n' + b)
  if one is None or two is None or both is None:
    return
  ctx.transitions += 3
  if flat(both) != flat(one) + flat(two):
    return ctx.fail('blank', 'the empty line in %r does not end what is open' % (a + '\n\n' + b))
  ctx.traces += 1
  ctx.outcome('apart')


def run(ctx):
  def go(case):
    if ctx.mine():
      ctx.guarded(THIS, case)
  kinds = sorted(KINDS)
  lines = [(n, k) for n in (1, 2, 3) for k in ('*', '-', '+++', '1.', 'a.', 'i.')]
  more = ['%d' % i for i in range(1, 9)] + ['%d.' % i for i in range(1, 9)] + list('abcdefgh') + [c + '.' for c in 'abcdefgh']
  more += ['i', 'v', 'ii', 'iii', 'vi', 'vii', 'viii', 'ii.', 'v.', 'vi.', 'viii.']
  for k in more:
    for n in (1, 2, 3, 4):
      go(['list', [(n, k), TEXT]])
      go(['list', [(1, '*'), (n, k)]])
      go(['list', [(n, k), (n, k, 'b'), (1, '1.')]])
  for n in range(4, 13):    # deep
    for m in range(1, 13):
      for k in ('*', '-', 'a.'):
        go(['list', [(n, k), (m, k), (n, '*'), (1, k), TEXT]])
      go(['citation', [n, m, n, 1, 0]])
      go(['citation', [m, n, 0, n]])
    go(['list', [(i, '*') for i in range(1, n)] + [(1, '*')]])
    go(['list', [(i, 'a.') for i in range(n, 0, -1)] + [(n, '*')]])
    go(['list', [(1, '1.')] * n])
    go(['table', ['w' * n, 'n' * n] * 3])
    go(['table', ['w'] * n])
    go(['definition', ['term', 'body'] * n])
    go(['definition', ['term'] + ['body'] * n])
    go(['definition', ['term'] * n + ['body']])
  for n in (30, 110, 400):    # many
    for k in kinds:
      go(['list', [(1, k)] * n + [TEXT]])
      go(['list', [(1, k), (2, '*')] * n])
      go(['list', [(1, k), TEXT] * n])
      go(['list', [(1, k), BLANK] * (n / 2)])
    for d in ([1], [1, 2], [2, 1, 0], [1, BLANK], [3]):
      go(['citation', d * n])
    for rows in (['wn'], ['w', TEXT], ['w', BLANK], ['wn', 'ben']):
      go(['table', rows * n])
    go(['table', ['w' * n, 'B' * n, 'wn' * n]])
    for lines_ in (['term', 'body'], ['term', 'body', BLANK], ['term', 'body', TEXT], ['term', 'body', 'body']):
      go(['definition', lines_ * n])
    go(['preformat', BEFORE[0], [INSIDE[i % len(INSIDE)] for i in range(n)], 'w9'])
  for n in (16, 25):
    go(['citation', [n, n, 1, n, 0]])
    for k in ('*', 'i.'):
      go(['list', [(i, k) for i in range(1, n)] + [(i, k) for i in range(n, 0, -1)]])
  for k in NO_KINDS:
    for n in (1, 2, 3):
      for after in ('', ' w1'):
        go(['nolist', ' ' * n + k + after, k])
  for k in kinds:
    for j in kinds:
      for n in (1, 2, 3):
        for m in (1, 2, 3):
          go(['list', [(n, k), (m, j), TEXT]])
  for n in range(0, 4):
    for l in itertools.product(lines, repeat=n):
      go(['list', list(l)])
  few = [(n, k) for n in (1, 2, 3) for k in ('*', 'a.')] + [TEXT, BLANK]
  for n in range(1, ctx.thorough and 7 or 5):
    for l in itertools.product(few[(n > 5 and 2 or 0):], repeat=n):
      go(['list', list(l)])
  bold = [(1, '*'), (1, '*', 'b'), (2, 'a.', 'b'), (2, '*', 'b'), (2, 'a.'), TEXT, BLANK]
  for n in range(1, ctx.thorough and 6 or 5):
    for l in itertools.product(bold, repeat=n):
      go(['list', list(l)])
  for n in range(1, ctx.thorough and 7 or 6):
    for l in itertools.product([0, 1, 2, 3, BLANK], repeat=n):
      go(['citation', list(l)])
  for cells in range(1, 4):
    for r in itertools.product(sorted(CELLS), repeat=cells):
      go(['table', [''.join(r)]])
      go(['table', [TEXT, ''.join(r), TEXT]])
  for n in range(1, ctx.thorough and 6 or 5):
    for l in itertools.product(['w', 'wn', 'ben', 'B', ' wn', 'wn ', TEXT, BLANK], repeat=n):
      go(['table', list(l)])
  for n in range(1, ctx.thorough and 8 or 6):
    for l in itertools.product(['term', 'body', TEXT, BLANK], repeat=n):
      go(['definition', list(l)])
  for before in BEFORE:
    for n in range(0, 3):
      for inside in itertools.product(INSIDE, repeat=n):
        for after in ('', 'w9'):
          go(['preformat', before, list(inside), after])
  for n in ctx.thorough and (1, 2) or (1,):
    for m in (1, 2):
      for a in itertools.product(LINES, repeat=n):
        for b in itertools.product(LINES, repeat=m):
          go(['apart', list(a), list(b)])
          if n != m:
            go(['apart', list(b), list(a)])
  ctx.sample(dict(list=few, preformatted=INSIDE))
  ctx.notes['bounds'] = ('lists of up to %d lines, citations of %d, tables of %d rows, definitions of %d lines, every two '
     'lines of preformatted text after %d beginnings, all numbers of items, levels to 12, pairs of blocks of up to %d lines' % (
     ctx.thorough and 6 or 4, ctx.thorough and 6 or 5, ctx.thorough and 5 or 4, ctx.thorough and 7 or 5, len(BEFORE), 2))


class THIS(object):
  check_one = staticmethod(check_one)
