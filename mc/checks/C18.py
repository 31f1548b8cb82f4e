'''Wiki macros: an unknown macro or a bad argument is reported on the page, a known one gets
exactly its argument, registering and unregistering behave like a table, the table of
contents lists every heading in order, and the analysis tables show what the database has.'''
import itertools
import urlparse
import wiki
import bglib.doc.macro as macro
import bglib.doc.doctree as doctree
from bglib.model.constants import CUBEACTION_STRINGS

IDS = ['vzsAAFhu2xFABA:QYkqASAAIAAA', 'jM/BATDQc+QBMA:cAkWAAAAAAAA', '4HPwATDgc/ABMA:MAAAAAAAAAAA', '++++++++++++++:////////////']
HEADINGS = {'plain': ('w%d', 'w%d'), 'bold': ("'''w%d'''", 'w%d'), 'mixed': ("w%d ''x'' y", 'w%d x y'), 'wiki': ('w%d CamelCase', 'w%d CamelCase'),
            'link': ('w%d [http://a.b/ c&d]', 'w%d c&d'), 'match': ('w%d [12] z', 'w%d [12] z'), 'amp': ('w%d <&>', 'w%d <&>')}
LEVEL = {1: '=', 2: '==', 3: '==='}


def check_one(ctx, case):
  globals()['check_' + case[0]](ctx, *case[1:])


def tree_of(ctx, text, db=None):
  html = wiki.render(text, db)
  ctx.states += 1
  try:
    return wiki.read(html)
  except wiki.Bad, e:
    ctx.fail(e.key, '%s in the page for %r: %r' % (e, text, html))


def squeeze(s):
  return ' '.join(s.split())


# ---------------------------------------------------------- table of contents
def check_toc(ctx, headings, places):
  lines, want = [], []
  for i in range(len(headings) + 1):
    if i in places:
      lines.append('[[TableOfContent]]')
    if i < len(headings):
      level, what = headings[i]
      written, shown = HEADINGS[what]
      lines.append('%s %s %s' % (LEVEL[level], written % i, LEVEL[level]))
      lines.append('w%d' % (100 + i))
      want.append((level, shown % i))
  text = '\n'.join(lines)
  tree = tree_of(ctx, text)
  if tree is None:
    return
  ctx.transitions += len(want)
  heads = [e for e in tree.all() if e.tag in ('h1', 'h2', 'h3')]
  if [(int(e.tag[1]), squeeze(e.text())) for e in heads] != want:
    return ctx.fail('headings', 'the page for %r has the headings %s' % (text, [(e.tag, e.text()) for e in heads]))
  ids = [e.attrs['id'] for e in tree.all() if 'id' in e.attrs]
  if len(set(ids)) != len(ids):
    return ctx.fail('ids', 'the page for %r has the ids %s' % (text, ids))
  links = [a for a in tree.all('a') if a.attrs.get('href', '').startswith('#')]
  if len(links) != len(want) * len(places):
    return ctx.fail('entries', 'the page for %r has %d entries in the tables' % (text, len(links)))
  for n in range(len(places)):
    for k, (level, shown) in enumerate(want):
      a = links[n * len(want) + k]
      if squeeze(a.text()) != shown:
        return ctx.fail('text', 'in the page for %r entry %d reads %r' % (text, k, squeeze(a.text())))
      if heads[k].attrs.get('id') is None or a.attrs['href'] != '#' + heads[k].attrs['id']:
        return ctx.fail('leads', 'in the page for %r entry %d leads to %s, the heading is %s' % (
                        text, k, a.attrs['href'], heads[k].attrs.get('id')))
      depth = len([e for e in a.path() if e.tag in ('ol', 'ul')])
      if depth != level:
        return ctx.fail('depth', 'in the page for %r entry %d is %d deep' % (text, k, depth))
  ctx.traces += 1
  ctx.outcome('contents-%d' % len(places))


# ------------------------------------------------------------------- dispatch
def fresh():
  root = doctree.BgWikiElementRoot()
  editor = doctree.Editor()
  editor.start(root)
  return root, editor


def written(ctx, root):
  w = doctree.HtmlWriter()
  root.accept(w)
  return wiki.read(w.html())


NAMES = ['alpha', 'beta']


def handlers(log):
  def make(name, tag, answer):
    def f(editor, args):
      log.append((name, tag, args))
      editor.append_text(tag)
      return answer
    f.func_name = name
    return f
  class gamma(macro.Processor):
    def __call__(self, editor, args):
      log.append(('gamma', 'p', args))
      editor.append_text('p')
      return True
  return {'a1': make('alpha', 'a1', True), 'a2': make('alpha', 'a2', True), 'b': make('beta', 'b', False), 'g': gamma()}


OPS = [(o, h) for o in ('register', 'unregister') for h in ('a1', 'a2', 'b', 'g')]


def tables():
  'whatever the module keeps in dictionaries'
  return [(d, dict(d)) for n, d in sorted(vars(macro).items()) if type(d) is dict and not n.startswith('__')]


def put_back(saved):
  for d, content in saved:
    d.clear()
    d.update(content)


OTHERS = ('BR', 'Position', 'TableOfContent')


def used(name):
  'what a macro writes when used without arguments'
  root, editor = fresh()
  macro.dispatch(editor, name, None)
  w = doctree.HtmlWriter()
  root.accept(w)
  return w.html()


def check_table(ctx, ops):
  'a history of registering and unregistering, then every name is used'
  saved = tables()
  before = dict([(n, used(n)) for n in OTHERS])
  try:
    log = []
    hs, model = handlers(log), {}
    where = {'a1': 'alpha', 'a2': 'alpha', 'b': 'beta', 'g': 'gamma'}
    for o, h in ops:
      if o == 'register':
        macro.register(hs[h])
        model[where[h]] = h
      else:
        if model.get(where[h]) not in (None, h):
          return        # another one of that name: not said what should happen
        macro.unregister(where[h], hs[h])
        model.pop(where[h], None)
      ctx.transitions += 1
    for name in ('alpha', 'beta', 'gamma'):
      for args in (None, 'x', '1, 2'):
        root, editor = fresh()
        del log[:]
        macro.dispatch(editor, name, args)
        tree = written(ctx, root)
        ctx.states += 1
        errors = [e.text() for e in tree.all() if e.attrs.get('class') == 'error']
        h = model.get(name)
        tag = {'g': 'p'}.get(h, h)
        if log != (h and [(name, tag, args)] or []):
          return ctx.fail('called', 'after %s %s(%s) calls %s' % (ops, name, args, log))
        if bool(errors) != (h in (None, 'b')):
          return ctx.fail('reported', 'after %s %s(%s) reports %s' % (ops, name, args, errors))
    for name in OTHERS:
      if used(name) != before[name]:
        return ctx.fail('others', 'after %s the macro %s is another' % (ops, name))
    ctx.traces += 1
    ctx.outcome('histories')
  finally:
    put_back(saved)


def check_page(ctx, name, args, context):
  'a macro on a page'
  call = '[[' + name + (args is not None and '(%s)' % args or '') + ']]'
  text = context.replace('%s', call)
  tree = tree_of(ctx, text)
  if tree is None:
    return
  errors = [e for e in tree.all('span') if e.attrs.get('class') == 'error']
  good = name in ('BR', 'Timestamp', 'TableOfContent') or name == 'Position' and args and args[:27] in IDS
  if len(errors) != (not good and 1 or 0):
    return ctx.fail('reported', 'the page for %r has the errors %s' % (text, [e.text() for e in errors]))
  if not good:
    if name not in errors[0].text() or (args or '') not in errors[0].text():
      return ctx.fail('names', 'the page for %r only says %r' % (text, errors[0].text()))
  if name == 'BR' and len(tree.all('br')) != 1:
    return ctx.fail('br', 'the page for %r has %d breaks' % (text, len(tree.all('br'))))
  found = [w for w, p in wiki.words(tree) if not [e for e in p if e.attrs.get('href', '').startswith('#')]]
  if found != wiki.WORD.findall(text):
    return ctx.fail('order', 'the page for %r has the words %s' % (text, found))
  for w, p in wiki.words(tree):
    if w == 'w1' and [e for e in p if e in errors]:
      return ctx.fail('around', 'on the page for %r the text after the error is in it' % text)
  ctx.transitions += 1
  ctx.traces += 1
  ctx.outcome(good and 'good' or 'reported')


def check_position(ctx, id, css, format, width, height, gap):
  args = id
  for k, v in (('css', css), ('format', format), ('width', width), ('height', height)):
    if v is not None:
      args += ',' + gap + k + '=' + v
  text = 'w0 [[Position(%s)]] w1' % args
  tree = tree_of(ctx, text)
  if tree is None:
    return
  images = tree.all('img')
  if len(images) != 1:
    return ctx.fail('image', 'the page for %r has %d images' % (text, len(images)))
  src = urlparse.urlparse(images[0].attrs.get('src', ''))
  q = urlparse.parse_qs(src.query)
  want = {'gnubgid': [id], 'css': [css or 'minimal'], 'format': [format or 'png'], 'width': [width or '400'], 'height': [height or '300']}
  if src.path != '/image' or q != want:
    return ctx.fail('source', 'the image on the page for %r is %r' % (text, images[0].attrs.get('src')))
  if not [e for e in images[0].path() if e.attrs.get('class') == 'position']:
    return ctx.fail('position', 'the image on the page for %r is not marked as a position' % text)
  ctx.transitions += 1
  ctx.traces += 1
  ctx.outcome('position')


# ------------------------------------------------------------------- analysis
ID = IDS[0][:14], IDS[0][15:]
CHANCES = ('Win', 'WinG', 'WinBg', 'Lose', 'LoseG', 'LoseBg')


def number(s, value, digits):
  try:
    return abs(float(s) - value) <= 0.5000001 * 10 ** -digits
  except ValueError:
    return False


def cells(row):
  return [e for e in row.inside if isinstance(e, wiki.E)]


def row_class(nth, actual):
  return actual and 'actualrow' or ('evenrow', 'oddrow')[nth % 2]


def show(ctx, rows):
  db = wiki.Db({ID: (rows[0].get('name') == 'CubelessEquity', rows)})
  text = "w0 [[Analysis(%s:%s)]] w1" % ID
  tree = tree_of(ctx, text, db)
  if tree is None:
    return None
  if [w for w, p in wiki.words(tree)] != ['w0', 'w1']:
    return ctx.fail('around', 'the page of %s has the words %s' % (rows, wiki.words(tree)))
  if [e for w, p in wiki.words(tree) for e in p if e.tag == 'table']:
    return ctx.fail('around', 'on the page of %s the text around is in the table' % rows)
  return dict([(t.attrs.get('class'), t) for t in tree.all('table')])


def chances(ctx, about, row, given):
  shown = [c.text().strip() for c in cells(row)]
  if len(shown) != 6:
    return ctx.fail('chances', '%s has the chances %s' % (about, shown))
  for s, k in zip(shown, CHANCES):
    if not number(s, given[k], 1):
      return ctx.fail('chances', '%s shows %s as %s instead of %r' % (about, k, s, given[k]))
  return True


def check_moves(ctx, rows):
  rows = [dict(zip(('move', 'ply', 'equity', 'diff', 'actual') + CHANCES, r)) for r in rows]
  for i, r in enumerate(rows):
    r['nth'] = i + 1
    r['move'] = str(r['move'])
  tables = show(ctx, rows)
  if not tables:
    return
  if tables.keys() != ['move']:
    return ctx.fail('tables', 'the page of %s has the tables %s' % (rows, tables.keys()))
  trs = tables['move'].all('tr')
  heads = [r for r in trs if r.attrs.get('class') == 'headerrow']
  trs = [r for r in trs if r.attrs.get('class') != 'headerrow']
  if [c.text().strip() for c in cells(heads[-1])] != list(CHANCES):
    return ctx.fail('header', 'the chances are headed %s' % [c.text() for c in cells(heads[-1])])
  if len(trs) != 2 * len(rows):
    return ctx.fail('rows', '%d moves are shown in %d rows' % (len(rows), len(trs)))
  for i, r in enumerate(rows):
    about = 'row %d of %s' % (i, rows)
    a, b = trs[2 * i:2 * i + 2]
    if set([a.attrs.get('class'), b.attrs.get('class')]) != set([row_class(i + 1, r['actual'])]):
      return ctx.fail('class', '%s is of class %s' % (about, a.attrs.get('class')))
    c = [x.text().strip() for x in cells(a)]
    if len(c) != 4 or c[:3] != ['%d' % (i + 1), r['move'], '%d' % r['ply']]:
      return ctx.fail('cells', '%s shows %s' % (about, c))
    parts = c[3].replace('(', ' ').replace(')', ' ').split()
    if not number(parts[0], r['equity'], 3) or parts[0][0] not in '+-':
      return ctx.fail('equity', '%s shows equity %s' % (about, parts[0]))
    if len(parts) != (r['diff'] and 2 or 1) or r['diff'] and not number(parts[1], r['diff'], 3):
      return ctx.fail('difference', '%s shows %s' % (about, c[3]))
    if chances(ctx, about, b, r) is None:
      return
    ctx.transitions += 1
  ctx.traces += 1
  ctx.outcome('moves-%d' % len(rows))


def check_cube(ctx, first, rows):
  first = dict(zip(('ply', 'cubeless', 'money') + CHANCES, first), name='CubelessEquity')
  rows = [dict(zip(('action', 'equity', 'diff', 'actual'), r)) for r in rows]
  for i, r in enumerate(rows):
    r['nth'] = i + 1
  tables = show(ctx, [first] + rows)
  if not tables:
    return
  if sorted(tables) != ['cubeaction', 'cubeless']:
    return ctx.fail('tables', 'the page of %s has the tables %s' % (rows, tables.keys()))
  trs = [r for r in tables['cubeless'].all('tr') if r.attrs.get('class') != 'headerrow']
  about = 'cubeless %s' % first
  c = [x.text().strip() for x in cells(trs[0])]
  parts = c[1].replace('(', ' ').replace(')', ' ').split()
  if c[0] != str(first['ply']) or not number(parts[0], first['cubeless'], 3) or not number(parts[-1], first['money'], 3):
    return ctx.fail('cubeless', '%s is shown as %s' % (about, c))
  if chances(ctx, about, trs[1], first) is None:
    return
  trs = [r for r in tables['cubeaction'].all('tr') if r.attrs.get('class') != 'headerrow']
  if len(trs) != len(rows):
    return ctx.fail('rows', '%d actions are shown in %d rows' % (len(rows), len(trs)))
  for i, r in enumerate(rows):
    about = 'row %d of %s' % (i, rows)
    if trs[i].attrs.get('class') != row_class(i + 1, r['actual']):
      return ctx.fail('class', '%s is of class %s' % (about, trs[i].attrs.get('class')))
    c = [x.text().strip() for x in cells(trs[i])]
    if len(c) != 4 or c[:2] != ['%d' % (i + 1), CUBEACTION_STRINGS[r['action']]] or not number(c[2], r['equity'], 3):
      return ctx.fail('action', '%s shows %s' % (about, c))
    if r['diff'] and not number(c[3], r['diff'], 3) or not r['diff'] and c[3]:
      return ctx.fail('difference', '%s shows %s' % (about, c))
    ctx.transitions += 1
  ctx.traces += 1
  ctx.outcome('cube-%d' % len(rows))


ANSWERS = {'True': True, 'False': False, 'None': None, '0': 0, '1': 1, 'empty': '', 'text': 'done', 'list': [0]}


def check_answer(ctx, answers, args):
  'what a handler answers says whether its argument was good'
  saved = tables()
  try:
    for i, a in enumerate(answers):
      def f(editor, args, a=a, i=i):
        editor.append_text('w%d' % i)
        return ANSWERS[a]
      f.func_name = 'f%d' % i
      macro.register(f)
    text = ' '.join(['[[f%d%s]]' % (i, args is not None and '(%s)' % args or '') for i in range(len(answers))])
    tree = tree_of(ctx, text)
    if tree is None:
      return
    errors = [e.text() for e in tree.all() if e.attrs.get('class') == 'error']
    bad = ['f%d' % i for i, a in enumerate(answers) if not ANSWERS[a]]
    if len(errors) != len(bad) or [1 for e, b in zip(errors, bad) if b not in e or (args or '') not in e]:
      return ctx.fail('answer', 'handlers answering %s: the page reports %s' % (answers, errors))
    if [w for w, p in wiki.words(tree)] != ['w%d' % i for i in range(len(answers))]:
      return ctx.fail('answer', 'handlers answering %s: the page has the words %s' % (answers, wiki.words(tree)))
    ctx.transitions += len(answers)
    ctx.traces += 1
    ctx.outcome('answers')
  finally:
    put_back(saved)


def check_several(ctx, calls):
  'several positions and analyses on a page, each its own'
  def row(i):
    return dict(nth=1, ply=i, move='%d/%d' % (i + 5, i + 3), equity=i + .5, diff=0.0, Win=i + .1, WinG=0.0, WinBg=0.0, Lose=0.0, LoseG=0.0, LoseBg=0.0)
  db = wiki.Db(dict([((id[:14], id[15:]), (False, [row(i)])) for i, id in enumerate(IDS)]))
  text = '\n'.join(['[[%s(%s)]]' % (m, IDS[i]) for m, i in calls])
  tree = tree_of(ctx, text, db)
  if tree is None:
    return
  found = []
  for e in tree.all():
    if e.tag == 'img':
      found.append(['Position', IDS.index(urlparse.parse_qs(urlparse.urlparse(e.attrs['src']).query)['gnubgid'][0])])
    if e.tag == 'table':
      cs = [squeeze(c.text()) for c in e.all('td')]
      i = int(cs[0].split('/')[1]) - 3
      if cs[0] != '%d/%d' % (i + 5, i + 3) or cs[1] != '%d' % i or not number(cs[2], i + .5, 3):
        return ctx.fail('mixed', 'for %s there is a table of %s' % (calls, cs))
      found.append(['Analysis', i])
  if found != [list(c) for c in calls]:
    return ctx.fail('several', 'for %s the page has %s' % (calls, found))
  ctx.transitions += len(calls)
  ctx.traces += 1
  ctx.outcome('several')


def run(ctx):
  def go(case):
    if ctx.mine():
      ctx.guarded(THIS, case)
  # contents
  for n in range(0, ctx.thorough and 6 or 5):
    for levels in itertools.product((1, 2, 3), repeat=n):
      hs = [(l, 'plain') for l in levels]
      for p in range(0, n + 1):
        go(['toc', hs, [p]])
      go(['toc', hs, []])
      if n:
        go(['toc', hs, [0, n]])
  for n in (1, 2):
    for levels in itertools.product((1, 2, 3), repeat=n):
      for what in itertools.product(sorted(HEADINGS), repeat=n):
        for p in range(0, n + 1):
          go(['toc', zip(levels, what), [p]])
  # macros
  for n in range(0, ctx.thorough and 6 or 5):
    for ops in itertools.product(OPS, repeat=n):
      go(['table', [list(o) for o in ops]])
  contexts = ['%s', 'w0 %s w1', "'''w0 %s''' w1", 'w0\n%s\nw1', '== w0 %s == w1', ' * w0 %s\n * w1', '> w0 %s w1', '|| w0 || %s || w1 ||',
              'w0\n\n%s\n\nw1', '  w0 %s w1', "__''w0 %s w1"]
  arguments = [None, 'x', 'y, z' * 50, 'a,b', '1', 'a=b', 'a.b/c#d:e', 'x' * 27, ' ', IDS[0][:26], IDS[1] + ',css=safari', IDS[0], 'a+b', IDS[0][:14]]
  for name in ('BR', 'Timestamp', 'TableOfContent', 'Position', 'Analysis', 'Nothing', 'br', 'Position2', '_', '12', 'position', 'Long' * 20):
    for args in arguments:
      for c in contexts:
        go(['page', name, args, c])
  for id in IDS:
    for css in (None, 'safari', 'minimal', 'A'):
      for format in (None, 'jpeg', 'png'):
        for width in (None, '1', '640', '12345'):
          for height in (None, '480', '1600', '0'):
            for gap in ('', ' ', '  '):
              go(['position', id, css, format, width, height, gap])
  # analyses
  table = [('21/15(2) 13/7(2)', 2, .975, 0.0, False, .752, .123, .002, .248, .028, .001),
           ('bar/24*', 0, -.0614, -.362, True, 56.2, 11.0, 0.3, 43.8, 4.0, 0.1),
           ('8/2*(2)', 3, 2.5, .0004, False, 100.0, 99.95, 50.05, 0.0, 0.0, 0.0),
           ('', 1, 0.0, None, True, .1, .2, .3, .4, .5, .6)]
  for n in range(1, ctx.thorough and 6 or 5):
    for rows in itertools.product(table, repeat=n):
      go(['moves', [list(r) for r in rows]])
  firsts = [(2, .011, .008, .519, .072, .002, .481, .101, .003), (0, -1.2345, 1.0, 76.6, 23.6, 1.0, 23.4, 7.8, .3)]
  cube = [(a, e, d, x) for a in range(4) for e, d in ((.236, None), (-.096, -.332), (1.0, 0.0), (-1.2, .7645)) for x in (False, True)]
  for f in firsts:
    for n in range(0, ctx.thorough and 4 or 3):
      for rows in itertools.product(cube, repeat=n):
        go(['cube', list(f), [list(r) for r in rows]])
    for rows in itertools.product(cube[::5], repeat=3):
      go(['cube', list(f), [list(r) for r in rows]])
  for n in (10, 11, 12, 25, 70):      # many
    for l in (1, 2, 3):
      go(['toc', [(l, 'plain')] * n, [0]])
      go(['toc', [(l, 'plain')] * n, [n // 2, n]])
    go(['toc', [(i % 3 + 1, 'plain') for i in range(n)], [0]])
    go(['moves', [list(table[i % 4]) for i in range(n)]])
    go(['cube', list(firsts[0]), [list(cube[i % len(cube)]) for i in range(n)]])
  for n in (1, 2):
    for a in itertools.product(sorted(ANSWERS), repeat=n):
      for args in (None, 'x'):
        go(['answer', list(a), args])
  for n in (1, 2, 3):
    for c in itertools.product([(m, i) for m in ('Position', 'Analysis') for i in range(len(IDS))], repeat=n):
      go(['several', [list(x) for x in c]])
  ctx.sample(dict(headings=HEADINGS, operations=OPS))
  ctx.notes['bounds'] = ('all sequences of up to %d headings with the table at every place, all histories of %d (un)registrations, %d arguments in %d contexts, '
     'all options of a position, analyses of up to %d rows' % (ctx.thorough and 5 or 4, ctx.thorough and 5 or 4, len(arguments), len(contexts), ctx.thorough and 5 or 4))


class THIS(object):
  check_one = staticmethod(check_one)
