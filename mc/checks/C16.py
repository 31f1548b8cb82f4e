'''Inline wiki markup: every word carries exactly the styles the marks around it begin and
end, wherever the line stands; links lead where they say; ! takes the meaning from a mark.

All sequences of marks up to a length on one and on two lines, against a stack of styles;
every kind of link in every context.'''
import itertools
import wiki

B, I, U, S, SUB, SUP, M = 'strong', 'i', 'span.underline', 'del', 'sub', 'sup', 'span.monospace'
TOGGLE = {"'''": B, "''": I, '__': U, '~~': S, ',,': SUB, '^': SUP, '`': M}
HEAD = {'=': 'h1', '==': 'h2', '===': 'h3'}
NEWLINE, BLANK = '\n', '\n\n'
MARKS = ["'''", "''", "'''''", '__', '~~', ',,', '^', '`', '{{{', '}}}', '=', '==', '===']
FEW = ["'''", "''", "'''''", '__', '`', '{{{', '}}}', '=', '==', NEWLINE, BLANK]

LINKS = [  # what is written, its text, where it leads, its class
  ('#12', '#12', '/entry/12', 'entry'), ('entry:345', 'entry:345', '/entry/345', 'entry'),
  ('query:6', 'query:6', '/query/6', 'query'), ('{78}', '{78}', '/query/78', 'query'),
  ('m90', 'm90', '/match/90', 'match'), ('match:1', 'match:1', '/match/1', 'match'), ('[23]', '[23]', '/match/23', 'match'),
  ('CamelCase', 'CamelCase', '@CamelCase', 'wiki-link'), ('AbCd9Ef', 'AbCd9Ef', '@AbCd9Ef', 'wiki-link'),
  ('Ab1C2', 'Ab1C2', '@Ab1C2', 'wiki-link'), ('A1B23cD4', 'A1B23cD4', '@A1B23cD4', 'wiki-link'),
  ('#12345678901', '#12345678901', '/entry/12345678901', 'entry'), ('entry:0', 'entry:0', '/entry/0', 'entry'),
  ('query:1234567890', 'query:1234567890', '/query/1234567890', 'query'), ('{00123456}', '{00123456}', '/query/00123456', 'query'),
  ('m1234567', 'm1234567', '/match/1234567', 'match'), ('match:12345678', 'match:12345678', '/match/12345678', 'match'),
  ('[9876543210]', '[9876543210]', '/match/9876543210', 'match'),
  ('AbCd' * 30, 'AbCd' * 30, '@' + 'AbCd' * 30, 'wiki-link'), ('Camel' + 'x' * 80 + 'C' + 'y9' * 80, 'Camel' + 'x' * 80 + 'C' + 'y9' * 80, '@Camel' + 'x' * 80 + 'C' + 'y9' * 80, 'wiki-link'),
  ('http://a.b/' + 'c-d/' * 100, 'http://a.b/' + 'c-d/' * 100, 'http://a.b/' + 'c-d/' * 100, 'ext-link'),
  ('[http://a.b/' + 'c-d/' * 100 + ' ' + 'e f ' * 50 + 'g]', 'e f ' * 50 + 'g', 'http://a.b/' + 'c-d/' * 100, 'ext-link'),
  ('[wiki:' + 'Plain' * 50 + ']', 'Plain' * 50, '@' + 'Plain' * 50, 'wiki-link'),
  ('[wiki:Plain]', 'Plain', '@Plain', 'wiki-link'), ('[wiki:WikiStart]', 'WikiStart', '@WikiStart', 'wiki-link'),
  ('http://a.b/c', 'http://a.b/c', 'http://a.b/c', 'ext-link'),
  ('https://a-b.c/d?e=f&g=h#i', 'https://a-b.c/d?e=f&g=h#i', 'https://a-b.c/d?e=f&g=h#i', 'ext-link'),
  ('http://a.b/~x_y%20z', 'http://a.b/~x_y%20z', 'http://a.b/~x_y%20z', 'ext-link'),
  ('[http://a.b/c]', 'http://a.b/c', 'http://a.b/c', 'ext-link'),
  ('[http://a.b/c?d&e f g]', 'f g', 'http://a.b/c?d&e', 'ext-link'),
  ('[https://a.b/ "f" & <g>]', '"f" & <g>', 'https://a.b/', 'ext-link'),
]
CONTEXTS = ['%s', 'w1 %s w2', "w1 '''w2 %s w3''' w4", "''%s ''", '__ %s __', '~~ %s ~~', ',, %s ,,', '^%s^', '`%s`', '{{{%s}}}',
            '= w1 %s w2 =', '== %s ==', '=== %s ===', ' * w1 %s', ' 1. %s w1', '  a. %s', '> %s w1', '>> w1 %s',
            '||%s||', '|| w1 || %s || w2 ||', '  %s w1', 'w1\n%s\nw2', 'w1\n\n%s', '%s::\n  w1', 'w1::\n  %s', "'''w1\n%s'''",
            '!%s w1', '%s %s', '%s w1 %s']
ESCAPED = MARKS + [l[0] for l in LINKS] + ['||', '[[BR]]']


def expected(tokens):
  'the styles of each word: a stack; ending a style ends those begun inside of it'
  stack, want = [], []
  def leave(x):
    if x in stack:
      del stack[len(stack) - 1 - stack[::-1].index(x):]
  for t in tokens:
    if t in TOGGLE:
      if TOGGLE[t] in stack:
        leave(TOGGLE[t])
      else:
        stack.append(TOGGLE[t])
    elif t in HEAD:
      if HEAD[t] in stack:
        leave(HEAD[t])
      else:
        stack[:] = [HEAD[t]]    # nothing inline goes around a heading
    elif t == "'''''":
      if B in stack or I in stack:
        leave(B)
        leave(I)
      else:
        stack += [B, I]
    elif t == '{{{':
      stack.append(M)
    elif t == '}}}':
      leave(M)
    elif t == BLANK:
      stack[:] = []
    want.append(list(stack))
  return want


def check_one(ctx, case):
  if case[0] == 'marks':
    marks(ctx, case[1])
  elif case[0] == 'link':
    link(ctx, case[1], case[2], case[3])
  elif case[0] == 'inside':
    inside(ctx, case[1], case[2])
  elif case[0] == 'letter':
    letter(ctx, case[1], case[2])
  elif case[0] == 'near':
    near(ctx, case[1], case[2])
  elif case[0] == 'paths':
    paths(ctx, case[1], case[2])
  else:
    escaped(ctx, case[1], case[2])


def tree_of(ctx, text, wikipath='/wiki/'):
  html = wiki.render(text, wikipath=wikipath)
  ctx.states += 1
  try:
    return wiki.read(html)
  except wiki.Bad, e:
    ctx.fail(e.key, '%s in the page for %r: %r' % (e, text, html))


def marks(ctx, tokens):
  text = 'w ' + ''.join([t + 'w%d ' % i for i, t in enumerate(tokens)])
  tree = tree_of(ctx, text)
  if tree is None:
    return
  found = wiki.words(tree)
  want = expected(tokens)
  ctx.transitions += len(tokens)
  if [w for w, p in found] != ['w%d' % i for i in range(len(tokens))]:
    return ctx.fail('order', 'the page for %r has the words %s' % (text, [w for w, p in found]))
  for (w, path), styles in zip(found, want):
    is_ = [e.design() for e in path if e.tag != 'div']
    if is_ != styles:
      return ctx.fail('style', 'in %r the word %s is in %s instead of %s' % (text, w, is_, styles))
  ctx.traces += 1
  ctx.outcome('%d-styles' % max([len(s) for s in want] or [0]))


def link(ctx, index, context, wikipath):
  what, shown, to, klass = LINKS[index]
  if to[0] == '@':
    to = (wikipath or '/') + to[1:]
  escape = '!' in context
  text = context.replace('%s', what)
  tree = tree_of(ctx, text, wikipath)
  if tree is None:
    return
  links = tree.all('a')
  n = context.count('%s')
  if escape:
    if links:
      return ctx.fail('escaped-link', 'the page for %r has a link' % text)
    if what not in ' '.join(tree.text().split()):
      return ctx.fail('escaped-text', 'the page for %r shows %r' % (text, tree.text()))
  else:
    if len(links) != n:
      return ctx.fail('links', 'the page for %r has %d links instead of %d' % (text, len(links), n))
    for a in links:
      if a.attrs.get('href') != to or a.attrs.get('class') != klass:
        return ctx.fail('leads', 'the %s link in %r leads to %r' % (a.attrs.get('class'), text, a.attrs.get('href')))
      if a.text().strip() != shown:
        return ctx.fail('shown', 'the link in %r is shown as %r' % (text, a.text()))
      inside = [w for w, p in wiki.words(tree) if a in p]
      if inside:
        return ctx.fail('around', 'in %r the words %s are in the link' % (text, inside))
  if [w for w, p in wiki.words(tree)] != wiki.WORD.findall(text):
    return ctx.fail('order', 'the page for %r has the words %s' % (text, wiki.words(tree)))
  ctx.transitions += 1
  ctx.traces += 1
  ctx.outcome(klass)


def escaped(ctx, mark, context):
  if context == '%s':     # the marks that count only on a line of their own are text there
    text, want = 'w0 !%s w1' % mark, []
  else:
    text, want = context.replace('%s', 'w0 !%s w1' % mark), expected([context.split('%s')[0]])[-1]
  tree = tree_of(ctx, text)
  if tree is None:
    return
  found = wiki.words(tree)
  if [w for w, p in found if w != 'w2'] != ['w0', 'w1']:
    return ctx.fail('order', 'the page for %r has the words %s' % (text, found))
  for w, path in found:
    is_ = [e.design() for e in path if e.tag != 'div']
    if w != 'w2' and is_ != want:
      return ctx.fail('escaped', 'in %r the word %s is in %s instead of %s' % (text, w, is_, want))
  if tree.all('a') or tree.all('br') or tree.all('table'):
    return ctx.fail('escaped', 'the mark escaped in %r has an effect' % text)
  if 'w0 ' + mark + ' w1' not in ' '.join(tree.text().split()):
    return ctx.fail('escaped-text', 'the page for %r shows %r' % (text, tree.text()))
  ctx.transitions += 1
  ctx.traces += 1
  ctx.outcome('escaped')


BLOCKS = {' * ': ['ul', 'li'], '   - ': ['ul', 'ul', 'ul.sign', 'li.minus'], '  2. ': ['ul', 'ol', 'li'],
          '> ': ['blockquote.citation', 'p'], '>> ': ['blockquote.citation', 'blockquote.citation', 'p'],
          '||': ['table.wiki', 'tr', 'td'], '|| w || ': ['table.wiki', 'tr', 'td'], '  ': ['blockquote', 'p'], 'w::\n  ': ['dl', 'dd']}


def inside(ctx, block, tokens):
  'marks in a line of a block: the styles are inside of it'
  text = block + ''.join([t + 'w%d ' % i for i, t in enumerate(tokens)])
  tree = tree_of(ctx, text)
  if tree is None:
    return
  found = wiki.words(tree)
  want = expected(tokens)
  ctx.transitions += len(tokens)
  if [w for w, p in found] != ['w%d' % i for i in range(len(tokens))]:
    return ctx.fail('order', 'the page for %r has the words %s' % (text, [w for w, p in found]))
  for (w, path), styles in zip(found, want):
    is_ = [e.design() for e in path if e.tag != 'div']
    if is_ != BLOCKS[block] + styles:
      return ctx.fail('style', 'in %r the word %s is in %s instead of %s' % (text, w, is_, BLOCKS[block] + styles))
  ctx.traces += 1
  ctx.outcome('inside')


IN_ADDRESS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_~#=?./-&%'


def letter(ctx, c, how):
  'which letters belong to an address'
  good = c in IN_ADDRESS
  want = 'http%s://a.b/%sd' % (how == 'secure' and 's' or '', c)
  text = {'bracket': 'w1 [%s] w2', 'shown': 'w1 [%s x] w2', 'end': 'w1 %s'}.get(how, 'w1 %s w2').replace('%s', want)
  tree = tree_of(ctx, text)
  if tree is None:
    return
  links = [(a.attrs.get('href'), a.text().strip()) for a in tree.all('a')]
  if good:
    if links != [(want, how == 'shown' and 'x' or want)]:
      return ctx.fail('letter', 'the links of %r are %s' % (text, links))
  elif [l for l in links if c in l[0][10:]] or how in ('bare', 'end', 'secure') and links[:1] != [(want[:-2], want[:-2])]:
    return ctx.fail('letter', 'the links of %r are %s: %r is part of no address' % (text, links, c))
  ctx.transitions += 1
  ctx.traces += 1
  ctx.outcome('letter')


NEAR = ['#', '#a', 'entry:', 'entry:x', 'query:', 'query:x', '{a}', '{}', '[a]', '[]', 'mX', 'm', 'match:', 'match:x', 'http:', 'http:/a',
        'http//a.b', 'ftp:a.b', 'Camel', 'camel', 'CAMEL', 'camelCase', 'ABC', 'Camel-Case', 'Camel_Case', 'Camel Case', 'A', 'AB', 'C3',
        '[wiki:]', '[wiki:a1]', '[wiki: a]', 'wiki:', '[[', ']]', '[[a', '[[a b]]', '[[a(b]]', '[[a()]]', '{{', '}}', '_', '~', ',', "'", '|', ': :',
        '::x', '"', '*', '1.', '- x', '! x', '!', 'a!', '!a', '!!', '$', '{x', '[x', 'x]', '+', '++', '\\', '@', '$x', '${x}', '\\1']
PLAIN = {'%s': '%s', 'w1 %s w2': 'w1 %s w2', 'w1 %s': 'w1 %s', '%s w1': '%s w1', "'''%s '''": '%s', '= %s =': '%s', '|| %s ||': '%s', ' * %s': '%s',
         'w1\n%s': 'w1 %s', '> %s': '%s'}


def near(ctx, what, context):
  'what only looks like markup is text'
  text = context.replace('%s', what)
  tree = tree_of(ctx, text)
  if tree is None:
    return
  if tree.all('a') or tree.all('br') or [e for e in tree.all() if e.attrs.get('class') == 'error']:
    return ctx.fail('near', 'there is markup on the page for %r' % text)
  if ' '.join(tree.text().split()) != ' '.join(PLAIN[context].replace('%s', what).split()):
    return ctx.fail('near', 'the page for %r reads %r' % (text, tree.text()))
  ctx.transitions += 1
  ctx.traces += 1
  ctx.outcome('near')


STEPS = ('make', 'parse', 'show', 'reset', 'parse', 'show')


def paths(ctx, prefixes, turns):
  'formatters with wiki paths of their own, each taking its steps in turn: each links to its own wiki'
  at, alive = [0] * len(prefixes), [None] * len(prefixes)
  for i in turns:
    step, f = STEPS[at[i]], alive[i]
    at[i] += 1
    if step == 'make':
      alive[i] = wiki.formatter(prefixes[i])
    elif step == 'parse':
      f.parse('w1 CamelCase [wiki:Plain] w2')
    elif step == 'reset':
      f.reset()
    else:
      html = f.make_html()
      ctx.states += 1
      try:
        links = [a.attrs.get('href') for a in wiki.read(html).all('a')]
      except wiki.Bad, e:
        return ctx.fail(e.key, '%s in the page %r' % (e, html))
      want = [(prefixes[i] or '/') + l for l in ('CamelCase', 'Plain')]
      if links != want:
        return ctx.fail('path', 'formatters with the wiki paths %s, in turns %s: the links lead to %s, not %s' % (prefixes, turns, links, want))
  ctx.transitions += len(turns)
  ctx.traces += 1
  ctx.outcome('paths')


def run(ctx):
  def go(case):
    if ctx.mine():
      ctx.guarded(THIS, case)
  for n in range(0, 4):
    for t in itertools.product(MARKS + [NEWLINE, BLANK], repeat=n):
      go(['marks', list(t)])
  for n in ctx.thorough and (4, 5) or (4,):
    for t in itertools.product(FEW, repeat=n):
      go(['marks', list(t)])
  # many of them
  for a in MARKS:
    for b in MARKS + [NEWLINE, BLANK]:
      for n in (6, 25, 80):
        go(['marks', [a, b] * n])
      go(['marks', [a] * 11 + [b] * 11 + [a, b] * 11])
  for t in itertools.product(FEW, repeat=3):
    go(['marks', list(t) * 15])
  for i in range(len(LINKS)):
    for c in CONTEXTS:
      for path in len(LINKS[i][0]) < 12 and ('/wiki/', '/', '', None, '/a/b/') or ('/wiki/', None):
        go(['link', i, c, path])
  for m in ESCAPED:
    for c in ['%s'] + [m + '%s' + m + ' w2' for m in MARKS if m not in ('{{{', '}}}')]:
      go(['escaped', m, c])
  marks_inside = [m for m in MARKS if m not in HEAD]
  for b in sorted(BLOCKS):
    for n in range(1, ctx.thorough and 5 or 4):
      for t in itertools.product(marks_inside, repeat=n):
        go(['inside', b, list(t)])
  for c in [chr(i) for i in range(33, 127)] + [u'\u3042', u'\xe9', u'\uff11']:
    for how in ('bare', 'bracket', 'shown', 'end', 'secure'):
      go(['letter', c, how])
  for n in NEAR:
    for c in sorted(PLAIN):
      go(['near', n, c])
  for prefixes in (['/wiki/', '/a/b/'], [None, '/wiki/'], ['/a/b/', None], ['/a/b/', '']):
    for second in itertools.combinations(range(2 * len(STEPS)), len(STEPS)):
      go(['paths', prefixes, [int(k in second) for k in range(2 * len(STEPS))]])
  ctx.sample(dict(marks=MARKS, contexts=CONTEXTS))
  ctx.notes['bounds'] = ('all sequences of %d marks and line ends to length 3, of %d to length %d; %d links in %d contexts and 5 wiki paths; %d escaped marks in %d contexts; sequences of marks in %d blocks; all letters in addresses; %d near misses; all orders of the steps of two formatters with different wiki paths'
                         % (len(MARKS) + 2, len(FEW), ctx.thorough and 5 or 4, len(LINKS), len(CONTEXTS), len(ESCAPED), len(MARKS) - 1, len(BLOCKS), len(NEAR)))


class THIS(object):
  check_one = staticmethod(check_one)
