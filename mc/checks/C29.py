'''Comparing and checking pages: two pages are called the same just when they are, up to
line ends, blanks about texts and the order of attributes; a fragment is accepted just when
it is well-formed; escaped text reads back.

All sequences of tokens to a length, each compared with all that differ from it by one edit
(and, for the short ones, with all others).'''
import itertools
import re
import StringIO
import sys
from bglib.doc import html


class Case(html.HtmlTestCase):
  def runTest(self):
    pass


TESTCASE = Case()

TOKENS = ['<p>', '</p>', '<b>', '</b>', '<br/>', '<br />', '<a href="/x">', '<a href="/x" title="y">', '</a>', 'w1', 'w2', ' ', '\n', '&lt;',
          '&gt;', '&amp;', 'lt;', '?', '"', '<i class="a b">', '<img src="u?a=1" alt="" />', '<td class="a" id="b">', '<td id="c"/>', '<H1>', '</h1>']
RAW = ['&', '<', '>', '<!-- c -->', ']]>', '&#65;', '&#x4a;', '&#65', '&x', '<a href=/x>', "<a b='c'/>", '<p id="a" id="b">', '<p/ >', '</p >', '< p>', '<a b="<"/>',
       '<a b="&"/>', '<a b="&lt;"/>', '<![CDATA[<&]]>', '<P>', '</P>', '\t', '-->', '<1>', '<a b="c"d="e"/>', '/>']
SWAPS = [('<a href="/x" title="y">', '<a title="y" href="/x">'), ('<td class="a" id="b">', '<td id="b" class="a">')]


# ------------------------------------------------------------- well-formedness
NAME = r'[A-Za-z_:][A-Za-z0-9_:.\-]*'
VALUE = r'''(?:"(?:[^<&"]|&(?:lt|gt|amp|quot|apos|\#[0-9]+|\#x[0-9a-fA-F]+);)*"|'(?:[^<&']|&(?:lt|gt|amp|quot|apos|\#[0-9]+|\#x[0-9a-fA-F]+);)*')'''
TAG = re.compile(r'<(?P<close>/)?(?P<name>%s)(?P<attrs>(?:\s+%s\s*=\s*%s)*)\s*(?P<empty>/)?>' % (NAME, NAME, VALUE))
ATTR = re.compile(r'(%s)\s*=\s*%s' % (NAME, VALUE))
REF = re.compile(r'&(?:lt|gt|amp|quot|apos|#[0-9]+|#x[0-9a-fA-F]+);')


def well_formed(s):
  stack, i = [], 0
  while i < len(s):
    if s.startswith('<!--', i):
      j = s.find('--', i + 4)
      if j < 0 or s[j:j + 3] != '-->':
        return False
      i = j + 3
    elif s.startswith('<![CDATA[', i):
      j = s.find(']]>', i)
      if j < 0:
        return False
      i = j + 3
    elif s[i] == '<':
      m = TAG.match(s, i)
      if not m or m.group('close') and (m.group('attrs') or m.group('empty')):
        return False
      names = [a.group(1) for a in ATTR.finditer(m.group('attrs'))]
      if len(names) != len(set(names)):
        return False
      if m.group('close'):
        if not stack or stack.pop() != m.group('name'):
          return False
      elif not m.group('empty'):
        stack.append(m.group('name'))
      i = m.end()
    elif s[i] == '&':
      m = REF.match(s, i)
      if not m:
        return False
      i = m.end()
    elif s.startswith(']]>', i):
      return False
    else:
      i += 1
  return not stack


# ---------------------------------------------------------------- when the same
SIMPLE = re.compile(r'<(/?[A-Za-z0-9]+/?)((?: +[A-Za-z]+="[^"<>]*")*) */?>')


def loose(s):
  'what must not differ: the tags with their attributes, the other letters in their places'
  out, i = [], 0
  s = s.replace('\n', '')
  while i < len(s):
    m = SIMPLE.match(s, i)
    if m:
      out.append((m.group().replace(m.group(2), '', 1).replace(' ', ''),) + tuple(sorted(re.findall(r'([A-Za-z]+)="([^"]*)"', m.group(2)))))
      i = m.end()
    else:
      if not s[i].isspace():
        out.append(s[i])
      i += 1
  return out


def compare(ctx, a, b, same):
  'same: True if only line ends and the order of attributes were changed'
  ctx.transitions += 1
  got = html.cmp_tuple(a, b)
  if same and got:
    return ctx.fail('different', '%r and %r are the same, and said to differ by %s' % (a, b, got))
  if not got and loose(a) != loose(b):
    return ctx.fail('same', '%r and %r are said to be the same' % (a, b))
  ctx.outcome(got and 'different' or 'same')
  if len(a) + len(b) > 40:
    return
  # letter by letter; and as a test's assertion
  if (html.cmp(a, b) == []) != (a.replace('\n', '') == b.replace('\n', '')):
    return ctx.fail('cmp', '%r and %r are said to be %s' % (a, b, html.cmp(a, b) and 'different' or 'the same'))
  if not got or len(a) + len(b) < 9:
    saved, sys.stdout = sys.stdout, StringIO.StringIO()
    try:
      try:
        TESTCASE.assertHtmlEqual(a, b)
        said = True
      except AssertionError:
        said = False
    finally:
      sys.stdout = saved
    if said != (not got):
      ctx.fail('assert', 'assertHtmlEqual(%r, %r) %s, though they are %s' % (a, b, said and 'passes' or 'fails', got or 'the same'))


def swapped(s):
  for x, y in SWAPS:
    s = s.replace(x, y)
  return s


BACK = {'&lt;': '<', '&gt;': '>', '&amp;': '&', '&quot;': '"', '&#63;': '?'}


def check_one(ctx, case):
  what, rest = case[0], case[1:]
  if what == 'all':
    mine = ''.join(TOKENS[i] for i in rest[0])
    for n in (0, 1, 2):
      for other in itertools.product(TOKENS, repeat=n):
        compare(ctx, mine, ''.join(other), list(other) == [TOKENS[i] for i in rest[0]])
        ctx.states += 1
  elif what == 'edits':
    tokens = [TOKENS[i] for i in rest[0]]
    ctx.states += 1
    ctx.traces += 1
    a = ''.join(tokens)
    compare(ctx, a, a, True)
    compare(ctx, a, swapped(a), True)
    for i in range(len(tokens) + 1):
      # nothing of a tag may be torn: line ends may come anywhere between tokens
      compare(ctx, ''.join(tokens[:i]) + '\n' + ''.join(tokens[i:]), swapped(a), True)
      compare(ctx, a, ''.join(tokens[:i] + ['\n', '\n'] + tokens[i:]), True)
    for i in range(len(tokens)):
      compare(ctx, a, ''.join(tokens[:i] + tokens[i + 1:]), False)
      compare(ctx, ''.join(tokens[:i] + tokens[i:i + 2][::-1] + tokens[i + 2:]), a, False)
      for t in TOKENS:
        if rest[1] or i == 1:
          compare(ctx, a, ''.join(tokens[:i] + [t] + tokens[i + 1:]), False)
  elif what == 'long':
    a = ''.join(TOKENS[i] for i in rest[0]) * rest[1]
    ctx.states += 1
    compare(ctx, a, swapped(a), True)
    for at in (0, 1, 2, rest[1] // 2, rest[1]):
      k = at * (len(a) // rest[1])
      for extra in 'w3', '<b>', '&', '<td id="c"/>':
        compare(ctx, a, a[:k] + extra + a[k:], False)
        compare(ctx, a[:k] + extra + a[k:], a, False)
  elif what == 'valid':
    tokens = TOKENS + RAW
    text = ''.join([tokens[i] for i in rest[0]])
    ctx.states += 1
    ctx.traces += 1
    for t in (text, '<p>' + text + '</p>'):
      ctx.transitions += 1
      try:
        html.validate(t)
        ok = True
      except Exception:
        ok = False
      want = well_formed(t)
      if ok != want:
        return ctx.fail('valid', '%r is %s' % (t, ok and 'accepted' or 'refused'))
      ctx.outcome(want and 'well-formed' or 'ill-formed')
  elif what == 'depth':
    n = rest[0]
    ctx.states += 1
    for t, want in ('<p>' * n + '</p>' * n, True), ('<p>' * n + '</p>' * (n + 1), False), ('<p>' * (n + 1) + '</p>' * n, False), (
        '<b>w1</b>\n' * n, True), ('<b>w1</b>' * n + '<b>', False), ('w&amp; ' * n + '&', False):
      try:
        html.validate(t)
        ok = True
      except Exception:
        ok = False
      if ok != want:
        return ctx.fail('valid-long', '%d times: %r... is %s' % (n, t[:30], ok and 'accepted' or 'refused'))
  else:
    text = ''.join(rest[0])
    if rest[1]:
      text = unicode(text)
    ctx.states += 1
    ctx.transitions += 1
    got = html.escape(text)
    back = re.sub('&(?:lt|gt|amp|quot|#63);', lambda m: BACK[m.group()], got)
    left = got.replace('&lt;', '').replace('&gt;', '').replace('&amp;', '').replace('&quot;', '').replace('&#63;', '')
    if back != text or set(left) & set('<>&'):
      return ctx.fail('escape', '%r is escaped as %r' % (text, got))
    if not well_formed('<p>' + got + '</p>'):
      return ctx.fail('escape-form', '%r is escaped as %r' % (text, got))
    ctx.traces += 1
    ctx.outcome('escaped')


class THIS(object):
  check_one = staticmethod(check_one)


def run(ctx):
  n = len(TOKENS)
  for size in 0, 1, 2:
    for seq in itertools.product(range(n), repeat=size):
      if ctx.mine():
        ctx.guarded(THIS, ['all', list(seq)])
      if ctx.mine():
        ctx.guarded(THIS, ['edits', list(seq), True])
  for seq in itertools.product(range(n), repeat=3):
    if ctx.mine():
      ctx.guarded(THIS, ['edits', list(seq), ctx.thorough])
  few = [0, 1, 7, 9, 11, 13, 16, 19]
  for size in (4, 5) if ctx.thorough else (4,):
    for seq in itertools.product(few, repeat=size):
      if ctx.mine():
        ctx.guarded(THIS, ['edits', list(seq), False])
  for seq in itertools.product(range(n), repeat=2):
    for times in (30, 250) if ctx.thorough or seq[0] < seq[1] < 12 else (120,) if seq[0] == 7 else ():
      if ctx.mine():
        ctx.guarded(THIS, ['long', list(seq), times])
  m = n + len(RAW)
  for size in range(0, ctx.thorough and 4 or 3):
    for seq in itertools.product(range(m), repeat=size):
      if ctx.mine():
        ctx.guarded(THIS, ['valid', list(seq)])
  marks = [0, 1, 2, 3, 4, 9, 13, 24, 27]
  for size in range(3, ctx.thorough and 6 or 5):
    for seq in itertools.product(marks, repeat=size):
      if ctx.mine():
        ctx.guarded(THIS, ['valid', list(seq)])
  for k in (1, 2, 7, 50, 200, 1000):
    if ctx.mine():
      ctx.guarded(THIS, ['depth', k])
  letters = ['<', '>', '&', '?', 'a', '"', "'", ' ', '\n', ';', 'amp;', 'lt;', '#63;', '\\', '%']
  for size in range(0, ctx.thorough and 6 or 5):
    for seq in itertools.product(letters, repeat=size):
      if ctx.mine():
        ctx.guarded(THIS, ['escape', list(seq), size < 3])
  for seq in itertools.product(letters, repeat=2):
    for times in 10, 100, 3000:
      if ctx.mine():
        ctx.guarded(THIS, ['escape', list(seq) * times, False])
  ctx.notes['bounds'] = ('comparison: all pairs of sequences of up to 2 of %d tokens; all sequences of 3 (and of 4 of a core) with each line end, deletion, exchange and replacement; repetition to 250 times; '
                         'well-formedness: all sequences of up to %d of %d tokens, more of a core; escaping: all sequences of up to %d of %d letters' % (
                         n, ctx.thorough and 3 or 2, m, ctx.thorough and 5 or 4, len(letters)))
