'''Rendering with the real wiki formatter, and a strict reader of the HTML it gives.'''
import re
import bglib.doc.macro
import bglib.doc.bgwiki
import bglib.doc.html

TAGS = set('''strong i span del sub sup a h1 h2 h3 ul ol li table tr td th blockquote p dl dt dd div img br pre'''.split())
SINGLE = set(['img', 'br'])
ATTRS = set('class title href id src colspan rowspan'.split())
PIECE = re.compile(r'<[^>]*>|[^<]+|<')
TAG = re.compile(r'<(/?)([a-z0-9]+)((?:\s+[a-z]+="[^"<>]*")*)\s*(/?)>$')
ATTR = re.compile(r'([a-z]+)="([^"]*)"')
ENTITY = re.compile(r'&(?:amp|lt|gt|quot|#39|#\d+);')
NAMES = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"'}
PARENTS = {'li': ('ul', 'ol'), 'tr': ('table',), 'td': ('tr',), 'th': ('tr',)}
CHILDREN = {'ul': ('li', 'ul', 'ol'), 'ol': ('li', 'ul', 'ol'), 'table': ('tr',), 'tr': ('td', 'th')}


class Bad(Exception):
  def __init__(self, key, message):
    Exception.__init__(self, message)
    self.key = key


def plain(s):
  'the text that escaped s stands for'
  if re.search(r'&(?!(?:amp|lt|gt|quot|#\d+);)', s):
    raise Bad('escape', 'an & that is no entity in %r' % s)
  def one(m):
    n = m.group(0)[1:-1]
    return n[0] == '#' and unichr(int(n[1:])) or NAMES[n]
  return ENTITY.sub(one, s)


class E(object):
  def __init__(self, tag, attrs, up):
    self.tag, self.attrs, self.up, self.inside = tag, attrs, up, []

  def path(self):
    r, e = [], self
    while e.up is not None:
      r.append(e)
      e = e.up
    r.reverse()
    return r

  def all(self, tag=None):
    r = []
    for e in self.inside:
      if isinstance(e, E):
        if tag is None or e.tag == tag:
          r.append(e)
        r += e.all(tag)
    return r

  def text(self):
    return ''.join([isinstance(e, E) and e.text() or not isinstance(e, E) and e or '' for e in self.inside])

  def design(self):
    'tag and class'
    c = self.attrs.get('class')
    return c and '%s.%s' % (self.tag, c) or self.tag


def read(html):
  'the tree of elements; Bad if the html is not well formed'
  at = root = E('', {}, None)
  for m in PIECE.finditer(html):
    s = m.group(0)
    if s[0] != '<':
      if '>' in s:
        raise Bad('escape', 'an unescaped > in %r' % s)
      t = plain(s)
      if t.strip() and at.tag in CHILDREN:
        raise Bad('text-in-' + at.tag, 'text %r directly in <%s>' % (t, at.tag))
      at.inside.append(t)
      continue
    t = TAG.match(s)
    if not t:
      raise Bad('tag', 'no tag: %r' % s)
    closing, name, attrs, single = t.groups()
    if name not in TAGS:
      raise Bad('tag', 'unknown element in %r' % s)
    if closing:
      if attrs or single or at.tag != name:
        raise Bad('balance', '%s closes <%s>' % (s, at.tag))
      at = at.up
      continue
    if bool(single) != (name in SINGLE):
      raise Bad('balance', '%r is not closed as it should' % s)
    d = {}
    for k, v in ATTR.findall(attrs):
      if k in d or k not in ATTRS:
        raise Bad('attribute', 'attribute %s in %r' % (k, s))
      d[k] = plain(v)
    if 'href' in d and not re.match(r'https?://|/|#', d['href']):
      raise Bad('href', 'a link to %r' % d['href'])
    if name in PARENTS and at.tag not in PARENTS[name] or at.tag in CHILDREN and name not in CHILDREN[at.tag]:
      raise Bad('model', '<%s> directly in <%s>' % (name, at.tag or 'the page'))
    e = E(name, d, at)
    at.inside.append(e)
    if not single:
      at = e
  if at is not root:
    raise Bad('balance', '<%s> is left open' % at.tag)
  return root


WORD = re.compile(r'w\d+')


def words(e, path=()):
  'the marker words of the visible text, in order, with the elements around each'
  r = []
  for x in e.inside:
    if isinstance(x, E):
      r += words(x, path + (x,))
    else:
      r += [(w, path) for w in WORD.findall(x)]
  return r


class Db(object):
  'the analyses known'
  def __init__(self, known=None):
    self.known = known or {}
  def get_analysis(self, pid, mid):
    return self.known[(pid, mid)]


def formatter(wikipath='/wiki/', db=None):
  db = db or Db()
  bglib.doc.macro.setup(db)
  return bglib.doc.bgwiki.Formatter(db, wikipath=wikipath)


def render(text, db=None, wikipath='/wiki/'):
  w = formatter(wikipath, db)
  w.parse(text)
  return w.make_html()
