'''A stand-in for tonic.lineparser, which is not installed: parse() matches a line against the
alternatives of _first, then _last, and calls handle_<name>(text, matchobj) for the outermost
named group which matched, if there is such a handler.'''
import re


class LineParser(object):
  _first = _last = r'(?!)'

  def parse(self, line):
    pattern = re.compile('(?:%s)|(?:%s)' % (self._first, self._last))
    m = pattern.search(line)
    if not m:
      return
    found = [(m.start(n), -m.end(n), i, n) for n, i in pattern.groupindex.items() if m.group(n) is not None]
    found.sort(key=lambda f: f[2])
    if found:
      name = found[0][3]
      handler = getattr(self, 'handle_' + name, None)
      if handler is not None:
        handler(m.group(name), m)
