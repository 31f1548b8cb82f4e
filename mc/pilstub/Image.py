'''A stand-in for the Python Imaging Library: canvases remember what was done to them.'''
FLIP_TOP_BOTTOM = 'flip top bottom'
FLIP_LEFT_RIGHT = 'flip left right'
MISSING = set()


class Picture(object):
  def __init__(self, mode, size, uri=None, flips=()):
    self.mode, self.size, self.uri, self.flips, self.log = mode, size, uri, flips, []

  def transpose(self, how):
    return Picture(self.mode, self.size, self.uri, self.flips + (how,))

  def resize(self, size, *how):
    return Picture(self.mode, tuple(size), self.uri, self.flips)

  def paste(self, what, box=None, mask=None):
    self.log.append(('image', what.uri, what.flips, what.size, tuple(box), mask and (mask.uri, mask.flips, mask.size)))


def new(mode, size, *color):
  return Picture(mode, size)


def open(uri):
  if uri in MISSING:
    raise IOError('no such file ' + uri)
  return Picture(uri.endswith('.png') and 'RGBA' or 'RGB', (17, 13), uri)
