class Draw(object):
  def __init__(self, img):
    self.log = img.log

  def rectangle(self, box, fill=None, outline=None):
    self.log.append(('rect', flat(box), fill))

  def ellipse(self, box, fill=None, outline=None):
    self.log.append(('ellipse', flat(box), fill))

  def polygon(self, points, fill=None, outline=None):
    self.log.append(('polygon', flat(points), fill))

  def text(self, at, words, font=None, fill=None):
    self.log.append(('text', tuple(at), words, font.uri, font.size, fill))


def flat(xs):
  r = []
  for x in xs:
    if isinstance(x, (tuple, list)):
      r += flat(x)
    else:
      r.append(x)
  return tuple(r)
