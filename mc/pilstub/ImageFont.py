class Font(object):
  def __init__(self, uri, size):
    self.uri, self.size = uri, size

  def getsize(self, text):
    return measure(self.uri, self.size, text)


def measure(uri, size, text):
  'fonts differ in how wide and how high they are'
  if 'wide' in uri:
    return len(text) * size, size + 2
  if 'low' in uri:
    return (len(text) * size * 2 + 4) // 5, (size + 1) // 2
  return (len(text) * size * 3 + 4) // 5, (size * 4 + 4) // 5


def truetype(uri, size):
  return Font(uri, size)
