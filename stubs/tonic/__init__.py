# A stand-in for python-tonic-library, which is not to be had here: only what
# bglib uses.  Its conduct is pinned by the repository's own tests of the modules
# that use it (mc/checks replay their examples through it).


class BitsArray(object):
  '''size bits; bit i of the array is bit i%8 of byte i/8 (endian '<').'''
  def __init__(self, size, binary=None, endian='<'):
    assert endian == '<'
    self.size = size
    self._bits = [0] * size
    if binary is not None:
      for i in range(min(size, 8 * len(binary))):
        self._bits[i] = ord(binary[i // 8]) >> (i % 8) & 1

  def __len__(self):
    return self.size

  def __iter__(self):
    return iter(self._bits)

  def __getitem__(self, i):
    if isinstance(i, slice):
      bits = self._bits[i]
      r = BitsArray(len(bits))
      r._bits = bits
      return r
    return self._bits[i]

  def __setitem__(self, i, v):
    self._bits[i] = v and 1 or 0

  def __getslice__(self, i, j):
    return self[slice(i, j)]

  def __int__(self):
    n = 0
    for i, b in enumerate(self._bits):
      n |= b << i
    return n

  def __nonzero__(self):
    return 1 in self._bits

  def set_shiftable(self, value, begin, end):
    value = int(value)
    if value < 0 or value >> (end - begin):
      raise ValueError('%d does not fit in %d bits' % (value, end - begin))
    for i in range(begin, end):
      self._bits[i] = value & 1
      value >>= 1

  @property
  def binary(self):
    out = []
    for k in range(0, self.size, 8):
      byte = 0
      for j, b in enumerate(self._bits[k:k + 8]):
        byte |= b << j
      out.append(chr(byte))
    return ''.join(out)

  def __repr__(self):
    return "<BitsArray Instance '%s'>" % ':'.join([str(b) for b in self._bits])
