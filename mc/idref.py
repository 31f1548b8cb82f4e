'''GNU Backgammon's position and match IDs, written from gnubg's manual ("A
technical description of the Position ID / Match ID"), not from bglib.'''
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
VALUE = dict([(c, i) for i, c in enumerate(B64)])


def to_text(bits, nbytes):
  'bits, least significant first in each byte -> unpadded base64'
  bits = bits + [0] * (nbytes * 8 - len(bits))
  octets = [sum([b << j for j, b in enumerate(bits[k:k + 8])]) for k in range(0, nbytes * 8, 8)]
  n = ''.join(['%d%d%d%d%d%d%d%d' % tuple([o >> j & 1 for j in range(7, -1, -1)]) for o in octets])
  n += '0' * (-len(n) % 6)
  return ''.join([B64[int(n[k:k + 6], 2)] for k in range(0, len(n), 6)])


def from_text(s, nbytes):
  n = ''
  for c in s:
    v = VALUE[c]
    n += ''.join([str(v >> j & 1) for j in range(5, -1, -1)])
  bits = []
  for k in range(nbytes):
    bits += [int(c) for c in reversed(n[8 * k:8 * k + 8])]
  return bits


def position_id(first, second):
  bits = []
  for n in list(first) + list(second):
    bits += [1] * n + [0]
  return to_text(bits, 10)


def read_position(s):
  'the two sides, or None when the text does not hold 50 points'
  counts, n = [], 0
  for b in from_text(s, 10):
    if b:
      n += 1
    else:
      counts.append(n)
      n = 0
  if len(counts) < 50:
    return None
  return tuple(counts[:25]), tuple(counts[25:50])


FIELDS = (('cube_in_logarithm', 4), ('cube_owner', 2), ('on_action', 1), ('crawford', 1),
          ('game_state', 3), ('on_inner_action', 1), ('doubled', 1), ('resign_offer', 2),
          ('die1', 3), ('die2', 3), ('match_length', 15), ('score0', 15), ('score1', 15))


def match_id(v):
  bits = []
  for name, width in FIELDS:
    bits += [int(v[name]) >> j & 1 for j in range(width)]
  return to_text(bits, 9)
