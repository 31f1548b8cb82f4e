# A stand-in for tonic.combination: what bglib uses of it.
#
# C_Hash numbers the ways to have r ones among some bits by the value they have as a binary
# number, first bit most significant; C_RHash gives the bits (m of them) of a number.  That
# is what bglib's tests of its users (nori_test) expect.


def fact(n):
  r = 1
  for i in range(2, n + 1):
    r *= i
  return r


def C(n, r):
  if r < 0 or r > n:
    return 0
  return fact(n) // fact(r) // fact(n - r)


def C_Hash(bits, r):
  assert sum(bits) == r
  n, seen = 0, 0
  for i, b in enumerate(reversed(bits)):
    if b:
      seen += 1
      n += C(i, seen)
  return n


def C_RHash(n, m, r):
  assert 0 <= n < C(m, r) or n == 0 == r
  bits = []
  for i in range(m - 1, -1, -1):
    if r and n >= C(i, r):
      bits.append(1)
      n -= C(i, r)
      r -= 1
    else:
      bits.append(0)
  return bits
