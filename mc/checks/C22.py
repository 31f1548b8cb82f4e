'''What the FIBS client calls a message: the class that describes it, given the phase of
the session and nothing else, after any history; and the phases themselves.'''
import os
import re
from bglib.protocol.fibs import CookieMonster

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOGIN, MOTD, RUN = 'login', 'motd', 'run'


def corpus():
  rows = []
  for line in open(os.path.join(HERE, 'fibs_corpus.txt')):
    name, message = line.rstrip('\n').split('\t', 1)
    rows.append((name, message))
  return rows


RUNNING = dict([(m, n) for n, m in corpus()])

NAMES = ['Zed_x', '<a>', 'A', 'bobrolls', 'wins', 'You']
TAILS = ['bob', 'bob.', ' 7', '5 point match']
PLAIN = re.compile(r'(:|, | |about|user|with|User|get|win|terminated|(un)?(gag|blind)|invited|piece|that|point|match|shows)$')


def variants(message):
  '''Other messages of the same class: other names, numbers, dice, ends.'''
  if re.search(r'\b(bob|zed)\b', message):
    for n in NAMES:
      yield re.sub(r'\b(bob|zed)\b', n, message)
  if re.search(r'\b12\b', message) and not message.startswith('12 '):
    for n in ['1', '7', '25', '100', '4095']:
      yield re.sub(r'\b12\b', n, message)
  if re.search(r'^\w+ rolls? \d and \d|^\w+ rolled \d|^X: \(', message):
    for a in '123456':
      for b in '123456':
        dice = [a, b]
        yield re.sub(r'\d', lambda d: dice and dice.pop(0) or d.group(0), message)
  if message[:2] == 'X:':
    yield message.replace('X:', 'O:')
  if re.search(r'pieces?\.|give 2 moves', message):
    for a in '1234':
      yield re.sub(r'[12]', a, message)
  if 'points' in message and '(' not in message:
    yield message.replace('points', 'point')
  if PLAIN.search(message):
    for tail in TAILS:
      yield message + (message[-1] != ' ' and ' ' or '') + tail
  if message[-4:] in (' YES', '  NO'):
    yield message.replace('  ', ' ')
    yield message.replace('  ', '             ')


def told(message):
  '''Whatever is said, it is chat; and so is news of who comes and goes.'''
  return [('12 bob ', 'CLIP_SAYS'), ('13 bob ', 'CLIP_SHOUTS'), ('14 bob ', 'CLIP_WHISPERS'),
          ('15 bob ', 'CLIP_KIBITZES'), ('16 bob ', 'CLIP_YOU_SAY'), ('17 ', 'CLIP_YOU_SHOUT'),
          ('18 ', 'CLIP_YOU_WHISPER'), ('19 ', 'CLIP_YOU_KIBITZ'), ('7 bob ', 'CLIP_LOGIN'),
          ('8 bob ', 'CLIP_LOGOUT'), ('9 bob 1207724539 ', 'CLIP_MESSAGE')]


# what FIBS says of others may stand anywhere in a message
ANYWHERE = set(['FIBS_YouStopWatching', 'FIBS_OpponentLogsOut', 'FIBS_FirstRoll', 'FIBS_MakesFirstMove',
                'FIBS_ResignRefused', 'FIBS_PlayerStartsWatching', 'FIBS_PlayerStopsWatching',
                'FIBS_PlayerIsWatching', 'FIBS_BAD_AcceptDouble', 'FIBS_PlayerAcceptsDouble',
                'FIBS_ResumeMatchAck0', 'FIBS_PlayerWinsGame', 'FIBS_WatchGameWins',
                'FIBS_PlayersStartingUnlimitedMatch', 'FIBS_WavesAgain', 'FIBS_Waves', 'FIBS_RatingCalcInfo',
                'FIBS_IsPlayingWith', 'FIBS_Goodbye', 'FIBS_OpponentLeftGame', 'FIBS_PlayerLeftGame',
                'FIBS_AlreadyPlaying', 'FIBS_Why'])


# these say no more than they say; with something after it, it is another message
ENDS = {'bob wants to resign.': 'FIBS_WatchResign', '6': 'FIBS_Unknown', '10 bob': 'FIBS_Unknown', '11 bob': 'FIBS_Unknown',
        'You accept the double. The cube shows 2.': 'FIBS_BAD_AcceptDouble', 'bob accepts the double. The cube shows 2.': 'FIBS_BAD_AcceptDouble'}


def derived():
  '''Messages made of those of the corpus, and their classes.'''
  rows = []
  for name, message in corpus():
    if not message.strip():
      continue
    for other in variants(message):
      rows.append((name, other))
    for tail in (' ~~', ' ;', ' ~~:'):
      rows.append((message[:6] == 'board:' and 'FIBS_BAD_Board' or ENDS.get(message, name), message + tail))
    for prefix, other in told(message):
      rows.append((other, prefix + message))
    if name.startswith('CLIP_') or name not in ANYWHERE:
      if not (name.startswith('CLIP_') and message[:2] in ('12', '13', '14', '15', '16', '17', '18', '19')):
        rows.append(('FIBS_Unknown', '~~ ' + message))
  rows += NEAR
  return rows


NEAR = [
  ('FIBS_ClearScreen', '\x1b[;H\x1b[2J'), ('FIBS_Unknown', '\x1b[H'), ('FIBS_Unknown', 'bob rolls 7 and 1'),
  ('FIBS_Unknown', 'bob rolls 0 and 1'), ('FIBS_Unknown', 'You roll 1 and 7'), ('FIBS_Unknown', 'bob99 rolls 1 and 2'),
  ('FIBS_Unknown', 'Please move 5 pieces.'), ('FIBS_WatchGameWins', 'bob wins the game and gets many points.'),
  ('FIBS_BAD_Board', 'board:a:b:c'), ('FIBS_Unknown', '5 bob - - 2'), ('FIBS_Unknown', '5 bob x y 1'),
  ('FIBS_Unknown', '1 2'), ('FIBS_Unknown', 'ready   MAYBE'), ('FIBS_Unknown', 'ready'), ('FIBS_Unknown', 'done.'),
  ('FIBS_Unknown', 'Done'), ('CLIP_WHO_INFO', '5 a b - 0'), ('CLIP_WHO_INFO', '5 a - b 0'),
  ('CLIP_WHO_INFO', '5 bob_9 - - 0 1 1500.00 23 5 120 host client mail'), ('FIBS_Unknown', '7 bob9 x'),
  ('FIBS_Unknown', '9 bob x'), ('FIBS_Stat', '4 bytes'), ('FIBS_Stat', '100 registered users.'),
  ('FIBS_Average', '00:00-01:59  23  12  40'), ('FIBS_DiceTest', '6-1 1234'), ('FIBS_DiceTest', 'S: 1'), ('FIBS_DiceTest', 'T: 1'),
  ('FIBS_Ratings', '*   1 bob 2012.99 99999'), ('FIBS_Ratings', '* 100 bob 1200.00 1'),
  ('FIBS_SavedMatchReady', '**bob               5          0 -  0'), ('FIBS_SavedMatch', '  bob                5          3 -  2'),
  ('FIBS_SavedMatchPlaying', ' *bob                5          3 -  2'),
]
DERIVED = dict([(m, n) for n, m in derived()])
GOODBYE = '           Goodbye.'

# a few messages and what they are in the other phases
ALPHABET = [
  # message, while logging in, in the message of the day
  ('login: ', 'FIBS_LoginPrompt', 'FIBS_MOTD'),
  ('1 bob 1207724539 host.example.net', 'CLIP_WELCOME', 'FIBS_MOTD'),
  ('2 bob 1 1 0 0 0 0 1 1 0 0 0 0 1 1500.00 0 0 0 1 0 UTC', 'CLIP_OWN_INFO', 'FIBS_MOTD'),
  ('3', 'CLIP_MOTD_BEGIN', 'FIBS_MOTD'),
  ('4', 'FIBS_PreLogin', 'CLIP_MOTD_END'),
  ('> 12', 'FIBS_FailedLogin', 'FIBS_MOTD'),
  ('WELCOME TO THE', 'FIBS_PreLogin', 'FIBS_MOTD'),
  ('', 'FIBS_PreLogin', 'FIBS_MOTD'),
  ('5 zed - - 1', 'FIBS_PreLogin', 'FIBS_MOTD'),
  ('6', 'FIBS_PreLogin', 'FIBS_MOTD'),
  (GOODBYE, 'FIBS_PreLogin', 'FIBS_MOTD'),
  ('31', 'FIBS_PreLogin', 'FIBS_MOTD'),
  ('42 lines follow', 'FIBS_PreLogin', 'FIBS_MOTD'),
  ('bob moves 24-18 .', 'FIBS_PreLogin', 'FIBS_MOTD'),
  ('4 tournaments this week', 'FIBS_PreLogin', 'FIBS_MOTD'),
  ('4x4', 'FIBS_PreLogin', 'FIBS_MOTD'),
  ('3 users are online', 'FIBS_PreLogin', 'FIBS_MOTD'),
  ('1', 'FIBS_PreLogin', 'FIBS_MOTD'),
  ('login as guest', 'FIBS_PreLogin', 'FIBS_MOTD'),
  (' 4', 'FIBS_PreLogin', 'FIBS_MOTD'),
  ('You wave goodbye.', 'FIBS_PreLogin', 'FIBS_MOTD'),
]
EXTRA = {'4 tournaments this week': 'FIBS_Unknown', '4x4': 'FIBS_Unknown', '3 users are online': 'FIBS_Unknown',
         '1': 'FIBS_Unknown', 'login as guest': 'FIBS_Unknown', ' 4': 'FIBS_Unknown', '1 bob 1207724539 host.example.net': 'FIBS_Unknown', '3': 'FIBS_Unknown', '31': 'FIBS_Unknown',
         '42 lines follow': 'FIBS_Unknown', 'bob moves 24-18 .': 'FIBS_PlayerMoves', 'WELCOME TO THE': 'FIBS_Unknown',
         '2 bob 1 1 0 0 0 0 1 1 0 0 0 0 1 1500.00 0 0 0 1 0 UTC': 'FIBS_Unknown'}
OTHER = dict([(m, {LOGIN: a, MOTD: b}) for m, a, b in ALPHABET])


def reference(phase, message):
  if phase == RUN:
    name = RUNNING.get(message) or EXTRA.get(message) or DERIVED[message]
    return name, name == 'FIBS_Goodbye' and LOGIN or RUN
  name = OTHER[message][phase]
  if name == 'CLIP_MOTD_BEGIN':
    return name, MOTD
  if name == 'CLIP_MOTD_END':
    return name, RUN
  return name, phase


def check_one(ctx, case):
  history = [m.encode('ascii') for m in case]
  monster = CookieMonster()
  phase = LOGIN
  other, there = CookieMonster(), LOGIN # another session at the same time
  for i, message in enumerate(history):
    if len(history) <= 5:
      news = OTHERS[(i + len(message)) % len(OTHERS)]
      want, there = reference(there, news)
      got = other.make_cookie(news)
      if got != want:
        ctx.fail('two-sessions', 'after %r in another session, %r is called %s instead of %s' % (history[:i], news, got, want))
        return
    want, after = reference(phase, message)
    got = monster.make_cookie(message)
    ctx.transitions += 1
    if got != want:
      ctx.fail('%s-%s' % (phase, want), 'after %r, in phase %s, %r is called %s instead of %s' % (
               history[:i], phase, message, got, want))
      return
    phase = after
  ctx.traces += 1
  ctx.outcome(phase + '-' + want)


ENTER = ['3', '4']
OTHERS = ['3', '4', GOODBYE, '> 12', '6']


def run(ctx):
  rows = [m for n, m in corpus()]
  # every pair of messages of a running session
  for a in rows:
    if not ctx.mine():
      continue
    ctx.states += 1
    ctx.guarded(THIS, ENTER + [a])
    if a == GOODBYE:
      continue
    if ctx.thorough:
      for b in rows:
        ctx.guarded(THIS, ENTER + [a, b])
    else:
      ctx.guarded(THIS, ENTER + [a] + [m for m in rows if m != GOODBYE])
      ctx.guarded(THIS, ENTER + [a] + [m for m in reversed(rows) if m != GOODBYE])
  # messages derived from these, each one in a session that has only begun, and after all the others
  rest = sorted([m for m in DERIVED if 'Goodbye' not in m])
  size = 40
  for i in range(0, len(rest), size):
    if not ctx.mine():
      continue
    ctx.states += 1
    for m in rest[i:i + size]:
      ctx.guarded(THIS, ENTER + [m])
    ctx.guarded(THIS, ENTER + rest[i:i + size] + rest[i + size - 1:i and i - 1 or None:-1])
  # messages that look alike: all triples (quick: pairs) in every order
  alike = [m for m in rows if 'double' in m or 'board' in m or 'resign' in m or m[:2] in ('X:', '12', '13', '17') or
           'watching' in m or 'wins' in m or 'goodbye' in m or 'saved' in m or 'left' in m]
  for a in alike:
    if not ctx.mine():
      continue
    for b in alike:
      for c in ctx.thorough and alike or [b]:
        ctx.guarded(THIS, ENTER + [b, a, c])
  # all histories over the messages that turn one phase into another
  names = [m for m, a, b in ALPHABET]
  depth = ctx.thorough and 5 or 3

  def histories(prefix):
    yield prefix
    if len(prefix) < depth:
      for m in names:
        for h in histories(prefix + [m]):
          yield h

  for first in names:
    for second in names:
      if not ctx.mine():
        continue
      ctx.states += 1
      for h in histories([first, second]):
        if len(h) == depth:
          ctx.guarded(THIS, h)
          ctx.guarded(THIS, ENTER + h)
          if ctx.thorough:
            ctx.guarded(THIS, ENTER + [GOODBYE] + h)
  ctx.sample(dict(messages=len(rows), alike=len(alike), phase_alphabet=len(names), depth=depth))
  ctx.notes['bounds'] = ('%d messages of every class of a running session; each one after each other one; %d derived from them (names, numbers, dice, ends; the same told as chat; the same in the middle of a line); %d that look '
    'alike in triples; all histories of %d messages over %d that matter to the phases, from login and from a running session'
    % (len(rows), len(DERIVED), len(alike), depth, len(names)))


class THIS(object):
  check_one = staticmethod(check_one)
