From 34a51e002ad1d8bba7db2899adac45a14178b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:05 +0000
Subject: [PATCH 01/54] fix: a chequer on the ace point can be borne off with a
 larger die

find_src_of_bearoff_with searched the points below the die down to index 1
only, so bearing off by naming the destination was refused whenever the
highest remaining chequer stood on the ace point.
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 472c878..c0be7d7 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -141,7 +141,7 @@ class AbstractBoard(object):
     for i in range(die - 1, 6):
       if self.has_chequer_to_move(i):
         return None
-    for i in range(die, 0, -1):
+    for i in range(die - 2, -1, -1):
       if self.has_chequer_to_move(i):
         return i
     return None# no chequer on board!
-- 
2.43.0


From f2e341603d4c06dc9d99ba00edef4db338895037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:05 +0000
Subject: [PATCH 02/54] fix: no IndexError when a die reaches from beyond the
 bar

Asking which chequer can land on a far point (say the 24 point with a 6) looked
for a chequer at an index past the bar.
---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 8907add..95e9534 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -331,7 +331,7 @@ class MoveFactory(object):
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
       if b.is_open_to_land(dest):
-        if b.has_chequer_to_move(dest + die):
+        if dest + die <= BAR and b.has_chequer_to_move(dest + die):
           return PartialMove(die, dest+die, dest, b.is_hitting_to_land(dest))
         else:
           # no source chequer, try another die.
-- 
2.43.0


From ef3eeabba2c99498a0c406b66ae49a0d19caf263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 03/54] fix: find a path that has to play the smaller die first

guess_your_multiple_pms tried the larger die only and gave up when it led to a
dead end, although playing the smaller die first was legal (for example bearing
off from the 6 point with a 5-2 above a chequer on the 4 point).
---
 bglib/model/move.py | 49 ++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 95e9534..1745cf8 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -366,35 +366,34 @@ class MoveFactory(object):
     assert isinstance(available, AvailableToPlay)
     assert isinstance(mv, Move)
 
-    pm = self.guess_your_single_pm_from_source(src, b, available)
-    print pm
-    if not pm:
-      return pm 
-
-    assert pm.src == src
-    if pm.dest == dest:
-      mv.append(pm)
-      return mv
-    elif pm.dest > dest:
+    found = self.Error('No die is available')
+    for die in range(6, 0, -1):
+      if die not in available:
+        continue
+      pm = self.guess_your_single_pm_from_source(src, b, AvailableToPlay(rolled=(die, 0)))
+      print pm
+      if not pm:
+        found = pm
+        continue
+      assert pm.src == src
+      if pm.dest < dest:
+        # over run. retry with other die
+        continue
+      trial = Move(src=mv)
+      trial.append(pm)
+      if pm.dest == dest:
+        return trial
       # need to go further
-      mv.append(pm)
-      available.consume(pm.die)
+      rest = AvailableToPlay(rolled=None, copy_src=available)
+      rest.consume(die)
       b.make_partial_move(pm)
-      mv = self.guess_your_multiple_pms(pm.dest, dest, b, available, mv)
+      found = self.guess_your_multiple_pms(pm.dest, dest, b, rest, trial)
       rewind = PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting)
       b.make_partial_move(rewind)
-      return mv
-    else:
-      # over run
-      print 'over run'
-      assert pm.dest < dest
-      available.consume(pm.die)
-      # retry with other die
-      mv = self.guess_your_multiple_pms(src, dest, b, available, mv)
-      #rewind = PartialMove(die=pm.die, src=src, dest=pm.dest, is_hitting=pm.is_hitting)
-      #b.make_partial_move(rewind)
-      return mv
-    assert False
+      if found:
+        return found
+      # dead end. retry with other die
+    return found
 
   def guess_your_multiple_partial_undoes(self, src, dest, b=None, available=None, mv=None):
     if b is None:
-- 
2.43.0


From 974a0d478b9cb723c9ce08b61f4080b13d61bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 04/54] fix: picking up the dice follows the rules and asking
 has no side effect

is_leagal_to_pickup_dice rewound the move on the caller's own board and never
put it back, so asking could undo the player's move. It also overlooked
chequers on the bar with a playable die and plays of both dice by different
chequers, and so let the player stop early.
---
 bglib/model/move.py | 69 ++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 41 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 1745cf8..3840815 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -8,6 +8,7 @@
 from bglib.model.constants import *
 from bglib.model import util
 from bglib.model import *
+from bglib.model.boardeditor import BoardEditor
 
 
 class AvailableToPlay(object):
@@ -204,57 +205,43 @@ class MoveFactory(object):
     assert self.board.rolled != (0, 0)
     if not self.available:
       return True
-    bar = util.move_pton('bar')
-    if self.board.has_chequer_to_move(bar):
-      if not self.guess_your_single_pm_from_source(bar):
-        return True #dance
-
-    for pt in POINTS:
-      if self.board.has_chequer_to_move(pt):
-        if self.guess_your_single_pm_from_source(pt):
-          return False
-          #if self.board.rolled[0] == self.board.rolled[1]:
-          #  print 'can move checker from', util.move_ntop(pt);
+    if self._find_pm():
+      return False
 
     if self.board.is_doubles():
       return True
-            
-    #rewind all moves and check for blocked moves.
-    mf = MoveFactory(self.board, self.move, self.available)
-    inverses  = []
-    for pm in mf.move:
-      inverses.append(PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting))
-    for i in inverses:
-      mf.append(i)
 
+    #rewind all moves, on a copy, and check for another way to play.
+    mf = MoveFactory(BoardEditor(self.board), self.move, self.available)
+    for pm in reversed(list(self.move)):
+      mf.append(PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting))
     assert len(mf.move) == 0
 
-    # No need to check doubles.
-    # care only about small-big use.
-    # thus ...
-    for src in POINTS:
-      if mf.board.has_chequer_to_move(src):
-        for dst in range(0, src):
-          if mf.board.is_open_to_land(dst) or mf.board.is_hitting_to_land(dst):
-            pms = mf.guess_your_multiple_pms(src, dst)
-            if pms and len(pms) == 2:
-              # all dice are used.
-              # that means there is way to use all dice.
-              return False
+    for die in self.board.rolled:
+      for src in range(0, BAR + 1):
+        pm = mf._find_pm(die, (src, ))
+        if pm:
+          trial = MoveFactory(BoardEditor(mf.board), available=mf.available)
+          trial.append(pm)
+          if trial._find_pm():
+            return False # There is a way to use both dice.
     # There is no way to use both dice
     # Make sure use big one
-    # thus ... 
-    if self.available.get_max() != mf.available.get_max():
-      return True #max is used.
-
-    die = mf.available.get_max()
-    for src in POINTS:
-      if mf.board.has_chequer_to_move(src):
-        pm = mf.guess_your_single_pm_from_source(src, available=AvailableToPlay(rolled=(die, 0)))
-        if pm:
-          return False # There is way to use big one.
+    big = max(self.board.rolled)
+    if big in self.available and mf._find_pm(big):
+      return False # There is way to use big one.
     return True
 
+  def _find_pm(self, die=None, sources=range(0, BAR + 1)):
+    available = None
+    if die is not None:
+      available = AvailableToPlay(rolled=(die, 0))
+    for src in sources:
+      pm = self.guess_your_single_pm_from_source(src, available=available)
+      if pm:
+        return pm
+    return None
+
   def guess_your_single_pm_from_source(self, src, b=None, available=None):
     '''
     returns
-- 
2.43.0


From 7384b840d029553473c2e1376861d7aa630caf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 05/54] fix: asking for an undo over several dice leaves the
 board alone

guess_your_multiple_partial_undoes played the first steps of the undo on the
factory's own board and left them there, so adding the move it returned undid
them twice.
---
 bglib/model/move.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 3840815..88798f7 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -402,7 +402,9 @@ class MoveFactory(object):
       elif inverse.dest < dest:
         b.make_partial_move(inverse)
         available.add(inverse.die)
-        return self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, available, mv)
+        found = self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, available, mv)
+        b.make_partial_move(pm)
+        return found
       else:
         assert(inverse.dest > dest)
         return self.Error('Overrun, bad (src, dest)=(%s, %s)'%
-- 
2.43.0


From 4d1c9e1efe948b126ebac46f21bee881457c33d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 06/54] fix: a step cannot be undone from a point its chequer
 has left

After 8/5, 5/3 with one chequer, the step to the 5 point was offered for undo,
which left -1 chequers there.
---
 bglib/model/move.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 88798f7..bf853cc 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -395,6 +395,8 @@ class MoveFactory(object):
     assert(src < dest)
 
     for pm in self.move.find(src):
+      if src > OFF and not b.position[b.on_action][src]:
+        return self.Error('No chequer to move back')
       inverse = PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting)
       mv.append(inverse)
       if inverse.dest == dest:
-- 
2.43.0


From ae3a038abbef9f656a1c92c614f7791d3797014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 07/54] fix: guess_your_making_point uses both dice and
 restores the board

The second chequer was looked for with the first one's die still available and
the first move was left on the board, so a 3-1 was answered with two 3s and the
position was changed by asking.
---
 bglib/model/move.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index bf853cc..da89af0 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -417,22 +417,21 @@ class MoveFactory(object):
   def guess_your_making_point(self, dest, position=None, available=None, pms=None):
     b = self.board
     if available is None:
-      available = AvailableToPlay(self.board.rolled)
-    if position is None:
-      position = self.board.position
+      available = self.available
+    available = AvailableToPlay(copy_src=available)
     if pms is None:
       pms = []
 
-    pm = self.guess_your_single_pm_from_dest(dest)
+    pm = self.guess_your_single_pm_from_dest(dest, available=available)
     if pm:
       pms.append(pm)
-      available = available.consume(pm.die)
-      pm = self.guess_your_single_pm_from_dest(
-                dest, b=b.make_partial_move(pm),
-                available=available)
+      available.consume(pm.die)
+      b.make_partial_move(pm)
+      rewind = PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting)
+      pm = self.guess_your_single_pm_from_dest(dest, available=available)
+      b.make_partial_move(rewind)
       if pm:
         pms.append(pm)
         return pms
     return None
 
-
-- 
2.43.0


From f16dc97d14c7453d8346008164e53e6ff8bed458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 08/54] fix: a dead cube is dead for both players

YOU could double when winning the game at the present stake already wins the
match; HIM could not.
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index c0be7d7..78253f0 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -162,7 +162,7 @@ class AbstractBoard(object):
       if self.on_inner_action == YOU:
         if self.match_length == MONEY_GAME:
           return True
-        if your_score <= self.match_length - pow(2, self.cube_in_logarithm):
+        if your_score < self.match_length - pow(2, self.cube_in_logarithm):
           return True
       return False
     elif self.on_action == HIM:
-- 
2.43.0


From 7bf1f202081b5919bc3fccb8c255bea5f1941e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 09/54] fix: taking a double hands the cube over at twice the
 stake

take() left the cube where it was: later drops and resignations scored the old
stake, the taker could never redouble, and a player could double with the
opponent's cube.
---
 bglib/model/board.py       | 2 ++
 bglib/model/boardeditor.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 78253f0..fe7c5df 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -156,6 +156,8 @@ class AbstractBoard(object):
       return False
     if self.doubled:
       return False
+    if self.cube_owner != CENTER and self.cube_owner != who:
+      return False
     if self.on_action == YOU:
       if who != YOU:
         return False
diff --git a/bglib/model/boardeditor.py b/bglib/model/boardeditor.py
index d6f733f..322e447 100644
--- a/bglib/model/boardeditor.py
+++ b/bglib/model/boardeditor.py
@@ -106,7 +106,9 @@ class BoardEditor(AbstractBoard):
   def take(self, who):
     assert self.is_cube_take_or_pass(who)
     self.on_inner_action = self.on_action
-    #self.doubled = False
+    self.doubled = False
+    self.cube_in_logarithm += 1
+    self.cube_owner = who
 
   def drop(self, who):
     assert self.is_cube_take_or_pass(who)
-- 
2.43.0


From 88edd3a7833a0c0099591e2100e3173986cb9ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 10/54] fix: a finished game cannot be dropped or resigned
 again

After drop() or accept_resign() the same call was still accepted and scored the
game once more.
---
 bglib/model/board.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index fe7c5df..95f3b43 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -129,7 +129,8 @@ class AbstractBoard(object):
     return self.rolled[0] == self.rolled[1]
 
   def is_cube_take_or_pass(self, who):
-    return self.doubled and self.on_inner_action != self.on_action and \
+    return self.game_state == ON_GOING and \
+      self.doubled and self.on_inner_action != self.on_action and \
       self.on_inner_action == who
   
   def find_src_of_bearoff_with(self, die):
@@ -184,10 +185,12 @@ class AbstractBoard(object):
            self.match_length == MONEY_GAME 
 
   def is_leagal_to_resign(self, who):
-    return self.on_action == who and self.on_inner_action == who
+    return self.game_state == ON_GOING and \
+           self.on_action == who and self.on_inner_action == who
 
   def is_to_accept_resign(self, who):
-    return self.resign_offer in (RESIGN_SINGLE, 
+    return self.game_state == ON_GOING and \
+           self.resign_offer in (RESIGN_SINGLE, 
                                  RESIGN_GAMMON,
                                  RESIGN_BACKGAMMON
                                  ) \
-- 
2.43.0


From 4636f59a929a34c1bf5a68d3c81df5512251a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 11/54] fix: a board can be hashed

__hash__ returned None, so an immutable board with value equality could be
neither a dictionary key nor a member of a set.
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 95f3b43..e42ffae 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -216,7 +216,7 @@ class Board(AbstractBoard):
     raise TypeError('Tried to mutate immutable object attr of "%s" with %s'%(name, value))
 
   def __hash__(self):
-    pass
+    return hash(tuple([getattr(self, key) for key in sorted(AbstractBoard.defaults)]))
 
   def __copy__(self):
     return self #immutable
-- 
2.43.0


From 92e5215fc4f37439412c59c6dda8a59e9c1902a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 12/54] fix: attributes of an immutable board cannot be deleted

---
 bglib/model/board.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index e42ffae..b6c0c2f 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -215,6 +215,9 @@ class Board(AbstractBoard):
   def __setattr__(self, name, value):
     raise TypeError('Tried to mutate immutable object attr of "%s" with %s'%(name, value))
 
+  def __delattr__(self, name):
+    raise TypeError('Tried to delete immutable object attr of "%s"'%(name,))
+
   def __hash__(self):
     return hash(tuple([getattr(self, key) for key in sorted(AbstractBoard.defaults)]))
 
-- 
2.43.0


From 9b17e3ee4792767012c5f94c3de89b9509ffdf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 13/54] fix: a board can be deep-copied

copy.deepcopy() of anything that holds a board failed, trying to set the
attributes of the immutable copy.
---
 bglib/model/board.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index b6c0c2f..d817ab7 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -224,4 +224,7 @@ class Board(AbstractBoard):
   def __copy__(self):
     return self #immutable
 
+  def __deepcopy__(self, memo):
+    return self #immutable
+
 
-- 
2.43.0


From 36fced86cdbc3a00de0351eaf5a3d3d8485f24cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 14/54] fix: a position ID has 14 characters whatever the
 number of chequers

---
 bglib/encoding/gnubgid.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 752b575..c3c3bca 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -44,21 +44,15 @@ def seq2bytes (xs):
   0 2 3 0 ---> 0 110 1110 0 : D mapping to binary.
   and endian is little endian.
   """
-  count = 0
   byte = ByteContext()
   for x in xs:
     for i in range(0, x):
       if not byte.write(1):
-        count += 1
         yield byte.pack()
     if not byte.write(0):
-      count += 1
       yield byte.pack()
   if byte.count != 0:
     yield byte.pad()
-  while count < 9:
-    count += 1
-    yield byte.pad()
 
 
 def byts2seq(b):
@@ -84,7 +78,7 @@ def byts2seq(b):
 
 def twoside_encode(xs):
   s = list(seq2bytes( list(xs[0])+ list(xs[1])))
-  return ''.join(s)
+  return ''.join(s).ljust(10, '\x00')
 
 
 def twoside_decode(s):
-- 
2.43.0


From 28540a09d601e0a55a8c6517fde0fb356c6a3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 15/54] fix: an ID cut short is refused instead of padded
 forever

---
 bglib/encoding/gnubgid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index c3c3bca..e1bd0d9 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -94,7 +94,7 @@ def decode_position(s):
   """ decode tuple expression from gnubg position id """
   if '=' in s:
     raise TypeError
-  while True:
+  for padding in range(4):
     try:
       bin = standard_b64decode(s)
     except TypeError, e:
@@ -103,6 +103,8 @@ def decode_position(s):
       s += '='
     else:
       break
+  else:
+    raise bglib.encoding.DecodeError('got bad data: %s '%(s,))
   r = twoside_decode(bin)
   if not len(r) == 2 or not len(r[0])==25 or not len(r[1])==25:
     raise bglib.encoding.DecodeError('got bad data: %s '%(s,))
@@ -192,7 +194,7 @@ def decode_match(s):
   """ decode tuple expression from gnubg position id """
   if '=' in s:
     raise TypeError
-  while True:
+  for padding in range(4):
     try:
       bin = standard_b64decode(s)
     except TypeError, e:
@@ -201,6 +203,8 @@ def decode_match(s):
       s += '='
     else:
       break
+  else:
+    raise bglib.encoding.DecodeError('got bad data: %s '%(s,))
   return MatchProxy(bin)
 
 def encode(model):
-- 
2.43.0


From faedf70672bcdebfe9cb2803f2028f659b732873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 16/54] fix: a bad score in an XGID is reported as a
 DecodeError

---
 bglib/encoding/xgid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index 007b50e..f7af650 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -115,7 +115,7 @@ def decode(model, s):
   try:
     model.score = (int(his_score), int(your_score))
   except ValueError:
-    raise bglib.encoding.DecodeError('got bad data, non interger score: %s '%(his_score, your_score,))
+    raise bglib.encoding.DecodeError('got bad data, non interger score: %s %s '%(his_score, your_score,))
 
   try:
     is_crawford_jacoby = int(is_crawford_jacoby)
-- 
2.43.0


From 8652acdaafeddb28960010215ba7be67b21f5fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 17/54] fix: an XGID of a money game may allow beavers

---
 bglib/encoding/xgid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index f7af650..3b90084 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -122,15 +122,16 @@ def decode(model, s):
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non integer Crawford/Jacoby flag: %s '%(is_crawford_jacoby,))
 
-  if is_crawford_jacoby not in (0, 1):
-    raise bglib.encoding.InconsistentData('bad Crawford/Jacoby flag: %d '%(is_crawford_jacoby, ))
-
-
   try:
     match_length = int(match_length)
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non integer match length: %s '%(match_length,))
 
+  # in a money game 0: neither, 1: Jacoby, 2: beavers, 3: both
+  flags = match_length == 0 and (0, 1, 2, 3) or (0, 1)
+  if is_crawford_jacoby not in flags:
+    raise bglib.encoding.InconsistentData('bad Crawford/Jacoby flag: %d '%(is_crawford_jacoby, ))
+
   if match_length == 0:
     model.crawford = False
     model.match_length = match_length
-- 
2.43.0


From a68a504c7a941b1362fb25198ce4316e97143d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 18/54] fix: a FIBS board can be read on the opponent's turn
 and after the game

---
 bglib/encoding/FIBS.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 20c977e..7e10ec1 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -118,10 +118,9 @@ def decode(m, s):
     m.rolled = fibs.his_dice
     m.on_action = HIM
     m.on_inner_action = HIM
-    m.game_state = bglib.model.constants.on_going
+    m.game_state = ON_GOING
   else:
     m.rolled=(0, 0)
-    m.on_action = INVALID
     m.game_state = FINISHED
     #m.game_state = bglib.model.constants.resigned
     #ugh! There is no way to define it
-- 
2.43.0


From fe3abbbca180149bc1308ff83f236acd3200dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 19/54] fix: reading a FIBS board forgets the double of the
 board read before

---
 bglib/encoding/FIBS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 7e10ec1..d847ce9 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -126,8 +126,8 @@ def decode(m, s):
     #ugh! There is no way to define it
     #may be we need to add some thing.
 
-  if fibs.was_doubled:
-    m.doubled = True
+  m.doubled = bool(fibs.was_doubled)
+  if m.doubled:
     if m.on_action == YOU:
       m.on_inner_action = HIM
     elif m.on_action == HIM:
-- 
2.43.0


From cbeef98f17c7e84879d1b5b1b24759909e351196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 20/54] fix: the taker's name and the score can be read from a
 FIBS message

---
 bglib/encoding/FIBS.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index d847ce9..bead18b 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -155,15 +155,12 @@ def get_name(got):
     return None
   return got[m.start():m.end()]
 
-taker_name_expr = re.compile("(?P<name>^[a-zA-Z_<>]+) accpets")
+taker_name_expr = re.compile("(?P<name>^[a-zA-Z_<>]+) accepts")
 def get_taker_name(got):
-  m = name_expr.search(got)
+  m = taker_name_expr.search(got)
   if m is None:
     return None
-  try:
-    return got[m.start('name'):m.end('name')]
-  except IndexError:
-    return None
+  return got[m.start('name'):m.end('name')]
 
 def get_move(got, who):
   '''got = gBOTworldclass moves 22-off 24-off .'''
@@ -188,7 +185,7 @@ def get_move(got, who):
 
 score_expr = re.compile("[0-9]+")
 def get_score(got):
-  score = score_expr.findall(got)
+  score = score_expr.findall(got)[0]
   return int(score)
 
 match_score_expr = re.compile("[0-9]+")
-- 
2.43.0


From 6f5dc5763bb775d84cd074dc534f0205c1dbd2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 21/54] fix: reading an XGID forgets the offers of the board
 read before

---
 bglib/encoding/xgid.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index 3b90084..f4a1c87 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -148,9 +148,8 @@ def decode(model, s):
   #UGH!
   model.on_inner_action = model.on_action
 
-  '''
-  #model.doubled = mp.doubled
-  #model.resign_offer = mp.resign_offer
-  '''
+  # an XGID with dice to play has no offer pending
+  model.doubled = False
+  model.resign_offer = RESIGN_NONE
 
 
-- 
2.43.0


From 38a63a8807c24452e9a7faef17d9d994a4064b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 22/54] fix: a side that has borne off all its chequers has no
 backmost point

---
 bglib/encoding/bearoff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/bearoff/__init__.py b/bglib/encoding/bearoff/__init__.py
index dec5e92..8701935 100644
--- a/bglib/encoding/bearoff/__init__.py
+++ b/bglib/encoding/bearoff/__init__.py
@@ -13,7 +13,7 @@ from tonic.combination import fact, C, C_Hash, C_RHash
 
 def backward(t):
   i = 24
-  while not t[i]:
+  while i >= 0 and not t[i]:
     i -= 1
   return i + 1
 
-- 
2.43.0


From e23891b77fa839a329338d3999a2001732e1cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 23/54] fix: a FIBS message class described in two places keeps
 both descriptions

---
 bglib/protocol/fibs.py | 88 +++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 44 deletions(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index 8e4f4da..5e5f828 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -131,7 +131,7 @@ class RunState(State):
   FIBS_MatchLength = ["^match length:"]
   FIBS_TypeJoin = ["^Type 'join [a-zA-Z_<>]+' to accept\\."]
   FIBS_YouAreWatching = ["^You're now watching "]
-  FIBS_YouStopWatching = ["^You stop watching "]
+  FIBS_YouStopWatching += ["^You stop watching "]
   # overloaded
 
   FIBS_PlayerStartsWatching = ["[a-zA-Z_<>]+ starts watching [a-zA-Z_<>]+\\.",
@@ -161,7 +161,7 @@ class RunState(State):
   FIBS_MatchResult = ["^[a-zA-Z_<>]+ wins a [0-9]+ point match against "]
   #PLAYER wins a 9 point match against PLAYER  11-6 .
 
-  FIBS_PlayerWantsToResign = ["wants to resign\\."]
+  FIBS_PlayerWantsToResign += ["wants to resign\\."]
   #  Same as a longline in an actual game  This is just for watching.
 
   FIBS_BAD_AcceptDouble = ["^[a-zA-Z_<>]+ accepts? the double\\. The cube shows [0-9]+\\..+"]
@@ -217,7 +217,7 @@ class RunState(State):
   FIBS_NoEmail = ["^  No email address\\."]
   FIBS_WavesAgain = ["^[a-zA-Z_<>]+ waves goodbye again\\."]
   FIBS_Waves = ["waves goodbye", "^You wave goodbye\\."]
-  FIBS_WavesAgain = ["^You wave goodbye again and log out\\."]
+  FIBS_WavesAgain += ["^You wave goodbye again and log out\\."]
   FIBS_NoSavedGames = ["^no saved games\\."]
   FIBS_TypeBack = ["^You're away\\. Please type 'back'"]
   FIBS_SavedMatch = ["^  [a-zA-Z_<>]+ +[0-9]+ +[0-9]+ +- +"]
@@ -269,7 +269,7 @@ class RunState(State):
   FIBS_FailedLogin = ["^> [0-9]+"]
   # bogus CLIP messages sent after a failed login
   
-  FIBS_Average = ["^Time (UTC)  average min max"]
+  FIBS_Average = ["^Time \\(UTC\\)  average min max"]
   FIBS_DiceTest = ["^[nST]: "]
   FIBS_LastLogout = ["^  Last logout:"]
   FIBS_RatingCalcStart = ["^rating calculation:"]
@@ -313,10 +313,10 @@ class RunState(State):
                    "^5 [^ ]+ - [^ ]+ [01]",
                    ]
 
-  FIBS_Average = ["^[0-9][0-9]:[0-9][0-9]-"]
+  FIBS_Average += ["^[0-9][0-9]:[0-9][0-9]-"]
   # output of average command
 
-  FIBS_DiceTest = ["^[1-6]-1 [0-9]", # output of dicetest command
+  FIBS_DiceTest += ["^[1-6]-1 [0-9]", # output of dicetest command
                    "^[1-6]: [0-9]",
                    ]
 
@@ -344,7 +344,7 @@ class RunState(State):
 
   # class StarsBatch(Batch):
   FIBS_Username = ["^\\*\\* User"]
-  FIBS_Junk = ["^\\*\\* You tell "]
+  FIBS_Junk += ["^\\*\\* You tell "]
   # "** You tell PLAYER: xxxxx"]
 
   FIBS_YouGag = ["^\\*\\* You gag"]
@@ -367,40 +367,40 @@ class RunState(State):
   FIBS_YouInvited = ["^\\*\\* You invited"]
   FIBS_YourLastLogin = ["^\\*\\* Last login:"]
   FIBS_NoOne = ["^\\*\\* There is no one called"]
-  FIBS_AllowpipFalse = ["^\\*\\* You don't allow the use of the server's 'pip' command\\."]
-  FIBS_AllowpipTrue = ["^\\*\\* You allow the use the server's 'pip' command\\."]
-  FIBS_AutoboardFalse = ["^\\*\\* The board won't be refreshed"]
-  FIBS_AutoboardTrue = ["^\\*\\* The board will be refreshed"]
-  FIBS_AutodoubleTrue = ["^\\*\\* You agree that doublets"]
-  FIBS_AutodoubleFalse = ["^\\*\\* You don't agree that doublets"]
-  FIBS_AutomoveFalse = ["^\\*\\* Forced moves won't"]
-  FIBS_AutomoveTrue = ["^\\*\\* Forced moves will"]
-  FIBS_BellFalse = ["^\\*\\* Your terminal won't ring"]
-  FIBS_BellTrue = ["^\\*\\* Your terminal will ring"]
-  FIBS_CrawfordFalse = ["^\\*\\* You would like to play without using the Crawford rule\\."]
-  FIBS_CrawfordTrue = ["^\\*\\* You insist on playing with the Crawford rule\\."]
-  FIBS_DoubleFalse = ["^\\*\\* You won't be asked if you want to double\\."]
-  FIBS_DoubleTrue = ["^\\*\\* You will be asked if you want to double\\."]
-  FIBS_GreedyTrue = ["^\\*\\* Will use automatic greedy bearoffs\\."]
-  FIBS_GreedyFalse = ["^\\*\\* Won't use automatic greedy bearoffs\\."]
-  FIBS_MoreboardsTrue = ["^\\*\\* Will send rawboards after rolling\\."]
-  FIBS_MoreboardsFalse = ["^\\*\\* Won't send rawboards after rolling\\."]
-  FIBS_MovesTrue = ["^\\*\\* You want a list of moves after this game\\."]
-  FIBS_MovesFalse = ["^\\*\\* You won't see a list of moves after this game\\."]
-  FIBS_NotifyFalse = ["^\\*\\* You won't be notified"]
-  FIBS_NotifyTrue = ["^\\*\\* You'll be notified"]
-  FIBS_RatingsTrue = ["^\\*\\* You'll see how the rating changes are calculated\\."]
-  FIBS_RatingsFalse = ["^\\*\\* You won't see how the rating changes are calculated\\."]
-  FIBS_ReadyTrue = ["^\\*\\* You're now ready to invite or join someone\\."]
-  FIBS_ReadyFalse = ["^\\*\\* You're now refusing to play with someone\\."]
-  FIBS_ReportFalse = ["^\\*\\* You won't be informed"]
-  FIBS_ReportTrue = ["^\\*\\* You will be informed"]
-  FIBS_SilentTrue = ["^\\*\\* You won't hear what other players shout\\."]
-  FIBS_SilentFalse = ["^\\*\\* You will hear what other players shout\\."]
-  FIBS_TelnetFalse = ["^\\*\\* You use a client program"]
-  FIBS_TelnetTrue = ["^\\*\\* You use telnet"]
-  FIBS_WrapFalse = ["^\\*\\* The server will wrap"]
-  FIBS_WrapTrue = ["^\\*\\* Your terminal knows how to wrap"]
+  FIBS_AllowpipFalse += ["^\\*\\* You don't allow the use of the server's 'pip' command\\."]
+  FIBS_AllowpipTrue += ["^\\*\\* You allow the use the server's 'pip' command\\."]
+  FIBS_AutoboardFalse += ["^\\*\\* The board won't be refreshed"]
+  FIBS_AutoboardTrue += ["^\\*\\* The board will be refreshed"]
+  FIBS_AutodoubleTrue += ["^\\*\\* You agree that doublets"]
+  FIBS_AutodoubleFalse += ["^\\*\\* You don't agree that doublets"]
+  FIBS_AutomoveFalse += ["^\\*\\* Forced moves won't"]
+  FIBS_AutomoveTrue += ["^\\*\\* Forced moves will"]
+  FIBS_BellFalse += ["^\\*\\* Your terminal won't ring"]
+  FIBS_BellTrue += ["^\\*\\* Your terminal will ring"]
+  FIBS_CrawfordFalse += ["^\\*\\* You would like to play without using the Crawford rule\\."]
+  FIBS_CrawfordTrue += ["^\\*\\* You insist on playing with the Crawford rule\\."]
+  FIBS_DoubleFalse += ["^\\*\\* You won't be asked if you want to double\\."]
+  FIBS_DoubleTrue += ["^\\*\\* You will be asked if you want to double\\."]
+  FIBS_GreedyTrue += ["^\\*\\* Will use automatic greedy bearoffs\\."]
+  FIBS_GreedyFalse += ["^\\*\\* Won't use automatic greedy bearoffs\\."]
+  FIBS_MoreboardsTrue += ["^\\*\\* Will send rawboards after rolling\\."]
+  FIBS_MoreboardsFalse += ["^\\*\\* Won't send rawboards after rolling\\."]
+  FIBS_MovesTrue += ["^\\*\\* You want a list of moves after this game\\."]
+  FIBS_MovesFalse += ["^\\*\\* You won't see a list of moves after this game\\."]
+  FIBS_NotifyFalse += ["^\\*\\* You won't be notified"]
+  FIBS_NotifyTrue += ["^\\*\\* You'll be notified"]
+  FIBS_RatingsTrue += ["^\\*\\* You'll see how the rating changes are calculated\\."]
+  FIBS_RatingsFalse += ["^\\*\\* You won't see how the rating changes are calculated\\."]
+  FIBS_ReadyTrue += ["^\\*\\* You're now ready to invite or join someone\\."]
+  FIBS_ReadyFalse += ["^\\*\\* You're now refusing to play with someone\\."]
+  FIBS_ReportFalse += ["^\\*\\* You won't be informed"]
+  FIBS_ReportTrue += ["^\\*\\* You will be informed"]
+  FIBS_SilentTrue += ["^\\*\\* You won't hear what other players shout\\."]
+  FIBS_SilentFalse += ["^\\*\\* You will hear what other players shout\\."]
+  FIBS_TelnetFalse += ["^\\*\\* You use a client program"]
+  FIBS_TelnetTrue += ["^\\*\\* You use telnet"]
+  FIBS_WrapFalse += ["^\\*\\* The server will wrap"]
+  FIBS_WrapTrue += ["^\\*\\* Your terminal knows how to wrap"]
   FIBS_PlayerRefusingGames = ["^\\*\\* [a-zA-Z_<>]+ is refusing games\\."]
   FIBS_NotWatching = ["^\\*\\* You're not watching\\."]
   FIBS_NotWatchingPlaying = ["^\\*\\* You're not watching or playing\\."]
@@ -416,13 +416,13 @@ class RunState(State):
   FIBS_MustMove = ["^\\*\\* You must give [1-4] moves"]
   FIBS_MustComeIn = ["^\\*\\* You have to remove pieces from the bar in your first move\\."]
   FIBS_UsersHeardYou = ["^\\*\\* [0-9]+ users? heard you\\."]
-  FIBS_Junk = ["^\\*\\* Please wait for [a-zA-Z_<>]+ to join too\\."]
+  FIBS_Junk += ["^\\*\\* Please wait for [a-zA-Z_<>]+ to join too\\."]
   FIBS_SavedMatchReady = ["^\\*\\*[a-zA-Z_<>]+ +[0-9]+ +[0-9]+ +- +[0-9]+"]
   # double star before a name indicates you have a saved game with this player
 
   FIBS_NotYourTurnToRoll = ["^\\*\\* It's not your turn to roll the dice\\."]
   FIBS_NotYourTurnToMove = ["^\\*\\* It's not your turn to move\\."]
-  FIBS_YouStopWatching = ["^\\*\\* You stop watching"]
+  FIBS_YouStopWatching += ["^\\*\\* You stop watching"]
   FIBS_UnknownCommand = ["^\\*\\* Unknown command:"]
   FIBS_CantWatch = ["^\\*\\* You can't watch another game while you're playing\\."]
   FIBS_CantInviteSelf = ["^\\*\\* You can't invite yourself\\."]
@@ -436,7 +436,7 @@ class RunState(State):
 
   FIBS_Ratings = ["^\\* *[0-9]+ +[a-zA-Z_<>]+ +[0-9]+\\.[0-9]+ +[0-9]+"]
   FIBS_NoSavedMatch = ["^\\*\\* There's no saved match with "]
-  FIBS_WARNINGSavedMatch = ["^\\*\\* WARNING: Don't accept if you want to continue"]
+  FIBS_WARNINGSavedMatch += ["^\\*\\* WARNING: Don't accept if you want to continue"]
   FIBS_CantGagYourself = ["^\\*\\* You talk too much, don't you\\?"]
   FIBS_CantBlindYourself = ["^\\*\\* You can't read this message now, can you\\?"]
 
-- 
2.43.0


From 41a3f4b8f34261c594cf0735b484c7261211182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 24/54] fix: a FIBS message gets the class that describes it
 best, whatever came before

---
 bglib/protocol/fibs.py | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index 5e5f828..e65f368 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -34,11 +34,19 @@ class State(object):
   def __init__(self):
     self.last_match = list()
     
+  # names to try after all the others, in this order, for another one describes
+  # some of their messages more closely.
+  general = ()
+
   def last_match_first(self):
     for name in self.last_match:
-      yield name, getattr(self, name)
+      if name not in self.general:
+        yield name, getattr(self, name)
     for name, value in self.__class__.__dict__.items():
-      yield name, value
+      if name not in self.general:
+        yield name, value
+    for name in self.general:
+      yield name, getattr(self, name)
     
   def candidates(self):
     # try to match latest match first.
@@ -84,13 +92,29 @@ class RunState(State):
       return 'FIBS_Empty'
     for name, regexp in self.candidates():
       try:
-        if re.match(regexp, message):
+        if regexp.search(message):
           self.bring_to_top(name)
           return name
       except re.error:
         logging.exception("%s can't match with %s"%(regexp, message))
     return 'FIBS_Unknown'
 
+  general = (# chat, which the counts of FIBS_Stat look like
+             'CLIP_LOGIN', 'CLIP_LOGOUT', 'CLIP_SAYS', 'CLIP_SHOUTS',
+             'CLIP_WHISPERS', 'CLIP_KIBITZES', 'CLIP_YOU_SAY', 'CLIP_YOU_SHOUT',
+             'CLIP_YOU_WHISPER', 'CLIP_YOU_KIBITZ',
+             # one that takes what the others leave
+             'FIBS_BAD_Board', 'FIBS_YouAcceptDouble', 'FIBS_PlayerAcceptsDouble',
+             'FIBS_WatchResign', 'FIBS_Doubles', 'FIBS_ShowMovesOther', 'FIBS_NoUser',
+             # a phrase anywhere in the message, so in chat too
+             'FIBS_YouStopWatching', 'FIBS_OpponentLogsOut', 'FIBS_FirstRoll',
+             'FIBS_MakesFirstMove', 'FIBS_ResignRefused',
+             'FIBS_PlayerStartsWatching', 'FIBS_PlayerStopsWatching',
+             'FIBS_PlayerIsWatching', 'FIBS_ResumeMatchAck0', 'FIBS_WatchGameWins',
+             'FIBS_PlayersStartingUnlimitedMatch', 'FIBS_Waves',
+             'FIBS_RatingCalcInfo', 'FIBS_AlreadyPlaying', 'FIBS_IsPlayingWith',
+             'FIBS_Goodbye', 'FIBS_PlayerLeftGame', 'FIBS_Why',
+             )
   FIBS_Board = ["^board:[a-zA-Z_<>]+:[a-zA-Z_<>]+:[0-9:\\-]+$"]
   FIBS_BAD_Board = ["^board:"]
   FIBS_YouRoll = ["^You roll [1-6] and [1-6]"]
@@ -98,7 +122,7 @@ class RunState(State):
   FIBS_RollOrDouble = ["^It's your turn to roll or double\\.",
                        "^It's your turn\\. Please roll or double",
                       ]
-  FIBS_AcceptRejectDouble = ["doubles\\. Type 'accept' or 'reject'\\."]
+  FIBS_AcceptRejectDouble = ["^[a-zA-Z_<>]+ doubles\\. Type 'accept' or 'reject'\\."]
   FIBS_Doubles = ["^[a-zA-Z_<>]+ doubles\\."]
   FIBS_PleaseMove = ["^Please move [1-4] pieces?\\."]
   FIBS_PlayerMoves = ["^[a-zA-Z_<>]+ moves"]
@@ -161,7 +185,7 @@ class RunState(State):
   FIBS_MatchResult = ["^[a-zA-Z_<>]+ wins a [0-9]+ point match against "]
   #PLAYER wins a 9 point match against PLAYER  11-6 .
 
-  FIBS_PlayerWantsToResign += ["wants to resign\\."]
+  FIBS_PlayerWantsToResign += ["^[a-zA-Z_<>]+ wants to resign\\.$"]
   #  Same as a longline in an actual game  This is just for watching.
 
   FIBS_BAD_AcceptDouble = ["^[a-zA-Z_<>]+ accepts? the double\\. The cube shows [0-9]+\\..+"]
-- 
2.43.0


From e210cd1ba7e1098d2159cee45aa31a0632dfa0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 25/54] fix: a subscriber may come and go while a message is
 dispatched

The dispatcher iterated over the live list, so a handler that unregistered a
subscriber made the next one miss the message.
---
 bglib/protocol/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 7be76ed..4cbe8b5 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -116,7 +116,9 @@ class Session(Transport):
     if self._termination_requested:
       self.terminated.set()
       thread.exit()
-    for subscriber in self.subscribers:
+    for subscriber in list(self.subscribers):
+      if subscriber not in self.subscribers:
+        continue # unregistered by one of the others.
       try:
         f = getattr(subscriber, name)
       except AttributeError:
-- 
2.43.0


From d9dd4862a3f8d87abf54736adca86ed004ffd335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 26/54] fix: sessions do not share one lock

A handler of one session that waits for a message of another blocked for ever,
because all sessions dispatched under the same lock.
---
 bglib/protocol/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 4cbe8b5..1cd388f 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -35,10 +35,10 @@ def synchronized_with(accessor):
 
 
 class Transport(telnetlib.Telnet):
-  _lock = threading.RLock()
   lock = lambda self, *args, **kw : self._lock
   
   def __init__(self, timeout=None, debug=None):
+    self._lock = threading.RLock()
     telnetlib.Telnet.__init__(self)
     if timeout:
       self.timeout = timeout
-- 
2.43.0


From a2f5aa6bd25dd8aa604989756a5882f816653af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 27/54] fix: a session says terminated however its listener
 ends

The event was set only when a message came in after close(); when the listener
saw the flag first, or the connection was gone, whoever waited did so for ever.
---
 bglib/protocol/session.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 1cd388f..ef45698 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -109,6 +109,8 @@ class Session(Transport):
       logging.exception('exception in listener thread:')
     except:
       logging.exception('exception in listener thread:')
+    finally:
+      self.terminated.set()
     thread.exit()
 
   @synchronized_with(Transport.lock)
-- 
2.43.0


From c366815d8aceb623672b7b965b072fd508dfecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 28/54] fix: text after a block that could not nest stays after
 it

---
 bglib/doc/doctree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 2b97462..41b5b6e 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -330,7 +330,7 @@ class Editor(object):
     node = self.current
     while node:
       if isinstance(node, *klasses):
-        self.current = node.parent
+        self.current = node.parent or node # nothing to return to from root
         return
       node = node.parent
       #implicitly leaving node.
@@ -342,6 +342,7 @@ class Editor(object):
     c = self.current
     while c and not c.is_acceptable(node):
       c = c.parent
+    node.parent = c
     c.append(node)
     self.current = c
     return node
-- 
2.43.0


From 12909eac81031ce735bc0b6bced30bd194e69ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 29/54] fix: a list may change its kind of item

---
 bglib/doc/doctree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 41b5b6e..083d838 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -157,10 +157,10 @@ class ItemizeElement(LineElement):
     
   def open(self):
     style = self.attrs['style']
-    if style is None:
+    m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
+    if style is None or m is None:
       return '<%s>'%(self.html_element)
     else:
-      m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
       return '<%s %s>'%(self.html_element, style[m])
 
 
-- 
2.43.0


From 89910b69c2daf97ec7d64e6356b7d9f2c1db07e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 30/54] fix: Position and Analysis without an argument are
 reported, not raised

---
 bglib/doc/macro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 70de7b1..0006f05 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -188,6 +188,8 @@ _arg_pattern = re.compile(
                       )
 
 def _parse_position(s):
+  if not s:
+    return None
   matchobj = _arg_pattern.match(s)
   if not matchobj:
     return None
-- 
2.43.0


From c4097ed4617dddf1e66ec45056651098e32f7c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 31/54] fix: Analysis of an unknown position is reported, not
 raised

---
 bglib/doc/macro.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 0006f05..888d5bc 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -221,7 +221,10 @@ def Analysis(editor, args):
   d = _parse_position(args)
   if not d:
     return False
-  cubeaction, analysis = _db.get_analysis(d['gnubgid'][:14], d['gnubgid'][15:27])
+  try:
+    cubeaction, analysis = _db.get_analysis(d['gnubgid'][:14], d['gnubgid'][15:27])
+  except KeyError:
+    return False
 
   if cubeaction:
     CubelessEquity(editor, **(analysis[0]))
-- 
2.43.0


From 2b471b866f2ea6dab1a6a9d031935afa5e8a7c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 32/54] fix: texts and attributes of external links are escaped
 once

---
 bglib/doc/bgwiki.py  | 13 ++++++-------
 bglib/doc/doctree.py |  2 +-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index c42bd5d..8903ead 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -462,13 +462,12 @@ class LineFormatter(BaseFormatter):
 
   def _handle_pattern_auto_anchor(self, match, matchobj):
     #t = string.Template('<a class="ext-link" href="$url"><span class="icon">$url</span></a>')
-    url=bglib.doc.html.escape(match)
     editor = self.editor
     a = editor.enter(bglib.doc.doctree.AnchorElement, 
                       **{'class':"ext-link", 'title':"title"})
-    a.set_url(url)
+    a.set_url(match)
     editor.enter(bglib.doc.doctree.SpanElement, **{'class':'icon'})
-    editor.append_text(match)
+    editor.append_text(bglib.doc.html.escape(match))
     editor.leave(bglib.doc.doctree.SpanElement)
     editor.leave(bglib.doc.doctree.AnchorElement)
 
@@ -489,16 +488,16 @@ class LineFormatter(BaseFormatter):
     editor = self.editor
     d = matchobj.groupdict()
     if d['disp']:
-      disp = bglib.doc.html.escape(d['disp'][1:])
+      disp = d['disp'][1:]
     else:
-      disp = bglib.doc.html.escape(d['url_1'])
+      disp = d['url_1']
     #t = string.Template('''<a class="ext-link" href="$url"><span class="icon">$disp</span></a>''')
     #return t.substitute(url=bglib.doc.html.escape(d['url_1']), disp=disp)
     a = editor.enter(bglib.doc.doctree.AnchorElement, 
                       **{'class':"ext-link", 'title':disp})
-    a.set_url("%s"%bglib.doc.html.escape(d['url_1']))
+    a.set_url(d['url_1'])
     editor.enter(bglib.doc.doctree.SpanElement, **{'class':'icon'})
-    editor.append_text(disp)
+    editor.append_text(bglib.doc.html.escape(disp))
     editor.leave(bglib.doc.doctree.SpanElement)
     editor.leave(bglib.doc.doctree.AnchorElement)
 
diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 083d838..b77488c 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -66,7 +66,7 @@ class BgWikiElementNode(Node):
       return ''
     if self.attrs:
       import bglib.doc.html as html
-      attrs = ' '.join(['%s="%s"'%(key, html.escape(item)) for key, item in self.attrs.items()])
+      attrs = ' '.join(['%s="%s"'%(key, html.escape(item).replace('"', '&quot;')) for key, item in self.attrs.items()])
       #attrs = ' '.join(['%s="%s"'%(key, item) for key, item in self.attrs.items()])
     else:
       attrs = ''
-- 
2.43.0


From a6ed1e5ffe2d2d9ed6f2afc1a19d718d871b2bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 33/54] fix: a page with a preformatted block can be rendered
 again

---
 bglib/doc/bgwiki.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 8903ead..165035f 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -96,15 +96,16 @@ class WrappingFormatterElement(bglib.doc.doctree.BgWikiElementNode, BaseFormatte
   def close(self):
     if self.wrapped is None:
       self.prepare_formatter()
-    self.wrapped.parse(self.buf)
-    return self.wrapped.make_html()
+    wrapped = self.wrapped()
+    wrapped.parse(self.buf)
+    return wrapped.make_html()
 
   def set_editor(self, editor):
     self.editor = editor
 
   def prepare_formatter(self, name=None):
     klass = self._known_formatters.get(name, PreformatFormatter)
-    self.wrapped = klass()
+    self.wrapped = klass
 
   def parse(self, input_line):
     if input_line:
-- 
2.43.0


From fcb80a9e9c6d858b8df59be293ab6f3dfbccfa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 34/54] fix: the table of contents takes any heading

---
 bglib/doc/macro.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 888d5bc..3836bc0 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -124,16 +124,13 @@ class TocVisitor(bglib.doc.doctree.Visitor):
   def de_anchor(self, node, parent):
       if isinstance(node, bglib.doc.doctree.Text):
         return node
-      elif isinstance(node, bglib.doc.doctree.AnchorElement):
-        text = ''
-        for n in node.children:
-          if isinstance(n, bglib.doc.doctree.Text):
-            text += n.text
-        return bglib.doc.doctree.Text(parent, text=text)
-      else:
-        pass
-      return None
-        
+      return bglib.doc.doctree.Text(parent, text=self.get_text(node))
+
+  def get_text(self, node):
+      if isinstance(node, bglib.doc.doctree.Text):
+        return node.text
+      return ''.join([self.get_text(n) for n in node.children])
+
 
   def enter(self, node):
     editor = self.editor
-- 
2.43.0


From 8c5d11ade8d6aec5defefcac52892623838f64de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 35/54] fix: a macro can be unregistered

---
 bglib/doc/macro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 3836bc0..83248e0 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -38,7 +38,7 @@ def register(handler):
   _handlers.update({_get_name(handler):handler})
 
 def unregister(name, handler):
-  _handlers.remove(_get_name(handler))
+  _handlers.pop(_get_name(handler), None)
 
 _db = None
 def setup(db):
-- 
2.43.0


From 0690550c2b963c89465946638f7179774ae94cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 36/54] fix: the table of contents also leads to the headings
 before it

---
 bglib/doc/bgwiki.py |  1 +
 bglib/doc/macro.py  | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 165035f..785ae42 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -31,6 +31,7 @@ class BaseFormatter(bglib.doc.Formatter):
   def make_html(self):
     self.editor.leave(bglib.doc.doctree.BgWikiElementRoot)
     self.editor.done()
+    self.editor.accept(bglib.doc.macro.FragmentVisitor())
     writer = bglib.doc.doctree.HtmlWriter() # Visit
     self.editor.accept(writer)
     return writer.html()
diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 83248e0..f39a9ac 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -148,7 +148,7 @@ class TocVisitor(bglib.doc.doctree.Visitor):
       self.fragment_count += 1
 
 class TableOfContentNode(bglib.doc.doctree.BgWikiElementMacroNode):
-  def open(self):
+  def make_toc(self):
     editor = TocEditor()
     toc = bglib.doc.doctree.BgWikiElementRoot()
     editor.start(toc)
@@ -165,11 +165,19 @@ class TableOfContentNode(bglib.doc.doctree.BgWikiElementMacroNode):
 
     editor.leave(bglib.doc.doctree.ListElement)
     editor.done()
+    return toc
 
+  def open(self):
     writer = bglib.doc.doctree.HtmlWriter()
-    toc.accept(writer)
+    self.make_toc().accept(writer)
     return writer.html()
 
+class FragmentVisitor(bglib.doc.doctree.Visitor):
+  '''gives the headings their ids, also those before the table of content'''
+  def enter(self, node):
+    if isinstance(node, TableOfContentNode):
+      node.make_toc()
+
 
 def TableOfContent(editor, args):
   editor.append(TableOfContentNode, editor=editor)
-- 
2.43.0


From 92a2553ea09a4aef6a417ccf3f8e55a0d71da72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 37/54] fix: a formatter that was reset renders what it is
 given next

---
 bglib/doc/bgwiki.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 785ae42..2ba5930 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -520,6 +520,10 @@ class Formatter(BaseFormatter):
    # , self.macroprocessor)
     self.preformat_formatter = None
 
+  def reset(self):
+    BaseFormatter.reset(self)
+    self.line_formatter.editor = self.editor
+
   def get_formatter(self):
     if isinstance(self.editor.current, WrappingFormatterElement):
       return self.editor.current
-- 
2.43.0


From d0af4f4aa95053116b2412899fe84387817ba065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:17 +0000
Subject: [PATCH 38/54] fix: text after a definition list or a table is not put
 inside of it

---
 bglib/doc/bgwiki.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 2ba5930..6cfe36b 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -220,6 +220,12 @@ class LineFormatter(BaseFormatter):
                       bglib.doc.doctree.DefinitionBodyElement))
       if input_line[0] not in '>':
         editor.leave((bglib.doc.doctree.CitationElement, ))
+      if isinstance(editor.current, bglib.doc.doctree.DefinitionListElement) \
+         and not input_line.endswith('::'):
+        editor.leave(bglib.doc.doctree.DefinitionListElement)
+      if isinstance(editor.current, bglib.doc.doctree.TableElement) \
+         and not input_line.lstrip().startswith('||'):
+        editor.leave(bglib.doc.doctree.TableElement)
 
       if input_line.endswith('::'):
         self.start_definition_header()
-- 
2.43.0


From 1902353ddf43ba8d6c2826a65b06586c2563d177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:17 +0000
Subject: [PATCH 39/54] fix: text after a nested citation is outside of all of
 it

---
 bglib/doc/bgwiki.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 6cfe36b..7e7ba87 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -219,7 +219,8 @@ class LineFormatter(BaseFormatter):
         editor.leave((bglib.doc.doctree.BlockQuoteElement, 
                       bglib.doc.doctree.DefinitionBodyElement))
       if input_line[0] not in '>':
-        editor.leave((bglib.doc.doctree.CitationElement, ))
+        while editor.ancestor(bglib.doc.doctree.CitationElement):
+          editor.leave((bglib.doc.doctree.CitationElement, ))
       if isinstance(editor.current, bglib.doc.doctree.DefinitionListElement) \
          and not input_line.endswith('::'):
         editor.leave(bglib.doc.doctree.DefinitionListElement)
-- 
2.43.0


From 240f318fd529c7ca770f124cd33c99948eda4817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:30 +0000
Subject: [PATCH 40/54] fix: an item less indented than the one before stays in
 the list of its depth

---
 bglib/doc/bgwiki.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 7e7ba87..b933654 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -376,7 +376,8 @@ class LineFormatter(BaseFormatter):
     nest = self._unnest(indent, nest, bglib.doc.doctree.ListElement)
 
     if indent == nest:
-      editor.leave(bglib.doc.doctree.ItemizeElement)
+      if not isinstance(editor.current, bglib.doc.doctree.ListElement):
+        editor.leave(bglib.doc.doctree.ItemizeElement)
     elif indent > nest:
       while indent > nest + 1:
         #bad indentation, push ListElement to balance.
-- 
2.43.0


From 47cc7698147d4f5c52dce51862dabcc615150d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:31 +0000
Subject: [PATCH 41/54] fix: Position takes the format, width and height it is
 given

---
 bglib/doc/macro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index f39a9ac..67e41ec 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -187,9 +187,9 @@ register(TableOfContent)
 _arg_pattern = re.compile(
                       r"(?P<gnubgid>[a-zA-Z0-9/+]{14}:[a-zA-Z0-9/+]{12})"
                       r"(,[ ]*css=(?P<css>[a-zA-Z]+))?"
-                      r"(,[ ]*format(?P<format>[a-zA-Z]+))?"
-                      r"(,[ ]*width(?P<width>[0-9]+))?"
-                      r"(,[ ]*height(?P<height>[0-9]+))?"
+                      r"(,[ ]*format=(?P<format>[a-zA-Z]+))?"
+                      r"(,[ ]*width=(?P<width>[0-9]+))?"
+                      r"(,[ ]*height=(?P<height>[0-9]+))?"
                       )
 
 def _parse_position(s):
-- 
2.43.0


From 19fb48ed8071407010d50f1ed50afad5cd4d1999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:44 +0000
Subject: [PATCH 42/54] fix: a style sheet can turn flip, fill and hide_count
 off

---
 bglib/image/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 7e4647d..0224737 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -133,7 +133,7 @@ class URIAttribute(StringAttribute):
   
 class BoolAttribute(BaseAttribute):
   def parse(self, s):
-    return bool(s)
+    return s != 'False'
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
@@ -149,7 +149,7 @@ class HideCountAttribute(BoolAttribute):
   default = False
   name = 'hide_count'
   def parse(self, s):
-    return bool(s)
+    return s != 'False'
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
-- 
2.43.0


From 9003a9e8586110610510672e30285b0abeaec296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:44 +0000
Subject: [PATCH 43/54] fix: a later rule may change the image or font of an
 element

---
 bglib/image/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 0224737..3894bec 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -228,8 +228,7 @@ class BaseElement(object):
     for name, value in d.items():
       if name not in self.DTD_ATTLIST:
         raise KeyError('no such attribute %s in %s'%(name, self.name))
-      a = self.attributes.get(name, self.DTD_ATTLIST[name](css_path=css_path))
-      assert a
+      a = self.DTD_ATTLIST[name](css_path=css_path)
       v = a.parse(value)
       setattr(self, name, v)
 
-- 
2.43.0


From 7fe92cd77298b23f289ef3d497ecd9808eb22c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:44 +0000
Subject: [PATCH 44/54] fix: values in selectors may be quoted, as the
 documentation shows

---
 bglib/image/css.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/image/css.py b/bglib/image/css.py
index d51848f..f4e73da 100644
--- a/bglib/image/css.py
+++ b/bglib/image/css.py
@@ -188,8 +188,8 @@ class CSSParser(object):
     assert s
     r = re.compile("""
         (?P<element>[_a-zA-Z]+)
-        (?P<attribute>\[(?P<name>[\-_0-9a-zA-Z]+)=(?P<value>[\-_a-zA-Z0-9]+)\])?
-        (:data\((?P<data>[^)]+)\))?
+        (?P<attribute>\[(?P<name>[\-_0-9a-zA-Z]+)=(?P<vq>["']?)(?P<value>[\-_a-zA-Z0-9]+)(?P=vq)\])?
+        (:data\((?P<dq>["']?)(?P<data>[^)]+)(?P=dq)\))?
       """, re.VERBOSE)
     m = r.search(s)
     if m:
-- 
2.43.0


From faac50e0d059d90ad54693bce1de2e66d081b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:44 +0000
Subject: [PATCH 45/54] fix: a picture can have any size, whatever the rounding
 of its scale

---
 bglib/image/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 3894bec..39e34d6 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -312,8 +312,8 @@ class Board(BaseElement):
     assert xmag > 0.0
     assert ymag > 0.0
     self.mag = min(xmag, ymag)
-    assert self.width * self.mag <= bound[0]
-    assert self.height * self.mag <= bound[1]
+    assert self.apply_mag(self.width) <= bound[0]
+    assert self.apply_mag(self.height) <= bound[1]
 
 Element.register(Board)
 
-- 
2.43.0


From b790653bf23f46477779100c67fd12af7dfc4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:37 +0000
Subject: [PATCH 46/54] fix: Nori's numbers of positions with all fifteen
 chequers are read back

---
 bglib/encoding/bearoff/nori.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/bearoff/nori.py b/bglib/encoding/bearoff/nori.py
index 2f90d2b..52003fa 100644
--- a/bglib/encoding/bearoff/nori.py
+++ b/bglib/encoding/bearoff/nori.py
@@ -32,7 +32,7 @@ def oneside_upto6_t2k(t):
 
 
 def oneside_upto6_k2t(n):
-  for c in range(15):
+  for c in range(16):
     if n < sigmaD[c]:
       k = 0
       xs = [0, 0, 0, 0, 0, 0]
-- 
2.43.0


From 1feec27bda905bb9a751a7a888c59a69b63140eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 47/54] fix: asking how to bear off takes no dice from those it
 was given

---
 bglib/model/move.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index da89af0..9bda781 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -314,6 +314,7 @@ class MoveFactory(object):
       if src is not None: # src== 0 is valid,as ace point
         return PartialMove(die, src, dest, False)
       else:
+        available = AvailableToPlay(rolled=None, copy_src=available)
         available.consume(die)
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
-- 
2.43.0


From be9e69101371d4fc449f0af4882a28a5e675e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 48/54] fix: a move factory given no dice to play has none, not
 the whole roll

---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 9bda781..9815f53 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -178,7 +178,7 @@ class MoveFactory(object):
       self.move = Move(src=move)
     else:
       self.move = Move()
-    if available:
+    if available is not None:
       self.available = AvailableToPlay(copy_src=available)
     else:
       self.available = AvailableToPlay(self.board.rolled)
-- 
2.43.0


From c0a0b9b6bea5560158ef3ec0471b488230b2e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 49/54] fix: a board editor can be copied with the copy module

---
 bglib/model/boardeditor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bglib/model/boardeditor.py b/bglib/model/boardeditor.py
index 322e447..d6d6a86 100644
--- a/bglib/model/boardeditor.py
+++ b/bglib/model/boardeditor.py
@@ -36,6 +36,12 @@ class BoardEditor(AbstractBoard):
     print '%s:%s'%(name, value)
     self.__dict__['_d'][name] = value
 
+  def __copy__(self):
+    return BoardEditor(self)
+
+  def __deepcopy__(self, memo):
+    return BoardEditor(self)
+
   def freeze(self):
     return Board(**self._d)
 
-- 
2.43.0


From ec2e9e66b5112fde39f6408ea370e10b4164feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 50/54] fix: words at the ends of lines of a wiki page are kept
 apart

---
 bglib/doc/bgwiki.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index b933654..d9ad75c 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -228,6 +228,10 @@ class LineFormatter(BaseFormatter):
          and not input_line.lstrip().startswith('||'):
         editor.leave(bglib.doc.doctree.TableElement)
 
+      children = editor.current.children
+      if children and isinstance(children[-1], bglib.doc.doctree.Text):
+        editor.append_text('\n') # words of different lines stay apart
+
       if input_line.endswith('::'):
         self.start_definition_header()
       for matchobj in self.get_regexp().finditer(input_line):
-- 
2.43.0


From ad2bcff09900e8db374710681f56010c20d7fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:15 +0000
Subject: [PATCH 51/54] fix: selectors may ask for values with dots and other
 signs

---
 bglib/image/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/image/css.py b/bglib/image/css.py
index f4e73da..abcc1cd 100644
--- a/bglib/image/css.py
+++ b/bglib/image/css.py
@@ -188,7 +188,7 @@ class CSSParser(object):
     assert s
     r = re.compile("""
         (?P<element>[_a-zA-Z]+)
-        (?P<attribute>\[(?P<name>[\-_0-9a-zA-Z]+)=(?P<vq>["']?)(?P<value>[\-_a-zA-Z0-9]+)(?P=vq)\])?
+        (?P<attribute>\[(?P<name>[\-_0-9a-zA-Z]+)=(?P<vq>["']?)(?P<value>[^\]"']+)(?P=vq)\])?
         (:data\((?P<dq>["']?)(?P<data>[^)]+)(?P=dq)\))?
       """, re.VERBOSE)
     m = r.search(s)
-- 
2.43.0


From 31724ff73dff5a0674a1971b0a14d4edd19ba551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:23 +0000
Subject: [PATCH 52/54] fix: pages which differ by a bare <, > or & are not the
 same

---
 bglib/doc/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/html.py b/bglib/doc/html.py
index e990235..02512f6 100644
--- a/bglib/doc/html.py
+++ b/bglib/doc/html.py
@@ -38,7 +38,7 @@ ATTRVALUE = r'(?P<attrvalue>[a-zA-Z0-9:;./\-]+)'
 ATTRIBUTE = r'(?P<attribute>' + ATTRNAME + '="' + ATTRVALUE + '")'
 ATTRIBUTE_LIST = '(?P<attribute_list>(' + ATTRIBUTE + '[ ]*)*)'
 TAG = '(?P<tag><' + ELEMENT + '( ' +  ATTRIBUTE_LIST + ')?>)'
-TEXT = '(?P<text>[^<>&]*)'
+TEXT = '(?P<text>[^<>&]+|[<>&])'
 TAG_OR_TEXT = '(' + TAG + '|' + TEXT + ')'
 
 r_attribute =re.compile(ATTRIBUTE)
-- 
2.43.0


From 4d4e3591f4ea6e353d121c21f1ac43bcd3e002dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:19 +0000
Subject: [PATCH 53/54] fix: values and texts of a picture's XML are escaped

---
 bglib/image/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 39e34d6..ed15d6a 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -6,6 +6,7 @@
 #
 
 import os.path
+from xml.sax.saxutils import escape, quoteattr
 
 import bglib.image.css
 import bglib.model.constants
@@ -235,13 +236,13 @@ class BaseElement(object):
   def format(self, indent):
     s = ' '*indent + "<%s"%(self.name)
     for n, v in self.attributes.items():
-      s+= ' %s="%s"'%(n, str(v))
+      s+= ' %s=%s'%(n, quoteattr(str(v)))
     s+=">\n"
     for c in self.children:
       if isinstance(c, BaseElement):
         s += c.format(indent+2)
       else:
-        s += ' '*(indent +2) + str(c) + '\n'
+        s += ' '*(indent +2) + escape(str(c)) + '\n'
     s+= ' '*indent + "</%s>\n"%(self.name)
     return s
 
-- 
2.43.0


From 8e23eeef8880d36383e0a8cbaaa71fa0f4bd2b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:56 +0000
Subject: [PATCH 54/54] fix: the shorter genes of a gene are of its kind

---
 bglib/doc/fuzzing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/fuzzing.py b/bglib/doc/fuzzing.py
index 6dbf3b3..aa5a837 100644
--- a/bglib/doc/fuzzing.py
+++ b/bglib/doc/fuzzing.py
@@ -75,7 +75,9 @@ class Gene(object):
 
   def iter_subset(self):
     for i, c in enumerate(self.code):
-      yield Gene(self.code[:i] + self.code[i+1:])
+      g = self.__class__(0)
+      g.code = self.code[:i] + self.code[i+1:]
+      yield g
   
   def shorter_fails(self):
     for sub in iter_subset(g):
-- 
2.43.0

