From c94e2c3fc9f9e312a29e1fc003f6f829712dd7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 001/186] fix: CaptureGame no longer counts refused moves as
 done

---
 pybrain/rl/environments/twoplayergames/capturegame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegame.py b/pybrain/rl/environments/twoplayergames/capturegame.py
index 9dd9660..8841c34 100644
--- a/pybrain/rl/environments/twoplayergames/capturegame.py
+++ b/pybrain/rl/environments/twoplayergames/capturegame.py
@@ -75,12 +75,12 @@ class CaptureGame(TwoPlayerGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
+        if pos != 'resign' and not self.isLegal(c, pos):
+            return False
         self.movesDone += 1
         if pos == 'resign':
             self.winner = -c
             return True
-        elif not self.isLegal(c, pos):
-            return False
         elif self._suicide(c, pos):
             assert self.suicideenabled
             self.b[pos] = 'y'
-- 
2.43.0


From d0d346a646795d8af4fe6bf56eea896bd402d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 002/186] fix: CaptureGame.getLegals leaves out suicides where
 suicide is disabled

---
 pybrain/rl/environments/twoplayergames/capturegame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegame.py b/pybrain/rl/environments/twoplayergames/capturegame.py
index 8841c34..6d70b00 100644
--- a/pybrain/rl/environments/twoplayergames/capturegame.py
+++ b/pybrain/rl/environments/twoplayergames/capturegame.py
@@ -202,7 +202,7 @@ class CaptureGame(TwoPlayerGame):
 
     def getLegals(self, c):
         """ return all the legal positions for a color """
-        return [p for p in self._iterPos() if self.b[p] == self.EMPTY]
+        return [p for p in self._iterPos() if self.isLegal(c, p)]
 
     def getAcceptable(self, c):
         """ return all legal positions for a color that don't commit suicide. """
-- 
2.43.0


From 8a087af7a049a4cc26f47a8bef2912f325e6916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 003/186] fix: Gomoku and Pente no longer count refused moves,
 which announced draws too early

---
 pybrain/rl/environments/twoplayergames/gomoku.py | 4 ++--
 pybrain/rl/environments/twoplayergames/pente.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/gomoku.py b/pybrain/rl/environments/twoplayergames/gomoku.py
index c9d6bdb..451b940 100644
--- a/pybrain/rl/environments/twoplayergames/gomoku.py
+++ b/pybrain/rl/environments/twoplayergames/gomoku.py
@@ -79,10 +79,10 @@ class GomokuGame(TwoPlayerGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if not self.isLegal(c, pos):
             return False
-        elif self._fiveRow(c, pos):
+        self.movesDone += 1
+        if self._fiveRow(c, pos):
             self.winner = c
             self.b[pos] = 'x'
             return True
diff --git a/pybrain/rl/environments/twoplayergames/pente.py b/pybrain/rl/environments/twoplayergames/pente.py
index e02190a..cb95185 100644
--- a/pybrain/rl/environments/twoplayergames/pente.py
+++ b/pybrain/rl/environments/twoplayergames/pente.py
@@ -50,10 +50,10 @@ class PenteGame(GomokuGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if not self.isLegal(c, pos):
             return False
-        elif self._fiveRow(c, pos):
+        self.movesDone += 1
+        if self._fiveRow(c, pos):
             self.winner = c
             self.b[pos] = 'x'
             return True
-- 
2.43.0


From 61aeeb01c7a68d345ca94108077e25bc4678d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 004/186] fix: PolarMaze turned right on TurnLeft and left on
 TurnRight

---
 pybrain/rl/environments/mazes/polarmaze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/mazes/polarmaze.py b/pybrain/rl/environments/mazes/polarmaze.py
index 5f13f35..45054e0 100644
--- a/pybrain/rl/environments/mazes/polarmaze.py
+++ b/pybrain/rl/environments/mazes/polarmaze.py
@@ -38,9 +38,9 @@ class PolarMaze(Maze):
             else:
                 self.bang = True
         elif act == self.TurnLeft:
-            self.perseusDir = (self.perseusDir + 1) % 4
-        elif act == self.TurnRight:
             self.perseusDir = (self.perseusDir - 1) % 4
+        elif act == self.TurnRight:
+            self.perseusDir = (self.perseusDir + 1) % 4
         elif act == self.TurnAround:
             self.perseusDir = (self.perseusDir + 2) % 4
 
-- 
2.43.0


From 6df17019c982b25f6ae2322d9d072243c9585591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 005/186] fix: MDPMazeTask observations are unique on
 non-square mazes

---
 pybrain/rl/environments/mazes/tasks/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/mdp.py b/pybrain/rl/environments/mazes/tasks/mdp.py
index 23a97ec..0d32a0f 100644
--- a/pybrain/rl/environments/mazes/tasks/mdp.py
+++ b/pybrain/rl/environments/mazes/tasks/mdp.py
@@ -28,7 +28,7 @@ class MDPMazeTask(Task):
         """ The agent receives its position in the maze, to make this a fully observable
             MDP problem.
         """
-        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[0] + self.env.perseus[1]])
+        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[1] + self.env.perseus[1]])
         return obs
 
 
-- 
2.43.0


From 4c83e2306679b431d1273051474e0b13632d9b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 006/186] fix: TMaze rewarded a wrong turn like the goal the
 second time the reward was read

---
 pybrain/rl/environments/mazes/tasks/tmaze.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pybrain/rl/environments/mazes/tasks/tmaze.py b/pybrain/rl/environments/mazes/tasks/tmaze.py
index 6dda091..9042c31 100644
--- a/pybrain/rl/environments/mazes/tasks/tmaze.py
+++ b/pybrain/rl/environments/mazes/tasks/tmaze.py
@@ -58,10 +58,14 @@ class TMaze(MazeTask):
             res[3] = 1
         return res
 
+    def _badChoice(self):
+        return (self.env.perseus[1] == self.length + 1
+                and abs(self.env.perseus[0] - self.env.goal[0]) == 2)
+
+    def isFinished(self):
+        return self._badChoice() or MazeTask.isFinished(self)
+
     def getReward(self):
-        if self.env.perseus[1] == self.length + 1:
-            if abs(self.env.perseus[0] - self.env.goal[0]) == 2:
-                # bad choice taken
-                self.env.perseus = self.env.goal
-                return self.bangPenalty
+        if self._badChoice():
+            return self.bangPenalty
         return MazeTask.getReward(self)
-- 
2.43.0


From 2c927a6118aca996ac82fb8cf9fceb93cf47a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 007/186] fix: FourByThreeMaze noise never moves against the
 intended direction

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index 5fbfe30..63d802a 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -40,7 +40,7 @@ class FourByThreeMaze(MazeTask):
     def performAction(self, action):
         poss = []
         for a in range(self.actions):
-            if action - a % 4 != 2:
+            if (action - a) % 4 != 2:
                 poss.append(a)
         if random() < self.stochAction * len(poss):
             MazeTask.performAction(self, choice(poss))
-- 
2.43.0


From 4c2180fdbefcbcea494992a3f558a16c1c29ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 008/186] fix: ShuttleDocking turned around when told to go
 forward

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index f13a6fe..da5859f 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -91,7 +91,7 @@ class ShuttleDocking(MazeTask):
 
     def _forward(self):
         old = self.env.perseus
-        self.env.performAction(PolarMaze.TurnAround)
+        self.env.performAction(PolarMaze.Forward)
         if self.env.perseus == self.env.goal or self.env.perseus == self.env.initPos[0]:
             self.env.perseus = old
             self.env.bang = True
-- 
2.43.0


From db9d262d741a2afb6f477ad8a7de42e40816cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 009/186] fix: ShuttleDocking repeated the bump penalty after a
 failed backup

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index da5859f..5232f57 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -57,6 +57,7 @@ class ShuttleDocking(MazeTask):
 
     def performAction(self, action):
         self.steps += 1
+        self.env.bang = False
         if action == self.TurnAround:
             self._turn()
         elif action == self.Forward:
-- 
2.43.0


From 0a38aea7a2bb02ea4a1f8944478c21e46451638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 010/186] fix: FourByThreeMaze applied its noise twice and
 ignored the absorbing bad spot

---
 pybrain/rl/environments/mazes/tasks/maze.py    |  2 +-
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze.py b/pybrain/rl/environments/mazes/tasks/maze.py
index 8b91c16..6e14ff1 100644
--- a/pybrain/rl/environments/mazes/tasks/maze.py
+++ b/pybrain/rl/environments/mazes/tasks/maze.py
@@ -30,7 +30,7 @@ class MazeTask(POMDPTask):
         self.setArgs(**args)
         Task.__init__(self, self.mazeclass(self.topology, self.goal, initPos=self.initPos,
                                            stochObs=self.stochObs, stochAction=self.stochAction))
-        self.minReward = min(self.bangPenalty, self.defaultPenalty)
+        self.minReward = min(self.minReward, self.bangPenalty, self.defaultPenalty)
         self.reset()
 
     def getReward(self):
diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index 63d802a..5feea9f 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -32,10 +32,12 @@ class FourByThreeMaze(MazeTask):
                       [1, 0, 0, 0, 0, 1],
                       [1] * 6, ])
     goal = (3, 4)
+    badPos = (2, 4)
 
-    def reset(self):
-        MazeTask.reset(self)
-        self.bad = False
+    def __init__(self, **args):
+        MazeTask.__init__(self, **args)
+        # the noise is applied to the action here, not once more by the maze
+        self.env.stochAction = 0.
 
     def performAction(self, action):
         poss = []
@@ -47,6 +49,13 @@ class FourByThreeMaze(MazeTask):
         else:
             MazeTask.performAction(self, action)
 
+    @property
+    def bad(self):
+        return self.env.perseus == self.badPos
+
+    def isFinished(self):
+        return self.bad or MazeTask.isFinished(self)
+
     def getReward(self):
         if self.bad:
             return self.minReward
-- 
2.43.0


From 2e4394fbead274105507dfa7d8fbdeb9098f0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 011/186] fix: Tiger, Shuttle and 4x3 tasks accumulate their
 reward and take 1-in-n actions like other POMDP tasks

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 5 ++++-
 pybrain/rl/environments/mazes/tasks/shuttle.py | 7 ++++++-
 pybrain/rl/environments/mazes/tasks/tiger.py   | 8 +++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index 5feea9f..39b4d68 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -1,9 +1,10 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from random import random, choice
-from scipy import array, zeros
+from scipy import array, zeros, ndarray
 
 from .maze import MazeTask
+from pybrain.utilities import drawIndex
 
 
 class FourByThreeMaze(MazeTask):
@@ -40,6 +41,8 @@ class FourByThreeMaze(MazeTask):
         self.env.stochAction = 0.
 
     def performAction(self, action):
+        if type(action) == ndarray:
+            action = drawIndex(action, tolerant=True)
         poss = []
         for a in range(self.actions):
             if (action - a) % 4 != 2:
diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index 5232f57..963465c 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -1,9 +1,10 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from scipy import array, zeros
+from scipy import array, zeros, ndarray
 from random import random
 
 from .maze import MazeTask
+from pybrain.utilities import drawIndex
 from pybrain.rl.environments.mazes import PolarMaze
 
 
@@ -56,6 +57,8 @@ class ShuttleDocking(MazeTask):
         return res
 
     def performAction(self, action):
+        if type(action) == ndarray:
+            action = drawIndex(action, tolerant=True)
         self.steps += 1
         self.env.bang = False
         if action == self.TurnAround:
@@ -81,6 +84,8 @@ class ShuttleDocking(MazeTask):
                 # close to station, back to station
                 if r < 0.7:
                     self._backup()
+        self.samples += 1
+        self.addReward()
 
     def _backup(self):
         self.env.performAction(PolarMaze.TurnAround)
diff --git a/pybrain/rl/environments/mazes/tasks/tiger.py b/pybrain/rl/environments/mazes/tasks/tiger.py
index 6d0b056..68cd1f8 100644
--- a/pybrain/rl/environments/mazes/tasks/tiger.py
+++ b/pybrain/rl/environments/mazes/tasks/tiger.py
@@ -1,9 +1,10 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from random import choice, random
-from scipy import array
+from scipy import array, ndarray
 
 from .pomdp import POMDPTask
+from pybrain.utilities import drawIndex
 
 
 class TigerTask(POMDPTask):
@@ -25,11 +26,14 @@ class TigerTask(POMDPTask):
     def reset(self):
         self.steps = 0
         self.cumreward = 0
+        self.samples = 0
         self.tigerLeft = choice([True, False])
         self.done = False
         self.nextReward = -1
 
     def performAction(self, action):
+        if type(action) == ndarray:
+            action = drawIndex(action, tolerant=True)
         self.steps += 1
         if action != self.Listen:
             self.done = True
@@ -38,6 +42,8 @@ class TigerTask(POMDPTask):
                 self.nextReward = -100
             else:
                 self.nextReward = 10
+        self.samples += 1
+        self.addReward()
 
     def getObservation(self):
         """ do we think we heard something on the left or on the right?  """
-- 
2.43.0


From aba617e1c5e22cf3b7494aace3be5c1b11e4d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 012/186] fix: SequentialDataSet used float sequence offsets as
 indices, failing for every set of several sequences

---
 pybrain/datasets/sequential.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybrain/datasets/sequential.py b/pybrain/datasets/sequential.py
index 03b2144..0b04d93 100644
--- a/pybrain/datasets/sequential.py
+++ b/pybrain/datasets/sequential.py
@@ -46,7 +46,7 @@ class SequentialDataSet(SupervisedDataSet):
         if len(seq) < index + 1:
             # sequence index beyond number of sequences. raise exception
             raise IndexError('sequence does not exist.')
-        return self.getField(field)[seq[index]:seq[index + 1]]
+        return self.getField(field)[int(seq[index]):int(seq[index + 1])]
 
     def getSequence(self, index):
         """Returns the sequence given by `index`.
@@ -80,7 +80,7 @@ class SequentialDataSet(SupervisedDataSet):
     def gotoSequence(self, index):
         """Move the internal marker to the beginning of sequence `index`."""
         try:
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
         except IndexError:
             raise IndexError('sequence does not exist')
 
@@ -114,7 +114,7 @@ class SequentialDataSet(SupervisedDataSet):
             # sequence doesn't exist, raise exception
             raise IndexError('sequence does not exist.')
         sequences = ravel(self.getField('sequence_index'))
-        seqstart = sequences[index]
+        seqstart = int(sequences[index])
         if index == self.getNumSequences() - 1:
             # last sequence is going to be removed
             lastSeqDeleted = True
@@ -122,7 +122,7 @@ class SequentialDataSet(SupervisedDataSet):
         else:
             lastSeqDeleted = False
             # sequence to remove is not last one (sequence_index exists)
-            seqend = sequences[index + 1]
+            seqend = int(sequences[index + 1])
 
         # cut out data from all fields
         for label in self.link:
@@ -154,7 +154,7 @@ class SequentialDataSet(SupervisedDataSet):
             # move sequence marker to the new sequence at position 'index'
             self.currentSeq = index
             # move sample marker to beginning of sequence at position 'index'
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
 
 
     def clear(self):
-- 
2.43.0


From e4cf8d6963b7b15a63f97c9080515df13c886c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 013/186] fix: DataSet length without links is that of the
 longest field

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 6a11890..4d673ad 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -160,7 +160,7 @@ class DataSet(Serializable):
         return the length of the longest field."""
         if self.link == []:
             try:
-                length = self.endmarker[max(self.endmarker)]
+                length = max(self.endmarker.values())
             except ValueError:
                 return 0
             return length
-- 
2.43.0


From 91983ae83c25b89a7fabd29a251b6df0b087c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 014/186] fix: DataSet.convertField turned unused capacity into
 rows

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 4d673ad..83da8bf 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -261,7 +261,7 @@ class DataSet(Serializable):
     def convertField(self, label, newtype):
         """Convert the given field to a different data type."""
         try:
-            self.setField(label, self.data[label].astype(newtype))
+            self.setField(label, self.data[label][:self.endmarker[label]].astype(newtype))
         except KeyError:
             raise KeyError('convertField: dataset field %s not found.' % label)
 
-- 
2.43.0


From f1f5880265b8b9222c6e4c80e78b03106ca3e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 015/186] fix: DataSet.appendLinked left linked fields out of
 sync when a row was refused

---
 pybrain/datasets/dataset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 83da8bf..e8b2306 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -212,8 +212,14 @@ class DataSet(Serializable):
     def appendLinked(self, *args):
         """Add rows to all linked fields at once."""
         assert len(args) == len(self.link)
-        for i, l in enumerate(self.link):
-            self._appendUnlinked(l, args[i])
+        endmarker = dict(self.endmarker)
+        try:
+            for i, l in enumerate(self.link):
+                self._appendUnlinked(l, args[i])
+        except Exception:
+            # keep the linked fields in sync
+            self.endmarker.update(endmarker)
+            raise
 
     def getLinked(self, index=None):
         """Access the dataset randomly or sequential.
-- 
2.43.0


From bda54356b0ce9e5376fc22a89f47b900f2f3ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 016/186] fix: DataSet.getLinked read unused capacity for
 negative indices and moved the marker when refusing

---
 pybrain/datasets/dataset.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index e8b2306..c0ba351 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -234,12 +234,13 @@ class DataSet(Serializable):
         if index == None:
             # no index given, return the currently marked line and step marker one line forward
             index = self.index
-            self.index += 1
-        else:
-            # return the indexed line and move marker to next line
-            self.index = index + 1
-        if index >= self.getLength():
+        elif index < 0:
+            # count from the end of the data, not of the allocated array
+            index += self.getLength()
+        if not 0 <= index < self.getLength():
             raise IndexError('index out of bounds of the dataset.')
+        # move marker to next line
+        self.index = index + 1
 
         return [self._convert(self.data[l][index]) for l in self.link]
 
-- 
2.43.0


From 8c2b51133546ecdbdb501c2b4af606a661a40fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 017/186] fix: DataSet could not be pickled and its subclasses
 lost their vector format in copies

---
 pybrain/datasets/dataset.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index c0ba351..e275430 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -318,18 +318,21 @@ class DataSet(Serializable):
         Serializable.save_pickle(self, flo, protocol)
 
     def __reduce__(self):
-        def creator():
-            obj = self.__class__()
-            obj.vectorformat = self.vectorformat
-            return obj
+        creator = self.__class__
         args = tuple()
         state = {
+            'vectorformat': self.vectorformat,
             'data': self.data,
             'link': self.link,
             'endmarker': self.endmarker,
         }
         return creator, args, state, iter([]), iter({})
 
+    def __setstate__(self, state):
+        state = dict(state)
+        self.vectorformat = state.pop('vectorformat', self.vectorformat)
+        self.__dict__.update(state)
+
     def copy(self):
         """Return a deep copy."""
         import copy
-- 
2.43.0


From f42d43fdfd566dafc5c449a506bbd562232a5a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 018/186] fix: DataSet.randomBatches never randomised the order

---
 pybrain/datasets/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index e275430..064b4be 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -369,7 +369,8 @@ class DataSet(Serializable):
 
     def randomBatches(self, label, n):
         """Like .batches(), but the order is random."""
-        permutation = random.shuffle(list(range(len(self))))
+        permutation = list(range(-(-len(self) // n)))
+        random.shuffle(permutation)
         return self.batches(label, n, permutation)
 
     def replaceNansByMeans(self):
-- 
2.43.0


From 76857a18a76e67de9c9d558532b904229385a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 019/186] fix: DataSet.replaceNansByMeans crashed and averaged
 over the missing entries

---
 pybrain/datasets/dataset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 064b4be..ffb60ae 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -376,9 +376,9 @@ class DataSet(Serializable):
     def replaceNansByMeans(self):
         """Replace all not-a-number entries in the dataset by the means of the
         corresponding column."""
-        for d in self.data.values():
-            means = scipy.nansum(d[:self.getLength()], axis=0) / self.getLength()
-            for i in range(self.getLength()):
-                for j in range(d.dim):
-                    if not scipy.isfinite(d[i, j]):
-                        d[i, j] = means[j]
+        for label, d in self.data.items():
+            rows = d[:self.endmarker[label]]
+            for j in range(rows.shape[1]):
+                nans = scipy.isnan(rows[:, j])
+                if nans.any() and not nans.all():
+                    rows[nans, j] = rows[~nans, j].mean()
-- 
2.43.0


From 5812b5495b39137a0f3d52ccac5a0c7730f61042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 020/186] fix: ImportanceDataSet.addSample rejected arrays of
 several importances

---
 pybrain/datasets/importance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/importance.py b/pybrain/datasets/importance.py
index bd8235f..ecb5743 100644
--- a/pybrain/datasets/importance.py
+++ b/pybrain/datasets/importance.py
@@ -28,7 +28,7 @@ class ImportanceDataSet(SequentialDataSet):
             :key importance: the importance of the sample. If left None, the
                  importance will be set to 1.0
         """
-        if importance == None:
+        if importance is None:
             importance = ones(len(target))
         self.appendLinked(inp, target, importance)
 
-- 
2.43.0


From f6350df12d86b6951a3062332a508e4e18434b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 021/186] fix: _convertToOneOfMany uses a dtype numpy knows

---
 pybrain/datasets/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index c2b52e5..81b7f16 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -139,7 +139,7 @@ class ClassificationDataSet(SupervisedDataSet):
         if self.nClasses <= 0:
             self.calculateStatistics()
         oldtarg = self.getField('target')
-        newtarg = zeros([len(self), self.nClasses], dtype='Int32') + bounds[0]
+        newtarg = zeros([len(self), self.nClasses], dtype='int32') + bounds[0]
         for i in range(len(self)):
             newtarg[i, int(oldtarg[i])] = bounds[1]
         self.setField('target', newtarg)
-- 
2.43.0


From 59819f610db750de52520115879b483ccae06d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 022/186] fix: class conversions dropped samples added since
 the class field was last refreshed

---
 pybrain/datasets/classification.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 81b7f16..ea7c7e2 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -150,6 +150,7 @@ class ClassificationDataSet(SupervisedDataSet):
 
     def _convertToClassNb(self):
         """The reverse of _convertToOneOfMany. Target field is overwritten."""
+        self.assignClasses()
         newtarg = self.getField('class')
         self.setField('target', newtarg)
 
@@ -163,6 +164,7 @@ class ClassificationDataSet(SupervisedDataSet):
         """Produce two new datasets, the first one comprising only the class
         selected (0..nClasses-1), the second one containing the remaining
         samples."""
+        self.assignClasses()
         leftIndices, dummy = where(self['class'] == cls_select)
         rightIndices, dummy = where(self['class'] != cls_select)
         leftDs = self.copy()
@@ -186,6 +188,7 @@ class ClassificationDataSet(SupervisedDataSet):
     def castToRegression(self, values):
         """Converts data set into a SupervisedDataSet for regression. Classes
         are used as indices into the value array given."""
+        self.assignClasses()
         regDs = SupervisedDataSet(self.indim, 1)
         fields = self.getFieldNames()
         fields.remove('target')
@@ -263,6 +266,7 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
     def getSequenceClass(self, index=None):
         """Return a flat array (or single scalar) comprising one class per
         sequence as given by last pattern in each sequence."""
+        self.assignClasses()
         lastSeq = self.getNumSequences() - 1
         if index is None:
             classidx = r_[self['sequence_index'].astype(int)[1:, 0] - 1, len(self) - 1]
-- 
2.43.0


From 22b4ee89265d1a78ff6c59e681a269b1a5a64ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 023/186] fix: ClassificationDataSet.clear kept the classes of
 the removed samples

---
 pybrain/datasets/classification.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index ea7c7e2..c2543d3 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -97,6 +97,11 @@ class ClassificationDataSet(SupervisedDataSet):
             result.assignClasses()
         return result
 
+    def clear(self, unlinked=False):
+        """Clear the dataset, including the classes of the removed samples."""
+        SupervisedDataSet.clear(self, unlinked)
+        self.setField('class', zeros((0, 1)))
+
     def assignClasses(self):
         """Ensure that the class field is properly defined and nClasses is set.
         """
-- 
2.43.0


From e8daed86df3916c8dc4d159fdbd7ef04a7cd89e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 024/186] fix: stratifiedSplit lost the last sequence

---
 pybrain/datasets/classification.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index c2543d3..f1f3ce5 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -2,7 +2,7 @@ from __future__ import print_function
 
 __author__ = "Martin Felder, felder@in.tum.de"
 
-from numpy import zeros, where, ravel, r_, single
+from numpy import array, zeros, where, ravel, r_, single
 from numpy.random import permutation
 from pybrain.datasets import SupervisedDataSet, SequentialDataSet
 
@@ -243,8 +243,11 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         It is assumed that the last target for each class is the class of the
         sequence. Also mind that the data will be sorted by class in the
         resulting data sets."""
-        lastidx = ravel(self['sequence_index'][1:] - 1).astype(int)
-        classes = ravel(self['class'][lastidx])
+        # the last sequence counts as well, unless it is still empty
+        numSeq = self.getNumSequences()
+        if self.getSequenceLength(numSeq - 1) == 0:
+            numSeq -= 1
+        classes = array([self.getSequenceClass(i) for i in range(numSeq)])
         trnDs = self.copy()
         trnDs.clear()
         tstDs = trnDs.copy()
-- 
2.43.0


From 3d2e9fed3eeb4de79bad69b1b8a4514f25f06eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 025/186] fix: convertSequenceToTimeWindows crashed on float
 offsets and lost complete windows at sequence ends

---
 pybrain/tools/datasettools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 39a54b7..1b866ea 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -22,14 +22,14 @@ def convertSequenceToTimeWindows(DSseq, NewClass, winsize):
     DSwin = NewClass(DSseq.indim * winsize, DSseq.outdim)
     nsamples = 0
     nseqs = 0
-    si = r_[DSseq['sequence_index'].flatten(), DSseq.endmarker['sequence_index']]
+    si = r_[DSseq['sequence_index'].flatten(), len(DSseq)].astype(int)
     for i in range(DSseq.getNumSequences()):
         # get one sequence as arrays
         input = DSseq['input'][si[i]:si[i + 1], :]
         target = DSseq['target'][si[i]:si[i + 1], :]
         nseqs += 1
         # cut this sequence into windows, assuming class is given at the last step of each sequence
-        for k in range(winsize, input.shape[0], winsize):
+        for k in range(winsize, input.shape[0] + 1, winsize):
             inp_win = input[k - winsize:k, :]
             tar_win = target[k - 1, :]
             DSwin.addSample(inp_win.flatten(), tar_win.flatten())
-- 
2.43.0


From e9d9bddfe8d637c30398e196b5d824bf228db6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 026/186] fix: DataSet.linkFields crashed with the 'list'
 vector format

---
 pybrain/datasets/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index ffb60ae..fe54069 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -121,9 +121,9 @@ class DataSet(Serializable):
     def linkFields(self, linklist):
         """Link the length of several fields given by the list of strings
         `linklist`."""
-        length = self[linklist[0]].shape[0]
+        length = self.endmarker[linklist[0]]
         for l in linklist:
-            if self[l].shape[0] != length:
+            if self.endmarker[l] != length:
                 raise OutOfSyncError
         self.link = linklist
 
-- 
2.43.0


From b165cac59788dd62a80a87aa21be9d6848f5ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 027/186] fix: SequentialDataSet.getNumSequences crashed with
 the 'list' vector format

---
 pybrain/datasets/sequential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/sequential.py b/pybrain/datasets/sequential.py
index 0b04d93..3e2b9cf 100644
--- a/pybrain/datasets/sequential.py
+++ b/pybrain/datasets/sequential.py
@@ -92,7 +92,7 @@ class SequentialDataSet(SupervisedDataSet):
     def getNumSequences(self):
         """Return the number of sequences. The last (open) sequence is also
         counted in, even though there is no additional 'newSequence' marker."""
-        return self.getField('sequence_index').shape[0]
+        return len(self.getField('sequence_index'))
 
     def getSequenceLength(self, index):
         """Return the length of the given sequence. If `index` is pointing
-- 
2.43.0


From 48ac7873c2c00a25c6893cd3f3131561ab0945ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 028/186] fix: a refused
 SequenceClassificationDataSet.removeSequence left the class field linked

---
 pybrain/datasets/classification.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index f1f3ce5..991ebb2 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -290,8 +290,10 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         """Remove sequence (including class field) from the dataset."""
         self.assignClasses()
         self.linkFields(['input', 'target', 'class'])
-        SequentialDataSet.removeSequence(self, index)
-        self.unlinkFields(['class'])
+        try:
+            SequentialDataSet.removeSequence(self, index)
+        finally:
+            self.unlinkFields(['class'])
 
     def save_netcdf(self, flo, **kwargs):
         """Save the current dataset to the given file as a netCDF dataset to be
-- 
2.43.0


From f87e657f6383f990e873163f349fa2c55fe5dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:55 +0000
Subject: [PATCH 029/186] fix: DataSet.save_pickle(compact=True) crashed with
 the 'list' vector format

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index fe54069..6985779 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -313,7 +313,7 @@ class DataSet(Serializable):
         if compact:
             # remove padding of zeros for each field
             for field in self.getFieldNames():
-                temp = self[field][0:self.endmarker[field] + 1, :]
+                temp = self.data[field][:self.endmarker[field]]
                 self.setField(field, temp)
         Serializable.save_pickle(self, flo, protocol)
 
-- 
2.43.0


From 85dcca091c995c9e3ab0745ac741dca2b643e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 030/186] fix: _convertToOneOfMany truncated a fractional
 membership bound when the other bound is an integer

---
 pybrain/datasets/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 991ebb2..db755ae 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -144,7 +144,7 @@ class ClassificationDataSet(SupervisedDataSet):
         if self.nClasses <= 0:
             self.calculateStatistics()
         oldtarg = self.getField('target')
-        newtarg = zeros([len(self), self.nClasses], dtype='int32') + bounds[0]
+        newtarg = zeros([len(self), self.nClasses], dtype=array(bounds).dtype) + bounds[0]
         for i in range(len(self)):
             newtarg[i, int(oldtarg[i])] = bounds[1]
         self.setField('target', newtarg)
-- 
2.43.0


From b6a49e264d0d1276d5af91b8963dae248e63a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 031/186] fix: PartialSoftmaxLayer crashed on every activation
 and never wrote its output

---
 pybrain/structure/modules/softmax.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pybrain/structure/modules/softmax.py b/pybrain/structure/modules/softmax.py
index 0d28f4f..4968d8d 100644
--- a/pybrain/structure/modules/softmax.py
+++ b/pybrain/structure/modules/softmax.py
@@ -1,8 +1,6 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 
-import scipy
-
 from pybrain.structure.modules.neuronlayer import NeuronLayer
 from pybrain.tools.functions import safeExp
 
@@ -29,10 +27,9 @@ class PartialSoftmaxLayer(NeuronLayer):
         self.slicelength = slicelength
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf[:] = safeExp(inbuf)
-        outbuf.shape = scipy.size(outbuf) / self.slicelength, self.slicelength
-        s = outbuf.sum(axis=1)
-        outbuf = (outbuf.T / s).T.flatten()
+        exps = safeExp(inbuf).reshape(-1, self.slicelength)
+        s = exps.sum(axis=1)
+        outbuf[:] = (exps.T / s).T.flatten()
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
         inerr[:] = outerr
-- 
2.43.0


From fcf8e2db82bcccfc9de8b4b2434964d3bfc4f25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 032/186] fix: slicing a ModuleSlice crashed on a missing
 attribute

---
 pybrain/structure/moduleslice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/moduleslice.py b/pybrain/structure/moduleslice.py
index 762d24a..c58bd20 100644
--- a/pybrain/structure/moduleslice.py
+++ b/pybrain/structure/moduleslice.py
@@ -13,12 +13,12 @@ class ModuleSlice(Named):
         if isinstance(base, ModuleSlice):
             # tolerantly handle the case of a slice of another slice
             self.base = base.base
-            self.inOffset = inSliceFrom + base.inSliceFrom
-            self.outOffset = outSliceFrom + base.outSliceFrom
+            self.inOffset = inSliceFrom + base.inOffset
+            self.outOffset = outSliceFrom + base.outOffset
             if inSliceTo == None:
-                inSliceTo = self.base.indim + base.inSliceFrom
+                inSliceTo = base.indim
             if outSliceTo == None:
-                outSliceTo = self.base.outdim + base.outSliceFrom
+                outSliceTo = base.outdim
             self.name = base.base.name
         else:
             self.base = base
-- 
2.43.0


From 0e314f41cdf9130f888601cc1f0db0a34ddb09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 033/186] fix: multiplicative layers added every activation and
 error to the previous one

---
 pybrain/structure/modules/gate.py | 32 +++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pybrain/structure/modules/gate.py b/pybrain/structure/modules/gate.py
index 99eceb9..7bfa3c4 100644
--- a/pybrain/structure/modules/gate.py
+++ b/pybrain/structure/modules/gate.py
@@ -18,11 +18,11 @@ class MultiplicationLayer(NeuronLayer):
         self.setArgs(dim=dim, name=self.name)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf += inbuf[:self.outdim] * inbuf[self.outdim:]
+        outbuf[:] = inbuf[:self.outdim] * inbuf[self.outdim:]
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        inerr[:self.outdim] += inbuf[self.outdim:] * outerr
-        inerr[self.outdim:] += inbuf[:self.outdim] * outerr
+        inerr[:self.outdim] = inbuf[self.outdim:] * outerr
+        inerr[self.outdim:] = inbuf[:self.outdim] * outerr
 
 
 class GateLayer(NeuronLayer):
@@ -38,14 +38,14 @@ class GateLayer(NeuronLayer):
         self.setArgs(dim=dim, name=self.name)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf += sigmoid(inbuf[:self.outdim]) * inbuf[self.outdim:]
+        outbuf[:] = sigmoid(inbuf[:self.outdim]) * inbuf[self.outdim:]
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        inerr[:self.outdim] += (sigmoidPrime(inbuf[:self.outdim])
-                                * inbuf[self.outdim:]
-                                * outerr)
-        inerr[self.outdim:] += (sigmoid(inbuf[:self.outdim])
-                                * outerr)
+        inerr[:self.outdim] = (sigmoidPrime(inbuf[:self.outdim])
+                               * inbuf[self.outdim:]
+                               * outerr)
+        inerr[self.outdim:] = (sigmoid(inbuf[:self.outdim])
+                               * outerr)
 
 
 class DoubleGateLayer(NeuronLayer):
@@ -62,8 +62,8 @@ class DoubleGateLayer(NeuronLayer):
 
     def _forwardImplementation(self, inbuf, outbuf):
         dim = self.indim // 2
-        outbuf[:dim] += sigmoid(inbuf[:dim]) * inbuf[dim:]
-        outbuf[dim:] += (1 - sigmoid(inbuf[:dim])) * inbuf[dim:]
+        outbuf[:dim] = sigmoid(inbuf[:dim]) * inbuf[dim:]
+        outbuf[dim:] = (1 - sigmoid(inbuf[:dim])) * inbuf[dim:]
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
         dim = self.indim // 2
@@ -71,8 +71,8 @@ class DoubleGateLayer(NeuronLayer):
         in1 = inbuf[dim:]
         out0 = outerr[:dim]
         out1 = outerr[dim:]
-        inerr[:dim] += sigmoidPrime(in0) * in1 * out0
-        inerr[dim:] += sigmoid(in0) * out0
+        inerr[:dim] = sigmoidPrime(in0) * in1 * out0
+        inerr[dim:] = sigmoid(in0) * out0
 
         inerr[:dim] -= sigmoidPrime(in0) * in1 * out1
         inerr[dim:] += (1 - sigmoid(in0)) * out1
@@ -87,11 +87,11 @@ class SwitchLayer(NeuronLayer):
         self.setArgs(dim=dim, name=self.name)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf[:self.indim] += sigmoid(inbuf)
-        outbuf[self.indim:] += 1 - sigmoid(inbuf)
+        outbuf[:self.indim] = sigmoid(inbuf)
+        outbuf[self.indim:] = 1 - sigmoid(inbuf)
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        inerr += sigmoidPrime(inbuf) * outerr[:self.indim]
+        inerr[:] = sigmoidPrime(inbuf) * outerr[:self.indim]
         inerr -= sigmoidPrime(inbuf) * outerr[self.indim:]
 
 
-- 
2.43.0


From c74bea1c0926febb80e3e8c153fbda0f0d901428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 034/186] fix: RecurrentNetwork(forget=True) raised a TypeError

---
 pybrain/structure/networks/recurrent.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index c814b03..9bad650 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -147,9 +147,8 @@ class RecurrentNetwork(RecurrentNetworkComponent, Network):
     bufferlist = Network.bufferlist
 
     def __init__(self, *args, **kwargs):
+        forget = kwargs.pop('forget', False)
         Network.__init__(self, *args, **kwargs)
-        if 'forget' in kwargs:
-            forget = kwargs['forget']
-        else:
-            forget = False
         RecurrentNetworkComponent.__init__(self, forget, *args, **kwargs)
+        if forget:
+            self.setArgs(forget=forget)
-- 
2.43.0


From a5231217809e6fbb3b9a3b56619e0f1809261bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 035/186] fix: feed-forward networks nested in a recurrent
 network used the first step's buffers at every step

---
 pybrain/structure/networks/feedforward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/feedforward.py b/pybrain/structure/networks/feedforward.py
index c833af2..eeeb41f 100644
--- a/pybrain/structure/networks/feedforward.py
+++ b/pybrain/structure/networks/feedforward.py
@@ -29,7 +29,7 @@ class FeedForwardNetworkComponent(object):
         for m in self.modulesSorted:
             m.forward()
             for c in self.connections[m]:
-                c.forward()
+                c.forward(offset, offset)
 
         index = 0
         for m in self.outmodules:
@@ -46,7 +46,7 @@ class FeedForwardNetworkComponent(object):
 
         for m in reversed(self.modulesSorted):
             for c in self.connections[m]:
-                c.backward()
+                c.backward(offset, offset)
             m.backward()
 
         index = 0
-- 
2.43.0


From 6783fbfae74cbd3c0313cdd6cb40ba8577028b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 036/186] fix: networks nested in a forgetful recurrent network
 kept the buffers of earlier steps

---
 pybrain/structure/networks/network.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index d5c4d2f..7755d4e 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -149,6 +149,14 @@ class Network(Module, ParameterContainer):
         for m in self.modules:
             m.reset()
 
+    def shift(self, items):
+        """Shift the buffers of all component modules and of the network."""
+        if items == 0:
+            return
+        for m in self.modules:
+            m.shift(items)
+        Module.shift(self, items)
+
     def _setParameters(self, p, owner=None):
         """ put slices of this array back into the modules """
         ParameterContainer._setParameters(self, p, owner)
-- 
2.43.0


From ed232da1a106927b30a354d3838147578e5eca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 037/186] fix: LinearConnection never computed the derivatives
 of its parameters

---
 pybrain/structure/connections/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/linear.py b/pybrain/structure/connections/linear.py
index 46f8559..8f89bb5 100644
--- a/pybrain/structure/connections/linear.py
+++ b/pybrain/structure/connections/linear.py
@@ -22,5 +22,6 @@ class LinearConnection(Connection, ParameterContainer):
         outbuf += inbuf * self.params
 
     def _backwardImplementation(self, outerr, inerr, inbuf):
-        #CHECKME: not setting derivatives -- this means the multiplicative weight is never updated!
         inerr += outerr * self.params
+        ds = self.derivs
+        ds += inbuf * outerr
-- 
2.43.0


From 6d82c0d3b22cba4013a40d5587dec413614100ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 038/186] fix: FullNotSelfConnection gave its unused diagonal
 weights a nonzero derivative

---
 pybrain/structure/connections/fullnotself.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/connections/fullnotself.py b/pybrain/structure/connections/fullnotself.py
index 4d81bb2..c2426d9 100644
--- a/pybrain/structure/connections/fullnotself.py
+++ b/pybrain/structure/connections/fullnotself.py
@@ -23,7 +23,8 @@ class FullNotSelfConnection(FullConnection):
         outbuf += dot(p, inbuf)
 
     def _backwardImplementation(self, outerr, inerr, inbuf):
-        p = reshape(self.params, (self.outdim, self.indim)) * (1-eye(self.outdim))
+        mask = 1-eye(self.outdim)
+        p = reshape(self.params, (self.outdim, self.indim)) * mask
         inerr += dot(p.T, outerr)
         ds = self.derivs
-        ds += outer(inbuf, outerr).T.flatten()
+        ds += (outer(inbuf, outerr).T * mask).flatten()
-- 
2.43.0


From 71337543423becfbc5fdcca65eddb4f4d651c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 039/186] fix: PermutationConnection sent errors back along the
 permutation instead of its inverse

---
 pybrain/structure/connections/permutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index 7dda244..1156f61 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -24,7 +24,7 @@ class PermutationConnection(Connection):
                 (self.indim // blocksize), len(permutation)))
 
         self.permutation = array(permutation)
-        self.invpermutation = permute(list(range(len(permutation))), permutation)
+        self.invpermutation = self.permutation.argsort()
         self.blocksize = blocksize
 
     def _forwardImplementation(self, inbuf, outbuf):
-- 
2.43.0


From 48bf4c764d269d342bfd61b6f36ecf85f0a76be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 040/186] fix: recurrent networks nested in a recurrent network
 propagated errors back one step too early

---
 pybrain/structure/networks/recurrent.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index 9bad650..c7f61f0 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -125,6 +125,9 @@ class RecurrentNetworkComponent(object):
             for c in self.connections[m]:
                 c.backward(offset, offset)
             m.offset = offset
+            if isinstance(m, RecurrentNetworkComponent):
+                # A recurrent network steps back by itself.
+                m.offset = offset + 1
             m.backward()
 
         index = 0
-- 
2.43.0


From 6ac2ee9c5fbff809ef9f5ab2ee34464957cf53cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 041/186] fix: copied, deep-copied and unpickled networks no
 longer shared parameters and derivatives with their parts

---
 pybrain/structure/networks/network.py | 31 +++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index 7755d4e..dd101d6 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -274,10 +274,33 @@ class Network(Module, ParameterContainer):
     def copy(self, keepBuffers=False):
         if not keepBuffers:
             self._resetBuffers()
-        cp = Evolvable.copy(self)
-        if self.paramdim > 0:
-            cp._setParameters(self.params.copy())
-        return cp
+        return Evolvable.copy(self)
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._restoreSharing()
+        if self.owner is not self and isinstance(self.owner, Network):
+            self.owner._restoreSharing()
+
+    def _restoreSharing(self):
+        """Make the parameters and derivatives of all parts views of the
+        network's again: pickling and deep copies store them separately."""
+        if not (self.__dict__.get('sorted') and self.paramdim):
+            return
+        parts = chain(self.modules, self.motherconnections,
+                      self.__dict__.get('recurrentConns', []),
+                      *self.connections.values())
+        if not all(p.__dict__ for p in parts):
+            # Some parts are not restored yet.
+            return
+        containers = list(self._containerIterator())
+        if any(x.owner is not self for x in containers):
+            return
+        index = 0
+        for x in containers:
+            x._setParameters(self.params[index:index + x.paramdim], self)
+            x._setDerivatives(self.derivs[index:index + x.paramdim], self)
+            index += x.paramdim
 
     def convertToFastNetwork(self):
         """ Attempt to transform the network into a fast network. If fast networks are not available,
-- 
2.43.0


From a30279de293cfaa250a45962e298abc32ff65c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 042/186] fix: sorting a network again after it was added to
 another one failed

---
 pybrain/structure/networks/network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index dd101d6..7047be6 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -240,13 +240,16 @@ class Network(Module, ParameterContainer):
         ParameterContainer.__init__(self, total_size)
         if total_size > 0:
             self.params[:] = scipy.concatenate(tmp)
-            self._setParameters(self.params)
+            self._setParameters(self.params, self.owner)
 
             # Create a single array with all derivatives.
             tmp = [pc.derivs for pc in self._containerIterator()]
             self.resetDerivatives()
             self.derivs[:] = scipy.concatenate(tmp)
-            self._setDerivatives(self.derivs)
+            self._setDerivatives(self.derivs, self.owner)
+            if self.owner is not self and isinstance(self.owner, Network):
+                # The parameters are not part of the owner's any more.
+                self.owner.sorted = False
 
         # TODO: make this a property; indim and outdim are invalid before
         # .sortModules is called!
-- 
2.43.0


From b9dc378f1a58fa1ac14c80e2891fecc94b8a53e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 043/186] fix: modules that are both input and output of a
 network lost their output role in XML files

---
 pybrain/tools/customxml/networkreader.py | 9 +++++++--
 pybrain/tools/customxml/networkwriter.py | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index 9462a51..fa4f3ec 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -49,11 +49,16 @@ class NetworkReader(XMLHandling):
             m, inmodule, outmodule = self.readModule(mnode)
             if inmodule:
                 n.addInputModule(m)
-            elif outmodule:
+            if outmodule:
                 n.addOutputModule(m)
-            else:
+            if not inmodule and not outmodule:
                 n.addModule(m)
 
+        order = self.getChild(node, 'OutputOrder')
+        if order:
+            names = eval(order.firstChild.data.strip())
+            n.outmodules.sort(key=lambda m: names.index(m.name))
+
         mconns = self.getChild(node, 'MotherConnections')
         if mconns:
             for mcnode in self.getChildrenOf(mconns):
diff --git a/pybrain/tools/customxml/networkwriter.py b/pybrain/tools/customxml/networkwriter.py
index c5ffc52..c1e8096 100644
--- a/pybrain/tools/customxml/networkwriter.py
+++ b/pybrain/tools/customxml/networkwriter.py
@@ -42,6 +42,10 @@ class NetworkWriter(XMLHandling):
         # first write the input modules (in order)
         for im in net.inmodules:
             self.writeModule(mods, im, True, im in net.outmodules)
+        # the order of the output modules, if it is not the one they are written in
+        if [m for m in net.inmodules if m in net.outmodules]:
+            order = self.newChild(netroot, 'OutputOrder')
+            self.addTextNode(order, repr([m.name for m in net.outmodules]))
         # now the output modules (in order)
         for om in net.outmodules:
             if om not in net.inmodules:
@@ -74,7 +78,7 @@ class NetworkWriter(XMLHandling):
             mnode = self.writeBuildable(rootnode, m)
         if inmodule:
             mnode.setAttribute('inmodule', 'True')
-        elif outmodule:
+        if outmodule:
             mnode.setAttribute('outmodule', 'True')
 
     def writeConnection(self, rootnode, c, recurrent):
-- 
2.43.0


From 972921d8143d5ecf865ad3433a0c2c3bd327acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 044/186] fix: reading networks from XML mixed up equally named
 parts of nested and earlier read networks

---
 pybrain/tools/customxml/networkreader.py | 30 ++++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index fa4f3ec..3421bdb 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -19,8 +19,10 @@ except ImportError:
 class NetworkReader(XMLHandling):
     """ A class that can take read a network from an XML file """
 
-    mothers = {}
-    modules = {}
+    def __init__(self, *args, **kwargs):
+        XMLHandling.__init__(self, *args, **kwargs)
+        self.mothers = {}
+        self.modules = {}
 
     @staticmethod
     def readFrom(filename, name = None, index = 0):
@@ -40,6 +42,9 @@ class NetworkReader(XMLHandling):
     def readNetwork(self, node):
         # TODO: why is this necessary?
         import pybrain.structure.networks.custom #@Reimport @UnusedImport
+        # names are only unique within one network
+        outer = self.modules, self.mothers
+        self.modules, self.mothers = {}, {}
         nclass = eval(str(node.getAttribute('class')))
         argdict = self.readArgs(node)
         n = nclass(**argdict)
@@ -73,6 +78,7 @@ class NetworkReader(XMLHandling):
                 n.addConnection(c)
 
         n.sortModules()
+        self.modules, self.mothers = outer
         return n
 
     def readModule(self, mnode):
@@ -106,13 +112,23 @@ class NetworkReader(XMLHandling):
     def readArgs(self, node):
         res = {}
         for c in self.getChildrenOf(node):
+            name = str(c.nodeName)
             val = c.getAttribute('val')
-            if val in self.modules:
-                res[str(c.nodeName)] = self.modules[val]
-            elif val in self.mothers:
-                res[str(c.nodeName)] = self.mothers[val]
+            if name in ('inmod', 'outmod') and val in self.modules:
+                res[name] = self.modules[val]
+            elif name == 'mother' and val in self.mothers:
+                res[name] = self.mothers[val]
             elif val != '':
-                res[str(c.nodeName)] = eval(val)
+                try:
+                    res[name] = eval(val)
+                except (NameError, SyntaxError):
+                    # custom classes may refer to parts by other names
+                    if val in self.modules:
+                        res[name] = self.modules[val]
+                    elif val in self.mothers:
+                        res[name] = self.mothers[val]
+                    else:
+                        raise
         return res
 
     def readParams(self, node, m):
-- 
2.43.0


From 03865c57c979d27c0fa2c142d41cdb100a37ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 045/186] fix: PermutationConnection could not be read back
 from XML

---
 pybrain/structure/connections/permutation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index 1156f61..0b49398 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -26,6 +26,7 @@ class PermutationConnection(Connection):
         self.permutation = array(permutation)
         self.invpermutation = self.permutation.argsort()
         self.blocksize = blocksize
+        self.setArgs(permutation=list(permutation), blocksize=blocksize)
 
     def _forwardImplementation(self, inbuf, outbuf):
         inbuf = inbuf.reshape(self.indim // self.blocksize, self.blocksize)
-- 
2.43.0


From 43395b2aadccb0216d6c7771580543705ca91ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 046/186] fix: PartialSoftmaxLayer could not be read back from
 XML

---
 pybrain/structure/modules/softmax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/modules/softmax.py b/pybrain/structure/modules/softmax.py
index 4968d8d..67a0006 100644
--- a/pybrain/structure/modules/softmax.py
+++ b/pybrain/structure/modules/softmax.py
@@ -22,9 +22,11 @@ class SoftmaxLayer(NeuronLayer):
 class PartialSoftmaxLayer(NeuronLayer):
     """Layer implementing a softmax distribution over slices of the input."""
 
-    def __init__(self, size, slicelength):
-        super(PartialSoftmaxLayer, self).__init__(size)
+    def __init__(self, size, slicelength, name=None):
+        super(PartialSoftmaxLayer, self).__init__(size, name)
         self.slicelength = slicelength
+        # construction arguments, for XML
+        self.argdict = dict(size=size, slicelength=slicelength)
 
     def _forwardImplementation(self, inbuf, outbuf):
         exps = safeExp(inbuf).reshape(-1, self.slicelength)
-- 
2.43.0


From 8e34e4aa57ce4e0644112d0f805c9c6e5bfbb76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 047/186] fix: BidirectionalNetwork could not be read back from
 XML (rebuilt a second time, and equal names for forward and backward weights)

---
 pybrain/structure/networks/bidirectional.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/networks/bidirectional.py b/pybrain/structure/networks/bidirectional.py
index ca92e9b..5aa1498 100644
--- a/pybrain/structure/networks/bidirectional.py
+++ b/pybrain/structure/networks/bidirectional.py
@@ -31,6 +31,9 @@ class BidirectionalNetwork(FeedForwardNetwork):
     #: length of the sequences
     seqlen = None
 
+    # a flag purely for xml reading to avoid full reconstruction:
+    rebuilt = False
+
     def __init__(self, predefined = None, **kwargs):
         """ For the current implementation, the sequence length
         needs to be fixed, and given at construction time. """
@@ -41,6 +44,13 @@ class BidirectionalNetwork(FeedForwardNetwork):
         FeedForwardNetwork.__init__(self, **kwargs)
         assert self.seqlen is not None
 
+        if not self.rebuilt:
+            self._buildBidirectionalStructure()
+            self.sortModules()
+            self.rebuilt = True
+            self.setArgs(rebuilt=True)
+
+    def _buildBidirectionalStructure(self):
         # the input is a 1D-mesh (as a view on a flat input layer)
         inmod = LinearLayer(self.inputsize * self.seqlen, name='input')
         inmesh = ModuleMesh.viewOnFlatLayer(inmod, (self.seqlen,), 'inmesh')
@@ -71,8 +81,8 @@ class BidirectionalNetwork(FeedForwardNetwork):
             outconnb = outconnf
         else:
             backwardconn = MotherConnection(hiddenmesh.componentIndim * hiddenmesh.componentOutdim, name='bconn')
-            inconnb = MotherConnection(inmesh.componentOutdim * hiddenmesh.componentIndim, name='inconn')
-            outconnb = MotherConnection(outmesh.componentIndim * hiddenmesh.componentOutdim, name='outconn')
+            inconnb = MotherConnection(inmesh.componentOutdim * hiddenmesh.componentIndim, name='inconnb')
+            outconnb = MotherConnection(outmesh.componentIndim * hiddenmesh.componentOutdim, name='outconnb')
 
         # build the connections
         for i in range(self.seqlen):
@@ -89,6 +99,4 @@ class BidirectionalNetwork(FeedForwardNetwork):
                 # backward in time
                 self.addConnection(SharedFullConnection(backwardconn, hiddenmesh[(1, i + 1)], hiddenmesh[(1, i)]))
 
-        self.sortModules()
-
 
-- 
2.43.0


From 021799dc484c762eabe465adca85dcf531500d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:19 +0000
Subject: [PATCH 048/186] fix: networks of MDLSTM cells mixed up the states
 coming from different dimensions

---
 .../structure/networks/custom/capturegame.py  | 14 +++-----------
 .../structure/networks/multidimensional.py    | 14 +++-----------
 pybrain/structure/networks/swiping.py         | 19 +++++++++++++++++++
 3 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/pybrain/structure/networks/custom/capturegame.py b/pybrain/structure/networks/custom/capturegame.py
index 3702ce0..8c26690 100644
--- a/pybrain/structure/networks/custom/capturegame.py
+++ b/pybrain/structure/networks/custom/capturegame.py
@@ -2,7 +2,7 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 
 import random
 
-from pybrain import SharedFullConnection, MotherConnection, MDLSTMLayer, IdentityConnection
+from pybrain import SharedFullConnection, MotherConnection, MDLSTMLayer
 from pybrain import ModuleMesh, LinearLayer, TanhLayer, SigmoidLayer
 from pybrain.structure.networks import BorderSwipingNetwork
 
@@ -70,16 +70,8 @@ class CaptureGameNetwork(BorderSwipingNetwork):
         self._buildBorderStructure(inmesh, hiddenmesh, outmesh)
 
         # add the identity connections for the states
-        for m in self.modules:
-            if isinstance(m, MDLSTMLayer):
-                tmp = m.stateSlice()
-                index = 0
-                for c in list(self.connections[m]):
-                    if isinstance(c.outmod, MDLSTMLayer):
-                        self.addConnection(IdentityConnection(tmp, c.outmod.stateSlice(),
-                                                              outSliceFrom = self.hsize*(index),
-                                                              outSliceTo = self.hsize*(index+1)))
-                        index += 1
+        if self.componentclass is MDLSTMLayer:
+            self._linkStates(hiddenmesh)
         # direct connections between input and output
         if self.directlink:
             self._buildDirectLink(inmesh, outmesh)
diff --git a/pybrain/structure/networks/multidimensional.py b/pybrain/structure/networks/multidimensional.py
index 16b8fde..1beaaeb 100644
--- a/pybrain/structure/networks/multidimensional.py
+++ b/pybrain/structure/networks/multidimensional.py
@@ -1,7 +1,7 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from pybrain.structure.networks.swiping import SwipingNetwork
-from pybrain import MDLSTMLayer, IdentityConnection
+from pybrain import MDLSTMLayer
 from pybrain import ModuleMesh, LinearLayer, TanhLayer, SigmoidLayer
 from scipy import product
 
@@ -39,16 +39,8 @@ class MultiDimensionalRNN(SwipingNetwork):
         self._buildSwipingStructure(inmesh, hiddenmesh, outmesh)
 
         # add the identity connections for the states
-        for m in self.modules:
-            if isinstance(m, MDLSTMLayer):
-                tmp = m.stateSlice()
-                index = 0
-                for c in list(self.connections[m]):
-                    if isinstance(c.outmod, MDLSTMLayer):
-                        self.addConnection(IdentityConnection(tmp, c.outmod.stateSlice(),
-                                                              outSliceFrom = self.hsize*(index),
-                                                              outSliceTo = self.hsize*(index+1)))
-                        index += 1
+        if self.componentclass is MDLSTMLayer:
+            self._linkStates(hiddenmesh)
 
         self.sortModules()
 
diff --git a/pybrain/structure/networks/swiping.py b/pybrain/structure/networks/swiping.py
index 945a274..e6aa87c 100644
--- a/pybrain/structure/networks/swiping.py
+++ b/pybrain/structure/networks/swiping.py
@@ -3,6 +3,7 @@ from __future__ import print_function
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from pybrain.structure.networks.feedforward import FeedForwardNetwork
+from pybrain.structure.connections.identity import IdentityConnection
 from pybrain.structure.connections.shared import MotherConnection, SharedFullConnection
 from pybrain.utilities import iterCombinations
 
@@ -117,6 +118,24 @@ class SwipingNetwork(FeedForwardNetwork):
                     if previousunit[dim] >= 0 and previousunit[dim] < maxval:
                         self.addConnection(SharedFullConnection(hconn, hiddenmesh[previousunit], hiddenmesh[hunit]))
 
+    def _linkStates(self, hiddenmesh):
+        """ identity connections that hand the state of each multi-dimensional LSTM cell on to its successors:
+        the state of the predecessor along dimension D goes to the D-th part of the state input. """
+        for unit in self._iterateOverUnits():
+            for swipe in range(self.swipes):
+                hunit = tuple(list(unit) + [swipe])
+                for dim, maxval in enumerate(self.dims):
+                    previousunit = list(hunit)
+                    if (swipe // 2 ** dim) % 2 == 0:
+                        previousunit[dim] -= 1
+                    else:
+                        previousunit[dim] += 1
+                    if 0 <= previousunit[dim] < maxval:
+                        prev = hiddenmesh[tuple(previousunit)].base
+                        self.addConnection(IdentityConnection(prev.stateSlice(), hiddenmesh[hunit].base.stateSlice(),
+                                                              outSliceFrom=prev.dim * dim,
+                                                              outSliceTo=prev.dim * (dim + 1)))
+
     def _iterateOverUnits(self):
         """ iterate over the coordinates defines by the ranges of self.dims. """
         return iterCombinations(self.dims)
-- 
2.43.0


From 418be0b3e0d5dde7bd5eafb264a40869362df909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:19 +0000
Subject: [PATCH 049/186] fix: MultiDimensionalLSTM only worked with two
 dimensions

---
 pybrain/structure/networks/multidimensional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/multidimensional.py b/pybrain/structure/networks/multidimensional.py
index 1beaaeb..8e20dfa 100644
--- a/pybrain/structure/networks/multidimensional.py
+++ b/pybrain/structure/networks/multidimensional.py
@@ -30,8 +30,8 @@ class MultiDimensionalRNN(SwipingNetwork):
         outmesh = ModuleMesh.viewOnFlatLayer(outmod, dims, 'outmesh')
 
         if self.componentclass is MDLSTMLayer:
-            c = lambda: MDLSTMLayer(self.hsize, 2, self.peepholes).meatSlice()
-            adims = tuple(list(dims)+[4])
+            c = lambda: MDLSTMLayer(self.hsize, len(dims), self.peepholes).meatSlice()
+            adims = tuple(list(dims)+[self.swipes])
             hiddenmesh = ModuleMesh(c, adims, 'hidden', baserename = True)
         else:
             hiddenmesh = ModuleMesh.constructWithLayers(self.componentclass, self.hsize, tuple(list(dims)+[self.swipes]), 'hidden')
-- 
2.43.0


From c1396cc211988a4cd515c00e2aa7229f657c512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:19 +0000
Subject: [PATCH 050/186] fix: _buildNetwork crashed when its first part has
 several layers

---
 pybrain/tools/shortcuts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/shortcuts.py b/pybrain/tools/shortcuts.py
index 27edca2..35d3965 100644
--- a/pybrain/tools/shortcuts.py
+++ b/pybrain/tools/shortcuts.py
@@ -141,8 +141,8 @@ def _buildNetwork(*layers, **options):
 
     prevLayer = firstLayer
 
-    for part in chain(firstPart, layerParts):
-        new_part = True
+    new_part = False
+    for part in chain([firstPart], layerParts):
         for layer in part:
             net.addModule(layer)
             # Pick class depending on whether we entered a new part
@@ -158,6 +158,7 @@ def _buildNetwork(*layers, **options):
             conn = ConnectionClass(prevLayer, layer)
             net.addConnection(conn)
             prevLayer = layer
+        new_part = True
     net.addOutputModule(layer)
     net.sortModules()
     return net
-- 
2.43.0


From ad7b7f5990cf3aba6828292bcbe420e146db59d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:19 +0000
Subject: [PATCH 051/186] fix: extrapolating the border weights of a
 BorderSwipingNetwork crashed

---
 pybrain/structure/networks/borderswiping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/borderswiping.py b/pybrain/structure/networks/borderswiping.py
index ab3d4ef..0e98d1b 100644
--- a/pybrain/structure/networks/borderswiping.py
+++ b/pybrain/structure/networks/borderswiping.py
@@ -55,7 +55,7 @@ class BorderSwipingNetwork(SwipingNetwork):
                         tmp[t] = MotherConnection(hiddenmesh.componentIndim, name = 'bconn'+str(dim)+str(t))
                         if self.extrapolateBorderValues:
                             p = self._extrapolateBorderAt(t, self.predefined['bordconns'][dim])
-                            if p != None:
+                            if p is not None:
                                 tmp[t].params[:] = p
                 self.predefined['bordconns'][dim] = tmp
 
-- 
2.43.0


From 39f2a28786c2e0dd4bdf5fb20de97223a7df7166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:19 +0000
Subject: [PATCH 052/186] fix: CaptureGameNetwork crashed with a direct link or
 global inputs

---
 pybrain/structure/networks/custom/capturegame.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/networks/custom/capturegame.py b/pybrain/structure/networks/custom/capturegame.py
index 8c26690..292194a 100644
--- a/pybrain/structure/networks/custom/capturegame.py
+++ b/pybrain/structure/networks/custom/capturegame.py
@@ -81,18 +81,18 @@ class CaptureGameNetwork(BorderSwipingNetwork):
             cin = LinearLayer(self.combinputs, name = 'globalin')
             self.addInputModule(cin)
             if 'globalinconn' not in self.predefined:
-                self.predefined['globalinconn'] = MotherConnection(cin.componentOutdim*hiddenmesh.componentIndim, 'globalinconn')
+                self.predefined['globalinconn'] = MotherConnection(cin.outdim*hiddenmesh.componentIndim, name = 'globalinconn')
             self._linkToAll(cin, hiddenmesh, self.predefined['globalinconn'])
 
     def _buildDirectLink(self, inmesh, outmesh):
         if not 'directconn' in self.predefined:
-            self.predefined['directconn'] = MotherConnection(inmesh.componentOutdim*outmesh.componentIndim, 'inconn')
+            self.predefined['directconn'] = MotherConnection(inmesh.componentOutdim*outmesh.componentIndim, name = 'directconn')
         for unit in self._iterateOverUnits():
             self.addConnection(SharedFullConnection(self.predefined['directconn'], inmesh[unit], outmesh[unit]))
 
     def _linkToAll(self, inmod, mesh, conn):
-        for unit in self._iterateOverUnits():
-            self.addConnection(SharedFullConnection(conn, inmod, mesh[unit]))
+        for module in mesh:
+            self.addConnection(SharedFullConnection(conn, inmod, module))
 
     def _generateName(self):
         """ generate a quasi unique name, using construction parameters """
-- 
2.43.0


From d8612a88873aff07f272a8a251f64c6f53e1c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 053/186] fix: the inverse of a restricted Boltzmann machine
 and its training used the weight matrix without transposing it

---
 pybrain/structure/networks/rbm.py    | 4 ++--
 pybrain/unsupervised/trainers/rbm.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/structure/networks/rbm.py b/pybrain/structure/networks/rbm.py
index f7f58b9..6c877ad 100644
--- a/pybrain/structure/networks/rbm.py
+++ b/pybrain/structure/networks/rbm.py
@@ -73,9 +73,9 @@ class Rbm(object):
 
     def invert(self):
         """Return the inverse rbm."""
-        # TODO: check if shape is correct
+        params = self.params.reshape((self.hiddenDim, self.visibleDim))
         return self.__class__.fromDims(self.hiddenDim, self.visibleDim,
-                                       params=self.params)
+                                       params=params.T.flatten())
 
     def activate(self, inpt):
         return self.net.activate(inpt)
diff --git a/pybrain/unsupervised/trainers/rbm.py b/pybrain/unsupervised/trainers/rbm.py
index 74a2f18..1670f17 100644
--- a/pybrain/unsupervised/trainers/rbm.py
+++ b/pybrain/unsupervised/trainers/rbm.py
@@ -60,7 +60,7 @@ class RbmGibbsTrainer(Trainer):
                 #print("*** Iteration %2d **************************************" % t)
 
                 params = self.rbm.params
-                params = params.reshape((self.rbm.visibleDim, self.rbm.hiddenDim))
+                params = params.reshape((self.rbm.hiddenDim, self.rbm.visibleDim)).T
                 biasParams = self.rbm.biasParams
 
                 mm = cfg.iniMm if t < cfg.mmSwitchIter else cfg.finMm
-- 
2.43.0


From ea0b1a944f7f2deed00de7c995bdb0654639518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 054/186] fix: buildNetwork crashed for an LSTM hidden class
 without hidden layers

---
 pybrain/tools/shortcuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/shortcuts.py b/pybrain/tools/shortcuts.py
index 35d3965..7f57371 100644
--- a/pybrain/tools/shortcuts.py
+++ b/pybrain/tools/shortcuts.py
@@ -100,7 +100,7 @@ def buildNetwork(*layers, **options):
         n.addConnection(FullConnection(n['hidden%i' % (len(layers) - 3)], n['out']))
 
     # recurrent connections
-    if issubclass(opt['hiddenclass'], LSTMLayer):
+    if issubclass(opt['hiddenclass'], LSTMLayer) and len(layers) > 2:
         if len(layers) > 3:
             errorexit("LSTM networks with > 1 hidden layers are not supported!")
         n.addRecurrentConnection(FullConnection(n['hidden0'], n['hidden0']))
-- 
2.43.0


From 56f1620b58d049369c095e01c1d7c9ec350289b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 055/186] fix: crossproduct crashed when one of the sets is
 empty

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 21ac18f..f8d3068 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -488,7 +488,7 @@ def crossproduct(ss, row=None, level=0):
         row = []
     if len(ss) > 1:
         return reduce(operator.add,
-                      [crossproduct(ss[1:], row + [i], level + 1) for i in ss[0]])
+                      [crossproduct(ss[1:], row + [i], level + 1) for i in ss[0]], [])
     else:
         return [row + [i] for i in ss[0]]
 
-- 
2.43.0


From 625bae08574d6f0ecff969511c85a9602731240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 056/186] fix: random masks could be empty, and used the
 probability of a bit being on for being off

---
 pybrain/structure/evolvables/maskedparameters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index caf0020..3ee676d 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -72,13 +72,16 @@ class MaskedParameters(TopologyEvolvable):
         self.mask = zeros(self.pcontainer.paramdim, dtype=bool)
         onbits = []
         for i in range(self.pcontainer.paramdim):
-            if random() > self.maskOnProbability:
+            if random() < self.maskOnProbability:
                 self.mask[i] = True
                 onbits.append(i)
         over = len(onbits) - self.maxComplexity
         if over > 0:
             for i in sample(onbits, over):
                 self.mask[i] = False
+        if not onbits:
+            # at least one bit needs to be on
+            self.mask[int(random()*self.pcontainer.paramdim)] = True
         self.maskableParams = randn(self.pcontainer.paramdim)*self.stdParams
         self._applyMask()
 
-- 
2.43.0


From c4c338f9d0289e7076b27d3111ce56a068bb7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 057/186] fix: copies of masked modules and parameters, which
 share their container, showed each other's values

---
 pybrain/structure/evolvables/maskedmodule.py     | 5 +++++
 pybrain/structure/evolvables/maskedparameters.py | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/evolvables/maskedmodule.py b/pybrain/structure/evolvables/maskedmodule.py
index 0f3e703..c777a0e 100644
--- a/pybrain/structure/evolvables/maskedmodule.py
+++ b/pybrain/structure/evolvables/maskedmodule.py
@@ -14,18 +14,23 @@ class MaskedModule(MaskedParameters, Module):
         return self.pcontainer._resetBuffers()
 
     def activate(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.activate(*args, **kwargs)
 
     def backActivate(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.backActivate(*args, **kwargs)
 
     def forward(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.forward(*args, **kwargs)
 
     def backward(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.backward(*args, **kwargs)
 
     def activateOnDataset(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.activateOnDataset(*args, **kwargs)
 
 
diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index 3ee676d..2ac1c89 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -47,7 +47,7 @@ class MaskedParameters(TopologyEvolvable):
     def params(self):
         """ returns an array with (usually) only the unmasked parameters """
         if self.returnZeros:
-            return self.pcontainer.params
+            return self.mask*self.maskableParams
         else:
             x = zeros(self.paramdim)
             paramcount = 0
-- 
2.43.0


From c82be708b61e8cc48e31faa6fba8c91ecf50f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 058/186] fix: FullConnection.whichBuffers ignored slices

---
 pybrain/structure/connections/full.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/full.py b/pybrain/structure/connections/full.py
index 98ca3f0..041f9cb 100644
--- a/pybrain/structure/connections/full.py
+++ b/pybrain/structure/connections/full.py
@@ -26,4 +26,5 @@ class FullConnection(Connection, ParameterContainer):
     def whichBuffers(self, paramIndex):
         """Return the index of the input module's output buffer and
         the output module's input buffer for the given weight."""
-        return paramIndex % self.inmod.outdim, paramIndex // self.inmod.outdim
+        return (self.inSliceFrom + paramIndex % self.indim,
+                self.outSliceFrom + paramIndex // self.indim)
-- 
2.43.0


From 9e93c0f5c4e0b48a73c02bcb4821e4b64fadb243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:13 +0000
Subject: [PATCH 059/186] fix: weight decay was ignored in batch learning

---
 pybrain/supervised/trainers/backprop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index b4c9f5f..b0a1b3c 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -71,7 +71,8 @@ class BackpropTrainer(Trainer):
         if self.verbose:
             print("Total error: {z: .12g}".format(z=errors / ponderation))
         if self.batchlearning:
-            self.module._setParameters(self.descent(self.module.derivs))
+            gradient = self.module.derivs - self.weightdecay * self.module.params
+            self.module._setParameters(self.descent(gradient))
         self.epoch += 1
         self.totalepochs += 1
         return errors / ponderation
-- 
2.43.0


From 2cef852ec26e484962a3cdf12c9c929656a607a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:13 +0000
Subject: [PATCH 060/186] fix: training continued from the trainer's own copy
 of the parameters, discarding changes made to the module in between

---
 pybrain/supervised/trainers/backprop.py | 2 ++
 pybrain/supervised/trainers/rprop.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index b0a1b3c..ce17d4e 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -51,6 +51,8 @@ class BackpropTrainer(Trainer):
         """Train the associated module for one epoch."""
         assert len(self.ds) > 0, "Dataset cannot be empty."
         self.module.resetDerivatives()
+        # The parameters may have been changed since the last update.
+        self.descent.values = self.module.params.copy()
         errors = 0
         ponderation = 0.
         shuffledSequences = []
diff --git a/pybrain/supervised/trainers/rprop.py b/pybrain/supervised/trainers/rprop.py
index 885b0c8..54266ae 100644
--- a/pybrain/supervised/trainers/rprop.py
+++ b/pybrain/supervised/trainers/rprop.py
@@ -38,6 +38,8 @@ class RPropMinusTrainer(BackpropTrainer):
     def train(self):
         """ Train the network for one epoch """
         self.module.resetDerivatives()
+        # The parameters may have been changed since the last update.
+        self.descent.values = self.module.params.copy()
         errors = 0
         ponderation = 0
         for seq in self.ds._provideSequences():
-- 
2.43.0


From 3d7926345fd7a45fbecddd5c78201e849108804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:13 +0000
Subject: [PATCH 061/186] fix: testOnClassData failed on samples with
 importance

---
 pybrain/supervised/trainers/backprop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index ce17d4e..ffa1819 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -179,10 +179,10 @@ class BackpropTrainer(Trainer):
         targ = []
         for seq in dataset._provideSequences():
             self.module.reset()
-            for input, target in seq:
-                res = self.module.activate(input)
+            for sample in seq:
+                res = self.module.activate(sample[0])
                 out.append(argmax(res))
-                targ.append(argmax(target))
+                targ.append(argmax(sample[1]))
         if return_targets:
             return out, targ
         else:
-- 
2.43.0


From a5ef20b78eafa0442413030c43faebf2c7ce5af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:13 +0000
Subject: [PATCH 062/186] fix: trainUntilConvergence trained one epoch more
 than maxEpochs and left the best epoch out of the reported errors

---
 pybrain/supervised/trainers/backprop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index ffa1819..6ed24aa 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -232,7 +232,8 @@ class BackpropTrainer(Trainer):
                 raise Exception("Training produced NaN results")
             self.trainingErrors.append(trainingError)
             self.validationErrors.append(validationError)
-            if epochs == 0 or self.validationErrors[-1] < bestverr:
+            epochs += 1
+            if epochs == 1 or self.validationErrors[-1] < bestverr:
                 # one update is always done
                 bestverr = self.validationErrors[-1]
                 bestweights = self.module.params.copy()
@@ -241,7 +242,6 @@ class BackpropTrainer(Trainer):
             if maxEpochs != None and epochs >= maxEpochs:
                 self.module.params[:] = bestweights
                 break
-            epochs += 1
 
             if len(self.validationErrors) >= continueEpochs * 2:
                 # have the validation errors started going up again?
-- 
2.43.0


From 470d009e5bb163e3b8af28afcaa1437ad6dab692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:13 +0000
Subject: [PATCH 063/186] fix: a resilient propagation step modified the
 gradient it was given

---
 pybrain/auxiliary/gradientdescent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/auxiliary/gradientdescent.py b/pybrain/auxiliary/gradientdescent.py
index 4b8b0bb..dc4cdb2 100644
--- a/pybrain/auxiliary/gradientdescent.py
+++ b/pybrain/auxiliary/gradientdescent.py
@@ -2,7 +2,7 @@ __author__ = ('Thomas Rueckstiess, ruecksti@in.tum.de'
               'Justin Bayer, bayer.justin@googlemail.com')
 
 
-from scipy import zeros, asarray, sign, array, cov, dot, clip, ndarray
+from scipy import zeros, sign, array, cov, dot, clip, ndarray
 from scipy.linalg import inv
 
 
@@ -55,7 +55,7 @@ class GradientDescent(object):
         """ calculates parameter change based on given gradient and returns updated parameters """
         # check if gradient has correct dimensionality, then make array """
         assert len(gradient) == len(self.values)
-        gradient_arr = asarray(gradient)
+        gradient_arr = array(gradient)
 
         if self.rprop:
             rprop_theta = self.rprop_theta
-- 
2.43.0


From 7f7c67c0d1484174dab364490d8bc9faf40d9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:13 +0000
Subject: [PATCH 064/186] fix: parameter vectors returned by GradientDescent
 were overwritten by later steps

---
 pybrain/auxiliary/gradientdescent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/auxiliary/gradientdescent.py b/pybrain/auxiliary/gradientdescent.py
index dc4cdb2..d9cedaf 100644
--- a/pybrain/auxiliary/gradientdescent.py
+++ b/pybrain/auxiliary/gradientdescent.py
@@ -89,7 +89,7 @@ class GradientDescent(object):
             # update parameters
             self.values += self.momentumvector
 
-        return self.values
+        return self.values.copy()
 
     descent = __call__
 
-- 
2.43.0


From 9cc06c6d1484484f323b3a9205f5f581de354cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:13 +0000
Subject: [PATCH 065/186] fix: NaturalGradient kept all earlier samples and
 returned an estimate after every further one

---
 pybrain/auxiliary/gradientdescent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/auxiliary/gradientdescent.py b/pybrain/auxiliary/gradientdescent.py
index d9cedaf..a7fb5af 100644
--- a/pybrain/auxiliary/gradientdescent.py
+++ b/pybrain/auxiliary/gradientdescent.py
@@ -116,6 +116,7 @@ class NaturalGradient(object):
         # After all the samples have been put into a single array, we can
         # delete them.
         gradientarray = array(self.samples).T
+        self.samples = []
         inv_covar = inv(cov(gradientarray))
         self.values += dot(inv_covar, gradientarray.sum(axis=1))
         return self.values
-- 
2.43.0


From 40dee563c7427817c3b284f7aebdd783bbeae7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:56 +0000
Subject: [PATCH 066/186] fix: LoggingAgent could not handle observations or
 actions with more than one element

---
 pybrain/rl/agents/logging.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/agents/logging.py b/pybrain/rl/agents/logging.py
index c13e356..745b7ba 100644
--- a/pybrain/rl/agents/logging.py
+++ b/pybrain/rl/agents/logging.py
@@ -41,9 +41,9 @@ class LoggingAgent(Agent):
 
     def getAction(self):
         """Step 2: store the action in a temporary variable until reward is given. """
-        assert self.lastobs != None
-        assert self.lastaction == None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is None
+        assert self.lastreward is None
 
         # implement getAction in subclass and set self.lastaction
 
@@ -51,9 +51,9 @@ class LoggingAgent(Agent):
     def giveReward(self, r):
         """Step 3: store observation, action and reward in the history dataset. """
         # step 3: assume that state and action have been set
-        assert self.lastobs != None
-        assert self.lastaction != None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is not None
+        assert self.lastreward is None
 
         self.lastreward = r
 
-- 
2.43.0


From 6ecc8752df3b447d8f08460e01ca2dce235a7c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 067/186] fix: Q and SARSA never updated anything when not in
 batch mode

---
 pybrain/rl/learners/valuebased/q.py     | 4 +++-
 pybrain/rl/learners/valuebased/sarsa.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/valuebased/q.py b/pybrain/rl/learners/valuebased/q.py
index 9c7fc3f..b90d46f 100644
--- a/pybrain/rl/learners/valuebased/q.py
+++ b/pybrain/rl/learners/valuebased/q.py
@@ -32,7 +32,9 @@ class Q(ValueBasedLearner):
         if self.batchMode:
             samples = self.dataset
         else:
-            samples = [[self.dataset.getSample()]]
+            # the last sample completes the transition from the one before it
+            last = self.dataset.getNumSequences() - 1
+            samples = [list(self.dataset.getSequenceIterator(last))[-2:]]
 
         for seq in samples:
             # information from the previous episode (sequence)
diff --git a/pybrain/rl/learners/valuebased/sarsa.py b/pybrain/rl/learners/valuebased/sarsa.py
index 226a40e..f457c8e 100644
--- a/pybrain/rl/learners/valuebased/sarsa.py
+++ b/pybrain/rl/learners/valuebased/sarsa.py
@@ -28,7 +28,9 @@ class SARSA(ValueBasedLearner):
         if self.batchMode:
             samples = self.dataset
         else:
-            samples = [[self.dataset.getSample()]]
+            # the last sample completes the transition from the one before it
+            last = self.dataset.getNumSequences() - 1
+            samples = [list(self.dataset.getSequenceIterator(last))[-2:]]
 
         for seq in samples:
             # information from the previous episode (sequence)
-- 
2.43.0


From 1616d1c2414c74bf7adc2fb9d863f74fb2f25755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 068/186] fix: Q(lambda) cut off the fraction of rewards and
 learned transitions between episodes

---
 pybrain/rl/learners/valuebased/qlambda.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/learners/valuebased/qlambda.py b/pybrain/rl/learners/valuebased/qlambda.py
index 1c6a507..12b15f7 100644
--- a/pybrain/rl/learners/valuebased/qlambda.py
+++ b/pybrain/rl/learners/valuebased/qlambda.py
@@ -21,10 +21,11 @@ class QLambda(ValueBasedLearner):
 
 
     def learn(self):
-        states = self.dataset['state']
-        actions = self.dataset['action']
-        rewards = self.dataset['reward']
+        for n in range(self.dataset.getNumSequences()):
+            self._learnSequence(*self.dataset.getSequence(n))
 
+    def _learnSequence(self, states, actions, rewards):
+        """ The eligibility trace never reaches into another episode. """
         for i in range(states.shape[0] - 1, 0, -1):
             lbda = self.qlambda ** (states.shape[0] - 1 - i)
             # if eligibility trace gets too long, break
@@ -35,7 +36,7 @@ class QLambda(ValueBasedLearner):
             laststate = int(states[i - 1])
             # action = int(actions[i])
             lastaction = int(actions[i - 1])
-            lastreward = int(rewards[i - 1])
+            lastreward = float(rewards[i - 1])
 
             qvalue = self.module.getValue(laststate, lastaction)
             maxnext = self.module.getValue(state, self.module.getMaxAction(state))
-- 
2.43.0


From c13a419a0085868eac8d39261bc4aefaa877c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 069/186] fix: tables could not be looked up with the float
 coordinates every module input consists of

---
 pybrain/rl/learners/valuebased/interface.py | 2 +-
 pybrain/structure/modules/table.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/valuebased/interface.py b/pybrain/rl/learners/valuebased/interface.py
index c4a6ae1..9c4b657 100644
--- a/pybrain/rl/learners/valuebased/interface.py
+++ b/pybrain/rl/learners/valuebased/interface.py
@@ -56,7 +56,7 @@ class ActionValueTable(Table, ActionValueInterface):
         return action
 
     def getActionValues(self, state):
-        return self.params.reshape(self.numRows, self.numColumns)[state, :].flatten()
+        return self.params.reshape(self.numRows, self.numColumns)[int(state), :].flatten()
 
     def initialize(self, value=0.0):
         """ Initialize the whole table with the given value. """
diff --git a/pybrain/structure/modules/table.py b/pybrain/structure/modules/table.py
index 73ee811..cebca9a 100644
--- a/pybrain/structure/modules/table.py
+++ b/pybrain/structure/modules/table.py
@@ -23,7 +23,7 @@ class Table(Module, ParameterContainer):
         """ takes two coordinates, row and column, and returns the
             value in the table.
         """
-        outbuf[0] = self.params.reshape(self.numRows, self.numColumns)[inbuf[0], inbuf[1]]
+        outbuf[0] = self.params.reshape(self.numRows, self.numColumns)[int(inbuf[0]), int(inbuf[1])]
 
     def updateValue(self, row, column, value):
         """ set the value at a certain location in the table. """
-- 
2.43.0


From b8460285f91365c0f91facfb8628f0b3214b4bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 070/186] fix: batch learning of LinearFA_Agent crashed on the
 recorded actions and started from a transition that never happened

---
 pybrain/rl/agents/linearfa.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pybrain/rl/agents/linearfa.py b/pybrain/rl/agents/linearfa.py
index 8a6024d..07e8bf4 100644
--- a/pybrain/rl/agents/linearfa.py
+++ b/pybrain/rl/agents/linearfa.py
@@ -79,11 +79,15 @@ class LinearFA_Agent(LoggingAgent):
         if not self.learner.batchMode:
             print('Learning is done online, and already finished.')
             return
+        last = None
         for seq in self.history:
             for obs, action, reward in seq:
-                if self.lastobs is not None:
-                    self.learner._updateWeights(self.lastobs, self.lastaction, self.lastreward, obs)
-                self.lastobs = obs
-                self.lastaction = action[0]
-                self.lastreward = reward
+                action = int(action[0])
+                if last is not None:
+                    if self.learner.passNextAction:
+                        last = last + [obs, action]
+                    else:
+                        last = last + [obs]
+                    self.learner._updateWeights(*last)
+                last = [obs, action, reward[0]]
             self.learner.newEpisode()
-- 
2.43.0


From fee8915f5d14885b8ca0e26c7679b261f863361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:53 +0000
Subject: [PATCH 071/186] fix: NFQ used the recorded actions as float indices,
 which numpy refuses

---
 pybrain/rl/learners/valuebased/nfq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/valuebased/nfq.py b/pybrain/rl/learners/valuebased/nfq.py
index 2332026..57b0908 100644
--- a/pybrain/rl/learners/valuebased/nfq.py
+++ b/pybrain/rl/learners/valuebased/nfq.py
@@ -29,10 +29,11 @@ class NFQ(ValueBasedLearner):
 
                 # use experience from last timestep to do Q update
                 (state_, action_, reward_) = lastexperience
+                action_ = int(action_[0])
 
-                Q = self.module.getValue(state_, action_[0])
+                Q = self.module.getValue(state_, action_)
 
-                inp = r_[state_, one_to_n(action_[0], self.module.numActions)]
+                inp = r_[state_, one_to_n(action_, self.module.numActions)]
                 tgt = Q + 0.5*(reward_ + self.gamma * max(self.module.getActionValues(state)) - Q)
                 supervised.addSample(inp, tgt)
 
-- 
2.43.0


From 82eee684f3b56f559f04584f4bf0c6789a65a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:39 +0000
Subject: [PATCH 072/186] fix: randomDeterministic crashed on every model

---
 pybrain/rl/learners/modelbased/policyiteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/modelbased/policyiteration.py b/pybrain/rl/learners/modelbased/policyiteration.py
index e04a668..bcb0845 100644
--- a/pybrain/rl/learners/modelbased/policyiteration.py
+++ b/pybrain/rl/learners/modelbased/policyiteration.py
@@ -113,7 +113,7 @@ def randomDeterministic(Ts):
     dim = len(Ts[0])
     choices = (rand(dim) * numA).astype(int)
     policy = zeros((dim, numA))
-    for si, a in choices:
+    for si, a in enumerate(choices):
         policy[si, a] = 1
     return policy, collapsedTransitions(Ts, policy)
 
-- 
2.43.0


From 62beb05ca82065f51cfded820e9d64d5d5f1192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:39 +0000
Subject: [PATCH 073/186] fix: model-based methods crashed on transition
 matrices and rewards given as integers

---
 pybrain/rl/learners/modelbased/leastsquares.py    | 3 +--
 pybrain/rl/learners/modelbased/policyiteration.py | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pybrain/rl/learners/modelbased/leastsquares.py b/pybrain/rl/learners/modelbased/leastsquares.py
index 8d49da1..e32804c 100644
--- a/pybrain/rl/learners/modelbased/leastsquares.py
+++ b/pybrain/rl/learners/modelbased/leastsquares.py
@@ -45,8 +45,7 @@ def trueFeatureStats(T, R, fMap, discountFactor, stateProp=1, MAT_LIMIT=1e8):
         tmp1 = tile(fMap, (numStates,1,1))
         tmp2 = transpose(tmp1, (2,1,0))
         tmp3 = tmp2 - discountFactor * tmp1            
-        tmp4 = tile(T, (dim,1,1))
-        tmp4 *= transpose(tmp1, (1,2,0))
+        tmp4 = tile(T, (dim,1,1)) * transpose(tmp1, (1,2,0))
         statMatrix = tensordot(tmp3, tmp4, axes=[[0,2], [1,2]]).T
         statResidual = dot(R, dot(fMap, T).T)
     else:
diff --git a/pybrain/rl/learners/modelbased/policyiteration.py b/pybrain/rl/learners/modelbased/policyiteration.py
index bcb0845..7a8ea1e 100644
--- a/pybrain/rl/learners/modelbased/policyiteration.py
+++ b/pybrain/rl/learners/modelbased/policyiteration.py
@@ -31,7 +31,7 @@ Note: a task model combined with a policy is again a transition matrix ("collaps
 # TODO: optimize some of this code with vectorization
     
 
-from scipy import dot, zeros, zeros_like, ones, mean, array, ravel, rand
+from scipy import dot, zeros, ones, mean, array, ravel, rand
 from numpy.matlib import repmat
 
 from pybrain.utilities import all_argmax
@@ -42,7 +42,7 @@ def trueValues(T, R, discountFactor):
     given a policy (encoded as collapsed transition matrix). """
     assert discountFactor < 1
     distr = T.copy()
-    res = dot(T, R)
+    res = dot(T, R) * 1.
     for i in range(1, int(10 / (1. - discountFactor))):
         distr = dot(distr, T)
         res += (discountFactor ** i) * dot(distr, R)
@@ -66,8 +66,8 @@ def trueQValues(Ts, R, discountFactor, policy):
 def collapsedTransitions(Ts, policy):
     """ Collapses a list of transition matrices (one per action) and a list 
         of action probability vectors into a single transition matrix."""
-    res = zeros_like(Ts[0])
     dim = len(Ts[0])
+    res = zeros((dim, dim))
     for ai, ap in enumerate(policy.T):
         res += Ts[ai] * repmat(ap, dim, 1).T
     return res
-- 
2.43.0


From c98832cb0d5eb9cf6c1372ba31a9d87d4fa80fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:44 +0000
Subject: [PATCH 074/186] fix: drawIndex normalised the array of the caller,
 and crashed on lists and integers

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index f8d3068..709ebcf 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -38,7 +38,7 @@ def drawIndex(probs, tolerant=False):
     :key tolerant: if set to True, the array is normalized to sum to 1.  """
     if not sum(probs) < 1.00001 or not sum(probs) > 0.99999:
         if tolerant:
-            probs /= sum(probs)
+            probs = array(probs) / float(sum(probs))
         else:
             print((probs, 1 - sum(probs)))
             raise ValueError()
-- 
2.43.0


From aec9948a740bc5fc9a9a86f517e43796e9add4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:44 +0000
Subject: [PATCH 075/186] fix: the explorer of a learner with a module could
 not be switched off

---
 pybrain/rl/learners/valuebased/valuebased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/valuebased/valuebased.py b/pybrain/rl/learners/valuebased/valuebased.py
index 3f15aee..863b798 100644
--- a/pybrain/rl/learners/valuebased/valuebased.py
+++ b/pybrain/rl/learners/valuebased/valuebased.py
@@ -35,7 +35,7 @@ class ValueBasedLearner(ExploringLearner, DataSetLearner, EpisodicLearner):
     def _setExplorer(self, explorer):
         """ Set explorer and tell it the module, if already available. """
         self._explorer = explorer
-        if self.module:
+        if self.module and explorer:
             self._explorer.module = self.module
 
     def _getExplorer(self):
-- 
2.43.0


From 9064bc77f1273454c778cf7046e382d885b5b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 076/186] fix: Task.normalize did not clip although clipping is
 on

---
 pybrain/rl/environments/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/task.py b/pybrain/rl/environments/task.py
index e771044..00e0cea 100644
--- a/pybrain/rl/environments/task.py
+++ b/pybrain/rl/environments/task.py
@@ -54,7 +54,7 @@ class Task(object):
             else:
                 result.append((s - l[0]) / (l[1] - l[0]) * 2 - 1.0)
         if self.clipping:
-            clip(result, -1, 1)
+            result = [s if not l else clip(s, -1, 1) for l, s in zip(self.sensor_limits, result)]
         return asarray(result)
 
     def denormalize(self, actors):
-- 
2.43.0


From 9f0206f1df2320b35c2756d585871c6797a730b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 077/186] fix: the cumulative reward of MinimizeTask was
 computed from the action before

---
 pybrain/rl/environments/simple/tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/simple/tasks.py b/pybrain/rl/environments/simple/tasks.py
index 7419880..6e91f1c 100644
--- a/pybrain/rl/environments/simple/tasks.py
+++ b/pybrain/rl/environments/simple/tasks.py
@@ -28,8 +28,8 @@ class MinimizeTask(EpisodicTask):
         return self.state
 
     def performAction(self, action):
-        EpisodicTask.performAction(self, action)
         self.action = action
+        EpisodicTask.performAction(self, action)
 
     def getReward(self):
         # sleep(0.01)
-- 
2.43.0


From 2f8f37523fb3c01079277906422d45fd750c0ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 078/186] fix: the XOR tasks produced fractional observations
 and crashed on them

---
 pybrain/rl/environments/classic/xor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/classic/xor.py b/pybrain/rl/environments/classic/xor.py
index 98ef395..cfb551c 100644
--- a/pybrain/rl/environments/classic/xor.py
+++ b/pybrain/rl/environments/classic/xor.py
@@ -26,7 +26,7 @@ class XORTask(EpisodicTask):
         if self.randomorder:
             self.obs = array([randint(0,1), randint(0,1), 1])
         else:
-            self.obs = array([self._counter%2, (self._counter/2)%2, 1])    
+            self.obs = array([self._counter%2, (self._counter//2)%2, 1])    
         self._counter += 1    
         return self.obs
         
@@ -64,7 +64,7 @@ class XORChainTask(XORTask):
         self.state = 0
         
     def getObservation(self):
-        self.obs = array([self.state%2, (self.state/2)%2, 1])    
+        self.obs = array([self.state%2, (self.state//2)%2, 1])    
         return self.obs
         
     def performAction(self, action):
-- 
2.43.0


From 33e5481da8377849e9def6d0b18ee67b73127c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 079/186] fix: MountainCar and Acrobot kept the cumulative
 reward of the episodes before a reset

---
 pybrain/rl/environments/classic/acrobot.py     | 4 +++-
 pybrain/rl/environments/classic/mountaincar.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/classic/acrobot.py b/pybrain/rl/environments/classic/acrobot.py
index d778884..8deca65 100644
--- a/pybrain/rl/environments/classic/acrobot.py
+++ b/pybrain/rl/environments/classic/acrobot.py
@@ -70,13 +70,15 @@ class AcrobotTask(EpisodicTask):
             
     def reset(self):
         self.state = self.GetInitialState()
+        self.cumreward = 0
             
     def getReward(self):
         return self.r
     
     def isFinished(self):
         if self.done>=3 and self.resetOnSuccess:
-            self.reset()
+            # continue with a new trial in the same episode
+            self.state = self.GetInitialState()
             return False
         else:
             return self.done>=3
diff --git a/pybrain/rl/environments/classic/mountaincar.py b/pybrain/rl/environments/classic/mountaincar.py
index 4f4cc2f..a093956 100644
--- a/pybrain/rl/environments/classic/mountaincar.py
+++ b/pybrain/rl/environments/classic/mountaincar.py
@@ -42,6 +42,7 @@ class MountainCar(EpisodicTask):
 
     def reset(self):
         self.state = self.GetInitialState()
+        self.cumreward = 0
     
     def getObservation(self):    
         #print(array([self.state[0], self.state[1] * 100, 1]))
@@ -69,7 +70,8 @@ class MountainCar(EpisodicTask):
         
     def isFinished(self):
         if self.done>=3 and self.resetOnSuccess:
-            self.reset()
+            # continue with a new trial in the same episode
+            self.state = self.GetInitialState()
             return False
         else:
             return self.done>=3
-- 
2.43.0


From 3bc4b9464c036450eb7ba418a6a3e3a0db2fea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 080/186] fix: DoublePoleEnvironment judged the state before
 the action and declared no sensors

---
 pybrain/rl/environments/cartpole/doublepole.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/cartpole/doublepole.py b/pybrain/rl/environments/cartpole/doublepole.py
index ed6409a..6ccd135 100644
--- a/pybrain/rl/environments/cartpole/doublepole.py
+++ b/pybrain/rl/environments/cartpole/doublepole.py
@@ -8,7 +8,7 @@ class DoublePoleEnvironment(Environment):
     """ two poles to be balanced from the same cart. """
 
     indim = 1
-    ooutdim = 6
+    outdim = 6
 
     def __init__(self):
         self.p1 = CartPoleEnvironment()
@@ -42,6 +42,7 @@ class DoublePoleEnvironment(Environment):
         """
         self.p1.performAction(action)
         self.p2.performAction(action)
+        self.getSensors()
 
     def getCartPosition(self):
         """ auxiliary access to just the cart position, to be used by BalanceTask """
-- 
2.43.0


From e8dae8fe2b0f6fdecc70ecde296ab1952852c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 081/186] fix: pole environments without velocities took a
 velocity for the cart position and one angle for another

---
 pybrain/rl/environments/cartpole/nonmarkovdoublepole.py | 8 --------
 pybrain/rl/environments/cartpole/nonmarkovpole.py       | 4 ----
 2 files changed, 12 deletions(-)

diff --git a/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py b/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
index 6011946..ef26999 100644
--- a/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
+++ b/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
@@ -18,12 +18,4 @@ class NonMarkovDoublePoleEnvironment(DoublePoleEnvironment, NonMarkovPoleEnviron
         tmp = DoublePoleEnvironment.getSensors(self)
         return (tmp[0], tmp[2], tmp[4])
 
-    def getPoleAngles(self):
-        """ auxiliary access to just the pole angle(s), to be used by BalanceTask """
-        return [self.sensors[0], self.sensors[1]]
-
-    def getCartPosition(self):
-        """ auxiliary access to just the cart position, to be used by BalanceTask """
-        return self.sensors[2]
-
 
diff --git a/pybrain/rl/environments/cartpole/nonmarkovpole.py b/pybrain/rl/environments/cartpole/nonmarkovpole.py
index 301a592..250fa53 100644
--- a/pybrain/rl/environments/cartpole/nonmarkovpole.py
+++ b/pybrain/rl/environments/cartpole/nonmarkovpole.py
@@ -17,8 +17,4 @@ class NonMarkovPoleEnvironment(CartPoleEnvironment):
         tmp = CartPoleEnvironment.getSensors(self)
         return (tmp[0], tmp[2])
 
-    def getCartPosition(self):
-        """ auxiliary access to just the cart position, to be used by BalanceTask """
-        return self.sensors[1]
-
 
-- 
2.43.0


From 176bc4f30b11320d0fed42ba250538f7770f12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:51 +0000
Subject: [PATCH 082/186] fix: the module-deciding Gomoku player mixed up the
 positions of boards that are not square

---
 .../twoplayergames/gomokuplayers/moduledecision.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py b/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
index d6ad145..8642178 100644
--- a/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
+++ b/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
@@ -59,10 +59,10 @@ class ModuleDecidingPlayer(RandomGomokuPlayer):
         return drawn
 
     def _convertIndexToPos(self, i):
-        return (i//self.game.size[0], i%self.game.size[0])
+        return (i//self.game.size[1], i%self.game.size[1])
 
     def _convertPosToIndex(self, p):
-        return p[0]*self.game.size[0]+p[1]
+        return p[0]*self.game.size[1]+p[1]
 
     def integrateObservation(self, obs = None):
         pass
-- 
2.43.0


From d1b344913b86d5f1466ce9ace03a04d5743472bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:51 +0000
Subject: [PATCH 083/186] fix: module-deciding players could draw an illegal
 move and stop the game

---
 .../capturegameplayers/moduledecision.py               | 10 +++-------
 .../twoplayergames/gomokuplayers/moduledecision.py     | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegameplayers/moduledecision.py b/pybrain/rl/environments/twoplayergames/capturegameplayers/moduledecision.py
index 035e20e..1c7e752 100644
--- a/pybrain/rl/environments/twoplayergames/capturegameplayers/moduledecision.py
+++ b/pybrain/rl/environments/twoplayergames/capturegameplayers/moduledecision.py
@@ -3,7 +3,7 @@ from __future__ import print_function
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 
-from scipy import zeros, ones
+from scipy import zeros, array
 
 from pybrain.rl.environments.twoplayergames import CaptureGame
 from .randomplayer import RandomCapturePlayer
@@ -51,12 +51,8 @@ class ModuleDecidingPlayer(RandomCapturePlayer):
             print((self.module.outputbuffer))
             raise Exception('Non-positive value in array?')
         legals = self.game.getLegals(self.color)
-        vals = ones(len(a))*(-100)*(1+self.temperature)
-        for i in map(self._convertPosToIndex, legals):
-            vals[i] = a[i]
-        drawn = self._convertIndexToPos(drawGibbs(vals, self.temperature))
-        assert drawn in legals, (drawn, legals)
-        return drawn
+        vals = array([a[self._convertPosToIndex(p)] for p in legals])
+        return legals[drawGibbs(vals, self.temperature)]
 
     def _convertIndexToPos(self, i):
         return (i//self.game.size, i%self.game.size)
diff --git a/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py b/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
index 8642178..2793322 100644
--- a/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
+++ b/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
@@ -3,7 +3,7 @@ from __future__ import print_function
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 
-from scipy import zeros, ones
+from scipy import zeros, array
 
 from pybrain.rl.environments.twoplayergames import GomokuGame
 from .randomplayer import RandomGomokuPlayer
@@ -51,12 +51,8 @@ class ModuleDecidingPlayer(RandomGomokuPlayer):
             print((self.module.outputbuffer))
             raise Exception('No positve value in array?')
         legals = self.game.getLegals(self.color)
-        vals = ones(len(a))*(-100)*(1+self.temperature)
-        for i in map(self._convertPosToIndex, legals):
-            vals[i] = a[i]
-        drawn = self._convertIndexToPos(drawGibbs(vals, self.temperature))
-        assert drawn in legals
-        return drawn
+        vals = array([a[self._convertPosToIndex(p)] for p in legals])
+        return legals[drawGibbs(vals, self.temperature)]
 
     def _convertIndexToPos(self, i):
         return (i//self.game.size[1], i%self.game.size[1])
-- 
2.43.0


From cb51c3dec5546f62ff8c8a7bf7c3e222579f6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:51 +0000
Subject: [PATCH 084/186] fix: tournaments counted every draw as a win of the
 second player

---
 pybrain/rl/experiments/tournament.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/rl/experiments/tournament.py b/pybrain/rl/experiments/tournament.py
index d298311..bda2ca9 100644
--- a/pybrain/rl/experiments/tournament.py
+++ b/pybrain/rl/experiments/tournament.py
@@ -66,6 +66,8 @@ class Tournament(Named):
         wincolor = self.env.getWinner()
         if wincolor == p1.color:
             winner = p1
+        elif wincolor == self.env.DRAW:
+            winner = self.env.DRAW
         else:
             winner = p2
         self.results[players].append(winner)
-- 
2.43.0


From 9183da0f8ea736914c8fe39e700402cd4d37084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:51 +0000
Subject: [PATCH 085/186] fix: Gomoku and Pente tasks left a given opponent
 playing on another board

---
 pybrain/rl/environments/twoplayergames/tasks/gomokutask.py | 2 ++
 pybrain/rl/environments/twoplayergames/tasks/pentetask.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py b/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py
index 3c0296d..8355563 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py
@@ -38,6 +38,8 @@ class GomokuTask(EpisodicTask, Named):
         elif isclass(opponent):
             # assume the agent can be initialized without arguments then.
             opponent = opponent(self.env)
+        else:
+            opponent.game = self.env
         if not self.opponentStart:
             opponent.color = GomokuGame.WHITE
         self.opponent = opponent
diff --git a/pybrain/rl/environments/twoplayergames/tasks/pentetask.py b/pybrain/rl/environments/twoplayergames/tasks/pentetask.py
index daa5338..65767a6 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/pentetask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/pentetask.py
@@ -19,6 +19,8 @@ class PenteTask(GomokuTask):
         elif isclass(opponent):
             # assume the agent can be initialized without arguments then.
             opponent = opponent(self.env)
+        else:
+            opponent.game = self.env
         if not self.opponentStart:
             opponent.color = PenteGame.WHITE
         self.opponent = opponent
-- 
2.43.0


From c34041bd321a5198fcb2df9dd1dadd0a874a44ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:51 +0000
Subject: [PATCH 086/186] fix: a drawn Gomoku game counted as lost for the
 first player

---
 .../environments/twoplayergames/tasks/relativegomokutask.py   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py b/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
index bcf49d1..ae0a1a4 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
@@ -111,7 +111,9 @@ class RelativeGomokuTask(GomokuTask):
         if self.verbose:
             print(('Preset:', preset, 'T:', self.temp, 'Win:', win, 'after', moves, 'moves.'))
         res = 1 - self.numMovesCoeff * (moves -self.minmoves)/(self.maxmoves-self.minmoves)
-        if win:
+        if self.env.winner == self.env.DRAW:
+            return 0
+        elif win:
             return res
         else:
             return -res
-- 
2.43.0


From 4f34bfbda0077c514325974897d2a9da63bae051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 087/186] fix: optimizers did one learning step more than
 maxLearningSteps

---
 pybrain/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index d6faf3f..0b4dce5 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -195,7 +195,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
         """ The main loop that does the learning. """
         assert self.__evaluator is not None, "No evaluator has been set. Learning cannot start."
         if additionalLearningSteps is not None:
-            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps - 1
+            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps
         while not self._stoppingCriterion():
             try:
                 self._learnStep()
@@ -287,7 +287,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
             if ((self.minimize and self.bestEvaluation <= self.desiredEvaluation)
                 or (not self.minimize and self.bestEvaluation >= self.desiredEvaluation)):
                 return True
-        if self.maxLearningSteps is not None and self.numLearningSteps > self.maxLearningSteps:
+        if self.maxLearningSteps is not None and self.numLearningSteps >= self.maxLearningSteps:
             return True
         return False
     
-- 
2.43.0


From 734c1c77519bfc3f02758e3ca55a8c52f3e17fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 088/186] fix: optimizers forgot the best point of their
 initial population but not its value

---
 pybrain/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 0b4dce5..9863bdb 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -152,8 +152,8 @@ class BlackBoxOptimizer(DirectSearchLearner):
         #set the starting point for optimization (as provided, or randomly)
         self._setInitEvaluable(initEvaluable)        
         self.bestEvaluation = None
-        self._additionalInit()
         self.bestEvaluable = self._initEvaluable
+        self._additionalInit()
         
     def _flipDirection(self):
         self.__evaluator = oppositeFunction(self.__evaluator)
-- 
2.43.0


From 56534f731ab754acbe2174d27dc2cbb326c87bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 089/186] fix: optimizers could not move away from integer
 starting points

---
 pybrain/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 9863bdb..c871ba1 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -172,8 +172,8 @@ class BlackBoxOptimizer(DirectSearchLearner):
             else:
                 raise ValueError('Could not determine the dimensionality of the evaluator. '+\
                                  'Please provide an initial search point.')   
-        if isinstance(evaluable, list):
-            evaluable = array(evaluable)
+        if isinstance(evaluable, (list, ndarray)):
+            evaluable = array(evaluable, dtype=float)
         
         # If the evaluable is provided as a list of numbers or as an array,
         # we wrap it into a ParameterContainer.
-- 
2.43.0


From 78b37028a28c5f40bb41b091e4d4836b28acad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 090/186] fix: GA could not start on functions without explicit
 bounds

---
 pybrain/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index c871ba1..b942ed0 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -134,7 +134,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
                                      +" but it was set to "+str(self.numParameters)+".")
                 '''added by JPQ to handle boundaries on the parameters'''
                 self.evaluator = evaluator
-                if self.xBound is None:            
+                if self.xBound is None and not isscalar(evaluator.xbound):
                     self.xBound = evaluator.xbound
                 if self.feasible is None:
                     self.feasible = evaluator.feasible
-- 
2.43.0


From b597f6afc2547c11a775a00fcc987a69d65f1d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 091/186] fix: ES could not do a learning step

---
 pybrain/optimization/populationbased/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index c2405b7..473dbd6 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -49,7 +49,7 @@ class ES(BlackBoxOptimizer):
             self._sortPopulation(noHallOfFame = True)
 
         # produce offspring from the the mu best ones
-        self.population = self.population[:self.mu] * (self._popsize/self.mu)
+        self.population = self.population[:self.mu] * (self._popsize//self.mu)
 
         # mutate the offspring
         if self.elitism:
-- 
2.43.0


From 2af873ec63ed0de4857d76ac72a5a4c2dbceb80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 092/186] fix: ES with a noisy evaluator exceeded the
 evaluation limit

---
 pybrain/optimization/populationbased/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index 473dbd6..ba0e320 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -70,7 +70,7 @@ class ES(BlackBoxOptimizer):
     @property
     def batchSize(self):
         if self.evaluatorIsNoisy:
-            return self._popsize
+            return self.mu + self.lambada
         else:
             return self.lambada
 
-- 
2.43.0


From f1ca64fd65b86319b813a09f2b85f018b2013bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 093/186] fix: ES compared fitnesses of opposite sign when the
 direction was set after construction

---
 pybrain/optimization/populationbased/es.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index ba0e320..5977936 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -28,6 +28,15 @@ class ES(BlackBoxOptimizer):
         list(map(self._replaceByMutation, list(range(1, self._popsize))))
         self._sortPopulation()
 
+    def _flipDirection(self):
+        BlackBoxOptimizer._flipDirection(self)
+        if self.numEvaluations > 0:
+            # the initial population has been evaluated already
+            self.population = [(-f, x) for f, x in self.population]
+            self.hallOfFame = []
+            self._sortPopulation()
+            self.bestEvaluation, self.bestEvaluable = self.population[0]
+
     @property
     def _popsize(self):
         if self.elitism:
-- 
2.43.0


From fb9a8ffbf12d13944b993071f8cb4cca9846670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 094/186] fix: StochasticHillClimber returned the point where
 it happened to be instead of the best one

---
 pybrain/optimization/hillclimber.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pybrain/optimization/hillclimber.py b/pybrain/optimization/hillclimber.py
index ca15e8a..82df8a5 100644
--- a/pybrain/optimization/hillclimber.py
+++ b/pybrain/optimization/hillclimber.py
@@ -40,20 +40,26 @@ class StochasticHillClimber(HillClimber):
     #: The larger the temperature, the more explorative (less greedy) it behaves.
     temperature = 1.
 
+    def _additionalInit(self):
+        HillClimber._additionalInit(self)
+        # the search may be somewhere else than at the best point found so far
+        self.currentEvaluable, self.currentEvaluation = self._initEvaluable, self.bestEvaluation
+
     def _learnStep(self):
         # re-evaluate the current individual in case the evaluator is noisy
         if self.evaluatorIsNoisy:
-            self.bestEvaluation = self._oneEvaluation(self.bestEvaluable)
+            self.currentEvaluation = self._oneEvaluation(self.currentEvaluable)
 
         # hill-climbing
-        challenger = self.bestEvaluable.copy()
+        challenger = self.currentEvaluable.copy()
         challenger.mutate()
         newEval = self._oneEvaluation(challenger)
 
-        # if the new evaluation was better, it got stored automatically. Otherwise:
-        if ((not self.minimize and newEval < self.bestEvaluation) or
-            (self.minimize and newEval > self.bestEvaluation)):
-            acceptProbability = exp(-abs(newEval-self.bestEvaluation)/self.temperature)
-            if random() < acceptProbability:
-                self.bestEvaluable, self.bestEvaluation = challenger, newEval
+        # always move to a better point, sometimes to a worse one
+        accept = True
+        if ((not self.minimize and newEval < self.currentEvaluation) or
+            (self.minimize and newEval > self.currentEvaluation)):
+            accept = random() < exp(-abs(newEval-self.currentEvaluation)/self.temperature)
+        if accept:
+            self.currentEvaluable, self.currentEvaluation = challenger, newEval
 
-- 
2.43.0


From 7d0be9df64fe248a5a92ef91648d7e5d48d25f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 095/186] fix: NelderMead exceeded the evaluation limit

---
 pybrain/optimization/neldermead.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/neldermead.py b/pybrain/optimization/neldermead.py
index 394d6be..d656393 100644
--- a/pybrain/optimization/neldermead.py
+++ b/pybrain/optimization/neldermead.py
@@ -22,13 +22,18 @@ class NelderMead(ContinuousOptimizer):
         if self._stoppingCriterion():
             raise DesiredFoundException()
 
+    def _limitedEvaluation(self, x):
+        if self.maxEvaluations is not None and self.numEvaluations >= self.maxEvaluations:
+            raise DesiredFoundException()
+        return self._oneEvaluation(x)
+
     def _learnStep(self):
         try:
-            fmin(func = self._oneEvaluation,
+            fmin(func = self._limitedEvaluation,
                  x0 = self.bestEvaluable,
                  callback = self._callback,
                  ftol = self.stopPrecision,
-                 maxfun = self.maxEvaluations-self.numEvaluations-1,
+                 maxfun = None if self.maxEvaluations is None else self.maxEvaluations-self.numEvaluations,
                  disp = self.verbose)
         except DesiredFoundException:
             pass
-- 
2.43.0


From e496e48e1fc02871640de4e66fb53a76bffeb4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 096/186] fix: FiniteDifferences climbed when asked to minimize

---
 pybrain/optimization/finitedifference/fd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/optimization/finitedifference/fd.py b/pybrain/optimization/finitedifference/fd.py
index ad64f9c..436bc4b 100644
--- a/pybrain/optimization/finitedifference/fd.py
+++ b/pybrain/optimization/finitedifference/fd.py
@@ -14,6 +14,8 @@ class FiniteDifferences(ContinuousOptimizer):
     gamma = 0.999
     batchSize = 10
 
+    mustMaximize = True
+
     # gradient descent parameters
     learningRate = 0.1
     learningRateDecay = None
-- 
2.43.0


From 8d97077fdb8738a6f572d59cdbf037700692a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 097/186] fix: PGPE with global exploration stopped with an
 AttributeError

---
 pybrain/optimization/finitedifference/pgpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/finitedifference/pgpe.py b/pybrain/optimization/finitedifference/pgpe.py
index c6da77d..1264cd6 100644
--- a/pybrain/optimization/finitedifference/pgpe.py
+++ b/pybrain/optimization/finitedifference/pgpe.py
@@ -72,7 +72,7 @@ class PGPE(FiniteDifferences):
         if fakt2 > 0.: #for sigma adaption alg. follows only positive gradients
             if self.exploration == "global":         
                 #apply sigma update globally        
-                self.sigList = self.gdSig(fakt2 * ((self.deltas ** 2).sum() - (self.sigList ** 2).sum())
+                self.sigList = self.gdSig(fakt2 * ((deltas ** 2).sum() - (self.sigList ** 2).sum())
                                           / (self.sigList * float(self.numParameters)))
             elif self.exploration == "local":
                 #apply sigma update locally
-- 
2.43.0


From 08e68119c7a86e6be448a83966defed11c17b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 098/186] fix: the vanilla, original and exact NES could not be
 constructed or mix samples

---
 pybrain/optimization/distributionbased/ves.py | 12 ++++++------
 pybrain/utilities.py                          |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index 4851294..a44abba 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -47,7 +47,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
     def _additionalInit(self):
         xdim = self.numParameters
         assert not self.diagonalOnly, 'Diagonal-only not yet supported'
-        self.numDistrParams = xdim + xdim * (xdim + 1) / 2
+        self.numDistrParams = xdim + xdim * (xdim + 1) // 2
 
         if self.momentum != None:
             self.momentumVector = zeros(self.numDistrParams)
@@ -56,11 +56,11 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         if self.batchSize is None:
             self.batchSize = 10 * self.numParameters
 
-        if self.rangemins == None:
+        if self.rangemins is None:
             self.rangemins = -ones(xdim)
-        if self.rangemaxs == None:
+        if self.rangemaxs is None:
             self.rangemaxs = ones(xdim)
-        if self.initCovariances == None:
+        if self.initCovariances is None:
             if self.diagonalOnly:
                 self.initCovariances = ones(xdim)
             else:
@@ -86,7 +86,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
             self._allDistributions = [(self.x.copy(), self.sigma.copy())]
 
     def _produceNewSample(self, z=None):
-        if z == None:
+        if z is None:
             p = randn(self.numParameters)
             z = dot(self.factorSigma.T, p) + self.x
         self.allSamples.append(z)
@@ -195,7 +195,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         self.sigma = dot(self.factorSigma.T, self.factorSigma)
 
         if self.storeAllDistributions:
-            self._allDistributions.append(self.x.copy(), self.sigma.copy())
+            self._allDistributions.append((self.x.copy(), self.sigma.copy()))
 
     def _calcBatchUpdate(self, fitnesses):
         gradient = self._calcVanillaBatchGradient(self.allSamples[-self.batchSize:], fitnesses)
diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 709ebcf..1f18ea4 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -557,7 +557,7 @@ def triu2flat(m):
     """ Flattens an upper triangular matrix, returning a vector of the
     non-zero elements. """
     dim = m.shape[0]
-    res = zeros(dim * (dim + 1) / 2)
+    res = zeros(dim * (dim + 1) // 2)
     index = 0
     for row in range(dim):
         res[index:index + dim - row] = m[row, row:]
-- 
2.43.0


From e87c619889a7042b98a61a98d05d425a972d279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 099/186] fix: blockCombine could not build matrices that are
 not square

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 1f18ea4..a94a898 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -596,7 +596,7 @@ def blockCombine(l):
     hs = sum(hdims)
     vdims = [row[0].shape[0] for row in l]
     vs = sum(vdims)
-    res = zeros((hs, vs))
+    res = zeros((vs, hs))
     vindex = 0
     for i, row in enumerate(l):
         hindex = 0
-- 
2.43.0


From e2de7e7f7e3a4e5a192c3c57bc98fcb479593a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 100/186] fix: FEM could not be given initial ranges or
 covariances

---
 pybrain/optimization/distributionbased/fem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/optimization/distributionbased/fem.py b/pybrain/optimization/distributionbased/fem.py
index 86edfb9..c5faee6 100644
--- a/pybrain/optimization/distributionbased/fem.py
+++ b/pybrain/optimization/distributionbased/fem.py
@@ -59,11 +59,11 @@ class FEM(DistributionBasedOptimizer):
         self.mus = []
         self.sigmas = []
 
-        if self.rangemins == None:
+        if self.rangemins is None:
             self.rangemins = -ones(xdim)
-        if self.rangemaxs == None:
+        if self.rangemaxs is None:
             self.rangemaxs = ones(xdim)
-        if self.initCovariances == None:
+        if self.initCovariances is None:
             if self.diagonalOnly:
                 self.initCovariances = ones(xdim)
             else:
-- 
2.43.0


From c862db00235efd91d648333881721fd2ecec6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 101/186] fix: XNES with importance mixing mixed fitnesses
 instead of samples

---
 pybrain/optimization/distributionbased/xnes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pybrain/optimization/distributionbased/xnes.py b/pybrain/optimization/distributionbased/xnes.py
index 245ebe3..6d1adf2 100644
--- a/pybrain/optimization/distributionbased/xnes.py
+++ b/pybrain/optimization/distributionbased/xnes.py
@@ -70,6 +70,7 @@ class XNES(DistributionBasedOptimizer):
 
         self._lastLogDetA = self._logDetA
         self._lastInvA = self._invA
+        self._lastCenter = self._center.copy()
 
         self._center += self.centerLearningRate * dot(self._A, dCenter)
         self._A = dot(self._A, expm(dA))
@@ -81,8 +82,6 @@ class XNES(DistributionBasedOptimizer):
     @property
     def _lastA(self): return self._allDistributions[-2][1]
     @property
-    def _lastCenter(self): return self._allDistributions[-2][0]
-    @property
     def _population(self):
         if self._wasUnwrapped:
             return [self._allEvaluated[i].params for i in self._pointers]
@@ -125,7 +124,7 @@ class XNES(DistributionBasedOptimizer):
             [self._oneEvaluation(self._sample2base(self._produceSample())) for _ in range(self.batchSize)]
             self._pointers = list(range(len(self._allEvaluated)-self.batchSize, len(self._allEvaluated)))
         else:
-            reuseindices, newpoints = importanceMixing(list(map(self._base2sample, self._currentEvaluations)),
+            reuseindices, newpoints = importanceMixing(list(map(self._base2sample, self._population)),
                                                        self._oldpdf, self._newpdf, self._produceSample, self.forcedRefresh)
             [self._oneEvaluation(self._sample2base(s)) for s in newpoints]
             self._pointers = ([self._pointers[i] for i in reuseindices]+
-- 
2.43.0


From ae4f98b84db8f221cca51d27ed46327f98665a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:31 +0000
Subject: [PATCH 102/186] fix: a diverging memetic search left the mutation
 operators of all searches swapped

---
 .../memetic/innerinversememetic.py            |  6 +++--
 pybrain/optimization/memetic/innermemetic.py  |  6 +++--
 .../optimization/memetic/inversememetic.py    |  6 +++--
 pybrain/optimization/memetic/memetic.py       | 24 +++++++++++--------
 4 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/pybrain/optimization/memetic/innerinversememetic.py b/pybrain/optimization/memetic/innerinversememetic.py
index 61e4c83..725cbde 100644
--- a/pybrain/optimization/memetic/innerinversememetic.py
+++ b/pybrain/optimization/memetic/innerinversememetic.py
@@ -8,5 +8,7 @@ class InnerInverseMemeticSearch(InnerMemeticSearch, InverseMemeticSearch):
 
     def _learnStep(self):
         self.switchMutations()
-        InnerMemeticSearch._learnStep(self)
-        self.switchMutations()
\ No newline at end of file
+        try:
+            InnerMemeticSearch._learnStep(self)
+        finally:
+            self.switchMutations()
\ No newline at end of file
diff --git a/pybrain/optimization/memetic/innermemetic.py b/pybrain/optimization/memetic/innermemetic.py
index 4f98bc7..bbb93cb 100644
--- a/pybrain/optimization/memetic/innermemetic.py
+++ b/pybrain/optimization/memetic/innermemetic.py
@@ -12,8 +12,10 @@ class InnerMemeticSearch(ES, MemeticSearch):
 
     def _learnStep(self):
         self.switchMutations()
-        ES._learnStep(self)
-        self.switchMutations()
+        try:
+            ES._learnStep(self)
+        finally:
+            self.switchMutations()
 
     @property
     def batchSize(self):
diff --git a/pybrain/optimization/memetic/inversememetic.py b/pybrain/optimization/memetic/inversememetic.py
index 053e35d..0253734 100644
--- a/pybrain/optimization/memetic/inversememetic.py
+++ b/pybrain/optimization/memetic/inversememetic.py
@@ -8,5 +8,7 @@ class InverseMemeticSearch(MemeticSearch):
 
     def _learnStep(self):
         self.switchMutations()
-        MemeticSearch._learnStep(self)
-        self.switchMutations()
+        try:
+            MemeticSearch._learnStep(self)
+        finally:
+            self.switchMutations()
diff --git a/pybrain/optimization/memetic/memetic.py b/pybrain/optimization/memetic/memetic.py
index 74ab11e..2fe6b49 100644
--- a/pybrain/optimization/memetic/memetic.py
+++ b/pybrain/optimization/memetic/memetic.py
@@ -36,21 +36,25 @@ class MemeticSearch(HillClimber, TopologyOptimizer):
             else:
                 f = lambda x: BlackBoxOptimizer._oneEvaluation(self, x)
                 x0 = evaluable
-            outsourced = self.localSearch(f, x0,
-                                          maxEvaluations = self.localSteps,
-                                          desiredEvaluation = self.desiredEvaluation,
-                                          minimize = self.minimize,
-                                          **self.localSearchArgs)
-            assert self.localSteps > outsourced.batchSize, 'localSteps too small ('+str(self.localSteps)+\
+            try:
+                outsourced = self.localSearch(f, x0,
+                                              maxEvaluations = self.localSteps,
+                                              desiredEvaluation = self.desiredEvaluation,
+                                              minimize = self.minimize,
+                                              **self.localSearchArgs)
+                assert self.localSteps > outsourced.batchSize, 'localSteps too small ('+str(self.localSteps)+\
                                                 '), because local search has a batch size of '+str(outsourced.batchSize)
-            _, fitness = outsourced.learn()
-            self.switchMutations()
+                _, fitness = outsourced.learn()
+            finally:
+                self.switchMutations()
             return fitness
 
     def _learnStep(self):
         self.switchMutations()
-        HillClimber._learnStep(self)
-        self.switchMutations()
+        try:
+            HillClimber._learnStep(self)
+        finally:
+            self.switchMutations()
 
     def _notify(self):
         HillClimber._notify(self)
-- 
2.43.0


From 39b2cbf1c84038d2ea0e6526de1e93b876255e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:58 +0000
Subject: [PATCH 103/186] fix: topology optimizers randomized the container
 given as starting point

---
 pybrain/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index b942ed0..42db994 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -337,8 +337,8 @@ class TopologyOptimizer(BlackBoxOptimizer):
         # distinguish modules from parameter containers.
         if not isinstance(evaluable, TopologyEvolvable):
             if isinstance(evaluable, Module):
-                self._initEvaluable = MaskedModule(self._initEvaluable)
+                self._initEvaluable = MaskedModule(self._initEvaluable.copy())
             else:
-                self._initEvaluable = MaskedParameters(self._initEvaluable, returnZeros = True)   
+                self._initEvaluable = MaskedParameters(self._initEvaluable.copy(), returnZeros = True)   
     
      
-- 
2.43.0


From 770bd7e4413f116e994fbb80d00b48bccb3ad41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 104/186] fix: PSO particles were drawn to where their best
 neighbour moves next instead of where it was evaluated

---
 pybrain/optimization/populationbased/pso.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/optimization/populationbased/pso.py b/pybrain/optimization/populationbased/pso.py
index 8bf5e09..9ba09b2 100644
--- a/pybrain/optimization/populationbased/pso.py
+++ b/pybrain/optimization/populationbased/pso.py
@@ -96,6 +96,8 @@ class ParticleSwarmOptimizer(ContinuousOptimizer):
 
             particle.velocity *= self.inertia
             particle.velocity += diff_memory + diff_social
+
+        for particle in self.particles:
             particle.move()
 
     @property
-- 
2.43.0


From df63e41f097e09e2320d877daa0a4026a2551084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 105/186] fix: GA with a single selected parent stopped after
 the first generation

---
 pybrain/optimization/populationbased/ga.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/optimization/populationbased/ga.py b/pybrain/optimization/populationbased/ga.py
index 083c7f2..ea1b147 100644
--- a/pybrain/optimization/populationbased/ga.py
+++ b/pybrain/optimization/populationbased/ga.py
@@ -95,6 +95,9 @@ class GA(ContinuousOptimizer, Evolution):
         xdim = self.numParameters
         shuffle(parents)
         children = []
+        if len(parents) == 1:
+            # no one to cross it with
+            return parents * nbChildren
         for i in range(len(parents)//2):
             p1 = parents[i]
             p2 = parents[i+(len(parents)//2)]
-- 
2.43.0


From 2300eecb1efd161a71ceb674b31a308ac8e53e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:44 +0000
Subject: [PATCH 106/186] fix: tournament selection counted the winner's seat
 in the tournament, not the winner

---
 pybrain/tools/rankingfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/rankingfunctions.py b/pybrain/tools/rankingfunctions.py
index ea9a923..185f348 100644
--- a/pybrain/tools/rankingfunctions.py
+++ b/pybrain/tools/rankingfunctions.py
@@ -58,7 +58,7 @@ class TournamentSelection(RankingFunction):
                     randindex = randint(0, len(R) - 1)
                 l.append(randindex)
             fits = [R[x] for x in l]
-            res[argmax(fits)] += 1
+            res[l[argmax(fits)]] += 1
         return res
 
 
-- 
2.43.0


From 0d9bbd31756b59fabdae9badebac622de75c0676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:12 +0000
Subject: [PATCH 107/186] fix: non-dominated fronts of more than 100 items
 could not be computed

---
 pybrain/tools/nondominated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9f0fb7d..9ba0fcb 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -150,9 +150,9 @@ def _non_dominated_front_merge_arr(iterable, key=lambda x: x, allowequality=True
     items = list(iterable)
     l = len(items)
     if l > 100:
-        part1 = list(_non_dominated_front_merge_arr(items[:l / 2], key, allowequality))
-        part2 = list(_non_dominated_front_merge_arr(items[l / 2:], key, allowequality))
-        if len(part1) >= l / 3 or len(part2) >= l / 3:
+        part1 = list(_non_dominated_front_merge_arr(items[:l // 2], key, allowequality))
+        part2 = list(_non_dominated_front_merge_arr(items[l // 2:], key, allowequality))
+        if len(part1) >= l // 3 or len(part2) >= l // 3:
             return _non_dominated_front_arr(part1 + part2, key, allowequality)
         else:
             return _non_dominated_front_merge_arr(part1 + part2, key, allowequality)
-- 
2.43.0


From 8c7a46a7ea5c6946baff72fe4dc659a310b84d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:12 +0000
Subject: [PATCH 108/186] fix: crowding distances divided by zero when an
 objective was the same for all

---
 pybrain/tools/nondominated.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9ba0fcb..56973d0 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -18,6 +18,9 @@ def crowding_distance(individuals, fitnesses):
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
+        if normalization == 0:
+            # no differences in this objective
+            continue
         tripled = list(zip(individuals, individuals[1:-1], individuals[2:]))
         for pre, ind, post in tripled:
             distances[ind] += (fitnesses[pre][i] - fitnesses[post][i]) / normalization
@@ -267,6 +270,9 @@ def const_crowding_distance(individuals, fitnesses):
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
+        if normalization == 0:
+            # no differences in this objective
+            continue
         tripled = list(zip(individuals, individuals[1:-1], individuals[2:]))
         for pre, ind, post in tripled:
             distances[ind] += (fitnesses[pre][0][i] - fitnesses[post][0][i]) / normalization
-- 
2.43.0


From 91ec87195debe4ec40e1d1678b8e3d64d75d5afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:12 +0000
Subject: [PATCH 109/186] fix: multi-objective populations shrank when they
 contained duplicates

---
 pybrain/optimization/populationbased/ga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/ga.py b/pybrain/optimization/populationbased/ga.py
index ea1b147..f3f390c 100644
--- a/pybrain/optimization/populationbased/ga.py
+++ b/pybrain/optimization/populationbased/ga.py
@@ -207,7 +207,8 @@ class GA(ContinuousOptimizer, Evolution):
         es = min(self.eliteSize, self.selectionSize)
         self.currentpop = parents[:es]
         '''Modified by JPQ '''
-        nbchildren = self.populationSize - es
+        # (there may be fewer parents than places for the elite)
+        nbchildren = self.populationSize - len(self.currentpop)
         if self.populationSize - es <= 0:
             nbchildren = len(parents)
         for child in self.crossOver(parents, nbchildren ):
-- 
2.43.0


From 0b679388bd1386c6e38ebed2bd6133b69dbc695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:12 +0000
Subject: [PATCH 110/186] fix: multi-objective GAs without elitism could not
 keep their front

---
 .../populationbased/multiobjective/constnsga2.py     | 12 +++++++++---
 .../populationbased/multiobjective/nsga2.py          | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pybrain/optimization/populationbased/multiobjective/constnsga2.py b/pybrain/optimization/populationbased/multiobjective/constnsga2.py
index c346362..89ac2b7 100644
--- a/pybrain/optimization/populationbased/multiobjective/constnsga2.py
+++ b/pybrain/optimization/populationbased/multiobjective/constnsga2.py
@@ -45,11 +45,17 @@ class ConstMultiObjectiveGA(GA):
             self.bestEvaluable = list(const_non_dominated_front(list(map(tuple, self.currentpop)),
                                                           key=lambda x: self.fitnesses[x],
                                                           allowequality = self.allowEquality))
+            self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
         else:
-            self.bestEvaluable = list(const_non_dominated_front(list(map(tuple, self.currentpop))+self.bestEvaluable,
-                                                          key=lambda x: self.fitnesses[x],
+            # without elites in the population, keep all the best ones found so far
+            archive = {}
+            if self.bestEvaluation is not None:
+                archive.update(list(zip(self.bestEvaluable, self.bestEvaluation)))
+            archive.update(self.fitnesses)
+            self.bestEvaluable = list(const_non_dominated_front(list(archive.keys()),
+                                                          key=lambda x: archive[x],
                                                           allowequality = self.allowEquality))
-        self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
+            self.bestEvaluation = [archive[indiv] for indiv in self.bestEvaluable]
 #        self.eliteProportion = float(len(self.bestEvaluable))/self.populationSize
 #        number_of_feasible = const_number_of_feasible_pop(map(tuple, self.currentpop),
 #                                                          key=lambda x: self.fitnesses[x],
diff --git a/pybrain/optimization/populationbased/multiobjective/nsga2.py b/pybrain/optimization/populationbased/multiobjective/nsga2.py
index 3cc7fba..fa318ee 100644
--- a/pybrain/optimization/populationbased/multiobjective/nsga2.py
+++ b/pybrain/optimization/populationbased/multiobjective/nsga2.py
@@ -47,11 +47,17 @@ class MultiObjectiveGA(GA):
             self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop)),
                                                           key=lambda x: self.fitnesses[x],
                                                           allowequality = self.allowEquality))
+            self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
         else:
-            self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop))+self.bestEvaluable,
-                                                          key=lambda x: self.fitnesses[x],
+            # without elites in the population, keep all the best ones found so far
+            archive = {}
+            if self.bestEvaluation is not None:
+                archive.update(list(zip(self.bestEvaluable, self.bestEvaluation)))
+            archive.update(self.fitnesses)
+            self.bestEvaluable = list(non_dominated_front(list(archive.keys()),
+                                                          key=lambda x: archive[x],
                                                           allowequality = self.allowEquality))
-        self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
+            self.bestEvaluation = [archive[indiv] for indiv in self.bestEvaluable]
 
         self.produceOffspring()
 
-- 
2.43.0


From 6d79e63d3170a6d7134e68070d81b1de43d45b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:12 +0000
Subject: [PATCH 111/186] fix: multi-objective search starting from a container
 could not return its front

---
 pybrain/optimization/optimizer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 42db994..c7301c9 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -322,9 +322,17 @@ class ContinuousOptimizer(BlackBoxOptimizer):
         """ return the best found evaluable and its associated fitness. """
         bestE, bestF = BlackBoxOptimizer._bestFound(self)
         if self._wasUnwrapped:
-            self.wrappingEvaluable._setParameters(bestE)
-            bestE = self.wrappingEvaluable.copy()
+            if isinstance(bestE, list):
+                # multi-objective: there are many best ones
+                bestE = [self._wrapped(params) for params in bestE]
+            else:
+                bestE = self._wrapped(bestE)
         return bestE, bestF
+
+    def _wrapped(self, params):
+        res = self.wrappingEvaluable.copy()
+        res._setParameters(array(params))
+        return res
    
 
 class TopologyOptimizer(BlackBoxOptimizer):
-- 
2.43.0


From 8039877c1fcc754b981f2ebf963235d954dc8644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 112/186] fix: elites of multi-objective GAs were an arbitrary
 part of the selected ones, not the foremost

---
 .../populationbased/multiobjective/constnsga2.py          | 8 ++++----
 .../optimization/populationbased/multiobjective/nsga2.py  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pybrain/optimization/populationbased/multiobjective/constnsga2.py b/pybrain/optimization/populationbased/multiobjective/constnsga2.py
index 89ac2b7..981861f 100644
--- a/pybrain/optimization/populationbased/multiobjective/constnsga2.py
+++ b/pybrain/optimization/populationbased/multiobjective/constnsga2.py
@@ -79,7 +79,7 @@ def nsga2select(population, fitnesses, survivors, allowequality = True):
                                 key=lambda x: fitnesses[x],
                                 allowequality = allowequality)
     
-    individuals = set()
+    individuals = []
     for front in fronts:
         remaining = survivors - len(individuals)
         if not remaining > 0:
@@ -89,7 +89,7 @@ def nsga2select(population, fitnesses, survivors, allowequality = True):
             # that have the biggest crowding distance.
             crowd_dist = const_crowding_distance(front, fitnesses)
             front = sorted(front, key=lambda x: crowd_dist[x], reverse=True)
-            front = set(front[:remaining])
-        individuals |= front
+            front = front[:remaining]
+        individuals.extend(front)
 
-    return list(individuals)
+    return individuals
diff --git a/pybrain/optimization/populationbased/multiobjective/nsga2.py b/pybrain/optimization/populationbased/multiobjective/nsga2.py
index fa318ee..4bce5d0 100644
--- a/pybrain/optimization/populationbased/multiobjective/nsga2.py
+++ b/pybrain/optimization/populationbased/multiobjective/nsga2.py
@@ -74,7 +74,7 @@ def nsga2select(population, fitnesses, survivors, allowequality = True):
                                 key=lambda x: fitnesses[x],
                                 allowequality = allowequality)
     
-    individuals = set()
+    individuals = []
     for front in fronts:
         remaining = survivors - len(individuals)
         if not remaining > 0:
@@ -84,7 +84,7 @@ def nsga2select(population, fitnesses, survivors, allowequality = True):
             # that have the biggest crowding distance.
             crowd_dist = crowding_distance(front, fitnesses)
             front = sorted(front, key=lambda x: crowd_dist[x], reverse=True)
-            front = set(front[:remaining])
-        individuals |= front
+            front = front[:remaining]
+        individuals.extend(front)
 
-    return list(individuals)
+    return individuals
-- 
2.43.0


From 27943fb5b69a2c71c7d61a285b051345b6fcc754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 113/186] fix: diagonal FEM took its variances for standard
 deviations

---
 pybrain/optimization/distributionbased/fem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/optimization/distributionbased/fem.py b/pybrain/optimization/distributionbased/fem.py
index c5faee6..47f7e00 100644
--- a/pybrain/optimization/distributionbased/fem.py
+++ b/pybrain/optimization/distributionbased/fem.py
@@ -2,7 +2,7 @@ from __future__ import print_function
 
 __author__ = 'Daan Wierstra and Tom Schaul'
 
-from scipy import dot, rand, ones, eye, zeros, outer, isnan, multiply, argmax, product, log
+from scipy import dot, rand, ones, eye, zeros, outer, isnan, multiply, argmax, product, log, sqrt
 from numpy.random import normal, multivariate_normal
 from numpy import sort
 from scipy.stats import norm
@@ -99,7 +99,7 @@ class FEM(DistributionBasedOptimizer):
                     mu += self.meanShifts[chosenOne]
 
         if self.diagonalOnly:
-            sample = normal(mu, self.sigmas[chosenOne])
+            sample = normal(mu, sqrt(self.sigmas[chosenOne]))
         else:
             sample = multivariate_normal(mu, self.sigmas[chosenOne])
         if self.sampleElitism and len(self.allsamples) > self.windowSize and len(self.allsamples) % self.windowSize == 0:
@@ -123,7 +123,7 @@ class FEM(DistributionBasedOptimizer):
         densities = zeros(self.numberOfCenters)
         for c in range(self.numberOfCenters):
             if self.diagonalOnly:
-                pdf = product([norm.pdf(x, self.mus[c][i], self.sigmas[c][i]) for i, x in enumerate(sample)])
+                pdf = product([norm.pdf(x, self.mus[c][i], sqrt(self.sigmas[c][i])) for i, x in enumerate(sample)])
             else:
                 pdf = multivariateNormalPdf(sample, self.mus[c], self.sigmas[c])
             if pdf > 1e40:
-- 
2.43.0


From 1d6909d4fc74e2c4ee7e4929c2d981d4e4f708cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 114/186] fix: online evolution strategy baseline pairs each
 sample with its own fitness

---
 pybrain/optimization/distributionbased/ves.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index a44abba..3a8a209 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -254,8 +254,9 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         phi[:self.numParameters] = self._logDerivX(sample, self.x, invSigma)
         logDerivSigma = self._logDerivFactorSigma(sample, self.x, invSigma, self.factorSigma)
         phi[self.numParameters:] = logDerivSigma.flatten()
-        index = len(self.allSamples) % self.batchSize
-        self.phiSquareWindow[index] = multiply(phi, phi)
+        # the rows of the window go with the last batchSize fitnesses, oldest first
+        self.phiSquareWindow[:-1] = self.phiSquareWindow[1:].copy()
+        self.phiSquareWindow[-1] = multiply(phi, phi)
         baseline = self._calcBaseline(shapedfitnesses)
         gradient = multiply((ones(self.numDistrParams) * shapedfitnesses[-1] - baseline), phi)
         return gradient
-- 
2.43.0


From 6a37d68811131482ee8fe37f4fc74d26982bf294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:58 +0000
Subject: [PATCH 115/186] fix: CMA-ES rank-mu update measures mutations in
 units of the step size

---
 pybrain/optimization/distributionbased/cmaes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/distributionbased/cmaes.py b/pybrain/optimization/distributionbased/cmaes.py
index 81e963c..5cb85d4 100644
--- a/pybrain/optimization/distributionbased/cmaes.py
+++ b/pybrain/optimization/distributionbased/cmaes.py
@@ -68,7 +68,8 @@ class CMAES(ContinuousOptimizer):
         arx = arx[:, arindex]
         arzsel = arz[:, range(self.mu)]
         arxsel = arx[:, range(self.mu)]
-        arxmut = arxsel - tile(self.center.reshape(self.numParameters, 1), (1, self.mu))
+        # the mutations, in units of the step size
+        arxmut = (arxsel - tile(self.center.reshape(self.numParameters, 1), (1, self.mu))) / self.stepSize
 
         zmean = dot(arzsel, self.weights)
         self.center = dot(arxsel, self.weights)
-- 
2.43.0


From e353e539d56b377cf7fead62cc4aeb80772c61c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 116/186] fix: Schwefel function depends on its last coordinate

---
 pybrain/rl/environments/functions/unimodal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index b842619..3e4f973 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -18,7 +18,7 @@ class SchwefelFunction(FunctionEnvironment):
     def f(self, x):
         s = 0
         for i in range(len(x)):
-            s += sum(x[:i])**2
+            s += sum(x[:i+1])**2
         return s
 
 
-- 
2.43.0


From e06153eebd5fbd6d8c2ce4663d353310d1e3aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 117/186] fix: functions that grade their coordinates have two
 or more of them

---
 pybrain/rl/environments/functions/unimodal.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index 3e4f973..dd263c2 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -40,7 +40,8 @@ class TabletFunction(FunctionEnvironment):
 
 class ElliFunction(FunctionEnvironment):
     """ Ellipsoid. """
-        
+
+    xdimMin = 2
     a = 1000
     
     def __init__(self, *args, **kwargs):
@@ -92,7 +93,8 @@ class DiffPowFunction(FunctionEnvironment):
     """ Different powers.
     Standard setting: a=10 (other variants: a=4)
     """
-    
+
+    xdimMin = 2
     a = 10
     
     def f(self, x):
@@ -133,7 +135,9 @@ class GlasmachersFunction(FunctionEnvironment):
 class BoundedLinear(FunctionEnvironment):
     """ Linear function within the domain [-5,5], constant from the 
     best corner onwards. """
-    
+
+    xdimMin = 2
+
     def __init__(self, *args, **kwargs):
         FunctionEnvironment.__init__(self, *args, **kwargs)
         self._w = [power(10, i/(self.xdim-1.)) for i in range(self.xdim)]        
-- 
2.43.0


From 8f870a5c01e2b8da663fdfa136758f4ed62fe63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 118/186] fix: Rosenbrock function has all the attributes of a
 function environment

---
 pybrain/rl/environments/functions/unimodal.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index dd263c2..799b789 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -107,14 +107,12 @@ class DiffPowFunction(FunctionEnvironment):
 class RosenbrockFunction(FunctionEnvironment):
     """ Banana-shaped function with a tricky optimum in the valley at 1,1.
     (has another, local optimum in higher dimensions)."""
-    def __init__(self, xdim = 2, xopt = None):
-        assert xdim >= self.xdimMin and not (self.xdimMax != None and xdim > self.xdimMax)
-        self.xdim = xdim
-        if xopt == None:
-            self.xopt = ones(self.xdim)
-        else:
-            self.xopt = xopt
-        self.reset()
+    xdimMin = 2
+
+    def __init__(self, xdim = 2, xopt = None, **args):
+        if xopt is None:
+            xopt = ones(xdim)
+        FunctionEnvironment.__init__(self, xdim, xopt, **args)
 
     def f(self, x):
         return sum(100*(x[:-1]**2-x[1:])**2 + (x[:-1]-1)**2)
-- 
2.43.0


From e63addb0929e221e11a08157b4cb4562cff39aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 119/186] fix: benchmark functions leave their argument alone

---
 pybrain/rl/environments/functions/multimodal.py | 2 +-
 pybrain/rl/environments/functions/unimodal.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index f8d746e..dbfaf4e 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -86,7 +86,7 @@ class BucheRastriginFunction(MultiModalFunction):
     """ Deceptive and highly multi-modal."""
     
     def f(self, x):
-        z = x[:]
+        z = x.copy()
         for i in range(self.xdim):
             e = i/(self.xdim-1.)/2.
             if x[i] <= 0 or i%2==0:
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index 799b789..cd64462 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -142,7 +142,7 @@ class BoundedLinear(FunctionEnvironment):
         self._signs = sign(randn(self.xdim))       
     
     def f(self, x):
-        x_ = x[:]
+        x_ = x.copy()
         for i, xi in enumerate(x):
             if xi*self._signs[i] > 5:
                 x_[i] = self._signs[i]*5
-- 
2.43.0


From c9c2f4d7c7afc0e1b85f5700e46b5b49ccdcdc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 120/186] fix: benchmark functions declare the point where they
 are optimal

---
 .../rl/environments/functions/multimodal.py   | 19 +++++++++++++++++--
 .../environments/functions/transformations.py |  8 +++++---
 pybrain/rl/environments/functions/unimodal.py | 10 ++++++----
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index dbfaf4e..bb2191c 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -4,7 +4,7 @@ from __future__ import print_function
 
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from scipy import power, exp, cos, sqrt, rand, sin, floor, dot, ones, sign, randn, prod
+from scipy import power, exp, cos, sqrt, rand, sin, floor, dot, ones, sign, randn, prod, array
 from scipy.linalg import orth
 from math import pi
 from random import shuffle
@@ -22,6 +22,10 @@ class FunnelFunction(MultiModalFunction):
     funnelSize = 1.0
     funnelDepth = 1.
 
+    def __init__(self, *args, **kwargs):
+        MultiModalFunction.__init__(self, *args, **kwargs)
+        self.xopt = 2.5 * ones(self.xdim)
+
     def f(self, x):
         return min(dot(x - 2.5 * ones(self.xdim), x - 2.5 * ones(self.xdim)), \
             self.funnelDepth * self.xdim + self.funnelSize * dot(x + 2.5 * ones(self.xdim), x + 2.5 * ones(self.xdim)))
@@ -96,7 +100,11 @@ class BucheRastriginFunction(MultiModalFunction):
     
 class GriewankRosenbrockFunction(MultiModalFunction):
     """ Composite between the two. """
-    
+
+    def __init__(self, *args, **kwargs):
+        MultiModalFunction.__init__(self, *args, **kwargs)
+        self.xopt = ones(self.xdim)
+
     def f(self, x):
         s = 100 * (x[:-1] ** 2 - x[1:]) ** 2 + (x[:-1] - 1) ** 2
         return 1/(self.xdim-1.) * sum(s / 4000. - cos(s)) +1
@@ -109,6 +117,7 @@ class Schwefel_2_13Function(MultiModalFunction):
         self.A = floor(rand(self.xdim, self.xdim) * 200) - 100
         self.B = floor(rand(self.xdim, self.xdim) * 200) - 100
         self.alphas = 2 * pi * rand(self.xdim) - pi
+        self.xopt = self.alphas.copy()
 
     def f(self, x):
         res = 0
@@ -155,6 +164,7 @@ class GallagherGauss101MeFunction(MultiModalFunction):
         shuffle(alphas)
         self._covs = [generateDiags(alpha, self.xdim, shuffled=True) / power(alpha, 0.25) for alpha in [self.optCond] + alphas]
         self._R = orth(rand(self.xdim, self.xdim))
+        self.xopt = self._opts[0].copy()
         self._ws = [10] + [1.1 + 8 * i / float(self.numPeaks - 2) for i in range(self.numPeaks - 1)]
         
         
@@ -190,6 +200,7 @@ class LunacekBiRastriginFunction(MultiModalFunction):
         self._s = 1 - 1 / (2 * sqrt(self.xdim + 20) - 8.2)
         self._mu1 = -sqrt((self._mu0 ** 2 - 1) / self._s)
         self._signs = sign(randn(self.xdim))
+        self.xopt = self._mu0 / 2 * self._signs
         self._R1 = orth(rand(self.xdim, self.xdim))
         self._R2 = orth(rand(self.xdim, self.xdim))
         self._diags = generateDiags(100, self.xdim)
@@ -220,6 +231,10 @@ class BraninFunction(MultiModalFunction):
 
     _globalOptima = [[-pi, 12.275], [pi, 2.275], [9.42478, 2.475]]
 
+    def __init__(self, *args, **kwargs):
+        MultiModalFunction.__init__(self, *args, **kwargs)
+        self.xopt = array(self._globalOptima[0])
+
     def f(self, x):
         return self._a * (x[1] - self._b * x[0] ** 2 + self._c * x[0] - self._d) ** 2 + self._e * ((1 - self._f) * cos(x[0]) + 1) - self.vopt
 
diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index d34f00f..4969be6 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -218,13 +218,15 @@ class BBOBTransformationFunction(FunctionEnvironment):
             else:
                 return ntmp(f) + 1.01e-8
             
+        # all transformations are around the optimum, which is moved to where the base function has it
+        baseopt = basef.xopt.copy()
         if sparse:
             if prefix is None:
-                tmp4 = lambda x: tmp3(x - self.xopt)
+                tmp4 = lambda x: tmp3(x - self.xopt) + baseopt
             else:
-                tmp4 = lambda x: ravel(prefix * tmp3(x - self.xopt))
+                tmp4 = lambda x: ravel(prefix * tmp3(x - self.xopt)) + baseopt
         else:
-            tmp4 = lambda x: dot(prefix, tmp3(x - self.xopt))
+            tmp4 = lambda x: dot(prefix, tmp3(x - self.xopt)) + baseopt
                             
         self.f = lambda x: (noisetrans(basef.f(tmp4(x))) 
                             + penalized * penalize(x))
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index cd64462..6208eb1 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -77,8 +77,9 @@ class AttractiveSectorFunction(FunctionEnvironment):
     
     def f(self, x):
         from .transformations import BBOBTransformationFunction
-        quad = (x*self.xopt > 0)
-        sz = 100 * x * quad + x * (quad==False)         
+        z = x - self.xopt
+        quad = (z*self.xopt > 0)
+        sz = 100 * z * quad + z * (quad==False)
         return power(BBOBTransformationFunction.oscillatify(dot(sz, sz)), 0.9)
         
         
@@ -139,8 +140,9 @@ class BoundedLinear(FunctionEnvironment):
     def __init__(self, *args, **kwargs):
         FunctionEnvironment.__init__(self, *args, **kwargs)
         self._w = [power(10, i/(self.xdim-1.)) for i in range(self.xdim)]        
-        self._signs = sign(randn(self.xdim))       
-    
+        self._signs = sign(randn(self.xdim))
+        self.xopt = 5 * self._signs
+
     def f(self, x):
         x_ = x.copy()
         for i, xi in enumerate(x):
-- 
2.43.0


From 227822c0256214b4800d78c8ea62b1086fcb854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 121/186] fix: Schwefel20 function is zero at its optimum

---
 pybrain/rl/environments/functions/multimodal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index bb2191c..a397fb0 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -142,10 +142,11 @@ class Schwefel20Function(MultiModalFunction):
         self.xopt = self._k2 * self._signs
         
     def f(self, x):
-        z = 2* x * self._signs        
-        z[1:] += (z[:-1]-self.xopt[:-1]) * 0.25
-        z = 100 * (dot(self._diags, (z-self.xopt)) + self.xopt)
-        return - 1. / float(self.xdim) * sum(z * sin(sqrt(abs(z)))) + self._k + 100 * penalize(z / 100.)
+        mu = 2 * abs(self.xopt)
+        z = 2* x * self._signs
+        z[1:] += (z[:-1]-mu[:-1]) * 0.25
+        z = 100 * (dot(self._diags, (z-mu)) + mu)
+        return - 1. / (100. * self.xdim) * sum(z * sin(sqrt(abs(z)))) + self._k + 100 * penalize(z / 100.)
         
     
 class GallagherGauss101MeFunction(MultiModalFunction):
-- 
2.43.0


From 3f9ab44bdfd51794d69d7439783b2b67b3882f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 122/186] fix: Rastrigin function can be made without giving
 the dimension

---
 pybrain/rl/environments/functions/multimodal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index a397fb0..5277164 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -34,7 +34,7 @@ class FunnelFunction(MultiModalFunction):
 
 class RastriginFunction(MultiModalFunction):
     """ A classical multimodal benchmark with plenty of local minima, globally arranged on a bowl. """
-    def __init__(self, xdim=1, a=1, xopt=None):
+    def __init__(self, xdim=None, a=1, xopt=None):
         # additional parameter
         self.a = a
         FunctionEnvironment.__init__(self, xdim, xopt)
-- 
2.43.0


From db9e4e6bf91fef264ac39d80015ae087e2dd91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 123/186] fix: desired value of multi-modal functions can be
 reached

---
 pybrain/rl/environments/functions/multimodal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index 5277164..e289e11 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -16,7 +16,7 @@ from pybrain.rl.environments.functions.transformations import penalize, generate
 class MultiModalFunction(FunctionEnvironment):
     """ A function with more than one local optima. """
     xdimMin = 2
-    desiredValue = -1e-3
+    desiredValue = 1e-3
 
 class FunnelFunction(MultiModalFunction):
     funnelSize = 1.0
-- 
2.43.0


From fb3cc454fe415cb9fefa77da9568750e9759a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 124/186] fix: translated functions accept an offset and leave
 the base function's optimum alone

---
 pybrain/rl/environments/functions/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index 4969be6..2a352c8 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -39,12 +39,12 @@ class TranslateFunction(FunctionEnvironment):
     def __init__(self, basef, distance=0.1, offset=None):
         """ by default the offset is random, with a distance of 0.1 to the old one """
         FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
-        if offset == None:
+        if offset is None:
             self._offset = rand(basef.xdim)
             self._offset *= distance / norm(self._offset)
         else:
             self._offset = offset
-        self.xopt += self._offset
+        self.xopt = self.xopt + self._offset
         self.desiredValue = basef.desiredValue            
         self.toBeMinimized = basef.toBeMinimized
         def tf(x):
-- 
2.43.0


From 9519bd9e6f9ee23298197045ebc5bfaa3212cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 125/186] fix: rotated functions accept a matrix and declare
 the right optimum

---
 pybrain/rl/environments/functions/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index 2a352c8..36266aa 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -61,14 +61,14 @@ class RotateFunction(FunctionEnvironment):
     def __init__(self, basef, rotMat=None):
         """ by default the rotation matrix is random. """
         FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
-        if rotMat == None:
+        if rotMat is None:
             # make a random orthogonal rotation matrix
             self._M = orth(rand(basef.xdim, basef.xdim))
         else:
             self._M = rotMat
         self.desiredValue = basef.desiredValue            
         self.toBeMinimized = basef.toBeMinimized   
-        self.xopt = dot(inv(self._M), self.xopt)
+        self.xopt = dot(self.xopt, inv(self._M))
         def rf(x):
             if isinstance(x, ParameterContainer):
                 x = x.params
-- 
2.43.0


From a7814b1d052d3a4d73adf683b1b0d129262e2d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 126/186] fix: opposite of a function keeps its dimension and
 bounds

---
 pybrain/rl/environments/functions/transformations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index 36266aa..26f073b 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -18,10 +18,14 @@ def oppositeFunction(basef):
         if isinstance(basef, FunctionEnvironment):
             ''' added by JPQ '''
             if isinstance(basef, MultiObjectiveFunction):
-                res = MultiObjectiveFunction()
+                res = MultiObjectiveFunction(basef.xdim, basef.xopt)
+                res.ydim = basef.ydim
             else:
             # ---
                 res = FunctionEnvironment(basef.xdim, basef.xopt)
+            res.xbound = basef.xbound
+            res.constrained = basef.constrained
+            res.penalized = basef.penalized
         else:
             res = FitnessEvaluator()        
         res.f = lambda x:-basef.f(x)
-- 
2.43.0


From ff81c33418d509f47b2641db9976981bb8620adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 127/186] fix: reachable handles every starting point that is a
 destination, without changing its argument

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index a94a898..de70234 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -426,7 +426,7 @@ def reachable(stepFunction, start, destinations, _alreadyseen=None):
     for s in start:
         if s in destinations:
             res[s] = 0
-            start.remove(s)
+    start = [s for s in start if s not in res]
 
     # do one step
     new = set()
-- 
2.43.0


From 84d70c7daad6d220a32619923409178f44c141d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 128/186] fix: permuteToBlocks works with integer division

---
 pybrain/utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index de70234..312707d 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -542,12 +542,12 @@ def permuteToBlocks2d(arr, blockheight, blockwidth):
     arr = arr.flatten()
     new = zeros(size(arr))
     for i in range(size(arr)):
-        blockx = (i % width) / blockwidth
-        blocky = i / width / blockheight
-        blockoffset = blocky * width / blockwidth + blockx
+        blockx = (i % width) // blockwidth
+        blocky = i // width // blockheight
+        blockoffset = blocky * width // blockwidth + blockx
         blockoffset *= blockwidth * blockheight
         inblockx = i % blockwidth
-        inblocky = (i / width) % blockheight
+        inblocky = (i // width) % blockheight
         j = blockoffset + inblocky * blockwidth + inblockx
         new[j] = arr[i]
     return new
-- 
2.43.0


From 5b788d309d02eb3e08602f40170818156f24328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 129/186] fix: binArr2int for lengths that are not a multiple
 of 8 or exceed 63

---
 pybrain/utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 312707d..1a7cecc 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -737,9 +737,11 @@ def xhash(arr):
 
 def binArr2int(arr):
     """ Convert a binary array into its (long) integer representation. """
-    from numpy import packbits
-    tmp2 = packbits(arr.astype(int))
-    return sum(val * 256 ** i for i, val in enumerate(tmp2[::-1])) 
+    from numpy import packbits, append
+    # packbits fills up the last byte with zeros: put the padding in front instead
+    padding = zeros(-len(arr) % 8, int)
+    tmp2 = packbits(append(padding, arr.astype(int)))
+    return sum(int(val) * 256 ** i for i, val in enumerate(tmp2[::-1])) 
         
 def uniqueArrays(vs):
     """ create a set of arrays """
-- 
2.43.0


From df8992a6ee20ff7667dc8327682026a9257358a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 130/186] fix: flood accepts an empty collection of relevant
 elements

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 1a7cecc..f626aed 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -464,7 +464,7 @@ def flood(stepFunction, fullSet, initSet, relevant=None):
         flooded = full.intersection(set(initSet))
         if relevant is None:
             relevant = full.copy()
-    if relevant:
+    if relevant is not None:
         relevant = set(relevant)
 
     change = flooded.copy()
-- 
2.43.0


From 157dad903afac8576b885bfdc09df30e0a41f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 131/186] fix: linscale maps the array onto the given interval

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index f626aed..c610892 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -108,7 +108,7 @@ def setAllArgs(obj, argdict):
 
 def linscale(d, lim):
     """ utility function to linearly scale array d to the interval defined by lim """
-    return (d - d.min())*(lim[1] - lim[0]) + lim[0]
+    return (d - d.min())*(lim[1] - lim[0])/float(d.max() - d.min()) + lim[0]
 
 
 def percentError(out, true):
-- 
2.43.0


From a2f506308b2b17bd6ac68ced67d25800cec3f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 132/186] fix: GridSearch2D passes an integer number of steps
 to linspace

---
 pybrain/tools/gridsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/gridsearch.py b/pybrain/tools/gridsearch.py
index 7faa298..6116f4e 100644
--- a/pybrain/tools/gridsearch.py
+++ b/pybrain/tools/gridsearch.py
@@ -99,7 +99,7 @@ class GridSearch2D:
         for i in range(ndim):
             linspaces.append(
                 self._permuteSequence(
-                    list(linspace(self._min_params[i], self._max_params[i], self._n_steps[i]))))
+                    list(linspace(self._min_params[i], self._max_params[i], int(self._n_steps[i])))))
 #        print(linspaces; exit(0))
 #        linspaces = array(linspaces,float)
         nr_c = len(linspaces[0])
-- 
2.43.0


From 4497b293f33e308bcbce05b7ab0c1fd320866488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 133/186] fix: GridSearchDOE does not truncate performances to
 the type of the first one

---
 pybrain/tools/gridsearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/gridsearch.py b/pybrain/tools/gridsearch.py
index 6116f4e..31cd70a 100644
--- a/pybrain/tools/gridsearch.py
+++ b/pybrain/tools/gridsearch.py
@@ -3,7 +3,7 @@ from __future__ import print_function
 __author__ = 'Michael Isik'
 
 from pybrain.tools.validation import CrossValidator
-from numpy import linspace, append, ones, zeros, array, where, apply_along_axis
+from numpy import linspace, append, ones, zeros, array, where
 import copy
 
 class GridSearch2D:
@@ -191,7 +191,7 @@ class GridSearchDOE:
         center = self._min_params + self._range / 2.
         for level in range(self._n_iterations):
             grid = self._calcGrid(center, level)
-            local_perf = apply_along_axis(self._validateWrapper, 1, grid)
+            local_perf = array([self._validateWrapper(params) for params in grid])
 
             max_idx = local_perf.argmax()
             center = grid[max_idx]
-- 
2.43.0


From b38a18668e9ceefb4ad2f5d872c1bc983d54941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 134/186] fix: pickled dictionaries are written and read as
 binary files

---
 pybrain/tools/filehandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/filehandling.py b/pybrain/tools/filehandling.py
index 2c6be9b..ac9ebd7 100644
--- a/pybrain/tools/filehandling.py
+++ b/pybrain/tools/filehandling.py
@@ -42,7 +42,7 @@ def selectSome(strings, requiredsubstrings=[], requireAll=True):
 def pickleDumpDict(name, d):
     """ pickle-dump a variable into a file """
     try:
-        f = open(name + '.pickle', 'w')
+        f = open(name + '.pickle', 'wb')
         pickle.dump(d, f)
         f.close()
         return True
@@ -54,7 +54,7 @@ def pickleDumpDict(name, d):
 def pickleReadDict(name):
     """ pickle-read a (default: dictionnary) variable from a file """
     try:
-        f = open(name + '.pickle')
+        f = open(name + '.pickle', 'rb')
         val = pickle.load(f)
         f.close()
     except Exception as e:
-- 
2.43.0


From 98aa2f0b0e4b475f9de79ceea461cd5d104ab69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:02 +0000
Subject: [PATCH 135/186] fix: UDP connection sends and receives bytes

---
 pybrain/tools/networking/udpconnection.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index 4ab6c14..cdbe9bc 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -55,7 +55,7 @@ class UDPServer(object):
         if self.clients < 1:
             self.UDPInSock.settimeout(10)
             try:
-                cIP = self.UDPInSock.recv(self.buf)
+                cIP = self.UDPInSock.recv(self.buf).decode()
                 self.addClient(cIP)
             except:
                 pass
@@ -63,7 +63,7 @@ class UDPServer(object):
             # At least one client has to send a sign of life during 2 seconds
             self.UDPInSock.settimeout(2)
             try:
-                cIP = self.UDPInSock.recv(self.buf)
+                cIP = self.UDPInSock.recv(self.buf).decode()
                 newClient = True
                 for i in self.cIP:
                     if cIP == i:
@@ -86,7 +86,7 @@ class UDPServer(object):
         sendString = repr(arrayList)
         count = 0
         for i in self.UDPOutSockList:
-            i.sendto(sendString, self.addrList[count])
+            i.sendto(sendString.encode(), self.addrList[count])
             count += 1
 
 # The client class
@@ -107,11 +107,11 @@ class UDPClient(object):
     # Listen for data from server
     def listen(self, arrayList=None):
         # Send alive signal (own IP adress)
-        self.UDPOutSock.sendto(self.ownIP, self.outAddr)
+        self.UDPOutSock.sendto(self.ownIP.encode(), self.outAddr)
         # if there is no data from Server for 10 seconds server is propably down
         self.UDPInSock.settimeout(10)
         try:
-            data = self.UDPInSock.recv(self.buf)
+            data = self.UDPInSock.recv(self.buf).decode()
 
             try:
                 arrayList = eval(data)
@@ -129,7 +129,7 @@ class UDPClient(object):
     # Creating the sockets
     def createSockets(self):
         self.UDPOutSock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
-        self.UDPOutSock.sendto(self.ownIP, self.outAddr)
+        self.UDPOutSock.sendto(self.ownIP.encode(), self.outAddr)
         self.UDPInSock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
         self.UDPInSock.bind(self.inAddr)
 
-- 
2.43.0


From fe8a7dc4c33e1594c1197e434f5c25947d7e2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:02 +0000
Subject: [PATCH 136/186] fix: UDP connection transmits lists of arrays

---
 pybrain/tools/networking/udpconnection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index cdbe9bc..71dac36 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -20,6 +20,9 @@ __author__ = 'Frank Sehnke, sehnke@in.tum.de'
 #############################################################################################################
 
 import socket
+import sys
+
+from numpy import array, printoptions #@UnusedImport
 
 # The server class
 class UDPServer(object):
@@ -83,7 +86,9 @@ class UDPServer(object):
 
     # Sending the actual data too all clients
     def send(self, arrayList):
-        sendString = repr(arrayList)
+        # arrays have to be written completely, and with all their digits
+        with printoptions(precision=17, threshold=sys.maxsize):
+            sendString = repr(arrayList)
         count = 0
         for i in self.UDPOutSockList:
             i.sendto(sendString.encode(), self.addrList[count])
-- 
2.43.0


From b0678e2012a70f0c4037d2d14423343ebe3d94e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:02 +0000
Subject: [PATCH 137/186] fix: truncation selection keeps the configured number
 of individuals

---
 pybrain/tools/rankingfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/rankingfunctions.py b/pybrain/tools/rankingfunctions.py
index 185f348..10ccb9d 100644
--- a/pybrain/tools/rankingfunctions.py
+++ b/pybrain/tools/rankingfunctions.py
@@ -108,7 +108,8 @@ class TopSelection(RankingFunction):
     def __call__(self, R):
         res = zeros(len(R))
         ranks = rankedFitness(R)
-        cutoff = len(R) * (1. - self.topFraction)
+        # rounded, as e.g. 10 * (1. - 0.7) is slightly more than 3
+        cutoff = round(len(R) * (1. - self.topFraction), 9)
         for i in range(len(R)):
             if ranks[i] >= cutoff:
                 res[i] = 1.0
@@ -126,7 +127,8 @@ class TopLinearRanking(TopSelection):
     def __call__(self, R):
         res = zeros(len(R))
         ranks = rankedFitness(R)
-        cutoff = len(R) * (1. - self.topFraction)
+        # rounded, as e.g. 10 * (1. - 0.7) is slightly more than 3
+        cutoff = round(len(R) * (1. - self.topFraction), 9)
         for i in range(len(R)):
             if ranks[i] >= cutoff:
                 res[i] = ranks[i] - cutoff
-- 
2.43.0


From 6e7c5c1c6d03dc6b9f69832f0e11a58c70a80fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:23 +0000
Subject: [PATCH 138/186] fix: possible fractions of TopLinearRanking never
 exceed 1

---
 pybrain/tools/rankingfunctions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybrain/tools/rankingfunctions.py b/pybrain/tools/rankingfunctions.py
index 10ccb9d..d7e703f 100644
--- a/pybrain/tools/rankingfunctions.py
+++ b/pybrain/tools/rankingfunctions.py
@@ -138,8 +138,7 @@ class TopLinearRanking(TopSelection):
         return res
 
     def getPossibleParameters(self, numberOfSamples):
-        x = 1. / float(numberOfSamples)
-        return arange(x * 2, 1 + x, x)
+        return arange(2, numberOfSamples + 1) / float(numberOfSamples)
 
     def setParameter(self, p):
         self.topFraction = p
-- 
2.43.0


From f7e3408a397d7ddc2587f2c8e6b1f0e120e5d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:51 +0000
Subject: [PATCH 139/186] fix: ranking sorts with keys instead of cmp

---
 pybrain/tools/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/functions.py b/pybrain/tools/functions.py
index 9c0d847..2ab13bd 100644
--- a/pybrain/tools/functions.py
+++ b/pybrain/tools/functions.py
@@ -70,8 +70,8 @@ def tanhPrime(x):
 
 def ranking(R):
     """ Produces a linear ranking of the values in R. """
-    l = sorted(list(enumerate(R)), cmp=lambda a, b: cmp(a[1], b[1]))
-    l = sorted(list(enumerate(l)), cmp=lambda a, b: cmp(a[1], b[1]))
+    l = sorted(list(enumerate(R)), key=lambda a: a[1])
+    l = sorted(list(enumerate(l)), key=lambda a: a[1][0])
     return array([kv[0] for kv in l])
 
 
-- 
2.43.0


From 96f204e0e6e0a660629c1a15fc09b20d1c238669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:51 +0000
Subject: [PATCH 140/186] fix: semilinear and its derivative accept arrays of
 any shape

---
 pybrain/tools/functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/functions.py b/pybrain/tools/functions.py
index 2ab13bd..eab2c05 100644
--- a/pybrain/tools/functions.py
+++ b/pybrain/tools/functions.py
@@ -10,8 +10,7 @@ def semilinear(x):
     try:
         # assume x is a numpy array
         shape = x.shape
-        x.flatten()
-        x = x.tolist()
+        x = x.flatten().tolist()
     except AttributeError:
         # no, it wasn't: build shape from length of list
         shape = (1, len(x))
@@ -31,8 +30,7 @@ def semilinearPrime(x):
     try:
         # assume x is a numpy array
         shape = x.shape
-        x.flatten()
-        x = x.tolist()
+        x = x.flatten().tolist()
     except AttributeError:
         # no, it wasn't: build shape from length of list
         shape = (1, len(x))
-- 
2.43.0


From 26f4fee8a0c2fb05098e49a0c4d3078defafef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:51 +0000
Subject: [PATCH 141/186] fix: Fisher information accepts a given inverse and
 factor

---
 pybrain/tools/fisher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/fisher.py b/pybrain/tools/fisher.py
index 1169ad3..6178e5e 100644
--- a/pybrain/tools/fisher.py
+++ b/pybrain/tools/fisher.py
@@ -10,9 +10,9 @@ def calcFisherInformation(sigma, invSigma=None, factorSigma=None):
     """ Compute the exact Fisher Information Matrix of a Gaussian distribution,
     given its covariance matrix.
     Returns a list of the diagonal blocks. """
-    if invSigma == None:
+    if invSigma is None:
         invSigma = inv(sigma)
-    if factorSigma == None:
+    if factorSigma is None:
         factorSigma = cholesky(sigma)
     dim = sigma.shape[0]
     fim = [invSigma]
@@ -27,9 +27,9 @@ def calcFisherInformation(sigma, invSigma=None, factorSigma=None):
 def calcInvFisher(sigma, invSigma=None, factorSigma=None):
     """ Efficiently compute the exact inverse of the FIM of a Gaussian.
     Returns a list of the diagonal blocks. """
-    if invSigma == None:
+    if invSigma is None:
         invSigma = inv(sigma)
-    if factorSigma == None:
+    if factorSigma is None:
         factorSigma = cholesky(sigma)
     dim = sigma.shape[0]
 
-- 
2.43.0


From ce2f4b1d33a8fe9eb452fc96b43f967524007a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:04 +0000
Subject: [PATCH 142/186] fix: sequence ends are integer indices

---
 pybrain/tools/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/validation.py b/pybrain/tools/validation.py
index 5fdb1f6..8246363 100644
--- a/pybrain/tools/validation.py
+++ b/pybrain/tools/validation.py
@@ -117,7 +117,7 @@ class SequenceHelper(object):
         sequence_ends = delete(dataset.getField('sequence_index') - 1, 0)
         sequence_ends = append(sequence_ends, dataset.getLength() - 1)
 #        print(sequence_ends; exit())
-        sequence_ends = array(sequence_ends)
+        sequence_ends = array(sequence_ends, dtype=int)
         return sequence_ends
 
     @classmethod
-- 
2.43.0


From 2f121286dea0f6292c14cb25942146f400951367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:47 +0000
Subject: [PATCH 143/186] fix: UDP connection writes as many digits as an array
 needs

---
 pybrain/tools/networking/udpconnection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index 71dac36..d4d731a 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -87,7 +87,7 @@ class UDPServer(object):
     # Sending the actual data too all clients
     def send(self, arrayList):
         # arrays have to be written completely, and with all their digits
-        with printoptions(precision=17, threshold=sys.maxsize):
+        with printoptions(floatmode='unique', threshold=sys.maxsize):
             sendString = repr(arrayList)
         count = 0
         for i in self.UDPOutSockList:
-- 
2.43.0


From 773c857ee7ca03af012b76e29d51caf84989c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:06 +0000
Subject: [PATCH 144/186] fix: coevolution package can be imported

---
 .../populationbased/coevolution/competitivecoevolution.py       | 2 +-
 .../populationbased/coevolution/multipopulationcoevolution.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
index 39c27bd..f9da56b 100644
--- a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
@@ -2,7 +2,7 @@ from __future__ import print_function
 
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from pybrain.optimization.coevolution.coevolution import Coevolution
+from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
 
 
 class CompetitiveCoevolution(Coevolution):
diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 9d0895a..321a2fb 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -2,7 +2,7 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from random import choice
 
-from pybrain.optimization.coevolution.coevolution import Coevolution
+from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
 
 
 class MultiPopulationCoevolution(Coevolution):
-- 
2.43.0


From 3cc9ec220b1be978fb64a576ef4da323b6c8c62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:06 +0000
Subject: [PATCH 145/186] fix: coevolution averages the children with their
 parents, not the survivors

---
 .../populationbased/coevolution/coevolution.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pybrain/optimization/populationbased/coevolution/coevolution.py b/pybrain/optimization/populationbased/coevolution/coevolution.py
index b7f3aa6..fbfd827 100644
--- a/pybrain/optimization/populationbased/coevolution/coevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/coevolution.py
@@ -162,15 +162,15 @@ class Coevolution(Named):
         selected = [x[1] for x in s[:self._numSelected()]]
         # ... and reproduce
         if self.elitism:
-            newpop = self._extendPopulation(selected, self.populationSize)
-            if self.parentChildAverage < 1:
-                self._averageWithParents(newpop, self.parentChildAverage)
+            survivors = selected
+            children = self._extendPopulation(selected, self.populationSize)[len(selected):]
         else:
-            newpop = self._extendPopulation(selected, self.populationSize
-                                            + self._numSelected()) [self._numSelected():]
-            if self.parentChildAverage < 1:
-                self._averageWithParents(newpop[self._numSelected():], self.parentChildAverage)
-        return newpop
+            survivors = []
+            children = self._extendPopulation(selected, self.populationSize
+                                              + len(selected))[len(selected):]
+        if self.parentChildAverage < 1:
+            self._averageWithParents(children, self.parentChildAverage)
+        return survivors + children
 
     def _beats(self, h, p):
         """ determine the empirically observed score of p playing opp (starting or not).
-- 
2.43.0


From 7cb5ca5e2a46c603a1c7a202b053a5983afd7a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:06 +0000
Subject: [PATCH 146/186] fix: coevolution's global score counts each game once

---
 .../optimization/populationbased/coevolution/coevolution.py    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/coevolution/coevolution.py b/pybrain/optimization/populationbased/coevolution/coevolution.py
index fbfd827..7606290 100644
--- a/pybrain/optimization/populationbased/coevolution/coevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/coevolution.py
@@ -205,7 +205,8 @@ class Coevolution(Named):
         if p not in self.allOpponents:
             return 0.
         scoresum, played = 0., 0
-        for opp in self.allOpponents[p]:
+        # an opponent met several times is listed several times
+        for opp in set(self.allOpponents[p]):
             scoresum += self.allResults[(p, opp)][2]
             played += self.allResults[(p, opp)][1]
             scoresum -= self.allResults[(opp, p)][2]
-- 
2.43.0


From 899b27256ab3769afbd5382ec2c588fb0b1dd2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:06 +0000
Subject: [PATCH 147/186] fix: multi-population coevolution counts the games of
 a generation

---
 .../coevolution/multipopulationcoevolution.py               | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 321a2fb..33bdb4e 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -61,7 +61,5 @@ class MultiPopulationCoevolution(Coevolution):
         self.pop = self.pops[self.mainpop]
 
     def _stepsPerGeneration(self):
-        if self.tournamentSize == None:
-            return 2 * self.populationSize** 2
-        else:
-            return Coevolution._stepsPerGeneration(self)
+        # the main population plays a tournament against every other one
+        return Coevolution._stepsPerGeneration(self) * (self.numPops - 1)
-- 
2.43.0


From 4f959d2da4e083363f4d5341a28d0586b4ef9ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:06 +0000
Subject: [PATCH 148/186] fix: multi-population coevolution leaves the list of
 seeds alone

---
 .../populationbased/coevolution/multipopulationcoevolution.py    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 33bdb4e..7bb67bd 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -15,6 +15,7 @@ class MultiPopulationCoevolution(Coevolution):
 
     def _initPopulation(self, seeds):
         """ one part of the seeds for each population, if there's not enough: randomize. """
+        seeds = list(seeds)
         for s in seeds:
             s.parent = None
         while len(seeds) < self.numPops:
-- 
2.43.0


From 2d00ec69d74418f139a6c7a7486cf5c300538fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:32 +0000
Subject: [PATCH 149/186] fix: save the complete training curve, with or
 without a test data set

---
 pybrain/tools/neuralnets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 8a76667..8078cfb 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -65,11 +65,13 @@ class NNtools(object):
         logging.info('Saving training curves into ' + learnfname)
         if self.trainCurve is None:
             logging.error('No training curve available for saving!')
-        learnf = open(learnfname, "wb")
+            return
+        learnf = open(learnfname, "w", newline='')
         writer = csv.writer(learnf, dialect='excel')
-        nDataSets = len(self.trainCurve)
-        for i in range(1, len(self.trainCurve[0]) - 1):
-            writer.writerow([self.trainCurve[k][i] for k in range(nDataSets)])
+        # without a test data set there is no test error to be saved
+        curves = [curve for curve in self.trainCurve if len(curve) == len(self.trainCurve[0])]
+        for i in range(1, len(self.trainCurve[0])):
+            writer.writerow([curve[i] for curve in curves])
         learnf.close()
 
     def saveNetwork(self, fname):
-- 
2.43.0


From e7a5916546a37cb5ff3bc6c705ab55de5c7a5b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:33 +0000
Subject: [PATCH 150/186] fix: check the convergence of NNtools training only
 if asked to

---
 pybrain/tools/neuralnets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 8078cfb..5b2a89b 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -143,7 +143,7 @@ class NNregression(NNtools):
                     self.Graph.addData(1, epoch, err_tst)
 
                 # check if convegence criterion is fulfilled (no improvement after N epoincs)
-                if convtest >= convergence:
+                if convergence > 0 and convtest >= convergence:
                     converged = True
 
             if self.Graph is not None:
@@ -272,7 +272,7 @@ class NNclassifier(NNtools):
                     self.Graph.addData(1, epoch, r_tst)
 
                 # check if convegence criterion is fulfilled (no improvement after N epoincs)
-                if convtest >= convergence:
+                if convergence > 0 and convtest >= convergence:
                     converged = True
 
             if self.Graph is not None:
-- 
2.43.0


From 549611b2c0c762cb9e55d305da61fdfbdd1a98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:33 +0000
Subject: [PATCH 151/186] fix: NNtools training stops at the maximum number of
 epochs

---
 pybrain/tools/neuralnets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 5b2a89b..ad2b296 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -117,7 +117,7 @@ class NNregression(NNtools):
         convtest = 0
         if convergence > 0:
             logging.info("Convergence criterion: %d batches of %d epochs w/o improvement" % (convergence, inc))
-        while epoch <= self.maxepochs and not converged:
+        while epoch < self.maxepochs and not converged:
             self.Trainer.trainEpochs(inc)
             epoch += inc
             learncurve_x.append(epoch)
@@ -237,7 +237,7 @@ class NNclassifier(NNtools):
         convtest = 0
         if convergence > 0:
             logging.info("Convergence criterion: %d batches of %d epochs w/o improvement" % (convergence, inc))
-        while epoch <= self.maxepochs and not converged:
+        while epoch < self.maxepochs and not converged:
             self.Trainer.trainEpochs(inc)
             epoch += inc
             learncurve_x.append(epoch)
-- 
2.43.0


From a0a782023531b06f4896f51e48f3304a276b47be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:33 +0000
Subject: [PATCH 152/186] fix: NNtools evaluates the trained network when there
 are no best test weights

---
 pybrain/tools/neuralnets.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index ad2b296..34e2768 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -110,6 +110,7 @@ class NNregression(NNtools):
         inc = self.epoinc
         best_error = Infinity
         best_epoch = 0
+        bestweights = None
         learncurve_x = [0]
         learncurve_y = [0.0]
         valcurve_y = [0.0]
@@ -154,7 +155,8 @@ class NNregression(NNtools):
         logging.info("Best epoch: %6d, with error: %10g" % (best_epoch, best_error))
         if self.VDS is not None:
             # calculate same errors on VALIDATION data
-            self.Trainer.module.params[:] = bestweights.copy()
+            if bestweights is not None:
+                self.Trainer.module.params[:] = bestweights
             err_val = ModuleValidator.validate(Validator.MSE, self.Trainer.module, self.VDS)
             logging.info("Result on evaluation data: %10g" % err_val)
         # store training curve for saving into file
@@ -228,8 +230,9 @@ class NNclassifier(NNtools):
             self.Graph.setLegend(['training', 'test'], loc='lower right')
         epoch = 0
         inc = self.epoinc
-        best_error = 100.0
+        best_error = Infinity
         best_epoch = 0
+        bestweights = None
         learncurve_x = [0]
         learncurve_y = [0.0]
         valcurve_y = [0.0]
@@ -282,7 +285,8 @@ class NNclassifier(NNtools):
         logging.info("Best epoch: %6d, with error: %5.2f%%" % (best_epoch, best_error))
         if self.VDS is not None:
             # calculate errors on VALIDATION data
-            self.Trainer.module.params[:] = bestweights.copy()
+            if bestweights is not None:
+                self.Trainer.module.params[:] = bestweights
             if isinstance(self.DS, SequentialDataSet):
                 r_val = 100. * (1.0 - testOnSequenceData(self.Trainer.module, self.VDS))
             else:
-- 
2.43.0


From 8b88bdf9c344e06358a90ed7fd4c6b4d0fa76675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:48 +0000
Subject: [PATCH 153/186] fix: ExTools stores its pickles in binary files

---
 pybrain/tools/example_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/example_tools.py b/pybrain/tools/example_tools.py
index 37065a1..a97b7a2 100644
--- a/pybrain/tools/example_tools.py
+++ b/pybrain/tools/example_tools.py
@@ -28,7 +28,7 @@ class ExTools():
 
     # Method for loading a weight matrix and initialize the network
     def loadWeights(self, filename):
-        filepointer = open(filename)
+        filepointer = open(filename, 'rb')
         self.agent.learner.current = load(filepointer)
         filepointer.close()
         self.agent.learner.gd.init(self.agent.learner.current)
@@ -37,13 +37,13 @@ class ExTools():
 
     # Method for saving the weight matrix    
     def saveWeights(self, filename, w):
-        filepointer = open(filename, 'w+')
+        filepointer = open(filename, 'wb')
         dump(w, filepointer)
         filepointer.close()
 
     # Method for saving the weight matrix    
     def saveResults(self, filename, results):
-        filepointer = open(filename, 'w+')
+        filepointer = open(filename, 'wb')
         dump(results, filepointer)
         filepointer.close()
 
-- 
2.43.0


From 96ea1c7d83fa8422bd98a895f082d5a7e31c29a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:48 +0000
Subject: [PATCH 154/186] fix: each ExTools collects its own results

---
 pybrain/tools/example_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/example_tools.py b/pybrain/tools/example_tools.py
index a97b7a2..2e94295 100644
--- a/pybrain/tools/example_tools.py
+++ b/pybrain/tools/example_tools.py
@@ -18,13 +18,13 @@ class ExTools():
     loadName = "none.wgt"
     saveName = "none.wgt"
     resuName = "none.dat"
-    rl = []
-    rll = []
 
     def __init__(self, batch = 2, prnts = 1, kind = "optimizer"):
         self.batch = batch
         self.prnts = prnts
         self.kind = kind
+        self.rl = []
+        self.rll = []
 
     # Method for loading a weight matrix and initialize the network
     def loadWeights(self, filename):
-- 
2.43.0


From 63f6beb6f0e794c01da1780157bb722889f93b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:35 +0000
Subject: [PATCH 155/186] fix: read MNIST labels as binary data

---
 pybrain/tools/datasets/mnist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/datasets/mnist.py b/pybrain/tools/datasets/mnist.py
index 2f0e990..261c021 100644
--- a/pybrain/tools/datasets/mnist.py
+++ b/pybrain/tools/datasets/mnist.py
@@ -7,7 +7,7 @@ from pybrain.datasets import SupervisedDataSet
 
 
 def labels(filename):
-    fp = open(filename)
+    fp = open(filename, 'rb')
     magicnumber, length = struct.unpack('>ii', fp.read(8))
     assert magicnumber in (2049, 2051), ("Not an MNIST file: %i" % magicnumber)
     for _ in range(length):
-- 
2.43.0


From f15220f13aaee428ab8ba8f7a2ed33861e51cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:35 +0000
Subject: [PATCH 156/186] fix: SVMData.getTargets used a cursor that data sets
 do not have

---
 pybrain/tools/svmdata.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index b9761cb..d278866 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -131,14 +131,7 @@ class SVMData(SupervisedDataSet):
 
     def getTargets(self):
         """ return the targets of the dataset, preserving the current sample pointer """
-        self.storePointer()
-        self.reset()
-        targets = []
-        while not self.endOfSequences():
-            input, target, dummy = self.getSample()
-            targets.append(target)
-        self.recallPointer()
-        return targets
+        return [target.copy() for target in self.getField('target')]
 
     def getFileName(self):
         return self.filename
-- 
2.43.0


From e0ad365967b3651a94447c8e2b952f70728f00a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:36 +0000
Subject: [PATCH 157/186] fix: loading SVM data again replaces its statistics,
 too

---
 pybrain/tools/svmdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index d278866..68e3fdb 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -20,6 +20,8 @@ class SVMData(SupervisedDataSet):
     def loadData(self, fname):
         """ decide which format the data is in """
         self.filename = fname
+        self.nSamples = 0
+        self.classHist = {}
         if fname.find('.mat') >= 0:
             self.loadMATdata(fname)
         elif fname.find('.svm') >= 0:
-- 
2.43.0


From 874e455aa1fa3ff58c6eb8a268376589e5364905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:36 +0000
Subject: [PATCH 158/186] fix: SVMData knows the number of classes of a LIBSVM
 file

---
 pybrain/tools/svmdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index 68e3fdb..f69f6bd 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -101,6 +101,7 @@ class SVMData(SupervisedDataSet):
                 xi.append(0.)
 
         self._setDataFields(x, y)
+        self.nCls = self.nClasses
 
 
     def loadRawData(self, fname):
-- 
2.43.0


From d95f52a8a35121388999605b1c03e8f3a1a33862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:36 +0000
Subject: [PATCH 159/186] fix: SVM data sets can be copied and pickled

---
 pybrain/tools/svmdata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index f69f6bd..6dfea74 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -17,6 +17,13 @@ class SVMData(SupervisedDataSet):
             self.loadData(filename)
 
 
+    def __reduce__(self):
+        _, _, state, _, _ = super(SVMData, self).__reduce__()
+        for name in ('indim', 'outdim', 'nCls', 'nClasses', '_classes', 'nSamples', 'classHist', 'filename'):
+            if hasattr(self, name):
+                state[name] = getattr(self, name)
+        return self.__class__, (), state, iter([]), iter({})
+
     def loadData(self, fname):
         """ decide which format the data is in """
         self.filename = fname
-- 
2.43.0


From 70bf12eb85ddae51821ca6f5ec6028570810f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:36 +0000
Subject: [PATCH 160/186] fix: DataSetNormalizer reads the files it writes

---
 pybrain/tools/datasettools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 1b866ea..9488180 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -88,7 +88,7 @@ class DataSetNormalizer(object):
         # the first line determines whether we interpret the file as
         # giving min/max of features or mean/std
         x = f.readline()
-        self.meanstd = False if x == 'x' else True
+        self.meanstd = False if x.strip() == 'x' else True
 
         # the next line gives the normalization bounds
         bounds = array(f.readline().split()).astype(float)
@@ -104,10 +104,10 @@ class DataSetNormalizer(object):
 
     def save(self, fname):
         f = open(fname, "w+")
-        f.write('x\n')
-        f.write('%g %g' % (self.newmin, self.newmax))
+        f.write('meanstd\n' if self.meanstd else 'x\n')
+        f.write('%.17g %.17g\n' % (self.newmin, self.newmax))
         for i in range(self.dim):
-            f.write('%d %g %g' % (i + 1, self.par1[i], self.par2[i]))
+            f.write('%d %.17g %.17g\n' % (i + 1, self.par1[i], self.par2[i]))
         f.close()
 
     def normalizePattern(self, y):
-- 
2.43.0


From c710c4b941395551726ee91c525aa996e4588107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:36 +0000
Subject: [PATCH 161/186] fix: normalizePattern treats a pattern like the
 normalized data set

---
 pybrain/tools/datasettools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 9488180..ca979e8 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -4,7 +4,7 @@ from __future__ import print_function
 # to be used for supervised training.
 __author__ = "Martin Felder"
 
-from numpy import r_, array, isfinite
+from numpy import r_, array, isfinite, where
 from pybrain.datasets import SequentialDataSet
 
 
@@ -111,7 +111,9 @@ class DataSetNormalizer(object):
         f.close()
 
     def normalizePattern(self, y):
-        return (y - self.par1) * self.scale + self.newmin
+        if self.meanstd:
+            return (y - self.par1) / where(self.par2 > 0, self.par2, 1.0)
+        return (y - self.par1) * where(isfinite(self.scale), self.scale, 1.0) + self.newmin
 
     def normalize(self, ds, field='input'):
         """ normalize dataset or vector wrt. to stored min and max """
-- 
2.43.0


From 9af853be3d911d7174787de0a9eb5fce4da5f377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:36 +0000
Subject: [PATCH 162/186] fix: principal components of one-dimensional data

---
 pybrain/auxiliary/pca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/auxiliary/pca.py b/pybrain/auxiliary/pca.py
index 47887e3..b63469f 100644
--- a/pybrain/auxiliary/pca.py
+++ b/pybrain/auxiliary/pca.py
@@ -8,7 +8,7 @@ of a dataset."""
 __author__ = 'Justin S Bayer, bayerj@in.tum.de'
 
 
-from scipy import asmatrix, cov
+from scipy import asmatrix, atleast_2d, cov
 from scipy.linalg import inv, eig
 from numpy.random import standard_normal
 
@@ -47,7 +47,7 @@ def pca(data, dim):
     # We have to make a copy of the original data and substract the mean
     # of every entry
     data = makeCentered(data)
-    cm = cov(data.T)
+    cm = atleast_2d(cov(data.T))
 
     # OPT only calculate the dim first eigenvectors here
     # The following calculation may seem a bit "weird" but also correct to me.
-- 
2.43.0


From 9c66c4534ab6d91b455aee11ba17569a6512cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:36 +0000
Subject: [PATCH 163/186] fix: principal components are orthogonal even if they
 have the same variance

---
 pybrain/auxiliary/pca.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybrain/auxiliary/pca.py b/pybrain/auxiliary/pca.py
index b63469f..467effd 100644
--- a/pybrain/auxiliary/pca.py
+++ b/pybrain/auxiliary/pca.py
@@ -8,8 +8,8 @@ of a dataset."""
 __author__ = 'Justin S Bayer, bayerj@in.tum.de'
 
 
-from scipy import asmatrix, atleast_2d, cov
-from scipy.linalg import inv, eig
+from scipy import allclose, asmatrix, atleast_2d, cov, dot, eye
+from scipy.linalg import inv, eig, eigh
 from numpy.random import standard_normal
 
 
@@ -55,6 +55,10 @@ def pca(data, dim):
     # We keep track of the indexes via enumerate to restore the right ordering
     # later.
     eigval, eigvec = eig(cm)
+    if not allclose(dot(eigvec.T, eigvec), eye(len(cm))):
+        # eig does not exploit the symmetry, hence eigenvectors that share
+        # an eigenvalue may be skewed or complex
+        eigval, eigvec = eigh(cm)
     eigval = [(val, ind) for ind, val  in enumerate(eigval)]
     eigval.sort()
     eigval[:-dim] = []  # remove all but the highest dim elements
-- 
2.43.0


From 6b3c19f2ed42633fc2dbc3ed62a1da0339324110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:42 +0000
Subject: [PATCH 164/186] fix: policy gradient learners store the derivatives
 of each action alone

---
 pybrain/rl/learners/directsearch/policygradient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/rl/learners/directsearch/policygradient.py b/pybrain/rl/learners/directsearch/policygradient.py
index 5699179..cb1eb59 100644
--- a/pybrain/rl/learners/directsearch/policygradient.py
+++ b/pybrain/rl/learners/directsearch/policygradient.py
@@ -122,6 +122,7 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         explorative = ExploringLearner.explore(self, state, action)
 
         # backward pass through network and store derivs
+        self.network.resetDerivatives()
         self.network.backward()
         self.loglh.appendLinked(self.network.derivs.copy())
 
-- 
2.43.0


From ca5046915153888010cebd62b613b4aa1a1f1ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:42 +0000
Subject: [PATCH 165/186] fix: Reinforce slices its likelihoods with integers

---
 pybrain/rl/learners/directsearch/reinforce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index 5f4217f..a0020a6 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -17,7 +17,7 @@ class Reinforce(PolicyGradientLearner):
 
         # initialize variables
         returns = self.dataset.getSumOverSequences('reward')
-        seqidx = ravel(self.dataset['sequence_index'])
+        seqidx = ravel(self.dataset['sequence_index']).astype(int)
 
         # sum of sequences up to n-1
         loglhs = [sum(self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]) for n in range(self.dataset.getNumSequences() - 1)]
-- 
2.43.0


From 9d1e0a6ad597b6366fece7757d7f07b9114e0cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:42 +0000
Subject: [PATCH 166/186] fix: ENAC slices its likelihoods with integers

---
 pybrain/rl/learners/directsearch/enac.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/enac.py b/pybrain/rl/learners/directsearch/enac.py
index 397bd9b..6766b59 100644
--- a/pybrain/rl/learners/directsearch/enac.py
+++ b/pybrain/rl/learners/directsearch/enac.py
@@ -21,10 +21,9 @@ class ENAC(PolicyGradientLearner):
         X = ones((self.dataset.getNumSequences(), self.loglh.getDimension('loglh') + 1), float)
 
         # collect sufficient statistics
-        print((self.dataset.getNumSequences()))
         for n in range(self.dataset.getNumSequences()):
             _state, _action, reward = self.dataset.getSequence(n)
-            seqidx = ravel(self.dataset['sequence_index'])
+            seqidx = ravel(self.dataset['sequence_index']).astype(int)
             if n == self.dataset.getNumSequences() - 1:
                 # last sequence until end of dataset
                 loglh = self.loglh['loglh'][seqidx[n]:, :]
-- 
2.43.0


From 987b1fcb238eefd2f53ec39908b6a10b4b795c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:39 +0000
Subject: [PATCH 167/186] fix: Reinforce ascends the expected return

---
 pybrain/rl/learners/directsearch/reinforce.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index a0020a6..7eb7f12 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -26,8 +26,7 @@ class Reinforce(PolicyGradientLearner):
         loglhs = array(loglhs)
 
         baselines = mean(loglhs ** 2 * returns, 0) / mean(loglhs ** 2, 0)
-        # TODO: why gradient negative?
-        gradient = -mean(loglhs * (returns - baselines), 0)
+        gradient = mean(loglhs * (returns - baselines), 0)
 
         return gradient
 
-- 
2.43.0


From 82a102b1751a24a12bf3cda560a271b1113e2b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:39 +0000
Subject: [PATCH 168/186] fix: Reinforce keeps parameters without influence on
 the actions

---
 pybrain/rl/learners/directsearch/reinforce.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index 7eb7f12..cd1667c 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -25,7 +25,10 @@ class Reinforce(PolicyGradientLearner):
         loglhs.append(sum(self.loglh['loglh'][seqidx[-1]:, :]))
         loglhs = array(loglhs)
 
-        baselines = mean(loglhs ** 2 * returns, 0) / mean(loglhs ** 2, 0)
+        weights = mean(loglhs ** 2, 0)
+        # a parameter without any influence has no baseline
+        weights[weights == 0] = 1.
+        baselines = mean(loglhs ** 2 * returns, 0) / weights
         gradient = mean(loglhs * (returns - baselines), 0)
 
         return gradient
-- 
2.43.0


From 4ddd005e5e07ec6fc946daff695e60c7b115b2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:39 +0000
Subject: [PATCH 169/186] fix: policy gradient learners start from the current
 parameters

---
 pybrain/rl/learners/directsearch/policygradient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/directsearch/policygradient.py b/pybrain/rl/learners/directsearch/policygradient.py
index cb1eb59..929ddb3 100644
--- a/pybrain/rl/learners/directsearch/policygradient.py
+++ b/pybrain/rl/learners/directsearch/policygradient.py
@@ -112,7 +112,8 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         if max(gradient) > 1000:
             gradient = gradient / max(gradient) * 1000
 
-        # update the parameters of the module
+        # update the parameters of the module, wherever they are now
+        self.gd.values[:] = self.network.params
         p = self.gd(gradient.flatten())
         self.network._setParameters(p)
         self.network.reset()
-- 
2.43.0


From 6e1fda4256b515d46440b6260142e42e0eb434e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:39 +0000
Subject: [PATCH 170/186] fix: policy gradient learners limit large negative
 gradients, too

---
 pybrain/rl/learners/directsearch/policygradient.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/policygradient.py b/pybrain/rl/learners/directsearch/policygradient.py
index 929ddb3..03dc442 100644
--- a/pybrain/rl/learners/directsearch/policygradient.py
+++ b/pybrain/rl/learners/directsearch/policygradient.py
@@ -109,8 +109,9 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         gradient = self.calculateGradient()
 
         # scale gradient if it has too large values
-        if max(gradient) > 1000:
-            gradient = gradient / max(gradient) * 1000
+        largest = abs(gradient).max()
+        if largest > 1000:
+            gradient = gradient / largest * 1000
 
         # update the parameters of the module, wherever they are now
         self.gd.values[:] = self.network.params
-- 
2.43.0


From a4c0370254714dcb9eb14cb169d50b1193593910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:03 +0000
Subject: [PATCH 171/186] fix: derivatives of the state-dependent explorer

---
 pybrain/rl/explorers/continuous/sde.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pybrain/rl/explorers/continuous/sde.py b/pybrain/rl/explorers/continuous/sde.py
index e45373d..3c8ab06 100644
--- a/pybrain/rl/explorers/continuous/sde.py
+++ b/pybrain/rl/explorers/continuous/sde.py
@@ -61,20 +61,20 @@ class StateDependentExplorer(Explorer, ParameterContainer):
         outbuf[:] = inbuf + dot(self.state, self.explmatrix)
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        expln_params = expln(self.params
-                        ).reshape(len(outbuf), len(self.state))
-        explnPrime_params = explnPrime(self.params
-                        ).reshape(len(outbuf), len(self.state))
+        # there is one sigma per action, shared by all states
+        expln_params = expln(self.params)
+        explnPrime_params = explnPrime(self.params)
+        sumxsquared = dot(self.state, self.state)
 
-        idx = 0
         for j in range(len(outbuf)):
-            sigma_subst2 = dot(self.state ** 2, expln_params[j, :]**2)
-            for i in range(len(self.state)):
-                self._derivs[idx] = ((outbuf[j] - inbuf[j]) ** 2 - sigma_subst2) / sigma_subst2 * \
-                    self.state[i] ** 2 * expln_params[j, i] * explnPrime_params[j, i]
+            sigma_subst2 = sumxsquared * expln_params[j] ** 2
+
+            if sigma_subst2 != 0:
+                self._derivs[j] += ((outbuf[j] - inbuf[j]) ** 2 - sigma_subst2) / sigma_subst2 * \
+                    sumxsquared * expln_params[j] * explnPrime_params[j]
                 # if self.autoalpha and sigma_subst2 != 0:
-                # self._derivs[idx] /= sigma_subst2
-                idx += 1
+                # self._derivs[j] /= sigma_subst2
+
             inerr[j] = (outbuf[j] - inbuf[j])
             # if not self.autoalpha and sigma_subst2 != 0:
             #     inerr[j] /= sigma_subst2
-- 
2.43.0


From 8ebe38223a344511b6beb30394cf4d2fa391e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:04 +0000
Subject: [PATCH 172/186] fix: RWR can be configured

---
 pybrain/rl/learners/directsearch/rwr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/rwr.py b/pybrain/rl/learners/directsearch/rwr.py
index 6a712a9..a3a93f8 100644
--- a/pybrain/rl/learners/directsearch/rwr.py
+++ b/pybrain/rl/learners/directsearch/rwr.py
@@ -6,7 +6,7 @@ from scipy import zeros, array, mean, randn, exp, dot, argmax
 
 from pybrain.datasets import ReinforcementDataSet, ImportanceDataSet, SequentialDataSet
 from pybrain.supervised import BackpropTrainer
-from pybrain.utilities import drawIndex
+from pybrain.utilities import drawIndex, setAllArgs
 from pybrain.rl.learners.directsearch.directsearch import DirectSearchLearner
 
 
@@ -46,7 +46,7 @@ class RWR(DirectSearchLearner):
     def __init__(self, net, task, valueNetwork=None, **args):
         self.net = net
         self.task = task
-        self.setArgs(**args)
+        setAllArgs(self, args)
         if self.valueLearningRate == None:
             self.valueLearningRate = self.learningRate
         if self.valueMomentum == None:
-- 
2.43.0


From cce14b7a164fc652db76c1ad14184a2b05e38195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:20 +0000
Subject: [PATCH 173/186] fix: RWR resets the momentum where trainers keep it

---
 pybrain/rl/learners/directsearch/rwr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/rwr.py b/pybrain/rl/learners/directsearch/rwr.py
index a3a93f8..28a4897 100644
--- a/pybrain/rl/learners/directsearch/rwr.py
+++ b/pybrain/rl/learners/directsearch/rwr.py
@@ -88,9 +88,9 @@ class RWR(DirectSearchLearner):
         self.weightedDs.clear()
         self.valueDs.clear()
         self.rawDs.clear()
-        self.bp.momentumvector *= 0.0
+        self.bp.descent.momentumvector *= 0.0
         if self.vnet != None:
-            self.vbp.momentumvector *= 0.0
+            self.vbp.descent.momentumvector *= 0.0
             if self.resetAllWeights:
                 self.vnet.params[:] = randn(len(self.vnet.params)) * self.netweights
 
-- 
2.43.0


From 6f97f2cd253d1b1273252b80265289fd7ae18eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:26 +0000
Subject: [PATCH 174/186] fix: RWR on tasks without discount

---
 pybrain/rl/learners/directsearch/rwr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/directsearch/rwr.py b/pybrain/rl/learners/directsearch/rwr.py
index 28a4897..90f0207 100644
--- a/pybrain/rl/learners/directsearch/rwr.py
+++ b/pybrain/rl/learners/directsearch/rwr.py
@@ -158,7 +158,8 @@ class RWR(DirectSearchLearner):
             current = 0
             returns = []
             for r in reversed(rewards):
-                current *= self.task.discount
+                if self.task.discount:
+                    current *= self.task.discount
                 current += r
                 returns.append(current)
             returns.reverse()
-- 
2.43.0


From da179984c8bf8ebdba332952fca72f49c1173958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:26 +0000
Subject: [PATCH 175/186] fix: RWR keeps its temperature when no episode gained
 anything

---
 pybrain/rl/learners/directsearch/rwr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/directsearch/rwr.py b/pybrain/rl/learners/directsearch/rwr.py
index 90f0207..c4c6fde 100644
--- a/pybrain/rl/learners/directsearch/rwr.py
+++ b/pybrain/rl/learners/directsearch/rwr.py
@@ -82,7 +82,10 @@ class RWR(DirectSearchLearner):
         return exp(self.tau * R)
 
     def updateTau(self, R, U):
-        self.tau = sum(U) / dot((R - self.task.minReward), U)
+        gain = dot((R - self.task.minReward), U)
+        # without any gain there is nothing to adapt to
+        if gain > 0:
+            self.tau = sum(U) / gain
 
     def reset(self):
         self.weightedDs.clear()
-- 
2.43.0


From c59303631c57c4cd5168711606adbac6c61b491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:26 +0000
Subject: [PATCH 176/186] fix: universal search with gaps between the
 complexities

---
 pybrain/rl/learners/meta/levinsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/meta/levinsearch.py b/pybrain/rl/learners/meta/levinsearch.py
index 53d5611..8de1d3a 100644
--- a/pybrain/rl/learners/meta/levinsearch.py
+++ b/pybrain/rl/learners/meta/levinsearch.py
@@ -41,7 +41,7 @@ class LevinSeach:
             # execute all programs, but with a set time-limit:
             # every phase the total time used doubles (= 2**maxLevin)
             for c in range(maxLevin):
-                for p in complexities[c]:
+                for p in complexities.get(c, []):
                     boundP = timeBoundExecution(p, 2**(maxLevin-c)/maxLevin)
                     res = boundP.run(input)
                     if self.stoppingCriterion(res):
-- 
2.43.0


From af7e14682ac41d858cfc7f1ca3fbab7c3b3063b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:07 +0000
Subject: [PATCH 177/186] fix: the 0 worst individuals of a population are
 none, not all

---
 pybrain/supervised/evolino/gpopulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/gpopulation.py b/pybrain/supervised/evolino/gpopulation.py
index 0b689bd..84fdc44 100644
--- a/pybrain/supervised/evolino/gpopulation.py
+++ b/pybrain/supervised/evolino/gpopulation.py
@@ -125,7 +125,8 @@ class SimplePopulation(Population):
             If n is greater than the number of individuals inside the population
             all individuals are returned.
         """
-        return set(self.getSortedIndividualList()[-n:])
+        individuals = self.getSortedIndividualList()
+        return set(individuals[max(0, len(individuals) - n):])
 
     def removeWorstIndividuals(self, n):
         """ Removes the n individuals with the lowest fitness ranking.
-- 
2.43.0


From ea26a9c21ec949e72bcbb04af31eec901a7aba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:07 +0000
Subject: [PATCH 178/186] fix: the maximal fitness of a population can be read

---
 pybrain/supervised/evolino/gpopulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/gpopulation.py b/pybrain/supervised/evolino/gpopulation.py
index 84fdc44..d59f8f1 100644
--- a/pybrain/supervised/evolino/gpopulation.py
+++ b/pybrain/supervised/evolino/gpopulation.py
@@ -105,7 +105,7 @@ class SimplePopulation(Population):
 
     def getMaxFitness(self):
         """ Returns the maximal fitness value """
-        return self.getIndividualFitness(self.getBestIndividuals(1))
+        return self.getIndividualFitness(self.getBestIndividualsSorted(1)[0])
 
 
 
-- 
2.43.0


From 76ad9f917f495210b6f4a61b1cfdf6fec935c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:07 +0000
Subject: [PATCH 179/186] fix: Evolino selection never empties a small
 sub-population

---
 pybrain/supervised/evolino/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/filter.py b/pybrain/supervised/evolino/filter.py
index 127f447..0a7f2f5 100644
--- a/pybrain/supervised/evolino/filter.py
+++ b/pybrain/supervised/evolino/filter.py
@@ -224,7 +224,8 @@ class EvolinoSubSelection(Filter):
 
         n = population.getIndividualsN()
         if self.nParents is None:
-            nKeep = n // 4
+            # somebody has to be left for reproduction
+            nKeep = max(1, n // 4)
         else:
             nKeep = self.nParents
 
-- 
2.43.0


From fb0afd98740b7c146e6476ee0f649b2dccdaf34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:07 +0000
Subject: [PATCH 180/186] fix: Evolino accepts the documented pair of washout
 and training lengths

---
 pybrain/supervised/evolino/filter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pybrain/supervised/evolino/filter.py b/pybrain/supervised/evolino/filter.py
index 0a7f2f5..5ce42a3 100644
--- a/pybrain/supervised/evolino/filter.py
+++ b/pybrain/supervised/evolino/filter.py
@@ -8,7 +8,7 @@ from pybrain.supervised.evolino.population import SimplePopulation
 from pybrain.tools.validation import Validator
 from pybrain.tools.kwargsprocessor import KWArgsProcessor
 
-from numpy import array, dot, concatenate, Infinity
+from numpy import array, dot, concatenate, size, Infinity
 from scipy.linalg import pinv2
 from copy import deepcopy
 
@@ -51,13 +51,19 @@ class EvolinoEvaluation(Filter):
             :key wtRatio: See __init__
         """
 
+        # fraction of a sequence used for washout
+        if size(wtRatio) == 2:
+            washout = float(wtRatio[0]) / (wtRatio[0] + wtRatio[1])
+        else:
+            washout = wtRatio
+
         # === extract sequences from dataset ===
         numSequences = dataset.getNumSequences()
         washout_sequences = []
         training_sequences = []
         for i in range(numSequences):
             sequence = dataset.getSequence(i)[1]
-            training_start = int(wtRatio * len(sequence))
+            training_start = int(washout * len(sequence))
             washout_sequences.append(sequence[                  : training_start   ])
             training_sequences.append(sequence[ training_start   :                  ])
 
-- 
2.43.0


From beb8669ba6109b4630a69d18ef00974bf8a01772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:07 +0000
Subject: [PATCH 181/186] fix: Evolino waits for the full number of epochs
 without a gain before burst mutation

---
 pybrain/supervised/trainers/evolino.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/supervised/trainers/evolino.py b/pybrain/supervised/trainers/evolino.py
index 865c9de..732fde6 100644
--- a/pybrain/supervised/trainers/evolino.py
+++ b/pybrain/supervised/trainers/evolino.py
@@ -119,13 +119,13 @@ class EvolinoTrainer(Trainer):
 
     def train(self):
         """ Evolve for one epoch. """
-        self.totalepochs += 1
-
         if self.totalepochs - self._max_fitness_epoch >= self.nBurstMutationEpochs:
             if self.verbosity: print("RUNNING BURST MUTATION")
             self.burstMutate()
             self._max_fitness_epoch = self.totalepochs
 
+        self.totalepochs += 1
+
 
         for filter in self._filters:
             filter.apply(self._population)
-- 
2.43.0


From 18726209e2cbb5bcbc51d4fef8e0266cf06dfae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:20 +0000
Subject: [PATCH 182/186] fix: the grid of a Gaussian process holds points

---
 pybrain/auxiliary/gaussprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/auxiliary/gaussprocess.py b/pybrain/auxiliary/gaussprocess.py
index 0deda60..c705d74 100644
--- a/pybrain/auxiliary/gaussprocess.py
+++ b/pybrain/auxiliary/gaussprocess.py
@@ -59,7 +59,7 @@ class GaussianProcess:
             assert len(start) == len(stop) == len(step)
             dimstr = ["start[%i]:stop[%i]:step[%i], " % (i, i, i) for i in range(len(start))]
             dimstr = ''.join(dimstr)
-        return eval('c_[map(ravel, mgrid[' + dimstr + '])]').T
+        return eval('c_[list(map(ravel, mgrid[' + dimstr + ']))]').T
 
     def _buildCov(self, a, b):
         K = zeros((len(a), len(b)), float)
-- 
2.43.0


From 448588c9a8f049d63939956d47fc440286c7dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:37 +0000
Subject: [PATCH 183/186] fix: a Gaussian process without samples answers the
 points it is asked for

---
 pybrain/auxiliary/gaussprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybrain/auxiliary/gaussprocess.py b/pybrain/auxiliary/gaussprocess.py
index c705d74..c5befaf 100644
--- a/pybrain/auxiliary/gaussprocess.py
+++ b/pybrain/auxiliary/gaussprocess.py
@@ -108,8 +108,10 @@ class GaussianProcess:
         return self.pred_mean
 
     def _calculate(self):
-        # calculate only of necessary
+        # without training samples, predict the prior
         if len(self.trainx) == 0:
+            self.pred_mean = zeros(len(self.testx)) + self.mean
+            self.pred_cov = eye(len(self.testx))
             return
 
         # build covariance matrices
-- 
2.43.0


From b3e9580ef2a0abbf90fbd1d471b1333471bc1a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:37 +0000
Subject: [PATCH 184/186] fix: automatic noise of a Gaussian process accepts
 single and unsorted samples

---
 pybrain/auxiliary/gaussprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/auxiliary/gaussprocess.py b/pybrain/auxiliary/gaussprocess.py
index c5befaf..9cc14bc 100644
--- a/pybrain/auxiliary/gaussprocess.py
+++ b/pybrain/auxiliary/gaussprocess.py
@@ -123,10 +123,10 @@ class GaussianProcess:
         # calculate predictive mean and covariance
         K = train_train + self.noise * eye(len(self.trainx))
 
-        if self.autonoise:
+        if self.autonoise and len(self.trainx) > 1:
             # calculate average neighboring distance for auto-noise
             avgdist = 0
-            sort_trainx = sort(self.trainx)
+            sort_trainx = sort(self.trainx, 0)
             for i, d in enumerate(sort_trainx):
                 if i == 0:
                     continue
-- 
2.43.0


From 2ab56312c04c9bc90e6450a7def3ee1715ac4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:28 +0000
Subject: [PATCH 185/186] fix: draws from a Gaussian process follow its current
 hyper parameters

---
 pybrain/auxiliary/gaussprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/auxiliary/gaussprocess.py b/pybrain/auxiliary/gaussprocess.py
index 9cc14bc..84c784d 100644
--- a/pybrain/auxiliary/gaussprocess.py
+++ b/pybrain/auxiliary/gaussprocess.py
@@ -148,8 +148,8 @@ class GaussianProcess:
         self.calculated = True
 
     def draw(self):
-        if not self.calculated:
-            self._calculate()
+        # the hyper parameters may have been changed since the last calculation
+        self._calculate()
 
         return self.pred_mean + random.multivariate_normal(zeros(len(self.testx)), self.pred_cov)
 
-- 
2.43.0


From ff42d922a1e0d207a0b7443edec7ab10c32bb2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:05 +0000
Subject: [PATCH 186/186] fix: a deep network is trained layer by layer on the
 outputs of the layers below

---
 pybrain/unsupervised/trainers/deepbelief.py | 71 ++++++++-------------
 1 file changed, 25 insertions(+), 46 deletions(-)

diff --git a/pybrain/unsupervised/trainers/deepbelief.py b/pybrain/unsupervised/trainers/deepbelief.py
index 24125d1..2e8fb20 100644
--- a/pybrain/unsupervised/trainers/deepbelief.py
+++ b/pybrain/unsupervised/trainers/deepbelief.py
@@ -4,10 +4,8 @@ __author__ = 'Justin S Bayer, bayer.justin@googlemail.com'
 __version__ = '$Id$'
 
 
-import copy
-
 from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet
-from pybrain.structure import BiasUnit, FeedForwardNetwork, FullConnection
+from pybrain.structure import BiasUnit
 from pybrain.structure.networks.rbm import Rbm
 from pybrain.structure.modules.neuronlayer import NeuronLayer
 from pybrain.supervised.trainers import Trainer
@@ -53,8 +51,9 @@ class DeepBeliefTrainer(Trainer):
             trainer.train()
         return rbm
 
-    def iterRbms(self):
-        """Yield every two layers as an rbm."""
+    def _iterLayers(self):
+        """Yield every layer with its successor, the connection between them
+        and the connection of the successor to the bias."""
         layers = [i for i in self.net.modulesSorted
                   if isinstance(i, NeuronLayer) and not isinstance(i, BiasUnit)]
         # There will be a single bias.
@@ -62,55 +61,35 @@ class DeepBeliefTrainer(Trainer):
         layercons = (self.net.connections[i][0] for i in layers)
         # The biascons will not be sorted; we have to sort them to zip nicely
         # with the corresponding layers.
-        biascons = self.net.connections[bias]
-        biascons.sort(key=lambda c: layers.index(c.outmod))
-        modules = list(zip(layers, layers[1:], layercons, biascons))
-        for visible, hidden, layercon, biascon in modules:
-            rbm = Rbm.fromModules(visible, hidden, bias,
-                                  layercon, biascon)
-            yield rbm
+        biascons = sorted(self.net.connections[bias],
+                          key=lambda c: layers.index(c.outmod))
+        return list(zip(layers, layers[1:], layercons, biascons))
+
+    def iterRbms(self):
+        """Yield every two layers as an rbm."""
+        for visible, hidden, layercon, biascon in self._iterLayers():
+            yield Rbm.fromDims(visible.dim, hidden.dim,
+                               layercon.params, biascon.params)
 
     def train(self):
-        # We will build up a network piecewise in order to create a new dataset
-        # for each layer.
-        dataset = self.dataset
-        piecenet = FeedForwardNetwork()
-        piecenet.addInputModule(copy.deepcopy(self.net.inmodules[0]))
-        # Add a bias
-        bias = BiasUnit()
-        piecenet.addModule(bias)
-        # Add the first visible layer
-        firstRbm = next(self.iterRbms())
-        visible = copy.deepcopy(firstRbm.visible)
-        piecenet.addModule(visible)
+        # Every layer is trained on the outputs of the trained layers below it.
+        dataset, field = self.dataset, self.datasetfield
         # For saving the rbms and their inverses
         self.invRbms = []
         self.rbms = []
-        for rbm in self.iterRbms():
-            self.net.sortModules()
+        for layer, rbm in zip(self._iterLayers(), self.iterRbms()):
+            _, _, layercon, biascon = layer
             # Train the first layer with an rbm trainer for `epoch` epochs.
             trainer = self.trainerKlass(rbm, dataset, self.cfg)
             for _ in range(self.epochs):
                 trainer.train()
             self.invRbms.append(trainer.invRbm)
             self.rbms.append(rbm)
-            # Add the connections and the hidden layer of the rbm to the net.
-            hidden = copy.deepcopy(rbm.hidden)
-            biascon = FullConnection(bias, hidden)
-            biascon.params[:] = rbm.biasWeights
-            con = FullConnection(visible, hidden)
-            con.params[:] = rbm.weights
-
-            piecenet.addConnection(biascon)
-            piecenet.addConnection(con)
-            piecenet.addModule(hidden)
-            # Overwrite old outputs
-            piecenet.outmodules = [hidden]
-            piecenet.outdim = rbm.hiddenDim
-            piecenet.sortModules()
-
-            dataset = UnsupervisedDataSet(rbm.hiddenDim)
-            for sample, in self.dataset:
-                new_sample = piecenet.activate(sample)
-                dataset.addSample(new_sample)
-            visible = hidden
+            # Put the weights of the rbm into the network.
+            layercon.params[:] = rbm.params
+            biascon.params[:] = rbm.biasParams
+
+            outputs = UnsupervisedDataSet(rbm.hiddenDim)
+            for sample in dataset[field]:
+                outputs.addSample(rbm.activate(sample))
+            dataset, field = outputs, 'sample'
-- 
2.43.0

