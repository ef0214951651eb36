From b85e3d083fb0b2e0843aab89fbec5f5c94043984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 01/26] fix: a discard of tile 0 becomes visible to every
 player

Tile id 0 (the first 1m) is falsy, so InvisibleTiles kept it in the unseen
set after it had been discarded.
---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 7a6a7f2..94f5641 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -188,7 +188,7 @@ class InvisibleTiles(GameState):
             return brand
 
         discard_val = discard_value(event)
-        if discard_val:
+        if discard_val is not None:
             return InvisibleTiles(self._player_num, self._invisible_tiles - {discard_val})
         elif is_open_hand(event):
             return InvisibleTiles(self._player_num, self._invisible_tiles - set(meld_from(event).self_tiles))
-- 
2.43.0


From d14e147fcb20c8e81659857a68efdb6aada506cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 02/26] fix: a red five covers the same four tile ids as a
 plain five

tile_to_tenhou_range took the number 0 of a red five literally and returned
the ids of the tile before 1 in its suit.
---
 mahjong/record/utils/value/tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/value/tile.py b/mahjong/record/utils/value/tile.py
index d4107c3..982f7a2 100644
--- a/mahjong/record/utils/value/tile.py
+++ b/mahjong/record/utils/value/tile.py
@@ -20,6 +20,6 @@ def tile_from_tenhou(index):
 
 def tile_to_tenhou_range(tile: Tile):
     color = SUIT_ORDER.index(tile.color)
-    number = tile.number - 1
+    number = (5 if isinstance(tile, AkaTile) else tile.number) - 1
     start_tile, end_tile = (TENHOU_TILE_CATEGORY.index(t) for t in [(color, number, 0), (color, number, 3)])
     return range(start_tile, end_tile + 1)
-- 
2.43.0


From 66c2c2fb629330fcca539857fc7343f2caeca06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 03/26] fix: MixedCategory numbers members of different shapes
 consistently

category() subtracted the start of the next member and index() asked the
previous member, which only cancels out when neighbouring members have the
same inner dimensions.
---
 mahjong/record/category.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mahjong/record/category.py b/mahjong/record/category.py
index 27f80c0..167d89e 100644
--- a/mahjong/record/category.py
+++ b/mahjong/record/category.py
@@ -55,18 +55,17 @@ class MixedCategory(Category):
         return self._max
 
     def category(self, index):
-        category = bisect.bisect_right(self._accumulate_range, index)
-        belongs_id = category - 1
+        belongs_id = bisect.bisect_right(self._accumulate_range, index) - 1
         belongs = self.category_list[belongs_id]
         if self._merged_category_classes:
             belongs_class = self._merged_category_classes[belongs_id]
-        sub_id = belongs.category(index - self._accumulate_range[category])
+        sub_id = belongs.category(index - self._accumulate_range[belongs_id])
         concated = (belongs_id,) + sub_id
         return concated if self._merged_category_classes is None else belongs_class(*concated)
 
     def index(self, category_tuple):
         category, *sub_id = category_tuple
-        return self._accumulate_range[category] + self.category_list[category - 1].index(tuple(sub_id))
+        return self._accumulate_range[category] + self.category_list[category].index(tuple(sub_id))
 
 
 class SubCategory(Category):
-- 
2.43.0


From b056977801f75fb2a475458b1c7adaade1907be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 04/26] fix: MixedCategory accepts an unbounded last member

The constructor allows a last member without a bound, but len() refuses the
infinite length such a member reports.
---
 mahjong/record/category.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mahjong/record/category.py b/mahjong/record/category.py
index 167d89e..2c198df 100644
--- a/mahjong/record/category.py
+++ b/mahjong/record/category.py
@@ -34,20 +34,20 @@ class MixedCategory(Category):
     def __init__(self, category_list: Iterable[Category], caption=None, field_name: str = None, merged_sep='__'):
         super().__init__(caption, [field_name] if field_name is not None else None)
         self.category_list = list(category_list)
-        assert all(len(c) < math.inf for c in self.category_list[:-1])
+        assert all(c.__len__() < math.inf for c in self.category_list[:-1])
         if field_name is not None:
             self._merged_category_classes = [
                 flat_named_tuple_class(self.named_tuple_class, cat.named_tuple_class, sep=merged_sep)
                 for cat in self.category_list]
         else:
             self._merged_category_classes = None
-        self._max = sum(len(c) for c in self.category_list)
+        self._max = sum(c.__len__() for c in self.category_list)
         self._accumulate_range = list(self._accumulate())
 
     def _accumulate(self):
         sum_len = 0
         yield sum_len
-        for length in (len(c) for c in self.category_list):
+        for length in (c.__len__() for c in self.category_list):
             sum_len += length
             yield sum_len
 
-- 
2.43.0


From 80ffb0b11310431d6034e3f2150b91a3d3167f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 05/26] fix: three-player games count unseen 1m and 9m by tile
 id

The set of unseen tiles held (suit, number, copy) tuples for 1m and 9m and
ids for the rest, so those tiles never became visible and never counted as
available.
---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 94f5641..4998032 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -174,7 +174,7 @@ class InvisibleTiles(GameState):
             if player_num == 4:
                 invisible_tiles = set(range(tile_total))
             elif player_num == 3:
-                color_1m_9m = ((0, num, i) for num, i in product([1 - 1, 9 - 1], range(4)))
+                color_1m_9m = (TENHOU_TILE_CATEGORY.index((0, num, i)) for num, i in product([1 - 1, 9 - 1], range(4)))
                 others = range(TENHOU_TILE_CATEGORY.index((1, 0, 0)), tile_total)
                 invisible_tiles = set(chain(color_1m_9m, others))
         self._invisible_tiles = invisible_tiles
-- 
2.43.0


From 830af59dc44f344a74813930db5da0544e2a0d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 06/26] fix: waiting engines honour ignore_4counts=False

BruteForceWaiting rejected every extension when the four-copy limit was
lifted and searched for ever, and several methods dropped the argument.
---
 mahjong/container/pattern/reasoning.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index faafa6d..96f8065 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -36,14 +36,14 @@ class BruteForceWaiting(Waiting):
         for need_tiles in count(1):
             for tiles in product(TileDistribution.ALL_TILES, repeat=need_tiles):
                 added_hand = hand + TileSet(tiles)
-                if (ignore_4counts and all(v <= 4 for v in added_hand.values())) and self.win_pattern.match(added_hand):
+                if (not ignore_4counts or all(v <= 4 for v in added_hand.values())) and self.win_pattern.match(added_hand):
                     return need_tiles - 1
 
     def useful_tiles(self, hand: TileSet, ignore_4counts=True):
-        self_waiting = self.before_waiting_step(hand)
+        self_waiting = self.before_waiting_step(hand, ignore_4counts)
         return set(tile for tile in TileDistribution.ALL_TILES if
-                   (ignore_4counts and hand[tile] < 4) and
-                   self.before_waiting_step(hand + TileSet([tile])) < self_waiting)
+                   (not ignore_4counts or hand[tile] < 4) and
+                   self.before_waiting_step(hand + TileSet([tile]), ignore_4counts) < self_waiting)
 
 
 def borrowed_limit(hand):
@@ -159,13 +159,13 @@ class HeuristicPatternMatchWaiting(Waiting):
 
     def waiting_and_useful_tiles(self, hand, ignore_4counts=True):
         logging.debug("finding waiting step")
-        self_waiting = self.before_waiting_step(hand)
+        self_waiting = self.before_waiting_step(hand, ignore_4counts)
         result_iter = self.count_hand_borrow_combinition_iter(hand, ignore_4counts, self_waiting)
 
         return self_waiting, set(tile for _, _, borrows in result_iter for tile in borrows)
 
     def batch_waiting_and_useful_tiles(self, hand, ignore_4counts=True):
-        waiting_step = self.before_waiting_step(hand)
+        waiting_step = self.before_waiting_step(hand, ignore_4counts)
         result_iter = self.count_hand_borrow_combinition_iter(hand, ignore_4counts, waiting_step)
         all_hand_cnt = defaultdict(set)
         for _, sub_win, borrows in result_iter:
-- 
2.43.0


From d96b044156ef1d78b00fa73f738ef5a55866dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 07/26] fix: PatternMatchWaiting reports a complete hand as -1
 with nothing useful

waiting_and_useful_tiles skipped a search that needed no tile and reported a
winning hand as one step away.
---
 mahjong/container/pattern/reasoning.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index 96f8065..bfa22dd 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -84,12 +84,13 @@ class PatternMatchWaiting(Waiting):
         borrow_limit = borrowed_limit(hand)
 
         for need_tile_count in count(0):
-            useful_tiles = set()
+            found, useful_tiles = False, set()
             for pattern, borrowed in self._win_selections_in_tiles(hand, need_tile_count, ignore_4counts,
                                                                    self.win_pattern, borrow_limit,
                                                                    TileDistribution.ALL_TILES.copy()):
+                found = True
                 useful_tiles.update(borrowed)
-            if len(useful_tiles) > 0:
+            if found:
                 return need_tile_count - 1, useful_tiles
 
     def useful_tiles(self, hand: TileSet, ignore_4counts=True):
-- 
2.43.0


From a061df26d4ad84841e371d326e317ab9ba9166de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 08/26] fix: repr() of an event no longer raises TypeError

---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index 1712e41..5d7c0b1 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -100,7 +100,7 @@ class TenhouEvent:
         return getattr(self._wrapped_xml_event, name)
 
     def __repr__(self):
-        return "[%s]:%s" % self, self._wrapped_xml_event
+        return "[%s]:%s" % (self, self._wrapped_xml_event)
 
     @property
     def meta_attribute(self):
-- 
2.43.0


From c0001ef9d773214b32203e02dc4e8145ff52cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 09/26] fix: handlers registered with match_both are found
 again

They were stored under (attribute, name) and looked up under (name,
attribute), so they never ran.
---
 mahjong/record/universe/tenhou/xml_macher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/xml_macher.py b/mahjong/record/universe/tenhou/xml_macher.py
index 5d1caf8..f3aed83 100644
--- a/mahjong/record/universe/tenhou/xml_macher.py
+++ b/mahjong/record/universe/tenhou/xml_macher.py
@@ -44,7 +44,7 @@ class TenhouCommandTranslator(CommandTranslator):
 
     def match_both(self, *, name: str, attr: str) -> Callable[[EventTransform], EventTransform]:
         def _matcher_decor(func: EventTransform):
-            self.both_match[(attr, name)].append(func)
+            self.both_match[(name, attr)].append(func)
             return func
 
         return _matcher_decor
-- 
2.43.0


From 9751fcaedd9c7b7fd72ddaa890bedb7e4566f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 10/26] fix: a win lists its yaku, not the han counts read as
 yaku

The yaku attribute of AGARI alternates yaku ids and han counts.
---
 mahjong/record/universe/tenhou/event_definition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/event_definition.py b/mahjong/record/universe/tenhou/event_definition.py
index 8762e8e..8056028 100644
--- a/mahjong/record/universe/tenhou/event_definition.py
+++ b/mahjong/record/universe/tenhou/event_definition.py
@@ -255,7 +255,9 @@ def agari_command(event: TenhouEvent, ctx):
     with cmd.when(update=Update.REPLACE):
         yield cmd(prop=GameView.nobody_win, value=False)
     attr = event.attrib
-    yaku = list(map(lambda t: SCORE_PATTERN[t], number_list(attr.get("yaku", attr.get("yakuman")))))
+    # "yaku" holds (yaku, han) pairs, "yakuman" holds yaku only.
+    yaku_ids = number_list(attr["yaku"])[::2] if "yaku" in attr else number_list(attr["yakuman"])
+    yaku = [SCORE_PATTERN[t] for t in yaku_ids]
     yield from game_finish(cmd, ctx, from_player_id, player_id, sc_list, yaku, event)
 
 
-- 
2.43.0


From 844c70140d2440730ff3bf769f41be1e8cdbd1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 11/26] fix: discards from a complete hand are analysed

batch_waiting_and_useful_tiles yielded nothing for a winning hand, so the
record checker failed with StopIteration when a player declined a win.
---
 mahjong/container/pattern/reasoning.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index bfa22dd..571a48b 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -167,6 +167,11 @@ class HeuristicPatternMatchWaiting(Waiting):
 
     def batch_waiting_and_useful_tiles(self, hand, ignore_4counts=True):
         waiting_step = self.before_waiting_step(hand, ignore_4counts)
+        if waiting_step < 0:
+            # every tile of a complete hand is used, so nothing can be dropped for free.
+            for tile in list(hand):
+                yield (tile, *self.waiting_and_useful_tiles(hand - TileSet([tile]), ignore_4counts))
+            return
         result_iter = self.count_hand_borrow_combinition_iter(hand, ignore_4counts, waiting_step)
         all_hand_cnt = defaultdict(set)
         for _, sub_win, borrows in result_iter:
-- 
2.43.0


From e53c09b1233b3404d022329a5e1ea5ece1a7f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 12/26] fix: the report merges normal and seven-pair analyses
 per discard

The two lists were zipped by position although they cover different
discards in different order: useful tiles of one discard were credited to
another, and good discards were dropped, which gave negative wrong rates.
The generator was also exhausted before the per-type sections used it.
---
 mahjong/tenhou_record_check.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 31cbca9..8840099 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -8,7 +8,7 @@ import pkg_resources
 
 from loguru import logger
 from functools import reduce
-from itertools import groupby, product
+from itertools import chain, groupby, product
 from typing import Set, List, Callable, TypeVar, Optional
 
 from jinja2 import Environment, select_autoescape, PackageLoader, FileSystemLoader
@@ -230,10 +230,10 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     reasoning_names = ["normal_reasonings", "seven_pair_reasonings"]
     if meld_count == 0:
         win_types.append(UniquePairs())
-    win_reasonings = all_win_type_reasoning(hand, invisible_player_perspective, win_types)
+    win_reasonings = list(all_win_type_reasoning(hand, invisible_player_perspective, win_types))
     merged_win_reasonings = [
-        reasoning_merge(list(reasoning_same_discard), invisible_player_perspective)
-        for reasoning_same_discard in zip(*win_reasonings)
+        reasoning_merge(reasoning_same_discard, invisible_player_perspective)
+        for reasoning_same_discard in group_best_by_discard(win_reasonings)
     ]
     merged_win_reasonings.sort(key=reasoning_key)
     _, expected_reasonings = next(groupby(merged_win_reasonings, key=reasoning_key))
@@ -289,6 +289,16 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     return round_reasoning
 
 
+def group_best_by_discard(win_reasonings):
+    items = list(chain.from_iterable(win_reasonings))
+    best_step = min(item.waiting_step for item in items)
+    grouped = {}
+    for item in items:
+        if item.waiting_step == best_step:
+            grouped.setdefault(item.discard_tile, []).append(item)
+    return grouped.values()
+
+
 def all_win_type_reasoning(hand, invisible_player_perspective, win_types):
     for win in win_types:
         yield list(one_win_reasoning(hand, invisible_player_perspective, win))
-- 
2.43.0


From ae61aa4c5487fe5630c0dbb49d9a2f679e2d7cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 13/26] fix: the report survives a turn whose best discards
 wait on nothing unseen

wrong_rate divided by the number of unseen useful tiles, which can be 0.
---
 mahjong/tenhou_record_check.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 8840099..a472e3e 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -257,7 +257,10 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     base = expect_counts * shanten_sequence_count
     # print("base=", base, "expect_counts=", expect_counts, "your_counts=", your_counts)
 
-    correct_rate = your_counts / base
+    if base > 0:
+        correct_rate = your_counts / base
+    else:  # nothing useful is left for the best discards either.
+        correct_rate = 1 if your_shanten == expect_shanten else 0
     wrong_rate = 1 - correct_rate
     # print("correct=", correct_rate, "wrong=", wrong_rate)
 
-- 
2.43.0


From 60dbd5fe3cbc3d81197994b03fb55de94a284082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 14/26] fix: a player name cannot leave the report's folder or
 fail to be a file name

Names come from other people and may hold slashes.
---
 mahjong/tenhou_record_check.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index a472e3e..98a2aec 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -2,6 +2,7 @@
 import operator as op
 import base64
 import os
+import re
 import sys
 
 import pkg_resources
@@ -193,7 +194,8 @@ def render_template(player, record, template, log_url=None, log_id=None, generat
     render_str = template.render(player=str(player), record=str(record), log_url=log_url, games=games,
                                  all_tiles=all_tiles)
     if generate_filename:
-        return "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index), render_str
+        file_name = "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index)
+        return re.sub(r'[\\/:*?"<>|\x00-\x1f]', "_", file_name), render_str
     else:
         return render_str
 
-- 
2.43.0


From 25ff7251bb3036fe08c1b1240547d51c07ac7c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 15/26] fix: the win-rate tool reports when no experiment wins

It divided by the number of wins.
---
 mahjong/win_rate_demo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/win_rate_demo.py b/mahjong/win_rate_demo.py
index 1f99249..9fee149 100644
--- a/mahjong/win_rate_demo.py
+++ b/mahjong/win_rate_demo.py
@@ -67,7 +67,7 @@ def main():
     min_rate = 1 / try_count
     condition_matrix = np.full((solution_count, solution_count), min_rate, dtype=np.double)
     for condition_index, condition_tile in enumerate(solution_tiles):
-        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count
+        self_transfer_rate = avg_win_counter[condition_tile] / max(total_win_count, 1)
         # self_transfer_rate = 0
         for transfer_index, transfer_tile in enumerate(solution_tiles):
             transfer_count = condition_win_counter[condition_tile][transfer_tile]
-- 
2.43.0


From 455b3211e178a2ed331274df082f5024863e2346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 16/26] fix: reading a command csv keeps text as it was written

A player called NA, null, nan or None was read as a missing value, and a
column of number-like values was converted before it was parsed.
---
 mahjong/record/universe/command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/universe/command.py b/mahjong/record/universe/command.py
index 4b0c2eb..5deba59 100644
--- a/mahjong/record/universe/command.py
+++ b/mahjong/record/universe/command.py
@@ -88,7 +88,9 @@ class GameCommand:
 
     @staticmethod
     def read_clean_csv(csv_path):
-        return GameCommand.clean(pandas.read_csv(csv_path))
+        return GameCommand.clean(pandas.read_csv(
+            csv_path, dtype={"value": str, "state": str}, keep_default_na=False, na_values=[""]
+        ))
 
     @staticmethod
     def pandas_columns_clean(row_origin):
-- 
2.43.0


From a9f8f2c695642eb69c4eee611e27016e03364216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 17/26] fix: reading a state csv keeps text columns and missing
 text

A column of player names such as 007 or 1.0 was read as numbers, names such
as NA as missing, and missing text as the name nan.
---
 mahjong/record/universe/executor.py         | 9 ++++++++-
 mahjong/record/universe/property_manager.py | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index ca67f28..2772ec9 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -71,7 +71,14 @@ def state_series_apply(x):
 class GameExecutor:
     @staticmethod
     def read_clean_csv(csv_path):
-        df_states = pd.read_csv(csv_path, header=[0, 1, 2], skipinitialspace=True)
+        options = dict(header=[0, 1, 2], skipinitialspace=True, keep_default_na=False, na_values=[""])
+        # text must not be guessed to be a number: player names may look like one.
+        columns = pd.read_csv(csv_path, nrows=0, **options).columns
+        text = {
+            col: str for col in columns
+            if getattr(replace_enum_values(col[-1]), "type", None) == ViewType.str
+        }
+        df_states = pd.read_csv(csv_path, dtype=text, **options)
         df_states = df_states.rename(columns=replace_enum_values)
         df_states = df_states.apply(state_series_apply, axis="rows")
         return df_states
diff --git a/mahjong/record/universe/property_manager.py b/mahjong/record/universe/property_manager.py
index 9ea3c3a..a518d02 100644
--- a/mahjong/record/universe/property_manager.py
+++ b/mahjong/record/universe/property_manager.py
@@ -71,11 +71,15 @@ def general_equal(expceted, actual):
 
 
 @prop_manager.register(ViewType.str, PropertyMethod.to_str)
-@prop_manager.register(ViewType.str, PropertyMethod.from_str)
 def plain_str(x):
     return str(x)
 
 
+@prop_manager.register(ViewType.str, PropertyMethod.from_str)
+def plain_str_or_missing(x):
+    return None if x != x else str(x)
+
+
 @prop_manager.register(None, PropertyMethod.to_str)
 def json_dump(x):
     return json.dumps(x)
-- 
2.43.0


From 0721f4596e106c6e0a891ab06387d5b63ccfd579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 18/26] fix: a paifu lists new dora indicators as text like
 every other tile

---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index 5d7c0b1..d8d9907 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -231,7 +231,7 @@ class TenhouEvent:
                 return [richi, score]
 
         if is_dora_indicator_event(event):
-            tile = tile_from_tenhou(int(attrs['hai']))
+            tile = str(tile_from_tenhou(int(attrs['hai'])))
             return [{'event_type': 'DORA', 'player': '0', 'player_see': tile, 'player_show': tile}]
 
         if is_somebody_win_game(event):
-- 
2.43.0


From 541ea1ff1338a0ecf3da950a4cf4781ba769daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 19/26] fix: the unicode glyph of a red five is that of the
 five

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 98a2aec..031cf73 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -47,7 +47,7 @@ def to_unicode_tile(tile: Tile) -> str:
     if tile.color == 'z':
         number = UNICODE_HONOR_ORDER[tile.number] - 1
     else:
-        number = tile.number - 1
+        number = (tile.number or 5) - 1  # a red five is numbered 0
     index = TILE_CATEGORY.index((color, number))
     return chr(0x1f000 + index)
 
-- 
2.43.0


From e82d2891a8e5c45c14300cd8e564a8df0a79aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 20/26] fix: resuming a group that was left behind no longer
 swallows items

---
 mahjong/record/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mahjong/record/stage.py b/mahjong/record/stage.py
index 383e69f..071e5d1 100644
--- a/mahjong/record/stage.py
+++ b/mahjong/record/stage.py
@@ -53,6 +53,8 @@ class StageGroupby:
     def _grouper(self, tgtkey: List[K], id):
         while self.id is id and self._stage_accepted(tgtkey):
             yield self.currvalue
+            if self.id is not id:
+                return
             try:
                 self.currvalue = next(self.it)
             except StopIteration:
-- 
2.43.0


From e5cc61431070a13b4f49f493a2c12cdac4259429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 21/26] fix: the report shows the tiles held instead of
 repeating a red five

---
 mahjong/tenhou_record_check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 031cf73..ae2e434 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -272,7 +272,8 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     for item in merged_win_reasonings:
         item.norm()
 
-    hand_str = join_tiles(to_plain_tile(x) for x in hand.tiles())
+    # a red five counts as a five in the hand, so the tiles held are shown instead.
+    hand_str = join_tiles(to_plain_tile(x) for x in sorted(tile_from_tenhou(index) for index in hand_state.value))
     meld_strs = [
         join_tiles(to_plain_tile(tile_from_tenhou(x))
                    for x in list(meld.self_tiles) + list(meld.borrowed_tiles))
-- 
2.43.0


From d0aedb52a49a4dec659318396f0f3498742bc1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 22/26] fix: conversions read side by side no longer share
 their state

---
 mahjong/record/universe/tenhou/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mahjong/record/universe/tenhou/__init__.py b/mahjong/record/universe/tenhou/__init__.py
index 027a402..be5ee0c 100644
--- a/mahjong/record/universe/tenhou/__init__.py
+++ b/mahjong/record/universe/tenhou/__init__.py
@@ -4,7 +4,10 @@ from mahjong.record.universe.tenhou.xml_macher import tenhou_command
 
 def to_command_iter(record, strict):
     tenhou_command.clear()
+    state = tenhou_command.interpreter.state
     for event in record.events:
+        # another conversion may have run since the last command was taken.
+        tenhou_command.interpreter.state = state
         yield from tenhou_command(event, strict)
 
 
-- 
2.43.0


From 88cb5f67253a4384e9e420a529658597fcb00b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 23/26] fix: reading a state csv keeps leading blanks of text

---
 mahjong/record/universe/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index 2772ec9..b71f3d3 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -71,7 +71,7 @@ def state_series_apply(x):
 class GameExecutor:
     @staticmethod
     def read_clean_csv(csv_path):
-        options = dict(header=[0, 1, 2], skipinitialspace=True, keep_default_na=False, na_values=[""])
+        options = dict(header=[0, 1, 2], keep_default_na=False, na_values=[""])
         # text must not be guessed to be a number: player names may look like one.
         columns = pd.read_csv(csv_path, nrows=0, **options).columns
         text = {
-- 
2.43.0


From 76169e66b10bd219e218456caeb2d09a1795df23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 24/26] fix: a digit that is no decimal number asks for all
 players instead of failing

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index ae2e434..17a2339 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -165,7 +165,7 @@ def main():
         n=len(record.players)
     ))
     planned_players = record.players.copy()
-    if input_id.isdigit():
+    if input_id.isdecimal():
         input_id = int(input_id)
         if input_id in range(1, len(record.players) + 1):
             player = record.players[input_id - 1]
-- 
2.43.0


From 570a7065dd46ad7d89ba2560a02798d8fcba8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:10 +0000
Subject: [PATCH 25/26] fix: convert the red-five rule of a game

RecordView.has_aka_dora is declared with the other rules, but the GO event never set it.
---
 mahjong/record/universe/tenhou/event_definition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mahjong/record/universe/tenhou/event_definition.py b/mahjong/record/universe/tenhou/event_definition.py
index 8056028..e28d46d 100644
--- a/mahjong/record/universe/tenhou/event_definition.py
+++ b/mahjong/record/universe/tenhou/event_definition.py
@@ -170,6 +170,7 @@ def game_type_command(event: TenhouEvent, ctx):
             prop=RecordView.play_level,
             value=if_value(game_type.with_tips(), "若銀琥孔", "般上特鳳")[game_type.play_level()]
         )
+        yield cmd(prop=RecordView.has_aka_dora, value=game_type.has_aka_dora())
         yield cmd(prop=RecordView.show_discard_shadow, value=game_type.show_discard_shadow())
         yield cmd(prop=RecordView.play_wind_count, value=game_type.play_wind_count())
         yield cmd(prop=RecordView.allow_tanyao_open, value=game_type.allow_tanyao_open())
-- 
2.43.0


From 68b4fc95ad316069cce177b699ed7d7fb7e5c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:32 +0000
Subject: [PATCH 26/26] fix: convert the dealer of a round

GameView.dealer is declared with the other facts of a round, but no event ever set it.
---
 mahjong/record/universe/tenhou/event_definition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mahjong/record/universe/tenhou/event_definition.py b/mahjong/record/universe/tenhou/event_definition.py
index e28d46d..3bc40a3 100644
--- a/mahjong/record/universe/tenhou/event_definition.py
+++ b/mahjong/record/universe/tenhou/event_definition.py
@@ -111,6 +111,7 @@ def game_init_command(event: TenhouEvent, ctx):
 
 def set_oya_command_yield(cmd, ctx, oya_index):
     with cmd.when(update=Update.REPLACE):
+        yield cmd(prop=GameView.dealer, value=oya_index)
         for p_id in range(ctx[("all", RecordView.player_count)]):
             yield cmd(prop=PlayerView.is_dealer, sub_scope=p_id, value=oya_index == p_id)
 
-- 
2.43.0

