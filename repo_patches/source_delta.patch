From e0e3b5a6db4fd74c0529584c4246fad42bc29cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 01/13] fix: fallfact(x, 0) is the empty product 1, not x

---
 utils/math.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/math.cc b/utils/math.cc
index b2e1fab..953248c 100644
--- a/utils/math.cc
+++ b/utils/math.cc
@@ -46,8 +46,8 @@ unsigned long ipow(unsigned int b, unsigned int e) {
 }
 
 unsigned long fallfact(unsigned int x, unsigned int n) {
-	unsigned long f = x;
-	for (unsigned int i = 1; i < n; i++)
+	unsigned long f = 1;
+	for (unsigned int i = 0; i < n; i++)
 		f *= (x - i);
 	return f;
 }
-- 
2.43.0


From 481bf093b5f0168d2c73c406a18429fb29d51077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:49 +0000
Subject: [PATCH 02/13] fix: checked arithmetic reports exactly the overflows

---
 utils/safeops.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/safeops.hpp b/utils/safeops.hpp
index be90533..be881e8 100644
--- a/utils/safeops.hpp
+++ b/utils/safeops.hpp
@@ -37,7 +37,7 @@ namespace safe {
 		}
 	
 		static N sub(N a, N b){
-			if(a > 0 && b < 0 && n::max() + b < a)
+			if(a >= 0 && b < 0 && n::max() + b < a)
 				throw BadFlow<N>(a, b, "-", true);
 			if(a < 0 && b > 0 && n::min() + b > a)
 				throw BadFlow<N>(a, b, "-", true);
@@ -47,14 +47,14 @@ namespace safe {
 		static N mul(N a, N b){
 			if(a > 0 && b > 0 && n::max()/b < a)
 				throw BadFlow<N>(a, b, "*", true);
-			if(a < 0 && b > 0 && n::min()/a < b)
+			if(a < 0 && b > 0 && n::min()/b > a)
 				throw BadFlow<N>(a, b, "*", false);
-			if(a > 0 && b < 0 && n::min()/b < a)
+			if(a > 0 && b < 0 && n::min()/a > b)
 				throw BadFlow<N>(a, b, "*", false);
 			if(a < 0 && b < 0){
 				if(a == n::min() || b == n::min())
 					throw BadFlow<N>(a, b, "*", true);
-				if(-(n::min()/b) > a)
+				if(n::max()/b > a)
 					throw BadFlow<N>(a, b, "*", true);
 			}
 			return a * b;
@@ -79,7 +79,7 @@ namespace safe {
 		}
 	
 		static N sub(N a, N b){
-			if(n::max() - b < a)
+			if(a < b)
 				throw BadFlow<N>(a, b, "-", true);
 			return a - b;
 		}
-- 
2.43.0


From 30b07e0777709c121783fa5e2db9376187c5820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:37 +0000
Subject: [PATCH 03/13] fix: removing a hash-table element from inside its
 chain

---
 structs/htable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structs/htable.hpp b/structs/htable.hpp
index b6b8dc2..d59280a 100644
--- a/structs/htable.hpp
+++ b/structs/htable.hpp
@@ -91,7 +91,7 @@ public:
 		if (q == NULL)	// head of list
 			bins[i] = Ops::entry(p).nxt;
 		else
-			q = Ops::entry(p).nxt;
+			Ops::entry(q).nxt = Ops::entry(p).nxt;
 		return true;
 	}
 
-- 
2.43.0


From cfe838097290c42bbca60380769e1cd832fd8b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 04/13] fix: clearing an open list tells its nodes they have
 left it

Beam search clears the open list and meets the dropped nodes again; they
still believed they were in it, so their update aborted the search.
---
 search/search.hpp   | 12 ++++++++++++
 structs/binheap.hpp |  6 +++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/search/search.hpp b/search/search.hpp
index 48bc6be..24b1ba3 100644
--- a/search/search.hpp
+++ b/search/search.hpp
@@ -195,6 +195,16 @@ class OpenList <Ops, Node, IntOpenCost> {
 
 		bool empty() { return fill == 0; }
 
+		void clear() {
+			for (unsigned int p = 0; p < bkts.size(); p++) {
+				for (unsigned int i = 0; i < bkts[p].size(); i++)
+					Ops::setind(bkts[p][i], -1);
+				bkts[p].clear();
+			}
+			fill = 0;
+			max = 0;
+		}
+
 		unsigned long fill;
 		unsigned int max;
 		std::vector< std::vector<Node*> > bkts;
@@ -253,6 +263,8 @@ public:
 	}
 
 	void clear() {
+		for (unsigned int p = 0; p < qs.size(); p++)
+			qs[p].clear();
 		qs.clear();
 		min = 0;
 		fill = 0;
diff --git a/structs/binheap.hpp b/structs/binheap.hpp
index a5ece26..31007b0 100644
--- a/structs/binheap.hpp
+++ b/structs/binheap.hpp
@@ -75,7 +75,11 @@ public:
 
 	// clear clears all of the elements from the heap
 	// leaving it empty.
-	void clear() { heap.clear(); }
+	void clear() {
+		for (unsigned int i = 0; i < heap.size(); i++)
+			Ops::setind(heap[i], -1);
+		heap.clear();
+	}
 
  	// size returns the number of entries in the heap.
 	long size() const { return heap.size(); }
-- 
2.43.0


From 2d0e0dd9e7531ac9f9c21d58098545001f2a4cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:10 +0000
Subject: [PATCH 05/13] fix: free the Ranker's array with delete[]

---
 utils/rank.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/rank.cc b/utils/rank.cc
index abbf738..f360b56 100644
--- a/utils/rank.cc
+++ b/utils/rank.cc
@@ -21,7 +21,7 @@ Ranker::Ranker(unsigned int sz, unsigned int n) :
 }
 
 Ranker::~Ranker() {
-	delete tree;
+	delete[] tree;
 }
 
 unsigned long Ranker::rank(const unsigned int p[])
-- 
2.43.0


From 7b41ea0d00c2395ff8b6729480b410111efd52ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:02 +0000
Subject: [PATCH 06/13] fix: initialise Bugsy's usedlms and interph flags

---
 search/bugsy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 0792bef..372fb6d 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -72,8 +72,10 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			SearchAlgorithm<D>(argc, argv),
 			resort(true),
 			usehlms(false),
+			usedlms(false),
 			usehhat(false),
 			usedhat(false),
+			interph(false),
 			navg(0),
 			herror(0),
 			derror(0),
-- 
2.43.0


From fd8a6ef7830d96a2a6f3c7c08fe1ee8f61b9674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:49 +0000
Subject: [PATCH 07/13] fix: RdbAttrs::rm of a key that refers into the list
 itself

---
 rdb/rdb.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index 6c33eab..c313d5e 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -50,6 +50,9 @@ bool RdbAttrs::rm(const std::string &key) {
 	if (pairs.find(key) == pairs.end())
 		return false;
 
+	// key may refer to the element of keys that is removed
+	pairs.erase(pairs.find(key));
+
 	for (std::deque<std::string>::iterator it = keys.begin(); it != keys.end(); it++) {
 		if (*it == key) {
 			keys.erase(it);
@@ -57,8 +60,7 @@ bool RdbAttrs::rm(const std::string &key) {
 		}
 	}
 
-	pairs.erase(pairs.find(key));
-	return true;	
+	return true;
 }
 
 std::string RdbAttrs::string() const {
-- 
2.43.0


From 0da7cc738de47ce3cb55e1d39b47c317f6402251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:30 +0000
Subject: [PATCH 08/13] fix: life4cheap goes through the bottom row, so the
 heuristic of a goal there is zero

---
 gridnav/gridnav.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index ef945ec..6f14e81 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -307,7 +307,8 @@ private:
 		auto c0 = map->coord(l0), c1 = map->coord(l1);
 		int x = c0.first - 1, gx = c1.first - 1;
 		int y = c0.second - 1, gy = c1.second - 1;
-		int h = map->h - 2;
+		// h is the bottom row, from which moves are free.
+		int h = map->h - 3;
 		int dx = abs(gx - x);
 		int overcost = lifecost(y > gy ? y : gy);
 		int upover = dx*overcost + costfrom(y, gy);
@@ -316,7 +317,7 @@ private:
 		if (upover < upoverdown)
 			return std::make_pair(Cost(upover), dx+abs(gy - y));
 
-		return std::make_pair(Cost(upoverdown), dx + h-1-y + h-1-gy);
+		return std::make_pair(Cost(upoverdown), dx + h-y + h-gy);
 	}
 
 	// life8cheap returns an admissible heuristic cost
-- 
2.43.0


From 05af9222a8f99ebd61d9514f130a52c02a668375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:30 +0000
Subject: [PATCH 09/13] fix: the reverse of a life-cost grid move costs what
 the cell moved to costs

---
 gridnav/gridnav.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index 6f14e81..a041c07 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -217,20 +217,23 @@ struct GridNav {
 				state = State(s.loc + d.map->mvs[op].delta);
 			}
 
-			int mul = 1;
+			int mul = 1, revmul = 1;
 			if (d.map->lifecost) {
 				// -2 because there is 1 layer of border
 				// around each side of the grid, thus
 				// height - y - 1 becomes height - y - 2.
 				mul = (int) d.map->h - d.map->ycoord(s.loc)-2;
+				revmul = (int) d.map->h - d.map->ycoord(state.loc)-2;
 			}
 
 			assert (state.loc < d.map->sz);
-			if (op == Ident || d.map->mvs[op].cost == 1.0)
+			if (op == Ident || d.map->mvs[op].cost == 1.0) {
 				cost = Cost(mul, 0);
-			else
+				revcost = Cost(revmul, 0);
+			} else {
 				cost = Cost(0, mul);
-			revcost = cost;
+				revcost = Cost(0, revmul);
+			}
 		}
 	};
 
-- 
2.43.0


From f31b10d78e83dc50c4d1ef0d617b2e9462b9158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:30 +0000
Subject: [PATCH 10/13] fix: GridMap read from an open file initialises
 lifecost, which octile maps leave alone

---
 gridnav/gridmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/gridmap.hpp b/gridnav/gridmap.hpp
index 1c39217..7ed48b7 100644
--- a/gridnav/gridmap.hpp
+++ b/gridnav/gridmap.hpp
@@ -16,7 +16,7 @@ struct GridMap {
 
 	GridMap(std::string &file);
 
-	GridMap(FILE *f) : nmvs(0) { load(f); }
+	GridMap(FILE *f) : map(NULL), lifecost(false), nmvs(0), flags(NULL) { load(f); }
 
 	// uniform returns a GridMap that has uniformly
 	// distributed obstacles.
-- 
2.43.0


From 98ec2c7ed459444d7b263ae82a74333ba56bea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:40 +0000
Subject: [PATCH 11/13] fix: the Traffic heuristic allows for a collision that
 goes back to the start

---
 traffic/traffic.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/traffic/traffic.hpp b/traffic/traffic.hpp
index 35a0c57..9311e70 100644
--- a/traffic/traffic.hpp
+++ b/traffic/traffic.hpp
@@ -172,6 +172,11 @@ struct Traffic {
 		if (s.d >= 0)
 			return;
 		s.d = manhattan(s.loc, finish);
+		// A collision goes back to the start for the cost of a
+		// single move, which can be closer to the finish.
+		int restart = manhattan(start, finish) + 1;
+		if (restart < s.d)
+			s.d = restart;
 		s.h = Cost(s.d);
 	}
 
-- 
2.43.0


From b77e7e8399695f49812d38292317232cad62c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:22 +0000
Subject: [PATCH 12/13] fix: the Vacuum heuristic of a clean world does not
 read past the dirt locations

---
 vacuum/vacuum.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vacuum/vacuum.hpp b/vacuum/vacuum.hpp
index 2fda4aa..9728e6a 100644
--- a/vacuum/vacuum.hpp
+++ b/vacuum/vacuum.hpp
@@ -47,6 +47,9 @@ public:
 	State initialstate(void) const;
 
 	Cost h(const State &s) const {
+		if (s.ndirt == 0)
+			return 0;
+
 		unsigned int i;
 		for (i = 0; i < s.dirt->size() && !s.dirt->at(i); i++)
 			;
-- 
2.43.0


From 330bd24d7ef39383e91d2efba2fb6d7eee8cd038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:22 +0000
Subject: [PATCH 13/13] fix: Vacuum does not offer the Charge action, which
 Edge cannot apply

---
 vacuum/vacuum.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/vacuum/vacuum.hpp b/vacuum/vacuum.hpp
index 9728e6a..fb8da52 100644
--- a/vacuum/vacuum.hpp
+++ b/vacuum/vacuum.hpp
@@ -97,9 +97,6 @@ public:
 				if (d.map->ok(s.loc, d.map->mvs[i]))
 					ops[n++] = i;
 			}
-
-			if (d.chargers[s.loc])
-				ops[n++] = Charge;
 		}
 
 		unsigned int size() const {
-- 
2.43.0

