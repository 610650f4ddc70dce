From ad78976d3bf7219275aa3692427ea4094929825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:35 +0000
Subject: [PATCH 01/78] hook: SEARCH_MC_CLOSEDSZ caps the initial closed list
 size (off by default)

---
 search/closedlist.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/search/closedlist.hpp b/search/closedlist.hpp
index 804963f..f8b188a 100644
--- a/search/closedlist.hpp
+++ b/search/closedlist.hpp
@@ -27,6 +27,12 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 
 	ClosedList(unsigned long szhint) :
 			fill(0), ncollide(0), nresize(0), nbins(0), fills(NULL), bins(NULL) {
+#ifdef SEARCH_MC_CLOSEDSZ
+		// Verification builds cap the initial size so that many
+		// searches can be run, and so that growth is exercised.
+		if (szhint > SEARCH_MC_CLOSEDSZ)
+			szhint = SEARCH_MC_CLOSEDSZ;
+#endif
 		resize(szhint);
 		nresize = 0;	// don't count the initial resize
 	}
-- 
2.43.0


From 2008f948d2d19a4e49663527e4764cf546ba63ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 02/78] fix: IDA* must stop when no state exceeds the bound

---
 search/idastar.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/search/idastar.hpp b/search/idastar.hpp
index a91718a..c01955a 100644
--- a/search/idastar.hpp
+++ b/search/idastar.hpp
@@ -31,6 +31,11 @@ public:
 			dfrow(stdout, "iter", "dguu", (long) i, (double) bound,
 				SearchAlgorithm<D>::res.expd, SearchAlgorithm<D>::res.gend); 
 
+			// Nothing was pruned by the bound: the entire space
+			// was searched, and it doesn't contain a goal.
+			if (minoob == Cost(-1))
+				break;
+
 			bound = minoob;
 		}
 
-- 
2.43.0


From 2a03a199da6bfbfc2af97d021ee5a47ad09fe7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 03/78] fix: LSS-LRTA* searches must give the domain to their
 hash tables

---
 search/dtastar-dump.hpp | 6 ++++++
 search/fhatlrtastar.hpp | 6 ++++++
 search/lsslrtastar.hpp  | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 8547b5a..9fdb252 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -78,6 +78,10 @@ private:
 		~Nodes() {
 		}
 
+		void init(D &d) {
+			tbl.init(d);
+		}
+
 		void clear() {
 			for (auto n : tbl)
 				pool.destruct(n);
@@ -206,6 +210,8 @@ public:
 
 	void search(D &d, State &s0) {
 		this->start();
+		nodes.init(d);
+		lssNodes.init(d);
 
 		Node *cur = nodes.get(d, s0);
 
diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 8943382..a77e5c4 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -78,6 +78,10 @@ private:
 		~Nodes() {
 		}
 
+		void init(D &d) {
+			tbl.init(d);
+		}
+
 		void clear() {
 			for (auto n : tbl)
 				pool.destruct(n);
@@ -197,6 +201,8 @@ public:
 
 	void search(D &d, State &s0) {
 		this->start();
+		nodes.init(d);
+		lssNodes.init(d);
 
 		Node *cur = nodes.get(d, s0);
 
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 8cad8d1..8b89c6f 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -90,6 +90,10 @@ private:
 		~Nodes() {
 		}
 
+		void init(D &d) {
+			tbl.init(d);
+		}
+
 		void clear() {
 			for (auto n : tbl)
 				pool.destruct(n);
@@ -221,6 +225,8 @@ public:
 
 	void search(D &d, State &s0) {
 		this->start();
+		nodes.init(d);
+		lssNodes.init(d);
 
 		Node *cur = nodes.get(d, s0);
 
-- 
2.43.0


From 0fb47f02c8fb8fce1b8008da94fa1c455d7afbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 04/78] fix: fhatlrtastar must initialise the parent of new
 nodes

---
 search/fhatlrtastar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index a77e5c4..32a8a24 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -114,7 +114,7 @@ private:
 	class LssNode {
 	public:
 
-		LssNode() : openind(-1), updated(false), closed(false) {
+		LssNode() : parent(NULL), openind(-1), updated(false), closed(false) {
 		}
 	
 		class Nodes {
-- 
2.43.0


From ea6742034c43d8a3e83b662341b091262b0ab4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:04 +0000
Subject: [PATCH 05/78] fix: LSS-LRTA* searches must give up at a dead end
 instead of aborting

---
 search/dtastar-dump.hpp | 5 ++++-
 search/fhatlrtastar.hpp | 5 ++++-
 search/lsslrtastar.hpp  | 7 +++++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 9fdb252..6858db7 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -226,6 +226,8 @@ public:
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
+			if (!m.first)
+				break;
 
 			if (randgen.real() < samplep)
 				evaluate(d, cur);
@@ -368,7 +370,8 @@ private:
 					best = n;
 			}
 		}
-		assert (best);
+		if (!best)	// dead end
+			return std::make_pair((Node*) NULL, 0.0);
 		assert (best->node != cur);
 		std::vector<Oper> ops;
 		LssNode *q = NULL;
diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 32a8a24..cd3d7bc 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -215,6 +215,8 @@ public:
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
+			if (!m.first)
+				break;
 			cur = m.first;
 			lsslim->start(m.second);
 			times.push_back(walltime() - this->res.wallstart);
@@ -429,7 +431,8 @@ private:
 					best = n;
 			}
 		}
-		assert (best);
+		if (!best)	// dead end
+			return std::make_pair((Node*) NULL, 0.0);
 		assert (best->node != cur);
 		std::vector<Oper> ops;
 		LssNode *q = NULL;
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 8b89c6f..9373919 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -239,6 +239,8 @@ public:
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
+			if (!m.first)
+				break;
 			cur = m.first;
 			lsslim->start(m.second);
 			times.push_back(walltime() - this->res.wallstart);
@@ -415,7 +417,7 @@ private:
 	std::pair<Node*, double> move(Node *cur, LssNode *goal) {
 		LssNode *best = goal;	
 	
-		if (!best && complete) {
+		if (!best && complete && !lssOpen.empty()) {
 			// Minimum f value still on open (unexpanded).
 			// Due to consistency, all expanded nodes should have f ≤ minf.
 			// We want to find the last *complete* layer of the onion, that is,
@@ -452,7 +454,8 @@ private:
 					best = n;
 			}
 		}
-		assert (best);
+		if (!best)	// dead end
+			return std::make_pair((Node*) NULL, 0.0);
 		assert (best->node != cur);
 		std::vector<Oper> ops;
 		LssNode *q = NULL;
-- 
2.43.0


From f9111246da84cf6549d5ab57ef032462d92f95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 06/78] fix: RTA* must not overwrite the start state's value at
 every step

---
 search/rtastar.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index 7733e21..77a108c 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -54,15 +54,16 @@ template <class D> struct Rtastar : public SearchAlgorithm<D> {
 		this->start();
 		seen.init(d);
 		Current cur(s0, D::Nop, D::Nop, typename D::Cost(0), d.h(s0));
-		Cost *curh = storenode(d, cur.state, cur.f);
+		storenode(d, cur.state, cur.f);
 
 		while (!d.isgoal(cur.state) && !this->limit()) {
-			std::vector<Current> bests = bestkids(d, cur, *curh);
+			Cost sndf;
+			std::vector<Current> bests = bestkids(d, cur, sndf);
 			if (bests.size() == 0) {
 				this->res.ops.clear();
 				break;	// deadend;
 			}
-			storenode(d, cur.state, *curh);
+			storenode(d, cur.state, sndf);
 			cur = bests.at(randgen.integer(0, bests.size()-1));
 			this->res.ops.push_back(cur.op);
 		}
-- 
2.43.0


From 1406c85493de0ceb82f7fbdb2ac8a6b21b76d818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 07/78] fix: beam search must mark pruned nodes as not open

---
 search/beam.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search/beam.hpp b/search/beam.hpp
index d3e9349..61a7e24 100644
--- a/search/beam.hpp
+++ b/search/beam.hpp
@@ -104,7 +104,10 @@ template <class D> struct BeamSearch : public SearchAlgorithm<D> {
 				beam[c] = n;
 			}
 
-			open.clear();
+			// Prune by popping, not by clearing, so that the pruned nodes
+			// know that they are no longer on the open list.
+			while (!open.empty())
+				open.pop();
       
 			for(int i = 0; i < c && !solved && !SearchAlgorithm<D>::limit(); i++) {
 				Node *n = beam[i];
-- 
2.43.0


From 79a7d83bc09075539e1c518b7b2de17994ec9f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 08/78] fix: RTA* must store the tied value when the best
 successor is not unique

---
 search/rtastar.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index 77a108c..70e71fa 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -131,6 +131,7 @@ private:
 			} else if (bests[0].f == f) {
 				assert (!bests.empty());
 				bests.push_back(Current(e.state, ops[n], e.revop, e.cost, f));
+				sndf = f;
 			} else if (better(f, sndf)) {
 				sndf = f;
 			}
@@ -207,7 +208,7 @@ private:
 
 	// better returns true if a is better than b.
 	static bool better(Cost a, Cost b) {
-		return b == Cost(-1) || (a != Cost(-1) && a < b);
+		return a != Cost(-1) && (b == Cost(-1) || a < b);
 	}
 
 	int nlook;
-- 
2.43.0


From 722a9be6632d0778c6a229e1b9a8ed8160ea6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 09/78] fix: ARA* must report a bound of 1 when nothing can
 improve on the incumbent

---
 search/arastar.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index 433d3c6..e913a6f 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -241,6 +241,9 @@ protected:
 			if (f < min)
 				min = f;
 		}
+		// Nothing that remains can improve on the incumbent.
+		if (std::isinf(min))
+			return 1.0;
 		return cost / min;
 	}
 
-- 
2.43.0


From 67d1583494902dce1ad32097c83db2d5c57a8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 10/78] fix: ARA* must not claim convergence when its last
 iteration was cut short

---
 search/arastar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index e913a6f..c918b79 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -132,7 +132,7 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 			}
 
 			if (wt <= 1.0) {
-				optimal = true;
+				optimal = !goodnodes();
 				break;
 			}
 			nextwt();
@@ -399,7 +399,7 @@ template <class D> struct ArastarMon : public Arastar<D> {
 				this->row(n, epsprime);
 			}
 			if (this->wt <= 1.0)
-				optimal = true;
+				optimal = !this->goodnodes();
 			if (this->wt <= 1.0 || shouldstop())
 				break;
 			this->nextwt();
@@ -515,7 +515,7 @@ template <class D> struct ArastarNORA : public Arastar<D> {
 			}
 
 			if (this->wt <= 1.0) {
-				optimal = true;
+				optimal = !this->goodnodes();
 				break;
 			}
 			if (shouldstop())
-- 
2.43.0


From 412a9721d7880ac406930e670c1020b2d41bc053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 11/78] fix: Bugsy must not ignore a flag that is the last
 argument

---
 search/bugsy.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 0792bef..8252e13 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -95,17 +95,17 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 				wf = strtod(argv[++i], NULL);
 			else if (i < argc - 1 && strcmp(argv[i], "-wt") == 0)
 				wt = strtod(argv[++i], NULL);
-			else if (i < argc - 1 && strcmp(argv[i], "-noresort") == 0)
+			else if (strcmp(argv[i], "-noresort") == 0)
 				resort = false;
-			else if (i < argc - 1 && strcmp(argv[i], "-expdelay") == 0)
+			else if (strcmp(argv[i], "-expdelay") == 0)
 				useexpdelay = true;
-			else if (i < argc - 1 && strcmp(argv[i], "-hhat") == 0)
+			else if (strcmp(argv[i], "-hhat") == 0)
 				usehhat = true;
-			else if (i < argc - 1 && strcmp(argv[i], "-dhat") == 0)
+			else if (strcmp(argv[i], "-dhat") == 0)
 				usedhat = true;
-			else if (i < argc - 1 && strcmp(argv[i], "-dropdups") == 0)
+			else if (strcmp(argv[i], "-dropdups") == 0)
 				dropdups = true;
-			else if (i < argc - 1 && strcmp(argv[i], "-interph") == 0)
+			else if (strcmp(argv[i], "-interph") == 0)
 				interph = usehhat = true;
 			else if (i < argc - 1 && strcmp(argv[i], "-hlms") == 0) {
 				usehlms = true;
-- 
2.43.0


From 5a09761fc485eccf687446861079c94418a77dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 12/78] fix: Bugsy must initialise its heuristic correction
 flags

---
 search/bugsy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 8252e13..14b3c14 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -72,6 +72,7 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			SearchAlgorithm<D>(argc, argv),
 			resort(true),
 			usehlms(false),
+			usedlms(false),
 			usehhat(false),
 			usedhat(false),
 			navg(0),
@@ -79,6 +80,7 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			derror(0),
 			herrlast(0),
 			derrlast(0),
+			interph(false),
 			useexpdelay(false),
 			avgdelay(0),
 			delaylast(0),
-- 
2.43.0


From a3d66e3fd3d8ff762006a21dec6576ec0c0c4fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 13/78] fix: a search after an expired time limit must not stop
 immediately

---
 search/search.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/search.cc b/search/search.cc
index df641bb..d97c0a8 100644
--- a/search/search.cc
+++ b/search/search.cc
@@ -96,6 +96,7 @@ void Limit::timelimit(const char *tstr) {
 }
 
 void Limit::start() {
+	timeup = false;	// from an earlier search
 	if (walltime == 0 && cputime == 0)
 		return;
 	if (!timed)
-- 
2.43.0


From df0037f621cf19fa0751163d4ccf3d974985c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 14/78] fix: RTA* must discard the previous result when it is
 reset

---
 search/rtastar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index 70e71fa..8f68c10 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -89,6 +89,7 @@ template <class D> struct Rtastar : public SearchAlgorithm<D> {
 	}
 
 	virtual void reset() {
+		SearchAlgorithm<D>::reset();
 		seen.clear();
 		delete nodes;
 		nodes = new Pool<Node>();
-- 
2.43.0


From cd564fa6f6aea36a1c080a56830bf609c1389ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 15/78] fix: LSS-LRTA* searches must discard step statistics
 when they are reset

---
 search/fhatlrtastar.hpp | 3 +++
 search/lsslrtastar.hpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index cd3d7bc..23cad93 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -197,6 +197,9 @@ public:
 		lssNodes.clear();
 		herror = 0;
 		derror = 0;
+		times.clear();
+		cputimes.clear();
+		lengths.clear();
 	}
 
 	void search(D &d, State &s0) {
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 9373919..ce60251 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -221,6 +221,9 @@ public:
 		for (auto n : lssNodes)
 			lssPool.destruct(n);
 		lssNodes.clear();
+		times.clear();
+		cputimes.clear();
+		lengths.clear();
 	}
 
 	void search(D &d, State &s0) {
-- 
2.43.0


From a668da6a267cd96aa9774b74735bc4f97a8484cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 16/78] fix: Bugsy -noresort must use the expansion delay
 instead of erasing it

---
 search/bugsy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 14b3c14..54dbdab 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -313,7 +313,7 @@ private:
 		if (!resort) {
 			derrlast = derror;
 			herrlast = herror;
-			avgdelay = delaylast;
+			delaylast = avgdelay;
 
 			// Update time for each expansion if we aren't resorting.
 			if (this->res.expd > 0) {
-- 
2.43.0


From f5023b59290f92bca7f7dd125c2fc155843768ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 17/78] fix: Bugsy must update the depth of a node with its
 path

---
 search/bugsy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 54dbdab..71bbba5 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -277,6 +277,7 @@ private:
 				dup->parent = parent;
 				dup->op = op;
 				dup->pop = e.revop;
+				dup->depth = kid->depth;
 				computeutil(dup);
 				open.pushupdate(dup, dup->openind);
 			}
-- 
2.43.0


From e8c1dbc86d1d91ab14649411c5d7b7f40efa7402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 18/78] fix: Htable::rm must unlink elements that are not at
 the head of their bucket

---
 structs/htable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structs/htable.hpp b/structs/htable.hpp
index b6b8dc2..d59280a 100644
--- a/structs/htable.hpp
+++ b/structs/htable.hpp
@@ -91,7 +91,7 @@ public:
 		if (q == NULL)	// head of list
 			bins[i] = Ops::entry(p).nxt;
 		else
-			q = Ops::entry(p).nxt;
+			Ops::entry(q).nxt = Ops::entry(p).nxt;
 		return true;
 	}
 
-- 
2.43.0


From 3b13da3a512d6f90a54e0e2f8f160f6d0f6d69f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 19/78] fix: ClosedList::remove must count the bucket's fill
 down

---
 search/closedlist.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/closedlist.hpp b/search/closedlist.hpp
index f8b188a..4b579fe 100644
--- a/search/closedlist.hpp
+++ b/search/closedlist.hpp
@@ -118,6 +118,7 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 		if(!p) return NULL;
 
 		this->fill--;
+		this->fills[bindex]--;
 		if(prev == p) { //head of the list
 			this->bins[bindex] = Ops::closedentry(p).nxt;
 		}
-- 
2.43.0


From 05187350c7019046ad54d2b22d313449a7e440f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 20/78] fix: Stn::After must be the reverse of Stn::Before

---
 structs/stn.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structs/stn.hpp b/structs/stn.hpp
index 02cf282..41e2ac8 100644
--- a/structs/stn.hpp
+++ b/structs/stn.hpp
@@ -39,7 +39,7 @@ public:
 
 	struct After : Constraint {
 		After(unsigned int i, unsigned int j, Time a) :
-			Constraint(i, j, a, Stn::inf()) { }
+			Constraint(j, i, a, Stn::inf()) { }
 	};
 
 	struct NoEarlier : Constraint {
-- 
2.43.0


From 883cdd3f341c14e1271a09cf4036648c023d1178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 21/78] fix: Stn::grow must not leave constraints pointing at
 the old nodes

---
 structs/stn.cc  | 20 +++++++++++++++++++-
 structs/stn.hpp |  4 ++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/structs/stn.cc b/structs/stn.cc
index fb304a8..7d1e6c0 100644
--- a/structs/stn.cc
+++ b/structs/stn.cc
@@ -10,7 +10,18 @@ Stn::Stn(unsigned int num) {
 	nodes[0].tozero = nodes[0].fromzero = 0;
 }
 
-Stn::Stn(const Stn &o) : nodes(o.nodes.size()), undos(o.undos.size()) {
+Stn::Stn(const Stn &o) {
+	copy(o, o.nodes.size());
+}
+
+Stn::Stn(const Stn &o, unsigned int cap) {
+	copy(o, cap);
+}
+
+void Stn::copy(const Stn &o, unsigned int cap) {
+	nodes.reserve(cap);
+	nodes.resize(o.nodes.size());
+	undos.resize(o.undos.size());
 	for (unsigned int i = 0; i < o.nodes.size(); i++) {
 		Node &n = nodes[i];
 		n.id = i;
@@ -53,6 +64,13 @@ Stn::Stn(const Stn &o) : nodes(o.nodes.size()), undos(o.undos.size()) {
 
 void Stn::grow(unsigned int num) {
 	unsigned int oldsz = nodes.size();
+	if (oldsz + num > nodes.capacity()) {
+		// Arcs and undo records point into nodes: copy them
+		// into a network that has room for the new nodes.
+		Stn bigger(*this, oldsz + num);
+		nodes.swap(bigger.nodes);
+		undos.swap(bigger.undos);
+	}
 	nodes.resize(oldsz + num);
 
 	for (unsigned int i = oldsz; i < nodes.size(); i++)
diff --git a/structs/stn.hpp b/structs/stn.hpp
index 41e2ac8..a11fbcd 100644
--- a/structs/stn.hpp
+++ b/structs/stn.hpp
@@ -128,6 +128,10 @@ private:
 		void output(FILE*) const;
 	};
 
+	// The copy has room for the given number of nodes.
+	Stn(const Stn&, unsigned int);
+
+	void copy(const Stn&, unsigned int);
 	bool propagate(Undo&, const Constraint&);
 	bool proplower(Undo&, bool[], bool[], Node&);
 	bool propupper(Undo&, bool[], bool[], Node&);
-- 
2.43.0


From 7d002c3e72d2090902639113debd012e5eb74cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 22/78] fix: Stn::eq must compare all arcs

---
 structs/stn.cc  | 33 ++++++++++++++-------------------
 structs/stn.hpp |  1 +
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/structs/stn.cc b/structs/stn.cc
index 7d1e6c0..519c0e5 100644
--- a/structs/stn.cc
+++ b/structs/stn.cc
@@ -149,27 +149,22 @@ bool Stn::Node::eq(const Stn::Node &o) const {
 		|| out.size() != o.out.size() || in.size() != o.in.size())
 		return false;
 
-	bool found = out.size() == 0;
-	for (unsigned int i = 0; i < out.size() && !found; i++) {
-	for (unsigned int j = 0; j < out.size() && !found; j++) {
-		if (out[i].first->id == o.out[j].first->id
-			 && out[i].second == o.out[j].second)
-			found = true;
-	}
-	}
-	if (!found)
-		return false;
+	return samearcs(out, o.out) && samearcs(in, o.in);
+}
 
-	found = in.size() == 0;
-	for (unsigned int i = 0; i < in.size() && !found; i++) {
-	for (unsigned int j = 0; j < in.size() && !found; j++) {
-		if (in[i].first->id == o.in[j].first->id
-			 && in[i].second == o.in[j].second)
-			found = true;
-	}
+// samearcs returns true if the two vectors hold the same arcs, in any order.
+bool Stn::Node::samearcs(const std::vector<Arc> &a, const std::vector<Arc> &b) {
+	std::vector<bool> used(b.size(), false);
+	for (unsigned int i = 0; i < a.size(); i++) {
+		unsigned int j = 0;
+		while (j < b.size() && (used[j] || a[i].first->id != b[j].first->id
+				|| a[i].second != b[j].second))
+			j++;
+		if (j == b.size())
+			return false;
+		used[j] = true;
 	}
-
-	return found;	
+	return a.size() == b.size();
 }
 
 bool Stn::Undo::eq(const Undo &o) const {
diff --git a/structs/stn.hpp b/structs/stn.hpp
index a11fbcd..307197e 100644
--- a/structs/stn.hpp
+++ b/structs/stn.hpp
@@ -116,6 +116,7 @@ private:
 		}
 
 		bool eq(const Node&) const;
+		static bool samearcs(const std::vector<Arc>&, const std::vector<Arc>&);
 		void output(FILE*) const;
 	};
 
-- 
2.43.0


From 5ac68cf59c1b3fdca5d178417c6d2e756c58662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 23/78] fix: the tiles generator must judge solvability by the
 blank's row for any board size

---
 tiles/generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index 155a637..3fcb31a 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -36,7 +36,7 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 	// Add parity bits through puzzle
 	for (unsigned int i=0; i<ts.size(); i++) {
 		if (ts[i] == 0)
-			blankrow = i / (height) + 1;
+			blankrow = i / width;
 
 		for (unsigned int j=0; j<i; j++) {
 			if (ts[j] > ts[i] && ts[i] != 0)
@@ -47,7 +47,7 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 	// add parity bit if grid is even width & other bullshit, see:
 	// http://www.cs.bham.ac.uk/~mdr/teaching/modules04/java2/TilesSolvability.html
 	if (width % 2 == 0) {
-		if ((height-blankrow) % 2 == 0)
+		if (blankrow % 2 == 1)
 			parity += 1;
 	}
 
-- 
2.43.0


From e4a76c881f3ebb83ad6f0b74b73e398c6d59d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:39 +0000
Subject: [PATCH 24/78] fix: the tiles generator must neither overflow its file
 name nor leave its files open

---
 tiles/generator.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index 3fcb31a..9916070 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -2,6 +2,7 @@
 
 #include "../utils/utils.hpp"
 #include <vector>
+#include <string>
 #include <algorithm>
 #include <cstring>
 #include <cstdio>
@@ -9,8 +10,6 @@
 
 using namespace std;
 
-enum { BUFSZ = 100 };
-
 static Rand *r;
 
 static long unsigned int getrand(ptrdiff_t i) {
@@ -57,16 +56,13 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 void writeruml(vector<int> ts, int w, int h, char *dir, int n) {
 	unsigned int Ntiles = ts.size();
 	int output[Ntiles];
-	char fname[BUFSZ];
+	string fname = string(dir) + "/" + to_string(n);
 	FILE *file = NULL;
 
-
-	sprintf(fname, "%s/%d", dir, n);
-	
-	file = fopen(fname, "w");
+	file = fopen(fname.c_str(), "w");
 
 	if (!file) {
-		fatalx(errno, "Failed to open %s for writing", fname);
+		fatalx(errno, "Failed to open %s for writing", fname.c_str());
 	}
 
 	for (unsigned int i=0; i<Ntiles; i++) {
@@ -81,6 +77,8 @@ void writeruml(vector<int> ts, int w, int h, char *dir, int n) {
 	fprintf(file, "goal positions:\n");
 	for (unsigned int i = 0; i<Ntiles; i++)
 		fprintf(file, "%d\n", i);
+
+	fclose(file);
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From 47d2c165776fef1a8564a069e4bc32b84734ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 25/78] fix: pancake states must be unpacked into a copy, not
 modified in the closed list

---
 pancake/pancake.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pancake/pancake.hpp b/pancake/pancake.hpp
index c3db048..a1c47b9 100644
--- a/pancake/pancake.hpp
+++ b/pancake/pancake.hpp
@@ -113,8 +113,10 @@ public:
 		dst = s;
 	}
 
-	State &unpack(const State &dst, PackedState &pkd) const {
-		return pkd;
+	State &unpack(State &buf, const PackedState &pkd) const {
+		// A copy: edges modify the state in place, and pkd may be in a closed list.
+		buf = pkd;
+		return buf;
 	}
 
 	void dumpstate(FILE *out, State &s) const {
-- 
2.43.0


From 1c20d7238a4967f4c62b27e92b6c5b6d959ee13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 26/78] fix: Vacuum::h must not read past the dirt locations
 when there is no dirt left

---
 vacuum/vacuum.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vacuum/vacuum.hpp b/vacuum/vacuum.hpp
index 2fda4aa..9728e6a 100644
--- a/vacuum/vacuum.hpp
+++ b/vacuum/vacuum.hpp
@@ -47,6 +47,9 @@ public:
 	State initialstate(void) const;
 
 	Cost h(const State &s) const {
+		if (s.ndirt == 0)
+			return 0;
+
 		unsigned int i;
 		for (i = 0; i < s.dirt->size() && !s.dirt->at(i); i++)
 			;
-- 
2.43.0


From c413f52b70b82423a256b1e913841abc64cf5648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 27/78] fix: readline must not look before the start of an
 empty line

---
 utils/fs.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/fs.cc b/utils/fs.cc
index 740c796..03fc503 100644
--- a/utils/fs.cc
+++ b/utils/fs.cc
@@ -32,9 +32,9 @@ boost::optional<std::string> readline(FILE *in, FILE *echo) {
 		fputc('\n', echo);
 	}
 
-	if (line[line.size()-1] == '\n')
+	if (!line.empty() && line[line.size()-1] == '\n')
 		line.resize(line.size()-1);
-	if (line[line.size()-1] == '\r')
+	if (!line.empty() && line[line.size()-1] == '\r')
 		line.resize(line.size()-1);
 
 	return boost::optional<std::string>(line);
-- 
2.43.0


From 380d7dd26c24c453d52f2c7a74a2886a84cd1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:31 +0000
Subject: [PATCH 28/78] fix: the dock robot's initial piles must be sorted like
 all others

---
 drobot/drobot.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/drobot/drobot.cc b/drobot/drobot.cc
index 13a1a81..fb3e299 100644
--- a/drobot/drobot.cc
+++ b/drobot/drobot.cc
@@ -151,6 +151,10 @@ reloop:
 		line = readline(in);
 	}
 
+	// Locations keep their piles sorted.
+	for (unsigned int l = 0; l < nlocs; l++)
+		std::sort(initlocs[l].piles.begin(), initlocs[l].piles.end());
+
 	initheuristic();
 }
 
-- 
2.43.0


From 272783d217590533db6b2eca4c42d3eb68394f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:49 +0000
Subject: [PATCH 29/78] fix: the dock robot's distance estimate must minimise
 steps, not compare cost with steps

---
 drobot/drobot.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drobot/drobot.cc b/drobot/drobot.cc
index fb3e299..a4b1828 100644
--- a/drobot/drobot.cc
+++ b/drobot/drobot.cc
@@ -482,7 +482,7 @@ void DockRobot::initheuristic() {
 			shortest[i*nlocs + j].first = c;
 
 		float d = shortest[i*nlocs + k].second + shortest[k*nlocs + j].second;
-		if (c < shortest[i*nlocs + j].second)
+		if (d < shortest[i*nlocs + j].second)
 			shortest[i*nlocs + j].second = d;
 	}
 	}
-- 
2.43.0


From 5fcf18764781ca7b162cae2663fea865c14a0710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 30/78] fix: a life cost move back costs what leaving the other
 cell does

---
 gridnav/gridnav.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index ef945ec..fce8e8e 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -217,20 +217,23 @@ struct GridNav {
 				state = State(s.loc + d.map->mvs[op].delta);
 			}
 
-			int mul = 1;
+			int mul = 1, revmul = 1;
 			if (d.map->lifecost) {
 				// -2 because there is 1 layer of border
 				// around each side of the grid, thus
 				// height - y - 1 becomes height - y - 2.
 				mul = (int) d.map->h - d.map->ycoord(s.loc)-2;
+				revmul = (int) d.map->h - d.map->ycoord(state.loc)-2;
 			}
 
 			assert (state.loc < d.map->sz);
-			if (op == Ident || d.map->mvs[op].cost == 1.0)
+			if (op == Ident || d.map->mvs[op].cost == 1.0) {
 				cost = Cost(mul, 0);
-			else
+				revcost = Cost(revmul, 0);
+			} else {
 				cost = Cost(0, mul);
-			revcost = cost;
+				revcost = Cost(0, revmul);
+			}
 		}
 	};
 
-- 
2.43.0


From 055124b243cc3feaa1b127fb873401bb4a229f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 31/78] fix: Scenario::checkver must read the stream that it is
 given

---
 gridnav/scenario.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/scenario.cc b/gridnav/scenario.cc
index f580d29..57e9fbc 100644
--- a/gridnav/scenario.cc
+++ b/gridnav/scenario.cc
@@ -54,7 +54,7 @@ void Scenario::run(std::istream &in) {
 void Scenario::checkver(std::istream &in) {
 	float ver;
 	std::string verstr;
-	std::cin >> verstr >> ver;
+	in >> verstr >> ver;
 	if (verstr != "version")
 		fatal("Expected a version header");
 	if (ver != 1.0)
-- 
2.43.0


From e9a88652e416f424e62f727146edb99b2e6c8abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:46 +0000
Subject: [PATCH 32/78] fix: the four-way life cost heuristic must go no
 further than the last row

---
 gridnav/gridnav.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index fce8e8e..d4cc2d9 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -314,7 +314,7 @@ private:
 		int dx = abs(gx - x);
 		int overcost = lifecost(y > gy ? y : gy);
 		int upover = dx*overcost + costfrom(y, gy);
-		int upoverdown = costfrom(y, h) + costfrom(h, gy);
+		int upoverdown = costfrom(y, h-1) + costfrom(h-1, gy);
 
 		if (upover < upoverdown)
 			return std::make_pair(Cost(upover), dx+abs(gy - y));
-- 
2.43.0


From b5fa7be50e50135b23b1b85d2f45e2a3dede1a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:46 +0000
Subject: [PATCH 33/78] fix: a scenario entry without a solution has no path to
 cost

---
 gridnav/scenario.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridnav/scenario.cc b/gridnav/scenario.cc
index 57e9fbc..eb7e659 100644
--- a/gridnav/scenario.cc
+++ b/gridnav/scenario.cc
@@ -87,8 +87,10 @@ Result<GridNav> ScenarioEntry::run(unsigned int n, SearchAlgorithm<GridNav> *src
 
 	srch->search(d, s0);
 	Result<GridNav> &res = srch->res;
-	GridNav::Cost cost = d.pathcost(res.path, res.ops);
 	// Scenario file has 0-cost for no-path.  We use -1.
+	GridNav::Cost cost(-1);
+	if (!res.path.empty())
+		cost = d.pathcost(res.path, res.ops);
 	if (fabs(cost - (double) opt) > Eps && !(opt == 0 && cost == GridNav::Cost(-1)))
 		fatal("Expected optimal cost of %g, got %g\n", opt, (double) cost);
 
-- 
2.43.0


From a5fe47e1473a456bd7ec15a340ff8f72b7f1cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:28 +0000
Subject: [PATCH 34/78] fix: an octile map read from a file has unit costs

---
 gridnav/gridmap.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridnav/gridmap.hpp b/gridnav/gridmap.hpp
index 1c39217..34eb57f 100644
--- a/gridnav/gridmap.hpp
+++ b/gridnav/gridmap.hpp
@@ -16,7 +16,9 @@ struct GridMap {
 
 	GridMap(std::string &file);
 
-	GridMap(FILE *f) : nmvs(0) { load(f); }
+	GridMap(FILE *f) : map(NULL), lifecost(false), nmvs(0), flags(NULL) {
+		load(f);
+	}
 
 	// uniform returns a GridMap that has uniformly
 	// distributed obstacles.
-- 
2.43.0


From ac1cb6573b27cd0375b4555492e0bd6f9fb58174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:48 +0000
Subject: [PATCH 35/78] fix: a segment that lies within a parallel one
 intersects it

---
 utils/geom2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/geom2d.hpp b/utils/geom2d.hpp
index 4be0f81..0cdc6d2 100644
--- a/utils/geom2d.hpp
+++ b/utils/geom2d.hpp
@@ -307,6 +307,8 @@ namespace geom2d {
 					return o.p0;
 				else if (within(o.p1))
 					return o.p1;
+				else if (o.within(p0))
+					return p0;
 				return Pt::inf();
 			}
 			if (doubleeq(m, o.m)) {
@@ -316,6 +318,8 @@ namespace geom2d {
 					return o.p0;
 				else if (within(o.p1))
 					return o.p1;
+				else if (o.within(p0))
+					return p0;
 				return Pt::inf();
 			}
 
-- 
2.43.0


From 597d497b3877d88c815e6a75d60d214924cbc4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:32 +0000
Subject: [PATCH 36/78] fix: polygons and visibility graphs are written with
 all their digits

---
 utils/geom2d.cc    | 2 +-
 visnav/inst.cc     | 2 +-
 visnav/visgraph.cc | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/geom2d.cc b/utils/geom2d.cc
index 5534029..502ff54 100644
--- a/utils/geom2d.cc
+++ b/utils/geom2d.cc
@@ -134,7 +134,7 @@ namespace geom2d {
 	void Poly::output(FILE *out) const {
 		fprintf(out, "%lu", (unsigned long) verts.size());
 		for (unsigned int i = 0; i < verts.size(); i++)
-			fprintf(out, " %g %g", verts[i].x, verts[i].y);
+			fprintf(out, " %.17g %.17g", verts[i].x, verts[i].y);
 	}
 	
 	bool Poly::contains(const Pt &pt) const {
diff --git a/visnav/inst.cc b/visnav/inst.cc
index 3164bcd..a03d075 100644
--- a/visnav/inst.cc
+++ b/visnav/inst.cc
@@ -36,5 +36,5 @@ int main(int argc, char *argv[]) {
 	} while (g.map.obstructed(geom2d::Pt(x1, y1)));
 
 	g.output(stdout);
-	printf("%g %g %g %g\n", x0, y0, x1, y1);
+	printf("%.17g %.17g %.17g %.17g\n", x0, y0, x1, y1);
 }
\ No newline at end of file
diff --git a/visnav/visgraph.cc b/visnav/visgraph.cc
index 1c8b2ae..1c8bdee 100644
--- a/visnav/visgraph.cc
+++ b/visnav/visgraph.cc
@@ -39,7 +39,7 @@ VisGraph::Edge::Edge(FILE *in) {
 }
 
 void VisGraph::Edge::output(FILE *out) const {
-	fprintf(out, "%u %u %g", src, dst, dist);
+	fprintf(out, "%u %u %.17g", src, dst, dist);
 }
 
 VisGraph::Vert::Vert(FILE *in) {
@@ -55,7 +55,7 @@ VisGraph::Vert::Vert(FILE *in) {
 }
 
 void VisGraph::Vert::output(FILE *out) const {
-	fprintf(out, "%u %g %g %u", id, pt.x, pt.y, (unsigned int) edges.size());
+	fprintf(out, "%u %.17g %.17g %u", id, pt.x, pt.y, (unsigned int) edges.size());
 	for (unsigned int i = 0; i < edges.size(); i++) {
 		putc(' ', out);
 		edges[i].output(out);
-- 
2.43.0


From e83cdc7af48d1b14516564fedabfc5e8a20b3265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:02 +0000
Subject: [PATCH 37/78] fix: whether a polygon contains a point must not depend
 on rounding at its vertices

---
 utils/geom2d.cc | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/utils/geom2d.cc b/utils/geom2d.cc
index 502ff54..a5617be 100644
--- a/utils/geom2d.cc
+++ b/utils/geom2d.cc
@@ -138,27 +138,20 @@ namespace geom2d {
 	}
 	
 	bool Poly::contains(const Pt &pt) const {
-		bool even = true, isect = false;
-		Line ray(pt, Pt(pt.x + 1, pt.y));
+		bool in = false;
 	
 		for (unsigned int i = 0; i < sides.size(); i++) {
-			const LineSg &side = sides[i];
-			if (side.bbox.max.x < pt.x || side.bbox.max.y < pt.y || side.bbox.min.y > pt.y)
+			const Pt &a = sides[i].p0, &b = sides[i].p1;
+			// Only sides that reach below and to (or past) the ray cross it.
+			// This must not depend on a threshold: each side that meets at
+			// a vertex has to see the vertex on the same side of the ray.
+			if ((a.y >= pt.y) == (b.y >= pt.y))
 				continue;
-			Pt hit = ray.isect(side);
-	
-			if (hit.isinf() || hit.x <= pt.x || !side.within(hit))
-				continue;
-			else if (side.p0 == hit && side.p1.y >= hit.y)
-				continue;
-			else if (side.p1 == hit && side.p0.y >= hit.y)
-				continue;
-	
-			isect = true;
-			even = !even;
+			if (a.x + (pt.y - a.y) * (b.x - a.x) / (b.y - a.y) > pt.x)
+				in = !in;
 		}
 	
-		return isect && !even;
+		return in;
 	}
 	
 	std::vector<Pt> Poly::isects(const LineSg &l) const {
-- 
2.43.0


From 47a56a3e151e37ff1347c4d385abef40e5577c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:11 +0000
Subject: [PATCH 38/78] fix: the hull of points with collinear ones among them

---
 utils/geom2d.cc | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/utils/geom2d.cc b/utils/geom2d.cc
index a5617be..76900fe 100644
--- a/utils/geom2d.cc
+++ b/utils/geom2d.cc
@@ -90,27 +90,23 @@ namespace geom2d {
 		std::vector<Pt> hull;
 		unsigned int min = minx(pts);
 	
-		unsigned int cur = min, prev = pts.size();
-		Pt prevpt(pts[cur].x, pts[cur].y - 0.1);
-	
+		unsigned int cur = min;
 		do {
-			unsigned int next = 0;
-			double ang = std::numeric_limits<double>::infinity();
+			// The next point of the hull has no point to the left of the
+			// line to it and, of the points on this line, it is the farthest.
+			unsigned int next = cur;
 			for (unsigned int i = 0; i < pts.size(); i++) {
-				if (i == prev || i == cur)
+				if (pts[i] == pts[cur])
 					continue;
-				double t = Pt::cwangle(prevpt, pts[cur], pts[i]);
-				if (t < ang) {
-					ang = t;
+				Pt a = pts[next].minus(pts[cur]), b = pts[i].minus(pts[cur]);
+				double left = a.x*b.y - a.y*b.x;
+				if (next == cur || left > 0 || (left == 0 && b.dot(b) > a.dot(a)))
 					next = i;
-				}
 			}
-			
+
 			hull.push_back(pts[next]);
-			prev = cur;
-			prevpt = pts[prev];
 			cur = next;
-		} while (cur != min);
+		} while (pts[cur] != pts[min] && hull.size() < pts.size());
 	
 		return Poly(hull);
 	}
@@ -210,7 +206,8 @@ namespace geom2d {
 	static unsigned int minx(const std::vector<Pt> &pts) {
 		unsigned int min = pts.size();
 		for (unsigned int i = 0; i < pts.size(); i++) {
-			if (min >= pts.size() || pts[i].x < pts[min].x)
+			if (min >= pts.size() || pts[i].x < pts[min].x ||
+					(pts[i].x == pts[min].x && pts[i].y < pts[min].y))
 				min = i;
 		}
 		return min;
-- 
2.43.0


From bc9e06ed19599095c299b7c9186132fa997f46ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 39/78] fix: an arc that goes past the full turn can be hit
 before it

---
 utils/geom2d.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/geom2d.hpp b/utils/geom2d.hpp
index 0cdc6d2..a19f939 100644
--- a/utils/geom2d.hpp
+++ b/utils/geom2d.hpp
@@ -435,7 +435,11 @@ namespace geom2d {
 					tmax = t0;
 				}
 
-				if(tmax > 2*M_PI )
+				// The first time at or after tmin that the arc's
+				// angle is equal to t.
+				while (t > tmin + 2*M_PI)
+					t -= 2*M_PI;
+				while (t < tmin - Threshold)
 					t += 2*M_PI;
 
 				if (l.within(is[i]) && between(tmin, tmax, t))
-- 
2.43.0


From 89a849e1f548a23d13e589ea07f3c637d2ef8cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 40/78] fix: a slice that goes past the full turn contains
 points before it

---
 segments/segments.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index b36bf87..abe7aba 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -46,7 +46,10 @@ static bool slicecontains(const Arc &a, const Pt &p) {
 		tmax = a.t0;
 	}
 
-	if(tmax > 2*M_PI )
+	// The first time at or after tmin that the arc's angle is equal to t.
+	while (t > tmin + 2*M_PI)
+		t -= 2*M_PI;
+	while (t < tmin - Threshold)
 		t += 2*M_PI;
 
 	return between(tmin, tmax, t) && Pt::distance(a.c, p) <= a.r;
-- 
2.43.0


From 4b9fa47a0b3503f2142d2e681306548b9aba2ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:10 +0000
Subject: [PATCH 41/78] fix: the greatest y coordinate of a polygon map

---
 visnav/polymap.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visnav/polymap.cc b/visnav/polymap.cc
index 5163d74..9d04c4e 100644
--- a/visnav/polymap.cc
+++ b/visnav/polymap.cc
@@ -104,7 +104,7 @@ geom2d::Pt PolyMap::max() const {
 	for (unsigned int i = 0; i < polys.size(); i++) {
 		if (polys[i].bbox.max.x > max.x)
 			max.x = polys[i].bbox.max.x;
-		if (polys[i].bbox.min.y > max.y)
+		if (polys[i].bbox.max.y > max.y)
 			max.y = polys[i].bbox.max.y;
 	}
 	return max;
-- 
2.43.0


From 1e9302abda9a8bd538eec8ce90a50f89d4efce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:10 +0000
Subject: [PATCH 42/78] fix: visnav/rand writes to the file it is told to

---
 visnav/rand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visnav/rand.cc b/visnav/rand.cc
index e0c0a79..9f398e4 100644
--- a/visnav/rand.cc
+++ b/visnav/rand.cc
@@ -54,7 +54,7 @@ int main(int argc, char *argv[]) {
 		FILE *f = fopen(outfile, "w");
 		if (!f)
 			fatalx(errno, "Failed to open %s:", outfile);
-		map.output(stdout);
+		map.output(f);
 		fclose(f);
 	} else {
 		map.output(stdout);
-- 
2.43.0


From 5d921b7a6b43f64117a3b6f0931d9c20763ee5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:10 +0000
Subject: [PATCH 43/78] fix: the operators of VisNav are compared by both ends
 and have reverses

---
 visnav/visnav.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/visnav/visnav.hpp b/visnav/visnav.hpp
index 586af4d..29d2397 100644
--- a/visnav/visnav.hpp
+++ b/visnav/visnav.hpp
@@ -14,7 +14,7 @@ struct VisNav {
 				return !other.edge;
 			if (!other.edge)
 				return false;
-			return other.edge->src == edge->src || other.edge->dst == edge->dst;
+			return other.edge->src == edge->src && other.edge->dst == edge->dst;
 		}
 		const VisGraph::Edge *edge;
 	};
@@ -87,7 +87,15 @@ struct VisNav {
 		State state;
 
 		Edge(VisNav &d, State &s, Oper op) :
-			cost(op.edge->dist), revop(op), revcost(op.edge->dist), state(op.edge->dst) { }
+			cost(op.edge->dist), revcost(op.edge->dist), state(op.edge->dst) {
+			const std::vector<VisGraph::Edge> &es = d.g.verts[op.edge->dst].edges;
+			for (unsigned int i = 0; i < es.size(); i++) {
+				if (es[i].dst == op.edge->src) {
+					revop = Oper(&es[i]);
+					break;
+				}
+			}
+		}
 	};
 
 	void pack(PackedState &dst, State &src) {
-- 
2.43.0


From 62f1f66032b924cc9e455828f5c09c40cc469125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:30 +0000
Subject: [PATCH 44/78] fix: Segments::prinitial writes all of the instance to
 its file

---
 segments/segments.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index abe7aba..cb961e3 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -440,16 +440,16 @@ void Segments::prinitial(FILE *out) const {
   dfrowhdr(out, "instance", 7, "radius", "initial x", "initial y", "initial rot", "goal x", "goal y", "goal, rot");
 	for (auto sg = segs.begin(); sg != segs.end(); sg++) {
 		dfrow(out, "instance", "guuuuuu", (double) sg->radius,
-			(unsigned int) sg->start.x,
-			(unsigned int) sg->start.y,
-			(unsigned int) sg->start.rot,
-			(unsigned int) sg->goal.x,
-			(unsigned int) sg->goal.y,
-			(unsigned int) sg->goal.rot);
+			(unsigned long) sg->start.x,
+			(unsigned long) sg->start.y,
+			(unsigned long) sg->start.rot,
+			(unsigned long) sg->goal.x,
+			(unsigned long) sg->goal.y,
+			(unsigned long) sg->goal.rot);
 	}
-	dfpair(stdout, "width", "%u", width);
-	dfpair(stdout, "height", "%u", height);
-	dfpair(stdout, "number of angles", "%u", nangles);
+	dfpair(out, "width", "%u", width);
+	dfpair(out, "height", "%u", height);
+	dfpair(out, "number of angles", "%u", nangles);
 }
 
 std::vector<Segments::Oper> scanops(const std::string &str) {
-- 
2.43.0


From 766a3baf8ae0a3d67c66362b887901c7d2923221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:24 +0000
Subject: [PATCH 45/78] fix: the fourth wall of a segments instance is not its
 diagonal

---
 segments/segments.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index cb961e3..080cdb2 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -111,7 +111,7 @@ Segments::Segments(unsigned int w, unsigned int h, unsigned int t, const std::ve
 	bounds[0] = LineSg(Pt(0, 0), Pt(w, 0));
 	bounds[1] = LineSg(Pt(w, 0), Pt(w, h));
 	bounds[2] = LineSg(Pt(w, h), Pt(0, h));
-	bounds[3] = LineSg(Pt(0, h), Pt(w, 0));
+	bounds[3] = LineSg(Pt(0, h), Pt(0, 0));
 }
 
 void Segments::State::init(const Segments &dom, const std::vector<Pose> &ps) {
-- 
2.43.0


From 89cee05e8d1386b3490f2986bd9c1226be4e8f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:37 +0000
Subject: [PATCH 46/78] fix: the walls of a segments instance that is read have
 its width and height

---
 segments/segments.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index 080cdb2..784bc06 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -76,10 +76,10 @@ Segments::Segments(FILE *in) {
 	for (unsigned int i = 0; i < nangles; i++)
 		angles.push_back(Angle(dtheta*i));
 
-	bounds[0] = LineSg(Pt(0, 0), Pt(0, width));
-	bounds[1] = LineSg(Pt(0, width), Pt(height, width));
-	bounds[2] = LineSg(Pt(height, width), Pt(height, 0));
-	bounds[3] = LineSg(Pt(height, 0), Pt(0, 0));
+	bounds[0] = LineSg(Pt(0, 0), Pt(width, 0));
+	bounds[1] = LineSg(Pt(width, 0), Pt(width, height));
+	bounds[2] = LineSg(Pt(width, height), Pt(0, height));
+	bounds[3] = LineSg(Pt(0, height), Pt(0, 0));
 
 	unsigned int n;
 	if (fscanf(in, "%u\n", &n) != 1)
-- 
2.43.0


From 1dce89d5fcdf388d7652d66269dc530921a83808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:57 +0000
Subject: [PATCH 47/78] fix: a turning segment hits what is beside the ends of
 its arcs

---
 segments/segments.cc | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index 784bc06..d5d4dd9 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -205,22 +205,8 @@ Segments::Sweep Segments::Oper::rotatesweep(const Segments &dom, const State &s)
 	p.rot = wrapind(p.rot+delta, dom.nangles);
 	sweep.lines[0] = dom.line(dom.segs[seg], p);
 
-	Pt min = sweep.arcs[0].start();
-	Pt max = min;
-
-	Pt pts[] = { sweep.arcs[0].end(), sweep.arcs[1].start(), sweep.arcs[1].end() };
-
-	for (int i = 0; i < 3; i++) {
-		if (pts[i].x < min.x)
-			min.x = pts[i].x;
-		if (pts[i].y < min.y)
-			min.y = pts[i].y;
-		if (pts[i].x > max.x)
-			max.x = pts[i].x;
-		if (pts[i].y > max.y)
-			max.y = pts[i].y;
-	}
-	sweep.bbox = Bbox(min, max);
+	// The arcs can bulge out of the box around their ends.
+	sweep.bbox = sweep.arcs[0].bbox;
 
 	return sweep;
 }
-- 
2.43.0


From 048ac7a495376c1a7f47afc5c4412711b0636a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 48/78] fix: levels higher than wide have one start

---
 plat2d/plat2d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plat2d/plat2d.cc b/plat2d/plat2d.cc
index ff2674a..bdc5e1e 100644
--- a/plat2d/plat2d.cc
+++ b/plat2d/plat2d.cc
@@ -26,7 +26,7 @@ Plat2d::Plat2d(FILE *in) : lvl(in) {
 			gy = y;
 		}
 		if (lvl.at(x, y).tile.flags & Tile::Up) {
-			if (x0 < lvl.width() || x0 < lvl.height())
+			if (x0 < lvl.width() || y0 < lvl.height())
 				fatal("There are multiple start locations in the level");
 			x0 = x;
 			y0 = y;
-- 
2.43.0


From 337046042ada3573b761246cdaa19279d15bf14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 49/78] fix: the RRT reads the seed after -s

---
 search/rrt.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/search/rrt.hpp b/search/rrt.hpp
index 526d870..8aa659d 100644
--- a/search/rrt.hpp
+++ b/search/rrt.hpp
@@ -30,9 +30,9 @@ public:
 		for (int i = 0; i < argc; i++) {
 			if (i < argc - 1 && strcmp(argv[i], "-s") == 0) {
 				char *end = NULL;
-				seed = strtoull(argv[i++], &end, 10);
-				if (end == NULL)
-					fatal("Invalid seed: %s", argv[i-1]);
+				seed = strtoull(argv[++i], &end, 10);
+				if (end == argv[i] || *end != '\0')
+					fatal("Invalid seed: %s", argv[i]);
 			}
 		}
 		rng = Rand(seed);
-- 
2.43.0


From 4e998c598e3a98d7ca833fe70dea1190d9e1585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 50/78] fix: a reverse operator of the platform game leads back

---
 plat2d/plat2d.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 5127fa0..790785b 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -159,13 +159,20 @@ struct Plat2d {
 			state.player.act(d.lvl, (unsigned int) op);
 			cost = 1; // geom2d::Pt::distance(s.player.body.bbox.min, state.player.body.bbox.min));
 			if (s.player.body.bbox.min.y == state.player.body.bbox.min.y) {
-				if (op == Player::Left) {
-					revop = Player::Right;
-					revcost = cost;
-				}
-				else if (op == Player::Right) {
-					revop = Player::Left;
-					revcost = cost;
+				Oper rev = Nop;
+				if (op == Player::Left)
+					rev = Player::Right;
+				else if (op == Player::Right)
+					rev = Player::Left;
+
+				// Walls, or falling, can keep it from leading back.
+				if (rev != Nop) {
+					Player back = state.player;
+					back.act(d.lvl, (unsigned int) rev);
+					if (back == s.player) {
+						revop = rev;
+						revcost = cost;
+					}
 				}
 			}
 
-- 
2.43.0


From 12d76fd0bbb2077215f87b0ec424ad4d18f4979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 51/78] fix: rounding does not exceed the speed limit of the
 platform game

---
 plat2d/plat2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 790785b..d8208db 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -180,8 +180,8 @@ struct Plat2d {
 
 			double dy = fabs(s.player.body.bbox.center().y - state.player.body.bbox.center().y);
 			double dx = fabs(s.player.body.bbox.center().x - state.player.body.bbox.center().x);
-			assert (dx <= Maxx);
-			assert (dy <= Maxy);
+			assert (dx <= Maxx + geom2d::Threshold);
+			assert (dy <= Maxy + geom2d::Threshold);
 		}
 	};
 
-- 
2.43.0


From 74da0ee1a574ec7b02ff3a6a2f1eef89568ade97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:29 +0000
Subject: [PATCH 52/78] fix: obstacles in a traffic grid of width or height 1

---
 traffic/gridmap.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/traffic/gridmap.hpp b/traffic/gridmap.hpp
index bbb0eaa..048057e 100644
--- a/traffic/gridmap.hpp
+++ b/traffic/gridmap.hpp
@@ -135,11 +135,12 @@ struct GridMap {
 			 int x_p = abs(x + dx * t);
 			 int y_p = abs(y + dy * t);
 
-			 int x_reflections = x_p / (w-1);
-			 int y_reflections = y_p/ (h-1);
+			 // It cannot move along a side of length 1.
+			 int x_reflections = w > 1 ? x_p / (w-1) : 0;
+			 int y_reflections = h > 1 ? y_p / (h-1) : 0;
 
-			 int x_offset = x_p % (w-1);
-			 int y_offset = y_p % (h-1);
+			 int x_offset = w > 1 ? x_p % (w-1) : 0;
+			 int y_offset = h > 1 ? y_p % (h-1) : 0;
 
 			if(x_reflections % 2 == 0) newPoint.first = x_offset;
 			else newPoint.first = w - x_offset - 1;
-- 
2.43.0


From 446b9c660859b93886835e494b23b418bfc6f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:29 +0000
Subject: [PATCH 53/78] fix: traffic/randinst without a seed prints its usage

---
 traffic/randinst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traffic/randinst.cc b/traffic/randinst.cc
index 859727d..0121581 100644
--- a/traffic/randinst.cc
+++ b/traffic/randinst.cc
@@ -7,7 +7,7 @@
 
 int main(int argc, const char *argv[]) {
 	
-	if(argc < 4) {
+	if(argc < 5) {
 		fprintf(stderr, "usage: %s width height num_obs seed\n", argv[0]);
 		return 0;
 	}
-- 
2.43.0


From 075c01b96a37e587d41be6010a5a9abfec0a78fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:29 +0000
Subject: [PATCH 54/78] fix: datafile lines that just fill the buffer are not
 cut

---
 utils/datafile.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utils/datafile.cc b/utils/datafile.cc
index a654156..c5a4728 100644
--- a/utils/datafile.cc
+++ b/utils/datafile.cc
@@ -21,7 +21,7 @@ static void tryprocstatus(FILE*);
 void dfpair(FILE *f, const char *key, const char *fmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#pair  \"%s\"\t\"", key);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -29,7 +29,7 @@ void dfpair(FILE *f, const char *key, const char *fmt, ...) {
 	unsigned int m = vsnprintf(buf+n, Bufsz-n, fmt, ap);
 	va_end(ap);
 
-	if (m > (unsigned int) Bufsz-n) {	// Err, overflow
+	if (m >= (unsigned int) Bufsz-n) {	// Err, overflow
 		va_start(ap, fmt);
 		dfpair_sz(f, m + n + 1, key, fmt, ap);
 		va_end(ap);
@@ -54,7 +54,7 @@ static void dfpair_sz(FILE *f, unsigned int sz, const char *key, const char *fmt
 void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#altcols  \"%s\"", name);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -62,7 +62,7 @@ void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 	for (unsigned int i = 0; i < ncols; i++) {
 		char *col = va_arg(ap, char*);
 		unsigned int m = snprintf(buf+n, Bufsz-n, "\t\"%s %s\"", name, col);
-		if (m > (unsigned int) Bufsz - n)
+		if (m >= (unsigned int) Bufsz - n)
 			fatal("dfrowhdr: buffer is too small\n");
 		n += m;
 	}
@@ -74,7 +74,7 @@ void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#altrow  \"%s\"", name);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -102,7 +102,7 @@ void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 			m = snprintf(buf+n, Bufsz-n, "\t%lu", u);
 			break;
 		}
-		if (m > (unsigned int) Bufsz-n)
+		if (m >= (unsigned int) Bufsz-n)
 			fatal("dfrow: buffer is too small\n");
 		n += m;
 	}
-- 
2.43.0


From 348adbedd9f5a8fd6b284318282952b3c21d2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:29 +0000
Subject: [PATCH 55/78] fix: checked subtraction and multiplication catch each
 overflow, and only those

---
 utils/safeops.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/utils/safeops.hpp b/utils/safeops.hpp
index be90533..6bf64d6 100644
--- a/utils/safeops.hpp
+++ b/utils/safeops.hpp
@@ -37,24 +37,24 @@ namespace safe {
 		}
 	
 		static N sub(N a, N b){
-			if(a > 0 && b < 0 && n::max() + b < a)
+			if(a >= 0 && b < 0 && n::max() + b < a)
 				throw BadFlow<N>(a, b, "-", true);
 			if(a < 0 && b > 0 && n::min() + b > a)
-				throw BadFlow<N>(a, b, "-", true);
+				throw BadFlow<N>(a, b, "-", false);
 			return a - b;
 		}
 	
 		static N mul(N a, N b){
 			if(a > 0 && b > 0 && n::max()/b < a)
 				throw BadFlow<N>(a, b, "*", true);
-			if(a < 0 && b > 0 && n::min()/a < b)
+			if(a < 0 && b > 0 && n::min()/b > a)
 				throw BadFlow<N>(a, b, "*", false);
-			if(a > 0 && b < 0 && n::min()/b < a)
+			if(a > 0 && b < 0 && n::min()/a > b)
 				throw BadFlow<N>(a, b, "*", false);
 			if(a < 0 && b < 0){
 				if(a == n::min() || b == n::min())
 					throw BadFlow<N>(a, b, "*", true);
-				if(-(n::min()/b) > a)
+				if(n::max()/b > a)
 					throw BadFlow<N>(a, b, "*", true);
 			}
 			return a * b;
@@ -79,8 +79,8 @@ namespace safe {
 		}
 	
 		static N sub(N a, N b){
-			if(n::max() - b < a)
-				throw BadFlow<N>(a, b, "-", true);
+			if(a < b)
+				throw BadFlow<N>(a, b, "-", false);
 			return a - b;
 		}
 	
-- 
2.43.0


From c11d232e357ce9a7716ca5870eef59c28d894940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:29 +0000
Subject: [PATCH 56/78] fix: x to the 0 falling is 1

---
 utils/math.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/math.cc b/utils/math.cc
index b2e1fab..953248c 100644
--- a/utils/math.cc
+++ b/utils/math.cc
@@ -46,8 +46,8 @@ unsigned long ipow(unsigned int b, unsigned int e) {
 }
 
 unsigned long fallfact(unsigned int x, unsigned int n) {
-	unsigned long f = x;
-	for (unsigned int i = 1; i < n; i++)
+	unsigned long f = 1;
+	for (unsigned int i = 0; i < n; i++)
 		f *= (x - i);
 	return f;
 }
-- 
2.43.0


From 133ae48bf143ffd8a02b5f86ee055a19ed55d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:29 +0000
Subject: [PATCH 57/78] fix: the ranker's tree is an array

---
 utils/rank.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/rank.cc b/utils/rank.cc
index abbf738..f360b56 100644
--- a/utils/rank.cc
+++ b/utils/rank.cc
@@ -21,7 +21,7 @@ Ranker::Ranker(unsigned int sz, unsigned int n) :
 }
 
 Ranker::~Ranker() {
-	delete tree;
+	delete[] tree;
 }
 
 unsigned long Ranker::rank(const unsigned int p[])
-- 
2.43.0


From b51af8959ab57a14003f59b291bbd9954ca4637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:37 +0000
Subject: [PATCH 58/78] fix: rmrecur removes links, not what they lead to

---
 utils/fs.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/fs.cc b/utils/fs.cc
index 03fc503..f022569 100644
--- a/utils/fs.cc
+++ b/utils/fs.cc
@@ -100,7 +100,9 @@ void ensuredir(const std::string &p) {
 }
 
 bool rmrecur(const std::string &path) {
-	if (!isdir(path)) {
+	// A link is removed, not what it leads to.
+	struct stat sb;
+	if (lstat(path.c_str(), &sb) == -1 || !S_ISDIR(sb.st_mode)) {
 		if (remove(path.c_str()) != 0 && errno != ENOENT) {
 			warnx(errno, "failed to remove %s", path.c_str());
 			return false;
-- 
2.43.0


From f9c0c0170ac4b4b4d65699936734cc04788dd382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:37 +0000
Subject: [PATCH 59/78] fix: pathcat and pathcatn with an empty first part

---
 utils/fs.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/fs.cc b/utils/fs.cc
index f022569..758ca00 100644
--- a/utils/fs.cc
+++ b/utils/fs.cc
@@ -163,7 +163,7 @@ std::string dirname(const std::string &p) {
 }
 
 std::string pathcat(const std::string &dir, const std::string &base) {
-	if (dir[dir.length()-1] == sepchar)
+	if (dir.empty() || dir[dir.length()-1] == sepchar)
 		return dir + base;
 	std::string s(dir);
 	s.push_back(sepchar);
@@ -178,7 +178,7 @@ std::string pathcatn(unsigned int n, ...) {
 	va_start(ap, n);
 	for (unsigned int i = 0; i < n; i++) {
 		const char *ent = va_arg(ap, const char *);
-		if (path[path.length()-1] != sepchar)
+		if (!path.empty() && path[path.length()-1] != sepchar)
 			path.push_back(sepchar);
 		path += ent;
 	}
-- 
2.43.0


From 9f088b33829cee68831422338323501a2c5f65cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:37 +0000
Subject: [PATCH 60/78] fix: pathattrs of a relative path below a directory
 with a key ends

---
 rdb/rdb.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index 6c33eab..e2253ca 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -185,6 +185,8 @@ RdbAttrs pathattrs(std::string path) {
 
 	while (fileexists(path)) {
 		std::string dir = dirname(path);
+		if (dir == path)	// nothing is above it
+			break;
 		std::string file = basename(path);
 		std::string key;
 		if (!getkey(dir, key))
-- 
2.43.0


From b26ddf28dcabd5fcee947ab30f613eb480698d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:37 +0000
Subject: [PATCH 61/78] fix: attrargs read before the start of an empty key

---
 rdb/rdb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index e2253ca..c04fda8 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -227,7 +227,7 @@ static int frontpair(int argc, const char *argv[], std::string &key, std::string
 		vl = arg.substr(eq + 1, arg.size() - eq - 1);
 		if (eq > 0)
 			key += arg.substr(0, eq);
-		else if (key[key.size()-1] == ' ')
+		else if (!key.empty() && key[key.size()-1] == ' ')
 			key.resize(key.size() - 1);
 		return i + 1;
 	}
-- 
2.43.0


From 3607beee7e9a05740a7d2c6c24f336dd3b1aa411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:37 +0000
Subject: [PATCH 62/78] fix: addattrs does not replace the file with a part of
 it

---
 rdb/addattrs.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdb/addattrs.cc b/rdb/addattrs.cc
index d5145df..5c1f4fc 100644
--- a/rdb/addattrs.cc
+++ b/rdb/addattrs.cc
@@ -55,7 +55,11 @@ int main(int argc, const char *argv[]) {
 	}
 
 	fclose(fin);
-	fclose(fout);
+
+	// Do not replace the file with a part of it.
+	bool ok = !ferror(fout);
+	if (fclose(fout) != 0 || !ok)
+		fatal("Failed to write %s", outfile.c_str());
 
 	if (rename(outfile.c_str(), file) == -1)
 		fatalx(errno, "Failed to rename %s to %s", outfile.c_str(), file);
-- 
2.43.0


From 88f5471d7fc150b276e9990b60b0e35a0759832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:03 +0000
Subject: [PATCH 63/78] fix: anytime profiles lost digits when they were saved

---
 search/anyprof/profile.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 9e023d8..ba1987a 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -49,14 +49,14 @@ void AnytimeProfile::read(FILE *in) {
 
 void AnytimeProfile::save(FILE *out) const {
 	fprintf(out, "%u %u\n", ncost, ntime);
-	fprintf(out, "%g %g\n", mincost, maxcost);
-	fprintf(out, "%g %g\n", mintime, maxtime);
+	fprintf(out, "%.17g %.17g\n", mincost, maxcost);
+	fprintf(out, "%.17g %.17g\n", mintime, maxtime);
 	for (unsigned int i = 0; i < ncost*ntime; i++)
 		fprintf(out, "%u\n", qtcounts[i]);
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++)
 		fprintf(out, "%u\n", qqtcounts[i]);
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++)
-		fprintf(out, "%15.15g\n", qqtprobs[i]);
+		fprintf(out, "%.17g\n", qqtprobs[i]);
 }
 
 void AnytimeProfile::initbins(unsigned int cb, unsigned int tb) {
-- 
2.43.0


From 3f7453a4129a677cf4102703c4847e75f1d9f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:03 +0000
Subject: [PATCH 64/78] fix: the policy of a profile with one time bin was
 computed out of bounds

---
 search/anyprof/profile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index ba1987a..bf0a584 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -210,7 +210,7 @@ AnytimeMonitor::AnytimeMonitor(const AnytimeProfile &p, double fw, double tw) :
 	}
 
 	for (unsigned int q1 = 1; q1 < prof.ncost; q1++) {
-	for (long t = prof.ntime-2; t >= 0; t--) {
+	for (long t = (long) prof.ntime-2; t >= 0; t--) {
 
 		double vgo = 0;
 		double psum = 0;
-- 
2.43.0


From 2f9d3ecdfc3b160c3e9f381ca746e57351d9559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:03 +0000
Subject: [PATCH 65/78] fix: loops over getkeys compared iterators of two
 copies

---
 rdb/rdb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdb/rdb.hpp b/rdb/rdb.hpp
index f0ca2fe..2dadced 100644
--- a/rdb/rdb.hpp
+++ b/rdb/rdb.hpp
@@ -48,7 +48,7 @@ struct RdbAttrs {
 	// list.
 	std::string string() const;
 
-	const std::deque<std::string> getkeys() const {
+	const std::deque<std::string> &getkeys() const {
 		return keys;
 	}
 
-- 
2.43.0


From 2d9e7ab3db3b4e1e87c3a37602d3767326096d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:03 +0000
Subject: [PATCH 66/78] fix: hlms drew from one number too many, so later
 records were kept too rarely

---
 search/learnh/hlms.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/learnh/hlms.cc b/search/learnh/hlms.cc
index 0e6a6d1..a0cdb1b 100644
--- a/search/learnh/hlms.cc
+++ b/search/learnh/hlms.cc
@@ -126,7 +126,7 @@ static void dfline(std::vector<std::string> &l, void*) {
 	if (t-1 < sz)
 		i = t-1;
 	else
-		i = randgen.integer(0, t);
+		i = randgen.integer(0, t-1);
 	if (i >= sz)
 		return;
 
-- 
2.43.0


From af987703039f7e25a0daefc84525b23a2eed9fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:32 +0000
Subject: [PATCH 67/78] fix: 2poly used the width as the stride of columns, so
 maps that are not square were garbled

---
 gridnav/2poly.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/2poly.cc b/gridnav/2poly.cc
index 3db47d4..c8a3c0a 100644
--- a/gridnav/2poly.cc
+++ b/gridnav/2poly.cc
@@ -10,7 +10,7 @@ int main(int argc, char *argv[]) {
 	for (unsigned int i = 0; i < map.sz; i++)
 		blkd[i] = true;
 	for (unsigned int i = 0; i < map.w; i++) {
-		unsigned int base = i * map.w;
+		unsigned int base = i * map.h;
 
 		for (unsigned int j = 0; j < map.h; j++)
 			blkd[base + j] = map.blkd(map.index(i, j));
-- 
2.43.0


From 70f3b4a6baca67ce786aa2bf9c017c06e6fb0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:32 +0000
Subject: [PATCH 68/78] fix: ppm2grid took the maximum color value for a color

---
 gridnav/ppm2grid.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gridnav/ppm2grid.cc b/gridnav/ppm2grid.cc
index eb94666..aa6ab51 100644
--- a/gridnav/ppm2grid.cc
+++ b/gridnav/ppm2grid.cc
@@ -4,18 +4,20 @@
 #include <cstdio>
 #include <string>
 
-unsigned int w, h;
+unsigned int w, h, maxval;
 FILE *in = stdin;
 FILE *out = stdout;
 
 static bool white();
 static void readsize();
+static void readmaxval();
 static std::string nextline();
 
 int main() {
 	if (nextline() != "P3")
 		fatal("Expected P3");
 	readsize();
+	readmaxval();
 	fprintf(out, "%u %u\nBoard:\n", h, w);
 	for (unsigned int y = 0; y < h; y++) {
 		for (unsigned int x = 0; x < w; x++)
@@ -28,7 +30,7 @@ static bool white() {
 	unsigned int r, g, b;
 	if (fscanf(in, " %u %u %u", &r, &g, &b) != 3)
 		fatal("Expected a color");
-	return r == 255 && g == 255 && b == 255;
+	return r == maxval && g == maxval && b == maxval;
 }
 
 static void readsize() {
@@ -38,6 +40,13 @@ static void readsize() {
 		fatal("Expected width and height, got [%s]\n", str);
 }
 
+static void readmaxval() {
+	auto l = nextline();
+	const char *str = l.c_str();
+	if (sscanf(str, "%u", &maxval) != 1)
+		fatal("Expected the maximum color value, got [%s]\n", str);
+}
+
 static std::string nextline() {
 	std::string line;
 	do {
-- 
2.43.0


From 6e52a8fa5c6f5ed717a4ccbd0b17e58df9773207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:32 +0000
Subject: [PATCH 69/78] fix: mkseedinst rounded the probability, so the written
 instance was not the checked one

---
 gridnav/mkseedinst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/mkseedinst.cc b/gridnav/mkseedinst.cc
index 371bb8a..f69a0b6 100644
--- a/gridnav/mkseedinst.cc
+++ b/gridnav/mkseedinst.cc
@@ -42,7 +42,7 @@ int main(int argc, char *argv[]) {
 	if (i > 0)
 		putc('\n', stderr);
 
-	printf("seed %lu %u %u %f\n", (unsigned long) seed+i,
+	printf("seed %lu %u %u %.17g\n", (unsigned long) seed+i,
 		width, height, prob);
 	if (eightway)
 		puts("Eightway");
-- 
2.43.0


From 278ca4e0538029a8273332e403b46c76ff03400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:32 +0000
Subject: [PATCH 70/78] fix: randinst drew locations that are not on the map

---
 gridnav/randinst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridnav/randinst.cc b/gridnav/randinst.cc
index 55dc805..8bcc884 100644
--- a/gridnav/randinst.cc
+++ b/gridnav/randinst.cc
@@ -37,8 +37,8 @@ int main(int argc, char *argv[]) {
 	unsigned int ys[2];
 	for (int i = 0; i < 2; i++) {
 again:
-		xs[i] = r.integer(1, map.w);
-		ys[i] = r.integer(1, map.h);
+		xs[i] = r.integer(1, map.w-2);
+		ys[i] = r.integer(1, map.h-2);
 		if (map.blkd(map.index(xs[i], ys[i])))
 			goto again;
 	}
-- 
2.43.0


From e848861654ea5366bffeeb2bfdc2b1eda6f2cf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:32 +0000
Subject: [PATCH 71/78] fix: scenario2rdb read version 1.0 as two fields, which
 shifted all of those that follow

---
 gridnav/scenario2rdb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridnav/scenario2rdb.cc b/gridnav/scenario2rdb.cc
index 7c38787..2ab065b 100644
--- a/gridnav/scenario2rdb.cc
+++ b/gridnav/scenario2rdb.cc
@@ -12,10 +12,10 @@ int main(int argc, char *argv[]) {
 	std::ifstream in(argv[2]);
 	
 	std::string verstr;
-	unsigned int vernum;
+	float vernum;
 	in >> verstr >> vernum;
 	if (verstr != "version" || vernum != 1)
-		fatal("Bad scenario version: %s %d", verstr.c_str(), vernum);
+		fatal("Bad scenario version: %s %g", verstr.c_str(), vernum);
 
 	unsigned int n = 0;
 	while (in) {
-- 
2.43.0


From 2287b17091dcc2f850295c217c56f6814b6c6612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:32 +0000
Subject: [PATCH 72/78] fix: scenario2rdb used names and numbers as format
 strings

---
 gridnav/scenario2rdb.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gridnav/scenario2rdb.cc b/gridnav/scenario2rdb.cc
index 2ab065b..027ca70 100644
--- a/gridnav/scenario2rdb.cc
+++ b/gridnav/scenario2rdb.cc
@@ -45,14 +45,14 @@ int main(int argc, char *argv[]) {
 		if (!f)
 			fatalx(errno, "Failed to open %s for writing", path.c_str());
 		fprintf(f, "#start data file format 4\n");
-		dfpair(f, "scenario file", argv[2]);
-		dfpair(f, "num", num);
-		dfpair(f, "map", mapfile.c_str());
-		dfpair(f, "optimal cost", cost.c_str());
-		dfpair(f, "start x", x0.c_str());
-		dfpair(f, "start y", y0.c_str());
-		dfpair(f, "goal x", x1.c_str());
-		dfpair(f, "goal y", y1.c_str());
+		dfpair(f, "scenario file", "%s", argv[2]);
+		dfpair(f, "num", "%s", num);
+		dfpair(f, "map", "%s", mapfile.c_str());
+		dfpair(f, "optimal cost", "%s", cost.c_str());
+		dfpair(f, "start x", "%s", x0.c_str());
+		dfpair(f, "start y", "%s", y0.c_str());
+		dfpair(f, "goal x", "%s", x1.c_str());
+		dfpair(f, "goal y", "%s", y1.c_str());
 		fprintf(f, "#end data file format 4\n");
 		fclose(f);
 	}
-- 
2.43.0


From aeeae063a6a4b5531621188258c8ff8f07d62936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:32 +0000
Subject: [PATCH 73/78] fix: plat2d_solver dereferenced a missing argument

---
 plat2d/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plat2d/main.cc b/plat2d/main.cc
index 8384492..bb0902b 100644
--- a/plat2d/main.cc
+++ b/plat2d/main.cc
@@ -45,7 +45,7 @@ static void parseargs(int argc, const char *argv[]) {
 }
 
 static SearchAlgorithm<Plat2d> *get(int argc, const char *argv[]) {
-	if (strcmp(argv[1], "rrt") == 0)
+	if (argc > 1 && strcmp(argv[1], "rrt") == 0)
 		return new RRT<Plat2d>(argc, argv);
 	return getsearch<Plat2d>(argc, argv);
 }
\ No newline at end of file
-- 
2.43.0


From 16e499bf34222acd7ad8196353cc775e19fb3d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:32 +0000
Subject: [PATCH 74/78] fix: VisNav::save read the first state of an empty path

---
 visnav/visnav.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/visnav/visnav.cc b/visnav/visnav.cc
index 0471ecf..e8e6423 100644
--- a/visnav/visnav.cc
+++ b/visnav/visnav.cc
@@ -36,11 +36,10 @@ void VisNav::save(const char *file, std::vector<State> path) {
 
 	g.draw(img, false);
 
-	geom2d::Pt p0 = g.verts[path[0].vert].pt;
 	for (unsigned int i = 1; i < path.size(); i++) {
+		const geom2d::Pt &p0 = g.verts[path[i-1].vert].pt;
 		const geom2d::Pt &p1 = g.verts[path[i].vert].pt;
 		img.add(new Image::Line(p0, p1, Image::red, 3));
-		p0 = p1;
 	}
 
 	img.saveeps(file, true, 72.0/2.0);
-- 
2.43.0


From a037fb1b63b00bc17ca6af5a3df39f6bf2c28b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:32 +0000
Subject: [PATCH 75/78] fix: the header comments of EPS files had their percent
 signs doubled

---
 graphics/image.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphics/image.cc b/graphics/image.cc
index 2cf4fab..b4f8fef 100644
--- a/graphics/image.cc
+++ b/graphics/image.cc
@@ -90,12 +90,12 @@ void Image::write_epshdrletter(FILE *out, unsigned int marginpt) const {
 }
 
 void Image::write_epshdr(FILE *out, unsigned int marginpt) const {
-	fputs("%%!PS-Adobe-3.0\n", out);
-	fputs("%%%%Creator: UNH-AI C++ Search Framework\n", out);
+	fputs("%!PS-Adobe-3.0\n", out);
+	fputs("%%Creator: UNH-AI C++ Search Framework\n", out);
 	fprintf(out, "%%%%Title: %s\n", title.c_str());
 	fprintf(out, "%%%%BoundingBox: 0 0 %u %u\n",
 		width + 2 * marginpt, height + 2 * marginpt);
-	fputs("%%%%EndComments\n", out);
+	fputs("%%EndComments\n", out);
 	fprintf(out, "%u %u translate\n", marginpt, marginpt);
 }
 
-- 
2.43.0


From 77131474631accef739cc2df213d3dd8f1139a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:23 +0000
Subject: [PATCH 76/78] fix: a path or value with KEY= in it was taken for a
 key of the database

---
 rdb/rdb.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index c04fda8..f8621fb 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -19,6 +19,10 @@ static void collect(std::string, RdbAttrs&, std::vector<std::string>&);
 // beneath the given directory to the vector.
 static void addfiles(const std::string&, RdbAttrs&, std::vector<std::string>&);
 
+// keyname returns the key name if the path is that of a KEY= file
+// and NULL otherwise.
+static const char *keyname(const std::string&);
+
 // getkey searches the given directory for the
 // KEY= file and returns the key name.
 static bool getkey(const std::string&, std::string&);
@@ -105,7 +109,7 @@ static void collect(std::string path, RdbAttrs &attrs, std::vector<std::string>
 }
 
 static void addfiles(const std::string &path, RdbAttrs &attrs, std::vector<std::string> &files) {
-	if (strstr(path.c_str(), "KEY=") != NULL)
+	if (keyname(path))
 		return;
 	if (!fileexists(path))
 		return;
@@ -159,14 +163,21 @@ static std::string makepath(std::string root, RdbAttrs attrs) {
 	return root;
 }
 
+static const char *keyname(const std::string &p) {
+	const char *file = strrchr(p.c_str(), '/');
+	file = file ? file + 1 : p.c_str();
+	if (strncmp(file, "KEY=", strlen("KEY=")) != 0)
+		return NULL;
+	return file + strlen("KEY=");
+}
+
 static bool getkey(const std::string &p, std::string &key) {
 	std::vector<std::string> ents = readdir(p);
 	for (unsigned int i = 0; i < ents.size(); i++) {
-		const char *fname = ents[i].c_str();
-		const char *keyfile = strstr(fname, "KEY=");
-		if (!keyfile)
+		const char *k = keyname(ents[i]);
+		if (!k)
 			continue;
-		key = keyfile + strlen("KEY=");
+		key = k;
 		return true;
 	
 	}
-- 
2.43.0


From 696953025b967b4fdc05f411853fbef86f76375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:57 +0000
Subject: [PATCH 77/78] fix: a fall that began in water could get faster than
 the greatest speed

---
 plat2d/body.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plat2d/body.cc b/plat2d/body.cc
index bd83e7b..6b6588f 100644
--- a/plat2d/body.cc
+++ b/plat2d/body.cc
@@ -70,6 +70,9 @@ void Body::dofall(const Lvl &lvl, const Isect &is) {
 	if (fall && dy < Maxdy) {
 		Lvl::Blkinfo bi = lvl.majorblk(bbox);
 		dy += bi.tile.gravity();
+		// After a fall through water it is not a whole number of steps.
+		if (dy > Maxdy)
+			dy = Maxdy;
 	}
 }
 
-- 
2.43.0


From c8b250fa2a4f9475908ad464bde7700846bfc79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:48 +0000
Subject: [PATCH 78/78] fix: Bugsy's utility is a number when the error of d
 reaches one step per step

---
 search/bugsy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 71bbba5..ae6127d 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -326,7 +326,9 @@ private:
 			}
 		}
 		double d = usedlms ? evallms(n, dcoeffs) : n->d;
-		if (usedhat)
+		// If the error is one step per step or more then the
+		// corrected estimate is not a finite number of steps.
+		if (usedhat && derrlast < 1)
 			d /= (1 - derrlast);
 
 		double h = usehlms ? evallms(n, hcoeffs) : n->h;
-- 
2.43.0

