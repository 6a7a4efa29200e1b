From 3beabcd9043195f3e9f9eebef2150d0927893b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 001/107] verif: optional cap on the closed list's size hint
 (SEARCH_VERIF_SZHINT_MAX)

---
 search/closedlist.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/search/closedlist.hpp b/search/closedlist.hpp
index 804963f..2dc0536 100644
--- a/search/closedlist.hpp
+++ b/search/closedlist.hpp
@@ -27,6 +27,10 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 
 	ClosedList(unsigned long szhint) :
 			fill(0), ncollide(0), nresize(0), nbins(0), fills(NULL), bins(NULL) {
+#ifdef SEARCH_VERIF_SZHINT_MAX
+		if (szhint > SEARCH_VERIF_SZHINT_MAX)
+			szhint = SEARCH_VERIF_SZHINT_MAX;
+#endif
 		resize(szhint);
 		nresize = 0;	// don't count the initial resize
 	}
-- 
2.43.0


From ad90be648d002769bf07f6e36df927109cb8e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 002/107] fix: Htable::rm unlinks entries that are not first in
 their bucket

---
 structs/htable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structs/htable.hpp b/structs/htable.hpp
index b6b8dc2..d59280a 100644
--- a/structs/htable.hpp
+++ b/structs/htable.hpp
@@ -91,7 +91,7 @@ public:
 		if (q == NULL)	// head of list
 			bins[i] = Ops::entry(p).nxt;
 		else
-			q = Ops::entry(p).nxt;
+			Ops::entry(q).nxt = Ops::entry(p).nxt;
 		return true;
 	}
 
-- 
2.43.0


From a13cfbcff8ad04f3c1577d88b5a57a586ba1542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 003/107] fix: ClosedList::remove keeps the per-bucket fill
 counts right

---
 search/closedlist.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/closedlist.hpp b/search/closedlist.hpp
index 2dc0536..baa4255 100644
--- a/search/closedlist.hpp
+++ b/search/closedlist.hpp
@@ -116,6 +116,7 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 		if(!p) return NULL;
 
 		this->fill--;
+		this->fills[bindex]--;
 		if(prev == p) { //head of the list
 			this->bins[bindex] = Ops::closedentry(p).nxt;
 		}
-- 
2.43.0


From a3c9db882e8640b087e63ed69899265349457087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 004/107] fix: Djset::join raises the rank of the root, not of
 the joined element

---
 structs/djset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structs/djset.hpp b/structs/djset.hpp
index 6c7eca3..06b52c7 100644
--- a/structs/djset.hpp
+++ b/structs/djset.hpp
@@ -32,7 +32,7 @@ struct Djset {
 		} else {
 			oroot->parent = root;
 			if (root->rank == oroot->rank)
-				rank++;
+				root->rank++;
 		}
 	}
 
-- 
2.43.0


From f047a3124463e40f8e798788fc04b6640298e4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 005/107] fix: Stn::grow keeps the arcs and the undo log of a
 network with constraints valid

---
 structs/stn.cc  | 6 ++++++
 structs/stn.hpp | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/structs/stn.cc b/structs/stn.cc
index fb304a8..7e21e66 100644
--- a/structs/stn.cc
+++ b/structs/stn.cc
@@ -11,6 +11,10 @@ Stn::Stn(unsigned int num) {
 }
 
 Stn::Stn(const Stn &o) : nodes(o.nodes.size()), undos(o.undos.size()) {
+	copy(o);
+}
+
+void Stn::copy(const Stn &o) {
 	for (unsigned int i = 0; i < o.nodes.size(); i++) {
 		Node &n = nodes[i];
 		n.id = i;
@@ -53,7 +57,9 @@ Stn::Stn(const Stn &o) : nodes(o.nodes.size()), undos(o.undos.size()) {
 
 void Stn::grow(unsigned int num) {
 	unsigned int oldsz = nodes.size();
+	const Stn old(*this);
 	nodes.resize(oldsz + num);
+	copy(old);	// resize may have moved the nodes
 
 	for (unsigned int i = oldsz; i < nodes.size(); i++)
 		nodes[i].id = i;
diff --git a/structs/stn.hpp b/structs/stn.hpp
index 02cf282..befedf9 100644
--- a/structs/stn.hpp
+++ b/structs/stn.hpp
@@ -128,6 +128,11 @@ private:
 		void output(FILE*) const;
 	};
 
+	// copy copies the nodes and undos of another Stn that has no
+	// more of either than this one, so that they refer to this one's
+	// nodes.
+	void copy(const Stn&);
+
 	bool propagate(Undo&, const Constraint&);
 	bool proplower(Undo&, bool[], bool[], Node&);
 	bool propupper(Undo&, bool[], bool[], Node&);
-- 
2.43.0


From 67ba168dbb6680c8b18de067d04183c7990f61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 006/107] fix: assigning an Stn makes a copy that refers to its
 own nodes

---
 structs/stn.cc  | 9 +++++++++
 structs/stn.hpp | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/structs/stn.cc b/structs/stn.cc
index 7e21e66..ea5f9b4 100644
--- a/structs/stn.cc
+++ b/structs/stn.cc
@@ -14,6 +14,15 @@ Stn::Stn(const Stn &o) : nodes(o.nodes.size()), undos(o.undos.size()) {
 	copy(o);
 }
 
+Stn &Stn::operator=(const Stn &o) {
+	if (this == &o)
+		return *this;
+	nodes.resize(o.nodes.size());
+	undos.resize(o.undos.size());
+	copy(o);
+	return *this;
+}
+
 void Stn::copy(const Stn &o) {
 	for (unsigned int i = 0; i < o.nodes.size(); i++) {
 		Node &n = nodes[i];
diff --git a/structs/stn.hpp b/structs/stn.hpp
index befedf9..973fded 100644
--- a/structs/stn.hpp
+++ b/structs/stn.hpp
@@ -12,6 +12,8 @@ public:
 
 	Stn(const Stn &);
 
+	Stn &operator=(const Stn &);
+
 	void grow(unsigned int);
 
 	void undo();
-- 
2.43.0


From 2994a9e1b6aa83e74503db131814de9b55d11ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 007/107] fix: Stn::eq compares every arc, not just one of each
 node's

---
 structs/stn.cc  | 34 +++++++++++++++-------------------
 structs/stn.hpp |  4 ++++
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/structs/stn.cc b/structs/stn.cc
index ea5f9b4..0f92f1a 100644
--- a/structs/stn.cc
+++ b/structs/stn.cc
@@ -141,32 +141,28 @@ bool Stn::eq(const Stn &o) const {
 	return true;
 }
 
+unsigned int Stn::Node::count(const std::vector<Arc> &arcs, const Arc &a) {
+	unsigned int n = 0;
+	for (unsigned int i = 0; i < arcs.size(); i++)
+		if (arcs[i].first->id == a.first->id && arcs[i].second == a.second)
+			n++;
+	return n;
+}
+
 bool Stn::Node::eq(const Stn::Node &o) const {
 	if (id != o.id || tozero != o.tozero || fromzero != o.fromzero
 		|| out.size() != o.out.size() || in.size() != o.in.size())
 		return false;
 
-	bool found = out.size() == 0;
-	for (unsigned int i = 0; i < out.size() && !found; i++) {
-	for (unsigned int j = 0; j < out.size() && !found; j++) {
-		if (out[i].first->id == o.out[j].first->id
-			 && out[i].second == o.out[j].second)
-			found = true;
-	}
-	}
-	if (!found)
-		return false;
+	for (unsigned int i = 0; i < out.size(); i++)
+		if (count(out, out[i]) != count(o.out, out[i]))
+			return false;
 
-	found = in.size() == 0;
-	for (unsigned int i = 0; i < in.size() && !found; i++) {
-	for (unsigned int j = 0; j < in.size() && !found; j++) {
-		if (in[i].first->id == o.in[j].first->id
-			 && in[i].second == o.in[j].second)
-			found = true;
-	}
-	}
+	for (unsigned int i = 0; i < in.size(); i++)
+		if (count(in, in[i]) != count(o.in, in[i]))
+			return false;
 
-	return found;	
+	return true;
 }
 
 bool Stn::Undo::eq(const Undo &o) const {
diff --git a/structs/stn.hpp b/structs/stn.hpp
index 973fded..8f27100 100644
--- a/structs/stn.hpp
+++ b/structs/stn.hpp
@@ -119,6 +119,10 @@ private:
 
 		bool eq(const Node&) const;
 		void output(FILE*) const;
+
+		// count returns the number of arcs that are the same as
+		// the given one.
+		static unsigned int count(const std::vector<Arc>&, const Arc&);
 	};
 
 	struct Undo {
-- 
2.43.0


From aa09d7136c73b42e12ce5aa1a2abfbe5b3127e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 008/107] fix: Fhatlrtastar initialises a new node's parent

---
 search/fhatlrtastar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 8943382..a7acaaa 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -325,6 +325,7 @@ private:
 				if (!kid) {
 					kid = lssPool.construct();
 					kid->node = k;
+					kid->parent = NULL;
 					kid->g = geom2d::Infinity;
 					kid->openind = -1;
 					lssNodes.add(kid);
-- 
2.43.0


From e6e4846e0f7d3652b4a017190ead2ece166c01b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 009/107] fix: Arastar reports bound 1, not 0, when no better
 node remains

---
 search/arastar.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index 433d3c6..03e95c3 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -241,6 +241,8 @@ protected:
 			if (f < min)
 				min = f;
 		}
+		if (min >= cost)	// no better node remains
+			return 1.0;
 		return cost / min;
 	}
 
-- 
2.43.0


From 8674b30c937cc0cec57976d17c22851fe4d07a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 010/107] fix: Idastar ends when no state was cut off by the
 bound

---
 search/idastar.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search/idastar.hpp b/search/idastar.hpp
index a91718a..41ebfc4 100644
--- a/search/idastar.hpp
+++ b/search/idastar.hpp
@@ -31,6 +31,8 @@ public:
 			dfrow(stdout, "iter", "dguu", (long) i, (double) bound,
 				SearchAlgorithm<D>::res.expd, SearchAlgorithm<D>::res.gend); 
 
+			if (minoob == Cost(-1))	// nothing was cut off
+				break;
 			bound = minoob;
 		}
 
-- 
2.43.0


From bc9256905fc8b302ca4ccfbb3c1bf474c05c9cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 011/107] fix: BeamSearch drops nodes from open so that they
 know they are not open

---
 search/beam.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search/beam.hpp b/search/beam.hpp
index d3e9349..047882b 100644
--- a/search/beam.hpp
+++ b/search/beam.hpp
@@ -104,7 +104,10 @@ template <class D> struct BeamSearch : public SearchAlgorithm<D> {
 				beam[c] = n;
 			}
 
-			open.clear();
+			// Pop, instead of clearing, so that nodes that
+			// are dropped know that they are not open.
+			while (!open.empty())
+				open.pop();
       
 			for(int i = 0; i < c && !solved && !SearchAlgorithm<D>::limit(); i++) {
 				Node *n = beam[i];
-- 
2.43.0


From ba2959fc758907a173fc6a418ed2b4dd40c40281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 012/107] fix: BeamSearch rejects a missing -width

---
 search/beam.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/beam.hpp b/search/beam.hpp
index 047882b..3dba1c6 100644
--- a/search/beam.hpp
+++ b/search/beam.hpp
@@ -62,6 +62,7 @@ template <class D> struct BeamSearch : public SearchAlgorithm<D> {
 
 	BeamSearch(int argc, const char *argv[]) :
 		SearchAlgorithm<D>(argc, argv), closed(30000001) {
+		width = 0;
 		dropdups = false;
 		for (int i = 0; i < argc; i++) {
 			if (i < argc - 1 && strcmp(argv[i], "-width") == 0)
-- 
2.43.0


From 4d9a4ffeb78a6bc96d1b599e7058ff5462f044f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 013/107] fix: Bugsy initialises usedlms and interph

---
 search/bugsy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 0792bef..fbb26e6 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -72,6 +72,7 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			SearchAlgorithm<D>(argc, argv),
 			resort(true),
 			usehlms(false),
+			usedlms(false),
 			usehhat(false),
 			usedhat(false),
 			navg(0),
@@ -79,6 +80,7 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			derror(0),
 			herrlast(0),
 			derrlast(0),
+			interph(false),
 			useexpdelay(false),
 			avgdelay(0),
 			delaylast(0),
-- 
2.43.0


From 88790f61e0c8e9a4cea6587a2f9ea7bb8a7cd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 014/107] fix: resetting a real-time search forgets the steps
 of the last one

---
 search/fhatlrtastar.hpp | 3 +++
 search/lsslrtastar.hpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index a7acaaa..e684910 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -191,6 +191,9 @@ public:
 		for (auto n : lssNodes)
 			lssPool.destruct(n);
 		lssNodes.clear();
+		times.clear();
+		cputimes.clear();
+		lengths.clear();
 		herror = 0;
 		derror = 0;
 	}
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 8cad8d1..4954c3a 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -217,6 +217,9 @@ public:
 		for (auto n : lssNodes)
 			lssPool.destruct(n);
 		lssNodes.clear();
+		times.clear();
+		cputimes.clear();
+		lengths.clear();
 	}
 
 	void search(D &d, State &s0) {
-- 
2.43.0


From 066c4f07860c02d06a8ecab02d0cb2d35b1108e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 015/107] fix: an Arastar stopped early does not claim its
 weight as a bound, or convergence

---
 search/arastar.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index 03e95c3..b4cfb78 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -125,14 +125,15 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 		do {
 			if (improve(d)) {
 				n++;
-				double epsprime = wt == 1.0 ? 1.0 : findbound();
-				if (wt < epsprime)
+				bool done = !goodnodes();	// not stopped early
+				double epsprime = done && wt == 1.0 ? 1.0 : findbound();
+				if (done && wt < epsprime)
 					epsprime = wt;
 				row(n, epsprime);
 			}
 
 			if (wt <= 1.0) {
-				optimal = true;
+				optimal = !goodnodes();
 				break;
 			}
 			nextwt();
@@ -392,13 +393,14 @@ template <class D> struct ArastarMon : public Arastar<D> {
 		do {
 			if (improve(d)) {
 				n++;
-				double epsprime = this->wt == 1.0 ? 1.0 : this->findbound();
-				if (this->wt < epsprime)
+				bool done = !this->goodnodes();	// not stopped early
+				double epsprime = done && this->wt == 1.0 ? 1.0 : this->findbound();
+				if (done && this->wt < epsprime)
 					epsprime = this->wt;
 				this->row(n, epsprime);
 			}
 			if (this->wt <= 1.0)
-				optimal = true;
+				optimal = !this->goodnodes();
 			if (this->wt <= 1.0 || shouldstop())
 				break;
 			this->nextwt();
@@ -507,14 +509,15 @@ template <class D> struct ArastarNORA : public Arastar<D> {
 		do {
 			if (improve(d)) {
 				n++;
-				double epsprime = this->wt == 1.0 ? 1.0 : this->findbound();
-				if (this->wt < epsprime)
+				bool done = !this->goodnodes();	// not stopped early
+				double epsprime = done && this->wt == 1.0 ? 1.0 : this->findbound();
+				if (done && this->wt < epsprime)
 					epsprime = this->wt;
 				this->row(n, epsprime);
 			}
 
 			if (this->wt <= 1.0) {
-				optimal = true;
+				optimal = !this->goodnodes();
 				break;
 			}
 			if (shouldstop())
-- 
2.43.0


From 56a7c7e7bc35d1bec2b6190f28298bfbb83ca71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 016/107] fix: Bugsy reads flags that are the last argument

---
 search/bugsy.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index fbb26e6..14b3c14 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -97,17 +97,17 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 				wf = strtod(argv[++i], NULL);
 			else if (i < argc - 1 && strcmp(argv[i], "-wt") == 0)
 				wt = strtod(argv[++i], NULL);
-			else if (i < argc - 1 && strcmp(argv[i], "-noresort") == 0)
+			else if (strcmp(argv[i], "-noresort") == 0)
 				resort = false;
-			else if (i < argc - 1 && strcmp(argv[i], "-expdelay") == 0)
+			else if (strcmp(argv[i], "-expdelay") == 0)
 				useexpdelay = true;
-			else if (i < argc - 1 && strcmp(argv[i], "-hhat") == 0)
+			else if (strcmp(argv[i], "-hhat") == 0)
 				usehhat = true;
-			else if (i < argc - 1 && strcmp(argv[i], "-dhat") == 0)
+			else if (strcmp(argv[i], "-dhat") == 0)
 				usedhat = true;
-			else if (i < argc - 1 && strcmp(argv[i], "-dropdups") == 0)
+			else if (strcmp(argv[i], "-dropdups") == 0)
 				dropdups = true;
-			else if (i < argc - 1 && strcmp(argv[i], "-interph") == 0)
+			else if (strcmp(argv[i], "-interph") == 0)
 				interph = usehhat = true;
 			else if (i < argc - 1 && strcmp(argv[i], "-hlms") == 0) {
 				usehlms = true;
-- 
2.43.0


From d6df6eeb366c5cc95f46e9f5db9c01d59d231625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 017/107] fix: Arastar's incons does not share the closed
 list's links

---
 search/arastar.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index b4cfb78..4c5525c 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -23,6 +23,7 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 
 	struct Node {
 		ClosedEntry<Node, D> closedent;
+		ClosedEntry<Node, D> inconsent;
 		int openind;
 		Node *parent;
 		PackedState state;
@@ -81,7 +82,19 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 		}
 	
 	private:
-	 	ClosedList<Node, Node, D> mem;
+		// Ops links the nodes of mem by their own entries since they
+		// are also on the closed list.
+		struct Ops {
+			static ClosedEntry<Node, D> &closedentry(Node *n) {
+				return n->inconsent;
+			}
+
+			static PackedState &key(Node *n) {
+				return n->state;
+			}
+		};
+
+	 	ClosedList<Ops, Node, D> mem;
 		std::vector<Node*> incons;
 	};
 
-- 
2.43.0


From 0c63a799320baf7948073518bb6151fd1d6b1fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 018/107] fix: a tiles instance of another width or height is
 refused

---
 tiles/tiles.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiles/tiles.cc b/tiles/tiles.cc
index 7a93d6c..40c126c 100644
--- a/tiles/tiles.cc
+++ b/tiles/tiles.cc
@@ -33,7 +33,7 @@ void Tiles::readruml(FILE *in) {
 	if (!safe::can_mul(w, h))
 		fatal("The tiles board is too big");
 
-	if (w != Width && h != HEIGHT)
+	if (w != Width || h != Height)
 		fatal("Width and height instance/compiler option mismatch");
 
 	if (fscanf(in, " starting positions for each tile:") != 0)
-- 
2.43.0


From 0b7aaab9bea4bf202b02234bc5da1bb0251f2b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 019/107] fix: a tiles instance with a position off the board
 is refused

---
 tiles/tiles.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiles/tiles.cc b/tiles/tiles.cc
index 40c126c..b39c2d1 100644
--- a/tiles/tiles.cc
+++ b/tiles/tiles.cc
@@ -44,6 +44,8 @@ void Tiles::readruml(FILE *in) {
 		int r = fscanf(in, " %u", &p);
 		if (r != 1)
 			fatal("Failed to read the starting position for tile %d", t);
+		if (p >= Ntiles)
+			fatal("Invalid starting position for tile %d: %u", t, p);
 		init[p] = t;
 	}
 
@@ -54,6 +56,8 @@ void Tiles::readruml(FILE *in) {
 		unsigned int p;
 		if (fscanf(in, " %u", &p) != 1)
 			fatal("Failed to read the goal position");
+		if (p >= Ntiles)
+			fatal("Invalid goal position for tile %d: %u", t, p);
 		goalpos[t] = p;
 	}
 }
-- 
2.43.0


From 6d8fb8569b6acfb72ed0384d0c96cf87ef58e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:14 +0000
Subject: [PATCH 020/107] fix: Pancake::unpack copies, so that flips do not
 edit the states in the search's tables

---
 pancake/pancake.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pancake/pancake.hpp b/pancake/pancake.hpp
index c3db048..17d5c2e 100644
--- a/pancake/pancake.hpp
+++ b/pancake/pancake.hpp
@@ -113,8 +113,11 @@ public:
 		dst = s;
 	}
 
-	State &unpack(const State &dst, PackedState &pkd) const {
-		return pkd;
+	// unpack copies, as transitions edit the unpacked state, and a
+	// search's tables must not see the states they hold change.
+	State &unpack(State &buf, const PackedState &pkd) const {
+		buf = pkd;
+		return buf;
 	}
 
 	void dumpstate(FILE *out, State &s) const {
-- 
2.43.0


From 977f64a7b1946861805b3841bc1fb225bf31809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 021/107] fix: a GridMap read from a FILE initialises its cost
 type

---
 gridnav/gridmap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridnav/gridmap.hpp b/gridnav/gridmap.hpp
index 1c39217..48ce134 100644
--- a/gridnav/gridmap.hpp
+++ b/gridnav/gridmap.hpp
@@ -16,7 +16,8 @@ struct GridMap {
 
 	GridMap(std::string &file);
 
-	GridMap(FILE *f) : nmvs(0) { load(f); }
+	GridMap(FILE *f) :
+		map(NULL), lifecost(false), nmvs(0), flags(NULL) { load(f); }
 
 	// uniform returns a GridMap that has uniformly
 	// distributed obstacles.
-- 
2.43.0


From a75f77a09b448d387d0f50d58f715d0a1c8bc77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 022/107] fix: the terrain table covers every character and is
 initialised

---
 gridnav/gridmap.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridnav/gridmap.cc b/gridnav/gridmap.cc
index 017f618..6cf17fa 100644
--- a/gridnav/gridmap.cc
+++ b/gridnav/gridmap.cc
@@ -213,8 +213,9 @@ void GridMap::load_sturtevant(FILE *in) {
 	}
 
 	const struct Terrain{
-		char flags[CHAR_MAX];
+		unsigned char flags[UCHAR_MAX + 1];
 		Terrain() {
+			memset(flags, 0, sizeof(flags));
 			flags[(int) '.'] = Passable;
 			flags[(int) 'G'] = Passable;
 			flags[(int) '@'] = OutOfBounds;
-- 
2.43.0


From 222375209d8bebbccb6fc7745d614fde7447f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 023/107] fix: the reverse of a life-cost move costs what
 moving back costs

---
 gridnav/gridnav.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index ef945ec..fce8e8e 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -217,20 +217,23 @@ struct GridNav {
 				state = State(s.loc + d.map->mvs[op].delta);
 			}
 
-			int mul = 1;
+			int mul = 1, revmul = 1;
 			if (d.map->lifecost) {
 				// -2 because there is 1 layer of border
 				// around each side of the grid, thus
 				// height - y - 1 becomes height - y - 2.
 				mul = (int) d.map->h - d.map->ycoord(s.loc)-2;
+				revmul = (int) d.map->h - d.map->ycoord(state.loc)-2;
 			}
 
 			assert (state.loc < d.map->sz);
-			if (op == Ident || d.map->mvs[op].cost == 1.0)
+			if (op == Ident || d.map->mvs[op].cost == 1.0) {
 				cost = Cost(mul, 0);
-			else
+				revcost = Cost(revmul, 0);
+			} else {
 				cost = Cost(0, mul);
-			revcost = cost;
+				revcost = Cost(0, revmul);
+			}
 		}
 	};
 
-- 
2.43.0


From 8c23539564fa776fea294d576071b445f2b5fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 024/107] fix: the life-cost estimate goes through the last row
 of the map, not one beyond it

---
 gridnav/gridnav.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index fce8e8e..d4cc2d9 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -314,7 +314,7 @@ private:
 		int dx = abs(gx - x);
 		int overcost = lifecost(y > gy ? y : gy);
 		int upover = dx*overcost + costfrom(y, gy);
-		int upoverdown = costfrom(y, h) + costfrom(h, gy);
+		int upoverdown = costfrom(y, h-1) + costfrom(h-1, gy);
 
 		if (upover < upoverdown)
 			return std::make_pair(Cost(upover), dx+abs(gy - y));
-- 
2.43.0


From 85d42328be6fbabe63424cf78602722d2da6170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 025/107] fix: Scenario::checkver reads from the stream it is
 given

---
 gridnav/scenario.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/scenario.cc b/gridnav/scenario.cc
index f580d29..57e9fbc 100644
--- a/gridnav/scenario.cc
+++ b/gridnav/scenario.cc
@@ -54,7 +54,7 @@ void Scenario::run(std::istream &in) {
 void Scenario::checkver(std::istream &in) {
 	float ver;
 	std::string verstr;
-	std::cin >> verstr >> ver;
+	in >> verstr >> ver;
 	if (verstr != "version")
 		fatal("Expected a version header");
 	if (ver != 1.0)
-- 
2.43.0


From fa9eb0f7be67366ac20bc8144c2e24118b114bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 026/107] fix: a scenario entry without a path is not followed
 to the goal

---
 gridnav/scenario.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridnav/scenario.cc b/gridnav/scenario.cc
index 57e9fbc..94d7f44 100644
--- a/gridnav/scenario.cc
+++ b/gridnav/scenario.cc
@@ -87,8 +87,10 @@ Result<GridNav> ScenarioEntry::run(unsigned int n, SearchAlgorithm<GridNav> *src
 
 	srch->search(d, s0);
 	Result<GridNav> &res = srch->res;
-	GridNav::Cost cost = d.pathcost(res.path, res.ops);
 	// Scenario file has 0-cost for no-path.  We use -1.
+	GridNav::Cost cost(-1);
+	if (res.path.size() > 0)
+		cost = d.pathcost(res.path, res.ops);
 	if (fabs(cost - (double) opt) > Eps && !(opt == 0 && cost == GridNav::Cost(-1)))
 		fatal("Expected optimal cost of %g, got %g\n", opt, (double) cost);
 
-- 
2.43.0


From ffcd18be1a4e1627ad628daf95f0ccef109ddfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:31 +0000
Subject: [PATCH 027/107] fix: Vacuum's estimate does not look up dirt when
 none is left

---
 vacuum/vacuum.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vacuum/vacuum.hpp b/vacuum/vacuum.hpp
index 2fda4aa..2549202 100644
--- a/vacuum/vacuum.hpp
+++ b/vacuum/vacuum.hpp
@@ -47,6 +47,9 @@ public:
 	State initialstate(void) const;
 
 	Cost h(const State &s) const {
+		if (s.ndirt == 0)
+			return Cost(0);
+
 		unsigned int i;
 		for (i = 0; i < s.dirt->size() && !s.dirt->at(i); i++)
 			;
-- 
2.43.0


From 6eedce1e04c7eb4b08425149406a6766196a030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:31 +0000
Subject: [PATCH 028/107] fix: Vacuum offers charging only to a robot whose
 energy is limited

---
 vacuum/vacuum.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vacuum/vacuum.hpp b/vacuum/vacuum.hpp
index 2549202..029ea44 100644
--- a/vacuum/vacuum.hpp
+++ b/vacuum/vacuum.hpp
@@ -98,7 +98,8 @@ public:
 					ops[n++] = i;
 			}
 
-			if (d.chargers[s.loc])
+			// With unlimited energy there is nothing to charge.
+			if (d.chargers[s.loc] && s.energy >= 0)
 				ops[n++] = Charge;
 		}
 
-- 
2.43.0


From 37e7c78fd27be58bd770989a12613240a6e12854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 029/107] fix: DockRobot compares step counts with step counts
 in its distance table

---
 drobot/drobot.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drobot/drobot.cc b/drobot/drobot.cc
index 13a1a81..8d60e3e 100644
--- a/drobot/drobot.cc
+++ b/drobot/drobot.cc
@@ -478,7 +478,7 @@ void DockRobot::initheuristic() {
 			shortest[i*nlocs + j].first = c;
 
 		float d = shortest[i*nlocs + k].second + shortest[k*nlocs + j].second;
-		if (c < shortest[i*nlocs + j].second)
+		if (d < shortest[i*nlocs + j].second)
 			shortest[i*nlocs + j].second = d;
 	}
 	}
-- 
2.43.0


From 2484aa3afa98cf8730e56d72829099e70164117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 030/107] fix: DockRobot sorts the piles that it reads

---
 drobot/drobot.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/drobot/drobot.cc b/drobot/drobot.cc
index 8d60e3e..edebf1f 100644
--- a/drobot/drobot.cc
+++ b/drobot/drobot.cc
@@ -151,6 +151,10 @@ reloop:
 		line = readline(in);
 	}
 
+	// findpile expects the piles in order.
+	for (unsigned int l = 0; l < nlocs; l++)
+		std::sort(initlocs[l].piles.begin(), initlocs[l].piles.end());
+
 	initheuristic();
 }
 
-- 
2.43.0


From 5e06337a842296c32f707b05384f1d5529b1bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 031/107] fix: obstacles on a traffic map one cell wide or high
 do not divide by zero

---
 traffic/gridmap.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/traffic/gridmap.hpp b/traffic/gridmap.hpp
index bbb0eaa..fbf7c63 100644
--- a/traffic/gridmap.hpp
+++ b/traffic/gridmap.hpp
@@ -135,11 +135,15 @@ struct GridMap {
 			 int x_p = abs(x + dx * t);
 			 int y_p = abs(y + dy * t);
 
-			 int x_reflections = x_p / (w-1);
-			 int y_reflections = y_p/ (h-1);
+			 // A map that is one cell wide leaves nowhere to go.
+			 int x_span = w > 1 ? w-1 : 1;
+			 int y_span = h > 1 ? h-1 : 1;
 
-			 int x_offset = x_p % (w-1);
-			 int y_offset = y_p % (h-1);
+			 int x_reflections = x_p / x_span;
+			 int y_reflections = y_p / y_span;
+
+			 int x_offset = x_p % x_span;
+			 int y_offset = y_p % y_span;
 
 			if(x_reflections % 2 == 0) newPoint.first = x_offset;
 			else newPoint.first = w - x_offset - 1;
-- 
2.43.0


From ec4b4282b21a85633b4603d4a64daf351b991c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 032/107] fix: Ranker releases its array with delete[]

---
 utils/rank.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/rank.cc b/utils/rank.cc
index abbf738..f360b56 100644
--- a/utils/rank.cc
+++ b/utils/rank.cc
@@ -21,7 +21,7 @@ Ranker::Ranker(unsigned int sz, unsigned int n) :
 }
 
 Ranker::~Ranker() {
-	delete tree;
+	delete[] tree;
 }
 
 unsigned long Ranker::rank(const unsigned int p[])
-- 
2.43.0


From 93c6f27caa2182c2ae7dc122ad6aa44a99a4668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 033/107] fix: zero falling factors make 1

---
 utils/math.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/math.cc b/utils/math.cc
index b2e1fab..953248c 100644
--- a/utils/math.cc
+++ b/utils/math.cc
@@ -46,8 +46,8 @@ unsigned long ipow(unsigned int b, unsigned int e) {
 }
 
 unsigned long fallfact(unsigned int x, unsigned int n) {
-	unsigned long f = x;
-	for (unsigned int i = 1; i < n; i++)
+	unsigned long f = 1;
+	for (unsigned int i = 0; i < n; i++)
 		f *= (x - i);
 	return f;
 }
-- 
2.43.0


From 43fd814338960d6b37ba53734fc6a9c0613ccca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:31 +0000
Subject: [PATCH 034/107] fix: checked signed subtraction from zero and
 multiplication by minus one are exact

---
 utils/safeops.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/safeops.hpp b/utils/safeops.hpp
index be90533..554c7fe 100644
--- a/utils/safeops.hpp
+++ b/utils/safeops.hpp
@@ -37,7 +37,7 @@ namespace safe {
 		}
 	
 		static N sub(N a, N b){
-			if(a > 0 && b < 0 && n::max() + b < a)
+			if(a >= 0 && b < 0 && n::max() + b < a)
 				throw BadFlow<N>(a, b, "-", true);
 			if(a < 0 && b > 0 && n::min() + b > a)
 				throw BadFlow<N>(a, b, "-", true);
@@ -47,14 +47,14 @@ namespace safe {
 		static N mul(N a, N b){
 			if(a > 0 && b > 0 && n::max()/b < a)
 				throw BadFlow<N>(a, b, "*", true);
-			if(a < 0 && b > 0 && n::min()/a < b)
+			if(a < 0 && b > 0 && n::min()/b > a)
 				throw BadFlow<N>(a, b, "*", false);
-			if(a > 0 && b < 0 && n::min()/b < a)
+			if(a > 0 && b < 0 && n::min()/a > b)
 				throw BadFlow<N>(a, b, "*", false);
 			if(a < 0 && b < 0){
 				if(a == n::min() || b == n::min())
 					throw BadFlow<N>(a, b, "*", true);
-				if(-(n::min()/b) > a)
+				if(n::max()/b > a)
 					throw BadFlow<N>(a, b, "*", true);
 			}
 			return a * b;
-- 
2.43.0


From cd9c1b860800bfbbd018fca0fe7322c0dce925f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:31 +0000
Subject: [PATCH 035/107] fix: checked unsigned subtraction refuses exactly
 when the result is negative

---
 utils/safeops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/safeops.hpp b/utils/safeops.hpp
index 554c7fe..2aa851a 100644
--- a/utils/safeops.hpp
+++ b/utils/safeops.hpp
@@ -79,8 +79,8 @@ namespace safe {
 		}
 	
 		static N sub(N a, N b){
-			if(n::max() - b < a)
-				throw BadFlow<N>(a, b, "-", true);
+			if(a < b)
+				throw BadFlow<N>(a, b, "-", false);
 			return a - b;
 		}
 	
-- 
2.43.0


From 75b757681335029cc3bb797c7e9735d0cef4478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:31 +0000
Subject: [PATCH 036/107] fix: Rand::integer works for the range of all longs

---
 utils/rand.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/rand.cc b/utils/rand.cc
index 278fcb4..a7f05f5 100644
--- a/utils/rand.cc
+++ b/utils/rand.cc
@@ -30,7 +30,10 @@ int64_t Rand::integer(long min, long max) {
 	if (min == max)
 		return min;
 	
-	return bits() % ((max+1) - min) + min;
+	uint64_t n = (uint64_t) max - (uint64_t) min + 1;
+	if (n == 0)	// every long
+		return bits();
+	return bits() % n + min;
 }
 
 double Rand::real() {
-- 
2.43.0


From 3a2058a27631cd983c4433bc412579115f2e6c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:31 +0000
Subject: [PATCH 037/107] fix: the seed that equals the initial value does not
 give only zeros

---
 utils/rand.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/rand.cc b/utils/rand.cc
index a7f05f5..129fc99 100644
--- a/utils/rand.cc
+++ b/utils/rand.cc
@@ -15,6 +15,8 @@ static const double Fl = 5.42101086242752217e-20;
 
 Rand::Rand(uint64_t seed) : theseed(seed) {
 	v = Vini ^ seed;
+	if (v == 0)	// from zero, only zeros would follow
+		v = Vini;
 	v = bits();
 }
 
-- 
2.43.0


From 96290dba3e8c9a71dd3e3e44d0e49cd072dfef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 038/107] fix: dfpair writes keys and values of any length in
 full

---
 utils/datafile.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/utils/datafile.cc b/utils/datafile.cc
index a654156..9903e81 100644
--- a/utils/datafile.cc
+++ b/utils/datafile.cc
@@ -21,15 +21,14 @@ static void tryprocstatus(FILE*);
 void dfpair(FILE *f, const char *key, const char *fmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#pair  \"%s\"\t\"", key);
-	if (n > Bufsz)
-		fatal("dfrowhdr: buffer is too small\n");
+	unsigned int left = n < Bufsz ? Bufsz - n : 0;
 
 	va_list ap;
 	va_start(ap, fmt);
-	unsigned int m = vsnprintf(buf+n, Bufsz-n, fmt, ap);
+	unsigned int m = vsnprintf(left > 0 ? buf+n : NULL, left, fmt, ap);
 	va_end(ap);
 
-	if (m > (unsigned int) Bufsz-n) {	// Err, overflow
+	if (m >= left) {	// Err, overflow
 		va_start(ap, fmt);
 		dfpair_sz(f, m + n + 1, key, fmt, ap);
 		va_end(ap);
-- 
2.43.0


From 96033aa8c8099f2c2f1bba5218fee99f181da7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 039/107] fix: datafile rows and row headers may have any
 length

---
 utils/datafile.cc | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/utils/datafile.cc b/utils/datafile.cc
index 9903e81..1918038 100644
--- a/utils/datafile.cc
+++ b/utils/datafile.cc
@@ -51,30 +51,21 @@ static void dfpair_sz(FILE *f, unsigned int sz, const char *key, const char *fmt
 }
 
 void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
-	char buf[Bufsz];
-	int n = snprintf(buf, Bufsz, "#altcols  \"%s\"", name);
-	if (n > Bufsz)
-		fatal("dfrowhdr: buffer is too small\n");
+	fprintf(f, "#altcols  \"%s\"", name);
 
 	va_list ap;
 	va_start(ap, ncols);
 	for (unsigned int i = 0; i < ncols; i++) {
 		char *col = va_arg(ap, char*);
-		unsigned int m = snprintf(buf+n, Bufsz-n, "\t\"%s %s\"", name, col);
-		if (m > (unsigned int) Bufsz - n)
-			fatal("dfrowhdr: buffer is too small\n");
-		n += m;
+		fprintf(f, "\t\"%s %s\"", name, col);
 	}
 	va_end(ap);
 
-	fprintf(f, "%s\n", buf);
+	fputc('\n', f);
 }
 
 void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
-	char buf[Bufsz];
-	int n = snprintf(buf, Bufsz, "#altrow  \"%s\"", name);
-	if (n > Bufsz)
-		fatal("dfrowhdr: buffer is too small\n");
+	fprintf(f, "#altrow  \"%s\"", name);
 
 	va_list ap;
 	va_start(ap, colfmt);
@@ -82,32 +73,28 @@ void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 		double g = 0;
 		long d = 0;
 		unsigned long u = 0;
-		unsigned int m = 0;
 		switch (colfmt[i]) {
 		case 'g':
 			g = va_arg(ap, double);
-			m = snprintf(buf+n, Bufsz-n, "\t%g", g);
+			fprintf(f, "\t%g", g);
 			break;
 		case 'f':
 			g = va_arg(ap, double);
-			m = snprintf(buf+n, Bufsz-n, "\t%lf", g);
+			fprintf(f, "\t%lf", g);
 			break;
 		case 'd':
 			d = va_arg(ap, long);
-			m = snprintf(buf+n, Bufsz-n, "\t%ld", d);
+			fprintf(f, "\t%ld", d);
 			break;
 		case 'u':
 			u = va_arg(ap, unsigned long);
-			m = snprintf(buf+n, Bufsz-n, "\t%lu", u);
+			fprintf(f, "\t%lu", u);
 			break;
 		}
-		if (m > (unsigned int) Bufsz-n)
-			fatal("dfrow: buffer is too small\n");
-		n += m;
 	}
 	va_end(ap);
 
-	fprintf(f, "%s\n", buf);
+	fputc('\n', f);
 	fflush(f);
 }
 
-- 
2.43.0


From 0b1dc7e228f54fb07cbb686035fe5ebb60b71c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 040/107] fix: readline does not look before the start of an
 empty line

---
 utils/fs.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/fs.cc b/utils/fs.cc
index 740c796..9774e09 100644
--- a/utils/fs.cc
+++ b/utils/fs.cc
@@ -32,9 +32,9 @@ boost::optional<std::string> readline(FILE *in, FILE *echo) {
 		fputc('\n', echo);
 	}
 
-	if (line[line.size()-1] == '\n')
+	if (line.size() > 0 && line[line.size()-1] == '\n')
 		line.resize(line.size()-1);
-	if (line[line.size()-1] == '\r')
+	if (line.size() > 0 && line[line.size()-1] == '\r')
 		line.resize(line.size()-1);
 
 	return boost::optional<std::string>(line);
-- 
2.43.0


From 7b9224f82faab10adcecf95c4a8e84ca82b7b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 041/107] fix: joining to an empty path does not make it start
 at the root

---
 utils/fs.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/fs.cc b/utils/fs.cc
index 9774e09..6abd625 100644
--- a/utils/fs.cc
+++ b/utils/fs.cc
@@ -161,7 +161,7 @@ std::string dirname(const std::string &p) {
 }
 
 std::string pathcat(const std::string &dir, const std::string &base) {
-	if (dir[dir.length()-1] == sepchar)
+	if (dir.empty() || dir[dir.length()-1] == sepchar)
 		return dir + base;
 	std::string s(dir);
 	s.push_back(sepchar);
@@ -176,7 +176,7 @@ std::string pathcatn(unsigned int n, ...) {
 	va_start(ap, n);
 	for (unsigned int i = 0; i < n; i++) {
 		const char *ent = va_arg(ap, const char *);
-		if (path[path.length()-1] != sepchar)
+		if (!path.empty() && path[path.length()-1] != sepchar)
 			path.push_back(sepchar);
 		path += ent;
 	}
-- 
2.43.0


From 619ab45dd05e63109cfa94a194943660cf84a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 042/107] fix: rmrecur removes symbolic links, not what they
 point to

---
 utils/fs.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/fs.cc b/utils/fs.cc
index 6abd625..e9f61cb 100644
--- a/utils/fs.cc
+++ b/utils/fs.cc
@@ -100,7 +100,9 @@ void ensuredir(const std::string &p) {
 }
 
 bool rmrecur(const std::string &path) {
-	if (!isdir(path)) {
+	struct stat sb;
+	bool link = lstat(path.c_str(), &sb) == 0 && S_ISLNK(sb.st_mode);
+	if (link || !isdir(path)) {
 		if (remove(path.c_str()) != 0 && errno != ENOENT) {
 			warnx(errno, "failed to remove %s", path.c_str());
 			return false;
-- 
2.43.0


From c5246c40dc203d04b9ce14ff7bf088298f5c9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 043/107] fix: commas puts no comma between the sign and the
 first digit

---
 utils/testing.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/testing.cc b/utils/testing.cc
index fe123e3..b394fe1 100644
--- a/utils/testing.cc
+++ b/utils/testing.cc
@@ -10,6 +10,7 @@
 #include <cstdio>
 #include <cstring>
 #include <cassert>
+#include <cctype>
 #include <sys/types.h>
 #include <regex.h>
 
@@ -156,7 +157,7 @@ std::string commas(const char *fmt, ...) {
 	for (char *p = mid-1; p >= str; p--, cur--) {
 		*cur = *p;
 		tillcomma--;
-		if (tillcomma == 0 && p > str) {
+		if (tillcomma == 0 && p > str && isdigit(p[-1])) {
 			cur--;
 			*cur = ',';
 			tillcomma = 3;
-- 
2.43.0


From 87196c84bffd22f2ff348f1204ccf5b0c196d728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:49 +0000
Subject: [PATCH 044/107] fix: a segment inside another on the same line
 intersects it

---
 utils/geom2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/geom2d.hpp b/utils/geom2d.hpp
index 4be0f81..0cdc6d2 100644
--- a/utils/geom2d.hpp
+++ b/utils/geom2d.hpp
@@ -307,6 +307,8 @@ namespace geom2d {
 					return o.p0;
 				else if (within(o.p1))
 					return o.p1;
+				else if (o.within(p0))
+					return p0;
 				return Pt::inf();
 			}
 			if (doubleeq(m, o.m)) {
@@ -316,6 +318,8 @@ namespace geom2d {
 					return o.p0;
 				else if (within(o.p1))
 					return o.p1;
+				else if (o.within(p0))
+					return p0;
 				return Pt::inf();
 			}
 
-- 
2.43.0


From 585ef0f370d2e6e8067f2d5f6d9bdb0157b7d39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:49 +0000
Subject: [PATCH 045/107] fix: Arc intersections are found wherever the sweep
 passes a whole turn

---
 utils/geom2d.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/utils/geom2d.hpp b/utils/geom2d.hpp
index 0cdc6d2..8a41d07 100644
--- a/utils/geom2d.hpp
+++ b/utils/geom2d.hpp
@@ -428,23 +428,26 @@ namespace geom2d {
 				is[i].x = l.p0.x + u[j] * q.dx;
 				is[i].y = l.p0.y + u[j] * q.dy;
 				double t = Pt::angle(Pt(is[i].x - c.x, is[i].y - c.y));
-				double tmin = t0;
-				double tmax = t0+dt;
-				if (tmin > tmax) {
-					tmin = t0+dt;
-					tmax = t0;
-				}
-
-				if(tmax > 2*M_PI )
-					t += 2*M_PI;
-
-				if (l.within(is[i]) && between(tmin, tmax, t))
+				if (l.within(is[i]) && sweeps(t))
 					i++;
 			}
 
 			return i;
 		}
 
+		// sweeps returns true if the angle, or one that is equal
+		// to it but for whole turns, is in the arc's sweep.
+		bool sweeps(double t) const {
+			double tmin = t0;
+			double tmax = t0+dt;
+			if (tmin > tmax) {
+				tmin = t0+dt;
+				tmax = t0;
+			}
+			t += 2*M_PI * ceil((tmin - Threshold - t) / (2*M_PI));
+			return between(tmin, tmax, t);
+		}
+
 		// hits returns true if the linesegment hits the arc
 		bool hits(const LineSg &l) const {
 			Pt is[2];
-- 
2.43.0


From 448fcba46fa0f653750518b2c74bc73136e215fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:43 +0000
Subject: [PATCH 046/107] fix: giftwrap handles repeated points and points in
 one line

---
 utils/geom2d.cc | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/utils/geom2d.cc b/utils/geom2d.cc
index 5534029..af543c3 100644
--- a/utils/geom2d.cc
+++ b/utils/geom2d.cc
@@ -90,25 +90,22 @@ namespace geom2d {
 		std::vector<Pt> hull;
 		unsigned int min = minx(pts);
 	
-		unsigned int cur = min, prev = pts.size();
-		Pt prevpt(pts[cur].x, pts[cur].y - 0.1);
+		unsigned int cur = min;
 	
 		do {
-			unsigned int next = 0;
-			double ang = std::numeric_limits<double>::infinity();
+			// The next is the left-most point, seen from the current,
+			// and the farthest one of those that are in one line.
+			unsigned int next = cur;
 			for (unsigned int i = 0; i < pts.size(); i++) {
-				if (i == prev || i == cur)
+				if (pts[i] == pts[cur])
 					continue;
-				double t = Pt::cwangle(prevpt, pts[cur], pts[i]);
-				if (t < ang) {
-					ang = t;
+				Pt a = pts[next].minus(pts[cur]), b = pts[i].minus(pts[cur]);
+				double left = a.x*b.y - a.y*b.x;
+				if (next == cur || left > 0 || (left == 0 && b.dot(b) > a.dot(a)))
 					next = i;
-				}
 			}
 			
 			hull.push_back(pts[next]);
-			prev = cur;
-			prevpt = pts[prev];
 			cur = next;
 		} while (cur != min);
 	
@@ -217,7 +214,8 @@ namespace geom2d {
 	static unsigned int minx(const std::vector<Pt> &pts) {
 		unsigned int min = pts.size();
 		for (unsigned int i = 0; i < pts.size(); i++) {
-			if (min >= pts.size() || pts[i].x < pts[min].x)
+			if (min >= pts.size() || pts[i].x < pts[min].x
+				|| (pts[i].x == pts[min].x && pts[i].y < pts[min].y))
 				min = i;
 		}
 		return min;
-- 
2.43.0


From e76567350974f32194bde973765959065a97e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:34 +0000
Subject: [PATCH 047/107] fix: only a name that starts with KEY= is a key file
 of the database

---
 rdb/rdb.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index 6c33eab..3ae7579 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -105,7 +105,7 @@ static void collect(std::string path, RdbAttrs &attrs, std::vector<std::string>
 }
 
 static void addfiles(const std::string &path, RdbAttrs &attrs, std::vector<std::string> &files) {
-	if (strstr(path.c_str(), "KEY=") != NULL)
+	if (hasprefix(basename(path).c_str(), "KEY="))
 		return;
 	if (!fileexists(path))
 		return;
@@ -160,13 +160,11 @@ static std::string makepath(std::string root, RdbAttrs attrs) {
 }
 
 static bool getkey(const std::string &p, std::string &key) {
-	std::vector<std::string> ents = readdir(p);
+	std::vector<std::string> ents = readdir(p, false);
 	for (unsigned int i = 0; i < ents.size(); i++) {
-		const char *fname = ents[i].c_str();
-		const char *keyfile = strstr(fname, "KEY=");
-		if (!keyfile)
+		if (!hasprefix(ents[i].c_str(), "KEY="))
 			continue;
-		key = keyfile + strlen("KEY=");
+		key = ents[i].substr(strlen("KEY="));
 		return true;
 	
 	}
-- 
2.43.0


From e8a5bcd35391593fff113f861921eb61db7d4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:34 +0000
Subject: [PATCH 048/107] fix: an argument without a key does not look before
 the start of the key

---
 rdb/rdb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index 3ae7579..4c7c80d 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -223,7 +223,7 @@ static int frontpair(int argc, const char *argv[], std::string &key, std::string
 		vl = arg.substr(eq + 1, arg.size() - eq - 1);
 		if (eq > 0)
 			key += arg.substr(0, eq);
-		else if (key[key.size()-1] == ' ')
+		else if (key.size() > 0 && key[key.size()-1] == ' ')
 			key.resize(key.size() - 1);
 		return i + 1;
 	}
-- 
2.43.0


From 7e78e766aec61e6b39ab95d3c2d45087aa8326cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:34 +0000
Subject: [PATCH 049/107] fix: withattrs leaves out files that lack an
 attribute

---
 rdb/rdb.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index 4c7c80d..85f43ad 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -13,7 +13,7 @@ static std::string makepath(std::string, RdbAttrs);
 
 // collect collects all of the files with attributes matching the
 // given attribute list to the vector.
-static void collect(std::string, RdbAttrs&, std::vector<std::string>&);
+static void collect(std::string, RdbAttrs, std::vector<std::string>&);
 
 // addfiles adds the RDB entries matching the attribute list
 // beneath the given directory to the vector.
@@ -83,7 +83,7 @@ std::vector<std::string> withattrs(const std::string &root, RdbAttrs attrs) {
 	return files;
 }
 
-static void collect(std::string path, RdbAttrs &attrs, std::vector<std::string> &files) {
+static void collect(std::string path, RdbAttrs attrs, std::vector<std::string> &files) {
 	if (!fileexists(path) || !isdir(path))
 		return;
 
@@ -96,6 +96,7 @@ static void collect(std::string path, RdbAttrs &attrs, std::vector<std::string>
 		if (k == "")
 			fatal("Empty value for key %s", curkey.c_str());
 		path = pathcat(path, k);
+		attrs.rm(curkey);
 		return addfiles(path, attrs, files);
 	}
 
@@ -111,7 +112,8 @@ static void addfiles(const std::string &path, RdbAttrs &attrs, std::vector<std::
 		return;
 	if (isdir(path))
 		return collect(path, attrs, files);
-	files.push_back(path);
+	if (attrs.size() == 0)	// otherwise it lacks those left
+		files.push_back(path);
 }
 
 std::string pathfor(const std::string &root, RdbAttrs attrs) {
-- 
2.43.0


From b3c89cdf22035c3d9ea660e08f083fe6c4f28b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:24 +0000
Subject: [PATCH 050/107] fix: segments: the workspace is width wide and height
 high

One constructor swapped the two, the other made a wall of a diagonal.
---
 segments/segments.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index b36bf87..e056956 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -73,10 +73,10 @@ Segments::Segments(FILE *in) {
 	for (unsigned int i = 0; i < nangles; i++)
 		angles.push_back(Angle(dtheta*i));
 
-	bounds[0] = LineSg(Pt(0, 0), Pt(0, width));
-	bounds[1] = LineSg(Pt(0, width), Pt(height, width));
-	bounds[2] = LineSg(Pt(height, width), Pt(height, 0));
-	bounds[3] = LineSg(Pt(height, 0), Pt(0, 0));
+	bounds[0] = LineSg(Pt(0, 0), Pt(width, 0));
+	bounds[1] = LineSg(Pt(width, 0), Pt(width, height));
+	bounds[2] = LineSg(Pt(width, height), Pt(0, height));
+	bounds[3] = LineSg(Pt(0, height), Pt(0, 0));
 
 	unsigned int n;
 	if (fscanf(in, "%u\n", &n) != 1)
@@ -108,7 +108,7 @@ Segments::Segments(unsigned int w, unsigned int h, unsigned int t, const std::ve
 	bounds[0] = LineSg(Pt(0, 0), Pt(w, 0));
 	bounds[1] = LineSg(Pt(w, 0), Pt(w, h));
 	bounds[2] = LineSg(Pt(w, h), Pt(0, h));
-	bounds[3] = LineSg(Pt(0, h), Pt(w, 0));
+	bounds[3] = LineSg(Pt(0, h), Pt(0, 0));
 }
 
 void Segments::State::init(const Segments &dom, const std::vector<Pose> &ps) {
-- 
2.43.0


From 200ff7faf2879b8db581b8c62968f28db614a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:30 +0000
Subject: [PATCH 051/107] fix: segments: a turn's box holds the whole of its
 arcs

It was the box of the ends of the arcs, so what stood in the way within
the bulge of an arc was not seen.
---
 segments/segments.cc | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index e056956..ba78e44 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -202,22 +202,8 @@ Segments::Sweep Segments::Oper::rotatesweep(const Segments &dom, const State &s)
 	p.rot = wrapind(p.rot+delta, dom.nangles);
 	sweep.lines[0] = dom.line(dom.segs[seg], p);
 
-	Pt min = sweep.arcs[0].start();
-	Pt max = min;
-
-	Pt pts[] = { sweep.arcs[0].end(), sweep.arcs[1].start(), sweep.arcs[1].end() };
-
-	for (int i = 0; i < 3; i++) {
-		if (pts[i].x < min.x)
-			min.x = pts[i].x;
-		if (pts[i].y < min.y)
-			min.y = pts[i].y;
-		if (pts[i].x > max.x)
-			max.x = pts[i].x;
-		if (pts[i].y > max.y)
-			max.y = pts[i].y;
-	}
-	sweep.bbox = Bbox(min, max);
+	// The arcs may reach beyond the boxes of their ends.
+	sweep.bbox = sweep.arcs[0].bbox;
 
 	return sweep;
 }
-- 
2.43.0


From 837edcd74b5ae6e627aba28505f4422c3fa29f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:14 +0000
Subject: [PATCH 052/107] fix: segments: see small segments within a turn that
 passes angle zero

Angles were moved by a turn or not for the whole sweep; the arc knows
which angles it sweeps.
---
 segments/segments.cc | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index ba78e44..2020cdf 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -38,18 +38,7 @@ bool Segments::Sweep::hits(const LineSg &line) const {
 // contains the given point.
 static bool slicecontains(const Arc &a, const Pt &p) {
 	double t = Pt::angle(Pt(p.x - a.c.x, p.y - a.c.y));
-	double tmin = a.t0;
-	double tmax = a.t0+a.dt;
-
-	if (tmin > tmax) {
-		tmin = a.t0+a.dt;
-		tmax = a.t0;
-	}
-
-	if(tmax > 2*M_PI )
-		t += 2*M_PI;
-
-	return between(tmin, tmax, t) && Pt::distance(a.c, p) <= a.r;
+	return a.sweeps(t) && Pt::distance(a.c, p) <= a.r;
 }
 
 Segments::Segments(FILE *in) {
-- 
2.43.0


From 782b8c8db0311ca5bbf2cf6a6443a59688734bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:29 +0000
Subject: [PATCH 053/107] fix: segments: the description of an instance goes to
 one file

Half of it went to standard output whichever file was given, and its
numbers were passed narrower than they are read.
---
 segments/segments.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index 2020cdf..55a40da 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -412,16 +412,16 @@ void Segments::prinitial(FILE *out) const {
   dfrowhdr(out, "instance", 7, "radius", "initial x", "initial y", "initial rot", "goal x", "goal y", "goal, rot");
 	for (auto sg = segs.begin(); sg != segs.end(); sg++) {
 		dfrow(out, "instance", "guuuuuu", (double) sg->radius,
-			(unsigned int) sg->start.x,
-			(unsigned int) sg->start.y,
-			(unsigned int) sg->start.rot,
-			(unsigned int) sg->goal.x,
-			(unsigned int) sg->goal.y,
-			(unsigned int) sg->goal.rot);
+			(unsigned long) sg->start.x,
+			(unsigned long) sg->start.y,
+			(unsigned long) sg->start.rot,
+			(unsigned long) sg->goal.x,
+			(unsigned long) sg->goal.y,
+			(unsigned long) sg->goal.rot);
 	}
-	dfpair(stdout, "width", "%u", width);
-	dfpair(stdout, "height", "%u", height);
-	dfpair(stdout, "number of angles", "%u", nangles);
+	dfpair(out, "width", "%u", width);
+	dfpair(out, "height", "%u", height);
+	dfpair(out, "number of angles", "%u", nangles);
 }
 
 std::vector<Segments::Oper> scanops(const std::string &str) {
-- 
2.43.0


From f3b7f5f8dba4d346aff75cf7abaa25f16df5117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:34 +0000
Subject: [PATCH 054/107] fix: plat2d: a level may be taller than wide

The check for a second start looked at the column twice, so that any start
in a level of more rows than columns counted as a second one.
---
 plat2d/plat2d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plat2d/plat2d.cc b/plat2d/plat2d.cc
index ff2674a..bdc5e1e 100644
--- a/plat2d/plat2d.cc
+++ b/plat2d/plat2d.cc
@@ -26,7 +26,7 @@ Plat2d::Plat2d(FILE *in) : lvl(in) {
 			gy = y;
 		}
 		if (lvl.at(x, y).tile.flags & Tile::Up) {
-			if (x0 < lvl.width() || x0 < lvl.height())
+			if (x0 < lvl.width() || y0 < lvl.height())
 				fatal("There are multiple start locations in the level");
 			x0 = x;
 			y0 = y;
-- 
2.43.0


From 7c773ac1976c08ee10d35c4e277b398ed822a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:34 +0000
Subject: [PATCH 055/107] fix: plat2d: rounding is no excess of speed

Where x is not a multiple of a quarter, as after moving in water, the
distance of a frame can be rounded up beyond the limit, which ended the
program.
---
 plat2d/plat2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 5127fa0..db2efd2 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -173,8 +173,8 @@ struct Plat2d {
 
 			double dy = fabs(s.player.body.bbox.center().y - state.player.body.bbox.center().y);
 			double dx = fabs(s.player.body.bbox.center().x - state.player.body.bbox.center().x);
-			assert (dx <= Maxx);
-			assert (dy <= Maxy);
+			assert (dx <= Maxx + geom2d::Threshold);
+			assert (dy <= Maxy + geom2d::Threshold);
 		}
 	};
 
-- 
2.43.0


From d003e963d12cadbbe27accf152dbe311519eb3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 056/107] fix: plat2d: equal packed states have equal hashes

Values that differ by rounding were equal but had different hashes, so a
hash table found such a state or not depending on its size.
---
 plat2d/plat2d.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index db2efd2..5f36dcc 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -65,10 +65,8 @@ struct Plat2d {
 	struct PackedState {
 
 		bool eq(const Plat2d*, const PackedState &o) const {
-			return jframes == o.jframes &&
-				geom2d::doubleeq(x, o.x) &&
-				geom2d::doubleeq(y, o.y) &&
-				geom2d::doubleeq(dy, o.dy);
+			// Exact, since the hash is of the exact values.
+			return jframes == o.jframes && x == o.x && y == o.y && dy == o.dy;
 		}
 
 		unsigned long hash(const Plat2d*) {
-- 
2.43.0


From d12010e56478e70dc28419d5391a844e2cdcd5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:18 +0000
Subject: [PATCH 057/107] fix: plat2d: the other way is the reverse only where
 it leads back

Left and right were taken to undo each other whenever the height stayed,
though the player may have begun to fall or been stopped by a block; the
searches then left out moves that lead elsewhere.
---
 plat2d/plat2d.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 5f36dcc..5c841ef 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -156,13 +156,14 @@ struct Plat2d {
 			state.h = -1;
 			state.player.act(d.lvl, (unsigned int) op);
 			cost = 1; // geom2d::Pt::distance(s.player.body.bbox.min, state.player.body.bbox.min));
-			if (s.player.body.bbox.min.y == state.player.body.bbox.min.y) {
-				if (op == Player::Left) {
-					revop = Player::Right;
-					revcost = cost;
-				}
-				else if (op == Player::Right) {
-					revop = Player::Left;
+			if (op == Player::Left || op == Player::Right) {
+				// The other way is only the reverse if it leads back: not
+				// if the player fell, rises, or was stopped by a block.
+				Oper rev = op == Player::Left ? Player::Right : Player::Left;
+				Player back(state.player);
+				back.act(d.lvl, (unsigned int) rev);
+				if (back == s.player) {
+					revop = rev;
 					revcost = cost;
 				}
 			}
-- 
2.43.0


From 8e8d3dcf74a5a073b354446d2ce47ad13d464b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:29 +0000
Subject: [PATCH 058/107] fix: plat2d: a level may have more than one region

---
 plat2d/plat2d.cc  | 19 +++++++++++++++----
 plat2d/plat2d.hpp |  2 ++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/plat2d/plat2d.cc b/plat2d/plat2d.cc
index bdc5e1e..46cb7e2 100644
--- a/plat2d/plat2d.cc
+++ b/plat2d/plat2d.cc
@@ -61,12 +61,23 @@ Plat2d::State Plat2d::initialstate() {
 
 void Plat2d::initvg() {
 	double strt = walltime();
+	// The map has one region, so all that is not connected to the goal
+	// counts as blocked.
 	bool *blkd = new bool[lvl.width() * lvl.height()];
 	for (unsigned int i = 0; i < lvl.width() * lvl.height(); i++)
-		blkd[i] = false;
-	for (unsigned int i = 0; i < lvl.width(); i++) {
-	for (unsigned int j = 0; j < lvl.height(); j++)
-		blkd[i * lvl.height() + j] = lvl.blocked(i, j);
+		blkd[i] = true;
+	std::vector<std::pair<unsigned int, unsigned int> > region;
+	region.push_back(std::make_pair(gx, gy));
+	while (!region.empty()) {
+		unsigned int i = region.back().first, j = region.back().second;
+		region.pop_back();
+		if (i >= lvl.width() || j >= lvl.height() || !blkd[i * lvl.height() + j] || lvl.blocked(i, j))
+			continue;
+		blkd[i * lvl.height() + j] = false;
+		region.push_back(std::make_pair(i - 1, j));
+		region.push_back(std::make_pair(i + 1, j));
+		region.push_back(std::make_pair(i, j - 1));
+		region.push_back(std::make_pair(i, j + 1));
 	}
 
 	vg = new VisGraph(PolyMap(blkd, lvl.width(), lvl.height()));
diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 5c841ef..ee954f3 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -235,6 +235,8 @@ private:
 		loc.y /= Maxy;
 
 		int c = centers[bi.x * lvl.height() + bi.y];
+		if (c < 0)	// There is no way to the goal.
+			return 1;
 		geom2d::Pt g = goalpt(bi, loc);
 		if (togoal[c].prev == gcenter || vg->map.isvisible(loc, g)) {
 			double dx = fabs(g.x - loc.x);
-- 
2.43.0


From 2eae75a7321308fe52c880225a7226d3bfdcbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:29 +0000
Subject: [PATCH 059/107] fix: plat2d: no body falls faster than the highest
 speed

---
 plat2d/body.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plat2d/body.cc b/plat2d/body.cc
index bd83e7b..3cdec32 100644
--- a/plat2d/body.cc
+++ b/plat2d/body.cc
@@ -70,6 +70,8 @@ void Body::dofall(const Lvl &lvl, const Isect &is) {
 	if (fall && dy < Maxdy) {
 		Lvl::Blkinfo bi = lvl.majorblk(bbox);
 		dy += bi.tile.gravity();
+		if (dy > Maxdy)	// Speeds in water need not be whole multiples.
+			dy = Maxdy;
 	}
 }
 
-- 
2.43.0


From 703138e452499546c7f9609be5dd59bcd558b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:54 +0000
Subject: [PATCH 060/107] fix: visnav: the highest corner of a map is not the
 lowest of a polygon

---
 visnav/polymap.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visnav/polymap.cc b/visnav/polymap.cc
index 5163d74..9d04c4e 100644
--- a/visnav/polymap.cc
+++ b/visnav/polymap.cc
@@ -104,7 +104,7 @@ geom2d::Pt PolyMap::max() const {
 	for (unsigned int i = 0; i < polys.size(); i++) {
 		if (polys[i].bbox.max.x > max.x)
 			max.x = polys[i].bbox.max.x;
-		if (polys[i].bbox.min.y > max.y)
+		if (polys[i].bbox.max.y > max.y)
 			max.y = polys[i].bbox.max.y;
 	}
 	return max;
-- 
2.43.0


From 7efb98f69e1efb6b41097f1c21e9b8356cc88e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 061/107] fix: geom2d: a polygon contains points nearly level
 with a corner

---
 utils/geom2d.cc | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/utils/geom2d.cc b/utils/geom2d.cc
index af543c3..0ab3868 100644
--- a/utils/geom2d.cc
+++ b/utils/geom2d.cc
@@ -135,29 +135,23 @@ namespace geom2d {
 	}
 	
 	bool Poly::contains(const Pt &pt) const {
-		bool even = true, isect = false;
-		Line ray(pt, Pt(pt.x + 1, pt.y));
-	
+		bool even = true;
+
+		// Count the sides to the right.  A side has its lower end but not
+		// its upper one, so that each corner is passed exactly once, also
+		// if the point is level with it only up to rounding.
 		for (unsigned int i = 0; i < sides.size(); i++) {
 			const LineSg &side = sides[i];
-			if (side.bbox.max.x < pt.x || side.bbox.max.y < pt.y || side.bbox.min.y > pt.y)
-				continue;
-			Pt hit = ray.isect(side);
-	
-			if (hit.isinf() || hit.x <= pt.x || !side.within(hit))
-				continue;
-			else if (side.p0 == hit && side.p1.y >= hit.y)
-				continue;
-			else if (side.p1 == hit && side.p0.y >= hit.y)
+			if ((side.p0.y > pt.y) == (side.p1.y > pt.y))
 				continue;
-	
-			isect = true;
-			even = !even;
+			double frac = (pt.y - side.p0.y) / (side.p1.y - side.p0.y);
+			if (side.p0.x + frac * (side.p1.x - side.p0.x) > pt.x)
+				even = !even;
 		}
-	
-		return isect && !even;
+
+		return !even;
 	}
-	
+
 	std::vector<Pt> Poly::isects(const LineSg &l) const {
 		std::vector<Pt> is;
 	
-- 
2.43.0


From 7ef4831c187f6382bb11f2370063a55c1ecf3c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 062/107] fix: visnav: rand writes the map to the given file

---
 visnav/rand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visnav/rand.cc b/visnav/rand.cc
index e0c0a79..9f398e4 100644
--- a/visnav/rand.cc
+++ b/visnav/rand.cc
@@ -54,7 +54,7 @@ int main(int argc, char *argv[]) {
 		FILE *f = fopen(outfile, "w");
 		if (!f)
 			fatalx(errno, "Failed to open %s:", outfile);
-		map.output(stdout);
+		map.output(f);
 		fclose(f);
 	} else {
 		map.output(stdout);
-- 
2.43.0


From c8ae83d4c4defde66afe452730324b30c7a5cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:16 +0000
Subject: [PATCH 063/107] fix: visnav: save the map also if there is no route

---
 visnav/visnav.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/visnav/visnav.cc b/visnav/visnav.cc
index 0471ecf..e8e6423 100644
--- a/visnav/visnav.cc
+++ b/visnav/visnav.cc
@@ -36,11 +36,10 @@ void VisNav::save(const char *file, std::vector<State> path) {
 
 	g.draw(img, false);
 
-	geom2d::Pt p0 = g.verts[path[0].vert].pt;
 	for (unsigned int i = 1; i < path.size(); i++) {
+		const geom2d::Pt &p0 = g.verts[path[i-1].vert].pt;
 		const geom2d::Pt &p1 = g.verts[path[i].vert].pt;
 		img.add(new Image::Line(p0, p1, Image::red, 3));
-		p0 = p1;
 	}
 
 	img.saveeps(file, true, 72.0/2.0);
-- 
2.43.0


From 4506a5dd84e6ffdcfee8e4aece8072e150d59090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 064/107] fix: tiles: generator makes solvable puzzles of every
 size

---
 tiles/generator.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index 155a637..d7340a0 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -36,7 +36,7 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 	// Add parity bits through puzzle
 	for (unsigned int i=0; i<ts.size(); i++) {
 		if (ts[i] == 0)
-			blankrow = i / (height) + 1;
+			blankrow = i / width + 1;
 
 		for (unsigned int j=0; j<i; j++) {
 			if (ts[j] > ts[i] && ts[i] != 0)
@@ -44,12 +44,12 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 		}
 	}
 
-	// add parity bit if grid is even width & other bullshit, see:
+	// With an even width, moving the blank up or down by a row also
+	// changes the number of inversions by an odd number, see:
 	// http://www.cs.bham.ac.uk/~mdr/teaching/modules04/java2/TilesSolvability.html
-	if (width % 2 == 0) {
-		if ((height-blankrow) % 2 == 0)
-			parity += 1;
-	}
+	// The goal has the blank in the first row.
+	if (width % 2 == 0)
+		parity += blankrow - 1;
 
 	return parity%paritycheck;
 }
-- 
2.43.0


From 9d941242dd6c7726c38dc7c694ee169464dab7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 065/107] fix: tiles: generator closes its files

---
 tiles/generator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index d7340a0..db656c5 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -81,6 +81,7 @@ void writeruml(vector<int> ts, int w, int h, char *dir, int n) {
 	fprintf(file, "goal positions:\n");
 	for (unsigned int i = 0; i<Ntiles; i++)
 		fprintf(file, "%d\n", i);
+	fclose(file);
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From c5161af3cbb55945bd2d4066b762f3d4cc5a88b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 066/107] fix: tiles: generator refuses an option without its
 value

---
 tiles/generator.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index db656c5..71fe519 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -94,15 +94,15 @@ int main(int argc, char *argv[]) {
 	vector<int> puzzle;
 	
 	for (int i=0; i<argc; i++) {
-		if (strcmp(argv[i], "-w") == 0 && argc > i)
+		if (strcmp(argv[i], "-w") == 0 && i < argc-1)
 			width = atoi(argv[++i]);
-		if (strcmp(argv[i], "-h") == 0 && argc > i)
+		if (strcmp(argv[i], "-h") == 0 && i < argc-1)
 			height = atoi(argv[++i]);
-		if (strcmp(argv[i], "-n") == 0 && argc > i)
+		if (strcmp(argv[i], "-n") == 0 && i < argc-1)
 			n = atoi(argv[++i]);
-		if (strcmp(argv[i], "-d") == 0 && argc > i)
+		if (strcmp(argv[i], "-d") == 0 && i < argc-1)
 			dir = argv[++i];
-		if (strcmp(argv[i], "-seed") == 0 && argc > i) {
+		if (strcmp(argv[i], "-seed") == 0 && i < argc-1) {
 			seedval = atol(argv[++i]);
 			fprintf(stderr, "Using seed %ld\n", seedval);
 		}
-- 
2.43.0


From 54fadd551d717c80a8ce9a654a23db7346932b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 067/107] fix: tiles: generator takes directory names of any
 length

---
 tiles/generator.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index 71fe519..183dc8e 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -57,16 +57,17 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 void writeruml(vector<int> ts, int w, int h, char *dir, int n) {
 	unsigned int Ntiles = ts.size();
 	int output[Ntiles];
-	char fname[BUFSZ];
+	char num[BUFSZ];
 	FILE *file = NULL;
 
 
-	sprintf(fname, "%s/%d", dir, n);
+	snprintf(num, sizeof(num), "/%d", n);
+	string fname = string(dir) + num;
 	
-	file = fopen(fname, "w");
+	file = fopen(fname.c_str(), "w");
 
 	if (!file) {
-		fatalx(errno, "Failed to open %s for writing", fname);
+		fatalx(errno, "Failed to open %s for writing", fname.c_str());
 	}
 
 	for (unsigned int i=0; i<Ntiles; i++) {
-- 
2.43.0


From 6fc2ae089387be9419a6750a26f160154913606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 068/107] fix: gridnav: randinst takes locations within the map

---
 gridnav/randinst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridnav/randinst.cc b/gridnav/randinst.cc
index 55dc805..8bcc884 100644
--- a/gridnav/randinst.cc
+++ b/gridnav/randinst.cc
@@ -37,8 +37,8 @@ int main(int argc, char *argv[]) {
 	unsigned int ys[2];
 	for (int i = 0; i < 2; i++) {
 again:
-		xs[i] = r.integer(1, map.w);
-		ys[i] = r.integer(1, map.h);
+		xs[i] = r.integer(1, map.w-2);
+		ys[i] = r.integer(1, map.h-2);
 		if (map.blkd(map.index(xs[i], ys[i])))
 			goto again;
 	}
-- 
2.43.0


From 0a4b4c8f723796b63c943ecd82d1f7982fcfa6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 069/107] fix: gridnav: 2poly of maps that are not square

---
 gridnav/2poly.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/2poly.cc b/gridnav/2poly.cc
index 3db47d4..c8a3c0a 100644
--- a/gridnav/2poly.cc
+++ b/gridnav/2poly.cc
@@ -10,7 +10,7 @@ int main(int argc, char *argv[]) {
 	for (unsigned int i = 0; i < map.sz; i++)
 		blkd[i] = true;
 	for (unsigned int i = 0; i < map.w; i++) {
-		unsigned int base = i * map.w;
+		unsigned int base = i * map.h;
 
 		for (unsigned int j = 0; j < map.h; j++)
 			blkd[base + j] = map.blkd(map.index(i, j));
-- 
2.43.0


From 0ab7c617bf303e90c5a9d16b88fb324a8f47bb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 070/107] fix: gridnav: ppm2grid skips the maximum color value

---
 gridnav/ppm2grid.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gridnav/ppm2grid.cc b/gridnav/ppm2grid.cc
index eb94666..2dd3f1c 100644
--- a/gridnav/ppm2grid.cc
+++ b/gridnav/ppm2grid.cc
@@ -10,12 +10,14 @@ FILE *out = stdout;
 
 static bool white();
 static void readsize();
+static void readmax();
 static std::string nextline();
 
 int main() {
 	if (nextline() != "P3")
 		fatal("Expected P3");
 	readsize();
+	readmax();
 	fprintf(out, "%u %u\nBoard:\n", h, w);
 	for (unsigned int y = 0; y < h; y++) {
 		for (unsigned int x = 0; x < w; x++)
@@ -38,6 +40,13 @@ static void readsize() {
 		fatal("Expected width and height, got [%s]\n", str);
 }
 
+static void readmax() {
+	auto l = nextline();
+	unsigned int max;
+	if (sscanf(l.c_str(), "%u", &max) != 1 || max != 255)
+		fatal("Expected a maximum color value of 255, got [%s]\n", l.c_str());
+}
+
 static std::string nextline() {
 	std::string line;
 	do {
-- 
2.43.0


From e40d093b6a06a12747c5fd5715a7ff343b762414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 071/107] fix: gridnav: scenario2rdb writes names as they are

---
 gridnav/scenario2rdb.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gridnav/scenario2rdb.cc b/gridnav/scenario2rdb.cc
index 7c38787..197eb08 100644
--- a/gridnav/scenario2rdb.cc
+++ b/gridnav/scenario2rdb.cc
@@ -45,14 +45,14 @@ int main(int argc, char *argv[]) {
 		if (!f)
 			fatalx(errno, "Failed to open %s for writing", path.c_str());
 		fprintf(f, "#start data file format 4\n");
-		dfpair(f, "scenario file", argv[2]);
-		dfpair(f, "num", num);
-		dfpair(f, "map", mapfile.c_str());
-		dfpair(f, "optimal cost", cost.c_str());
-		dfpair(f, "start x", x0.c_str());
-		dfpair(f, "start y", y0.c_str());
-		dfpair(f, "goal x", x1.c_str());
-		dfpair(f, "goal y", y1.c_str());
+		dfpair(f, "scenario file", "%s", argv[2]);
+		dfpair(f, "num", "%s", num);
+		dfpair(f, "map", "%s", mapfile.c_str());
+		dfpair(f, "optimal cost", "%s", cost.c_str());
+		dfpair(f, "start x", "%s", x0.c_str());
+		dfpair(f, "start y", "%s", y0.c_str());
+		dfpair(f, "goal x", "%s", x1.c_str());
+		dfpair(f, "goal y", "%s", y1.c_str());
 		fprintf(f, "#end data file format 4\n");
 		fclose(f);
 	}
-- 
2.43.0


From c86f4c033b9b70559220a7437a48c42c8b8afee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 072/107] fix: traffic: randinst needs a seed

---
 traffic/randinst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traffic/randinst.cc b/traffic/randinst.cc
index 859727d..0121581 100644
--- a/traffic/randinst.cc
+++ b/traffic/randinst.cc
@@ -7,7 +7,7 @@
 
 int main(int argc, const char *argv[]) {
 	
-	if(argc < 4) {
+	if(argc < 5) {
 		fprintf(stderr, "usage: %s width height num_obs seed\n", argv[0]);
 		return 0;
 	}
-- 
2.43.0


From 66bacf370860dfa6c8a05c8e15f7d4464d001948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:03 +0000
Subject: [PATCH 073/107] fix: traffic: randinst with one row or column

---
 traffic/randinst.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/traffic/randinst.cc b/traffic/randinst.cc
index 0121581..f71e485 100644
--- a/traffic/randinst.cc
+++ b/traffic/randinst.cc
@@ -22,9 +22,13 @@ int main(int argc, const char *argv[]) {
 	while(true) {
 		GridMap map(width, height);
 
+		// Keep the obstacles off of the start, unless there is but one column or row.
+		int minx = width > 1;
+		int miny = height > 1;
+
 		for(int i = 0; i < num_obs; i++) {
-			map.obstacles.emplace_back( (rand() % (width-1)) + 1, //x
-									(rand() % (height-1)) + 1, //y
+			map.obstacles.emplace_back( (rand() % (width-minx)) + minx, //x
+									(rand() % (height-miny)) + miny, //y
 									(rand() % 3) - 1,		//dx
 									(rand() % 3) - 1);		//dy
 		}
-- 
2.43.0


From 1a395c8f24c0930467ecbe8507993956a15e4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:19 +0000
Subject: [PATCH 074/107] fix: plat2d: refuse to run without an algorithm

---
 plat2d/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plat2d/main.cc b/plat2d/main.cc
index 8384492..bb0902b 100644
--- a/plat2d/main.cc
+++ b/plat2d/main.cc
@@ -45,7 +45,7 @@ static void parseargs(int argc, const char *argv[]) {
 }
 
 static SearchAlgorithm<Plat2d> *get(int argc, const char *argv[]) {
-	if (strcmp(argv[1], "rrt") == 0)
+	if (argc > 1 && strcmp(argv[1], "rrt") == 0)
 		return new RRT<Plat2d>(argc, argv);
 	return getsearch<Plat2d>(argc, argv);
 }
\ No newline at end of file
-- 
2.43.0


From eec86ec3b9c4242128958610358b3e33aaf35ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 075/107] fix: graphics: write a proper EPS header for pictures
 without a page

---
 graphics/image.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphics/image.cc b/graphics/image.cc
index 2cf4fab..b4f8fef 100644
--- a/graphics/image.cc
+++ b/graphics/image.cc
@@ -90,12 +90,12 @@ void Image::write_epshdrletter(FILE *out, unsigned int marginpt) const {
 }
 
 void Image::write_epshdr(FILE *out, unsigned int marginpt) const {
-	fputs("%%!PS-Adobe-3.0\n", out);
-	fputs("%%%%Creator: UNH-AI C++ Search Framework\n", out);
+	fputs("%!PS-Adobe-3.0\n", out);
+	fputs("%%Creator: UNH-AI C++ Search Framework\n", out);
 	fprintf(out, "%%%%Title: %s\n", title.c_str());
 	fprintf(out, "%%%%BoundingBox: 0 0 %u %u\n",
 		width + 2 * marginpt, height + 2 * marginpt);
-	fputs("%%%%EndComments\n", out);
+	fputs("%%EndComments\n", out);
 	fprintf(out, "%u %u translate\n", marginpt, marginpt);
 }
 
-- 
2.43.0


From 2bd26c911010d45f6199edb1bc6c628e0b5385e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:40 +0000
Subject: [PATCH 076/107] fix: graphics: escape parentheses and backslashes of
 captions

---
 graphics/image.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphics/image.cc b/graphics/image.cc
index b4f8fef..7d20cd7 100644
--- a/graphics/image.cc
+++ b/graphics/image.cc
@@ -136,7 +136,13 @@ void Image::Text::writeeps(FILE *out) const {
 	fprintf(out, "%g %g %g setrgbcolor\n", c.getred(), c.getgreen(), c.getblue());
 	fprintf(out, "/%s findfont %g scalefont setfont\n", font.c_str(), sz);
 	fprintf(out, "%g %g moveto\n", loc.x, loc.y);
-	fprintf(out, "(%s) ", text.c_str());
+	fputc('(', out);
+	for (unsigned int i = 0; i < text.size(); i++) {
+		if (text[i] == '(' || text[i] == ')' || text[i] == '\\')
+			fputc('\\', out);
+		fputc(text[i], out);
+	}
+	fputs(") ", out);
 	switch (pos) {
 	case Left:
 		fputs("show\n", out);
-- 
2.43.0


From fcbf9a65c16f2f83cc16edf373a77167372b46f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:40 +0000
Subject: [PATCH 077/107] fix: graphics: saving a scene leaves its components
 alone

---
 graphics/scene.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphics/scene.cc b/graphics/scene.cc
index 7167560..3973e74 100644
--- a/graphics/scene.cc
+++ b/graphics/scene.cc
@@ -15,6 +15,9 @@ void Scene::save(const char *file) const {
 	for (unsigned int i = 0; i < comps.size(); i++)
 		img.add(comps[i]);
 	img.saveeps(file);
+
+	// The scene still owns its components, the image must not free them.
+	img.comps.clear();
 }
 
 void Scene::Pt::render() const {
-- 
2.43.0


From 08645675855ef9eabb1a4171d5512162eaee5719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 078/107] fix: anyprof: allow solutions found at the same time

---
 search/anyprof/profile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 9e023d8..1882aa3 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -102,7 +102,7 @@ void AnytimeProfile::countsolutions(const std::vector<SolutionStream> &streams)
 			unsigned int curdt = 0;
 	
 			for (unsigned int j = i+1; j < stream.size(); j++) {
-				assert(stream[j].time > stream[i].time);
+				assert(stream[j].time >= stream[i].time);
 				assert(stream[j].cost <= stream[i].cost);
 	
 				unsigned int nextq = costbin(stream[j].cost);
-- 
2.43.0


From 011282f2dbb5b319e669673fccde999079490fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 079/107] fix: anyprof: save the range of costs and times
 exactly

---
 search/anyprof/profile.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 1882aa3..aba5c91 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -49,8 +49,8 @@ void AnytimeProfile::read(FILE *in) {
 
 void AnytimeProfile::save(FILE *out) const {
 	fprintf(out, "%u %u\n", ncost, ntime);
-	fprintf(out, "%g %g\n", mincost, maxcost);
-	fprintf(out, "%g %g\n", mintime, maxtime);
+	fprintf(out, "%.17g %.17g\n", mincost, maxcost);
+	fprintf(out, "%.17g %.17g\n", mintime, maxtime);
 	for (unsigned int i = 0; i < ncost*ntime; i++)
 		fprintf(out, "%u\n", qtcounts[i]);
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++)
-- 
2.43.0


From 583dc11f4534f4017b7ef678b575d207425410ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 080/107] fix: anyprof: numbers just below the largest belong
 to the last bin

---
 search/anyprof/profile.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/search/anyprof/profile.hpp b/search/anyprof/profile.hpp
index 99c77f5..39b146c 100644
--- a/search/anyprof/profile.hpp
+++ b/search/anyprof/profile.hpp
@@ -92,7 +92,9 @@ private:
 		if (c == maxcost)
 			return ncost-1;
 		double width = (maxcost-mincost)/ncost;
-		return (c-mincost)/width;
+		unsigned int b = (c-mincost)/width;
+		// Rounding can give ncost for a cost just less than maxcost.
+		return b < ncost ? b : ncost-1;
 	}
 
 	// timebin returns the bin into which the given
@@ -104,7 +106,9 @@ private:
 		if (dt == maxtime-mintime)
 			return ntime-1;
 		double width = (maxtime-mintime)/ntime;
-		return dt/width;
+		unsigned int b = dt/width;
+		// Rounding can give ntime for a dt just less than the largest.
+		return b < ntime ? b : ntime-1;
 	}
 
 	// qtcounts is an array of the number of solutions
@@ -145,10 +149,12 @@ public:
 			return true;
 
 		unsigned int q = (cost - prof.mincost) / qwidth;
-		assert (q < prof.ncost);
+		if (q >= prof.ncost)	// rounding
+			q = prof.ncost-1;
 
 		unsigned int t = (time - prof.mintime) / twidth;
-		assert (t < prof.ntime);
+		if (t >= prof.ntime)	// rounding
+			t = prof.ntime-1;
 
 		return policy[index(q, t)];
 	}
-- 
2.43.0


From 322f954969c541b63ae0c94fb902bba8407d4cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 081/107] fix: anyprof: mkprof does not use freed keys

---
 search/anyprof/mkprof.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search/anyprof/mkprof.cc b/search/anyprof/mkprof.cc
index 04a43e7..647ffb6 100644
--- a/search/anyprof/mkprof.cc
+++ b/search/anyprof/mkprof.cc
@@ -30,7 +30,8 @@ int main(int argc, const char *argv[]) {
 
 	RdbAttrs attrs = attrargs(argc-4, argv+4);
 	printf("attributes:\n");
-	for (auto k = attrs.getkeys().begin(); k != attrs.getkeys().end(); k++)
+	auto keys = attrs.getkeys();
+	for (auto k = keys.begin(); k != keys.end(); k++)
 		printf("\t%s=%s\n", k->c_str(), attrs.lookup(*k).c_str());
 	if (!attrs.mem("alg"))
 		fatal("alg attribute must be specified");
-- 
2.43.0


From eae7737b16035c0e6320e81f3cbb5fce069cfa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 082/107] fix: anyprof: bestwt refuses missing arguments and
 runs

---
 search/anyprof/bestwt.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search/anyprof/bestwt.cc b/search/anyprof/bestwt.cc
index 3e12356..029f7c1 100644
--- a/search/anyprof/bestwt.cc
+++ b/search/anyprof/bestwt.cc
@@ -19,7 +19,7 @@ struct Fields {
 };
 
 int main(int argc, const char *argv[]) {
-	if (argc < 2)
+	if (argc < 4)
 		fatal("usage: bestwt <wf> <wt> <rdb root> [key=value*]");
 
 	char *end = NULL;
@@ -67,6 +67,9 @@ int main(int argc, const char *argv[]) {
 		fclose(f);
 	}
 
+	if (avg.empty())
+		fatal("no solutions");
+
 	double weight = avg.begin()->first;
 	for (auto i = avg.begin(); i != avg.end(); i++) {
 		if (i->second < avg[weight])
-- 
2.43.0


From b3bf6abcb7eb1da3b8d3c114c4c4197d2e4e705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 083/107] fix: anyprof: mkprof refuses to make a profile
 without bins

---
 search/anyprof/mkprof.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/search/anyprof/mkprof.cc b/search/anyprof/mkprof.cc
index 647ffb6..85f82a9 100644
--- a/search/anyprof/mkprof.cc
+++ b/search/anyprof/mkprof.cc
@@ -18,15 +18,15 @@ int main(int argc, const char *argv[]) {
 
 	errno = 0;
 	char *end;
-	unsigned int ncost = strtol(argv[2], &end, 10);
-	if (end == argv[2])
+	long ncost = strtol(argv[2], &end, 10);
+	if (end == argv[2] || ncost < 1)
 		fatal("Invalid number of cost bins: %s", argv[2]);
-	printf("%u cost bins\n", ncost);
+	printf("%ld cost bins\n", ncost);
 
-	unsigned int ntime = strtol(argv[3], &end, 10);
-	if (end == argv[3])
+	long ntime = strtol(argv[3], &end, 10);
+	if (end == argv[3] || ntime < 1)
 		fatal("Invalid number of time bins: %s", argv[3]);
-	printf("%u time bins\n", ntime);
+	printf("%ld time bins\n", ntime);
 
 	RdbAttrs attrs = attrargs(argc-4, argv+4);
 	printf("attributes:\n");
-- 
2.43.0


From 6cc04f25e803a416b0e465c0409fe8f945e62eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:15 +0000
Subject: [PATCH 084/107] fix: anyprof: policies of profiles with a single time
 bin

---
 search/anyprof/profile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index aba5c91..e6c269c 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -210,7 +210,7 @@ AnytimeMonitor::AnytimeMonitor(const AnytimeProfile &p, double fw, double tw) :
 	}
 
 	for (unsigned int q1 = 1; q1 < prof.ncost; q1++) {
-	for (long t = prof.ntime-2; t >= 0; t--) {
+	for (long t = (long) prof.ntime-2; t >= 0; t--) {
 
 		double vgo = 0;
 		double psum = 0;
-- 
2.43.0


From 13d59029bedade0f8243be8bf630411a4275a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:49 +0000
Subject: [PATCH 085/107] fix: rrt: take the seed from the argument of -s

---
 search/rrt.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/search/rrt.hpp b/search/rrt.hpp
index 526d870..70cf8a2 100644
--- a/search/rrt.hpp
+++ b/search/rrt.hpp
@@ -30,9 +30,9 @@ public:
 		for (int i = 0; i < argc; i++) {
 			if (i < argc - 1 && strcmp(argv[i], "-s") == 0) {
 				char *end = NULL;
-				seed = strtoull(argv[i++], &end, 10);
-				if (end == NULL)
-					fatal("Invalid seed: %s", argv[i-1]);
+				seed = strtoull(argv[++i], &end, 10);
+				if (end == argv[i])
+					fatal("Invalid seed: %s", argv[i]);
 			}
 		}
 		rng = Rand(seed);
-- 
2.43.0


From e4de5a8cdf2eb0af28ce5f188d1f028c4eb7183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:49 +0000
Subject: [PATCH 086/107] fix: rrt: stop at the search limits

---
 search/rrt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/rrt.hpp b/search/rrt.hpp
index 70cf8a2..808a7cc 100644
--- a/search/rrt.hpp
+++ b/search/rrt.hpp
@@ -53,7 +53,7 @@ public:
 			root->point[i] = pt[i];
 		tree.insert(pt, root);
 
-		for ( ; ; ) {
+		while (!this->limit()) {
 			sample(pt);
 			auto near = tree.nearest(pt);
 			Node *node = near->data;
-- 
2.43.0


From b350ce5f3f32da1dd61b5087aa6fcd11b2162e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:49 +0000
Subject: [PATCH 087/107] fix: rrt: a reset forgets the tree of the last search

---
 search/rrt.hpp     |  2 ++
 structs/kdtree.hpp | 21 +++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/search/rrt.hpp b/search/rrt.hpp
index 808a7cc..550d0e4 100644
--- a/search/rrt.hpp
+++ b/search/rrt.hpp
@@ -114,6 +114,8 @@ done:
 		SearchAlgorithm<D>::reset();
 		for (auto n : tree)
 			pool.destruct(n->data);
+		tree.clear();
+		rng = Rand(seed);
 	}
 
 	virtual void output(FILE *out) {
diff --git a/structs/kdtree.hpp b/structs/kdtree.hpp
index 5a8e30e..681740b 100644
--- a/structs/kdtree.hpp
+++ b/structs/kdtree.hpp
@@ -24,6 +24,9 @@ public:
 	// Insert inserts a binding from the point to the data into the tree.
 	void insert(double[K], Data);
 
+	// Clear removes all points from the tree.
+	void clear();
+
 	// Nearest returns a pointer to the nearest node in the tree, or NULL on error.
 	const N* nearest(double[K]) const;
 
@@ -107,6 +110,24 @@ void Kdtree<K, Data>::insert(double pt[K], Data d) {
 	num++;
 }
 
+template<unsigned int K, class Data>
+void Kdtree<K, Data>::clear() {
+	std::stack<N*> left;
+	if (root)
+		left.push(root);
+	while (!left.empty()) {
+		N *n = left.top();
+		left.pop();
+		if (n->left)
+			left.push(n->left);
+		if (n->right)
+			left.push(n->right);
+		nodes.destruct(n);
+	}
+	root = NULL;
+	num = 0;
+}
+
 template<unsigned int K, class Data>
 typename Kdtree<K, Data>::N* Kdtree<K, Data>::insert(N *t, unsigned int depth, N *n) {
 	if (!t) {
-- 
2.43.0


From 5aad94f95d7e8b6a34453575a8d248f800a4ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 088/107] fix: dtastar-dump: give the message of a bad -samplep
 its argument

---
 search/dtastar-dump.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 8547b5a..c3b5075 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -187,7 +187,7 @@ public:
 			}
 		}
 		if (samplep <= 0 || samplep > 1)
-			fatal("%g, Must specify sample probability in (0, 1] with -samplep");
+			fatal("%g, Must specify sample probability in (0, 1] with -samplep", samplep);
 		if (horizon == 0)
 			fatal("Must specify sample lookahead horizon with -horizon");
 	}
-- 
2.43.0


From b5144fd4c10357eafa179eff10267d6f8e60aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 089/107] fix: dtastar-dump: the sampled look-ahead ends at
 goals

---
 search/dtastar-dump.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index c3b5075..0d3b426 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -431,7 +431,8 @@ private:
 	} 
 
 	void dfs(D &d, LssNode *n, double f, double h, unsigned int left) {
-		if (f >= alpha || left == 0) {
+		// Nothing beyond a goal is on the way to it.
+		if (f >= alpha || left == 0 || n->node->goal) {
 			alpha = std::min(alpha, f);
 			return;
 		}
-- 
2.43.0


From d1c0b18e6c01e7b7943b4e4937cfae0091cf8a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 090/107] fix: leastsquares: fail if there are fewer rows than
 columns

---
 search/learnh/leastsquares.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/search/learnh/leastsquares.cc b/search/learnh/leastsquares.cc
index 8b4f1ef..d282e6d 100644
--- a/search/learnh/leastsquares.cc
+++ b/search/learnh/leastsquares.cc
@@ -6,6 +6,9 @@
 extern "C" void dgels_( char* trans, int* m, int* n, int* nrhs, double* a, int* lda, double* b, int* ldb, double* work, int* lwork, int* info );
 
 bool leastsquares(int nrows, int ncols, double Ain[], double bin[], double x[]) {
+	if (nrows < ncols)	// not enough to determine x
+		return false;
+
 	bool res = false;
 	char trans[] = "No transpose";
 
@@ -30,7 +33,7 @@ bool leastsquares(int nrows, int ncols, double Ain[], double bin[], double x[])
 	double *work = 0;
 	dgels_(trans, &nrows, &ncols, &nrhs, A, &lda, b, &ldb, &wksz,
 		&lwork, &info);
-	if (info > 0)
+	if (info != 0)
 		goto out;
 	lwork = (int) wksz;
 	work = new double[lwork];
@@ -38,7 +41,7 @@ bool leastsquares(int nrows, int ncols, double Ain[], double bin[], double x[])
 	// Solve.
 	dgels_(trans, &nrows, &ncols, &nrhs, A, &lda, b, &ldb, work,
 		&lwork, &info);
-	if (info > 0)
+	if (info != 0)
 		goto out;
 
 	// Copy the solution over.
-- 
2.43.0


From 564024f7ad8baf0d6d2596eef18f33bd2c4095e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 091/107] fix: hlms: refuse missing arguments and impossible
 sample sizes

---
 search/learnh/hlms.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/search/learnh/hlms.cc b/search/learnh/hlms.cc
index 0e6a6d1..07be985 100644
--- a/search/learnh/hlms.cc
+++ b/search/learnh/hlms.cc
@@ -44,16 +44,17 @@ static void sptpoints(FILE*);
 static void sptfooter(FILE*);
 
 int main(int argc, const char *argv[]) {
-	if (argc < 2)
+	if (argc < 4)
 		fatal("usage: lms <sample size> <d|h> <rdbroot> [key=value*]");
 
 	// Seed with zero.
 	randgen = Rand(0);
 
 	char *end = NULL;
-	sz = strtol(argv[1], &end, 10);
-	if (end == argv[1])
+	long size = strtol(argv[1], &end, 10);
+	if (end == argv[1] || size <= 0)
 		fatal("Invalid sample size: %s", argv[1]);
+	sz = size;
 
 	A = new double[NFeatures * sz];
 	b = new double[sz];
-- 
2.43.0


From 340e27503ee9b4f2e4a7294904d3f895454a24c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 092/107] fix: hlms: sample every record with the same
 probability

---
 search/learnh/hlms.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/learnh/hlms.cc b/search/learnh/hlms.cc
index 07be985..b872364 100644
--- a/search/learnh/hlms.cc
+++ b/search/learnh/hlms.cc
@@ -127,7 +127,7 @@ static void dfline(std::vector<std::string> &l, void*) {
 	if (t-1 < sz)
 		i = t-1;
 	else
-		i = randgen.integer(0, t);
+		i = randgen.integer(0, t-1);
 	if (i >= sz)
 		return;
 
-- 
2.43.0


From d2e9a084c3d5b5dd0e983ec0cc1404f7710077ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 093/107] fix: hlms: say so if there is no fit

---
 search/learnh/hlms.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search/learnh/hlms.cc b/search/learnh/hlms.cc
index b872364..45ba692 100644
--- a/search/learnh/hlms.cc
+++ b/search/learnh/hlms.cc
@@ -107,7 +107,8 @@ int main(int argc, const char *argv[]) {
 	}
 	sptheader(sptfile);
 
-	leastsquares(m, NFeatures, A, b, x);
+	if (!leastsquares(m, NFeatures, A, b, x))
+		fatal("The records do not determine a fit");
 
 	sptpoints(sptfile);
 	fprintf(stderr, "h=%g\ng=%g\nd=%g\nD=%g\n", x[0], x[1], x[2], x[3]);
-- 
2.43.0


From c8f53bb69e254c78e4ccc8518e3d567fec2059b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:45 +0000
Subject: [PATCH 094/107] fix: dtastar-dump: sample with the heuristic the
 look-ahead began with

---
 search/dtastar-dump.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 0d3b426..c93bdac 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -423,10 +423,13 @@ private:
  
 		for (unsigned long depth = 1; depth <= horizon; depth++) {
 
+			// The look-ahead may raise the root's heuristic.
+			double h = root->horig;
+
 			alpha = std::numeric_limits<double>::infinity();
-			dfs(d, a, root->horig, root->horig, depth);
-			assert (alpha + geom2d::Threshold >= root->horig);
-			dfrow(stdout, "sample", "gug", root->horig, depth, alpha);
+			dfs(d, a, h, h, depth);
+			assert (alpha + geom2d::Threshold >= h);
+			dfrow(stdout, "sample", "gug", h, depth, alpha);
 		}
 	} 
 
-- 
2.43.0


From 94123a0e80ce9bf071f9bd47348b131ed4f9481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:49 +0000
Subject: [PATCH 095/107] fix: dtastar: an expanded goal stays on the fringe
 that is learned from

---
 search/dtastar.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index 88dadab..1974ec9 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -262,6 +262,8 @@ private:
 				if (n->node->isgoal) {
 					assert (goal);
 					assert (goal == n || geom2d::doubleeq(goal->g, n->g));
+					goal = n;
+					open.push(n);	// it still bounds what is learned
 					break;
 				}
 
-- 
2.43.0


From 0afbd8ad44034030d3a7db4ca61c18b0bd9ab4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:22 +0000
Subject: [PATCH 096/107] fix: dtastar: bins end at the largest value sampled

---
 search/dtastar.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index 1974ec9..aab32a5 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -626,13 +626,10 @@ private:
 		bool go = false;
 		unsigned int f0 = fbin(fbeta);
 
-		// maximum f value among the nodes that could ever be in the set M.
-		unsigned int realmaxf = ceil(nodes.back()->f);
-
 		// mintab caches the previous min n∈N of Q_n^d(x) for each d, f value
 		// so that they don't have to be recomputed each time we grow M.
 		std::vector<double> mintab;
-		mintab.resize((maxdepth+1)*(realmaxf+1), std::numeric_limits<double>::infinity());
+		mintab.resize((maxdepth+1)*Nbins, std::numeric_limits<double>::infinity());
 
 		unsigned int mlast = 0;
 		while (msize < nodes.size()) {
@@ -654,13 +651,13 @@ private:
 
 				for (unsigned int f = f0; f < f1; f++) {
 					// Seed min with min over the previous, smaller M set.
-					double min = mintab.at(d*(realmaxf+1) + f);
+					double min = mintab.at(d*Nbins + f);
 
 					// Just update min using the new elements in M.
 					// Except on the first iteration, mlast = msize-1.
 					for (unsigned int i = mlast; i < msize; i++) {
-						unsigned int h = hbin(std::min(nodes[i]->node->h, hmax));
-						unsigned int fixedf = std::min(f - nodes[i]->g, fmax);
+						unsigned int h = hbin(nodes[i]->node->h);
+						unsigned int fixedf = fbin(std::max(f - nodes[i]->g, 0.0));
 
 						double p = q[h][d][fixedf];
 						min = std::min(min, p);
@@ -669,7 +666,7 @@ private:
 						}
 					}
 
-					mintab.at(d*(realmaxf+1)+f) = min;
+					mintab.at(d*Nbins + f) = min;
 
 					sum += min;
 					if (sum >= cost) {
@@ -773,11 +770,11 @@ if (f < h) fprintf(stderr, "f=%g (%u), h=%g (%u)\n", r.f, f, r.h, h);
 	}
 
 	unsigned int hbin(double h) const {
-		return std::max(h, hmax);
+		return std::min(h, hmax);
 	}
 
 	unsigned int fbin(double f) const {
-		return std::max(f, fmax);
+		return std::min(f, fmax);
 	}
 
 	std::vector<DtastarRow> rows;
-- 
2.43.0


From 245364acccefb5868a0ec0521949d7dfc2470a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:06 +0000
Subject: [PATCH 097/107] fix: dtastar: the first goal expanded need not be the
 cheapest

---
 search/dtastar.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index aab32a5..cdf9365 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -261,7 +261,8 @@ private:
 
 				if (n->node->isgoal) {
 					assert (goal);
-					assert (goal == n || geom2d::doubleeq(goal->g, n->g));
+					// h may overestimate, so a cheaper goal may be left.
+					assert (goal->g <= n->g + geom2d::Threshold);
 					goal = n;
 					open.push(n);	// it still bounds what is learned
 					break;
-- 
2.43.0


From c367cfa23c152af95311f083bfb09203722402b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:23 +0000
Subject: [PATCH 098/107] fix: visnav: an obstacle that is thin and near to the
 end of an edge blocks it too

---
 visnav/visgraph.cc | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/visnav/visgraph.cc b/visnav/visgraph.cc
index 1c8b2ae..3234729 100644
--- a/visnav/visgraph.cc
+++ b/visnav/visgraph.cc
@@ -182,6 +182,28 @@ void VisGraph::visedges() {
 	}
 }
 
+// clearend returns true if the piece of an edge from its end, v, to a point
+// that is near to it crosses no side but those on which the end itself is.
+static bool clearend(const geom2d::Poly &poly, const geom2d::Pt &v, const geom2d::Pt &p) {
+	geom2d::LineSg piece(v, p);
+	for (unsigned int i = 0; i < poly.sides.size(); i++) {
+		const geom2d::LineSg &side = poly.sides[i];
+		if (v == side.p0 || v == side.p1 || (side.contains(v) && side.within(v)))
+			continue;
+		if (piece.hits(side))
+			return false;
+	}
+	return true;
+}
+
+static bool clearend(const PolyMap &map, const geom2d::Pt &v, const geom2d::Pt &p) {
+	for (unsigned int i = 0; i < map.polys.size(); i++) {
+		if (!clearend(map.polys[i], v, p))
+			return false;
+	}
+	return !map.bound || clearend(*map.bound, v, p);
+}
+
 void VisGraph::consideredge(unsigned int i, unsigned int j) {
 	geom2d::LineSg ray(verts[i].pt, verts[j].pt);
 	double len = ray.length();
@@ -194,7 +216,8 @@ void VisGraph::consideredge(unsigned int i, unsigned int j) {
 	if (j < polyno.size() && map.polys[polyno[j]].contains(p1))
 		return;
 
-	if (map.isvisible(p0, p1))
+	if (map.isvisible(p0, p1) && clearend(map, verts[i].pt, p0) &&
+			clearend(map, verts[j].pt, p1))
 		addedge(i, j);
 }
 
-- 
2.43.0


From 9ff552782eed9cc0aac32c9f0bd9b23402860d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:45 +0000
Subject: [PATCH 099/107] fix: search: a limit's time is not up when a new
 search starts

---
 search/search.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/search.cc b/search/search.cc
index df641bb..9eea519 100644
--- a/search/search.cc
+++ b/search/search.cc
@@ -96,6 +96,7 @@ void Limit::timelimit(const char *tstr) {
 }
 
 void Limit::start() {
+	timeup = 0;
 	if (walltime == 0 && cputime == 0)
 		return;
 	if (!timed)
-- 
2.43.0


From f5345b78bb1d9c04c7a5fd52f52c29f6e3919260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:40 +0000
Subject: [PATCH 100/107] fix: lsslrtastar: keep the times of the cached
 look-ahead table exact

---
 search/lsslrtastar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 4954c3a..bf30548 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -709,7 +709,7 @@ continue;
 			fatalx(errno, "Failed to open %s for writing", path.c_str());
 		fprintf(f, "%u\n", (unsigned int) lsstable.size());
 		for (auto e : lsstable)
-			fprintf(f, "%u %f\n", e.size, e.maxTime);
+			fprintf(f, "%u %.17g\n", e.size, e.maxTime);
 		fclose(f);
 	}
 
-- 
2.43.0


From b6408230fdf10999bf00fc18feba3bc1b98ed2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:27 +0000
Subject: [PATCH 101/107] fix: real-time searches: a reset forgets the
 deadlines of the search before

---
 search/dtastar-dump.hpp | 1 +
 search/dtastar.hpp      | 1 +
 search/fhatlrtastar.hpp | 1 +
 search/lsslrtastar.hpp  | 9 +++++++++
 4 files changed, 12 insertions(+)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index c93bdac..b8bf035 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -197,6 +197,7 @@ public:
 
 	void reset() {
 		SearchAlgorithm<D>::reset();
+		lsslim->reset();
 		nodes.clear();
 		lssOpen.clear();
 		for (auto n : lssNodes)
diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index cdf9365..df769d8 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -458,6 +458,7 @@ public:
 
 	void reset() {
 		SearchAlgorithm<D>::reset();
+		lsslim->reset();
 		steps.clear();
 		secpergen = 0;
 		avgmeta = 0;
diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index e684910..f94e68e 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -186,6 +186,7 @@ public:
 
 	void reset() {
 		SearchAlgorithm<D>::reset();
+		lsslim->reset();
 		nodes.clear();
 		lssOpen.clear();
 		for (auto n : lssNodes)
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index bf30548..13f174f 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -15,6 +15,9 @@ public:
 	virtual bool stop() = 0;
 	virtual void output(FILE *out) const = 0;
 
+	// reset forgets about any previous search.
+	virtual void reset() { }
+
 	static LookaheadLimit *fromArgs(int argc, const char *argv[]);
 };
 
@@ -212,6 +215,7 @@ public:
 
 	void reset() {
 		SearchAlgorithm<D>::reset();
+		lsslim->reset();
 		nodes.clear();
 		lssOpen.clear();
 		for (auto n : lssNodes)
@@ -748,6 +752,11 @@ continue;
 		return n++ >= lim;
 	}
 
+	virtual void reset() {
+		deadline = 0;
+		missed = 0;
+	}
+
 	virtual void output(FILE *out) const {
 		dfpair(out, "limit type", "%s", "dynamic limit");
 		dfpair(out, "initial lookahead", "%u", lim0);
-- 
2.43.0


From 2c9229730daf74df7484dd65aa56c53dfb0d56be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:35 +0000
Subject: [PATCH 102/107] fix: real-time searches: the mean time of a step is
 that of all steps

The time of the first step was left out of the sum and counted in the number,
so the mean was below the shortest step.
---
 search/dtastar.hpp      | 2 +-
 search/fhatlrtastar.hpp | 4 ++--
 search/lsslrtastar.hpp  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index df769d8..62ff349 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -493,7 +493,7 @@ public:
 			dfpair(out, "first emit wall time", "%f", steps.front().time);
 			dfpair(out, "min step wall time", "%f", mint);
 			dfpair(out, "max step wall time", "%f", maxt);
-			dfpair(out, "mean step wall time", "%f", (steps.back().time-steps.front().time)/steps.size());
+			dfpair(out, "mean step wall time", "%f", steps.back().time/steps.size());
 			dfpair(out, "min step length", "%u", minl);
 			dfpair(out, "max step length", "%u", maxl);
 			dfpair(out, "mean step length", "%g", nmoves / (double) steps.size());
diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index f94e68e..58f777f 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -261,11 +261,11 @@ public:
 			dfpair(out, "first emit wall time", "%f", times.front());
 			dfpair(out, "min step wall time", "%f", min);
 			dfpair(out, "max step wall time", "%f", max);
-			dfpair(out, "mean step wall time", "%f", (times.back()-times.front())/times.size());
+			dfpair(out, "mean step wall time", "%f", times.back()/times.size());
 			dfpair(out, "first emit cpu time", "%f", cputimes.front());
 			dfpair(out, "min step cpu time", "%f", cpumin);
 			dfpair(out, "max step cpu time", "%f", cpumax);
-			dfpair(out, "mean step cpu time", "%f", (cputimes.back()-cputimes.front())/cputimes.size());
+			dfpair(out, "mean step cpu time", "%f", cputimes.back()/cputimes.size());
 		}
 		if (lengths.size() != 0) {
 			unsigned int min = lengths.front();
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 13f174f..57ec98c 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -289,11 +289,11 @@ public:
 			dfpair(out, "first emit wall time", "%f", times.front());
 			dfpair(out, "min step wall time", "%f", min);
 			dfpair(out, "max step wall time", "%f", max);
-			dfpair(out, "mean step wall time", "%f", (times.back()-times.front())/times.size());
+			dfpair(out, "mean step wall time", "%f", times.back()/times.size());
 			dfpair(out, "first emit cpu time", "%f", cputimes.front());
 			dfpair(out, "min step cpu time", "%f", cpumin);
 			dfpair(out, "max step cpu time", "%f", cpumax);
-			dfpair(out, "mean step cpu time", "%f", (cputimes.back()-cputimes.front())/cputimes.size());
+			dfpair(out, "mean step cpu time", "%f", cputimes.back()/cputimes.size());
 		}
 
 		if (lengths.size() != 0) {
-- 
2.43.0


From 658b5124414a6e206a5847f41059dd40f09a94b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:07 +0000
Subject: [PATCH 103/107] fix: gridnav/draw: name the map that cannot be opened

---
 gridnav/draw.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/draw.cc b/gridnav/draw.cc
index f04b0ff..faa5667 100644
--- a/gridnav/draw.cc
+++ b/gridnav/draw.cc
@@ -25,7 +25,7 @@ int main(int argc, char *argv[]) {
 	if (mappath != NULL) {
 		mapfile = fopen(mappath, "r");
 		if (!mapfile)
-			fatalx(errno, "Failed to open %s for reading", mapfile);
+			fatalx(errno, "Failed to open %s for reading", mappath);
 	} else {
 		mappath = "<untitled>";
 	}
-- 
2.43.0


From bf1e1182272e6ff9a7e7f8f2df5bf507fe7614e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:39 +0000
Subject: [PATCH 104/107] fix: gridnav/scenario2rdb: a scenario file that
 cannot be opened is reported as such

---
 gridnav/scenario2rdb.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridnav/scenario2rdb.cc b/gridnav/scenario2rdb.cc
index 197eb08..87f9445 100644
--- a/gridnav/scenario2rdb.cc
+++ b/gridnav/scenario2rdb.cc
@@ -10,7 +10,9 @@ int main(int argc, char *argv[]) {
 		fatal("usage: scenario2rdb <rdb root> <scenario file>");
 
 	std::ifstream in(argv[2]);
-	
+	if (!in)
+		fatalx(errno, "Failed to open %s for reading", argv[2]);
+
 	std::string verstr;
 	unsigned int vernum;
 	in >> verstr >> vernum;
-- 
2.43.0


From f050d3497699afd95bfe4e182a8e6409582dac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:06 +0000
Subject: [PATCH 105/107] fix: dtastar: the mean number of meta-level problems
 starts at zero

---
 search/dtastar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index 62ff349..4c25936 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -399,6 +399,7 @@ public:
 
 	Dtastar(int argc, const char *argv[]) :
 		SearchAlgorithm<D>(argc, argv),
+		avgmeta(0),
 		secpergen(0),
 		graph(*this, 30000001),
 		wf(0),
-- 
2.43.0


From 2ed3e1e2ba90f401255409fa808e0f81281abf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:04 +0000
Subject: [PATCH 106/107] fix: rdb/addattrs: attributes are added to a datafile
 without any, too

---
 rdb/addattrs.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rdb/addattrs.cc b/rdb/addattrs.cc
index d5145df..4540f4c 100644
--- a/rdb/addattrs.cc
+++ b/rdb/addattrs.cc
@@ -39,10 +39,9 @@ int main(int argc, const char *argv[]) {
 		fatalx(errno, "Failed to open %s for writing", outfile.c_str());
 
 	boost::optional<std::string> l = readline(fin);
-	bool added = false;
-	while (l) {
-		if (!added && hasprefix(l->c_str(), "#pair")) {
-			added = true;
+	while (l || attrs.size() > 0) {
+		// Before the first pair, or else at the end of the file.
+		if (!l || hasprefix(l->c_str(), "#pair") || hasprefix(l->c_str(), "#end")) {
 			while (attrs.size() > 0) {
 				std::string key = attrs.front();
 				std::string val = attrs.lookup(key);
@@ -50,6 +49,8 @@ int main(int argc, const char *argv[]) {
 				dfpair(fout, key.c_str(), "%s", val.c_str());
 			}
 		}
+		if (!l)
+			break;
 		fputs((*l + '\n').c_str(), fout);
 		l = readline(fin);
 	}
-- 
2.43.0


From 3a33e2075fdda166046f14d8dd13b01b26f68929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:01:58 +0000
Subject: [PATCH 107/107] fix: fileexists, isdir: a path below a file does not
 exist

---
 utils/fs.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/fs.cc b/utils/fs.cc
index e9f61cb..62f085a 100644
--- a/utils/fs.cc
+++ b/utils/fs.cc
@@ -67,7 +67,7 @@ std::vector<std::string> readdir(std::string path, bool concat) {
 bool fileexists(const std::string &path) {
 	struct stat sb;
 	if (stat(path.c_str(), &sb) == -1) {
-		if (errno == ENOENT)
+		if (errno == ENOENT || errno == ENOTDIR)
 			return false;
 		fatalx(errno, "failed to stat %s", path.c_str());
 	}
@@ -77,7 +77,7 @@ bool fileexists(const std::string &path) {
 bool isdir(const std::string &path) {
 	struct stat sb;
 	if (stat(path.c_str(), &sb) == -1) {
-		if (errno == ENOENT)
+		if (errno == ENOENT || errno == ENOTDIR)
 			return false;
 		fatalx(errno, "failed to stat %s", path.c_str());
 	}
-- 
2.43.0

