From 8dae238eb27f66b2bf66d36b2d78fe62af864ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 01/19] fix: B&B must re-explore a known state that is reached
 with a better bound

cloneNode dropped every state it had seen before, whatever its bound, so a
better path to that state was lost and the search could miss the optimum.
---
 src/dd.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 40191f2..5d8978f 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -344,7 +344,7 @@ struct Maximize {
 };
 
 
-template <typename ST> requires Printable<ST> && Hashable<ST>
+template <typename ST,class Compare> requires Printable<ST> && Hashable<ST>
 class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
@@ -367,7 +367,10 @@ public:
          }
       } else {
          //std::cout << "Already added node to B&B...." << "\n";         
-         return nullptr;
+         if (!Compare{}.better(sp->getBound(),at->getBound()))
+            return nullptr;
+         at->resetWith(sp); // known state, but reached with a better bound: must be (re)explored.
+         return at;
       }
    }
    void release(ANode::Ptr src) override {
@@ -573,7 +576,7 @@ public:
       return AbstractDD::Ptr(new DD(std::forward<Args>(args)...));
    }
    AbstractNodeAllocator::Ptr makeNDAllocator() const noexcept {
-      return std::shared_ptr<DDNodeAllocator<ST>>(new DDNodeAllocator<ST>(new LPool(new Pool)));
+      return std::shared_ptr<DDNodeAllocator<ST,Compare>>(new DDNodeAllocator<ST,Compare>(new LPool(new Pool)));
    }
    void printNode(std::ostream& os,ANode::Ptr n) const {
       auto sp = static_cast<const Node<ST>*>(n.get());
-- 
2.43.0


From 0fcbece33c6f7bf21dab524dd27953b5abc7be0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 02/19] fix: B&B must requeue the node whose cutset is its own
 root after widening

The root of the relaxed DD has the state of the B&B node being expanded, so
cloneNode never returned it and the whole subproblem was dropped.
---
 src/search.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/search.cpp b/src/search.cpp
index a06a2aa..f2c33e0 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -126,6 +126,8 @@ void BAndB::search(Bounds& bnds)
                   auto w = ddr[0]->getWidth() + 1;
                   ddr[0]->setWidth(w);
                   std::cout << "\t-->widening... " << w << " CUTSET SIZE:" << cutSet.size() <<  "\n";
+                  pq.insertHeap(QNode {bbn.node, curDual}); // same node, to be tried again with that width
+                  continue;
                }
                // use the bound in n (the ones in nd are _reset_ when duplicate occurs????)
                bool newGuyDominated = false;
-- 
2.43.0


From b500f175106164d012c910a82fb262d537bf4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 03/19] fix: solutions made of exact nodes only must not be
 lost by a relaxed DD

The cutset of a relaxed DD never contains the sink nor represents a path that
visits exact nodes only. Such a path is a solution: offer it as incumbent.
---
 src/dd.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dd.hpp b/src/dd.hpp
index 5d8978f..544593e 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -439,6 +439,21 @@ private:
          bnds.setIncumbent(_trg->beginOptLabels(),_trg->endOptLabels());
          std::cout <<  std::setprecision(6) << "D TIGHTEN: " << bnds << "\n";
       }
+      else if (_strat->dual()) {
+         // A path through exact nodes only is a solution, and no node of the cutset represents it.
+         for(auto pi = _trg->beginPar();pi != _trg->endPar();pi++) {
+            Edge::Ptr e = *pi;
+            const auto ep = e->_from->getBound() + e->_obj;
+            if (e->_from->isExact() && isBetter(ep,bnds.getPrimal())) {
+               std::vector<int> sol;
+               for(auto l : e->_from->getIncumbent())
+                  sol.push_back(l);
+               sol.push_back(e->_lbl);
+               bnds.setPrimal(ep);
+               bnds.setIncumbent(sol.begin(),sol.end());
+            }
+         }
+      }
    }
    ANode::Ptr hasNode(const ST& state) {
       Node<ST>* at = nullptr;
-- 
2.43.0


From 56ee1f578b2849ec6433187a2b2e0f64be19f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 04/19] fix: equal GNSets must have equal hash codes, whatever
 their capacity

---
 src/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 1a7341e..79c3ca0 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -738,7 +738,9 @@ public:
   }
    std::size_t hash() const noexcept {
       std::size_t hv = 0;
-      for(auto i = 0;i < _mxw;i++)
+      int nw = _mxw;
+      while (nw > 0 && _t[nw-1]==0) --nw; // == ignores the capacity. So must the hash.
+      for(auto i = 0;i < nw;i++)
          hv = std::rotl(hv,2) ^ _t[i];
       return hv;
    }   
-- 
2.43.0


From d9b9bd6b67ebf41e041628cac1db326b2ece96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 05/19] fix: GNSet::removeAbove must go by the words of the
 set, not by _nbp

_nbp is not maintained by unionWith, so values were left in the set; and
with p+1 == _nbp == 64*_mxw it wrote one word past the end.
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 79c3ca0..21eafd6 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -609,7 +609,7 @@ public:
    }
    void removeAbove(int p) noexcept {
       int w = ++p >> 6;
-      if (p > _nbp) return;
+      if (w >= _mxw) return;
       assert(w >= 0 && w < _mxw);
       const int b = p & 63;
       _t[w] = _t[w] & ((1ull << b) - 1);
-- 
2.43.0


From 178764ea54244174ca3cc35d25745eccbb0d6272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 06/19] fix: GNSet::insert must terminate on a set that has no
 word yet

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 21eafd6..563d64f 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -546,7 +546,7 @@ public:
       const int i = p >> 6;
       const auto old = _mxw;
       if (i >= _mxw) {
-         while(i >= _mxw) _mxw <<= 1;
+         while(i >= _mxw) _mxw = _mxw ? _mxw << 1 : 1;
          auto np = new unsigned long long[_mxw];
          for(int i=0;i < old;i++)
             np[i] = _t[i];
-- 
2.43.0


From 23272e43a8a6f7c8e48c7a4960532cca3b4d76a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 07/19] fix: NatSet reflection must neither shift by 64 nor
 zero words it still has to read

---
 src/util.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 563d64f..5f14269 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -210,7 +210,7 @@ public:
          //std::cout << "MOVE Down=" << x << " lw:" << lw << "\n";
          unsigned long long nt[nbw] = {0}; 
          for(int i=0;i <= std::min(lw,nbw-1);i++) {
-            auto next =  (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (x+1))-1); // get the next block to inject here.
+            auto next =  (i+1==nbw) ? 0 : _t[i+1] & ((1ull << x)-1); // get the next block to inject here.
             nt[i] = (_t[i] >> x) | (next << (64 - x));
          }
          for(int i=0;i < nbw;i++) _t[i] = nt[i];         
@@ -226,9 +226,8 @@ public:
             assert(lw < nbw); // by definition, it's at most the index of the last word (1 less than size)
             unsigned long long nt[nbw] = {0}; 
             for(int i=0;i <= lw;i++) {
-               auto next = (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (by+1))-1);
+               auto next = (i+1==nbw) ? 0 : _t[i+1] & ((1ull << by)-1);
                nt[i+delta] = (_t[i] >> by) | (next << (64 - by));
-               for(int j=i;j < i+delta;j++) _t[j] = 0;
             }
             for(int i=0;i < nbw;i++) _t[i] = nt[i];
          } else if (by < 0) {
-- 
2.43.0


From 5818d3d617e21acbdb444f44df78ca635fb80be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 08/19] fix: a moved-from GNSet must be empty, not claim words
 it no longer has

---
 src/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.hpp b/src/util.hpp
index 5f14269..cb04257 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -441,6 +441,7 @@ public:
       _nbp = s._nbp;
       _t = s._t;
       s._t = nullptr;      
+      s._mxw = s._nbp = 0;
    }
    template <unsigned short nbw> GNSet(const NatSet<nbw>& s) {     
       _mxw = nbw;
@@ -520,6 +521,7 @@ public:
       _nbp = s._nbp;
       _t = s._t;
       s._t = nullptr;
+      s._mxw = s._nbp = 0;
       return *this;
    }
    short nbWords() const noexcept { return _mxw;}
-- 
2.43.0


From 87ee4673d0fdf7f7d1769797da7b481d85896a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 09/19] fix: a moved-from FArray must be empty, not claim cells
 it no longer has

---
 src/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.hpp b/src/util.hpp
index cb04257..f488529 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -934,6 +934,7 @@ public:
    }
    FArray(FArray&& t) : _tab(t._tab),_mx(t._mx) {
       t._tab = nullptr;
+      t._mx = 0;
    }
    ~FArray() { if (_tab) delete[] _tab;}
    FArray& operator=(const FArray& t) {
@@ -951,6 +952,7 @@ public:
       _mx = a._mx;
       _tab = a._tab;
       a._tab = nullptr;
+      a._mx = 0;
       return *this;
    }
    std::size_t size() const noexcept { return _mx;}
-- 
2.43.0


From 0bdbae65f9b1e69b04bf776c97ba1ac0c7fed8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 10/19] fix: UnionFind::merge must return the representative of
 the merged set

---
 src/uf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uf.hpp b/src/uf.hpp
index 5e3d109..3a29736 100644
--- a/src/uf.hpp
+++ b/src/uf.hpp
@@ -54,6 +54,7 @@ public:
       } else {
          r0->_parent = r1;
          r1->_sz += r0->_sz;
+         return r1;
       }
       return r0;
    }   
-- 
2.43.0


From d78aa5d155d77eabb20e8f33e728a39fa37ed2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 11/19] fix: the sink is not a newly created node, even while
 it has no parent

When it was dominated, an unrelated node was taken off the list of nodes.
---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index f0f42a7..9052167 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -423,7 +423,7 @@ void Restricted::compute(Bounds& bnds)
                bool newNode = child->nbParents()==0; // is this a newly created node?
                auto theCost = _dd->cost(p,l);
                auto ep = p->getBound() + theCost;
-               if (hasDom && newNode) {
+               if (hasDom && newNode && child != _dd->_trg) {
                   auto dominator = checkDominance(qn,child,ep);
                   if (dominator) {
                      _dd->_an.pop_back();
@@ -702,7 +702,7 @@ void Relaxed::compute(Bounds& bnds)
                bool newNode = child->nbParents()==0; // is this a newly created node?
                auto theCost = _dd->cost(p,l);
                auto ep = p->getBound() + theCost;
-               if (hasDom && newNode) {
+               if (hasDom && newNode && child != _dd->_trg) {
                   auto dominator = qn.checkDominance(child,ep);
                   if (dominator) {
                      // ANode::Ptr justAdded = _dd->_an.back();
-- 
2.43.0


From 693fb1079c472cd278937142c897b3f736e45bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 12/19] fix: the callback B&B leaves in Bounds must not refer
 to a dead local

---
 src/search.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index f2c33e0..94d6abe 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -28,10 +28,10 @@ void BAndB::search(Bounds& bnds)
    auto last = start;
    cout << "B&B searching..." << endl;
    bnds.attach(_theDD);
-   double optTime = 0.0;
-   bnds.onSolution([ss,start,&optTime](const auto& lbls) {
-      optTime = RuntimeMonitor::elapsedSince(start);
-      std::cout << "TIME:" << setprecision(ss) << optTime << "\n";
+   auto optTime = std::make_shared<double>(0.0); // bnds (hence the callback) outlives the search
+   bnds.onSolution([ss,start,optTime](const auto& lbls) {
+      *optTime = RuntimeMonitor::elapsedSince(start);
+      std::cout << "TIME:" << setprecision(ss) << *optTime << "\n";
    });
    AbstractDD::Ptr relaxed = _theDD->duplicate();
    AbstractDD::Ptr restricted = _theDD->duplicate();
@@ -193,7 +193,7 @@ void BAndB::search(Bounds& bnds)
    auto spent = RuntimeMonitor::elapsedSince(start);
    cout << "Done(" << _mxw << "):" << bnds.getPrimal() << "\t #nodes:" <<  nNode << "/" << ttlNode
         << "\t P/D:" << pruned << "/" << insDom
-        << "\t Time:" << optTime/1000 << "/" << spent/1000 << "s"
+        << "\t Time:" << *optTime/1000 << "/" << spent/1000 << "s"
         << "\t LIM?:" << (pq.size() > 0)
         << "\t Seen:" << nbSeen
         << "\n";
-- 
2.43.0


From a543e0bc1f907d3d30f436fe22a109bf6a4fbaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 13/19] fix: display's child process must not carry on with the
 search when exec fails

---
 src/dd.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index 9052167..fd790f9 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -184,6 +184,7 @@ void AbstractDD::display()
    if (child == 0) {
       int st = execlp("dot","dot","-Tpdf","-O",buf,NULL);
       printf("execl status: %d\n",st);
+      _exit(1);
    }
    int st = 0;
    waitpid(child,&st,0);
@@ -191,6 +192,7 @@ void AbstractDD::display()
    if (child == 0) {
       execlp("open","open",base.c_str(),NULL);
       printf("execl2 status: %d\n",st);
+      _exit(1);
    }
    //unlink(buf);
 }
-- 
2.43.0


From 3b9fd24d049e1f1d57d6b4eda603072d87850bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:04 +0000
Subject: [PATCH 14/19] fix: iterating a GNSet with no word must visit nothing,
 even if it was copied

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index f488529..212f015 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -643,7 +643,7 @@ public:
       unsigned long long    _cw; // current word
       iterator(unsigned long long* t,unsigned short nbw,unsigned short at)
          : _t(t),_nbw(nbw),_cwi(at),_cw((at < nbw) ? t[at] : 0) {
-         while (_cw == 0 && _t && ++_cwi < _nbw) 
+         while (_cw == 0 && _cwi < _nbw && ++_cwi < _nbw) 
             _cw = _t[_cwi];         
       }
       iterator(unsigned long long* t,unsigned short nbw)
-- 
2.43.0


From 79fe8505c5ba42e8de1db25b4a0c323ffd0ce6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:21 +0000
Subject: [PATCH 15/19] fix: iterating over a set yields ints, so that elements
 from 32768 on are not negative

---
 src/util.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 212f015..1345faa 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -327,10 +327,10 @@ public:
       iterator(const unsigned long long* t) : _t(t),_cwi(nbw),_cw(0) {} // end constructor
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
-      using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using value_type = int;
+      using difference_type = int;
+      using pointer = int*;
+      using reference = int&;
       iterator& operator++()  noexcept {
          assert(_cwi >= nbw || _cw <= _t[_cwi]);
          long long test = _cw & -_cw;  // only leaves LSB at 1
@@ -344,7 +344,7 @@ public:
       iterator operator++(int) { iterator retval = *this; ++(*this); return retval;}
       bool operator==(iterator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(iterator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class NatSet;
    };
    class citerator { 
@@ -360,10 +360,10 @@ public:
       citerator(const unsigned long long* t) : _t(t),_cwi(nbw),_cw(0) {} // end constructor
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
-      using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using value_type = int;
+      using difference_type = int;
+      using pointer = int*;
+      using reference = int&;
       citerator& operator++()  noexcept {
          long long test = _cw & -_cw;  // only leaves LSB at 1
          _cw ^= test;                  // clear LSB
@@ -374,7 +374,7 @@ public:
       citerator operator++(int) { citerator retval = *this; ++(*this); return retval;}
       bool operator==(citerator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(citerator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class NatSet;
    };
    iterator begin() const { return iterator(_t,0);}
@@ -657,10 +657,10 @@ public:
       }
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
-      using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using value_type = int;
+      using difference_type = int;
+      using pointer = int*;
+      using reference = int&;
       iterator& operator++()  noexcept {
          long long test = _cw & -_cw;  // only leaves LSB at 1
          _cw ^= test;                  // clear LSB
@@ -671,7 +671,7 @@ public:
       iterator operator++(int) { iterator retval = *this; ++(*this); return retval;}
       bool operator==(iterator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(iterator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class GNSet;
    };
    iterator begin() const { return iterator(_t,_mxw,0);}
-- 
2.43.0


From f30ae75e48595b3633a02d369a6549986f6f28e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 16/19] fix: Range::contains agrees with the half-open range
 that iteration visits, in both directions

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 1345faa..d436908 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -100,7 +100,7 @@ public:
    Range(int f,int t) : _from(f),_to(t) {}
    Range(Range&& r) : _from(r._from),_to(r._to) {}
    Range(const Range& r) : _from(r._from),_to(r._to) {}
-   bool contains(int p) const noexcept { return _from <= p && p <= _to;}
+   bool contains(int p) const noexcept { return (_from <= _to) ? _from <= p && p < _to : _to < p && p <= _from;}
    int size() const noexcept { return (_to >= _from) ? _to - _from : _from - _to;}
    auto largest() const noexcept { return (_to >= _from) ? _to : _from;}
    auto from() const noexcept  { return _from;}
-- 
2.43.0


From 8fdf3d00b472c6a161809ece36642185e7bc7270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 17/19] fix: flipping a descending range yields the same values
 in ascending order

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index d436908..67e6cd3 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -105,7 +105,7 @@ public:
    auto largest() const noexcept { return (_to >= _from) ? _to : _from;}
    auto from() const noexcept  { return _from;}
    auto to() const noexcept    { return _to;}
-   auto flip() const noexcept  { return Range(_to -1,_from-1);}
+   auto flip() const noexcept  { return (_from <= _to) ? Range(_to -1,_from-1) : Range(_to +1,_from+1);}
    auto begin() const noexcept { return iterator(_from <= _to ? Forward : Backward,_from); }
    auto end() const  noexcept  { return iterator(_from <= _to ? Forward : Backward,_to); }
    static Range open(int f,int t) noexcept  { return Range(f,t);}
-- 
2.43.0


From 4a99bee50ba7cf6163d7bbe78e54f892d6e10b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 18/19] fix: a hash table requested smaller than the smallest
 prime must not read before the table of primes

---
 src/hashtable.hpp | 4 ++--
 src/lighthash.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hashtable.hpp b/src/hashtable.hpp
index cf5e39a..fd6f9b3 100644
--- a/src/hashtable.hpp
+++ b/src/hashtable.hpp
@@ -55,7 +55,7 @@ template <class K,class T,class Hash = std::hash<K>,class Equal = std::equal_to<
 public:
    Hashtable(Pool::Ptr p,std::size_t sz) : _pool(p) {
       constexpr const std::size_t tsz = sizeof(_primes)/sizeof(std::size_t);
-      std::size_t low=0,up = tsz - 1;
+      long low=0,up = tsz - 1; // signed: up becomes -1 when sz is below the smallest prime
       while (low <= up) {
          int m = (low + up)/2;
          if (sz < _primes[m])
@@ -67,7 +67,7 @@ public:
             break;
          }
       }
-      _mxs = low >= tsz ? _primes[tsz-1] :  _primes[low];
+      _mxs = low >= (long)tsz ? _primes[tsz-1] :  _primes[low];
       std::cout << "sz(Hashtable):" << _mxs << '\n';
       _tab = new (_pool) HTNode*[_mxs];
       _mgc = new (_pool) unsigned[_mxs];
diff --git a/src/lighthash.hpp b/src/lighthash.hpp
index a7091e1..b48256a 100644
--- a/src/lighthash.hpp
+++ b/src/lighthash.hpp
@@ -55,7 +55,7 @@ template <class ST,class Hash = std::hash<ST>,class Equal = std::equal_to<ST>> c
 public:
    LHashtable(Pool::Ptr p,std::size_t sz) : _pool(p) {
       constexpr const std::size_t tsz = sizeof(_primes)/sizeof(std::size_t);
-      std::size_t low=0,up = tsz - 1;
+      long low=0,up = tsz - 1; // signed: up becomes -1 when sz is below the smallest prime
       while (low <= up) {
          int m = (low + up)/2;
          if (sz < _primes[m])
@@ -67,7 +67,7 @@ public:
             break;
          }
       }
-      _mxs = low >= tsz ? _primes[tsz-1] :  _primes[low];
+      _mxs = low >= (long)tsz ? _primes[tsz-1] :  _primes[low];
       std::cout << "sz(LightHashtable):" << _mxs << '\n';
       _tab = new (_pool) HTNode*[_mxs];
       _mgc = new (_pool) unsigned[_mxs];
-- 
2.43.0


From bd26b7030e3686ace6e223dc324817f8e0e23fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 19/19] fix: what lies below a node that loses its exactness
 after it was expanded is not exact either

---
 src/dd.cpp   |  1 +
 src/dd.hpp   |  2 ++
 src/node.cpp | 12 ++++++++++++
 src/node.hpp |  1 +
 4 files changed, 16 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index fd790f9..8f8423c 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -495,6 +495,7 @@ NDAction Relaxed::mergePair(ANode::Ptr mNode,ANode::Ptr toMerge[2])
    const bool sameLayer = mNode->getLayer() == toMerge[0]->getLayer(); // layer not changing?
    mNode->setLayer(std::max(mNode->getLayer(),toMerge[0]->getLayer()));// possibly set layer
    mNode->setExact(false); // surely inexact now 
+   mNode->inexactBelow();  // it may have been expanded already
    _dd->_exact = false;    // DD inexact as well
    bool addIt = false;
    for(auto i = 0; i < 2;i++) {
diff --git a/src/dd.hpp b/src/dd.hpp
index 544593e..88f4729 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -465,6 +465,8 @@ private:
       auto inMap = _nmap.getLoc(state,at);
       if (inMap) {
          at->setExact(at->isExact() & pExact);
+         if (!at->isExact())
+            at->inexactBelow(); // it may have been expanded already
          if (at->nbParents() == 0 && at != _root && at != _trg) {
             _an.push_back(at); // The node was created but later removed. Put it back!
             at->setBound(initialBest()); // it was deleted... so bound is reset now.
diff --git a/src/node.cpp b/src/node.cpp
index 4e968b1..ff8c14f 100644
--- a/src/node.cpp
+++ b/src/node.cpp
@@ -75,3 +75,15 @@ void ANode::disconnect()
    }
    _children.clear();
 }
+
+// This node is not exact, hence no node below it is.
+void ANode::inexactBelow() noexcept
+{
+   for(auto e : _children) {
+      ANode::Ptr kid = e->_to;
+      if (kid->isExact()) {
+         kid->setExact(false);
+         kid->inexactBelow();
+      }
+   }
+}
diff --git a/src/node.hpp b/src/node.hpp
index 2117f0d..9e21e1c 100644
--- a/src/node.hpp
+++ b/src/node.hpp
@@ -94,6 +94,7 @@ public:
    }
    const auto getId() const noexcept { return _nid;}
    void disconnect();
+   void inexactBelow() noexcept;
    friend std::ostream& operator<<(std::ostream& os,const ANode& s);
    friend std::ostream& operator<<(std::ostream& os,const ANList& v);
 };
-- 
2.43.0

