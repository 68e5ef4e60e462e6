// Instantiation unit: names every template of ldmbouge/CODD that the analysis
// looks at, with user supplied callbacks that are declared but never defined,
// so that in the IR each call of user code is a direct call with a known name.
#include "codd.hpp"
#include "util.hpp"
#include "vec.hpp"
#include "heap.hpp"
#include "queue.hpp"
#include "hashtable.hpp"
#include "lighthash.hpp"
#include "msort.hpp"
#include "uf.hpp"
#include "search.hpp"

#define KEEP __attribute__((used, noinline))

struct UState {
   long _k;
   UState(long k);
   UState(const UState&);
   UState(UState&&);
   UState& operator=(const UState&);
   UState& operator=(UState&&);
   ~UState();
   friend std::ostream& operator<<(std::ostream& os,const UState& s);
};
template<> struct std::equal_to<UState> { bool operator()(const UState& a,const UState& b) const; };
template<> struct std::hash<UState> { std::size_t operator()(const UState& v) const noexcept; };

struct UInit   { UState operator()() const; long pad; UInit(const UInit&); };
struct UTarget { UState operator()() const; long pad; UTarget(const UTarget&); };
struct ULgf    { GNSet operator()(const UState&) const; long pad; ULgf(const ULgf&); };
struct UStf    { std::optional<UState> operator()(const UState&,int) const; long pad; UStf(const UStf&); };
struct UStc    { double operator()(const UState&,int) const; long pad; UStc(const UStc&); };
struct USmf    { std::optional<UState> operator()(const UState&,const UState&) const; long pad; USmf(const USmf&); };
struct UEqs    { bool operator()(const UState&) const; long pad; UEqs(const UEqs&); };
typedef bool (*UDom)(const UState&,const UState&);
typedef double (*ULoc)(const UState&,LocalContext);

template class DD<UState,Maximize<double>,UTarget,ULgf,UStf,UStc,USmf,UEqs,ULoc,UDom>;
template class DD<UState,Minimize<double>,UTarget,ULgf,UStf,UStc,USmf,UEqs,ULoc,UDom>;
struct ULgfN   { NatSet<2> operator()(const UState&) const; long pad; ULgfN(const ULgfN&); };
template GNSet DD<UState,Maximize<double>,UTarget,ULgfN,UStf,UStc,USmf,UEqs,ULoc,UDom>::getLabels(ANode::Ptr) const;
template struct Minimize<double>;
template struct Maximize<double>;
template class Node<UState>;

// element with non trivial copies; keys with user supplied hash/equality
struct UElt { long _e; UElt() {} UElt(const UElt&); UElt& operator=(const UElt&); ~UElt();
   bool operator==(const UElt&) const; friend std::ostream& operator<<(std::ostream& os,const UElt& s); UElt& operator--(int); };
struct UKey { long _k; UKey(); UKey(const UKey&); UKey& operator=(const UKey&); ~UKey(); };
template<> struct std::equal_to<UKey> { bool operator()(const UKey& a,const UKey& b) const; };
template<> struct std::hash<UKey> { std::size_t operator()(const UKey& v) const noexcept; };


struct URelink { void operator()(long&) const; };
struct UFold   { long operator()(long,long) const; };
struct UVisit  { void operator()(Location<long>*) const; };
struct UVisitH { void operator()(const UKey&,long&) const; };
struct UVisitL { void operator()(Node<UState>*) const; };
struct ULess   { bool operator()(const long&,const long&) const; };
struct UPred   { bool operator()(int) const; };
struct UTerm   { int operator()(int) const; };

typedef Vec<long,unsigned> VecL;
KEEP VecL* k_vec_new(void* at,Pool::Ptr m,unsigned s) { return new (at) VecL(m,s);}
KEEP VecL* k_vec_copy(void* at,const VecL& o) { return new (at) VecL(o);}
KEEP VecL* k_vec_copym(void* at,Pool::Ptr m,const VecL& o) { return new (at) VecL(m,o);}
KEEP VecL* k_vec_move(void* at,VecL& o) { return new (at) VecL(std::move(o));}
KEEP void k_vec_assign(VecL& a,const VecL& b) { a = b;}
KEEP void k_vec_massign(VecL& a,VecL& b) { a = std::move(b);}
KEEP unsigned k_vec_push(VecL& a,const long& v) { return a.push_back(v);}
KEEP long k_vec_pop(VecL& a) { return a.pop_back();}
KEEP void k_vec_clear(VecL& a) { a.clear();}
KEEP unsigned k_vec_size(const VecL& a) { return a.size();}
KEEP long k_vec_get(const VecL& a,unsigned i) { return a.get(i);}
KEEP long k_vec_idx(const VecL& a,unsigned i) { return a[i];}
KEEP void k_vec_set(VecL& a,unsigned i,const long& v) { a[i] = v;}
KEEP void k_vec_at(VecL& a,unsigned i,const long& v) { a.at(i,v);}
KEEP long k_vec_iter(const VecL& a,UFold f) { long s=0; for(auto x : a) s = f(s,x); return s;}
KEEP long k_vec_citer(const VecL& a,UFold f) { long s=0; for(auto i=a.cbegin();i!=a.cend();i++) s = f(s,*i); return s;}
KEEP unsigned k_vec_remove(Vec<long,unsigned>& v,unsigned i,URelink r) { return v.remove(i,r);}
KEEP void k_queue_all(CQueue<long>& q,UVisit f) { q.doOnAll(f);}
KEEP long k_queue_foldl(CQueue<long>& q,UFold f,long b) { return q.foldl(f,b);}
KEEP void k_hash_all(Hashtable<UKey,long>& h,UVisitH f) { h.doOnAll(f);}
KEEP void k_lhash_all(LHashtable<UState>& h,UVisitL f) { h.doOnAll(f);}
KEEP void k_msort(long* t,std::size_t n,const ULess& c) { mergeSort(t,n,c);}
KEEP void k_natset_flip(int ofs,const NatSet<3>& s,NatSet<3>& out) { out = ofs - s;}
KEEP bool k_natset_eq(const NatSet<3>& a,const NatSet<3>& b) { return a == b;}
KEEP std::size_t k_natset_hash(const NatSet<3>& a) { return std::hash<NatSet<3>>{}(a);}
KEEP bool k_gnset_eq(const GNSet& a,const GNSet& b) { return a == b;}
KEEP bool k_gnset_ne(const GNSet& a,const GNSet& b) { return a != b;}
KEEP std::size_t k_gnset_hash(const GNSet& a) { return std::hash<GNSet>{}(a);}
KEEP GNSet k_gnset_or(const GNSet& a,const GNSet& b) { return a | b;}
KEEP GNSet k_gnset_and(const GNSet& a,const GNSet& b) { return a & b;}
KEEP GNSet k_gnset_sub(const GNSet& a,const GNSet& b) { return a - b;}
KEEP GNSet k_gnset_filter(const GNSet& a,UPred p) { return filter(a,p);}
KEEP int k_gnset_sum(const GNSet& a,UTerm t) { return sum(a,t);}
KEEP int k_gnset_min3(const GNSet& a,UPred p,UTerm t) { return min(a,p,t);}
KEEP int k_gnset_max3(const GNSet& a,UPred p,UTerm t) { return max(a,p,t);}
KEEP GNSet* k_gnset_from(const NatSet<3>& a,void* at) { return new (at) GNSet(a);}
KEEP unsigned long long k_rev(unsigned long long v) { return std::revBitsOfLong(v);}
KEEP bool k_farray_eq(const FArray<long>& a,const FArray<long>& b) { return a == b;}
KEEP std::size_t k_farray_hash(const FArray<long>& a) { return std::hash<FArray<long>>{}(a);}
KEEP long& k_matrix_at(Matrix<long,2>& m,int i,int j) { return m[i][j];}
KEEP long& k_matrix_at3(FMatrix<FArray<long>,3>& m,int i,int j,int k) { return m[i][j][k];}
KEEP void k_bounds_inc(Bounds& b,std::vector<int>& v) { b.setIncumbent(v.begin(),v.end());}
KEEP void k_bounds_inc2(Bounds& b,ANode& n) { b.setIncumbent(n.beginOptLabels(),n.endOptLabels());}
KEEP void* k_new(std::size_t sz,Pool::Ptr p) { return operator new(sz,p);}
KEEP void* k_newa(std::size_t sz,Pool::Ptr p) { return operator new[](sz,p);}
// accessors: what field is what
KEEP void k_bb_limit(BAndB& b,const std::function<bool(double)>& f) { b.setTimeLimit(f);}
KEEP double k_acc_bound(const ANode* n) { return n->getBound();}
KEEP double k_acc_bbound(const ANode* n) { return n->getBackwardBound();}
KEEP unsigned k_acc_layer(const ANode* n) { return n->getLayer();}
KEEP bool k_acc_exact(const ANode* n) { return n->isExact();}
KEEP unsigned k_acc_id(const ANode* n) { return n->getId();}
KEEP unsigned k_acc_nbpar(const ANode* n) { return n->nbParents();}
KEEP unsigned k_acc_nbkid(const ANode* n) { return n->nbChildren();}
KEEP const void* k_acc_labels(const ANode* n) { return &n->getIncumbent();}
KEEP Edge* k_acc_par0(ANode* n) { return (*n->beginPar()).get();}
KEEP Edge* k_acc_kid0(ANode* n) { return (*n->beginKids()).get();}
KEEP int k_acc_lbl0(ANode* n) { return *n->beginOptLabels();}
KEEP double k_acc_primal(const Bounds* b) { return b->getPrimal();}
KEEP void* k_acc_root(AbstractDD* d) { return d->getRoot().get();}
KEEP bool k_acc_ddexact(const AbstractDD* d) { return d->isExact();}
KEEP double k_acc_ddopt(const AbstractDD* d) { return d->currentOpt();}

// ---- heap
typedef bool (*UOrd)(const UElt&,const UElt&);
typedef Heap<UElt,UOrd> HeapU;
KEEP HeapU* k_heap_new(void* at,Pool::Ptr m,int s,UOrd o) { return new (at) HeapU(m,s,o);}
KEEP void* k_heap_insert(HeapU& h,const UElt& e) { return h.insert(e);}
KEEP const void* k_heap_insertHeap(HeapU& h,const UElt& e) { return h.insertHeap(e);}
KEEP void k_heap_build(HeapU& h) { h.buildHeap();}
KEEP void k_heap_extract(HeapU& h,UElt& o) { o = h.extractMax();}
KEEP void k_heap_remove(HeapU& h,HeapU::LocType* l,UElt& o) { o = h.remove(l);}
KEEP void k_heap_decrease(HeapU& h,HeapU::LocType* l) { h.decrease(l);}
KEEP void* k_heap_at(HeapU& h,int i) { return h[i];}
KEEP void* k_heap_find(HeapU& h,const UElt& v) { return h.find(v);}
KEEP unsigned k_heap_size(const HeapU& h) { return h.size();}
KEEP bool k_heap_empty(const HeapU& h) { return h.empty();}
KEEP void k_heap_clear(HeapU& h) { h.clear();}
// ---- circular queue
typedef CQueue<long> QueueL;
KEEP QueueL* k_queue_new(void* at,int s) { return new (at) QueueL(s);}
KEEP void k_queue_del(QueueL& q) { q.~QueueL();}
KEEP void* k_queue_enq(QueueL& q,const long& v) { return q.enQueue(v);}
KEEP long k_queue_deq(QueueL& q) { return q.deQueue();}
KEEP long k_queue_peek(QueueL& q) { return q.peek();}
KEEP bool k_queue_empty(const QueueL& q) { return q.empty();}
KEEP int k_queue_size(const QueueL& q) { return q.size();}
KEEP void k_queue_clear(QueueL& q) { q.clear();}
KEEP void k_queue_retract(QueueL& q,Location<long>* l) { q.retract(l);}
// ---- hash tables
typedef Hashtable<UKey,long> HT;
KEEP HT* k_hash_new(void* at,Pool::Ptr m,std::size_t s) { return new (at) HT(m,s);}
KEEP void k_hash_insert(HT& h,const UKey& k,const long& v) { h.insert(k,v);}
KEEP void k_hash_safeInsert(HT& h,const UKey& k,const long& v) { h.safeInsert(k,v);}
KEEP bool k_hash_get(const HT& h,const UKey& k,long& v) { return h.get(k,v);}
KEEP bool k_hash_getput(HT& h,const UKey& k,long& v) { auto l = h.getLoc(k,v); if (!l) h.safeInsertAt(l,k,v); return l;}
KEEP void k_hash_clear(HT& h) { h.clear();}
KEEP unsigned k_hash_size(const HT& h) { return h.size();}
typedef LHashtable<UState> LHT;
KEEP LHT* k_lhash_new(void* at,Pool::Ptr m,std::size_t s) { return new (at) LHT(m,s);}
KEEP bool k_lhash_getLoc(const LHT& h,const UState& k,Node<UState>*& v) { auto l = h.getLoc(k,v); return l;}
KEEP bool k_lhash_getput(LHT& h,const UState& k,Node<UState>*& v,Node<UState>* n) { auto l = h.getLoc(k,v); if (!l) h.safeInsertAt(l,n); return l;}
KEEP bool k_lhash_getputraw(LHT& h,const UState& k,Node<UState>*& v,Node<UState>* n) { auto l = h.getLoc(k,v); if (!l) h.rawInsertAt(l,n); return l;}
KEEP void k_lhash_clear(LHT& h) { h.clear();}
KEEP unsigned k_lhash_size(const LHT& h) { return h.size();}
// ---- bounded sets
typedef NatSet<3> NS;
KEEP NS* k_nat_new(void* at) { return new (at) NS();}
KEEP NS* k_nat_copy(void* at,const NS& o) { return new (at) NS(o);}
KEEP NS* k_nat_move(void* at,NS& o) { return new (at) NS(std::move(o));}
KEEP NS* k_nat_range(void* at,int lb,int ub) { return new (at) NS(lb,ub);}
KEEP NS* k_nat_list(void* at,std::initializer_list<int> l) { return new (at) NS(l);}
KEEP NS* k_nat_reflect(void* at,int ofs,const NS& s) { return new (at) NS(ofs,s);}
KEEP void k_nat_assign(NS& a,const NS& b) { a = b;}
KEEP void k_nat_clear(NS& a) { a.clear();}
KEEP int k_nat_size(const NS& a) { return a.size();}
KEEP bool k_nat_empty(const NS& a) { return a.empty();}
KEEP int k_nat_largest(const NS& a) { return a.largest();}
KEEP void k_nat_insert(NS& a,int p) { a.insert(p);}
KEEP bool k_nat_contains(const NS& a,int p) { return a.contains(p);}
KEEP void k_nat_complement(NS& a) { a.complement();}
KEEP void k_nat_union(NS& a,const NS& b) { a.unionWith(b);}
KEEP void k_nat_inter(NS& a,const NS& b) { a.interWith(b);}
KEEP NS* k_nat_or(void* at,const NS& a,const NS& b) { return new (at) NS(a | b);}
KEEP NS* k_nat_and(void* at,const NS& a,const NS& b) { return new (at) NS(a & b);}
KEEP NS::iterator k_nat_begin(const NS& a) { return a.begin();}
KEEP NS::iterator k_nat_end(const NS& a) { return a.end();}
KEEP void k_nat_next(NS::iterator& i) { ++i;}
KEEP short k_nat_deref(const NS::iterator& i) { return *i;}
KEEP bool k_nat_itne(const NS::iterator& i,const NS::iterator& j) { return i != j;}
KEEP NS::citerator k_nat_cbegin(const NS& a) { return a.cbegin();}
KEEP NS::citerator k_nat_cend(const NS& a) { return a.cend();}
KEEP void k_nat_cnext(NS::citerator& i) { ++i;}
KEEP short k_nat_cderef(const NS::citerator& i) { return *i;}
KEEP bool k_nat_citne(const NS::citerator& i,const NS::citerator& j) { return i != j;}
// ---- growable sets
KEEP GNSet* k_gn_new(void* at,unsigned short n) { return new (at) GNSet(n);}
KEEP GNSet* k_gn_copy(void* at,const GNSet& o) { return new (at) GNSet(o);}
KEEP GNSet* k_gn_move(void* at,GNSet& o) { return new (at) GNSet(std::move(o));}
KEEP GNSet* k_gn_range(void* at,const Range& r) { return new (at) GNSet(r);}
KEEP GNSet* k_gn_lbub(void* at,int lb,int ub) { return new (at) GNSet(lb,ub);}
KEEP GNSet* k_gn_list(void* at,std::initializer_list<int> l) { return new (at) GNSet(l);}
KEEP void k_gn_del(GNSet& a) { a.~GNSet();}
KEEP void k_gn_assign(GNSet& a,const GNSet& b) { a = b;}
KEEP void k_gn_massign(GNSet& a,GNSet& b) { a = std::move(b);}
KEEP void k_gn_clear(GNSet& a) { a.clear();}
KEEP bool k_gn_empty(const GNSet& a) { return a.empty();}
KEEP int k_gn_size(const GNSet& a) { return a.size();}
KEEP void k_gn_insert(GNSet& a,int p) { a.insert(p);}
KEEP void k_gn_remove(GNSet& a,int p) { a.remove(p);}
KEEP bool k_gn_contains(const GNSet& a,int p) { return a.contains(p);}
KEEP void k_gn_complement(GNSet& a) { a.complement();}
KEEP void k_gn_union(GNSet& a,const GNSet& b) { a.unionWith(b);}
KEEP void k_gn_inter(GNSet& a,const GNSet& b) { a.interWith(b);}
KEEP void k_gn_diff(GNSet& a,const GNSet& b) { a.diffWith(b);}
KEEP void k_gn_removeAbove(GNSet& a,int p) { a.removeAbove(p);}
KEEP void k_gn_removeBelow(GNSet& a,int p) { a.removeBelow(p);}
KEEP GNSet::iterator k_gn_begin(const GNSet& a) { return a.begin();}
KEEP GNSet::iterator k_gn_end(const GNSet& a) { return a.end();}
KEEP void k_gn_next(GNSet::iterator& i) { ++i;}
KEEP short k_gn_deref(const GNSet::iterator& i) { return *i;}
KEEP bool k_gn_itne(const GNSet::iterator& i,const GNSet::iterator& j) { return i != j;}
struct USeen { void operator()(int) const; };
KEEP void k_nat_walk(const NS& a,USeen f) { for(auto x : a) f(x);}
KEEP void k_nat_cwalk(const NS& a,USeen f) { for(auto i=a.cbegin();i!=a.cend();i++) f(*i);}
KEEP void k_gn_walk(const GNSet& a,USeen f) { for(auto x : a) f(x);}
KEEP void k_gn_walkp(const GNSet& a,USeen f) { for(auto i=a.begin();!(i==a.end());i++) f(*i);}
KEEP int k_gn_min(const GNSet& a) { return min(a);}
KEEP int k_gn_max(const GNSet& a) { return max(a);}
// ---- arrays
typedef FArray<long> FA;
KEEP FA* k_fa_new(void* at,std::size_t n) { return new (at) FA(n);}
KEEP FA* k_fa_fill(void* at,std::size_t n,const long& v) { return new (at) FA(n,v);}
KEEP FA* k_fa_copy(void* at,const FA& o) { return new (at) FA(o);}
KEEP FA* k_fa_move(void* at,FA& o) { return new (at) FA(std::move(o));}
KEEP void k_fa_del(FA& a) { a.~FA();}
KEEP void k_fa_assign(FA& a,const FA& b) { a = b;}
KEEP void k_fa_massign(FA& a,FA& b) { a = std::move(b);}
KEEP long& k_fa_at(FA& a,std::size_t i) { return a[i];}
KEEP const long& k_fa_cat(const FA& a,std::size_t i) { return a[i];}
KEEP std::size_t k_fa_size(const FA& a) { return a.size();}
KEEP long k_fa_iter(const FA& a,UFold f) { long s=0; for(auto x : a) s = f(s,x); return s;}
typedef FMatrix<FArray<long>,3> M3;
typedef Matrix<long,2> M2;
KEEP M2* k_m2_new(void* at,int r,int c) { return new (at) M2(r,c);}
KEEP M3* k_m3_new(void* at,const int* d) { return new (at) M3(d);}
KEEP M3* k_m3_copy(void* at,const M3& o) { return new (at) M3(o);}
KEEP void k_m3_assign(M3& a,const M3& b) { a = b;}
// ---- union find
typedef UnionFind<long> UFL;
KEEP UFL::Node* k_uf_node(void* at,const long& v) { return new (at) UFL::Node(v);}
KEEP UFL::Node* k_uf_nodem(void* at,long& v) { return new (at) UFL::Node(std::move(v));}
KEEP UFL::Node::Ptr k_uf_make(UFL& u,const long& v) { return u.makeSet(v);}
KEEP UFL::Node::Ptr k_uf_set(UFL& u,UFL::Node::Ptr v) { return u.setFor(v);}
KEEP UFL::Node::Ptr k_uf_merge(UFL& u,const UFL::Node::Ptr& a,const UFL::Node::Ptr& b) { return u.merge(a,b);}
// ---- range
KEEP bool k_rg_contains(const Range& r,int p) { return r.contains(p);}
KEEP int k_rg_size(const Range& r) { return r.size();}
KEEP int k_rg_largest(const Range& r) { return r.largest();}
KEEP int k_rg_iter(const Range& r,UTerm t) { int s=0; for(auto i : r) s += t(i); return s;}
KEEP int k_rg_iterp(const Range& r,UTerm t) { int s=0; for(auto i=r.begin();!(i==r.end());i++) s += t(*i); return s;}
KEEP Range k_rg_flip(const Range& r) { return r.flip();}
KEEP Range k_rg_copy(const Range& r) { return Range(r);}
KEEP Range k_rg_move(Range& r) { return Range(std::move(r));}
KEEP Range k_rg_open(int f,int t) { return Range::open(f,t);}
KEEP Range k_rg_close(int f,int t) { return Range::close(f,t);}
KEEP Range k_rg_openInc(int f,int t) { return Range::openInc(f,t);}
KEEP Range k_rg_closeInc(int f,int t) { return Range::closeInc(f,t);}
// ---- node list, node arrays
KEEP void k_an_push(ANList& l,ANode::Ptr n) { l.push_back(n);}
KEEP void k_an_pop(ANList& l) { l.pop_back();}
KEEP void k_an_remove(ANList& l,ANode::Ptr n) { l.remove(n);}
KEEP void k_an_clear(ANList& l) { l.clear();}
KEEP std::size_t k_an_size(const ANList& l) { return l.size();}
KEEP long k_an_iter(const ANList& l,UFold f) { long s=0; for(auto n : l) s = f(s,(long)n.get()); return s;}
KEEP NDArray* k_nd_new(void* at,std::size_t n) { return new (at) NDArray(n);}
KEEP void k_nd_push(NDArray& a,ANode::Ptr n) { a.push_back(n);}
KEEP void k_nd_clear(NDArray& a) { a.clear();}
KEEP std::size_t k_nd_size(const NDArray& a) { return a.size();}
KEEP long k_nd_iter(NDArray& a,UFold f) { long s=0; for(auto n : a) s = f(s,(long)n.get()); return s;}
KEEP void k_nd_pushf(NDArray& a,ANode::Ptr n) { a.push_front(n);}
KEEP ANode* k_nd_front(NDArray& a) { return a.front().get();}
KEEP void k_nd_popf(NDArray& a) { a.pop_front();}
KEEP ANode* k_nd_get(NDArray& a,std::size_t i) { return a[i].get();}
KEEP void k_nd_cut(NDArray& a,std::size_t i) { a.eraseSuffix(a.at(i));}
KEEP NDArray::iterator k_nd_at(NDArray& a,std::size_t i) { return a.at(i);}
KEEP void k_nd_next(NDArray::iterator& i) { ++i;}
KEEP ANode* k_nd_deref(const NDArray::iterator& i) { return (*i).get();}
KEEP bool k_nd_itne(const NDArray::iterator& i,const NDArray::iterator& j) { return i != j;}
KEEP void k_nd_erase(NDArray::iterator& i) { i.erase();}
KEEP NDArray::iterator k_nd_erase2(NDArray& a,const NDArray::iterator& i) { return a.erase(i);}
KEEP ANode* k_an_front(const ANList& l) { return l.front().get();}
KEEP ANode* k_an_back(const ANList& l) { return l.back().get();}
KEEP bool k_an_has(ANList& l,ANode::Ptr n) { return l.confirmMembership(n);}
// ---- pool
KEEP void* k_pool_alloc(Pool& p,std::size_t s) { return p.allocate(s);}
KEEP PoolMark k_pool_mark(const Pool& p) { return p.mark();}
KEEP void k_pool_clear(Pool& p,const PoolMark& m) { p.clear(m);}
KEEP void k_pool_clear0(Pool& p) { p.clear();}
KEEP Pool* k_pool_new(void* at,std::size_t s) { return new (at) Pool(s);}
