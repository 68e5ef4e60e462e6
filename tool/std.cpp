// Instantiation unit for the helpers of util.hpp over standard containers.
// std::set<long> is replaced by a model: an ordered sequence of distinct
// elements seen through iterators; what changes a set is declared, not defined,
// so that in the IR each insertion is a direct call.
#include <set>
#include <string.h>
#include <functional>
#include <iterator>
#ifndef CODD_PLAIN
namespace std {
   template <> class set<long,less<long>,allocator<long>> {
      const long *_b,*_e;
   public:
      using key_type = long;
      using value_type = long;
      using size_type = size_t;
      using difference_type = long;
      using reference = const long&;
      using const_reference = const long&;
      using key_compare = less<long>;
      using value_compare = less<long>;
      using allocator_type = allocator<long>;
      class iterator {
         const long* _p;
      public:
         using iterator_category = bidirectional_iterator_tag;
         using value_type = long;
         using difference_type = long;
         using pointer = const long*;
         using reference = const long&;
         iterator() : _p(nullptr) {}
         iterator(const long* p) : _p(p) {}
         const long& operator*() const { return *_p;}
         const long* operator->() const { return _p;}
         iterator& operator++() { ++_p;return *this;}
         iterator operator++(int) { iterator r = *this;++_p;return r;}
         iterator& operator--() { --_p;return *this;}
         iterator operator--(int) { iterator r = *this;--_p;return r;}
         friend bool operator==(const iterator& a,const iterator& b) { return a._p == b._p;}
         friend bool operator!=(const iterator& a,const iterator& b) { return a._p != b._p;}
      };
      using const_iterator = iterator;
      using reverse_iterator = std::reverse_iterator<iterator>;
      using const_reverse_iterator = reverse_iterator;
      set();
      set(const set&);
      set(set&&);
      set(initializer_list<long>);
      template <class It> set(It,It);
      ~set();
      set& operator=(const set&);
      set& operator=(set&&);
      set& operator=(initializer_list<long>);
      iterator begin() const noexcept { return _b;}
      iterator end() const noexcept { return _e;}
      iterator cbegin() const noexcept { return _b;}
      iterator cend() const noexcept { return _e;}
      reverse_iterator rbegin() const noexcept { return reverse_iterator(iterator(_e));}
      reverse_iterator rend() const noexcept { return reverse_iterator(iterator(_b));}
      reverse_iterator crbegin() const noexcept { return rbegin();}
      reverse_iterator crend() const noexcept { return rend();}
      bool empty() const noexcept { return size() == 0;}
      size_t size() const noexcept;
      size_t count(const long&) const;
      bool contains(const long&) const;
      iterator find(const long&) const;
      iterator lower_bound(const long&) const;
      iterator upper_bound(const long&) const;
      pair<iterator,bool> insert(const long&);
      iterator insert(iterator,const long&);
      template <class It> void insert(It,It);
      void insert(initializer_list<long>);
      template <class... A> pair<iterator,bool> emplace(A&&...);
      template <class... A> iterator emplace_hint(iterator,A&&...);
      size_t erase(const long&);
      iterator erase(iterator);
      iterator erase(iterator,iterator);
      void clear() noexcept;
      void swap(set&) noexcept;
      void merge(set&);
      void merge(set&&);
   };
}
#endif
#ifdef CODD_ALL
#include "codd.hpp"
#endif
#include "util.hpp"
#define KEEP __attribute__((used, noinline))

typedef std::set<long> USet;
struct UKV { long _k,_v; };
struct UMap { // a container of pairs
   const UKV *_b,*_e;
   using key_type = long;
   using mapped_type = long;
   using value_type = long;
   class iterator {
      const UKV* _p;
   public:
      using iterator_category = std::forward_iterator_tag;
      using value_type = UKV;
      using difference_type = long;
      using pointer = const UKV*;
      using reference = const UKV&;
      iterator() : _p(nullptr) {}
      iterator(const UKV* p) : _p(p) {}
      const UKV& operator*() const { return *_p;}
      const UKV* operator->() const { return _p;}
      iterator& operator++() { ++_p;return *this;}
      iterator operator++(int) { iterator r = *this;++_p;return r;}
      friend bool operator==(const iterator& a,const iterator& b) { return a._p == b._p;}
      friend bool operator!=(const iterator& a,const iterator& b) { return a._p != b._p;}
   };
   using const_iterator = iterator;
   iterator begin() const noexcept { return _b;}
   iterator end() const noexcept { return _e;}
   std::size_t size() const noexcept;
   bool empty() const noexcept { return size() == 0;}
};
struct UPredL { bool operator()(const long&) const; };
struct UTermL { int operator()(const long&) const; };
struct UFoldL { long operator()(long,const long&) const; };
struct UTerm2 { long operator()(const long&,const long&) const; };
struct URange { int operator()(int) const; };
KEEP long k_std_min(const USet& s) { return std::min(s);}
KEEP long k_std_max(const USet& s) { return std::max(s);}
KEEP USet k_std_filter(const USet& s,UPredL p) { return std::filter(s,p);}
KEEP bool k_std_member(const USet& s,UPredL p) { return std::member(s,p);}
KEEP bool k_std_memberv(const std::vector<long>& s,UPredL p) { return std::member(s,p);}
KEEP long k_std_foldl(const USet& s,UFoldL f,long a) { return std::foldl(s,f,a);}
KEEP long k_std_foldlv(const std::vector<long>& s,UFoldL f,long a) { return std::foldl(s,f,a);}
KEEP int k_std_sumv(const std::vector<long>& s,UTermL t) { return sum<int,long>(s,t);}
KEEP int k_std_sums(const USet& s,UTermL t) { return sum(s,t);}
KEEP long k_std_summ(const UMap& s,UTerm2 t) { return sum<long>(s,t);}
KEEP USet k_std_or(const USet& a,const USet& b) { return a | b;}
KEEP USet k_std_and(const USet& a,const USet& b) { return a & b;}
KEEP USet k_std_remove(const USet& a,const long& v) { return remove(a,v);}
KEEP GNSet k_std_from(const std::ranges::iota_view<int,int>& v) { return setFrom(v);}
KEEP std::size_t k_std_hashv(const std::vector<long>& v) { return std::hash<std::vector<long>>{}(v);}
KEEP std::size_t k_std_hashs(const USet& v) { return std::hash<USet>{}(v);}
