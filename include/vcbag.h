// Contracts of containers by element invariant (proof build; the native build uses the real library).
// An element is known by its position and the version of the container only; what holds of it is the invariant vc_elem<T>::inv,
// an obligation where an element enters the container and a fact where one is read.  Contents left over from before the
// container was last emptied (dirty_) carry no invariant.
#ifndef VERIF_VCBAG_H
#define VERIF_VCBAG_H
#ifdef VC_PROOF
#include <vc.h>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <utility>
struct vc_tag
{
  long kind, a, b, c;
};
template <class T> struct vc_elem;   // make(version, index), inv(element, tag)
template <class K> struct vc_key;    // is(k): k is the tracked key of a map
namespace std
{
template <class T, class A = int>
class vc_bag
{
public:
  long ver_;
  size_t n_;
  bool dirty_;
  vc_tag tag_;
  typedef size_t size_type;
  typedef T value_type;
  typedef const T const_reference;
  struct arrow
  {
    T t;
    const T* operator->() const { return &t; }
  };
  struct iterator
  {
    const vc_bag* b;
    long i;
    typedef std::random_access_iterator_tag iterator_category;
    typedef T value_type;
    typedef ptrdiff_t difference_type;
    typedef const T* pointer;
    typedef const T reference;
    const T operator*() const { return b->at(i); }
    arrow operator->() const { return arrow{b->at(i)}; }
    iterator& operator++() { ++i; return *this; }
    iterator operator++(int) { iterator r = *this; ++i; return r; }
    iterator& operator--() { --i; return *this; }
    iterator operator+(long d) const { return iterator{b, i + d}; }
    iterator& operator+=(long d) { i += d; return *this; }
    ptrdiff_t operator-(const iterator& o) const { return i - o.i; }
    bool operator<(const iterator& o) const { return i < o.i; }
    bool operator==(const iterator& o) const { return i == o.i; }
    bool operator!=(const iterator& o) const { return i != o.i; }
  };
  typedef iterator const_iterator;
  vc_bag() : ver_(vc_fresh_()), n_(0), dirty_(false), tag_{0, 0, 0, 0} {}
  explicit vc_bag(size_t n) : vc_bag() { n_ = n; }
  vc_bag(const vc_bag& o) = default;
  vc_bag(vc_bag&& o) = default;
  vc_bag& operator=(const vc_bag& o) = default;
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  void clear() { n_ = 0; dirty_ = false; }
  void reserve(size_t) {}
  size_t capacity() const { return vc_i("capacity", 0, 1L << 40); }
  void shrink_to_fit() {}
  const T at(size_t i) const
  {
    vc_prove(i < n_, "element of the sequence inside it");
    T t = vc_elem<T>::make(ver_, i);
    vc_assume(dirty_ | vc_elem<T>::inv(t, tag_));
    return t;
  }
  const T operator[](size_t i) const { return at(i); }
  const T front() const { return at(0); }
  const T back() const { return at(n_ - 1); }
  iterator begin() const { return iterator{this, 0}; }
  iterator end() const { return iterator{this, (long)n_}; }
  iterator cbegin() const { return iterator{this, 0}; }
  iterator cend() const { return iterator{this, (long)n_}; }
  void vc_add(const T& t)
  {
    vc_prove(vc_elem<T>::inv(t, tag_), vc_elem<T>::label());
    vc_assume(n_ < (1UL << 40));
    ++n_;
    ver_ = vc_fresh_();
  }
  void push_back(const T& t) { vc_add(t); }
  template <class... B> void emplace_back(B&&... b) { vc_add(T(std::forward<B>(b)...)); }
  void pop_back()
  {
    vc_prove(n_ > 0, "pop_back of a non-empty sequence");
    --n_;
    ver_ = vc_fresh_();
  }
  void swap(vc_bag& o) { vc_bag t(*this); *this = o; o = t; }
};
template <class T, class C = vc_bag<T>, class L = int>
class vc_pq
{
public:
  typedef size_t size_type;
  typedef T value_type;
  C c;
  size_t size() const { return c.n_; }
  bool empty() const { return c.n_ == 0; }
  // some element, the same one until the queue changes
  const T top() const
  {
    vc_prove(c.n_ > 0, "top of a non-empty queue");
    const long i = vc_uf_i_("top", 0, 1L << 40, c.ver_, 0, 0, 0, 0, 0);
    vc_assume(i < (long)c.n_);
    return c.at(i);
  }
  void pop() { c.pop_back(); }
  void push(const T& t) { c.vc_add(t); }
  template <class... B> void emplace(B&&... b) { c.vc_add(T(std::forward<B>(b)...)); }
};
// finite map: membership and value of every key are functions of the version, except that membership of the
// tracked key (an arbitrary constant, vc_key<K>) is kept exactly
template <class K, class V, class H = int, class E = int, class A = int>
class vc_umap
{
public:
  long ver_;
  bool has_;    // membership of the tracked key
  bool dirty_;
  typedef size_t size_type;
  struct pair_t
  {
    K first;
    V second;
  };
  struct arrow
  {
    pair_t t;
    const pair_t* operator->() const { return &t; }
  };
  struct iterator
  {
    const vc_umap* m;
    K k;
    bool in;
    const pair_t operator*() const { return pair_t{k, m->get(k)}; }
    arrow operator->() const { return arrow{pair_t{k, m->get(k)}}; }
    bool operator==(const iterator& o) const { return !in & !o.in; }
    bool operator!=(const iterator& o) const { return in | o.in; }
  };
  typedef iterator const_iterator;
  struct ref
  {
    vc_umap* m;
    K k;
    operator V() const { return m->get(k); }
    void operator=(const V& v) { m->put(k, v); }
    void operator=(const ref& o) { m->put(k, o.m->get(o.k)); }
  };
  inline static vc_umap* copy_ = nullptr;   // the map copied to last
  inline static V got_;                     // the value read last
  vc_umap() : ver_(vc_fresh_()), has_(false), dirty_(false) {}
  vc_umap(const vc_umap& o) : ver_(o.ver_), has_(o.has_), dirty_(o.dirty_) { copy_ = this; }
  vc_umap& operator=(const vc_umap&) = default;
  size_t size() const { return vc_uf_i_("map size", has_, 1L << 40, ver_, 0, 0, 0, 0, 0); }
  bool empty() const { return size() == 0; }
  bool contains(const K& k) const { return in(k); }
  template <class B> void emplace(const K& k, const B& v)
  {
    if (!in(k))
      put(k, v);
  }
  template <class B> void try_emplace(const K& k, const B& v) { emplace(k, v); }
  void swap(vc_umap& o) { vc_umap t(*this); *this = o; o = t; }
  void reserve(size_t) {}
  void rehash(size_t) {}
  void clear() { ver_ = vc_fresh_(); has_ = false; dirty_ = false; }
  bool in(const K& k) const
  {
    const bool t = vc_key<K>::is(k);
    return (t & has_) | (!t & vc_elem<pair_t>::has(ver_, k));
  }
  const V get(const K& k) const
  {
    vc_prove(in(k), "key present in the map");
    const V v = vc_elem<pair_t>::value(ver_, k);
    vc_assume(dirty_ | vc_elem<pair_t>::inv(k, v));
    got_ = v;
    return v;
  }
  void put(const K& k, const V& v)
  {
    vc_prove(vc_elem<pair_t>::inv(k, v), vc_elem<pair_t>::label());
    has_ = has_ | vc_key<K>::is(k);
    ver_ = vc_fresh_();
  }
  size_t count(const K& k) const { return in(k); }
  iterator find(const K& k) const { return iterator{this, k, in(k)}; }
  iterator end() const { return iterator{this, K(), false}; }
  iterator cend() const { return end(); }
  ref operator[](const K& k) { return ref{this, k}; }
  const V at(const K& k) const { return get(k); }
  void erase(const K& k)
  {
    has_ = has_ & !vc_key<K>::is(k);
    ver_ = vc_fresh_();
  }
  void erase(const iterator& it) { erase(it.k); }
  void insert_or_assign(const K& k, const V& v) { put(k, v); }
};
template <class T> class vc_shared
{
public:
  T* p_;
  vc_shared() : p_(nullptr) {}
  template <class U> vc_shared(const vc_shared<U>& o) : p_(o.p_) {}
  explicit vc_shared(T* p) : p_(p) {}
  T* operator->() const { return p_; }
  T& operator*() const { return *p_; }
  T* get() const { return p_; }
  explicit operator bool() const { return p_ != nullptr; }
};
template <class S> class vc_fn;
// a caller's callback: any answer, no effect on the caller's objects
template <class... A> class vc_fn<bool(A...)>
{
public:
  vc_fn() {}
  bool operator()(A...) const { return vc_b("callback"); }
  explicit operator bool() const { return true; }
};
}  // namespace std
#endif
#endif
