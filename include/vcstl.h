// Contracts of the standard containers for the proof build (the native build uses the real library).
// Every system and third-party header that mentions the containers must be included before this one.
#ifndef VERIF_VCSTL_H
#define VERIF_VCSTL_H
#ifdef VC_PROOF
#include <vc.h>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <utility>
namespace std
{
// sequence of arbitrary length: an array indexed by position and a length; references stay valid
template <class T, class A = allocator<T>>
class vc_vector
{
public:
  T* p_;
  size_t n_;
  typedef T value_type;
  typedef T& reference;
  typedef const T& const_reference;
  typedef T* iterator;
  typedef const T* const_iterator;
  typedef std::reverse_iterator<T*> reverse_iterator;
  typedef std::reverse_iterator<const T*> const_reverse_iterator;
  typedef size_t size_type;
  typedef ptrdiff_t difference_type;
  void vc_new()
  {
    p_ = static_cast<T*>(vc_alloc_(sizeof(T)));
    n_ = 0;
    vc_link_(p_, &n_, sizeof(T));
  }
  vc_vector() { vc_new(); }
  explicit vc_vector(size_t n) { vc_new(); resize(n); }
  vc_vector(size_t n, const T& v) { vc_new(); resize(n, v); }
  vc_vector(const vc_vector& o) { vc_new(); *this = o; }
  vc_vector(vc_vector&& o) { vc_new(); *this = o; o.n_ = 0; }
  vc_vector(initializer_list<T> l)
  {
    vc_new();
    for (const T* q = l.begin(); q != l.end(); ++q)
      push_back(*q);
  }
  vc_vector& operator=(const vc_vector& o)
  {
    if (p_ != o.p_)
    {
      vc_clone_(p_, o.p_);
      n_ = o.n_;
    }
    return *this;
  }
  vc_vector& operator=(vc_vector&& o)
  {
    if (p_ != o.p_)
    {
      vc_clone_(p_, o.p_);
      n_ = o.n_;
      o.n_ = 0;
    }
    return *this;
  }
  ~vc_vector() {}
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  void clear() { n_ = 0; }
  void reserve(size_t) {}
  T* data() { return p_; }
  const T* data() const { return p_; }
  T& operator[](size_t i) { vc_prove(i < n_, "element index inside the vector"); return p_[i]; }
  const T& operator[](size_t i) const { vc_prove(i < n_, "element index inside the vector"); return p_[i]; }
  T& at(size_t i) { vc_prove(i < n_, "element index inside the vector"); return p_[i]; }
  const T& at(size_t i) const { vc_prove(i < n_, "element index inside the vector"); return p_[i]; }
  T& front() { vc_prove(n_ > 0, "front of a non-empty vector"); return p_[0]; }
  const T& front() const { vc_prove(n_ > 0, "front of a non-empty vector"); return p_[0]; }
  T& back() { vc_prove(n_ > 0, "back of a non-empty vector"); return p_[n_ - 1]; }
  const T& back() const { vc_prove(n_ > 0, "back of a non-empty vector"); return p_[n_ - 1]; }
  T* begin() { return p_; }
  T* end() { return p_ + n_; }
  const T* begin() const { return p_; }
  const T* end() const { return p_ + n_; }
  const T* cbegin() const { return p_; }
  const T* cend() const { return p_ + n_; }
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  const_reverse_iterator crbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator crend() const { return const_reverse_iterator(begin()); }
  T& vc_grow()
  {
    vc_assume(n_ < (1ul << 30));
    ++n_;
    return p_[n_ - 1];
  }
  void push_back(const T& v) { new (&vc_grow()) T(v); }
  void push_back(T&& v) { new (&vc_grow()) T(v); }
  template <class... B> T& emplace_back(B&&... b) { T& r = vc_grow(); new (&r) T(std::forward<B>(b)...); return r; }
  void pop_back() { vc_prove(n_ > 0, "pop_back of a non-empty vector"); --n_; }
  void resize(size_t n) { resize(n, T()); }
  void resize(size_t n, const T& v)
  {
    T proto(v);
    if (n > n_)
      vc_rfill_(p_, n_, n, &proto, sizeof(T));
    n_ = n;
  }
  void assign(size_t n, const T& v) { n_ = 0; resize(n, v); }
  T* erase(const T* it)
  {
    const long i = it - p_;
    vc_prove((0 <= i) & (i < (long)n_), "erase of an element of the vector");
    vc_rshift_(p_, i, 1);
    --n_;
    return p_ + i;
  }
  T* erase(const T* a, const T* b)
  {
    const long i = a - p_, j = b - p_;
    vc_prove((0 <= i) & (i <= j) & (j <= (long)n_), "erase of a range of the vector");
    vc_rshift_(p_, i, j - i);
    n_ -= j - i;
    return p_ + i;
  }
  void swap(vc_vector& o) { vc_vector t(*this); *this = o; o = t; }
};
}  // namespace std
#define vector vc_vector
#endif
#endif
