// Contracts of shared_ptr (a pointer; nothing is ever released) and string (an inert name; two names may or may not be equal)
// for the proof build; the native build uses the real library.
#ifndef VERIF_VCPTR_H
#define VERIF_VCPTR_H
#ifdef VC_PROOF
#include <vc.h>
#include <cstddef>
#include <utility>
namespace std
{
template <class T>
class vc_shared
{
public:
  T* p_;
  typedef T element_type;
  vc_shared() : p_(nullptr) {}
  vc_shared(decltype(nullptr)) : p_(nullptr) {}
  explicit vc_shared(T* p) : p_(p) {}
  template <class U> vc_shared(const vc_shared<U>& o) : p_(o.p_) {}
  vc_shared(const vc_shared& o) : p_(o.p_) {}
  vc_shared& operator=(const vc_shared& o) { p_ = o.p_; return *this; }
  void reset() { p_ = nullptr; }
  void reset(T* p) { p_ = p; }
  T* get() const { return p_; }
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  explicit operator bool() const { return p_ != nullptr; }
  bool operator==(const vc_shared& o) const { return p_ == o.p_; }
  bool operator!=(const vc_shared& o) const { return p_ != o.p_; }
};
template <class T, class... A> vc_shared<T> vc_make(A&&... a) { return vc_shared<T>(new T(std::forward<A>(a)...)); }
class vc_string
{
public:
  long id_;
  vc_string() : id_(0) {}
  vc_string(const char*) : id_(vc_fresh_()) {}
  const char* c_str() const { return ""; }
  bool empty() const { return id_ == 0; }
  vc_string operator+(const vc_string&) const { return vc_string(""); }
  vc_string operator+(const char*) const { return vc_string(""); }
  bool operator==(const vc_string& o) const { return id_ == o.id_; }
  bool operator!=(const vc_string& o) const { return id_ != o.id_; }
};
inline vc_string operator+(const char*, const vc_string&) { return vc_string(""); }
}  // namespace std
#define shared_ptr vc_shared
#define make_shared vc_make
#define string vc_string
#endif
#endif
