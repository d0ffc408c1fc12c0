// Accumulation of point clouds by age.
#include <cstddef>
#include <iterator>
#include <list>
#include <ros/ros.h>
#include <vc.h>
struct Cloud
{
  long label;
};
#ifdef VC_PROOF
namespace std
{
// Contract of std::list as a queue: the elements are the numbers [lo_, hi_) of an arbitrary sequence; the one appended last is kept.
// Only the first element may be erased (no accumulator of clouds in time order needs more).
template <class T, class A = int>
class vc_seq
{
public:
  long lo_, hi_;
  struct ref
  {
    T t;
    const T* operator->() const { return &t; }
  };
  struct iterator
  {
    const vc_seq* q;
    long i;
    typedef std::bidirectional_iterator_tag iterator_category;
    typedef T value_type;
    typedef ptrdiff_t difference_type;
    typedef const T* pointer;
    typedef const T reference;
    const T operator*() const { return q->at(i); }
    ref operator->() const { return ref{q->at(i)}; }
    iterator& operator++()
    {
      vc_prove(i < q->hi_, "iterator advanced inside the sequence");
      ++i;
      return *this;
    }
    iterator operator++(int) { iterator r = *this; ++*this; return r; }
    iterator& operator--() { --i; return *this; }
    bool operator==(const iterator& o) const { return i == o.i; }
    bool operator!=(const iterator& o) const { return i != o.i; }
  };
  typedef iterator const_iterator;
  vc_seq() : lo_(0), hi_(0) {}
  static long ns(long i) { return vc_uf_i_("stamp", -1L << 60, 1L << 60, i, 0, 0, 0, 0, 0); }
  static long label(long i) { return vc_uf_i_("label", 0, 1L << 60, i, 0, 0, 0, 0, 0); }
  const T at(long i) const
  {
    vc_prove((lo_ <= i) & (i < hi_), "element of the sequence inside it");
    return T(Cloud{label(i)}, ros::Time::ofNs(ns(i)));
  }
  const T front() const { return at(lo_); }
  const T back() const { return at(hi_ - 1); }
  bool empty() const { return lo_ == hi_; }
  size_t size() const { return hi_ - lo_; }
  void clear() { lo_ = hi_; }
  iterator begin() const { return iterator{this, lo_}; }
  iterator end() const { return iterator{this, hi_}; }
  iterator cbegin() const { return iterator{this, lo_}; }
  iterator cend() const { return iterator{this, hi_}; }
  iterator erase(const iterator& it)
  {
    vc_prove(it.i == lo_, "the oldest cloud is dropped first");
    vc_prove(lo_ < hi_, "erase of an element of the sequence");
    ++lo_;
    return iterator{this, lo_};
  }
  iterator erase(const iterator& a, const iterator& b)
  {
    vc_prove((a.i == lo_) & (a.i <= b.i) & (b.i <= hi_), "the oldest clouds are dropped first");
    lo_ = b.i;
    return iterator{this, lo_};
  }
  void pop_front()
  {
    vc_prove(lo_ < hi_, "pop_front of a non-empty sequence");
    ++lo_;
  }
  void push_back(const T& t)
  {
    vc_prove((t.label == label(hi_)) & (t.stamp_.ns_ == ns(hi_)), "the new cloud is appended unchanged");
    ++hi_;
  }
  template <class... B> void emplace_back(B&&... b) { push_back(T(b...)); }
};
}  // namespace std
#define list vc_seq
#endif
#include <costmap_cspace/pointcloud_accumulator.h>
typedef costmap_cspace::PointcloudAccumulator<Cloud> Acc;
#ifdef VC_PROOF
#undef list
typedef std::vc_seq<Acc::Points> Seq;
#endif
// one arrival, from any state earlier arrivals in time order may have left
VC_ENTRY push()
{
  const long hold = vc_i("hold", 0, 1L << 60);
#ifdef VC_PROOF
  Acc a;
  a.reset(ros::Duration::ofNs(hold));
  Seq& q = a.points_;
  const long lo = q.lo_ = vc_i("first", 0, 1L << 40);
  const long hi = q.hi_ = vc_i("next", 0, 1L << 40);
  vc_assume(lo <= hi);
  const long i = vc_skolem("cloud", 0, 1L << 40);
  const long now = Seq::ns(hi), s = Seq::ns(lo + i);
  const bool in = lo + i < hi;
  a.push(Acc::Points(Cloud{Seq::label(hi)}, ros::Time::ofNs(now)));
  vc_prove(q.hi_ == hi + 1, "exactly the new cloud is appended");
  vc_prove(lo <= q.lo_, "no cloud comes back");
  // clouds arrive in time order
  const long f = Seq::ns(q.lo_);
  if ((lo + i >= q.lo_) & in)
  {
    vc_assume((f <= s) & (s <= now));
    vc_prove(s + hold >= now, "every retained cloud is within the hold time of the newest");
    vc_cover("kept");
  }
  else if (in)
    vc_prove(s + hold < now, "no cloud within the hold time is dropped");
#else
  Acc a(ros::Duration::ofNs(hold % 100));
  const long h = hold % 100, n = vc_i("arrivals", 1, 12);
  long t[16], now = 0;
  for (long k = 0; k < n; k++)
  {
    now += vc_i("gap", 0, 40);
    t[k] = now;
    a.push(Acc::Points(Cloud{k}, ros::Time::ofNs(now)));
    long first = 0;
    while (t[first] + h < now)
      first++;
    for (auto it = a.begin(); it != a.end(); ++it, ++first)
      vc_prove((first <= k) && (it->label == first) && (it->stamp_.ns_ == t[first]), "the retained clouds are those within the hold time, in order of arrival");
    vc_prove(first == k + 1, "no cloud within the hold time is dropped");
    vc_cover("kept");
  }
#endif
}
VC_ENTRY clear()
{
#ifdef VC_PROOF
  Acc a;
  a.points_.lo_ = vc_i("first", 0, 1L << 40);
  a.points_.hi_ = vc_i("next", 0, 1L << 40);
  a.reset(ros::Duration::ofNs(vc_i("hold", 0, 1L << 60)));
  vc_prove(a.points_.empty(), "a reset accumulator is empty");
#else
  Acc a(ros::Duration::ofNs(vc_i("hold", 0, 100)));
  a.push(Acc::Points(Cloud{1}, ros::Time::ofNs(5)));
  a.reset(ros::Duration::ofNs(3));
  vc_prove(a.begin() == a.end(), "a reset accumulator is empty");
#endif
  vc_cover("cleared");
}
