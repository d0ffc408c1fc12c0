// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_XMLRPCPP_XMLRPCVALUE_H
#define VERIF_STUB_XMLRPCPP_XMLRPCVALUE_H
#include <string>
#include <vc.h>
#include <xmlrpcpp/XmlRpcException.h>
namespace XmlRpc
{
// a parameter: the harness says what kind it and its elements are; numbers are arbitrary
class XmlRpcValue
{
public:
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
  int i_ = 0;
  double d_ = 0;
  bool b_ = false;
  std::string s_;
  static inline Type type0 = TypeInvalid, type1 = TypeInvalid, type2 = TypeInvalid;  // the harness says what the outer and inner values are
  static inline int size0 = 0, size1 = 0;
  int depth_ = 0;
  Type getType() const { return depth_ == 0 ? type0 : depth_ == 1 ? type1 : type2; }
  int size() const { return depth_ == 0 ? size0 : size1; }
  XmlRpcValue& sub() const;
  bool hasMember(const std::string&) const { return false; }
  XmlRpcValue& operator[](int) { return sub(); }
  XmlRpcValue& operator[](const char*) { return *this; }
  XmlRpcValue& operator[](const std::string&) { return *this; }
  operator int&() { return i_; }
  operator double&()
  {
#if defined(VC_PROOF) || defined(VC_NATIVE)
    d_ = vc_r("number", -100, 100);
#endif
    return d_;
  }
  operator bool&() { return b_; }
  operator std::string&() { return s_; }
};
inline XmlRpcValue& XmlRpcValue::sub() const
{
  static XmlRpcValue one, two;
  XmlRpcValue& v = depth_ == 0 ? one : two;
  v.depth_ = depth_ + 1;
  return v;
}
}  // namespace XmlRpc
#endif
