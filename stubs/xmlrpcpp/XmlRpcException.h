// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_XMLRPCPP_XMLRPCEXCEPTION_H
#define VERIF_STUB_XMLRPCPP_XMLRPCEXCEPTION_H
#include <string>
namespace XmlRpc
{
class XmlRpcException
{
public:
  std::string getMessage() const { return std::string(); }
};
}  // namespace XmlRpc
#endif
