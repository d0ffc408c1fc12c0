// Stand-in: diagnostics are inert; the updater counts how often it is forced.
#ifndef VERIF_STUB_DIAGNOSTIC_UPDATER_DIAGNOSTIC_UPDATER_H
#define VERIF_STUB_DIAGNOSTIC_UPDATER_DIAGNOSTIC_UPDATER_H
#include <string>
namespace diagnostic_msgs
{
struct DiagnosticStatus
{
  enum { OK, WARN, ERROR, STALE };
};
}  // namespace diagnostic_msgs
namespace diagnostic_updater
{
struct DiagnosticStatusWrapper
{
  int level_ = -1;
  void summary(int level, const char*) { level_ = level; }
  template <class... A> void addf(A&&...) {}
  template <class... A> void add(A&&...) {}
};
struct Updater
{
  long forced_ = 0;
  void setHardwareID(const char*) {}
  template <class... A> void add(A&&...) {}
  void force_update() { forced_++; }
};
}  // namespace diagnostic_updater
#endif
