// A shared library for P51: P_CLASS names its class, P_BASE the interface, P_ID its identifier, P_LIB its number.
#ifdef P_FOREIGN
extern "C" int some_function() { return P_LIB; }
# ifdef P_UNRESOLVED
extern int not_there_anywhere;
int *broken = &not_there_anywhere;
# endif
#else
#include "p51_iface.h"
struct P_CLASS : public P_BASE
{
  P_CLASS() { p51_born(this, P_LIB); }
  ~P_CLASS() { p51_died(this, P_LIB); }
  int lib() const { return P_LIB; }
  ICL_CORE_PLUGIN_DECLARE_PLUGIN
};
# ifdef P_PARTIAL
std::string P_CLASS::Identifier() const { return P_ID; }
extern "C"
{
#  if P_PARTIAL != 1
const char *identifier() { return P_ID; }
#  endif
#  if P_PARTIAL != 2
const char *basetype() { return typeid(P_BASE).name(); }
#  endif
#  if P_PARTIAL == 4
void *load_plugin() { return 0; }
#  elif P_PARTIAL != 3
P_BASE *load_plugin() { return new P_CLASS; }
#  endif
}
# else
ICL_CORE_PLUGIN_REGISTER_PLUGIN(P_BASE, P_CLASS, P_ID)
# endif
#endif
