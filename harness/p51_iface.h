// What the plugins of P51 and the program that loads them share.
#ifndef P51_IFACE_H
#define P51_IFACE_H
#include <string>
#include <typeinfo>
#include <string.h>
#include "icl_core_plugin/Plugin.h"
extern "C" void p51_born(void *p, int lib);
extern "C" void p51_died(void *p, int lib);
struct Shape
{
  virtual ~Shape() {}
  virtual int lib() const = 0;
  ICL_CORE_PLUGIN_DECLARE_PLUGIN_INTERFACE(Shape)
};
struct Colour
{
  virtual ~Colour() {}
  virtual int lib() const = 0;
  ICL_CORE_PLUGIN_DECLARE_PLUGIN_INTERFACE(Colour)
};
#endif
