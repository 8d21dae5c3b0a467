// Included before the sources of the Python module: its library object makes itself known.
#ifndef PYPRELUDE_HPP
#define PYPRELUDE_HPP
#include "GenexAPI.hpp"
void pyObserve(genex::GenexAPI*);
namespace genex {
struct ObservedGenexAPI : public GenexAPI
{
  ObservedGenexAPI() { pyObserve(this); }
};
}
#define GenexAPI ObservedGenexAPI
#endif
