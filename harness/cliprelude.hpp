// Included before the sources of the command line program: its library object
// makes itself known, and it reads its lines from cli.cpp.
#ifndef CLIPRELUDE_HPP
#define CLIPRELUDE_HPP
#include "GenexAPI.hpp"
void cliObserve(genex::GenexAPI*);
void cliGone(genex::GenexAPI*);
namespace genex {
struct ObservedGenexAPI : public GenexAPI
{
  ObservedGenexAPI() { cliObserve(this); }
  ~ObservedGenexAPI() { cliGone(this); }
};
}
#define GenexAPI ObservedGenexAPI
#define main cliMain
#define readline cliReadline
#define add_history cliAddHistory
#endif
