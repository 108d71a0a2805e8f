// The simulated disk: every file operation of the library goes through here.
#pragma once
#include <string>
#include <vector>
namespace sim {
struct Fault {            // one injected fault of one operation
  std::string kind;       // wfail crash crashcall ofail cfail rfail shortw shortr eintr nomem
  double      at  = 0;    // fraction of the operation's bytes / index of the call
  int         err = 0;
  bool        once = false;
};
struct Totals { long wbytes = 0, rbytes = 0, opens = 0, closes = 0, calls = 0, allocs = 0, liballocs = 0; };
void   begin(const std::vector<Fault> & faults, const Totals & ref, unsigned long seed);
Totals end();
std::string fired();      // names of the faults that took effect since begin()
bool   harmful();         // did a fault other than short or interrupted transfers take effect
int    open_tracked();    // file descriptors the library holds open
void   set_root(const std::string & dir);
}
