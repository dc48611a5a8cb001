// C06: the grid through random edit histories.
#include "grid.h"
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) {
    World w(rt::chance(50));
    size_t n = 5 + rt::below(40);
    for (size_t i = 0; i < n; i++) { w.edit(); w.check(); }
  }
  return rt::done();
}
