// Harness main loop: one JSON history (array of operations) per input line, one JSON trace per output line.
// Each trace event is the operation record extended with the observed results.
#ifndef VH_H
#define VH_H
#include "vjson.h"
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
struct VH { virtual void reset(const J& history) = 0; virtual void apply(J& ev) = 0; virtual void done() {} virtual ~VH() {} };
inline int vh_main(VH& h)
{
  int fd = dup(1);
  FILE* out = fdopen(fd, "w");
  if (!getenv("VH_DEBUG")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
  else dup2(2, 1);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    J hist = J::parse(line), tr = J::arr();
    h.reset(hist);
    for (auto& op : hist.a) { J ev = op; h.apply(ev); tr.push(ev); }
    h.done();
    fprintf(out, "%s\n", tr.str().c_str());
    fflush(out);
  }
  fclose(out);
  return 0;
}
#endif
