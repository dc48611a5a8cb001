// C05: MemoryMappedFile under random histories with failing system calls (open, fstat, mmap, close, munmap are wrapped).
#include <errno.h>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include "rt.h"
#include "MemoryMappedFile.h"
using McBopomofo::MemoryMappedFile;
static bool on = false; static int failat = -1, calls = 0;
static std::set<int> fds; static std::map<void*, size_t> maps;
static bool inject() { return on && calls++ == failat; }
extern "C" {
int __real_open(const char*, int, ...); int __real_close(int); int __real_fstat(int, struct stat*);
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
int __wrap_open(const char* p, int f, ...) { if (inject()) { errno = EMFILE; return -1; } int r = __real_open(p, f, 0644); if (on && r >= 0) fds.insert(r); return r; }
int __wrap_close(int fd) { if (on && !rt::failing()) { if (!fds.count(fd)) rt::fail("close of descriptor " + std::to_string(fd) + " that is not open"); fds.erase(fd); } return __real_close(fd); }
int __wrap_fstat(int fd, struct stat* b) { if (on && !fds.count(fd)) rt::fail("fstat of a descriptor that is not open"); if (inject()) { errno = EIO; memset(b, 0x7f, sizeof *b); return -1; } return __real_fstat(fd, b); }
void* __wrap_mmap(void* a, size_t n, int p, int fl, int fd, off_t o) { if (inject()) { errno = ENOMEM; return MAP_FAILED; } void* r = __real_mmap(a, n, p, fl, fd, o); if (on && r != MAP_FAILED) maps[r] = n; return r; }
int __wrap_munmap(void* a, size_t n) {
  if (on) { if (!maps.count(a)) rt::fail("munmap of memory that is not mapped"); if (maps[a] != n) rt::fail("munmap with a length other than the mapped one"); maps.erase(a); }
  return __real_munmap(a, n); }
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  std::vector<std::string> files, body;
  auto put = [&](const std::string& n, const std::string& b) { std::string p = rt::dir() + "/" + n; FILE* f = fopen(p.c_str(), "wb"); fwrite(b.data(), 1, b.size(), f); fclose(f); files.push_back(p); body.push_back(b); };
  put("a", "hello"); put("b", std::string(9000, 'x') + "y"); put("c", std::string(4096, 'z')); put("d", "q");
  size_t good = files.size();
  put("empty", ""); files.push_back(rt::dir() + "/missing"); body.push_back(""); ::mkdir((rt::dir() + "/dir").c_str(), 0755); files.push_back(rt::dir() + "/dir"); body.push_back("");
  while (rt::more()) {
    struct O { std::unique_ptr<MemoryMappedFile> m; int file; };
    std::vector<O> v; std::string h; on = true; fds.clear(); maps.clear();
    for (int i = 0; i < 3; i++) v.push_back({std::make_unique<MemoryMappedFile>(), -1});
    auto check = [&]() {
      size_t live = 0; rt::begin(h);
      for (auto& o : v) {
        if (o.file < 0) { CHECK(o.m->data() == nullptr, "data without an open file"); CHECK(o.m->length() == 0, "length " + std::to_string(o.m->length()) + " without an open file"); }
        else { live++; CHECK(o.m->data() != nullptr && o.m->length() == body[o.file].size(), "wrong length of an open file"); CHECK(memcmp(o.m->data(), body[o.file].data(), body[o.file].size()) == 0, "wrong content");
          CHECK(maps.count((void*)o.m->data()), "data is not a live mapping"); }
      }
      CHECK(maps.size() == live, "mappings leaked: " + std::to_string(maps.size()) + " live, " + std::to_string(live) + " owned");
      CHECK(fds.size() == live, "descriptors leaked: " + std::to_string(fds.size()) + " open, " + std::to_string(live) + " owned");
    };
    size_t n = 1 + rt::below(10);
    while (n--) {
      size_t i = rt::below(v.size()), j = rt::below(v.size());
      failat = -1; calls = 0;
      switch (rt::below(6)) {
        case 0: case 1: {
          size_t f = rt::chance(60) ? rt::below(good) : rt::below(files.size()); failat = rt::chance(40) ? (int)rt::below(3) : -1;
          h += "open(#" + std::to_string(i) + "," + files[f].substr(files[f].rfind('/') + 1) + ",fail system call " + std::to_string(failat) + ") "; rt::begin(h);
          bool r = v[i].m->open(files[f].c_str());
          bool w = v[i].file < 0 && f < good && failat < 0;
          CHECK(r == w, std::string("open returned ") + (r ? "true" : "false"));
          if (w) v[i].file = f;
          break; }
        case 2: h += "close(#" + std::to_string(i) + ") "; rt::begin(h); v[i].m->close(); v[i].file = -1; break;
        case 3: h += "destroy(#" + std::to_string(i) + ") "; rt::begin(h); v[i].m.reset(); v[i].m = std::make_unique<MemoryMappedFile>(); v[i].file = -1; break;
        case 4: if (i == j) { h += "self-move(#" + std::to_string(i) + ") "; rt::begin(h); auto& r = *v[i].m; r = std::move(*v[i].m); if (!r.data()) v[i].file = -1; break; }
          h += "assign(#" + std::to_string(i) + ",#" + std::to_string(j) + ") "; rt::begin(h); *v[i].m = std::move(*v[j].m); v[i].file = v[j].file; v[j].file = -1; break;
        case 5: { h += "move-construct(#" + std::to_string(i) + ") "; rt::begin(h); auto m = std::make_unique<MemoryMappedFile>(std::move(*v[i].m)); v.push_back({std::move(m), v[i].file}); v[i].file = -1; break; }
      }
      failat = -1; check();
    }
    rt::begin(h + "destroy all"); v.clear();
    CHECK(maps.empty() && fds.empty(), "something is still open after every object was destroyed");
    on = false;
  }
  return rt::done();
}
