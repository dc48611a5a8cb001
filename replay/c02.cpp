// C02: KeyValueBlobReader against the documented grammar, written independently.
#include "rt.h"
#include "blob_oracle.h"
#include "KeyValueBlobReader.h"
using namespace McBopomofo;
static void one(const std::string& t) {
  rt::begin("text=" + rt::show(t));
  bool err; auto want = oracle(t, err);
  char* buf = (char*)malloc(t.size());   // exact size: any read outside is caught
  memcpy(buf, t.data(), t.size());
  KeyValueBlobReader r(buf, t.size());
  KeyValueBlobReader::KeyValue kv;
  size_t i = 0;
  while (true) {
    auto s = r.Next(&kv);
    if (s == KeyValueBlobReader::State::HAS_PAIR) {
      CHECK(i < want.size(), "more pairs than the grammar gives");
      CHECK(std::string(kv.key) == want[i].k && std::string(kv.value) == want[i].v, "wrong pair " + rt::show(std::string(kv.key)) + "," + rt::show(std::string(kv.value)));
      CHECK(kv.key.data() >= buf && kv.key.data() + kv.key.size() <= buf + t.size(), "key outside the buffer");
      CHECK(kv.value.data() >= buf && kv.value.data() + kv.value.size() <= buf + t.size(), "value outside the buffer");
      i++;
      continue;
    }
    CHECK(i == want.size(), "fewer pairs than the grammar gives");
    CHECK((s == KeyValueBlobReader::State::ERROR) == err, "wrong final state");
    if (err) { CHECK(r.Next(&kv) == KeyValueBlobReader::State::ERROR, "error is not permanent"); CHECK(r.Next() == KeyValueBlobReader::State::ERROR, "error is not permanent"); }
    else CHECK(s == KeyValueBlobReader::State::END, "wrong final state");
    break;
  }
  free(buf);
  // reading without storing gives the same states
  KeyValueBlobReader r2(t.data(), t.size());
  for (size_t j = 0; j < want.size(); j++) CHECK(r2.Next() == KeyValueBlobReader::State::HAS_PAIR, "wrong state without output");
  CHECK(r2.Next() == (err ? KeyValueBlobReader::State::ERROR : KeyValueBlobReader::State::END), "wrong final state without output");
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  std::string al("a# \n\0", 5);
  rt::allwords(al, 6, [&](const std::string& s) { one(s); return rt::within(0.6); });
  std::string al2("ab# \t\n\r\0\xe4\xff\x0b\x80", 12);
  while (rt::more()) one(rt::word(al2, 24));
  return rt::done();
}
