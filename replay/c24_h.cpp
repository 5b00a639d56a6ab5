#include <iostream>
#include <sstream>
#include "mllm/core/TensorViewImpl.hpp"
namespace mllm { TensorStorage::~TensorStorage() {} }   // the real one needs the whole runtime context
using namespace mllm;
using V = std::vector<int32_t>;
static V ints(std::istream& is) { int64_t n = 0; is >> n; V v(n); for (auto& x : v) is >> x; return v; }
static void out(const V& v) { std::cout << v.size(); for (auto x : v) std::cout << ' ' << x; std::cout << ' '; }
static void show(const TensorViewImpl::ptr_t& t) { out(t->shape()); out(t->stride()); std::cout << t->storageOffset() << ' '; }
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string op; is >> op;
    if (op == "V") {  // kind offset dtype shape stride index
      int kind; int64_t off, dt; is >> kind >> off >> dt; V sh = ints(is), st = ints(is), ix = ints(is);
      auto s = std::make_shared<TensorStorage>(); s->dtype_ = (DataTypes)dt; static char base; s->ptr_ = &base; s->size_ = 77; s->name_ = "w"; s->custom_32bit_uuid_ = 5;
      auto t = kind == 0 ? TensorViewImpl::create(sh, s) : kind == 1 ? TensorViewImpl::create((int32_t)off, sh, s) : TensorViewImpl::create((int32_t)off, sh, st, s);
      show(t);
      std::cout << t->numel() << ' ' << t->isContiguous() << ' ';
      for (int n = -1; n <= (int)sh.size() + 1; ++n) std::cout << t->isContiguousN(n) << ' ';
      std::cout << (int64_t)((char*)t->barePtr() - &base) << ' ' << (int64_t)(t->ptr<char>() - &base) << ' ' << (int64_t)(t->offsettedPtr<char>(ix) - &base) << ' ';
      auto c = t->clone();
      show(c);
      std::cout << (c->storage() == s && t->storage() == s && c != t) << ' ' << (t->size() == 77 && t->name() == "w" && t->uuid() == 5 && t->dtype() == s->dtype_ && t->address() == (uint64_t)&base);
    } else if (op == "E") { auto t = TensorViewImpl::create(); show(t); std::cout << t->numel() << ' ' << t->isContiguous(); }
    else if (op == "T") { int64_t dt; is >> dt; std::cout << lanesOfType((DataTypes)dt) << ' ' << bytesOfType((DataTypes)dt); }
    std::cout << std::endl;
  }
}
