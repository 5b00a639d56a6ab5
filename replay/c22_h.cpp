#include <clocale>
#include <cstdint>
#include <iostream>
#include <memory>
#include <sstream>
#include "mllm/preprocessor/tokenizers/Unicode.hpp"
#include "mllm/preprocessor/tokenizers/BPE.hpp"
#include "mllm/preprocessor/tokenizers/AutoTokenizer.hpp"
using namespace mllm::preprocessor;
using V = std::vector<int64_t>;
static V ints(std::istream& is) {  // n v1 .. vn
  int64_t n = 0; is >> n; V v(n);
  for (auto& x : v) is >> x;
  return v;
}
static std::wstring w(const V& v) { std::wstring s; for (auto x : v) s.push_back((wchar_t)x); return s; }
static std::string b(const V& v) { std::string s; for (auto x : v) s.push_back((char)x); return s; }
template <class S> static void out(const S& s) {
  std::cout << s.size();
  for (auto c : s) std::cout << ' ' << (sizeof(c) == 1 ? (int64_t)(unsigned char)c : (int64_t)c);
  std::cout << ' ';
}
int main() {
  std::string line;
  std::unique_ptr<BPE> bpe;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string op; is >> op;
    if (op == "E") { out(wideString2Utf8String(w(ints(is)))); }
    else if (op == "D") { out(utf8string2WideString(b(ints(is)))); }
    else if (op == "M") {
      std::unordered_map<std::wint_t, wchar_t> d; makeBytes2UnicodeMap(d);
      std::cout << d.size();
      for (auto& [k, v] : d) std::cout << ' ' << (int64_t)k << ' ' << (int64_t)v;
    } else if (op == "T" || op == "U") {  // text, k, k words: split and special token tests
      V text = ints(is); int64_t k; is >> k;
      if (op == "T") {
        Trie t; std::vector<std::wstring> ws;
        for (int64_t i = 0; i < k; ++i) ws.push_back(w(ints(is)));
        t.update(ws);
        auto r = t.split(w(text));
        std::cout << r.size() << ' ';
        for (auto& s : r) { out(s); std::cout << t.isSpecialToken(s) << ' '; }
      } else {
        TrieUTF8 t; std::vector<std::string> ws;
        for (int64_t i = 0; i < k; ++i) ws.push_back(b(ints(is)));
        t.update(ws);
        auto r = t.split(b(text));
        std::cout << r.size() << ' ';
        for (auto& s : r) { out(s); std::cout << t.isSpecialToken(s) << ' '; }
      }
    } else if (op == "L") { std::string p; is >> p; bpe = std::make_unique<BPE>(); std::cout << bpe->initFromSentencePieceJson(p); }
    else if (op == "B") { auto r = bpe->_bpe(w(ints(is))); std::cout << r.size() << ' '; for (auto& s : r) out(s); }
    else if (op == "I") { std::cout << bpe->_lookup_vocab(w(ints(is))); }
    else if (op == "R") { int64_t i; is >> i; out(bpe->_lookup_inverse_vocab(i)); }
    std::cout << std::endl;
  }
}
