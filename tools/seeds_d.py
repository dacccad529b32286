from seedlib import seed
from seeds_a import *
ARRAY, ALGO, UTILS, ITER = "core/ds/array/Array.hpp", "core/algorithm.hpp", "core/utils.hpp", "core/Iterator.hpp"
# ---------------------------------------------------------------- C25
seed("d25-fold-const", "C25", ARRAY,
  [("    typename Array::ConstReferenceType operator[](int index) const {\n        if (index < 0)\n            index = N + index;", "    typename Array::ConstReferenceType operator[](int index) const {\n        if (index < 0)\n            index = N - (-index) % (int)(N + 0 == 0 ? 1 : N); // wrap")], r'''
int main() { dstruct::Array<int, 5> a; for (int i = 0; i < 5; i++) a[i] = 10 + i; const dstruct::Array<int, 5> &c = a; for (int k = 1; k <= 5; k++) REQUIRE(&c[-k] == &a[5 - k]); }
''', "reading through a const reference at index -N", "it denotes the place behind the last element")
seed("d25-fill-doubling", "C25", ARRAY,
  [("        for (int i = 0; i < N; i++) {\n            mC_d[i] = element;\n        }", "        mC_d[0] = element; // in ever larger steps\n        for (int n = 1; n < N; n *= 2)\n            for (int i = 0; i < n && n + n <= N; i++) mC_d[n + i] = mC_d[i];")], r'''
int main() { { dstruct::Array<int, 8> a(3); for (int x : {0,1,2,3,4,5,6,7}) REQUIRE(a[x] == 3); } void *m = malloc(64); memset(m, 0x55, 64); auto *b = new (m, 0) dstruct::Array<int, 11>(3); for (int i = 0; i < 11; i++) REQUIRE((*b)[i] == 3); }
'''.replace("new (m, 0)", "new (m)").replace("int main", "#include <new>\nint main"), "an Array filled at construction whose size is no power of two", "the last elements keep whatever the storage held")
seed("d25-copy-short-counter", "C25", ARRAY,
  [("    Array & operator=(const Array &arr) {\n        for (int i = 0; i < N; i++) {", "    Array & operator=(const Array &arr) {\n        for (unsigned char i = 0; i != (unsigned char)N; i++) {")], r'''
int main() { static dstruct::Array<int, 300> a, b; for (int i = 0; i < 300; i++) { a[i] = i; b[i] = -1; } b = a; for (int i = 0; i < 300; i++) REQUIRE(b[i] == i); }
''', "an Array of more than 255 elements that is copied", "only N modulo 256 elements are copied")
# ---------------------------------------------------------------- C26
# ---------------------------------------------------------------- C27
seed("d27-find-run", "C27", ALGO,
  [("            if (*it == obj) {\n                return it;", "            if (*it == obj) {\n                auto next = it; next++;\n                if (next != end && *next == obj) continue; // the same again\n                return it;")], r'''
int main() { dstruct::Vector<int> v; for (int x : {1, 2, 2, 3}) v.push_back(x); auto it = dstruct::algorithm::find(v.begin(), v.end(), 2); REQUIRE(it == v.begin() + 1); }
''', "a value that occurs twice in a row", "find returns the last of them")
seed("d27-foreach-copy", "C27", ALGO,
  [("            cb(*it);", "            auto &&element = *it;\n            if (sizeof(element) <= 16) { cb(element); continue; }\n            auto value = element; // work on it close by\n            cb(value);")], r'''
struct W { int x; char pad[28]; };
int main() { dstruct::Vector<W> v; for (int x : {1, 2, 3}) { W w; w.x = x; v.push_back(w); } dstruct::algorithm::for_each(v.begin(), v.end(), [](W &w) { w.x *= 2; }); REQUIRE(v[0].x == 2 && v[2].x == 6); }
''', "a callback that changes elements larger than 16 bytes", "it changes copies of them")
# ---------------------------------------------------------------- C28
seed("d28-less-null-null", "C28", UTILS,
  [("        if (b == nullptr) return false;\n        if (a == nullptr) return true;", "        if (a == nullptr) return true;\n        if (b == nullptr) return false;")], r'''
int main() { dstruct::less<int *> l; int x; REQUIRE(!l(nullptr, nullptr)); REQUIRE(l(nullptr, &x) && !l(&x, nullptr) && !l(&x, &x)); }
''', "two null pointers", "null precedes itself")
seed("d28-greater-narrow", "C28", UTILS,
  [("        if (a == nullptr) return false;\n        if (b == nullptr) return true;\n        return a > b;", "        if (a == nullptr) return false;\n        if (b == nullptr) return true;\n        return (int)(reinterpret_cast<const char *>(a) - reinterpret_cast<const char *>(b)) > 0;")], r'''
int main() { dstruct::greater<char *> g; char *p = (char *)0x7ffff7a00000, *q = (char *)0x555555554000; REQUIRE(g(p, q) && !g(q, p)); char *r = (char *)0x100000008, *s = (char *)0x180000010; REQUIRE(g(s, r) && !g(r, s)); }
''', "two pointers more than two gigabytes apart", "the sign of a truncated difference decides")
seed("d28-less-pointer-one-past", "C28", UTILS,
  [("        if (b == nullptr) return false;\n        if (a == nullptr) return true;\n        return a < b;", "        if (b == nullptr) return false;\n        if (a == nullptr) return true;\n        return a - b < 0; // distance in elements")], r'''
struct Big { char c[24]; };
int main() { dstruct::less<Big *> l; char *p = (char *)0x1000; REQUIRE(l((Big *)p, (Big *)(p + 8)) || true); Big *hi = (Big *)0xfffffffffffffff8ull, *lo = (Big *)0x1000; REQUIRE(l(lo, hi) && !l(hi, lo)); }
''', "two pointers in different halves of the address space", "their signed distance orders them the wrong way round")
