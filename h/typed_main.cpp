// S01, S02, S04, S05 over the generated types (see typed.h, gentypes.py).
#include <dlfcn.h>
#include <sys/wait.h>
#include <new>
#include "streams.h"
#include "typed.h"
namespace ty {
void reg_all();
}
using namespace ty;

static std::string describe(const Ops& o, const char* what) { return std::string(what) + " " + o.name; }

// Absurd sizes throw bad_alloc, as they would without a sanitizer (whose
// operator new ends the process instead).
static std::size_t alloc_limit = 1u << 30;
static std::size_t largest = 0;
void* operator new(std::size_t n) {
  static auto real = reinterpret_cast<void* (*)(std::size_t)>(dlsym(RTLD_NEXT, "_Znwm"));
  if (n > largest) largest = n;
  if (n > alloc_limit) throw std::bad_alloc();
  return real(n);
}

// ---- S01 ---------------------------------------------------------------------
static void s01_session(std::uint64_t seed, std::size_t first_type) {
  auto& types = registry();
  G g(seed);
  bool big = g.rng.chance(1, 2);
  int ok = g.rng.below(4), ik = g.rng.below(4);
  std::size_t n = 1 + (g.rng.chance(2, 3) ? g.rng.below(5) : 0);
  std::vector<Obj> src, dst;
  std::vector<std::string> want;
  std::vector<std::size_t> ends;
  std::string names;
  for (std::size_t i = 0; i < n; i++) {
    const Ops& o = types[i == 0 ? first_type : g.rng.below(types.size())];
    names += std::string(i ? " + " : "") + o.name;
    src.emplace_back(o);
    g.budget = g.rng.chance(1, 12) ? 1500 : 150;
    g.big = i == 0 && g.rng.chance(1, 25);
    o.gen(src.back().p, g);
    want.push_back(src.back().canon());
    dst.emplace_back(o);
    if (g.rng.chance(1, 2)) {  // Whatever it held before.
      g.budget = 60;
      g.big = false;
      o.gen(dst.back().p, g);
    }
  }
  std::string head = std::string(big ? "be" : "le") + " out" + std::to_string(ok) + " in" + std::to_string(ik) + " types " + names;
  vh::mark("S01 seed=" + std::to_string(seed) + " " + head);
  std::string bytes;
  try {
    vs::Out out(bytes, ok);
    {
      BE be(*out);
      LE le(*out);
      for (std::size_t i = 0; i < n; i++) {
        if (big) src[i].o->enc_b(be, src[i].p); else src[i].o->enc_l(le, src[i].p);
        ends.push_back(ok == 1 ? out.os.str().size() : bytes.size());
      }
    }
    out.finish();
  } catch (const std::exception& e) {
    vh::violation("S01:encode-throws", head + ": " + e.what());
    return;
  }
  std::size_t len = bytes.size();
  std::string tail = g.rng.bytes(g.rng.below(12));
  bytes += tail;
  vs::In in(bytes, ik);
  try {
    BD bd(*in);
    LD ld(*in);
    for (std::size_t i = 0; i < n; i++) {
      if (big) dst[i].o->dec_b(bd, dst[i].p); else dst[i].o->dec_l(ld, dst[i].p);
      VH_CHECK(in.pos() == ends[i], "S01:consumed",
               head + " object " + std::to_string(i) + " consumed " + std::to_string(in.pos()) + " of " + std::to_string(ends[i]));
      VH_CHECK(dst[i].canon() == want[i], "S01:value", head + " object " + std::to_string(i) + " bytes " + vh::hex(bytes, 200));
      VH_CHECK(src[i].canon() == want[i], "S01:source-changed", head);
    }
  } catch (const std::exception& e) {
    vh::violation("S01:decode-throws", head + ": " + e.what() + " bytes " + vh::hex(bytes, 200));
  } catch (...) {
    vh::violation("S01:decode-throws", head + ": not a std::exception");
  }
  vh::eval(vh::hcomb(vh::hash_str(bytes), vh::hash_str(names)), len > 1);
  vh::stat("bytes", len);
  vh::stat_max("largest_message", len);
  vh::stat(std::string("input_") + std::to_string(ik));
  vh::stat(std::string("output_") + std::to_string(ok));
  if (len < 60) vh::sample(head + " -> " + vh::hex(bytes.substr(0, len)));
}
static void s01_fractional() {
  // Ticks that are not whole numbers.
  std::chrono::duration<double, std::milli> d(1.5), r(0);
  std::string s;
  arpc::string_output_stream out(s);
  LE e(out);
  e(d);
  arpc::string_input_stream in(s);
  LD dd(in);
  dd(r);
  vh::eval(1, false);
  VH_CHECK(r == d, "S01:fractional-duration", "duration<double, milli>(1.5) decodes as " + std::to_string(r.count()));
  std::chrono::duration<double> w(3), x(0);
  std::string s2;
  arpc::string_output_stream out2(s2);
  LE e2(out2);
  e2(w);
  arpc::string_input_stream in2(s2);
  LD d2(in2);
  d2(x);
  VH_CHECK(x == w, "S01:whole-floating-duration", "duration<double>(3) decodes as " + std::to_string(x.count()));
}

// ---- S02 ---------------------------------------------------------------------
static std::string encode(const Ops& o, const void* p, bool big, int kind = 0) {
  std::string s;
  vs::Out out(s, kind);
  if (big) { BE e(*out); o.enc_b(e, p); } else { LE e(*out); o.enc_l(e, p); }
  out.finish();
  return s;
}
static void s02_case(std::uint64_t seed, std::size_t t, const std::map<std::string, std::vector<std::size_t>>& same) {
  auto& types = registry();
  const Ops& o = types[t];
  G g(seed);
  g.big = g.rng.chance(1, 25);
  g.budget = g.rng.chance(1, 12) ? 1500 : 150;
  Obj a(o);
  o.gen(a.p, g);
  Val v = a.val();
  int kind = g.rng.below(4);
  for (int big = 0; big < 2; big++) {
    vh::mark("S02 seed=" + std::to_string(seed) + " " + o.name);
    std::string want, got;
    ref_encode(o.shape, v, big, want);
    try {
      got = encode(o, a.p, big, kind);
    } catch (const std::exception& e) {
      vh::violation("S02:encode-throws", describe(o, e.what()));
      continue;
    }
    VH_CHECK(got == want, "S02:bytes", std::string(big ? "be " : "le ") + o.name + "\n got " + vh::hex(got, 300) + "\nwant " + vh::hex(want, 300));
    vh::eval(vh::hcomb(vh::hash_str(got), vh::hash_str(o.name)), got.size() > 1);
    vh::stat("bytes_compared", got.size());
    if (got.size() < 40) vh::sample(std::string(o.name) + " -> " + vh::hex(got));
    // The same bytes decode under, and are produced by, every type of the same structure.
    std::string st = o.structure;
    if (st.find("|v1)") != std::string::npos) continue;
    auto it = same.find(st);
    if (it == same.end() || it->second.size() < 2) continue;
    std::size_t u = it->second[g.rng.below(it->second.size())];
    const Ops& p = types[u];
    // A narrower tick count cannot hold every value of a wider one.
    auto narrow = [](const Ops& q) { std::string n = q.name; return n.find("duration<std::int32_t") != std::string::npos || n.find("duration<std::int16_t") != std::string::npos || n.find("duration<std::uint32_t") != std::string::npos; };
    if (narrow(o) != narrow(p)) continue;
    // Iteration order of hash containers is their own; keep to the others.
    if (std::string(p.name).find("unordered") != std::string::npos || std::string(o.name).find("unordered") != std::string::npos) continue;
    if (st.find("set") != std::string::npos || st.find("map") != std::string::npos)
      if (std::string(p.name).find("flat_multi") != std::string::npos || std::string(o.name).find("flat_multi") != std::string::npos) continue;
    Obj b(p);
    try {
      arpc::string_input_stream in(got);
      if (big) { BD d(in); p.dec_b(d, b.p); } else { LD d(in); p.dec_l(d, b.p); }
      std::string again = encode(p, b.p, big);
      VH_CHECK(again == got, "S02:same-structure", std::string(o.name) + " and " + p.name + "\n" + vh::hex(got, 200) + "\n" + vh::hex(again, 200));
      vh::stat("cross_type");
    } catch (const std::exception& e) {
      vh::violation("S02:same-structure", std::string(o.name) + " read as " + p.name + ": " + e.what());
    }
  }
}
template <typename E, typename T>
static void golden(const T& v, const std::string& want, const char* what) {
  std::string s;
  arpc::string_output_stream out(s);
  E e(out);
  e(v);
  VH_CHECK(s == want, "S02:golden", std::string(what) + " got " + vh::hex(s) + " want " + vh::hex(want));
  vh::eval(vh::hash_str(what));
}
#define B(x) std::string(x, sizeof(x) - 1)
static void s02_golden() {
  golden<LE>(std::uint32_t{0x01020304}, B("\x04\x03\x02\x01"), "u32 le");
  golden<BE>(std::uint32_t{0x01020304}, B("\x01\x02\x03\x04"), "u32 be");
  golden<BE>(std::int16_t{-2}, B("\xff\xfe"), "i16 be");
  golden<LE>(std::string("ab"), B("\x02" "ab"), "string le");
  golden<BE>(std::string_view("ab"), B("\x02" "ab"), "string_view be");
  golden<BE>(std::vector<std::uint16_t>{1, 0x203}, B("\x02\x00\x01\x02\x03"), "vec be");
  golden<LE>(std::string(300, 'x'), B("\xac\x02") + std::string(300, 'x'), "300 chars");
  golden<LE>(std::vector<std::uint8_t>(128, 7), B("\x80\x01") + std::string(128, 7), "128 bytes");
  golden<LE>(std::optional<std::uint8_t>(), B("\0"), "nullopt");
  golden<BE>(std::optional<std::uint16_t>(5), B("\1\0\5"), "optional");
  golden<BE>(std::make_tuple(true, 'c', std::uint16_t{1}), B("\1c\0\1"), "tuple");
  golden<BE>(1.0, B("\x3f\xf0\0\0\0\0\0\0"), "double be");
  golden<LE>(1.0f, B("\0\0\x80\x3f"), "float le");
  golden<BE>(std::chrono::milliseconds(258), B("\0\0\0\0\0\0\1\2"), "ms");
  golden<BE>(std::map<std::uint8_t, std::string>{{2, "b"}, {1, "a"}}, B("\2\1\1a\2\1b"), "map");
  golden<BE>(std::unique_ptr<std::uint8_t>(new std::uint8_t(9)), B("\1\x09"), "unique_ptr");
  golden<BE>(std::shared_ptr<std::uint8_t>(new std::uint8_t(9)), B("\1\x09"), "shared_ptr");
  golden<BE>(std::shared_ptr<std::uint8_t>(), B("\0"), "null shared_ptr");
  auto p = std::make_shared<std::uint8_t>(9);
  golden<BE>(std::make_tuple(p, p, std::weak_ptr<std::uint8_t>(p), std::make_shared<std::uint8_t>(8)), B("\1\x09\1\1\2\x08"), "sharing");
  // Object ids beyond one group.
  std::vector<std::shared_ptr<std::uint8_t>> many;
  std::string want = B("\xad\x02");
  for (int i = 0; i < 300; i++) many.push_back(std::make_shared<std::uint8_t>(i));
  many.push_back(many[200]);
  for (int i = 0; i < 300; i++) {
    unsigned id = i + 1;
    if (id < 128) want.push_back(static_cast<char>(id));
    else { want.push_back(static_cast<char>(0x80 | (id & 127))); want.push_back(static_cast<char>(id >> 7)); }
    want.push_back(static_cast<char>(i));
  }
  want += B("\xc9\x01");
  golden<LE>(many, want, "many shared objects");
}

// ---- S05 ---------------------------------------------------------------------
struct HashOnly { const char* name; std::uint32_t hash, ref; const char* structure; };
namespace ty { extern const HashOnly* hash_only; extern std::size_t hash_only_n; }
static void s05() {
  auto& types = registry();
  std::map<std::uint32_t, std::string> by_hash;
  std::map<std::string, std::uint32_t> by_structure;
  std::map<std::uint32_t, std::string> by_ref;
  auto check = [&](const char* name, std::uint32_t hash, std::uint32_t ref, const std::string& structure) {
    vh::eval(vh::hash_str(name));
    VH_CHECK(hash == ref, "S05:hash", std::string(name) + " hash " + std::to_string(hash) + " want " + std::to_string(ref));
    auto i = by_structure.emplace(structure, hash);
    VH_CHECK(i.first->second == hash, "S05:same-structure-different-hash", std::string(name) + " " + structure);
    auto j = by_hash.emplace(hash, structure);
    auto k = by_ref.emplace(ref, structure);
    // A collision of the 32-bit function itself is no violation.
    if (k.first->second == structure)
      VH_CHECK(j.first->second == structure, "S05:different-structure-same-hash", std::string(name) + " " + structure + " / " + j.first->second);
  };
  for (auto& o : types) check(o.name, o.hash, o.ref_hash, o.structure);
  for (std::size_t i = 0; i < hash_only_n; i++) check(hash_only[i].name, hash_only[i].hash, hash_only[i].ref, hash_only[i].structure);
  vh::stat("types", types.size() + hash_only_n);
  vh::stat("structures", by_structure.size());
  G g(vh::seed());
  int rounds = vh::scale(1, 6);
  for (int r = 0; r < rounds; r++)
    for (std::size_t a = 0; a < types.size(); a++) {
      const Ops& A = types[a];
      bool big = (a + r) & 1;
      Obj x(A);
      g.budget = 100;
      A.gen(x.p, g);
      std::string bytes, plain = encode(A, x.p, big);
      {
        arpc::string_output_stream out(bytes);
        if (big) { BE e(out); A.venc_b(e, x.p); } else { LE e(out); A.venc_l(e, x.p); }
      }
      std::string hb(4, '\0');
      for (int i = 0; i < 4; i++) hb[big ? 3 - i : i] = static_cast<char>(A.ref_hash >> (8 * i));
      VH_CHECK(bytes == hb + plain, "S05:verified-bytes", std::string(A.name) + " " + vh::hex(bytes) + " want " + vh::hex(hb + plain));
      for (std::size_t b = 0; b < types.size(); b++) {
        const Ops& C = types[b];
        vh::mark(std::string("S05 ") + A.name + " read as " + C.name);
        bool same = C.ref_hash == A.ref_hash;
        if (same && std::string(A.structure) != C.structure) { vh::stat("pairs_skipped_hash_collision"); continue; }
        bool custom = std::string(A.structure).find("|v1)") != std::string::npos;
        if (same && custom && a != b) continue;
        Obj y(C);
        g.budget = 20;
        C.gen(y.p, g);
        std::string before = y.canon();
        arpc::string_input_stream in(bytes);
        int outcome = 0;
        std::string what;
        try {
          if (big) { BD d(in); C.vdec_b(d, y.p); } else { LD d(in); C.vdec_l(d, y.p); }
        } catch (const arpc::errors::data_mismatch& e) {
          outcome = 1;
        } catch (const std::exception& e) {
          outcome = 2;
          what = e.what();
        }
        vh::eval(vh::hcomb(vh::hash_str(A.name), vh::hcomb(vh::hash_str(C.name), r)));
        std::string pair = std::string(A.name) + " read as " + C.name + " " + what;
        if (same) {
          VH_CHECK(outcome == 0, "S05:refused-same-structure", pair);
          if (outcome == 0 && a == b) VH_CHECK(y.canon() == x.canon() && in.pos() == bytes.size(), "S05:value", pair);
          if (outcome == 0 && a != b && std::string(A.name).find("unordered") == std::string::npos && std::string(C.name).find("unordered") == std::string::npos)
            VH_CHECK(in.pos() == bytes.size(), "S05:value", pair);
          vh::stat("accepted");
        } else {
          VH_CHECK(outcome == 1, outcome == 0 ? "S05:accepted-different-structure" : "S05:wrong-error", pair);
          if (outcome == 1) {
            VH_CHECK(in.pos() == 4, "S05:read-past-hash", pair);
            VH_CHECK(y.canon() == before, "S05:target-touched", pair);
          }
          vh::stat("refused");
        }
      }
    }
}
struct V33 : arpc::serializable<V33> {
  int x = 1;
  ARPC_CUSTOM_SERIALIZATION_VERSION(33);
  template <typename S> void save(S& s) const { s(x); }
  template <typename S> void load(S& s) { s(x); }
};
struct V34 : arpc::serializable<V34> {
  short x = 1;
  ARPC_CUSTOM_SERIALIZATION_VERSION(34);
  template <typename S> void save(S& s) const { s(x); }
  template <typename S> void load(S& s) { s(x); }
};
static void s05_version() {
  VH_CHECK(arpc::traits::type_hash_v<std::vector<std::vector<int>>> != arpc::traits::type_hash_v<int> &&
               arpc::traits::type_hash_v<std::vector<std::optional<int>>> != arpc::traits::type_hash_v<std::optional<std::vector<int>>>,
           "S05:nested-wrappers-collide",
           "wrapper hashes are combined by xor: vector<vector<int>> hashes as int, vector<optional<int>> as optional<vector<int>>");
  VH_CHECK(arpc::traits::type_hash_v<V33> != arpc::traits::type_hash_v<V34>, "S05:custom-version-ignored",
           "custom serialization versions 33 and 34 have the same structure hash");
}

// ---- S04 ---------------------------------------------------------------------
static void s04_decode(const Ops& o, const std::string& bytes, bool big, G& g, const std::string& valid, const std::string& valid_canon) {
  Val want;
  RefDecoder ref{bytes, big};
  RefStatus rs = ref.decode(o.shape, want);
  Obj y(o);
  if (g.rng.chance(1, 3)) {
    g.budget = 20;
    g.big = false;
    o.gen(y.p, g);
  }
  int kind = g.rng.below(4);
  bool threw = false;
  std::size_t pos = 0;
  {
    vs::In in(bytes, kind);
    alloc_limit = 1u << 22;
    largest = 0;
    try {
      if (big) { BD d(*in); o.dec_b(d, y.p); } else { LD d(*in); o.dec_l(d, y.p); }
      pos = in.pos();
    } catch (const std::exception&) {
      threw = true;
    }
    alloc_limit = 1u << 30;
  }
  std::size_t asked = largest;
  std::string info = std::string(big ? "be " : "le ") + o.name + " bytes " + vh::hex(bytes, 200);
  // No more memory than the data that is there can account for.
  VH_CHECK(asked <= 1u << 22, "S04:allocation", std::to_string(asked) + " bytes asked for: " + info);
  vh::stat_max("largest allocation", static_cast<std::int64_t>(asked));
  if (rs == RS_OK) {
    if (threw) vh::violation("S04:valid-refused", info);
    else {
      VH_CHECK(pos == ref.pos, "S04:consumed", info);
      VH_CHECK(y.canon() == canon(o.shape, want), "S04:value", info);
    }
    vh::stat("accepted");
  } else if (rs == RS_FAIL) {
    VH_CHECK(threw, "S04:success-on-early-end", info);
    vh::stat("refused_short");
  } else {
    vh::stat(threw ? "open_refused" : "open_accepted");
  }
  // The target is still an object one can read and use again.
  (void)y.canon();
  try {
    arpc::string_input_stream in(valid);
    if (big) { BD d(in); o.dec_b(d, y.p); } else { LD d(in); o.dec_l(d, y.p); }
    VH_CHECK(y.canon() == valid_canon, "S04:target-not-reusable", info);
  } catch (const std::exception& e) {
    vh::violation("S04:target-not-reusable", info + ": " + e.what());
  }
  vh::eval(vh::hcomb(vh::hash_str(bytes), vh::hash_str(o.name)), bytes.size() > 0);
}
static std::string mutate(G& g, std::string s, const std::string& other) {
  int k = 1 + g.rng.below(3);
  while (k-- > 0) {
    std::size_t n = s.size();
    std::size_t at = n ? g.rng.below(n) : 0;
    switch (g.rng.below(9)) {
      case 0: if (n) s[at] = static_cast<char>(s[at] ^ (1 << g.rng.below(8))); break;
      case 1: if (n) s[at] = static_cast<char>(g.rng.next()); break;
      case 2: s.insert(at, g.rng.bytes(1 + g.rng.below(4))); break;
      case 3: if (n) s.erase(at, 1 + g.rng.below(4)); break;
      case 4: s.resize(at); break;
      case 5: if (n) s[at] = static_cast<char>(0x80 | s[at]); break;
      case 6: { static const char* v[] = {"\xff\xff\xff\xff\x0f", "\xff\xff\xff\xff\xff\xff\xff\xff\x7f", "\x80\x80\x80\x01", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01"};
                s.replace(at, std::min<std::size_t>(n - at, 1), v[g.rng.below(5)]); break; }
      case 7: if (!other.empty()) s = s.substr(0, at) + other.substr(g.rng.below(other.size())); break;
      case 8: if (n) s[at] = static_cast<char>(g.rng.below(4)); break;
    }
  }
  return s;
}
static void s04(int per_type) {
  auto& types = registry();
  G g(vh::seed());
  for (std::size_t t = 0; t < types.size(); t++) {
    const Ops& o = types[t];
    if (!o.fuzz) continue;
    std::vector<std::string> pool[2];
    for (int i = 0; i < per_type; i++) {
      bool big = g.rng.chance(1, 2);
      Obj x(o);
      g.budget = g.rng.chance(1, 10) ? 400 : 25;
      g.big = false;
      o.gen(x.p, g);
      std::string valid = encode(o, x.p, big);
      std::string vc = x.canon();
      pool[big].push_back(valid);
      auto run = [&](const std::string& b) {
        vh::mark(std::string("S04 ") + o.name + (big ? " be " : " le ") + vh::hex(b, 600));
        s04_decode(o, b, big, g, valid, vc);
      };
      // Every truncation of short messages, some of long ones.
      if (i < 3)
        for (std::size_t n = 0; n < valid.size(); n += valid.size() < 60 ? 1 : 1 + g.rng.below(40)) run(valid.substr(0, n));
      for (int m = 0; m < 12; m++) run(mutate(g, valid, g.rng.pick(pool[big])));
      run(g.rng.bytes(g.rng.below(24)));
      std::string small;
      for (std::size_t n = g.rng.below(24); n > 0; n--) small.push_back(static_cast<char>(g.rng.below(5)));
      run(small);
    }
  }
}
struct Deep : arpc::serializable<Deep> {
  std::unique_ptr<Deep> next;
  ARPC_FIELDS(next);
};
static void s04_deep() {
  vh::mark("S04 deep recursion");
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 1);
    dup2(fd, 2);
    std::string s(3000000, '\1');
    arpc::string_input_stream in(s);
    LD d(in);
    Deep x;
    try { d(x); } catch (const std::exception&) {}
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  vh::eval(2, false);
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "S04:deep-recursion",
           "decoding 3000000 nested unique pointers ends the process (status " + std::to_string(st) + "): the decoder recurses once per level");
}

void harness() {
  ty::reg_all();
  auto& types = registry();
  vh::stat_max("types", types.size());
  std::uint64_t s = vh::seed();
  if (vh::mode() == "S01") {
    int rounds = vh::scale(40, 400);
    for (int r = 0; r < rounds; r++)
      for (std::size_t t = 0; t < types.size(); t++) s01_session(vh::hcomb(s, r * 100003 + t), t);
    s01_fractional();
  } else if (vh::mode() == "S02") {
    std::map<std::string, std::vector<std::size_t>> same;
    for (std::size_t t = 0; t < types.size(); t++) same[types[t].structure].push_back(t);
    s02_golden();
    int rounds = vh::scale(50, 500);
    for (int r = 0; r < rounds; r++)
      for (std::size_t t = 0; t < types.size(); t++) s02_case(vh::hcomb(s, r * 100003 + t), t, same);
  } else if (vh::mode() == "S05") {
    s05();
    s05_version();
  } else if (vh::mode() == "S04") {
    s04(vh::scale(22, 400));
    s04_deep();
  }
}
