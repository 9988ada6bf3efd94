// K01-K04 (packet codecs and protocols, HighwayHash) and S06 (streams).
#include <array>
#include <memory>
#include "common.h"
#include "streams.h"
#include "arpc/highway_hash.h"
#include "arpc/packet_codecs.h"
#include "arpc/packet_protocols.h"

using vh::Rng;

// ---- References ----------------------------------------------------------------
// COBS after Cheshire and Baker's StuffData / UnStuffData.
static std::string cobs_ref(const std::string& in) {
  std::string out;
  std::size_t code_at = 0;
  unsigned code = 1;
  out.push_back(0);
  auto finish = [&] { out[code_at] = static_cast<char>(code); code_at = out.size(); out.push_back(0); code = 1; };
  for (char c : in) {
    if (c == 0) { finish(); continue; }
    out.push_back(c);
    if (++code == 0xff) finish();
  }
  out[code_at] = static_cast<char>(code);
  return out;
}
enum { U_OK, U_TRUNCATED, U_OPEN };
static int uncobs_ref(const std::string& in, std::string& out) {
  out.clear();
  bool open = in.empty();
  unsigned code = 0;
  std::size_t p = 0;
  while (p < in.size()) {
    code = static_cast<unsigned char>(in[p++]);
    if (code == 0) return U_OPEN;
    for (unsigned i = 1; i < code; i++) {
      if (p >= in.size()) return U_TRUNCATED;
      if (in[p] == 0) open = true;
      out.push_back(in[p++]);
    }
    if (code < 0xff) out.push_back(0);
  }
  if (code == 0xff) open = true;
  if (open) return U_OPEN;
  out.pop_back();
  return U_OK;
}
// HighwayHash, from the published description, on byte and lane arrays.
struct HH {
  std::array<std::uint64_t, 4> v0, v1, m0, m1;
  static std::uint64_t swap(std::uint64_t x) { return (x << 32) | (x >> 32); }
  explicit HH(const std::uint64_t k[4]) {
    m0 = {0xdbe6d5d5fe4cce2fULL, 0xa4093822299f31d0ULL, 0x13198a2e03707344ULL, 0x243f6a8885a308d3ULL};
    m1 = {0x3bd39e10cb0ef593ULL, 0xc0acf169b5f18a8cULL, 0xbe5466cf34e90c6cULL, 0x452821e638d01377ULL};
    for (int i = 0; i < 4; i++) { v0[i] = m0[i] ^ k[i]; v1[i] = m1[i] ^ swap(k[i]); }
  }
  static void zipper(const std::uint64_t* v, std::uint64_t* add) {
    static const int order[16] = {3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7};
    unsigned char b[16];
    for (int i = 0; i < 16; i++) b[i] = static_cast<unsigned char>(v[i / 8] >> (8 * (i % 8)));
    for (int l = 0; l < 2; l++) {
      std::uint64_t x = 0;
      for (int i = 0; i < 8; i++) x |= static_cast<std::uint64_t>(b[order[l * 8 + i]]) << (8 * i);
      add[l] += x;
    }
  }
  void update(const std::array<std::uint64_t, 4>& a) {
    for (int i = 0; i < 4; i++) {
      v1[i] += a[i] + m0[i];
      m0[i] ^= (v1[i] & 0xffffffffULL) * (v0[i] >> 32);
      v0[i] += m1[i];
      m1[i] ^= (v0[i] & 0xffffffffULL) * (v1[i] >> 32);
    }
    zipper(&v1[0], &v0[0]);
    zipper(&v1[2], &v0[2]);
    zipper(&v0[0], &v1[0]);
    zipper(&v0[2], &v1[2]);
  }
  void packet(const unsigned char* p) {
    std::array<std::uint64_t, 4> a{};
    for (int i = 0; i < 32; i++) a[i / 8] |= static_cast<std::uint64_t>(p[i]) << (8 * (i % 8));
    update(a);
  }
  void all(const std::string& s) {
    std::size_t i = 0;
    auto p = reinterpret_cast<const unsigned char*>(s.data());
    for (; i + 32 <= s.size(); i += 32) packet(p + i);
    std::size_t r = s.size() - i;
    if (!r) return;
    for (auto& x : v0) x += (static_cast<std::uint64_t>(r) << 32) + r;
    for (auto& x : v1) {
      std::uint32_t lo = static_cast<std::uint32_t>(x), hi = static_cast<std::uint32_t>(x >> 32);
      lo = (lo << r) | (lo >> (32 - r));
      hi = (hi << r) | (hi >> (32 - r));
      x = (static_cast<std::uint64_t>(hi) << 32) | lo;
    }
    unsigned char b[32] = {};
    const unsigned char* q = p + i;
    std::size_t whole = r / 4 * 4, odd = r % 4;
    for (std::size_t j = 0; j < whole; j++) b[j] = q[j];
    if (r & 16) {
      for (int j = 0; j < 4; j++) b[28 + j] = q[r - 4 + j];
    } else if (odd) {
      b[16] = q[whole];
      b[17] = q[whole + odd / 2];
      b[18] = q[r - 1];
    }
    packet(b);
  }
  void rounds(int n) {
    while (n-- > 0) update({swap(v0[2]), swap(v0[3]), swap(v0[0]), swap(v0[1])});
  }
  static void reduce(std::uint64_t a3, std::uint64_t a2, std::uint64_t a1, std::uint64_t a0, std::uint64_t* o) {
    a3 &= 0x3fffffffffffffffULL;
    std::uint64_t s1 = (a3 << 1) | (a2 >> 63), s2 = (a3 << 2) | (a2 >> 62);
    o[1] = a1 ^ s1 ^ s2;
    o[0] = a0 ^ (a2 << 1) ^ (a2 << 2);
  }
  static std::uint64_t h64(const std::string& s, const std::uint64_t k[4]) {
    HH h(k); h.all(s); h.rounds(4);
    return h.v0[0] + h.v1[0] + h.m0[0] + h.m1[0];
  }
  static std::array<std::uint64_t, 2> h128(const std::string& s, const std::uint64_t k[4]) {
    HH h(k); h.all(s); h.rounds(6);
    return {h.v0[0] + h.m0[0] + h.v1[2] + h.m1[2], h.v0[1] + h.m0[1] + h.v1[3] + h.m1[3]};
  }
  static std::array<std::uint64_t, 4> h256(const std::string& s, const std::uint64_t k[4]) {
    HH h(k); h.all(s); h.rounds(10);
    std::array<std::uint64_t, 4> o;
    reduce(h.v1[1] + h.m1[1], h.v1[0] + h.m1[0], h.v0[1] + h.m0[1], h.v0[0] + h.m0[0], &o[0]);
    reduce(h.v1[3] + h.m1[3], h.v1[2] + h.m1[2], h.v0[3] + h.m0[3], h.v0[2] + h.m0[2], &o[2]);
    return o;
  }
};

static std::string random_data(Rng& r, std::size_t n) {
  std::string s(n, 'x');
  switch (r.below(5)) {
    case 0: return r.bytes(n);
    case 1: for (auto& c : s) c = static_cast<char>(r.below(2)); return s;
    case 2: for (auto& c : s) c = static_cast<char>(1 + r.below(255)); return s;  // No zeros.
    case 3: for (auto& c : s) c = r.chance(1, 200) ? 0 : static_cast<char>(1 + r.below(255)); return s;
    default: for (auto& c : s) c = r.chance(1, 3) ? 0 : r.chance(1, 2) ? '\xff' : '\1'; return s;
  }
}
static std::size_t random_size(Rng& r) {
  static const std::size_t edges[] = {0, 1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 252, 253, 254, 255, 256, 507, 508, 509, 510, 511, 761, 762, 763, 764, 1016, 1017};
  return r.chance(1, 2) ? edges[r.below(30)] : r.chance(1, 20) ? r.below(5000) : r.below(80);
}

// ---- K01 -------------------------------------------------------------------------
static void k01_encode(const std::string& in) {
  arpc::cobs_codec c;
  std::string d(in);
  d.shrink_to_fit();
  c.encode(d);
  std::string info = "input " + vh::hex(in, 700);
  VH_CHECK(d.find('\0') == std::string::npos, "K01:zero-in-output", info);
  VH_CHECK(d.size() <= in.size() + 1 + (in.size() + 253) / 254, "K01:overhead", info + " output size " + std::to_string(d.size()));
  VH_CHECK(d == cobs_ref(in), "K01:encoding", info + " got " + vh::hex(d, 700));
  d.shrink_to_fit();
  try {
    c.decode(d);
    VH_CHECK(d == in, "K01:round-trip", info + " got " + vh::hex(d, 700));
  } catch (const std::exception& e) {
    vh::violation("K01:round-trip", info + " threw " + e.what());
  }
  vh::eval(vh::hash_str(in), !in.empty());
}
static void k01_decode(const std::string& in) {
  arpc::cobs_codec c;
  std::string want, d(in);
  d.shrink_to_fit();
  int u = uncobs_ref(in, want);
  std::string info = "input " + vh::hex(in, 700);
  vh::mark("K01 decode " + vh::hex(in, 2000));
  try {
    c.decode(d);
    VH_CHECK(d.size() <= in.size(), "K01:decoded-longer", info);
    VH_CHECK(u != U_TRUNCATED, "K01:truncated-accepted", info);
    if (u == U_OK) VH_CHECK(d == want, "K01:decoding", info + " got " + vh::hex(d) + " want " + vh::hex(want));
    vh::stat("decoded");
  } catch (const arpc::errors::data_mismatch&) {
    VH_CHECK(u != U_OK, "K01:valid-refused", info);
    vh::stat("refused");
  } catch (const std::exception& e) {
    vh::violation("K01:wrong-error", info + " threw " + e.what());
  }
  vh::eval(vh::hash_str(in, 77), !in.empty());
}
static void k01() {
  Rng r(vh::seed());
  static const char alpha[] = {0, 1, 2, '\xff'};
  for (int len = 0; len <= 6; len++)  // Every string over four bytes.
    for (int x = 0; x < (1 << (2 * len)); x++) {
      std::string s;
      for (int i = 0; i < len; i++) s.push_back(alpha[(x >> (2 * i)) & 3]);
      k01_encode(s);
      k01_decode(s);
    }
  // Runs around multiples of 254 with a zero near every edge.
  for (int k = 1; k <= 4; k++)
    for (int d = -3; d <= 3; d++)
      for (int z = -1; z < 8; z++)
        for (int z2 = -1; z2 < 4; z2++) {
          std::string s(254 * k + d, 'a');
          if (z >= 0) s[s.size() - 1 - z] = 0;
          if (z2 >= 0) s[z2] = 0;
          k01_encode(s);
          if (k > 1) { s[253] = 0; k01_encode(s); s[253] = 'a'; s[254] = 0; k01_encode(s); s[254] = 'a'; s[255] = 0; k01_encode(s); }
        }
  int n = vh::scale(40000, 1000000);
  for (int i = 0; i < n; i++) {
    std::string s = random_data(r, random_size(r));
    k01_encode(s);
    std::string e = cobs_ref(s);
    for (unsigned k = r.below(3); k > 0; k--) {
      if (e.empty()) break;
      std::size_t at = r.below(e.size());
      switch (r.below(4)) {
        case 0: e[at] = static_cast<char>(r.next()); break;
        case 1: e.resize(at); break;
        case 2: e.erase(at, 1); break;
        case 3: e.insert(at, 1, static_cast<char>(r.next())); break;
      }
    }
    k01_decode(e);
    k01_decode(r.bytes(r.below(40)));
    if (i < 5) vh::sample(vh::hex(s, 40) + " -> " + vh::hex(cobs_ref(s), 40));
  }
}

// ---- K02 -------------------------------------------------------------------------
static void k02() {
  Rng r(vh::seed());
  int n = vh::scale(2000, 40000);
  for (int i = 0; i < n; i++) {
    std::uint64_t key[4];
    for (auto& k : key) k = r.chance(1, 8) ? 0 : r.next();
    bool def = r.chance(1, 4);
    std::uint64_t dk[4];
    for (int j = 0; j < 4; j++) dk[j] = arpc::mac_codec::default_key[j];
    auto codec = def ? std::make_unique<arpc::mac_codec>() : std::make_unique<arpc::mac_codec>(key);
    const std::uint64_t* k = def ? dk : key;
    std::string data = random_data(r, r.chance(1, 30) ? random_size(r) : r.below(70));
    std::string p(data);
    p.shrink_to_fit();
    codec->encode(p);
    std::uint64_t h = HH::h64(data, k);
    std::string want = data;
    for (int j = 0; j < 8; j++) want.push_back(static_cast<char>(h >> (8 * j)));
    std::string info = "data " + vh::hex(data, 300) + " packet " + vh::hex(p, 300);
    vh::mark("K02 " + info);
    VH_CHECK(p == want, "K02:packet", info + " want " + vh::hex(want, 300));
    // Decoding, with the encoder or a fresh one of the same key.
    auto dec = [&](arpc::mac_codec& c, std::string d) {
      d.shrink_to_fit();
      try { c.decode(d); return std::make_pair(0, d); }
      catch (const arpc::errors::data_mismatch&) { return std::make_pair(1, d); }
      catch (const std::exception& e) { return std::make_pair(2, std::string(e.what())); }
    };
    arpc::mac_codec fresh(k);
    auto ok = dec(r.chance(1, 2) ? fresh : *codec, p);
    VH_CHECK(ok.first == 0 && ok.second == data, "K02:round-trip", info);
    vh::eval(vh::hcomb(vh::hash_str(p), k[0]));
    if (data.size() < 20 && i < 40) vh::sample(vh::hex(data) + " -> " + vh::hex(p));
    auto refuse = [&](arpc::mac_codec& c, const std::string& d, const char* how) {
      auto o = dec(c, d);
      VH_CHECK(o.first == 1, std::string("K02:") + (o.first == 0 ? "accepted-" : "wrong-error-") + how, info + " tampered " + vh::hex(d, 300));
      vh::eval(vh::hcomb(vh::hash_str(d), k[0] ^ 5));
      vh::stat(how);
    };
    std::size_t step = p.size() > 100 ? p.size() / 50 : 1;
    for (std::size_t j = 0; j < p.size(); j += step) refuse(fresh, p.substr(0, j), "truncated");
    for (std::size_t j = 1; j < p.size() && j < 12; j++) refuse(fresh, p.substr(j), "head-cut");
    for (std::size_t j = 0; j < p.size(); j += step) {
      std::string t = p;
      t[j] = static_cast<char>(t[j] ^ (1 << r.below(8)));
      refuse(fresh, t, "bit-flip");
    }
    for (int j = 0; j < 64; j++) {  // Every bit of the code.
      std::string t = p;
      t[t.size() - 8 + j / 8] = static_cast<char>(t[t.size() - 8 + j / 8] ^ (1 << (j % 8)));
      refuse(fresh, t, "mac-bit-flip");
    }
    for (int j = 0; j < 4; j++) {
      std::string t = p;
      t.insert(r.below(t.size() + 1), r.bytes(1 + r.below(9)));
      if (t != p) refuse(fresh, t, "extended");
      t = p;
      std::size_t a = r.below(t.size()), b = r.below(t.size());
      std::swap(t[a], t[b]);
      if (t != p) refuse(fresh, t, "reordered");
      t = p;
      std::rotate(t.begin(), t.begin() + r.below(t.size()), t.end());
      if (t != p) refuse(fresh, t, "reordered");
      t = r.bytes(r.below(40));
      refuse(fresh, t, "random");
    }
    for (int j = 0; j < 4; j++) {
      std::uint64_t other[4] = {k[0], k[1], k[2], k[3]};
      other[j] ^= std::uint64_t{1} << r.below(64);
      arpc::mac_codec oc(other);
      refuse(oc, p, "other-key");
    }
    refuse(fresh, std::string(), "truncated");
  }
}

// ---- K03 -------------------------------------------------------------------------
static std::string packet_content(Rng& r) {
  return random_data(r, r.chance(1, 60) ? r.below(40000) : r.chance(1, 5) ? random_size(r) : r.below(40));
}
template <std::size_t MAX>
static void k03_serial(Rng& r, const char* name) {
  arpc::serial_line_packet_protocol<MAX> tx, rx;
  std::size_t n = 1 + r.below(8);
  std::vector<std::pair<std::string, std::string>> sent;  // data, frame without delimiter
  std::string wire;
  int okind = r.below(4), ikind = r.below(4);
  for (std::size_t i = 0; i < n; i++) {
    std::string data = packet_content(r);
    if (MAX < 1000 && r.chance(1, 2)) data = random_data(r, MAX - 14 + r.below(12));
    std::string one;
    vs::Out out(one, okind);
    tx.send(*out, data);
    out.finish();
    VH_CHECK(!one.empty() && one.back() == 0 && one.find('\0') == one.size() - 1, "K03:frame-delimiter", "data " + vh::hex(data) + " frame " + vh::hex(one));
    sent.emplace_back(data, one.substr(0, one.size() ? one.size() - 1 : 0));
    switch (r.below(7)) {  // What reaches the wire.
      case 0: {
        std::string g;
        for (unsigned k = r.below(30); k > 0; k--) g.push_back(static_cast<char>(1 + r.below(255)));
        wire += g;
        if (r.chance(4, 5)) wire.push_back(0);
        wire += one;
        break;
      }
      case 1: {
        std::string t = one;
        t[r.below(t.size())] ^= static_cast<char>(1 << r.below(8));
        wire += t;
        break;
      }
      case 2: {
        std::string t = one;
        t.erase(r.below(t.size()), 1 + r.below(3));
        wire += t;
        break;
      }
      default: wire += one;
    }
  }
  if (r.chance(1, 3)) wire.resize(wire.size() - std::min<std::size_t>(wire.size(), 1 + r.below(12)));
  // Expected: frame by frame.
  vs::In in(wire, ikind);
  std::size_t at = 0;
  std::string trace;
  auto info = [&] { return std::string(name) + " in" + std::to_string(ikind) + " wire " + vh::hex(wire, 1200) + " at " + std::to_string(at) + trace; };
  vh::mark("K03 " + info());
  std::size_t delivered = 0, refused = 0;
  for (;;) {
    std::size_t z = wire.find('\0', at);
    bool end = z == std::string::npos;
    std::string frame = wire.substr(at, end ? std::string::npos : z - at);
    const std::string* want = nullptr;
    for (auto& s : sent) if (s.second == frame) want = &s.first;
    // The receiver may need several calls to get past a frame over the maximum.
    bool over = frame.size() > MAX;
    std::size_t left = frame.size();
    int outcome = -1;
    std::string got;
    for (;;) {
      try {
        got = rx.receive(*in);
        outcome = 0;
      } catch (const arpc::errors::out_of_range&) {
        outcome = 1;
      } catch (const arpc::errors::eof&) {
        outcome = 2;
      } catch (const std::exception& e) {
        outcome = 3;
        got = e.what();
      }
      if (outcome == 1 && left > MAX) {
        left -= MAX + 1;
        VH_CHECK(over, "K03:refused-within-maximum", info());
        refused++;
        continue;
      }
      break;
    }
    if (end) {
      VH_CHECK(outcome == 2, "K03:end-not-reported", info() + " outcome " + std::to_string(outcome));
      break;
    }
    if (over) {
      // What is left of a refused frame may happen to be a whole frame itself
      // (its predecessor's delimiter was corrupted).
      bool tail_sent = false;
      for (auto& s : sent)
        tail_sent |= outcome == 0 && left == s.second.size() && frame.compare(frame.size() - left, left, s.second) == 0 && got == s.first;
      VH_CHECK((outcome != 0 && left <= MAX) || tail_sent, "K03:over-maximum-delivered", info());
    } else if (want) {
      VH_CHECK(outcome == 0 && got == *want, outcome ? "K03:intact-refused" : "K03:wrong-packet", info() + " got " + vh::hex(got));
      delivered++;
    } else {
      VH_CHECK(outcome != 0, "K03:garbage-delivered", info() + " got " + vh::hex(got));
      VH_CHECK(outcome != 2, "K03:false-end", info());
      refused++;
    }
    at = z + 1;
    VH_CHECK(ikind == 1 || in.pos() == at, "K03:position", info() + " pos " + std::to_string(in.pos()));
  }
  vh::stat("delivered", delivered);
  vh::stat("refused", refused);
  vh::eval(vh::hash_str(wire), n > 1);
  if (wire.size() < 80) vh::sample(std::string(name) + " " + vh::hex(wire));
}
template <typename P>
static void k03_stream(Rng& r, const char* name) {
  P tx, rx;
  std::size_t n = 1 + r.below(8);
  std::vector<std::string> sent;
  std::vector<std::size_t> ends;
  std::string wire;
  int ikind = r.below(4);
  {
    vs::Out out(wire, r.below(4));
    for (std::size_t i = 0; i < n; i++) {
      sent.push_back(packet_content(r));
      tx.send(*out, sent.back());
      ends.push_back(out.kind == 1 ? out.os.str().size() : wire.size());
    }
    out.finish();
  }
  std::size_t whole = wire.size();
  if (r.chance(1, 2) && !wire.empty()) wire.resize(r.below(wire.size()));
  vs::In in(wire, ikind);
  std::string info = std::string(name) + " in" + std::to_string(ikind) + " wire " + vh::hex(wire, 1200);
  vh::mark("K03 " + info);
  for (std::size_t i = 0; i <= n; i++) {
    bool have = i < n && ends[i] <= wire.size();
    try {
      std::string got = rx.receive(*in);
      VH_CHECK(have, "K03:short-packet-delivered", info);
      if (!have) break;
      VH_CHECK(got == sent[i], "K03:wrong-packet", info + " packet " + std::to_string(i));
      vh::stat("delivered");
    } catch (const arpc::errors::eof&) {
      VH_CHECK(!have, "K03:false-end", info);
      break;
    } catch (const std::exception& e) {
      vh::violation("K03:wrong-error", info + e.what());
      break;
    }
  }
  (void)whole;
  vh::eval(vh::hash_str(wire), n > 1);
}
static void k03() {
  Rng r(vh::seed());
  int n = vh::scale(6000, 100000);
  for (int i = 0; i < n; i++) {
    k03_serial<std::numeric_limits<std::size_t>::max()>(r, "serial");
    k03_serial<40>(r, "serial<40>");
    k03_serial<300>(r, "serial<300>");
    k03_stream<arpc::protected_stream_packet_protocol<>>(r, "stream le");
    k03_stream<arpc::protected_stream_packet_protocol<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>>(r, "stream be");
  }
}

// ---- K04 -------------------------------------------------------------------------
static void k04_one(const std::string& m, const std::uint64_t* key, Rng& r) {
  // The message sits in a heap block of exactly its size, at any alignment.
  std::size_t off = r.below(9);
  std::unique_ptr<std::uint8_t[]> buf(new std::uint8_t[m.size() + off]);
  std::memcpy(buf.get() + off, m.data(), m.size());
  const std::uint8_t* p = buf.get() + off;
  auto w64 = HH::h64(m, key);
  auto w128 = HH::h128(m, key);
  auto w256 = HH::h256(m, key);
  std::string info = "size " + std::to_string(m.size()) + " message " + vh::hex(m, 300);
  std::array<std::uint64_t, 2> a;
  std::array<std::uint64_t, 4> b;
  VH_CHECK(arpc::highway_hash::hash64(p, m.size(), key) == w64, "K04:hash64", info);
  arpc::highway_hash::hash128(p, m.size(), key, a.data());
  VH_CHECK(a == w128, "K04:hash128", info);
  arpc::highway_hash::hash256(p, m.size(), key, b.data());
  VH_CHECK(b == w256, "K04:hash256", info);
  // In pieces.
  std::uint64_t junk[4] = {1, 2, 3, 4};
  bool dirty = r.chance(1, 3);
  arpc::highway_hash h(dirty ? junk : key);
  if (dirty) {
    std::string d = r.bytes(r.below(70));
    h.append(reinterpret_cast<const std::uint8_t*>(d.data()), d.size());
    h.reset(key);
  }
  std::string split;
  std::size_t at = 0;
  int style = r.below(4);
  while (at < m.size() || r.chance(1, 3)) {
    std::size_t n = r.chance(1, 6) ? 0 : style == 0 ? 1 : style == 1 ? r.below(40) : style == 2 ? 32 : r.below(m.size() + 1);
    n = std::min(n, m.size() - at);
    std::unique_ptr<std::uint8_t[]> piece(new std::uint8_t[n]);
    std::memcpy(piece.get(), p + at, n);
    h.append(piece.get(), n);
    at += n;
    split += std::to_string(n) + ",";
    if (r.chance(1, 8)) {  // The hash so far, without disturbing what follows.
      auto part = m.substr(0, at);
      VH_CHECK(h.finish64() == HH::h64(part, key), "K04:hash-so-far", info + " split " + split);
      vh::stat("hash_so_far");
    }
  }
  if (r.chance(1, 2)) {
    arpc::highway_hash copy(h);
    VH_CHECK(copy.finish64() == w64, "K04:copy", info + " split " + split);
  }
  VH_CHECK(h.finish64() == w64, "K04:finish64", info + " split " + split);
  h.finish128(a.data());
  VH_CHECK(a == w128, "K04:finish128", info + " split " + split);
  h.finish256(b.data());
  VH_CHECK(b == w256, "K04:finish256", info + " split " + split);
  vh::eval(vh::hcomb(vh::hash_str(m), vh::hash_str(split)), !m.empty());
}
static void k04() {
  Rng r(vh::seed());
  // Published test vectors: message i is the bytes 0..i-1.
  static const std::uint64_t tk[4] = {0x0706050403020100ULL, 0x0F0E0D0C0B0A0908ULL, 0x1716151413121110ULL, 0x1F1E1D1C1B1A1918ULL};
  static const std::uint64_t pub[] = {0x907A56DE22C26E53ULL, 0x7EAB43AAC7CDDD78ULL, 0xB8D0569AB0B53D62ULL, 0x5C6BEFAB8A463D80ULL, 0xF205A46893007EDAULL, 0x2B8A1668E4A94541ULL, 0xBD4CCC325BEFCA6FULL, 0x4D02AE1738F59482ULL};
  std::string m;
  for (std::size_t i = 0; i < sizeof pub / sizeof *pub; i++) {
    VH_CHECK(HH::h64(m, tk) == pub[i], "K04:reference", "the harness's reference disagrees with published vector " + std::to_string(i));
    VH_CHECK(arpc::highway_hash::hash64(reinterpret_cast<const std::uint8_t*>(m.data()), m.size(), tk) == pub[i], "K04:published", "vector " + std::to_string(i));
    m.push_back(static_cast<char>(i));
  }
  int rounds = vh::scale(40, 800);
  for (int k = 0; k < rounds; k++) {
    std::uint64_t key[4];
    for (auto& x : key) x = k == 0 ? 0 : k == 1 ? ~std::uint64_t{0} : r.next();
    for (std::size_t n = 0; n <= 200; n++) {
      vh::mark("K04 size " + std::to_string(n));
      k04_one(k % 3 == 0 ? std::string(n, k ? '\xff' : '\0') : r.bytes(n), key, r);
    }
    k04_one(r.bytes(r.below(20000)), key, r);
  }
  vh::sample("hash64 of 0 bytes under 00..1f = 907a56de22c26e53");
}

// ---- S06 -------------------------------------------------------------------------
// A streambuf that fails after `good` bytes, in or out.
struct faulty_buf : std::streambuf {
  std::string data;
  std::size_t good;
  std::size_t pos = 0;
  bool throwing;
  char c;
  std::string out;
  bool fail_sync = false;
  faulty_buf(std::string d, std::size_t good, bool throwing) : data(std::move(d)), good(good), throwing(throwing) {}
  int_type underflow() override {
    if (pos >= good) throw std::runtime_error("device failed");
    if (pos >= data.size()) return traits_type::eof();
    c = data[pos++];
    setg(&c, &c, &c + 1);
    return traits_type::to_int_type(c);
  }
  int_type overflow(int_type x) override {
    if (out.size() >= good) {
      if (throwing) throw std::runtime_error("device failed");
      return traits_type::eof();
    }
    out.push_back(static_cast<char>(x));
    return x;
  }
  int sync() override { return fail_sync ? -1 : 0; }
};
// Single-byte stream whose getc fails with something other than eof.
struct bad_char_in : arpc::input_stream {
  std::string s;
  std::size_t pos = 0;
  std::size_t read(char* p, std::size_t l) override { return arpc::input_stream::read(p, l); }
  char getc() override {
    if (pos >= s.size()) throw arpc::errors::io_error("broken");
    return s[pos++];
  }
};
template <typename F>
static std::string thrown(F&& f) {
  try { f(); return "nothing"; }
  catch (const arpc::errors::eof&) { return "eof"; }
  catch (const arpc::errors::io_error&) { return "io_error"; }
  catch (const arpc::errors::out_of_range&) { return "out_of_range"; }
  catch (const std::exception& e) { return std::string("other ") + e.what(); }
}
static void s06_in(Rng& r) {
  std::string data = r.bytes(r.chance(1, 30) ? r.below(70000) : r.below(60));
  int kind = r.below(4);
  vs::In in(data, kind);
  std::size_t pos = 0;
  std::string trace = "kind " + std::to_string(kind) + " size " + std::to_string(data.size()) + ":";
  auto* str = kind == 0 ? static_cast<arpc::string_input_stream*>(&*in) : nullptr;
  int ops = 1 + r.below(25);
  while (ops-- > 0) {
    std::size_t left = data.size() - pos;
    switch (r.below(str ? 5 : 3)) {
      case 0: {
        std::size_t n = r.chance(1, 4) ? left : r.chance(1, 5) ? left + r.below(20) : r.chance(1, 8) ? 0 : r.below(left + 3);
        trace += " read" + std::to_string(n);
        vh::mark("S06 " + trace);
        std::unique_ptr<char[]> b(new char[n]);
        std::size_t got = (*in).read(b.get(), n);
        std::size_t want = std::min(n, left);
        VH_CHECK(got == want, "S06:read-count", trace + " got " + std::to_string(got));
        if (got != want) return;
        VH_CHECK(data.compare(pos, got, b.get(), got) == 0, "S06:read-bytes", trace);
        pos += got;
        break;
      }
      case 1: {
        trace += " getc";
        vh::mark("S06 " + trace);
        char c = 0;
        std::string t = thrown([&] { c = (*in).getc(); });
        if (left) {
          VH_CHECK(t == "nothing" && c == data[pos], "S06:getc", trace + " " + t);
          if (t != "nothing") return;
          pos++;
        } else {
          VH_CHECK(t == "eof", "S06:getc-at-end", trace + " " + t);
        }
        break;
      }
      case 2: {
        std::size_t n = r.chance(1, 6) ? left + 1 + r.below(5) : r.below(left + 1);
        trace += " fully" + std::to_string(n);
        vh::mark("S06 " + trace);
        std::unique_ptr<char[]> b(new char[n]);
        std::string t = thrown([&] { (*in).read_fully(b.get(), n); });
        if (n <= left) {
          VH_CHECK(t == "nothing" && data.compare(pos, n, b.get(), n) == 0, "S06:read-fully", trace + " " + t);
          if (t != "nothing") return;
          pos += n;
        } else {
          VH_CHECK(t == "eof", "S06:read-fully-at-end", trace + " " + t);
          goto done;
        }
        break;
      }
      case 3: {
        std::size_t to = r.chance(1, 4) ? data.size() + 1 + r.below(10) : r.chance(1, 6) ? data.size() : r.below(data.size() + 1);
        trace += " seek" + std::to_string(to);
        vh::mark("S06 " + trace);
        std::string t = thrown([&] { str->pos(to); });
        if (to > data.size()) {
          VH_CHECK(t == "out_of_range", "S06:seek-past-end", trace + " " + t);
        } else {
          VH_CHECK(t == "nothing", "S06:seek", trace + " " + t);
          pos = to;
        }
        break;
      }
      case 4: {
        std::size_t to = r.below(data.size() + 4);
        std::string t = thrown([&] {
          arpc::string_input_stream s(data, to);
          if (s.pos() != to) throw std::runtime_error("position");
          if (to < data.size() && s.getc() != data[to]) throw std::runtime_error("byte");
        });
        VH_CHECK(t == (to > data.size() ? "out_of_range" : "nothing"), "S06:initial-position", trace + " start " + std::to_string(to) + " " + t);
        break;
      }
    }
    if (kind != 1 || pos < data.size()) {
      if (kind != 1 || !in.is.eof())
        VH_CHECK(in.pos() == pos, "S06:position", trace + " at " + std::to_string(in.pos()) + " want " + std::to_string(pos));
    }
  }
done:
  vh::stat("input_kind_" + std::to_string(kind));
  vh::eval(vh::hcomb(vh::hash_str(data), vh::hash_str(trace)), data.size() > 1);
  if (data.size() < 30) vh::sample(trace);
}
static void s06_out(Rng& r) {
  int kind = r.below(4);
  std::string s = r.chance(1, 3) && kind != 1 ? r.bytes(r.below(10)) : "", want = s;
  std::string trace = "out kind " + std::to_string(kind) + ":";
  {
    vs::Out out(s, kind);
    int ops = r.below(25);
    while (ops-- > 0) {
      switch (r.below(5)) {
        case 0: { char c = static_cast<char>(r.next()); (*out).putc(c); want.push_back(c); trace += " putc"; break; }
        case 1: (*out).flush(); trace += " flush"; break;
        default: {
          std::size_t n = r.chance(1, 20) ? r.below(20000) : r.below(20);
          std::string d = r.bytes(n);
          std::unique_ptr<char[]> b(new char[n]);
          std::memcpy(b.get(), d.data(), n);
          (*out).write(b.get(), n);
          want += d;
          trace += " write" + std::to_string(n);
        }
      }
    }
    out.finish();
  }
  VH_CHECK(s == want, "S06:written", trace + " got " + vh::hex(s) + " want " + vh::hex(want));
  vh::stat("output_kind_" + std::to_string(kind));
  vh::eval(vh::hcomb(vh::hash_str(want), vh::hash_str(trace)), want.size() > 1);
}
static void s06_faults(Rng& r) {
  std::string data = r.bytes(40);
  std::size_t good = r.below(20);
  {
    faulty_buf buf(data, good, true);
    std::istream is(&buf);
    arpc::istream_input_stream in(is);
    std::string got;
    std::string t;
    std::string trace;
    for (int k = 0; k < 60 && t != "io_error"; k++) {
      if (r.chance(1, 2)) {
        std::size_t n = 1 + r.below(6);
        char b[8];
        std::size_t g = 0;
        trace += " read" + std::to_string(n);
        t = thrown([&] { g = in.read(b, n); });
        if (t == "nothing") {
          VH_CHECK(g == n, "S06:short-read-on-failure", "device fails after " + std::to_string(good) + trace);
          got.append(b, g);
        }
      } else {
        char c = 0;
        trace += " getc";
        t = thrown([&] { c = in.getc(); });
        if (t == "nothing") got.push_back(c);
      }
      if (t != "nothing" && t != "io_error") break;
    }
    VH_CHECK(t == "io_error", "S06:failure-not-reported", "device fails after " + std::to_string(good) + trace + ": " + t);
    VH_CHECK(data.compare(0, got.size(), got) == 0 && got.size() <= good, "S06:bytes-before-failure", trace);
    char b[4];
    VH_CHECK(thrown([&] { in.read(b, 2); }) == "io_error", "S06:failure-not-reported", "second read after a failure" + trace);
    VH_CHECK(thrown([&] { in.read_fully(b, 2); }) == "io_error", "S06:failure-not-reported", "read_fully after a failure" + trace);
    VH_CHECK(thrown([&] { in.getc(); }) == "io_error", "S06:failure-not-reported", "second getc after a failure" + trace);
  }
  {
    std::istringstream is(data);
    is.setstate(std::ios::failbit);
    arpc::istream_input_stream in(is);
    char b[4];
    VH_CHECK(thrown([&] { in.read(b, 2); }) == "io_error", "S06:failed-stream-read", "");
    VH_CHECK(thrown([&] { in.getc(); }) == "io_error", "S06:failed-stream-getc", "");
  }
  {
    faulty_buf buf("", good, r.chance(1, 2));
    std::ostream os(&buf);
    arpc::ostream_output_stream out(os);
    std::string want, t, trace;
    for (int k = 0; k < 60; k++) {
      std::string d = r.bytes(1 + r.below(5));
      if (d.size() == 1) { trace += " putc"; t = thrown([&] { out.putc(d[0]); }); }
      else { trace += " write" + std::to_string(d.size()); t = thrown([&] { out.write(d.data(), d.size()); }); }
      want += d;
      if (want.size() > good) {
        VH_CHECK(t == "io_error", "S06:failure-not-reported", "device full after " + std::to_string(good) + trace + ": " + t);
        break;
      }
      VH_CHECK(t == "nothing", "S06:spurious-failure", trace + ": " + t);
    }
    VH_CHECK(buf.out == want.substr(0, buf.out.size()), "S06:bytes-before-failure", trace);
    VH_CHECK(thrown([&] { out.putc('x'); }) == "io_error", "S06:failure-not-reported", "putc after a failure");
    VH_CHECK(thrown([&] { out.write("xy", 2); }) == "io_error", "S06:failure-not-reported", "write after a failure");
  }
  {
    faulty_buf buf("", 1000, false);
    std::ostream os(&buf);
    arpc::ostream_output_stream out(os);
    out.write("abc", 3);
    VH_CHECK(thrown([&] { out.flush(); }) == "nothing", "S06:spurious-failure", "flush");
    buf.fail_sync = true;
    VH_CHECK(thrown([&] { out.flush(); }) == "io_error", "S06:failed-flush", "a flush that fails");
  }
  {
    bad_char_in in;
    in.s = data.substr(0, good);
    std::string b(64, 0);
    VH_CHECK(thrown([&] { in.read(&b[0], good + 1 + r.below(5)); }) == "io_error", "S06:failure-not-reported", "block read over a failing single-byte stream");
    in.pos = 0;
    VH_CHECK(thrown([&] { in.read_fully(&b[0], good); }) == "nothing" && b.compare(0, good, in.s) == 0, "S06:block-over-single", "");
    VH_CHECK(thrown([&] { in.read_fully(&b[0], 1); }) == "io_error", "S06:failure-not-reported", "read_fully over a failing single-byte stream");
  }
  vh::stat("fault_rounds");
  vh::eval(vh::hcomb(vh::hash_str(data), good));
}
static void s06() {
  Rng r(vh::seed());
  int n = vh::scale(50000, 2000000);
  for (int i = 0; i < n; i++) {
    s06_in(r);
    s06_out(r);
    if (i % 4 == 0) s06_faults(r);
  }
}

void harness() {
  if (vh::mode() == "K01") k01();
  else if (vh::mode() == "K02") k02();
  else if (vh::mode() == "K03") k03();
  else if (vh::mode() == "K04") k04();
  else if (vh::mode() == "S06") s06();
}
