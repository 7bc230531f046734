// C11 decimal text
#include "val.h"
static Z text_value(const std::string& s) {
    size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    size_t j = i; while (j < s.size() && s[j] >= '0' && s[j] <= '9') j++;
    Z r; if (j > i) mpz_set_str(r, s.substr(i, j - i).c_str(), 10); if (neg) mpz_neg(r, r); return r;
}
static std::string vis(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (r.size() > 300) { r += "..."; break; } if (c >= 32 && c < 127) r += c; else r += cstr("\\x%02x", c); } return r + cstr("\" (%zu chars)", s.size()); }
static void ps(const std::string& s) {
    Z w = text_value(s); mc::outcome(w.fp()); mc::step(2);
    BigInteger r = BigInteger::parse(s); if (!same(r, w)) mc::fail("parse(%s): got %s, want %s", vis(s).c_str(), show(r).c_str(), w.hex().c_str());
    BigInteger t(4711); bool ok = BigInteger::try_parse(s, t);
    if (!ok) mc::fail("try_parse(%s) fails", vis(s).c_str());
    if (!same(t, w)) mc::fail("try_parse(%s): got %s, want %s", vis(s).c_str(), show(t).c_str(), w.hex().c_str());
}
static void tx(const Item& x) {
    std::string w = x.z.dec(); mc::outcome(mc::fp_str(w));
    expect_str("to_string", x.b.to_string(), w);
    expect("parse(text)", BigInteger::parse(w), x.z);
    BigInteger t; if (!BigInteger::try_parse(w, t)) mc::fail("try_parse of the text fails"); expect("try_parse(text)", t, x.z);
    expect("parse(00 + text)", BigInteger::parse(w[0] == '-' ? "-00" + w.substr(1) : "+00" + w), x.z);
    expect("parse(text + rest)", BigInteger::parse(w + " 1"), x.z);
}
static void tx_lean(const Item& x) { std::string w = x.z.dec(); mc::outcome(mc::fp_str(w)); expect_str("to_string", x.b.to_string(), w); }
static mc::Space strings(const std::string& name, const std::string& alpha, int len) {
    uint64_t n = 1, k = alpha.size(); for (int i = 0; i < len; i++) n *= k; mc::Space s; s.name = name; s.n = n; s.strands = 64;
    auto make = [=](uint64_t i) { std::string t(len, ' '); for (int j = 0; j < len; j++, i /= k) t[j] = alpha[i % k]; return t; };
    s.run = [=](uint64_t i) { std::string t = make(i); mc::state(mc::fp_str(t)); ps(t); }; s.describe = [=](uint64_t i) { return vis(make(i)); }; return s;
}
MC_MODULE(C11) {
    int L = R.level;
    std::string all; for (int i = 0; i < 256; i++) all += (char)i;
    R.add(strings("the empty string", "0", 0)); R.add(strings("all 1-char strings", all, 1)); if (L) R.add(strings("all 2-char strings", all, 2));
    std::string a1 = std::string("-+019x.", 7), a2 = std::string("-+0129 /:\0\xB1\tex", 14);
    for (int n = 2; n <= (L == 0 ? 4 : L == 1 ? 7 : 8); n++) R.add(strings(cstr("%d chars of 7", n), a1, n));
    for (int n = 2; n <= (L == 0 ? 3 : L == 1 ? 5 : 6); n++) R.add(strings(cstr("%d chars of 14", n), a2, n));
    for (int n = 1; n <= (L == 0 ? 4 : 12); n++) R.add(strings(cstr("%d digits of 3", n), "019", n));
    // every possible character after a prefix
    { std::vector<std::string> pre{"", "-", "+", "0", "1", "-1", "+1", "12", "00", "99999999999999999999", "-99999999999999999999"}, post{"", "7", "-7", "+", "007"}; uint64_t a = pre.size(), b = post.size(); mc::Space s; s.name = "every character between digits"; s.n = a * b * 256;
      auto make = [=](uint64_t i) { return pre[i / 256 % a] + std::string(1, (char)(i & 255)) + post[i / 256 / a]; };
      s.run = [=](uint64_t i) { std::string t = make(i); mc::state(mc::fp_str(t)); ps(t); }; s.describe = [=](uint64_t i) { return vis(make(i)); }; R.add(s); }
    // digit strings of every length and many fillings
    { std::vector<int> lens = L == 0 ? len1() : cat(range(1, L == 1 ? 420 : 1300), {999, 1000, 2000, 4999}); const int F = 10; mc::Space s; s.name = "digit strings of every length"; s.n = lens.size() * F * 3; s.strands = 64;
      auto make = [=](uint64_t i) { int len = lens[i / (F * 3)], f = i / 3 % F; std::string t(len, '0'); for (int j = 0; j < len; j++) { int d = 0; switch (f) { case 0: d = 9; break; case 1: d = j == 0; break; case 2: d = j % 10; break; case 3: d = mc::mix(j + 3) % 10; break; case 4: d = mc::mix(j + 3333) % 10; break; case 5: d = j == len - 1; break; case 6: d = j % 9 == 0; break; case 7: d = 5; break; case 8: d = (len - j) % 9 ? 0 : 1; break; case 9: d = "4294967296"[j % 10] - '0'; } t[j] = '0' + d; } return (i % 3 == 0 ? "" : i % 3 == 1 ? "-" : "+") + t; };
      s.run = [=](uint64_t i) { std::string t = make(i); mc::state(mc::fp_str(t)); ps(t); Z w = text_value(t); expect_str("to_string(parse(text))", BigInteger::parse(t).to_string(), w.dec()); }; s.describe = [=](uint64_t i) { return vis(make(i)); }; R.add(s); }
    // words in base 10^9: the block structure of the conversion
    { std::vector<std::string> blk{"000000000", "000000001", "100000000", "999999999", "012345678", "294967296"}; int N = L == 0 ? 3 : L == 1 ? 6 : 7; for (int n = 1; n <= N; n++) { uint64_t k = blk.size(), c = 2; for (int j = 0; j < n; j++) c *= k; mc::Space s; s.name = cstr("%d blocks of base 10^9", n); s.n = c; s.strands = 64;
      auto make = [=](uint64_t i) { std::string t = i & 1 ? "-" : ""; i >>= 1; for (int j = 0; j < n; j++, i /= k) t += blk[i % k]; return t; };
      s.run = [=](uint64_t i) { std::string t = make(i); Z w; mpz_set_str(w, t.c_str(), 10); mc::state(w.fp()); BigInteger b = BigInteger::parse(t); expect("parse", b, w); expect_str("to_string", b.to_string(), w.dec()); }; s.describe = make; R.add(s); } }
    // powers of ten and their neighbourhoods, and of 2^32-related bounds
    { int K = L == 0 ? 40 : L == 1 ? 700 : 2500; mc::Space s; s.name = "+-(c * 10^k + d)"; s.n = (uint64_t)K * 9 * 5 * 2; s.strands = 64;
      auto make = [=](uint64_t i) { int k = i / 90, c = i / 10 % 9 + 1, d = (int)(i / 2 % 5) - 2; Z z; mpz_ui_pow_ui(z, 10, k); mpz_mul_ui(z, z, c); z = z + Z(d); if (i & 1) mpz_neg(z, z); return z; };
      s.run = [=](uint64_t i) { Z z = make(i); Item x{mk(z), z, z.fp()}; mc::state(x.fp); tx(x); }; s.describe = [=](uint64_t i) { int k = i / 90; return cstr("%s(%d * 10^%d %+d)", i & 1 ? "-" : "", (int)(i / 10 % 9 + 1), k, (int)(i / 2 % 5) - 2); }; R.add(s); }
    { int n = L == 0 ? 200 : L == 1 ? 100000 : 2000000; R.add(singles("small", UB().small(-n, n), tx)); }
    R.add(singles("boundary words", L == 0 ? (U)UB().words(0, 2, A5).words(3, 3, A3) : L == 1 ? (U)UB().words(0, 3, A16).words(4, 4, A8).words(5, 7, A3) : (U)UB().words(0, 4, A16).words(5, 5, A8).words(6, 9, A3), tx));
    R.add(singles("2^k+d", UB().pow2(L == 0 ? 80 : L == 1 ? 800 : 3000, -3, 3), tx));
    R.add(singles("runs", UB().runs(range(0, L == 0 ? 70 : 250, L == 0 ? 9 : 2)), tx));
    R.add(singles("every length", UB().longs(L == 0 ? len1() : range(1, L == 1 ? 150 : 400), range(0, NPAT - 1)), tx));
    if (L) R.add(singles("long", UB().longs({500, 1000, 1024, 2000}, {0, 1, 2, 3, 8}), L == 1 ? tx_lean : tx));
    if (L >= 2) R.add(singles("very long", UB().longs({5000, 10000}, {0, 1, 2, 3, 8}), tx_lean));
    if (L >= 2) R.add(singles("text of a length beyond 16 bits", UB().longs({20000, 32769}, {2, 7}, false), tx_lean));
    if (L >= 3) {   // the deepest exploration
        R.add(strings("deep: all 3-char strings", all, 3));
        R.add(strings("deep: 9 chars of 7", a1, 9)); R.add(strings("deep: 7 chars of 14", a2, 7));
        for (int n = 13; n <= 16; n++) R.add(strings(cstr("deep: %d digits of 3", n), "019", n));
        for (int n = 18; n <= 24; n++) R.add(strings(cstr("deep: %d digits of 2", n), "09", n));
        R.add(smalls("deep: small", -6000000, 6000000, tx));
        R.add(singles("deep: words", UB().words(4, 5, A16, false).words(6, 6, A8).words(7, 11, A3), tx));
        R.add(singles("deep: 2^k+d", UB().pow2(7000, -3, 3), tx_lean));
    }
}
