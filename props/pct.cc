// C06: percent-decoding against an independent decoder and by round trip.
#include "grpc_transcoding/percent_encoding.h"
#include "model.h"

using namespace model;
namespace gt = google::grpc::transcoding;

namespace {

const gt::UrlUnescapeSpec kSpecs[] = {gt::UrlUnescapeSpec::kAllCharactersExceptReserved, gt::UrlUnescapeSpec::kAllCharactersExceptSlash, gt::UrlUnescapeSpec::kAllCharacters};
const char* kNames[] = {"except-reserved", "except-slash", "all"};

void CheckDecode(Case& c, const string& s) {
  // An exact-size heap copy, so that reading past the end is visible.
  std::unique_ptr<char[]> buf(pbt::Bytes(s.size()));
  memcpy(buf.get(), s.data(), s.size());
  absl::string_view v(buf.get(), s.size());
  for (int spec = 0; spec < 3; spec++) {
    for (int plus = 0; plus < 2; plus++) {
      bool changed = false;
      string want = RefDecode(s, static_cast<Spec>(spec), plus, &changed);
      string got = gt::UrlUnescapeString(v, kSpecs[spec], plus);
      if (got != want) c.fail(pbt::Format("UrlUnescapeString(%s, %s, plus=%d) = %s, expected %s", pbt::Show(s).c_str(), kNames[spec], plus, pbt::Show(got).c_str(), pbt::Show(want).c_str()));
      bool esc = gt::IsUrlEscapedString(v, kSpecs[spec], plus);
      if (esc != changed) c.fail(pbt::Format("IsUrlEscapedString(%s, %s, plus=%d) = %d", pbt::Show(s).c_str(), kNames[spec], plus, esc));
    }
  }
  if (gt::UrlUnescapeString(v) != RefDecode(s, kAll, false)) c.fail(pbt::Format("UrlUnescapeString(%s) = %s", pbt::Show(s).c_str(), pbt::Show(gt::UrlUnescapeString(v)).c_str()));
  bool changed = false;
  RefDecode(s, kAll, false, &changed);
  if (gt::IsUrlEscapedString(v) != changed) c.fail(pbt::Format("IsUrlEscapedString(%s) = %d", pbt::Show(s).c_str(), !changed));
}

}  // namespace

// Every two-byte suffix of '%', in several contexts.
PBT_ENUM(C06, all_escapes, 65536, 65536) {
  uint64_t i = c.raw(65535);
  string e = string("%") + static_cast<char>(i >> 8) + static_cast<char>(i & 255);
  c.note("%s", pbt::Show(e).c_str());
  for (const string& s : {e, "a" + e, e + "b", "%" + e, e + "%", e + e, "%2" + e, "+" + e + "4", e.substr(0, 2), string(1, e[1]) + "%"}) CheckDecode(c, s);
  c.evaluations(10 * 6);
  if (HexVal(e[1]) >= 0 && HexVal(e[2]) >= 0) c.nontrivial(i);
}

PBT(C06, random_strings, 900000, 40000000) {
  string s;
  switch (c.weighted({6, 2, 1})) {
    case 0: s = GenEncoded(c, c.chance(1, 20) ? 200 : 12); break;
    case 1: s = GenPart(c) + GenEncoded(c, 3) + GenPart(c); break;
    default: s = GenBytes(c, 40, ""); break;
  }
  // Tails that are almost an escape.
  if (c.chance(1, 4)) s += c.pickc({"%", "%2", "%4", "%%4", "%2%", "%4g"});
  if (c.chance(1, 400)) s = string(c.raw(70000), 'p') + s;
  c.note("%s", pbt::Show(s).c_str());
  CheckDecode(c, s);
  bool changed = false;
  RefDecode(s, kAll, true, &changed);
  c.label(changed ? "something-decoded" : "nothing-decoded");
  bool ch2 = false;
  if (RefDecode(s, kExceptReserved, false) != RefDecode(s, kExceptSlash, false)) ch2 = true;
  if (ch2) c.label("modes-differ");
  c.evaluations(6);
  if (changed) c.nontrivial(pbt::HashStr(s));
}

// decode(encode(x)) == x for every way of encoding x.
PBT(C06, roundtrip, 500000, 20000000) {
  string x = c.chance(1, 30) ? string() : GenBytes(c, c.chance(1, 20) ? 500 : 24, "");
  string enc;
  for (unsigned char b : x) {
    if (b == '%' || c.coin()) {
      const char* d = c.coin() ? "0123456789ABCDEF" : "0123456789abcdef";
      enc += '%';
      enc += d[b >> 4];
      enc += c.coin() ? "0123456789ABCDEF"[b & 15] : "0123456789abcdef"[b & 15];
    } else {
      enc += static_cast<char>(b);
    }
  }
  c.note("%s -> %s", pbt::Show(x).c_str(), pbt::Show(enc).c_str());
  if (gt::UrlUnescapeString(enc) != x) c.fail(pbt::Format("decoding %s gives %s instead of %s", pbt::Show(enc).c_str(), pbt::Show(gt::UrlUnescapeString(enc)).c_str(), pbt::Show(x).c_str()));
  if (gt::UrlUnescapeString(enc, gt::UrlUnescapeSpec::kAllCharacters, false) != x) c.fail("full mode differs");
  // Kept escapes are kept verbatim: decoding the partially decoded text in full
  // mode gives the same as decoding at once when nothing decoded to '%'.
  if (x.find('%') == string::npos) {
    for (int spec = 0; spec < 2; spec++) {
      string part = gt::UrlUnescapeString(enc, kSpecs[spec], false);
      if (gt::UrlUnescapeString(part) != x) c.fail(pbt::Format("%s: %s then fully decoded gives %s instead of %s", kNames[spec], pbt::Show(enc).c_str(), pbt::Show(gt::UrlUnescapeString(part)).c_str(), pbt::Show(x).c_str()));
    }
    c.label("two-step");
  }
  if (enc.size() != x.size()) c.nontrivial(pbt::HashStr(enc));
}
