// Definitions the demonstration needs because the installed libraries were
// built with another string_view, and regular expressions on top of std::regex.
#include <cstdio>
#include <string>
#include <string_view>

#include "absl/strings/ascii.h"
#include "absl/strings/escaping.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_replace.h"
#include "absl/strings/str_split.h"
#include "re2/re2.h"

void RE2::Init(const std::string &p) {
  pattern_ = p;
  std::string q = p;
  auto flags = std::regex::ECMAScript;
  if (q.rfind("(?m)", 0) == 0) { q = q.substr(4); flags |= std::regex::multiline; }
  // \z, (?: stay; named classes are the same
  try { re_ = std::regex(q, flags); } catch (const std::regex_error &e) { ok_ = false; error_ = e.what(); }
}
using It = std::string_view::const_iterator;
bool RE2::FullMatch(std::string_view t, const RE2 &re) { return re.ok_ && std::regex_match(t.begin(), t.end(), re.re_); }
bool RE2::PartialMatch(std::string_view t, const RE2 &re) { return re.ok_ && std::regex_search(t.begin(), t.end(), re.re_); }
std::string RE2::QuoteMeta(std::string_view s) {
  std::string r;
  for (const char c : s) {
    if (!(std::isalnum((unsigned char)c) || c == '_' || (c & 0x80))) r += '\\';
    r += c;
  }
  return r;
}
static bool Find(std::string_view *in, const std::regex &re, std::string_view **out, int n) {
  std::match_results<It> m;
  if (!std::regex_search(in->begin(), in->end(), m, re)) return false;
  for (int i = 0; i < n; ++i) *out[i] = m[i + 1].matched ? std::string_view(&*m[i + 1].first, m[i + 1].length()) : std::string_view();
  in->remove_prefix(m[0].second - in->begin());
  return true;
}
template <> bool RE2::FindAndConsume(std::string_view *in, const RE2 &re, std::string_view *a) {
  std::string_view *o[] = {a};
  return re.ok_ && Find(in, re.re_, o, 1);
}
template <> bool RE2::FindAndConsume(std::string_view *in, const RE2 &re, std::string_view *a, std::string_view *b) {
  std::string_view *o[] = {a, b};
  return re.ok_ && Find(in, re.re_, o, 2);
}

namespace absl {
ABSL_NAMESPACE_BEGIN
std::string_view ByChar::Find(std::string_view text, size_t pos) const {
  const size_t f = text.find(c_, pos);
  if (f == std::string_view::npos) return std::string_view(text.data() + text.size(), 0);
  return text.substr(f, 1);
}
std::string CEscape(std::string_view s) {
  std::string r;
  for (const unsigned char c : s) {
    switch (c) {
    case '\n': r += "\\n"; break;
    case '\r': r += "\\r"; break;
    case '\t': r += "\\t"; break;
    case '"': r += "\\\""; break;
    case '\'': r += "\\'"; break;
    case '\\': r += "\\\\"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof(b), "\\%03o", c); r += b; }
      else r += (char)c;
    }
  }
  return r;
}
std::string StrReplaceAll(std::string_view s, std::initializer_list<std::pair<std::string_view, std::string_view>> reps) {
  std::string r;
  while (!s.empty()) {
    const std::pair<std::string_view, std::string_view> *best = nullptr;
    size_t at = std::string_view::npos;
    for (const auto &p : reps) {
      const size_t f = s.find(p.first);
      if (f < at || (f == at && f != std::string_view::npos && best && p.first.size() > best->first.size())) { at = f; best = &p; }
    }
    if (!best || at == std::string_view::npos) break;
    r.append(s.substr(0, at)).append(best->second);
    s.remove_prefix(at + best->first.size());
  }
  return r.append(s);
}
int StrReplaceAll(std::initializer_list<std::pair<std::string_view, std::string_view>> reps, std::string *target) {
  *target = StrReplaceAll(*target, reps);
  return 1;
}
AlphaNum::AlphaNum(Hex h) : piece_(digits_, snprintf(digits_, sizeof(digits_), h.fill == '0' ? "%0*llx" : "%*llx", h.width, (unsigned long long)h.value)) {}
std::string StrCat(const AlphaNum &a, const AlphaNum &b) { return std::string(a.Piece()).append(b.Piece()); }
std::string StrCat(const AlphaNum &a, const AlphaNum &b, const AlphaNum &c) { return StrCat(a, b).append(c.Piece()); }
std::string StrCat(const AlphaNum &a, const AlphaNum &b, const AlphaNum &c, const AlphaNum &d) { return StrCat(a, b, c).append(d.Piece()); }
void StrAppend(std::string *s, const AlphaNum &a) { s->append(a.Piece()); }
void StrAppend(std::string *s, const AlphaNum &a, const AlphaNum &b) { s->append(StrCat(a, b)); }
void StrAppend(std::string *s, const AlphaNum &a, const AlphaNum &b, const AlphaNum &c) { s->append(StrCat(a, b, c)); }
void StrAppend(std::string *s, const AlphaNum &a, const AlphaNum &b, const AlphaNum &c, const AlphaNum &d) { s->append(StrCat(a, b, c, d)); }
namespace strings_internal {
std::string CatPieces(std::initializer_list<std::string_view> l) {
  std::string r;
  for (const auto &x : l) r.append(x);
  return r;
}
void AppendPieces(std::string *d, std::initializer_list<std::string_view> l) { for (const auto &x : l) d->append(x); }
}  // namespace strings_internal
namespace str_format_internal {
bool DispatchView(FormatArgImpl::Data arg, FormatConversionSpecImpl spec, void *out) __asm__("_ZN4absl7debian319str_format_internal13FormatArgImpl8DispatchISt17basic_string_viewIcSt11char_traitsIcEEEEbNS2_4DataENS1_24FormatConversionSpecImplEPv");
bool DispatchView(FormatArgImpl::Data arg, FormatConversionSpecImpl spec, void *out) {
  const std::string s(*static_cast<const std::string_view *>(arg.ptr));
  FormatArgImpl::Data d;
  d.ptr = &s;
  return FormatArgImpl::Dispatch<std::string>(d, spec, out);
}
}  // namespace str_format_internal
ABSL_NAMESPACE_END
}  // namespace absl
