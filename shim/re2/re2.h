// Stand-in for re2/re2.h (headers not installed): declarations, with a
// std::regex implementation good enough to run the program in demonstrations.
#ifndef SHIM_RE2_H
#define SHIM_RE2_H
#include <cstddef>
#include <regex>
#include <string>
#include <string_view>
class RE2 {
 public:
  class Options {
   public:
    void set_log_errors(bool) {}
    void set_case_sensitive(bool) {}
    void set_never_capture(bool) {}
  };
  RE2(const char *p) { Init(p); }
  RE2(const std::string &p) { Init(p); }
  RE2(std::string_view p) { Init(std::string(p)); }
  RE2(std::string_view p, const Options &) { Init(std::string(p)); }
  RE2(const RE2 &) = delete;
  RE2 &operator=(const RE2 &) = delete;
  bool ok() const { return ok_; }
  const std::string &pattern() const { return pattern_; }
  const std::string &error() const { return error_; }
  int NumberOfCapturingGroups() const { return ok_ ? (int)re_.mark_count() : -1; }
  static bool FullMatch(std::string_view text, const RE2 &re);
  static bool PartialMatch(std::string_view text, const RE2 &re);
  template <typename... A>
  static bool FullMatch(std::string_view text, const RE2 &re, A *...a);
  template <typename... A>
  static bool PartialMatch(std::string_view text, const RE2 &re, A *...a);
  template <typename... A>
  static bool FindAndConsume(std::string_view *input, const RE2 &re, A *...a);
  template <typename... A>
  static bool Consume(std::string_view *input, const RE2 &re, A *...a);
  static std::string QuoteMeta(std::string_view unquoted);

 private:
  void Init(const std::string &p);
  std::string pattern_, error_;
  std::regex re_;
  bool ok_ = true;
};
class LazyRE2 {
 public:
  const char *pattern_;
  RE2 &operator*() const { return *get(); }
  RE2 *operator->() const { return get(); }
  RE2 *get() const {
    if (!ptr_) ptr_ = new RE2(pattern_);
    return ptr_;
  }
  mutable RE2 *ptr_ = nullptr;
};
#endif
