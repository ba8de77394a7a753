// Reads a file into a buffer of exactly its size, prints what the tokeniser yields.
#include <cstring>
#include <fstream>
#include <iostream>
#include <iterator>
#include <string>

#include "bant/frontend/named-content.h"
#include "bant/frontend/scanner.h"

int main(int argc, char *argv[]) {
  std::ifstream f(argv[1], std::ios::binary);
  const std::string s((std::istreambuf_iterator<char>(f)), {});
  char *buf = new char[s.size()];
  memcpy(buf, s.data(), s.size());
  const std::string_view text(buf, s.size());
  bant::NamedLineIndexedContent content("F", text);
  bant::Scanner scanner(content);
  for (int i = 0; i < 1000; ++i) {
    const bant::Token t = scanner.Next();
    if (t.text.data() < text.data() || t.text.data() + t.text.size() > text.data() + text.size()) {
      std::cout << "OUTSIDE\n";
      return 1;
    }
    std::cout << content.Loc(t.text) << " " << t << "\n";
    if (t.type == bant::TokenType::kEof) {
      if (t.text.data() != text.data() + text.size()) { std::cout << "EARLY\n"; return 1; }
      break;
    }
  }
  delete[] buf;
  return 0;
}
