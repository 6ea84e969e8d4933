// Reference matcher for path patterns.
#pragma once
#include "common.hpp"

namespace {

std::vector<std::string> split(const std::string& abs) {
  std::vector<std::string> v(1);
  for (size_t i = 1; i < abs.size(); i++) {
    if (abs[i] == '/') v.emplace_back();
    else v.back() += abs[i];
  }
  return v;
}

bool seg_match(const std::string& p, const std::string& s) {
  std::vector<char> row(s.size() + 1, 0);
  row[0] = 1;
  for (char c : p) {
    std::vector<char> next(s.size() + 1, 0);
    if (c == '*') {
      bool any = false;
      for (size_t j = 0; j <= s.size(); j++) {
        any |= row[j];
        next[j] = any;
      }
    } else {
      for (size_t j = 0; j < s.size(); j++) next[j + 1] = row[j] && s[j] == c;
    }
    row = next;
  }
  return row[s.size()];
}

bool ref_match(const std::vector<std::string>& p, const std::vector<std::string>& s) {
  std::vector<char> row(s.size() + 1, 0);
  row[0] = 1;
  for (size_t i = 0; i < p.size(); i++) {
    std::vector<char> next(s.size() + 1, 0);
    if (p[i] == "**" && i + 1 < p.size()) {
      bool any = false;
      for (size_t j = 0; j <= s.size(); j++) {
        any |= row[j];
        next[j] = any;
      }
    } else {
      for (size_t j = 0; j < s.size(); j++) next[j + 1] = row[j] && seg_match(p[i], s[j]);
    }
    row = next;
  }
  return row[s.size()];
}

}  // namespace
