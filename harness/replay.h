// Common part of the replay harnesses: reads BEGIN/END blocks, runs a case,
// reports FAIL/OK.
#pragma once
#include <unistd.h>

#include <cstdio>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace replay {

struct Divergence : public std::runtime_error {
  explicit Divergence(const std::string& s) : std::runtime_error(s) {}
};

inline std::map<std::string, long>& stats() {
  static std::map<std::string, long> s;
  return s;
}

inline void fail(const std::string& s) { throw Divergence(s); }

template <typename A, typename B>
void expect_eq(const A& want, const B& got, const std::string& what) {
  if (!(want == got)) {
    std::ostringstream o;
    o << what << ": specification " << want << ", code " << got;
    fail(o.str());
  }
}

inline std::string one_line(std::string s) {
  for (char& c : s) {
    if (c == '\n' || c == '\r') c = ' ';
  }
  return s;
}

// Set by harnesses whose state cannot be cleaned up after a divergence.
inline bool& stop_after_fail() {
  static bool b = false;
  return b;
}

inline int run(
    const std::function<void(const std::vector<std::string>&)>& body) {
  std::string line;
  std::vector<std::string> cur;
  long id = -1;
  while (std::getline(std::cin, line)) {
    if (line.compare(0, 6, "BEGIN ") == 0) {
      id = std::stol(line.substr(6));
      cur.clear();
    } else if (line == "END") {
      try {
        body(cur);
        std::printf("OK %ld\n", id);
      } catch (const Divergence& e) {
        std::printf("FAIL %ld %s\n", id, one_line(e.what()).c_str());
        if (stop_after_fail()) {
          std::fflush(stdout);
          _exit(3);
        }
      } catch (const std::exception& e) {
        std::printf("FAIL %ld unexpected exception: %s\n", id,
                    one_line(e.what()).c_str());
      }
      std::fflush(stdout);
    } else {
      cur.push_back(line);
    }
  }
  for (const auto& p : stats()) {
    std::printf("STAT %s %ld\n", p.first.c_str(), p.second);
  }
  std::fflush(stdout);
  return 0;
}

}  // namespace replay
