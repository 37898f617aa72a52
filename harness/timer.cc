// Replays behaviours of Timers.tla with a clock that only the case advances.
#include <chrono>
#include <memory>

namespace {
long long g_now = 0;  // in nanoseconds
}
// The executable's definitions take the place of the library's clocks.
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point{duration{g_now}};
}
system_clock::time_point system_clock::now() noexcept {
  return time_point{duration{g_now}};
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

#include "replay.h"

#include "dreal/util/timer.h"

using dreal::Timer;
using dreal::TimerGuard;
using replay::expect_eq;
using replay::fail;
using std::string;
using std::vector;

int main() {
  return replay::run([](const vector<string>& raw) {
    std::istringstream h(raw.at(0));
    size_t nt;
    long long unit, origin;
    h >> nt >> unit >> origin;
    g_now = origin;
    vector<std::unique_ptr<Timer>> t;
    for (size_t i = 0; i < nt; ++i) t.emplace_back(new Timer());
    vector<std::unique_ptr<TimerGuard>> g;
    for (size_t s = 1; s < raw.size(); ++s) {
      std::istringstream in(raw[s]);
      string nm;
      int i, a, b;
      in >> nm >> i >> a >> b;
      if (nm == "tick") {
        g_now += i * unit;
      } else if (nm == "start") {
        t[i - 1]->start();
      } else if (nm == "pause") {
        t[i - 1]->pause();
      } else if (nm == "resume") {
        t[i - 1]->resume();
      } else if (nm == "guard") {
        if (b == 1 && s % 2) {
          g.emplace_back(new TimerGuard(t[i - 1].get(), a == 1));
        } else {
          g.emplace_back(new TimerGuard(t[i - 1].get(), a == 1, b == 1));
        }
      } else if (nm == "gpause") {
        g.at(i - 1)->pause();
      } else if (nm == "gresume") {
        g.at(i - 1)->resume();
      } else if (nm == "gend") {
        g.pop_back();
      } else {
        fail("unknown operation " + nm);
      }
      const string w = "step " + std::to_string(s) + " (" + nm + ") timer ";
      for (size_t k = 0; k < nt; ++k) {
        long long el;
        in >> el;
        const Timer& x = *t[k];
        const string wk = w + std::to_string(k + 1);
        expect_eq(el * unit,
                  static_cast<long long>(
                      std::chrono::duration_cast<std::chrono::nanoseconds>(
                          x.elapsed())
                          .count()),
                  wk + " elapsed");
        const double sec = el * static_cast<double>(unit) * 1e-9;
        if (x.seconds() < sec * (1 - 1e-12) || x.seconds() > sec * (1 + 1e-12)) {
          fail(wk + " seconds");
        }
        std::ostringstream o, e;
        o << x;
        e << sec << "s";
        expect_eq(e.str(), o.str(), wk + " text");
      }
      for (size_t k = 0; k < nt; ++k) {
        int on;
        in >> on;
        expect_eq(on == 1, t[k]->is_running(), w + std::to_string(k + 1) +
                                                   " running");
      }
      replay::stats()["steps"]++;
    }
    while (!g.empty()) g.pop_back();
  });
}
