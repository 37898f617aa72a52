// Replays behaviours of Scoped.tla in the real containers.
#include <algorithm>
#include <memory>

#include "replay.h"

#include "dreal/util/scoped_unordered_map.h"
#include "dreal/util/scoped_unordered_set.h"
#include "dreal/util/scoped_vector.h"

using replay::expect_eq;
using replay::fail;
using std::string;
using std::vector;

namespace {
// Colliding hash, so that bucket handling matters.
struct Hash {
  size_t operator()(int k) const { return static_cast<size_t>(k) % 2; }
};
using Vec = dreal::ScopedVector<int>;
using Map = dreal::ScopedUnorderedMap<int, int, Hash>;
using Set = dreal::ScopedUnorderedSet<int, Hash>;

string show(const vector<int>& v) {
  std::ostringstream o;
  for (int x : v) o << x << ",";
  return o.str();
}

int nk = 0;

void insert(Vec* c, int, int v) {
  if (v % 2) {
    c->push_back(v);
  } else {
    int tmp = v;
    c->push_back(std::move(tmp));
  }
}
void insert(Map* c, int k, int v) { c->insert(k, v); }
void insert(Set* c, int k, int) { c->insert(k); }
int pop(Vec* c) { return static_cast<int>(c->pop()); }
template <class C>
int pop(C* c) {
  c->pop();
  return 0;
}
void clear(Vec*) {}
template <class C>
void clear(C* c) {
  c->clear();
}
void set(Vec* c, int k, int v) { (*c)[k - 1] = v; }
template <class C>
void set(C*, int, int) {}

void observe(const Vec& c, const vector<int>& want, const string& where) {
  const vector<int> got(c.begin(), c.end());
  expect_eq(show(want), show(got), where + " contents");
  expect_eq(want.size(), c.size(), where + " size");
  expect_eq(want.empty(), c.empty(), where + " empty");
  expect_eq(show(want), show(c.get_vector()), where + " get_vector");
  for (size_t i = 0; i < want.size(); ++i) {
    expect_eq(want[i], c[i], where + " operator[]");
  }
  vector<int> rev(want.rbegin(), want.rend());
  expect_eq(show(rev), show(c.get_reverse()), where + " get_reverse");
  if (!want.empty()) {
    expect_eq(want.front(), c.first(), where + " first");
    expect_eq(want.back(), c.last(), where + " last");
  }
}

void observe(const Map& c, const vector<int>& want, const string& where) {
  size_t n = 0;
  for (int k = 1; k <= static_cast<int>(want.size()); ++k) {
    const int w = want[k - 1];
    if (w) {
      ++n;
      expect_eq(1u, c.count(k), where + " count");
      expect_eq(w, c[k], where + " value of " + std::to_string(k));
      if (c.find(k) == c.end()) fail(where + " find misses a key");
      expect_eq(w, c.find(k)->second, where + " find");
    } else {
      expect_eq(0u, c.count(k), where + " count of absent");
      if (c.find(k) != c.end()) fail(where + " find of an absent key");
      bool thrown = false;
      try {
        c[k];
      } catch (const std::runtime_error&) {
        thrown = true;
      }
      if (!thrown) fail(where + " operator[] of an absent key did not throw");
    }
  }
  expect_eq(n, c.size(), where + " size");
  expect_eq(n == 0, c.empty(), where + " empty");
  size_t it = 0;
  for (const auto& p : c) {
    ++it;
    expect_eq(want.at(p.first - 1), p.second, where + " iteration");
  }
  expect_eq(n, it, where + " iteration count");
}

void observe(const Set& c, const vector<int>& want, const string& where) {
  size_t n = 0;
  for (int k = 1; k <= static_cast<int>(want.size()); ++k) {
    n += want[k - 1];
    expect_eq(static_cast<size_t>(want[k - 1]), c.count(k), where + " count");
    expect_eq(want[k - 1] == 1, c.find(k) != c.end(), where + " find");
  }
  expect_eq(n, c.size(), where + " size");
  expect_eq(n == 0, c.empty(), where + " empty");
  size_t it = 0;
  for (int k : c) {
    ++it;
    expect_eq(1, want.at(k - 1), where + " iteration");
  }
  expect_eq(n, it, where + " iteration count");
}

template <class C>
void run(const vector<string>& lines, int ni, const vector<int>& empty) {
  vector<C> objs(ni);
  vector<vector<int>> want(ni, empty);
  for (size_t li = 1; li < lines.size(); ++li) {
    std::istringstream in(lines[li]);
    string nm;
    int i, k, v, res, n;
    in >> nm >> i >> k >> v >> res >> n;
    --i;
    vector<int> w(n);
    for (int& x : w) in >> x;
    C* c = &objs[i];
    const string where = "step " + std::to_string(li) + " " + nm;
    if (nm == "insert") {
      insert(c, k, v);
    } else if (nm == "push") {
      c->push();
    } else if (nm == "pop") {
      int got = 0;
      try {
        got = pop(c);
      } catch (const std::runtime_error&) {
        got = -1;
      }
      expect_eq(res, got, where + " result");
    } else if (nm == "clear") {
      clear(c);
    } else if (nm == "set") {
      set(c, k, v);
    } else if (nm == "copy") {
      if (li % 2) {
        *c = objs[k - 1];
      } else {
        C tmp(objs[k - 1]);
        *c = tmp;
      }
    } else if (nm == "move") {
      C tmp(std::move(objs[k - 1]));
      *c = std::move(tmp);
      objs[k - 1] = C();
      want[k - 1] = empty;
    } else {
      throw std::logic_error("bad op " + nm);
    }
    want[i] = w;
    ++replay::stats()["steps"];
    for (int j = 0; j < ni; ++j) {
      observe(objs[j], want[j], where + " object " + std::to_string(j + 1));
    }
  }
}
}  // namespace

int main() {
  return replay::run([](const vector<string>& lines) {
    std::istringstream in(lines.at(0));
    string kind;
    int ni;
    in >> kind >> ni >> nk;
    if (kind == "vec") run<Vec>(lines, ni, {});
    if (kind == "map") run<Map>(lines, ni, vector<int>(nk, 0));
    if (kind == "set") run<Set>(lines, ni, vector<int>(nk, 0));
  });
}
