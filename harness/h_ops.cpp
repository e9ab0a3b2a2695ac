// Runs the operators of the engine on random tables, next to nested loops.
//
// Reads jobs "KIND SEED STEPS" from stdin and writes a line "ok EVENTS..." or
// "bad MESSAGE" per job to the file given as argument.
#include <algorithm>
#include <array>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "engine/Engine.h"
#include "engine/IdTable.h"
#include "engine/Join.h"
#include "engine/Minus.h"
#include "engine/MultiColumnJoin.h"
#include "engine/OptionalJoin.h"
#include "engine/Union.h"

using std::array;
using std::string;
using std::vector;
using Row = vector<Id>;
using Rows = vector<Row>;
using Cols = vector<array<Id, 2>>;

struct Bad : std::runtime_error {
  using std::runtime_error::runtime_error;
};

#define WANT(cond, what)             \
  do {                               \
    if (!(cond)) {                   \
      std::ostringstream o;          \
      o << what;                     \
      throw Bad(o.str());            \
    }                                \
  } while (0)

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  uint64_t operator()(uint64_t n) { return n ? g() % n : 0; }
  bool p(int percent) { return (int)(g() % 100) < percent; }
};

using Events = std::map<string, size_t>;

ad_utility::AllocatorWithLimit<Id>& alloc() {
  static ad_utility::AllocatorWithLimit<Id> a{
      ad_utility::makeAllocationMemoryLeftThreadsafeObject(1ull << 32)};
  return a;
}

IdTable table(const Rows& rows, size_t cols) {
  IdTable t(cols, alloc());
  for (const Row& r : rows) {
    t.push_back();
    for (size_t c = 0; c < cols; ++c) t(t.size() - 1, c) = r[c];
  }
  return t;
}

Rows rows(const IdTable& t) {
  Rows res;
  for (size_t i = 0; i < t.size(); ++i) {
    Row r;
    for (size_t c = 0; c < t.cols(); ++c) r.push_back(t(i, c));
    res.push_back(r);
  }
  return res;
}

void sortBy(Rows& t, const vector<size_t>& cols) {
  std::sort(t.begin(), t.end(), [&](const Row& a, const Row& b) {
    for (size_t c : cols) {
      if (a[c] != b[c]) return a[c] < b[c];
    }
    return a < b;
  });
}

string show(const Row& r) {
  std::ostringstream o;
  for (Id x : r) o << x << " ";
  return o.str();
}

void same(Rows got, Rows want, const string& what) {
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  if (got == want) return;
  Rows more, less;
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(),
                      std::back_inserter(more));
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(),
                      std::back_inserter(less));
  WANT(false, what << " rows differ: got " << got.size() << " instead of "
                   << want.size() << ", too many: " << more.size()
                   << (more.empty() ? "" : ", first " + show(more[0]))
                   << ", missing: " << less.size()
                   << (less.empty() ? "" : ", first " + show(less[0])));
}

// The keys are drawn from few or many values, with runs of equal ones.
Rows random(Rng& r, size_t n, size_t cols, size_t range, size_t payload) {
  Rows res;
  int noValue = r.p(15) ? 10 : 0;
  for (size_t i = 0; i < n; ++i) {
    Row x;
    for (size_t c = 0; c < cols; ++c) {
      x.push_back(r.p(noValue) ? ID_NO_VALUE
                               : r(c % 2 && payload ? payload : range));
    }
    if (!res.empty() && r.p(20)) x = res[r(res.size())];
    res.push_back(x);
  }
  return res;
}

size_t smallSize(Rng& r) { return r.p(10) ? r(2) : r.p(80) ? r(12) : r(120); }

// ___________________________________________________________________________
void join(Rng& r, Events& ev, bool gallop) {
  static const vector<array<size_t, 2>> shapes = {
      {1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {4, 4}, {1, 6}};
  auto [la, lb] = shapes[r(shapes.size())];
  bool fixed = r.p(70);
  size_t na = smallSize(r), nb = smallSize(r);
  size_t range = 1 + r(r.p(50) ? 6 : 60);
  size_t rangeA = range, rangeB = range;
  if (gallop) {
    na = 1 + r(4);
    nb = (na + 1) * 1000 + r(1500);
    range = r.p(50) ? 1 + r(40) : 100 + r(4000);
    rangeA = r.p(30) ? range * 2 : range;
    rangeB = r.p(30) ? range / 2 + 1 : range;
    if (r.p(50)) {
      std::swap(na, nb);
      std::swap(rangeA, rangeB);
    }
  }
  Rows a = random(r, na, la, rangeA, 0), b = random(r, nb, lb, rangeB, 0);
  size_t ja = r(la), jb = r(lb);
  // The values need not start at zero.
  Id shift = r.p(50) ? r(range) : 0;
  for (Row& x : r.p(50) ? a : b) {
    if (x[0] != ID_NO_VALUE) {
      for (Id& y : x) y = y == ID_NO_VALUE ? y : y + shift;
    }
  }
  sortBy(a, {ja});
  sortBy(b, {jb});
  Rows want;
  {
    std::multimap<Id, const Row*> m;
    for (const Row& y : b) m.emplace(y[jb], &y);
    for (const Row& x : a) {
      auto [from, to] = m.equal_range(x[ja]);
      for (auto it = from; it != to; ++it) {
        Row z = x;
        for (size_t c = 0; c < lb; ++c) {
          if (c != jb) z.push_back((*it->second)[c]);
        }
        want.push_back(z);
      }
    }
  }
  IdTable ta = table(a, la), tb = table(b, lb), res(la + lb - 1, alloc());
  Join J{Join::InvalidOnlyForTestingJoinTag{}};
#define J_(x, y, z)                                   \
  else if (fixed && la == x && lb == y) {             \
    J.template join<x, y, z>(ta, ja, tb, jb, &res);   \
  }
  if (false) {
  }
  J_(1, 1, 1)
  J_(1, 2, 2)
  J_(2, 1, 2)
  J_(2, 2, 3)
  J_(2, 3, 4)
  J_(3, 2, 4)
  J_(3, 3, 5)
  else { J.template join<0, 0, 0>(ta, ja, tb, jb, &res); }
  Rows got = rows(res);
  same(got, want, "join:");
  for (size_t i = 1; i < got.size(); ++i) {
    WANT(got[i - 1][ja] <= got[i][ja], "join: not sorted");
  }
  WANT(rows(ta) == a && rows(tb) == b, "join: input changed");
  ev["rows"] += want.size();
  if (!want.empty()) ev["nonempty"]++;
}

// ___________________________________________________________________________
void columns(Rng& r, size_t la, size_t lb, Cols* cols, vector<size_t>* ca,
             vector<size_t>* cb) {
  size_t k = 1 + r(std::min(la, lb));
  vector<size_t> pa, pb;
  for (size_t i = 0; i < la; ++i) pa.push_back(i);
  for (size_t i = 0; i < lb; ++i) pb.push_back(i);
  std::shuffle(pa.begin(), pa.end(), r.g);
  std::shuffle(pb.begin(), pb.end(), r.g);
  for (size_t i = 0; i < k; ++i) {
    cols->push_back({pa[i], pb[i]});
    ca->push_back(pa[i]);
    cb->push_back(pb[i]);
  }
}

void multi(Rng& r, Events& ev, int kind) {  // 0 join, 1 optional, 2 minus
  size_t la = 1 + r(4), lb = 1 + r(4);
  Cols cols;
  vector<size_t> ca, cb;
  columns(r, la, lb, &cols, &ca, &cb);
  size_t range = 1 + r(r.p(70) ? 4 : 20);
  Rows a = random(r, smallSize(r), la, range, 0);
  Rows b = random(r, smallSize(r), lb, range, 0);
  if (!a.empty() && !b.empty()) {
    // Let some rows match.
    for (Row& y : b) {
      if (!r.p(40)) continue;
      const Row& x = a[r(a.size())];
      for (auto& c : cols) y[c[1]] = x[c[0]];
      if (r.p(30)) y[cols.back()[1]] = r(range);
    }
  }
  sortBy(a, ca);
  sortBy(b, cb);
  bool aOpt = false, bOpt = false;
  if (kind == 1) {
    int k = r(4);
    aOpt = k == 0 || k == 1;
    bOpt = k != 0;
  }
  auto matches = [&](const Row& x, const Row& y) {
    for (auto& c : cols) {
      if (x[c[0]] != y[c[1]]) return false;
    }
    return true;
  };
  Rows want;
  vector<bool> usedB(b.size());
  for (const Row& x : a) {
    bool found = false;
    for (size_t j = 0; j < b.size(); ++j) {
      if (!matches(x, b[j])) continue;
      found = usedB[j] = true;
      if (kind == 2) break;
      Row z = x;
      for (size_t c = 0; c < lb; ++c) {
        if (std::find(cb.begin(), cb.end(), c) == cb.end()) {
          z.push_back(b[j][c]);
        }
      }
      want.push_back(z);
    }
    if (!found && (kind == 2 || bOpt)) {
      Row z = x;
      if (kind == 1) z.resize(la + lb - cols.size(), ID_NO_VALUE);
      want.push_back(z);
    }
  }
  if (aOpt) {
    for (size_t j = 0; j < b.size(); ++j) {
      if (usedB[j]) continue;
      Row z(la, ID_NO_VALUE);
      for (auto& c : cols) z[c[0]] = b[j][c[1]];
      for (size_t c = 0; c < lb; ++c) {
        if (std::find(cb.begin(), cb.end(), c) == cb.end()) {
          z.push_back(b[j][c]);
        }
      }
      want.push_back(z);
    }
  }
  IdTable ta = table(a, la), tb = table(b, lb);
  size_t lr = kind == 2 ? la : la + lb - cols.size();
  IdTable res(lr, alloc());
  bool fixed = r.p(70);
#define OPS(x, y, z)                                                         \
  else if (fixed && la == x && lb == y && lr == z) {                         \
    if (kind == 0) {                                                         \
      MultiColumnJoin::computeMultiColumnJoin<x, y, z>(ta, tb, cols, &res);  \
    } else if (kind == 1) {                                                  \
      OptionalJoin::optionalJoin<x, y, z>(ta, tb, aOpt, bOpt, cols, &res);   \
    }                                                                        \
  }
#define MIN(x, y)                                   \
  else if (fixed && la == x && lb == y) {           \
    m.template computeMinus<x, y>(ta, tb, cols, &res); \
  }
  if (kind == 2) {
    Minus m{Minus::OnlyForTestingTag{}};
    if (false) {
    }
    MIN(1, 1)
    MIN(2, 1)
    MIN(2, 2)
    MIN(3, 2)
    MIN(4, 3)
    else { m.template computeMinus<0, 0>(ta, tb, cols, &res); }
  }
  OPS(1, 1, 1)
  OPS(2, 1, 2)
  OPS(1, 2, 2)
  OPS(2, 2, 2)
  OPS(2, 2, 3)
  OPS(3, 2, 3)
  OPS(3, 2, 4)
  OPS(3, 3, 4)
  else if (kind == 0) {
    MultiColumnJoin::computeMultiColumnJoin<0, 0, 0>(ta, tb, cols, &res);
  }
  else {
    OptionalJoin::optionalJoin<0, 0, 0>(ta, tb, aOpt, bOpt, cols, &res);
  }
  static const string names[] = {"columns:", "optional:", "minus:"};
  same(rows(res), want, names[kind]);
  WANT(rows(ta) == a && rows(tb) == b, names[kind] << " input changed");
  ev["rows"] += want.size();
  ev["unmatched"] += std::count_if(want.begin(), want.end(), [](const Row& x) {
    return std::find(x.begin(), x.end(), ID_NO_VALUE) != x.end();
  });
}

// ___________________________________________________________________________
void unite(Rng& r, Events& ev) {
  size_t la = 1 + r(3), lb = 1 + r(3), lr = 1 + r(4);
  // The size of a chunk that is copied at once is 100000.
  bool big = r(400) == 0;
  Rows a = random(r, big ? 100001 + r(100) : smallSize(r), la, 9, 0);
  Rows b = random(r, big && r.p(50) ? 100000 : smallSize(r), lb, 9, 0);
  vector<array<size_t, 2>> origins;
  bool same_ = r.p(25);
  if (same_) lb = lr = la, b = random(r, smallSize(r), lb, 9, 0);
  for (size_t c = 0; c < lr; ++c) {
    if (same_) {
      origins.push_back({c, c});
      continue;
    }
    size_t x = r.p(25) ? Union::NO_COLUMN : r(la);
    size_t y = r.p(25) ? Union::NO_COLUMN : r(lb);
    origins.push_back({x, y});
  }
  Rows want;
  for (int side : {0, 1}) {
    for (const Row& x : side ? b : a) {
      Row z;
      for (auto& o : origins) {
        z.push_back(o[side] == Union::NO_COLUMN ? ID_NO_VALUE : x[o[side]]);
      }
      want.push_back(z);
    }
  }
  IdTable ta = table(a, la), tb = table(b, lb), res(lr, alloc());
  Union U{Union::InvalidUnionOnlyUseForTestinTag{}};
#define UNI(x, y, z)                                        \
  else if (la == x && lb == y && lr == z) {                 \
    U.template computeUnion<x, y, z>(&res, ta, tb, origins); \
  }
  if (false) {
  }
  UNI(1, 1, 1)
  UNI(1, 1, 2)
  UNI(2, 2, 2)
  UNI(2, 1, 2)
  UNI(2, 2, 3)
  UNI(3, 3, 3)
  else { U.template computeUnion<0, 0, 0>(&res, ta, tb, origins); }
  same(rows(res), want, "union:");
  ev["rows"] += want.size();
}

// ___________________________________________________________________________
void distinctAndSort(Rng& r, Events& ev) {
  size_t cols = 1 + r(6);
  Rows a = random(r, r.p(10) ? 2000 : smallSize(r), cols, 1 + r(6), 0);
  IdTable t = table(a, cols);
  size_t key = r(cols);
#define S_(x)                                   \
  else if (cols == x) {                         \
    Engine::sort<x>(&t, key);                   \
  }
  if (false) {
  }
  S_(1)
  S_(2)
  S_(3)
  S_(4)
  S_(5)
  else { Engine::sort<0>(&t, key); }
  Rows got = rows(t);
  same(got, a, "sort:");
  for (size_t i = 1; i < got.size(); ++i) {
    WANT(got[i - 1][key] <= got[i][key], "sort: not sorted");
  }
  vector<size_t> keep;
  for (size_t c = 0; c < cols; ++c) {
    if (r.p(60)) keep.push_back(c);
  }
  if (keep.empty()) keep.push_back(0);
  sortBy(a, keep);
  IdTable in = table(a, cols), res(cols, alloc());
#define D_(x)                                   \
  else if (cols == x) {                         \
    Engine::distinct<x>(in, keep, &res);        \
  }
  if (false) {
  }
  D_(1)
  D_(2)
  D_(3)
  D_(4)
  D_(5)
  else { Engine::distinct<0>(in, keep, &res); }
  auto project = [&](const Rows& x) {
    Rows y;
    for (const Row& row : x) {
      Row z;
      for (size_t c : keep) z.push_back(row[c]);
      y.push_back(z);
    }
    return y;
  };
  Rows keys = project(a);
  std::sort(keys.begin(), keys.end());
  keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
  Rows out = rows(res);
  same(project(out), keys, "distinct:");
  std::set<Row> all(a.begin(), a.end());
  for (const Row& x : out) WANT(all.count(x), "distinct: invented a row");
  ev["rows"] += a.size();
}

int main(int, char** argv) {
  std::ofstream out(argv[1]);
  string kind;
  uint64_t seed;
  size_t steps;
  while (std::cin >> kind >> seed >> steps) {
    Rng r(seed);
    Events ev;
    try {
      for (size_t i = 0; i < steps; ++i) {
        if (kind == "join") {
          join(r, ev, false);
        } else if (kind == "gallop") {
          join(r, ev, true);
        } else if (kind == "columns") {
          multi(r, ev, 0);
        } else if (kind == "optional") {
          multi(r, ev, 1);
        } else if (kind == "minus") {
          multi(r, ev, 2);
        } else if (kind == "union") {
          unite(r, ev);
        } else if (kind == "distinct") {
          distinctAndSort(r, ev);
        }
      }
      out << "ok";
      for (const auto& [k, v] : ev) out << "\t" << k << "=" << v;
      out << std::endl;
    } catch (const std::exception& e) {
      string s = e.what();
      std::replace(s.begin(), s.end(), '\n', ' ');
      out << "bad\t" << s << std::endl;
    }
  }
}
