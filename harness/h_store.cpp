// Runs random operations on the containers and codecs, next to simple models.
//
// Reads jobs "KIND SEED STEPS" from stdin and writes a line "ok EVENTS..." or
// "bad MESSAGE" per job to the file given as argument. Scratch files are made
// in the current directory.
#include <algorithm>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "engine/IdTable.h"
#include "global/Pattern.h"
#include "index/PrefixHeuristic.h"
#include "util/BufferedVector.h"
#include "util/Cache.h"
#include "util/File.h"
#include "util/MmapVector.h"
#include "util/PriorityQueue.h"
#include "util/Simple8bCode.h"

using std::string;
using std::vector;

struct Bad : std::runtime_error {
  using std::runtime_error::runtime_error;
};

#define WANT(cond, what)                                         \
  do {                                                           \
    if (!(cond)) {                                               \
      std::ostringstream o;                                      \
      o << what << " [step " << step << "]";                     \
      throw Bad(o.str());                                        \
    }                                                            \
  } while (0)

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  uint64_t operator()(uint64_t n) { return n ? g() % n : 0; }
  uint64_t bits() { return g(); }
  bool p(int percent) { return (int)(g() % 100) < percent; }
};

using Events = std::map<string, size_t>;

struct Pair {
  uint64_t a;
  uint32_t b;
  bool operator==(const Pair& o) const { return a == o.a && b == o.b; }
};

template <class T>
T value(Rng& r);
template <>
uint64_t value<uint64_t>(Rng& r) {
  return r.bits();
}
template <>
uint8_t value<uint8_t>(Rng& r) {
  return r.bits();
}
template <>
Pair value<Pair>(Rng& r) {
  Pair p;
  std::memset(&p, 0, sizeof p);
  p.a = r.bits();
  p.b = r.bits();
  return p;
}

// ___________________________________________________________________________
template <class T>
void mmapVector(Rng& r, size_t steps, const string& name, Events& ev) {
  using V = ad_utility::MmapVector<T>;
  string file = name + ".mv";
  size_t step = 0;
  vector<T> m;
  std::unique_ptr<V> v;
  auto same = [&](const auto& x, const char* what) {
    WANT(x.size() == m.size(), what << ": size " << x.size() << " instead of "
                                    << m.size());
    WANT(std::equal(x.begin(), x.end(), m.begin()), what << ": contents");
  };
  auto create = [&]() {
    size_t n = r.p(30) ? 0 : r(r.p(20) ? 20000 : 300);
    T d = value<T>(r);
    m.clear();
    switch (r(4)) {
      case 0:
        v = std::make_unique<V>(n, d, file);
        m.assign(n, d);
        break;
      case 1:
        for (size_t i = 0; i < n; ++i) m.push_back(value<T>(r));
        v = std::make_unique<V>();
        v->open(m.begin(), m.end(), file);
        break;
      case 2:
        v = std::make_unique<V>(file, ad_utility::CreateTag());
        break;
      default:
        v = std::make_unique<V>();
        v->open(n, file);
        for (size_t i = 0; i < n; ++i) {
          m.push_back(value<T>(r));
          (*v)[i] = m[i];
        }
    }
    ev["created"]++;
  };
  create();
  for (step = 0; step < steps; ++step) {
    switch (r(12)) {
      case 0:
      case 1:
      case 2:
      case 3: {
        size_t n = r.p(10) ? r(3000) : r(20);
        for (size_t i = 0; i < n; ++i) {
          T x = value<T>(r);
          m.push_back(x);
          v->push_back(x);
        }
        ev["pushed"] += n;
        break;
      }
      case 4: {
        size_t n = r(r.p(20) ? 30000 : m.size() + 10);
        size_t old = m.size();
        v->resize(n);
        m.resize(n);
        for (size_t i = old; i < n; ++i) (*v)[i] = m[i] = value<T>(r);
        ev["resized"]++;
        break;
      }
      case 5: {
        size_t n = r(m.size() * 2 + 500);
        v->reserve(n);
        WANT(v->capacity() >= n, "capacity after reserve");
        break;
      }
      case 6:
        if (!m.empty()) {
          size_t i = r(m.size());
          m[i] = (*v)[i] = value<T>(r);
          WANT(v->at(i) == m[i], "at");
          WANT(v->back() == m.back(), "back");
        }
        break;
      case 7: {
        bool thrown = false;
        try {
          v->at(m.size() + r(100));
        } catch (const std::out_of_range&) {
          thrown = true;
        }
        WANT(thrown, "at past the end did not throw");
        break;
      }
      case 8:
        // The contents survive closing.
        if (r.p(50)) {
          v->close();
        } else {
          v.reset();
        }
        v = std::make_unique<V>(file, ad_utility::ReuseTag());
        ev["reopened"]++;
        break;
      case 9: {
        auto w = std::make_unique<V>(std::move(*v));
        if (r.p(50)) {
          v = std::move(w);
        } else {
          V x;
          x = std::move(*w);
          v = std::make_unique<V>(std::move(x));
        }
        ev["moved"]++;
        break;
      }
      case 10: {
        v.reset();
        {
          ad_utility::MmapVectorView<T> view(file);
          same(view, "view");
          ad_utility::MmapVectorView<T> view2(std::move(view));
          same(view2, "moved view");
        }
        v = std::make_unique<V>(file, ad_utility::ReuseTag());
        ev["viewed"]++;
        break;
      }
      default:
        if (r.p(20)) {
          v.reset();
          create();
        } else if (r.p(20)) {
          v->clear();
          m.clear();
        } else {
          v->setAccessPattern(r.p(50) ? ad_utility::AccessPattern::Random
                                      : ad_utility::AccessPattern::Sequential);
        }
    }
    same(*v, "vector");
  }
  v.reset();
  {
    std::ofstream(file, std::ios::app) << "x";
    bool thrown = false;
    try {
      V x(file, ad_utility::ReuseTag());
    } catch (const std::exception&) {
      thrown = true;
    }
    WANT(thrown, "a damaged file was opened");
  }
  std::remove(file.c_str());
}

void buffered(Rng& r, size_t steps, const string& name, Events& ev) {
  size_t step = 0;
  size_t threshold = r(200);
  string file = name + ".bv";
  {
    ad_utility::BufferedVector<uint64_t> v(threshold, file);
    vector<uint64_t> m;
    for (step = 0; step < steps; ++step) {
      if (r.p(4)) {
        v.clear();
        m.clear();
        ev["cleared"]++;
      } else if (r.p(20) && !m.empty()) {
        size_t i = r(m.size());
        v[i] = m[i] = r.bits();
        WANT(v.at(i) == m[i], "at");
      } else {
        size_t n = r(30);
        for (size_t i = 0; i < n; ++i) {
          uint64_t x = r.bits();
          v.push_back(x);
          m.push_back(x);
        }
      }
      ev[v.isInternal() ? "internal" : "external"]++;
      WANT(v.isInternal() == (m.size() <= threshold), "place of the data");
      WANT(v.size() == m.size(), "size");
      WANT(std::equal(v.begin(), v.end(), m.begin(), m.end()), "contents");
    }
  }
  WANT(!std::ifstream(file), "temporary file left behind");
}

template <class T>
void simple8b(Rng& r, size_t steps, Events& ev) {
  size_t step = 0;
  for (step = 0; step < steps; ++step) {
    size_t n = r.p(10) ? r(20) : r(1500);
    vector<T> in;
    int maxBits = 1 + r(std::min<size_t>(60, 8 * sizeof(T)));
    while (in.size() < n) {
      int k = r(5);
      if (k == 0) {
        size_t run = r.p(50) ? r(300) : 118 + r(5) + (r.p(50) ? 120 : 0);
        while (run-- && in.size() < n) in.push_back(0);
      } else {
        int bits = k < 3 ? 1 + r(maxBits) : r(maxBits + 1);
        size_t run = 1 + r(70);
        while (run-- && in.size() < n) {
          uint64_t x = r.bits();
          x = bits == 0 ? 0 : x >> (64 - bits);
          if (r.p(10) && bits) x = (uint64_t(1) << bits) - 1;
          in.push_back(x);
        }
      }
    }
    vector<uint64_t> code(n + 1);
    size_t bytes = ad_utility::Simple8bCode::encode(in.data(), n, code.data());
    WANT(bytes % 8 == 0 && bytes / 8 <= n, "length of the code " << bytes);
    code.resize(bytes / 8);
    code.shrink_to_fit();
    vector<T> out(n + 239);
    ad_utility::Simple8bCode::decode(code.data(), n, out.data());
    for (size_t i = 0; i < n; ++i) {
      WANT(out[i] == in[i], "element " << i << " of " << n << ": "
                                       << (uint64_t)out[i] << " instead of "
                                       << (uint64_t)in[i]);
    }
    ev["lists"]++;
    ev["elements"] += n;
  }
}

// ___________________________________________________________________________
using Rows = vector<vector<Id>>;

template <class A, class B>
bool sameRow(const A& a, const B& b, size_t cols) {
  for (size_t c = 0; c < cols; ++c)
    if (a[c] != b[c]) return false;
  return true;
}

template <class T>
void tableSame(const T& t, const Rows& m, size_t cols, size_t step,
               const char* what) {
  WANT(t.cols() == cols, what << ": columns");
  WANT(t.size() == m.size(), what << ": " << t.size() << " rows instead of "
                                  << m.size());
  size_t i = 0;
  for (const auto& row : t) {
    WANT(sameRow(row, m[i], cols), what << ": row " << i);
    ++i;
  }
  WANT(i == m.size(), what << ": iteration");
  for (i = 0; i < m.size(); ++i)
    for (size_t c = 0; c < cols; ++c)
      WANT(t(i, c) == m[i][c], what << ": cell " << i << " " << c);
}

template <class Table>
void append(Table& t, const vector<Id>& x) {
  t.push_back();
  for (size_t c = 0; c < x.size(); ++c) t(t.size() - 1, c) = x[c];
}

template <int COLS, class Table>
void tableOps(Rng& r, size_t steps, size_t cols, Table& t, Rows& m,
              Events& ev) {
  size_t step = 0;
  auto row = [&]() {
    vector<Id> x;
    for (size_t c = 0; c < cols; ++c) x.push_back(r.p(60) ? r(9) : r.bits());
    return x;
  };
  for (step = 0; step < steps; ++step) {
    switch (r(12)) {
      case 0:
      case 1: {
        auto x = row();
        append(t, x);
        m.push_back(x);
        break;
      }
      case 2: {
        size_t n = r(40);
        while (n--) {
          auto x = row();
          t.emplace_back();
          for (size_t c = 0; c < cols; ++c) t(m.size(), c) = x[c];
          m.push_back(x);
        }
        break;
      }
      case 3:
        if (!m.empty()) {
          t.pop_back();
          m.pop_back();
        }
        break;
      case 4: {
        Table o = t;
        Rows om = m;
        size_t n = r(5);
        while (n--) {
          auto x = row();
          append(o, x);
          om.push_back(x);
        }
        size_t a = r(om.size() + 1), b = a + r(om.size() + 1 - a);
        size_t at = r(m.size() + 1);
        if (om.size() > 0) {
          const Table& co = o;
          t.insert(t.begin() + at, co.begin() + a, co.begin() + b);
          m.insert(m.begin() + at, om.begin() + a, om.begin() + b);
          ev["inserted"] += b - a;
        }
        tableSame(o, om, cols, step, "copy");
        if (m.size() > 2000) {
          t.resize(50);
          m.resize(50);
        }
        break;
      }
      case 5:
        if (!m.empty()) {
          size_t a = r(m.size());
          if (r.p(50)) {
            t.erase(t.begin() + a);
            m.erase(m.begin() + a);
          } else {
            size_t b = a + r(m.size() + 1 - a);
            t.erase(t.begin() + a, t.begin() + b);
            m.erase(m.begin() + a, m.begin() + b);
          }
          ev["erased"]++;
        }
        break;
      case 6:
        t.reserve(r(m.size() * 2 + 30));
        break;
      case 7: {
        size_t n = r(m.size() + 10), old = m.size();
        t.resize(n);
        m.resize(n);
        for (size_t i = old; i < n; ++i) {
          m[i] = row();
          for (size_t c = 0; c < cols; ++c) t(i, c) = m[i][c];
        }
        break;
      }
      case 8:
        if (r.p(15)) {
          t.clear();
          m.clear();
        }
        break;
      case 9: {
        size_t c0 = r(cols);
        auto less = [&](const auto& a, const auto& b) {
          for (size_t c = 0; c < cols; ++c) {
            size_t k = (c + c0) % cols;
            if (a[k] != b[k]) return a[k] < b[k];
          }
          return false;
        };
        std::sort(t.begin(), t.end(), less);
        std::sort(m.begin(), m.end(), less);
        ev["sorted"]++;
        break;
      }
      case 10:
        if (m.size() > 1) {
          size_t i = r(m.size()), j = r(m.size());
          std::swap(m[i], m[j]);
          std::iter_swap(t.begin() + i, t.begin() + j);
        }
        break;
      default: {
        Table o(t);
        Table q(std::move(t));
        t = o;
        tableSame(q, m, cols, step, "moved");
        WANT(q == o, "comparison of equal tables");
        if (!m.empty()) {
          size_t i = r(m.size()), c = r(cols);
          o(i, c)++;
          WANT(!(q == o), "comparison of different tables");
        }
        auto view = t.template asStaticView<COLS>();
        tableSame(view, m, cols, step, "view");
        ev["copied"]++;
      }
    }
    tableSame(t, m, cols, step, "table");
    ev["steps"]++;
  }
}

template <int COLS>
void idTable(Rng& r, size_t steps, Events& ev) {
  size_t cols = COLS ? COLS : 1 + r(8);
  ad_utility::AllocatorWithLimit<Id> al{
      ad_utility::makeAllocationMemoryLeftThreadsafeObject(1ull << 32)};
  IdTable dyn(cols, al);
  Rows m;
  while (steps) {
    size_t n = std::min(steps, 1 + r(20));
    steps -= n;
    tableOps<0>(r, n, cols, dyn, m, ev);
    if constexpr (COLS != 0) {
      auto st = dyn.moveToStatic<COLS>();
      tableSame(st, m, cols, n, "made static");
      tableOps<COLS>(r, 1 + r(20), cols, st, m, ev);
      dyn = st.moveToDynamic();
      tableSame(dyn, m, cols, n, "made dynamic");
    }
  }
}

// ___________________________________________________________________________
void strings(Rng& r, size_t steps, const string& name, Events& ev) {
  size_t step = 0;
  using V = CompactStringVector<Id, Id>;
  for (step = 0; step < steps; ++step) {
    vector<vector<Id>> m(r(30));
    for (auto& x : m) {
      size_t n = r.p(20) ? 0 : r(12);
      while (n--) x.push_back(r.bits());
    }
    auto same = [&](const V& v, const char* what) {
      WANT(v.size() == m.size(), what << ": size");
      for (size_t i = 0; i < m.size(); ++i) {
        auto [p, n] = v[i];
        WANT(n == m[i].size(), what << ": length of " << i);
        WANT(std::equal(p, p + n, m[i].begin()), what << ": entry " << i);
      }
    };
    V v(m);
    same(v, "built");
    string file = name + ".csv";
    size_t off = r(40);
    {
      ad_utility::File f(file, "w");
      string junk(off, 'x');
      f.write(junk.data(), off);
      size_t n = v.write(f);
      f.write("tail", 4);
      WANT(n > 0, "bytes written");
    }
    {
      ad_utility::File f(file, "r");
      V w(f, off);
      same(w, "loaded");
    }
    std::remove(file.c_str());
    ev["vectors"]++;
  }
}

// ___________________________________________________________________________
void prefixes(Rng& r, size_t steps, Events& ev) {
  // The chosen prefixes really are prefixes of words and are different.
  size_t step = 0;
  for (step = 0; step < steps; ++step) {
    vector<string> words;
    vector<string> stems{"<http://a/", "<http://ab/x", "\"", "<", "é"};
    size_t n = r(60);
    for (size_t i = 0; i < n; ++i) {
      string w = r.p(70) ? stems[r(stems.size())] : "";
      size_t k = r(6);
      while (k--) w += "ab"[r(2)];
      if (r.p(20)) stems.push_back(w);
      words.push_back(w);
    }
    std::sort(words.begin(), words.end());
    words.erase(std::unique(words.begin(), words.end()), words.end());
    size_t num = r(8), code = 1 + r(2);
    auto res = calculatePrefixes(words, num, code);
    WANT(res.size() <= num, "number of prefixes " << res.size());
    std::set<string> seen;
    for (const auto& p : res) {
      if (p.empty()) continue;
      WANT(seen.insert(p).second, "prefix " << p << " twice");
      size_t count = 0;
      for (const auto& w : words) count += w.compare(0, p.size(), p) == 0;
      WANT(count > 0, "prefix " << p << " of no word");
    }
    ev["lists"]++;
    ev["prefixes"] += res.size();
  }
}

// ___________________________________________________________________________
template <class PQ>
void queue(Rng& r, size_t steps, Events& ev) {
  size_t step = 0;
  PQ q;
  std::multiset<std::pair<int, int>> m;  // score, value
  std::map<int, std::pair<int, typename PQ::Handle>> live;
  int next = 0;
  for (step = 0; step < steps; ++step) {
    int k = r(10);
    if (k < 4) {
      int s = r(50);
      auto h = q.insert(s, next);
      m.insert({s, next});
      live.emplace(next, std::make_pair(s, h));
      ++next;
    } else if (k < 6) {
      if (m.empty()) {
        bool thrown = false;
        try {
          q.pop();
        } catch (const std::exception&) {
          thrown = true;
        }
        WANT(thrown, "pop of an empty queue");
      } else {
        auto h = q.pop();
        int s = h.score(), v = h.value();
        WANT(s == m.begin()->first,
             "popped " << s << " instead of " << m.begin()->first);
        auto it = m.find({s, v});
        WANT(it != m.end(), "popped an unknown value " << v);
        m.erase(it);
        live.erase(v);
        ev["popped"]++;
      }
    } else if (k < 9) {
      if (!live.empty()) {
        auto it = live.begin();
        std::advance(it, r(live.size()));
        int s = r(50);
        auto& [old, h] = it->second;
        q.updateKey(s, &h);
        m.erase(m.find({old, it->first}));
        m.insert({s, it->first});
        old = s;
        WANT(h.score() == s && h.value() == it->first, "handle after update");
        ev["updated"]++;
      }
    } else if (r.p(80)) {
      if (!live.empty()) {
        auto it = live.begin();
        std::advance(it, r(live.size()));
        auto h = it->second.second;
        q.erase(std::move(h));
        m.erase(m.find({it->second.first, it->first}));
        live.erase(it);
        ev["erased"]++;
      }
    } else if (r.p(20)) {
      q.clear();
      m.clear();
      live.clear();
    }
    WANT(q.size() == m.size(), "size " << q.size() << " instead of "
                                       << m.size());
    WANT(q.empty() == m.empty(), "empty");
  }
}

void cache(Rng& r, size_t steps, Events& ev) {
  size_t step = 0;
  using V = vector<int>;
  size_t maxNum = 1 + r(12), maxSize = 5 + r(60), single = 1 + r(25);
  ad_utility::HeapBasedLRUCache<string, V> c(maxNum, maxSize, single);
  std::map<string, V> pinned;
  std::deque<std::pair<string, V>> lru;  // front: least recently used
  auto total = [](const auto& x) {
    size_t s = 0;
    for (const auto& e : x) s += e.second.size();
    return s;
  };
  auto shrink = [&]() {
    while (!lru.empty() && (lru.size() + pinned.size() > maxNum ||
                            total(lru) + total(pinned) > maxSize)) {
      lru.pop_front();
      ev["evicted"]++;
    }
  };
  auto find = [&](const string& k) {
    return std::find_if(lru.begin(), lru.end(),
                        [&](const auto& e) { return e.first == k; });
  };
  for (step = 0; step < steps; ++step) {
    string k = "k" + std::to_string(r(20));
    bool has = pinned.count(k) || find(k) != lru.end();
    WANT(c.contains(k) == has, "contains " << k);
    int op = r(20);
    if (op < 8) {
      V v(r(r.p(90) ? single + 1 : 40), (int)step);
      bool pin = r.p(15);
      bool thrown = false;
      try {
        if (pin) {
          c.insertPinned(k, v);
        } else {
          c.insert(k, v);
        }
      } catch (const std::exception&) {
        thrown = true;
      }
      bool big = v.size() > single;
      WANT(thrown == (has || (pin && big)), "insert of " << k << " throws");
      if (!has && !big) {
        if (pin) {
          pinned[k] = v;
        } else {
          lru.emplace_back(k, v);
        }
        shrink();
      }
    } else if (op < 16) {
      auto p = c[k];
      WANT((p != nullptr) == has, "lookup of " << k);
      if (p) {
        auto it = find(k);
        const V& want = it == lru.end() ? pinned[k] : it->second;
        WANT(*p == want, "value of " << k);
        if (it != lru.end()) {
          auto e = *it;
          lru.erase(it);
          lru.push_back(e);
        }
        ev["hits"]++;
      }
    } else if (op < 18) {
      bool b = c.containsAndMakePinnedIfExists(k);
      WANT(b == has, "pin of " << k);
      auto it = find(k);
      if (it != lru.end()) {
        pinned.insert(*it);
        lru.erase(it);
        ev["pinned"]++;
      }
    } else if (op == 18) {
      if (r.p(20)) {
        maxNum = 1 + r(12);
        c.setMaxNumEntries(maxNum);
        shrink();
      }
    } else if (r.p(30)) {
      if (r.p(50)) {
        c.clearAll();
        pinned.clear();
      } else {
        c.clearUnpinnedOnly();
      }
      lru.clear();
    }
    WANT(c.numPinnedEntries() == pinned.size(), "number of pinned entries");
    WANT(c.numNonPinnedEntries() == lru.size(),
         "number of entries " << c.numNonPinnedEntries() << " instead of "
                              << lru.size());
    WANT((size_t)c.pinnedSize() == total(pinned), "pinned size");
    WANT((size_t)c.nonPinnedSize() == total(lru), "size");
    ev["steps"]++;
  }
}

int main(int, char** argv) {
  std::ofstream out(argv[1]);
  string kind;
  uint64_t seed;
  size_t steps;
  size_t job = 0;
  while (std::cin >> kind >> seed >> steps) {
    Rng r(seed);
    Events ev;
    string name = "job" + std::to_string(job++);
    try {
      if (kind == "mmap") {
        int k = r(3);
        if (k == 0) mmapVector<uint64_t>(r, steps, name, ev);
        if (k == 1) mmapVector<uint8_t>(r, steps, name, ev);
        if (k == 2) mmapVector<Pair>(r, steps, name, ev);
      } else if (kind == "buffered") {
        buffered(r, steps, name, ev);
      } else if (kind == "simple8b") {
        int k = r(3);
        if (k == 0) simple8b<uint64_t>(r, steps, ev);
        if (k == 1) simple8b<uint32_t>(r, steps, ev);
        if (k == 2) simple8b<uint8_t>(r, steps, ev);
      } else if (kind == "table") {
        int k = r(5);
        if (k == 0) idTable<0>(r, steps, ev);
        if (k == 1) idTable<1>(r, steps, ev);
        if (k == 2) idTable<2>(r, steps, ev);
        if (k == 3) idTable<3>(r, steps, ev);
        if (k == 4) idTable<5>(r, steps, ev);
      } else if (kind == "strings") {
        strings(r, steps, name, ev);
      } else if (kind == "prefixes") {
        prefixes(r, steps, ev);
      } else if (kind == "treequeue") {
        queue<ad_utility::TreeBasedPQ<int, int>>(r, steps, ev);
      } else if (kind == "heapqueue") {
        queue<ad_utility::HeapBasedPQ<int, int>>(r, steps, ev);
      } else if (kind == "cache") {
        cache(r, steps, ev);
      }
      out << "ok";
      for (const auto& [k, v] : ev) out << "\t" << k << "=" << v;
      out << std::endl;
    } catch (const std::exception& e) {
      string s = e.what();
      std::replace(s.begin(), s.end(), '\n', ' ');
      out << "bad\t" << s << std::endl;
    }
  }
}
