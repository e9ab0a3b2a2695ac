// Runs the building blocks that are shared between threads from many threads
// and checks the history of what they returned.
//
// Reads jobs "KIND SEED STEPS" from stdin and writes a line "ok EVENTS..." or
// "bad MESSAGE" per job to the file given as argument.
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "parser/ParallelBuffer.h"
#include "util/AllocatorWithLimit.h"
#include "util/BatchedPipeline.h"
#include "util/Cache.h"
#include "util/ConcurrentCache.h"
#include "util/Log.h"
#include "util/Random.h"
#include "util/Synchronized.h"

using std::string;
using std::vector;

struct Bad : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Wanted : std::runtime_error {
  using std::runtime_error::runtime_error;
};

#define WANT(cond, what)             \
  do {                               \
    if (!(cond)) {                   \
      std::ostringstream o;          \
      o << what;                     \
      throw Bad(o.str());            \
    }                                \
  } while (0)

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  uint64_t operator()(uint64_t n) { return n ? g() % n : 0; }
  uint64_t bits() { return g(); }
  bool p(int percent) { return (int)(g() % 100) < percent; }
};

using Events = std::map<string, size_t>;

void pause(Rng& r) {
  switch (r(4)) {
    case 0:
      break;
    case 1:
      std::this_thread::yield();
      break;
    default:
      std::this_thread::sleep_for(std::chrono::microseconds(r(400)));
  }
}

// Runs f(i) in n threads and passes on the first failed check.
template <class F>
void threads(size_t n, F f) {
  vector<std::thread> ts;
  vector<string> errors(n);
  for (size_t i = 0; i < n; ++i) {
    ts.emplace_back([&, i]() {
      try {
        f(i);
      } catch (const std::exception& e) {
        errors[i] = e.what();
        if (errors[i].empty()) errors[i] = "exception";
      }
    });
  }
  for (auto& t : ts) t.join();
  for (const auto& e : errors) {
    if (!e.empty()) throw Bad(e);
  }
}

// ___________________________________________________________________________
using V = vector<int>;
using CC = ad_utility::ConcurrentCache<
    ad_utility::HeapBasedLRUCache<string, V>>;

struct Call {
  size_t key;
  bool pinned;
  uint64_t begin, end;      // of the whole call
  bool computed = false;    // our function was called,
  bool thrown = false;      // and it threw
  uint64_t done = 0;        // when our function was left
  enum { VALUE, OWN, OTHER, SIZE } outcome;
  bool wasCached = false;
};

void concurrentCache(Rng& r, size_t steps, Events& ev) {
  size_t numKeys = 1 + r(4), numThreads = 2 + r(5);
  bool roomy = r.p(50), clears = r.p(40), clearsAll = clears && r.p(40);
  int failures = r.p(50) ? 0 : 5 + r(50);
  size_t maxNum = roomy ? 1000 : 1 + r(3);
  size_t maxSize = roomy ? 1u << 20 : 8 + r(10);
  size_t single = roomy ? 1u << 20 : 8;
  int pins = r.p(50) ? 15 : 1 + r(60);
  CC c(maxNum, maxSize, single);
  vector<string> names;
  vector<V> values;
  for (size_t k = 0; k < numKeys; ++k) {
    // Some names are too long to be stored in place.
    names.push_back(string(r.p(50) ? 1 : 40, 'a' + k));
    values.push_back(V(1 + r(roomy ? 20 : 5), 100 + k));
    if (!roomy && r.p(15)) values.back().resize(12, 7);  // too large
  }
  std::atomic<uint64_t> clock{1};
  vector<std::atomic<int>> inProgress(numKeys);
  vector<vector<Call>> history(numThreads);
  vector<uint64_t> seeds;
  for (size_t i = 0; i < numThreads; ++i) seeds.push_back(r.bits());
  std::atomic<size_t> numClears{0};

  threads(numThreads, [&](size_t id) {
    Rng q(seeds[id]);
    for (size_t step = 0; step < steps; ++step) {
      if (clears && q.p(10)) {
        if (clearsAll && q.p(50)) {
          c.clearAll();
        } else {
          c.clearUnpinnedOnly();
        }
        numClears++;
        continue;
      }
      if (q.p(5)) {
        WANT(c.pinnedSize() + c.nonPinnedSize() <= maxSize ||
                 c.numNonPinnedEntries() <= maxNum,
             "limits");
        c.numPinnedEntries();
        c.cacheContains(names[q(numKeys)]);
        continue;
      }
      Call call;
      call.key = q(numKeys);
      call.pinned = q.p(pins);
      bool fail = q.p(failures);
      auto compute = [&]() -> V {
        call.computed = true;
        WANT(++inProgress[call.key] == 1, "computed twice at the same time");
        pause(q);
        inProgress[call.key]--;
        call.done = clock++;
        if (fail) {
          call.thrown = true;
          throw Wanted("");
        }
        return values[call.key];
      };
      call.begin = clock++;
      try {
        auto res = call.pinned ? c.computeOncePinned(names[call.key], compute)
                               : c.computeOnce(names[call.key], compute);
        call.outcome = Call::VALUE;
        call.wasCached = res._wasCached;
        WANT(res._resultPointer, "null result");
        WANT(*res._resultPointer == values[call.key], "result of another key");
      } catch (const Wanted&) {
        call.outcome = Call::OWN;
      } catch (
          const ad_utility::WaitedForResultWhichThenFailedException&) {
        call.outcome = Call::OTHER;
      } catch (const Bad&) {
        throw;
      } catch (const std::exception& e) {
        // A pinned result does not fit.
        WANT(!roomy && call.computed && !call.thrown, "failed: " << e.what());
        call.outcome = Call::SIZE;
      }
      call.end = clock++;
      history[id].push_back(call);
    }
  });

  vector<Call> all;
  for (auto& h : history) all.insert(all.end(), h.begin(), h.end());
  ev["calls"] += all.size();
  ev["clears"] += numClears;
  vector<size_t> good(numKeys), pinned(numKeys);
  for (size_t i = 0; i < all.size(); ++i) {
    const Call& a = all[i];
    auto another = [&](auto f) {
      for (size_t j = 0; j < all.size(); ++j) {
        if (j != i && all[j].key == a.key && f(all[j])) return true;
      }
      return false;
    };
    auto overlaps = [&](const Call& b) {
      return b.begin < a.end && a.begin < b.end;
    };
    WANT((a.outcome == Call::OWN) == a.thrown, "lost a failure");
    if (a.outcome == Call::OTHER) {
      WANT(!a.computed, "computed, but waited");
      WANT(another([&](const Call& b) {
             return overlaps(b) &&
                    (b.outcome == Call::OWN || b.outcome == Call::SIZE);
           }),
           "waited for a failure that nobody had");
      ev["waited_failed"]++;
    }
    if (a.outcome == Call::VALUE) {
      if (a.wasCached) {
        WANT(!a.computed, "cached, but computed");
        WANT(another([&](const Call& b) {
               return b.computed && !b.thrown && b.done < a.end;
             }),
             "cached, but never computed");
        ev["cached"]++;
      } else if (!a.computed) {
        WANT(another([&](const Call& b) {
               return b.computed && !b.thrown && overlaps(b);
             }),
             "waited for a computation that nobody made");
        ev["waited"]++;
      }
      if (a.computed) good[a.key]++;
      if (a.pinned) pinned[a.key]++;
    }
    if (a.computed) ev["computed"]++;
    if (a.outcome == Call::OWN) ev["failed"]++;
    if (a.outcome == Call::SIZE) ev["did_not_fit"]++;
  }
  for (size_t k = 0; k < numKeys; ++k) {
    if (roomy && !clears) {
      WANT(good[k] <= 1, "computed " << good[k] << " times");
      if (good[k]) WANT(c.cacheContains(names[k]), "result not kept");
    }
    if (pinned[k] && !clearsAll && roomy) {
      WANT(c.cacheContains(names[k]), "pinned result not kept");
    }
    // Nothing is stuck afterwards.
    auto res = c.computeOnce(names[k], [&]() { return values[k]; });
    WANT(*res._resultPointer == values[k], "result of another key");
  }
  if (roomy && !clearsAll) {
    c.clearUnpinnedOnly();
    for (size_t k = 0; k < numKeys; ++k) {
      WANT(c.cacheContains(names[k]) == (pinned[k] > 0),
           "pinned " << pinned[k] << " times, but in the cache: "
                     << c.cacheContains(names[k]));
      if (pinned[k]) ev["pinned"]++;
    }
  }
}

// ___________________________________________________________________________
struct Item {
  size_t number;
  vector<int> path;                   // what was applied, in order
  std::unique_ptr<int> onlyMovable = std::make_unique<int>(1);
};

void pipeline(Rng& r, bool failures, Events& ev) {
  size_t n = r.p(20) ? r(4) : r(200);
  size_t batch = 1 + (r.p(50) ? r(8) : r(70));
  size_t stopAt = r.p(25) ? r(n + 1) : n + 1;
  size_t failAt = failures && r.p(25) ? r(n + 1) : n + 1;
  int failStage = r(3);
  uint64_t delays = r.bits();
  auto wait = [delays](size_t x) {
    uint64_t h = (x + 1) * 0x9e3779b97f4a7c15ull ^ delays;
    h ^= h >> 29;
    if (h % 16 == 0) {
      std::this_thread::sleep_for(std::chrono::microseconds(h / 16 % 300));
    }
  };
  std::atomic<int> creating{0};
  auto created = std::make_shared<std::atomic<size_t>>(0);
  auto creator = [=, &creating,
                  i = size_t(0)]() mutable -> std::optional<Item> {
    WANT(++creating == 1, "created at the same time");
    wait(i * 7);
    creating--;
    if (i >= n) return std::nullopt;
    if (failStage == 0 && i == failAt) throw Wanted("");
    (*created)++;
    return Item{i++, {}};
  };
  auto stage = [=](int mark, int number) {
    return [=](Item&& x) -> Item {
      wait(x.number * 5 + mark);
      if (failStage == number && x.number == failAt) throw Wanted("");
      x.path.push_back(mark);
      WANT(x.onlyMovable && *x.onlyMovable == 1, "moved away");
      return std::move(x);
    };
  };
  // A stage that may run on different elements in any order within a batch but
  // is never entered twice at the same time.
  auto single = [=](int mark, int number,
                    std::shared_ptr<std::atomic<int>> inside) {
    auto f = stage(mark, number);
    return [=](Item&& x) -> Item {
      WANT(++*inside == 1, "transformer entered twice");
      struct Leave {
        std::atomic<int>& i;
        ~Leave() { i--; }
      } leave{*inside};
      return f(std::move(x));
    };
  };
  auto counter = []() { return std::make_shared<std::atomic<int>>(0); };
  size_t kind = r(4);
  auto run = [&](auto& p) {
    size_t got = 0;
    bool failed = false;
    try {
      while (got < stopAt) {
        auto x = p.getNextValue();
        if (!x) break;
        WANT(x->number == got, "element " << x->number << " instead of " << got);
        WANT(x->path.size() == 2, "applied " << x->path.size());
        WANT(x->onlyMovable && *x->onlyMovable == 1, "moved away");
        if (kind < 2) WANT(x->path[0] == 1 && x->path[1] == 2, "wrong stages");
        if (kind >= 2) {
          WANT(x->path[0] / 10 == 1 && x->path[1] / 10 == 2, "wrong stages");
        }
        if (kind == 3) {
          WANT(x->path[0] % 10 == x->path[1] % 10, "another transformer");
        }
        got++;
      }
    } catch (const Wanted&) {
      failed = true;
    }
    WANT(!failed || failAt < n, "failed");
    if (failAt >= n && stopAt > n) {
      WANT(got == n, "delivered " << got << " of " << n);
      WANT(!p.getNextValue(), "more after the end");
      ev["complete"]++;
    }
    WANT(got <= n, "too many");
    if (failAt < n) {
      WANT(got <= failAt, "delivered the element that failed");
      if (stopAt > n) WANT(failed, "lost a failure");
      ev["failures"]++;
    }
    ev["delivered"] += got;
    ev["pipelines"]++;
  };
  using namespace ad_pipeline;
  if (kind == 0) {
    auto p = setupPipeline(batch, creator, single(1, 1, counter()),
                           single(2, 2, counter()));
    run(p);
  } else if (kind == 1) {
    auto p = setupParallelPipeline<3, 2>(batch, creator, stage(1, 1),
                                         stage(2, 2));
    if (r.p(50)) {
      auto q = std::move(p);
      run(q);
    } else {
      run(p);
    }
  } else if (kind == 2) {
    auto p = setupParallelPipeline<2, 1>(
        batch, creator,
        std::tuple(single(10, 1, counter()), single(11, 1, counter())),
        single(20, 2, counter()));
    run(p);
  } else {
    auto p = setupParallelPipeline<3, 3>(
        batch, creator,
        std::tuple(single(10, 1, counter()), single(11, 1, counter()),
                   single(12, 1, counter())),
        std::tuple(single(20, 2, counter()), single(21, 2, counter()),
                   single(22, 2, counter())));
    run(p);
  }
}

// ___________________________________________________________________________
template <class M, bool shared>
void synchronized(Rng& r, size_t steps, Events& ev) {
  struct Data {
    size_t a = 0, b = 0;
    vector<size_t> log;
  };
  ad_utility::Synchronized<Data, M> s;
  size_t numThreads = 2 + r(6);
  vector<uint64_t> seeds;
  for (size_t i = 0; i < numThreads; ++i) seeds.push_back(r.bits());
  vector<size_t> writes(numThreads);
  threads(numThreads, [&](size_t id) {
    Rng q(seeds[id]);
    for (size_t step = 0; step < steps; ++step) {
      if (q.p(40)) {
        auto l = s.wlock();
        l->a++;
        if (q.p(10)) std::this_thread::yield();
        l->log.push_back(id);
        l->b++;
        writes[id]++;
      } else if (q.p(50)) {
        size_t x = s.withWriteLock([&](Data& d) {
          d.a++;
          d.log.push_back(id);
          d.b++;
          return d.a - d.b;
        });
        writes[id]++;
        WANT(x == 0, "half of a write");
      } else {
        if constexpr (shared) {
          if (q.p(50)) {
            auto l = s.rlock();
            WANT(l->a == l->b && l->log.size() == l->a, "half of a write");
          } else {
            bool ok = s.withReadLock([](const Data& d) {
              return d.a == d.b && d.log.size() == d.a;
            });
            WANT(ok, "half of a write");
          }
        } else {
          const auto& cs = s;
          auto l = cs.wlock();
          WANT(l->a == l->b && l->log.size() == l->a, "half of a write");
        }
      }
    }
  });
  size_t total = 0;
  auto l = s.wlock();
  for (size_t i = 0; i < numThreads; ++i) {
    WANT((size_t)std::count(l->log.begin(), l->log.end(), i) == writes[i],
         "lost a write");
    total += writes[i];
  }
  WANT(l->a == total && l->b == total, "lost a write");
  ev["writes"] += total;
}

// ___________________________________________________________________________
void allocator(Rng& r, size_t steps, Events& ev) {
  size_t limit = 1000 + r(100000);
  size_t numThreads = 1 + r(6);
  auto left = ad_utility::makeAllocationMemoryLeftThreadsafeObject(limit);
  std::atomic<int64_t> held{0}, asked{0};
  std::atomic<size_t> refused{0}, given{0};
  vector<uint64_t> seeds;
  for (size_t i = 0; i < numThreads; ++i) seeds.push_back(r.bits());
  threads(numThreads, [&](size_t id) {
    Rng q(seeds[id]);
    // (Two types of allocators cannot be used in one translation unit.)
    ad_utility::AllocatorWithLimit<uint64_t> a8(left);
    vector<std::pair<uint64_t*, size_t>> p8;
    auto step = [&](auto& a, auto& ps, size_t width) {
      if (q.p(60)) {
        size_t n = 1 + q(q.p(10) ? limit : limit / 20 / width + 1);
        asked += n * width;
        try {
          auto* p = a.allocate(n);
          std::memset(p, 1, n * width);
          WANT((held += n * width) <= (int64_t)limit, "more than the limit");
          ps.emplace_back(p, n);
          given++;
        } catch (
            const ad_utility::detail::AllocationExceedsLimitException&) {
          if (numThreads == 1) {
            WANT(held + n * width > limit, "refused " << n * width << " at "
                                                      << held << " of "
                                                      << limit);
          }
          asked -= n * width;
          refused++;
        }
      } else if (!ps.empty()) {
        size_t i = q(ps.size());
        held -= ps[i].second * width;
        a.deallocate(ps[i].first, ps[i].second);
        ps.erase(ps.begin() + i);
      }
      WANT(a.numFreeBytes() <= limit, "more free than the limit");
      if (numThreads == 1) {
        WANT(a.numFreeBytes() == limit - held, "wrong number of free bytes");
      }
    };
    for (size_t i = 0; i < steps; ++i) {
      step(a8, p8, 8);
    }
    for (auto& [p, n] : p8) {
      held -= n * 8;
      a8.deallocate(p, n);
    }
  });
  ad_utility::AllocatorWithLimit<uint64_t> a(left);
  WANT(a.numFreeBytes() == limit, "free bytes at the end: "
                                      << a.numFreeBytes() << " of " << limit);
  // Containers share the limit, also after they were moved and copied.
  {
    using Vec = vector<uint64_t, ad_utility::AllocatorWithLimit<uint64_t>>;
    Vec v{ad_utility::AllocatorWithLimit<uint64_t>(left)};
    v.resize(20);
    Vec w = v;
    Vec x = std::move(v);
    w.swap(x);
    x = w;
    WANT(a.numFreeBytes() <= limit - 320, "copies are not counted");
  }
  WANT(a.numFreeBytes() == limit, "containers keep memory");
  ev["refused"] += refused;
  ev["given"] += given;
}

// ___________________________________________________________________________
void fileBuffer(Rng& r, size_t, Events& ev, const string& name) {
  string file = name + ".txt";
  size_t block = 1 + (r.p(50) ? r(16) : r(5000));
  size_t n = r.p(10) ? 0 : r.p(30) ? block * r(6) : r(20000);
  n = std::min(n, block * 60);
  string text;
  for (size_t i = 0; i < n; ++i) text += char(r.bits());
  std::ofstream(file, std::ios::binary) << text;
  ParallelFileBuffer b(block);
  b.open(file);
  string got;
  size_t blocks = 0;
  while (true) {
    auto x = b.getNextBlock();
    // The end of the file is an empty block or no block.
    if (!x || x->empty()) break;
    WANT(x->size() <= block, "too large a block");
    got.append(x->data(), x->size());
    WANT(got.size() <= n, "more than the file");
    blocks++;
    if (r.p(5)) pause(r);
  }
  WANT(got == text, "read " << got.size() << " of " << n << " bytes, equal: "
                            << (got == text.substr(0, got.size())));
  std::remove(file.c_str());
  ev["blocks"] += blocks;
  ev["files"]++;
}

// ___________________________________________________________________________
void randomNumbers(Rng& r, size_t steps, Events& ev) {
  // Independent generators do not produce the same numbers, and stay in range.
  size_t numThreads = 2 + r(4);
  vector<vector<uint64_t>> got(numThreads);
  threads(numThreads, [&](size_t id) {
    FastRandomIntGenerator<uint64_t> f;
    SlowRandomIntGenerator<int> s(-5, 12);
    for (size_t i = 0; i < steps; ++i) {
      got[id].push_back(f());
      int x = s();
      WANT(x >= -5 && x <= 12, "out of range: " << x);
    }
  });
  std::set<uint64_t> all;
  for (auto& g : got) all.insert(g.begin(), g.end());
  // 64-bit numbers do not collide in so few draws.
  WANT(all.size() + 2 >= numThreads * steps, "repeated numbers");
  ev["numbers"] += all.size();
}

int main(int, char** argv) {
  std::ofstream out(argv[1]);
  string kind;
  uint64_t seed;
  size_t steps;
  size_t job = 0;
  while (std::cin >> kind >> seed >> steps) {
    Rng r(seed);
    Events ev;
    string name = "job" + std::to_string(job++);
    try {
      if (kind == "ccache") {
        // One long history or many short ones.
        size_t rounds = r.p(70) ? 1 : 25;
        for (size_t i = 0; i < rounds; ++i) {
          concurrentCache(r, rounds == 1 ? steps : 1 + r(2), ev);
        }
      } else if (kind == "pipeline") {
        pipeline(r, steps, ev);
      } else if (kind == "sync") {
        int k = r(3);
        if (k == 0) synchronized<std::mutex, false>(r, steps, ev);
        if (k == 1) synchronized<std::shared_mutex, true>(r, steps, ev);
        if (k == 2) synchronized<ad_utility::SpinLock, false>(r, steps, ev);
      } else if (kind == "alloc") {
        allocator(r, steps, ev);
      } else if (kind == "filebuf") {
        fileBuffer(r, steps, ev, name);
      } else if (kind == "random") {
        randomNumbers(r, steps, ev);
      }
      out << "ok";
      for (const auto& [k, v] : ev) out << "\t" << k << "=" << v;
      out << std::endl;
    } catch (const std::exception& e) {
      string s = e.what();
      std::replace(s.begin(), s.end(), '\n', ' ');
      out << "bad\t" << s << std::endl;
    }
  }
}
