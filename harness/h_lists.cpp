// Runs the algorithms for patterns of predicates and for lists of words on
// random inputs, next to simple models.
//
// Reads jobs "KIND SEED STEPS" from stdin and writes a line "ok EVENTS..." or
// "bad MESSAGE" per job to the file given as argument.
#include <algorithm>
#include <array>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "engine/CallFixedSize.h"
#include "engine/CountAvailablePredicates.h"
#include "engine/HasPredicateScan.h"
#include "engine/IdTable.h"
#include "engine/ResultTable.h"
#include "global/Pattern.h"
#include "index/FTSAlgorithms.h"

using std::array;
using std::string;
using std::vector;
using Row = vector<Id>;
using Rows = vector<Row>;

struct Bad : std::runtime_error {
  using std::runtime_error::runtime_error;
};

#define WANT(cond, what)             \
  do {                               \
    if (!(cond)) {                   \
      std::ostringstream o;          \
      o << what;                     \
      throw Bad(o.str());            \
    }                                \
  } while (0)

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  uint64_t operator()(uint64_t n) { return n ? g() % n : 0; }
  bool p(int percent) { return (int)(g() % 100) < percent; }
};

using Events = std::map<string, size_t>;

ad_utility::AllocatorWithLimit<Id>& alloc() {
  static ad_utility::AllocatorWithLimit<Id> a{
      ad_utility::makeAllocationMemoryLeftThreadsafeObject(1ull << 32)};
  return a;
}

IdTable table(const Rows& rows, size_t cols) {
  IdTable t(cols, alloc());
  for (const Row& r : rows) {
    t.push_back();
    for (size_t c = 0; c < cols; ++c) t(t.size() - 1, c) = r[c];
  }
  return t;
}

Rows rows(const IdTable& t) {
  Rows res;
  for (size_t i = 0; i < t.size(); ++i) {
    Row r;
    for (size_t c = 0; c < t.cols(); ++c) r.push_back(t(i, c));
    res.push_back(r);
  }
  return res;
}

void same(Rows a, Rows b, const string& what) {
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  WANT(a == b, what << " " << a.size() << " rows instead of " << b.size()
                    << " or different ones");
}

// ___________________________________________________________________________
// Entities have a pattern, a list of predicates, or nothing.
void hasPredicate(Rng& r, Events& ev) {
  size_t entities = r.p(10) ? r(400) : r(20), predicates = 1 + r(8);
  auto someList = [&] {
    vector<Id> res;
    for (size_t p = 0; p < predicates; ++p) {
      if (r.p(40)) res.push_back(p * 3 + 1);
    }
    return res;
  };
  vector<vector<Id>> patternsSrc, listsSrc;
  size_t numPatterns = r(6);
  for (size_t i = 0; i < numPatterns; ++i) patternsSrc.push_back(someList());
  vector<PatternID> hasPattern;
  vector<vector<Id>> model(entities);
  size_t lastPattern = 0, lastList = 0;
  vector<PatternID> pats(entities, NO_PATTERN);
  vector<vector<Id>> lists(entities);
  for (size_t e = 0; e < entities; ++e) {
    if (numPatterns && r.p(50)) {
      pats[e] = r(numPatterns);
      model[e] = patternsSrc[pats[e]];
      lastPattern = e + 1;
    } else if (r.p(60)) {
      lists[e] = model[e] = someList();
      lastList = e + 1;
    }
  }
  hasPattern.assign(pats.begin(), pats.begin() + lastPattern);
  listsSrc.assign(lists.begin(), lists.begin() + lastList);
  CompactStringVector<Id, Id> hasPred(listsSrc);
  CompactStringVector<size_t, Id> patterns(patternsSrc);
  Rows all;
  for (Id e = 0; e < entities; ++e) {
    for (Id p : model[e]) all.push_back({e, p});
  }
  {
    ResultTable res{alloc()};
    res._data.setCols(2);
    HasPredicateScan::computeFullScan(&res, hasPattern, hasPred, patterns,
                                      all.size());
    same(rows(res._data), all, "has-predicate, all pairs:");
  }
  {
    ResultTable res{alloc()};
    res._data.setCols(1);
    Id p = r(predicates + 1) * 3 + 1;
    HasPredicateScan::computeFreeS(&res, p, hasPattern, hasPred, patterns);
    Rows want;
    for (const Row& x : all) {
      if (x[1] == p) want.push_back({x[0]});
    }
    same(rows(res._data), want, "has-predicate, entities:");
  }
  {
    ResultTable res{alloc()};
    res._data.setCols(1);
    Id e = r(entities + 2);
    HasPredicateScan::computeFreeO(&res, e, hasPattern, hasPred, patterns);
    Rows want;
    for (const Row& x : all) {
      if (x[0] == e) want.push_back({x[1]});
    }
    same(rows(res._data), want, "has-predicate, predicates:");
  }
  // A table of entities, sorted by one of its columns.
  int cols = 1 + r(6);
  size_t col = r(cols);
  Rows in;
  for (size_t n = r(30); n > 0; --n) {
    Row x;
    for (int c = 0; c < cols; ++c) x.push_back(r(entities + 3));
    if (r.p(10)) x[col] = ID_NO_VALUE;
    in.push_back(x);
  }
  std::sort(in.begin(), in.end(), [&](const Row& a, const Row& b) {
    return a[col] != b[col] ? a[col] < b[col] : a < b;
  });
  IdTable t = table(in, cols);
  {
    IdTable res(cols + 1, alloc());
    int out = cols + 1;
    CALL_FIXED_SIZE_2(cols, out, HasPredicateScan::computeSubqueryS, &res, t,
                      col, hasPattern, hasPred, patterns);
    Rows want;
    for (const Row& x : in) {
      if (x[col] >= entities) continue;
      for (Id p : model[x[col]]) {
        want.push_back(x);
        want.back().push_back(p);
      }
    }
    same(rows(res), want, "has-predicate of a table:");
  }
  {
    IdTable res(2, alloc());
    RuntimeInformation info;
    CALL_FIXED_SIZE_1(cols, CountAvailablePredicates::computePatternTrick, t,
                      &res, hasPattern, hasPred, patterns, col, &info);
    std::set<Id> seen;
    std::map<Id, Id> counts;
    for (const Row& x : in) {
      if (x[col] >= entities || !seen.insert(x[col]).second) continue;
      for (Id p : model[x[col]]) counts[p]++;
    }
    Rows want;
    for (auto [p, n] : counts) want.push_back({p, n});
    same(rows(res), want, "counts of predicates:");
  }
  {
    IdTable res(2, alloc());
    CountAvailablePredicates::computePatternTrickAllEntities(
        &res, hasPattern, hasPred, patterns);
    std::map<Id, Id> counts;
    for (const Row& x : all) counts[x[1]]++;
    Rows want;
    for (auto [p, n] : counts) want.push_back({p, n});
    same(rows(res), want, "counts of predicates of all entities:");
  }
  ev["pairs"] += all.size();
}

// ___________________________________________________________________________
struct Postings {
  vector<Id> cids, ids;
  vector<Score> scores;
};

Postings postings(Rng& r, size_t maxCid, int density, bool several) {
  Postings p;
  for (Id c = 0; c < maxCid; ++c) {
    if (!r.p(density)) continue;
    std::set<Id> here;
    for (size_t n = several ? 1 + r(3) : 1; n > 0; --n) here.insert(r(12));
    for (Id e : here) {
      p.cids.push_back(c * 2 + 1);
      p.ids.push_back(e);
      p.scores.push_back(1 + r(5));
    }
  }
  return p;
}

Rows zip(const vector<Id>& a, const vector<Score>& s,
         const vector<Id>* e = nullptr) {
  WANT(a.size() == s.size() && (!e || e->size() == a.size()),
       "lists of different lengths");
  Rows res;
  for (size_t i = 0; i < a.size(); ++i) {
    res.push_back({a[i], static_cast<Id>(s[i])});
    if (e) res.back().push_back((*e)[i]);
  }
  return res;
}

void postings(Rng& r, Events& ev) {
  size_t n = r.p(20) ? 300 : 1 + r(25);
  auto density = [&] { return r.p(15) ? 0 : r.p(15) ? 100 : 5 + r(90); };
  {
    Postings p = postings(r, n, density(), true);
    IdRange range;
    range._first = r(12);
    range._last = range._first + r(6);
    vector<Id> cids;
    vector<Score> scores;
    FTSAlgorithms::filterByRange(range, p.cids, p.ids, p.scores, cids, scores);
    Rows want;
    for (size_t i = 0; i < p.cids.size(); ++i) {
      if (p.ids[i] >= range._first && p.ids[i] <= range._last) {
        want.push_back({p.cids[i], static_cast<Id>(p.scores[i])});
      }
    }
    WANT(zip(cids, scores) == want, "words of a range");
    ev["postings"] += p.cids.size();
  }
  size_t k = 2 + r(4);
  vector<Postings> words;
  for (size_t i = 0; i < k; ++i) {
    words.push_back(postings(r, n, density(), false));
  }
  Postings e = postings(r, n, density(), true);
  auto find = [](const Postings& p, Id c) {
    return std::lower_bound(p.cids.begin(), p.cids.end(), c) - p.cids.begin();
  };
  {
    vector<Id> cids, eids;
    vector<Score> scores;
    FTSAlgorithms::intersect(words[0].cids, e.cids, e.ids, e.scores, cids,
                             eids, scores);
    Rows want;
    for (size_t i = 0; i < e.cids.size(); ++i) {
      size_t at = find(words[0], e.cids[i]);
      if (at < words[0].cids.size() && words[0].cids[at] == e.cids[i]) {
        want.push_back({e.cids[i], static_cast<Id>(e.scores[i]), e.ids[i]});
      }
    }
    WANT(zip(cids, scores, &eids) == want, "entities of matching records");
  }
  {
    vector<Id> cids;
    vector<Score> scores;
    FTSAlgorithms::intersectTwoPostingLists(words[0].cids, words[0].scores,
                                            words[1].cids, words[1].scores,
                                            cids, scores);
    Rows want;
    for (size_t i = 0; i < words[0].cids.size(); ++i) {
      size_t at = find(words[1], words[0].cids[i]);
      if (at < words[1].cids.size() && words[1].cids[at] == words[0].cids[i]) {
        want.push_back({words[0].cids[i],
                        static_cast<Id>(words[0].scores[i] +
                                        words[1].scores[at])});
      }
    }
    WANT(zip(cids, scores) == want, "records with two words");
    ev["two_words"] += want.size();
  }
  for (bool entities : {false, true}) {
    vector<vector<Id>> cidVecs;
    vector<vector<Score>> scoreVecs;
    vector<Postings> in = words;
    if (entities) in.push_back(e);
    for (const auto& w : in) {
      cidVecs.push_back(w.cids);
      scoreVecs.push_back(w.scores);
    }
    vector<Id> eids = e.ids, cids, resEids;
    vector<Score> scores;
    FTSAlgorithms::intersectKWay(cidVecs, scoreVecs,
                                 entities ? &eids : nullptr, cids, resEids,
                                 scores);
    Rows want;
    const Postings& last = in.back();
    for (size_t i = 0; i < last.cids.size(); ++i) {
      Id score = last.scores[i];
      bool everywhere = true;
      for (size_t j = 0; j + 1 < in.size(); ++j) {
        size_t at = find(in[j], last.cids[i]);
        if (at < in[j].cids.size() && in[j].cids[at] == last.cids[i]) {
          score += in[j].scores[at];
        } else {
          everywhere = false;
        }
      }
      if (!everywhere) continue;
      want.push_back({last.cids[i], score});
      if (entities) want.back().push_back(last.ids[i]);
    }
    WANT(zip(cids, scores, entities ? &resEids : nullptr) == want,
         "records with all of " << in.size() << " lists: " << cids.size()
                                << " instead of " << want.size());
    ev["all_words"] += want.size();
  }
}

// ___________________________________________________________________________
void contexts(Rng& r, Events& ev) {
  Postings p = postings(r, r.p(20) ? 60 : r(15), 70, true);
  // The score of a record does not depend on the entity.
  for (size_t i = 1; i < p.cids.size(); ++i) {
    if (p.cids[i] == p.cids[i - 1]) p.scores[i] = p.scores[i - 1];
  }
  size_t k = r.p(30) ? 1 : 1 + r(5);
  int vars = 1 + r(3), width = vars + 2;
  std::map<Row, vector<std::pair<Score, Id>>> model;
  for (size_t b = 0, e = 0; b < p.cids.size(); b = e) {
    for (e = b; e < p.cids.size() && p.cids[e] == p.cids[b];) ++e;
    vector<Row> tuples{{}};
    for (int v = 0; v < vars; ++v) {
      vector<Row> next;
      for (const Row& t : tuples) {
        for (size_t i = b; i < e; ++i) {
          next.push_back(t);
          next.back().push_back(p.ids[i]);
        }
      }
      tuples = next;
    }
    for (const Row& t : tuples) model[t].push_back({p.scores[b], p.cids[b]});
  }
  IdTable res(width, alloc());
  if (vars == 1) {
    FTSAlgorithms::aggScoresAndTakeTopKContexts(p.cids, p.ids, p.scores, k,
                                                &res);
  } else {
    CALL_FIXED_SIZE_1(width,
                      FTSAlgorithms::multVarsAggScoresAndTakeTopKContexts,
                      p.cids, p.ids, p.scores, vars, k, &res);
  }
  std::map<Row, vector<std::pair<Score, Id>>> got;
  for (const Row& x : rows(res)) {
    Row key(x.begin() + 2, x.end());
    auto it = model.find(key);
    WANT(it != model.end(), "entities that are in no record together");
    WANT(x[1] == it->second.size(),
         "score " << x[1] << " instead of " << it->second.size());
    Score s = 0;
    for (auto [score, cid] : it->second) {
      if (cid == x[0]) s = score;
    }
    WANT(s > 0, "a record without these entities");
    got[key].push_back({s, x[0]});
  }
  WANT(got.size() == model.size(), "entities are missing");
  for (auto& [key, all] : model) {
    auto& mine = got[key];
    std::set<std::pair<Score, Id>> unique(mine.begin(), mine.end());
    WANT(unique.size() == mine.size(), "a record twice");
    WANT(mine.size() == std::min(k, all.size()),
         mine.size() << " records, limit " << k << ", of " << all.size());
    // They are best ones.
    std::sort(all.rbegin(), all.rend());
    std::sort(mine.rbegin(), mine.rend());
    for (size_t i = 0; i < mine.size(); ++i) {
      WANT(mine[i].first == all[i].first, "a record with a low score");
    }
    ev["records"] += mine.size();
  }
}

int main(int, char** argv) {
  std::ofstream out(argv[1]);
  string kind;
  uint64_t seed;
  size_t steps;
  while (std::cin >> kind >> seed >> steps) {
    Rng r(seed);
    Events ev;
    try {
      for (size_t i = 0; i < steps; ++i) {
        if (kind == "haspred") {
          hasPredicate(r, ev);
        } else if (kind == "postings") {
          postings(r, ev);
        } else if (kind == "contexts") {
          contexts(r, ev);
        }
      }
      out << "ok";
      for (const auto& [k, v] : ev) out << "\t" << k << "=" << v;
      out << std::endl;
    } catch (const std::exception& e) {
      string s = e.what();
      std::replace(s.begin(), s.end(), '\n', ' ');
      out << "bad\t" << s << std::endl;
    }
  }
}
