// Executes queries with limited memory and time.
//
// Jobs on stdin, one per line, fields separated by tabs:
//   load BASE TEXT(0|1)
//   dump QUERY                      answers with all rows as a JSON string
//   run LIMIT MICROS CLEAR QUERY    LIMIT bytes (-1: plenty), MICROS of time
//                                   (-1: unlimited), CLEAR=1: clears the cache
//                                   before and after
//   prompt FRACTION QUERY           microseconds of an execution, and of one
//                                   with a time limit of FRACTION of them
// Writes one line per job to the file given as argument.
#include <algorithm>
#include <chrono>
#include <clocale>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>

#include "engine/Engine.h"
#include "engine/QueryExecutionContext.h"
#include "engine/QueryPlanner.h"
#include "engine/SortPerformanceEstimator.h"
#include "index/Index.h"
#include "parser/SparqlParser.h"
#include "util/AllocatorWithLimit.h"

static Engine engine;
static std::unique_ptr<Index> index_;
static ConcurrentLruCache cache(1000);
static PinnedSizes pinnedSizes;
static SortPerformanceEstimator estimator;
static const size_t PLENTY = size_t(1) << 32;

struct Result {
  std::string status;   // ok, or the message of the exception
  std::vector<std::string> rows;
  size_t lost = 0;      // bytes that were not given back
  size_t used = 0;      // bytes in use while the result existed
  size_t needed = 0;    // bytes the result has
};

static void forget() {
  cache.clearAll();
  pinnedSizes.wlock()->clear();
}

static Result execute(const std::string& query, size_t limit, long micros,
                      bool clear) {
  Result r;
  if (clear) forget();
  // All executions share one pool, as on a server; what exceeds the limit is
  // set aside.
  static auto left = ad_utility::makeAllocationMemoryLeftThreadsafeObject(PLENTY);
  ad_utility::AllocatorWithLimit<Id> allocator{left};
  const size_t before = allocator.numFreeBytes();
  const size_t aside = before > limit ? before - limit : 0;
  left.ptr()->wlock()->decrease_if_enough_left(aside);
  {
    try {
      SparqlParser sp(query);
      ParsedQuery pq = sp.parse();
      pq.expandPrefixes();
      QueryExecutionContext qec(*index_, engine, &cache, &pinnedSizes,
                                allocator, estimator);
      auto timer = std::make_shared<ad_utility::ConcurrentTimeoutTimer>(
          micros < 0 ? ad_utility::TimeoutTimer::unlimited()
                     : ad_utility::TimeoutTimer::fromMicroseconds(micros));
      timer->wlock()->start();
      QueryPlanner qp(&qec);
      auto qet = qp.createExecutionTree(pq);
      qet.isRoot() = true;
      qet.recursivelySetTimeoutTimer(timer);
      std::ostringstream os;
      qet.writeResultToStream(os, pq._selectedVariables, 1000000, 0, '\t');
      {
        auto res = qet.getResult();
        r.used = before - aside - allocator.numFreeBytes();
        r.needed = res->_data.size() * res->_data.cols() * sizeof(Id);
      }
      std::istringstream in(os.str());
      std::string l;
      while (std::getline(in, l)) r.rows.push_back(l);
      std::sort(r.rows.begin(), r.rows.end());
      r.status = "ok";
    } catch (const std::exception& e) {
      r.status = e.what();
      for (char& c : r.status) {
        if (c == '\n' || c == '\t') c = ' ';
      }
    }
  }
  left.ptr()->wlock()->increase(aside);
  if (clear) {
    forget();
    r.lost = before - allocator.numFreeBytes();
  }
  return r;
}

// Microseconds until the result was there or the time limit was noticed.
static std::pair<long, bool> duration(const std::string& query, long micros) {
  forget();
  SparqlParser sp(query);
  ParsedQuery pq = sp.parse();
  pq.expandPrefixes();
  ad_utility::AllocatorWithLimit<Id> allocator{
      ad_utility::makeAllocationMemoryLeftThreadsafeObject(PLENTY)};
  QueryExecutionContext qec(*index_, engine, &cache, &pinnedSizes, allocator,
                            estimator);
  QueryPlanner qp(&qec);
  auto qet = qp.createExecutionTree(pq);
  auto timer = std::make_shared<ad_utility::ConcurrentTimeoutTimer>(
      micros < 0 ? ad_utility::TimeoutTimer::unlimited()
                 : ad_utility::TimeoutTimer::fromMicroseconds(micros));
  qet.recursivelySetTimeoutTimer(timer);
  timer->wlock()->start();
  auto t0 = std::chrono::steady_clock::now();
  bool done = true;
  try {
    qet.getResult();
  } catch (const std::exception&) {
    done = false;
  }
  auto t1 = std::chrono::steady_clock::now();
  return {std::chrono::duration_cast<std::chrono::microseconds>(t1 - t0)
              .count(),
          done};
}

static std::string digest(const Result& r) {
  size_t h = r.rows.size();
  for (const auto& s : r.rows) h = h * 1099511628211ull + std::hash<std::string>()(s);
  return std::to_string(r.rows.size()) + "/" + std::to_string(h);
}

static std::vector<std::string> fields(const std::string& s, size_t n) {
  std::vector<std::string> out;
  size_t pos = 0;
  while (out.size() + 1 < n) {
    size_t t = s.find('\t', pos);
    if (t == std::string::npos) break;
    out.push_back(s.substr(pos, t - pos));
    pos = t + 1;
  }
  out.push_back(s.substr(pos));
  return out;
}

int main(int, char** argv) {
  std::setlocale(LC_CTYPE, "");
  std::ofstream results(argv[1]);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::string kind = line.substr(0, line.find('\t'));
    if (kind == "load") {
      auto f = fields(line, 3);
      forget();
      index_ = std::make_unique<Index>();
      index_->setUsePatterns(true);
      index_->createFromOnDiskIndex(f[1]);
      if (f[2] == "1") index_->addTextFromOnDiskIndex();
      results << "loaded" << std::endl;
    } else if (kind == "dump") {
      auto f = fields(line, 2);
      Result r = execute(f[1], PLENTY, -1, true);
      nlohmann::json j = r.rows;
      results << (r.status == "ok" ? "ok" : "error: " + r.status) << "\t"
              << digest(r) << "\t" << j.dump() << std::endl;
    } else if (kind == "prompt") {
      auto f = fields(line, 3);
      auto full = duration(f[2], -1);
      auto part = duration(f[2], long(full.first * std::stod(f[1])));
      results << full.first << "\t" << full.second << "\t" << part.first
              << "\t" << part.second << std::endl;
    } else if (kind == "run") {
      auto f = fields(line, 5);
      long limit = std::stol(f[1]), micros = std::stol(f[2]);
      Result r = execute(f[4], limit < 0 ? PLENTY : size_t(limit), micros,
                         f[3] == "1");
      results << (r.status == "ok" ? "ok" : "error: " + r.status) << "\t"
              << digest(r) << "\t" << r.lost << "\t" << r.used << "\t"
              << r.needed << std::endl;
    }
  }
  return 0;
}
