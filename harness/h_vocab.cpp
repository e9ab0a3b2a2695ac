// Looks up words in vocabularies with random contents, next to plain lists.
//
// Reads jobs "KIND SEED STEPS" from stdin and writes a line "ok EVENTS..." or
// "bad MESSAGE" per job to the file given as argument. Scratch files are made
// in the current directory.
#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <nlohmann/json.hpp>

#include "index/Vocabulary.h"
#include "parser/RdfEscaping.h"
#include "util/HashSet.h"

using std::string;
using std::vector;

struct Bad : std::runtime_error {
  using std::runtime_error::runtime_error;
};

#define WANT(cond, what)                     \
  do {                                       \
    if (!(cond)) {                           \
      std::ostringstream o;                  \
      o << what << " [step " << step << "]"; \
      throw Bad(o.str());                    \
    }                                        \
  } while (0)

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  uint64_t operator()(uint64_t n) { return n ? g() % n : 0; }
  bool p(int percent) { return (int)(g() % 100) < percent; }
};

using Events = std::map<string, size_t>;

struct Locale {
  const char* lang;
  const char* country;
  bool ignore;
};

Locale locale(Rng& r) {
  static const char* langs[][2] = {{"en", "US"}, {"de", "DE"}, {"fr", "CA"},
                                   {"sv", "SE"}, {"cs", "CZ"}, {"ja", "JP"}};
  const auto& l = langs[r.p(50) ? 0 : r(6)];
  return {l[0], l[1], r.p(50)};
}

// Characters which differ only on the deeper levels of the order, or are
// ignored by it.
const vector<string> LETTERS{"a", "A", "á", "Á", "b",  "B",      "e",
                             "é", "E", "o", "ö", "ss", "ß",      "z",
                             "1", "2", "ä", "c", "ch", "日",     "ﬁ",
                             "я", "ı", "I", "i", "🙂", "́", "fi"};
const vector<string> MARKS{" ", "-", "_", ".", ",", "/", "'", "+", "­",
                           "‍", "@", "#", "\\", "\n", "\""};

string letters(Rng& r, size_t n, int marks) {
  string s;
  while (n--) {
    s += r.p(marks) ? MARKS[r(MARKS.size())] : LETTERS[r(LETTERS.size())];
  }
  return s;
}

string quoted(Rng& r, const string& inner) {
  static const vector<string> tags{"", "", "@en", "@de", "@en-US",
                                   "^^<http://t>"};
  return '"' + inner + '"' + tags[r(tags.size())];
}

string noQuotes(string s) {
  s.erase(std::remove(s.begin(), s.end(), '"'), s.end());
  return s;
}

// Entities, literals and encoded values, many of them close to each other.
vector<string> triplesWords(Rng& r, size_t n) {
  vector<string> base;
  for (size_t i = 0; i < 1 + n / 4; ++i) {
    base.push_back(noQuotes(letters(r, r(6), 20)));
  }
  std::set<string> res;
  while (res.size() < n) {
    string s = base[r(base.size())];
    if (r.p(60)) s += noQuotes(letters(r, 1 + r(3), 20));
    switch (r(4)) {
      case 0:
        res.insert("<http://" + s + ">");
        break;
      case 1:
        res.insert("<" + s + ">");
        break;
      case 2:
        res.insert(quoted(r, s));
        break;
      default:
        res.insert(quoted(r, r.p(50) ? s : s + "x"));
    }
  }
  return {res.begin(), res.end()};
}

int sign(int x) { return x < 0 ? -1 : x > 0; }

// The comparison of words is a total order which refines the coarser ones.
template <class Comparator, class Words>
void order(Rng& r, size_t steps, Events& ev, Words words) {
  auto loc = locale(r);
  Comparator c(loc.lang, loc.country, loc.ignore);
  using Level = LocaleManager::Level;
  size_t step = 0;
  for (; step < steps; ++step) {
    auto ws = words(r, 3);
    const auto &x = ws[0], &y = ws[1], &z = ws[2];
    int xy = c.compare(x, y, Level::TOTAL), yx = c.compare(y, x, Level::TOTAL),
        yz = c.compare(y, z, Level::TOTAL), xz = c.compare(x, z, Level::TOTAL);
    WANT(c.compare(x, x, Level::TOTAL) == 0, "differs from itself: " << x);
    WANT(xy != 0, "same position for " << x << " and " << y);
    WANT(sign(xy) == -sign(yx), "order depends on the side: " << x << " and "
                                                              << y);
    if (sign(xy) == sign(yz)) {
      WANT(sign(xz) == sign(xy), "order is not transitive: " << x << " and "
                                                             << y << " and "
                                                             << z);
      ev["chains"]++;
    }
    int finer = xy;
    for (Level l : {Level::IDENTICAL, Level::QUARTERNARY, Level::TERTIARY,
                    Level::SECONDARY, Level::PRIMARY}) {
      int v = c.compare(x, y, l);
      WANT(v == 0 || sign(v) == sign(finer),
           "levels disagree for " << x << " and " << y);
      if (v == 0 && finer != 0) ev["level" + std::to_string((int)l)]++;
      finer = v;
    }
    WANT(c(x, y, Level::TOTAL) == (xy < 0), "two answers for " << x << " and "
                                                               << y);
    ev["pairs"]++;
  }
}

template <class V>
void lookups(Rng& r, size_t& step, Events& ev, const V& v,
             const vector<string>& words, const vector<string>& all) {
  using Level = LocaleManager::Level;
  const auto& c = v.getCaseComparator();
  WANT(v.size() == words.size(), "size " << v.size());
  for (size_t i = 0; i < words.size(); ++i, ++step) {
    Id id = 1234567;
    WANT(v.at(i) == words[i], "word " << i << " is " << v.at(i) << " and not "
                                      << words[i]);
    WANT(v.getId(words[i], &id), "not found: " << words[i]);
    WANT(id == i, "wrong position for " << words[i]);
    ev["found"]++;
  }
  std::set<string> present(words.begin(), words.end());
  for (size_t i = 0; i < 40; ++i, ++step) {
    const auto& w = all[r(all.size())];
    Id id;
    bool is = present.count(w);
    WANT(v.getId(w, &id) == is, "lookup of " << w << " gives " << !is);
    if (!is) ev["missing"]++;
    for (Level l : {Level::PRIMARY, Level::TERTIARY, Level::QUARTERNARY,
                    Level::IDENTICAL, Level::TOTAL}) {
      size_t less = 0, notGreater = 0;
      for (const auto& x : words) {
        less += c.compare(x, w, l) < 0;
        notGreater += c.compare(x, w, l) <= 0;
      }
      WANT(v.lower_bound(w, l) == less, "lower bound of " << w << " on level "
                                                          << (int)l << ": "
                                                          << less);
      WANT(v.upper_bound(w, l) == notGreater, "upper bound of "
                                                  << w << " on level " << (int)l
                                                  << ": " << notGreater);
      ev["bounds"]++;
    }
  }
}

// Entities and literals.
void entities(Rng& r, size_t steps, const string& name, Events& ev) {
  size_t step = 0;
  while (step < steps) {
    auto loc = locale(r);
    TripleComponentComparator c(loc.lang, loc.country, loc.ignore);
    using Level = LocaleManager::Level;
    auto all = triplesWords(r, 2 + r(200));
    vector<string> words;
    for (const auto& w : all) {
      if (r.p(70)) words.push_back(w);
    }
    std::sort(words.begin(), words.end(), [&](const auto& x, const auto& y) {
      return c.compare(x, y, Level::TOTAL) < 0;
    });
    vector<string> prefixes;
    size_t n = r(12);
    for (size_t i = 0; i < n && !words.empty(); ++i) {
      const auto& w = words[r(words.size())];
      prefixes.push_back(w.substr(0, 1 + r(w.size())));
    }
    for (auto& p : prefixes) p = p.substr(0, p.find_first_of("\\\n"));
    RdfsVocabulary v;
    v.setLocale(loc.lang, loc.country, loc.ignore);
    v.initializePrefixes(prefixes);
    if (r.p(50)) {
      for (const auto& w : words) v.push_back(w);
    } else {
      string plain = name + ".words", compressed = name + ".compressed";
      {
        std::ofstream f(plain);
        for (const auto& w : words) {
          f << RdfEscaping::escapeNewlinesAndBackslashes(w) << '\n';
        }
      }
      RdfsVocabulary::prefixCompressFile(plain, compressed, prefixes);
      v.readFromFile(compressed, "");
      std::remove(plain.c_str());
      std::remove(compressed.c_str());
      ev["files"]++;
    }
    lookups(r, step, ev, v, words, all);
    ev["entities"]++;
  }
}

// Words of a text.
vector<string> textWords(Rng& r, size_t n) {
  vector<string> base;
  for (size_t i = 0; i < 1 + n / 3; ++i) {
    base.push_back(letters(r, 1 + r(5), 20));
  }
  std::set<string> res;
  while (res.size() < n) {
    string s = base[r(base.size())];
    if (r.p(60)) s += letters(r, 1 + r(2), 30);
    s.erase(std::remove(s.begin(), s.end(), '\n'), s.end());
    if (!s.empty()) res.insert(s);
  }
  vector<string> v(res.begin(), res.end());
  std::shuffle(v.begin(), v.end(), r.g);
  return v;
}

void text(Rng& r, size_t steps, const string& name, Events& ev) {
  size_t step = 0;
  while (step < steps) {
    auto loc = locale(r);
    auto all = textWords(r, 2 + r(200));
    ad_utility::HashSet<string> set;
    for (const auto& w : all) {
      if (r.p(70)) set.insert(w);
    }
    TextVocabulary v;
    v.setLocale(loc.lang, loc.country, loc.ignore);
    v.createFromSet(set);
    if (r.p(50)) {
      string file = name + ".text";
      v.writeToFile(file);
      TextVocabulary read;
      read.setLocale(loc.lang, loc.country, loc.ignore);
      read.readFromFile(file, "");
      v = read;
      std::remove(file.c_str());
      ev["files"]++;
    }
    vector<string> words;
    for (size_t i = 0; i < v.size(); ++i) words.push_back(v.at(i));
    auto sorted = words;
    std::sort(sorted.begin(), sorted.end());
    vector<string> want(set.begin(), set.end());
    std::sort(want.begin(), want.end());
    WANT(sorted == want, "other words than those given");
    lookups(r, step, ev, v, words, all);
    ev["texts"]++;
  }
}

// All words that begin with a prefix are next to each other.
void ranges(Rng& r, size_t steps, Events& ev) {
  size_t step = 0;
  static const string chars = "abcxyzABCXYZ0129";
  auto low = [](string s) {
    for (auto& ch : s) ch = std::tolower(ch);
    return s;
  };
  while (step < steps) {
    bool ignore = r.p(50);
    const char* lang = r.p(50) ? "en" : "de";
    const char* country = lang[0] == 'e' ? "US" : "DE";
    vector<string> stems{""};
    std::set<string> words;
    size_t n = 1 + r(150);
    while (words.size() < n) {
      string s = stems[r(stems.size())];
      size_t k = 1 + r(3);
      while (k--) s += chars[r(chars.size())];
      if (r.p(40)) stems.push_back(s);
      words.insert(s);
    }
    RdfsVocabulary v;
    TextVocabulary t;
    v.setLocale(lang, country, ignore);
    t.setLocale(lang, country, ignore);
    ad_utility::HashSet<string> set(words.begin(), words.end());
    t.createFromSet(set);
    vector<string> both;
    for (const auto& w : words) {
      if (r.p(70)) both.push_back(quoted(r, w));
      if (r.p(70)) both.push_back("<" + w + ">");
    }
    std::sort(both.begin(), both.end());
    both.erase(std::unique(both.begin(), both.end()), both.end());
    std::sort(both.begin(), both.end(), [&](const auto& x, const auto& y) {
      return v.getCaseComparator().compare(x, y,
                                           LocaleManager::Level::TOTAL) < 0;
    });
    for (const auto& w : both) v.push_back(w);
    for (size_t i = 0; i < 30; ++i, ++step) {
      string p = stems[r(stems.size())];
      if (r.p(40)) p += chars[r(chars.size())];
      if (p.empty()) continue;
      for (string q : {'"' + p, '<' + p}) {
        auto [from, to] = v.prefix_range(q);
        for (size_t k = 0; k < both.size(); ++k) {
          bool in = low(both[k].substr(0, q.size())) == low(q);
          WANT(in == (from <= k && k < to),
               "range of " << q << (in ? " without " : " with ") << both[k]);
        }
        ev["ranges"]++;
      }
      IdRange range;
      bool some = t.getIdRangeForFullTextPrefix(p + "*", &range), any = false;
      for (size_t k = 0; k < t.size(); ++k) {
        bool in = low(t.at(k).substr(0, p.size())) == low(p);
        any = any || in;
        WANT(in == (some && range._first <= k && k <= range._last),
             "range of " << p << "*" << (in ? " without " : " with ")
                         << t.at(k));
      }
      WANT(some == any, "range of " << p << "* exists: " << some);
      ev[any ? "textranges" : "emptyranges"]++;
    }
  }
}

// Literals which are kept on disk.
void external(Rng& r, size_t steps, const string& name, Events& ev) {
  size_t step = 0;
  while (step < steps) {
    auto loc = locale(r);
    TripleComponentComparator c(loc.lang, loc.country, loc.ignore);
    auto all = triplesWords(r, 2 + r(150));
    vector<string> inside, outside;
    RdfsVocabulary v;
    v.setLocale(loc.lang, loc.country, loc.ignore);
    vector<string> langs{"en"}, entities{"<http://a"};
    if (r.p(50)) langs.push_back("de");
    v.initializeInternalizedLangs(nlohmann::json(langs));
    v.initializeExternalizePrefixes(nlohmann::json(entities));
    v.initializePrefixes(vector<string>{"<http://", "\"a"});
    for (const auto& w : all) {
      bool lit = w[0] == '"';
      string lang = w.substr(w.rfind('"') == string::npos ? 0 : w.rfind('"'));
      lang = lit && lang.size() > 2 && lang[1] == '@' ? lang.substr(2) : "";
      bool out = lit ? lang != "" && std::find(langs.begin(), langs.end(),
                                               lang) == langs.end()
                     : w.compare(0, entities[0].size(), entities[0]) == 0;
      WANT(v.shouldBeExternalized(w) == out, "kept on disk: " << !out << " "
                                                              << w);
      if (r.p(70)) (out ? outside : inside).push_back(w);
    }
    auto before = [&](const auto& x, const auto& y) {
      return c.compare(x, y, LocaleManager::Level::TOTAL) < 0;
    };
    std::sort(inside.begin(), inside.end(), before);
    std::sort(outside.begin(), outside.end(), before);
    string lines = name + ".lines", disk = name + ".disk",
           words = name + ".words", compressed = name + ".compressed";
    {
      std::ofstream f(words), g(lines);
      for (const auto& w : inside) {
        f << RdfEscaping::escapeNewlinesAndBackslashes(w) << '\n';
      }
      for (const auto& w : outside) {
        g << RdfEscaping::escapeNewlinesAndBackslashes(w) << '\n';
      }
    }
    RdfsVocabulary builder;
    builder.setLocale(loc.lang, loc.country, loc.ignore);
    builder.externalizeLiteralsFromTextFile(lines, disk);
    RdfsVocabulary::prefixCompressFile(words, compressed,
                                       {"<http://", "\"a"});
    v.readFromFile(compressed, disk);
    std::set<string> present(inside.begin(), inside.end());
    present.insert(outside.begin(), outside.end());
    for (size_t i = 0; i < inside.size() + outside.size(); ++i, ++step) {
      const auto& w =
          i < inside.size() ? inside[i] : outside[i - inside.size()];
      auto s = v.idToOptionalString(i);
      WANT(s && *s == w, "word " << i << " is " << s.value_or("nothing")
                                 << " and not " << w);
      Id id = 0;
      WANT(v.getId(w, &id), "not found: " << w);
      WANT(id == i, "wrong position for " << w);
      ev[i < inside.size() ? "inside" : "outside"]++;
    }
    for (const auto& w : all) {
      // With nothing on disk, all words belong to the others.
      Id id = 0;
      bool is = present.count(w);
      WANT(v.getId(w, &id) == is, "lookup of " << w << " gives " << !is);
      if (!is) ev["missing"]++;
    }
    for (const auto& f : {lines, disk, words, compressed}) {
      std::remove(f.c_str());
    }
  }
}

int main(int, char** argv) {
  std::ofstream out(argv[1]);
  string kind;
  uint64_t seed;
  size_t steps;
  size_t job = 0;
  while (std::cin >> kind >> seed >> steps) {
    Rng r(seed);
    Events ev;
    string name = "job" + std::to_string(job++);
    try {
      if (kind == "order") {
        order<TripleComponentComparator>(r, steps, ev, triplesWords);
      } else if (kind == "textorder") {
        order<SimpleStringComparator>(r, steps, ev, textWords);
      } else if (kind == "entities") {
        entities(r, steps, name, ev);
      } else if (kind == "text") {
        text(r, steps, name, ev);
      } else if (kind == "ranges") {
        ranges(r, steps, ev);
      } else if (kind == "external") {
        external(r, steps, name, ev);
      }
      out << "ok";
      for (const auto& [k, v] : ev) out << "\t" << k << "=" << v;
      out << std::endl;
    } catch (const std::exception& e) {
      string s = e.what();
      for (auto& ch : s) {
        if (ch == '\n' || ch == '\t') ch = ' ';
      }
      out << "bad\t" << s << std::endl;
    }
  }
}
