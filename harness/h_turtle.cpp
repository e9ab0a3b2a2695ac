// Parses Turtle files with different parsers and block sizes.
//
// Reads jobs "FILE OUT SIZES..." from stdin. The triples of FILE are written to
// OUT (terms ended by \x1f, triples ended by \x1e). Then the file is parsed
// again with the mmap parser, with the other tokenizer when the file name ends
// in ".ascii", and with blocks of each of the SIZES. All have to give the same
// triples. Writes one line per job to the file given as argument.
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>

#include "parser/Tokenizer.h"
#include "parser/TurtleParser.h"

using Triples = std::vector<std::array<std::string, 3>>;

template <class P>
Triples drain(P& p) {
  Triples res;
  std::array<std::string, 3> t;
  while (p.getLine(&t)) res.push_back(t);
  std::sort(res.begin(), res.end());
  return res;
}

template <class T>
Triples blocks(const std::string& file, size_t size) {
  TurtleStreamParser<T> p;
  p._bufferSize = size;
  p.initialize(file);
  return drain(p);
}

template <class T>
Triples mapped(const std::string& file) {
  TurtleMmapParser<T> p(file);
  return drain(p);
}

// The triples or the kind of the error.
template <class F>
std::string attempt(F f, Triples* res) {
  try {
    *res = f();
    return "";
  } catch (const std::exception& e) {
    res->clear();
    return std::string("error: ") + e.what();
  }
}

int main(int, char** argv) {
  std::ofstream results(argv[1]);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string file, out;
    in >> file >> out;
    bool ascii = file.size() > 6 && file.substr(file.size() - 6) == ".ascii";
    Triples first;
    std::string err = attempt(
        [&] { return blocks<Tokenizer>(file, size_t(10) << 20); }, &first);
    {
      std::ofstream o(out);
      for (const auto& t : first) {
        o << t[0] << '\x1f' << t[1] << '\x1f' << t[2] << '\x1f' << '\x1e';
      }
    }
    size_t runs = 1;
    std::string bad;
    auto compare = [&](auto f, const std::string& what) {
      Triples other;
      std::string e = attempt(f, &other);
      ++runs;
      if (bad.empty() && (e.empty() != err.empty() || other != first)) {
        bad = what + " gives " + std::to_string(other.size()) +
              " triples instead of " + std::to_string(first.size()) + " " + e;
      }
    };
    compare([&] { return mapped<Tokenizer>(file); }, "mmap");
    if (ascii) {
      compare([&] { return mapped<TokenizerCtre>(file); }, "mmap-ctre");
      compare([&] { return blocks<TokenizerCtre>(file, size_t(10) << 20); },
              "ctre");
    }
    size_t size;
    while (in >> size) {
      compare([&] { return blocks<Tokenizer>(file, size); },
              "block size " + std::to_string(size));
      if (ascii) {
        compare([&] { return blocks<TokenizerCtre>(file, size); },
                "ctre block size " + std::to_string(size));
      }
    }
    for (auto* s : {&bad, &err}) {
      for (char& c : *s) {
        if (c == '\n' || c == '\t') c = ' ';
      }
    }
    results << runs << "\t" << err << "\t" << bad << std::endl;
  }
}
