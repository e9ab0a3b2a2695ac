"""Which code decides which property."""
REF = ["the reference evaluator in vf/sparql.py states the intended answer",
       "only executions produced by this run are judged"]

CHECKS = {
    "Q01": dict(
        module="q_query", fn="q01", level="exploration",
        rule="random KBs indexed and served by an ASan+UBSan build; random "
             "conjunctive queries (chains, stars, cycles, self loops, "
             "variable predicates); a case is non-trivial when the expected "
             "answer has at least one row",
        assumptions=REF),
    "Q02": dict(
        module="q_query", fn="q02", level="exploration",
        rule="random nested graph patterns with OPTIONAL, UNION, MINUS, "
             "VALUES, BIND and subqueries; non-trivial when the expected "
             "answer has at least one row",
        assumptions=REF),
    "Q03": dict(
        module="q_query", fn="q03", level="exploration",
        rule="random filters (all comparison operators against numbers, "
             "dates, entities, strings and other variables; regex with and "
             "without case and prefix form; language) on sorted and unsorted "
             "columns; non-trivial when the expected answer has a row",
        assumptions=REF),
    "Q04": dict(
        module="q_query", fn="q04", level="exploration",
        rule="random GROUP BY / HAVING / DISTINCT queries with all "
             "aggregates over random patterns; non-trivial when the expected "
             "answer has a row",
        assumptions=REF),
    "Q05": dict(
        module="q_query", fn="q05", level="exploration",
        rule="random ORDER BY / LIMIT / OFFSET queries; the rows sent must be "
             "the demanded slice in key order; JSON, CSV and TSV are "
             "compared; non-trivial when the expected answer has a row",
        assumptions=REF),
    "Q06": dict(
        module="q_query", fn="q06", level="exploration",
        rule="random property paths on random graphs with cycles, alone and "
             "joined with other patterns; non-trivial when the expected "
             "answer has a row",
        assumptions=REF),
    "Q07": dict(
        module="q_query", fn="q07", level="exploration",
        rule="random queries with the built-in has-predicate relation, alone, "
             "joined with other patterns and in predicate counting queries, "
             "with and without the pattern trick, and the algorithms on random "
             "pattern tables; non-trivial when the expected answer has a row",
        assumptions=REF),
    "Q08": dict(
        module="q_text", fn="q08", level="exploration",
        rule="random text collections over random KBs; random text patterns "
             "(words, prefixes, entities, several entity variables) alone, "
             "with TEXTLIMIT, and combined with all other patterns, and the "
             "list algorithms on random postings; "
             "non-trivial when the expected answer has a row",
        assumptions=REF + ["which of equally scored records TEXTLIMIT keeps "
                           "is left open"]),
    "Q09": dict(
        module="q_index", fn="q09", level="exploration",
        rule="random RDF data with awkward terms indexed from every input "
             "format under random builder settings, then read back through "
             "all permutations; non-trivial when the expected answer has a "
             "row",
        assumptions=REF),
    "Q10": dict(
        module="q_values", fn="q10", level="exploration",
        rule="random numbers (all numeric types, signs, exponents, leading "
             "zeros, up to 30 digits) and dates (negative and long years, "
             "times) indexed and sorted, summed, compared in filters and "
             "shown; non-trivial when the answer has a row",
        assumptions=["the order of equal values of different types is left "
                     "open", "only executions produced by this run are "
                     "judged"]),
    "Q11": dict(
        module="q_parse", fn="q11", level="exploration",
        rule="random Turtle documents in varied surface forms, parsed by the "
             "real parsers (both tokenizers, mapped and in blocks of many "
             "sizes) and indexed; the triples are compared with those the "
             "document was generated from; damaged documents must not crash "
             "the parser; every document with a triple counts",
        assumptions=["collections and base IRIs are not supported and left "
                     "out", "only executions produced by this run are "
                     "judged"]),
    "Q13": dict(
        module="q_cache", fn="q13", level="exploration",
        rule="histories of queries from families of near-identical queries "
             "with pinning and clearing between them, on servers with "
             "different cache limits; every answer is compared with the "
             "reference, the cache statistics with the limits, and single "
             "scans with an exact model of the kept results; non-trivial "
             "when the answer has a row",
        assumptions=REF),
    "Q14": dict(
        module="q_conc", fn="q14", level="exploration",
        rule="rounds of requests sent by several clients at once (also all "
             "the same request at the same moment, and with pinning and "
             "clearing in between) to a server under the thread sanitizer; "
             "every answer is compared with the reference and every data "
             "race is reported; distinct = different pairs of answer and "
             "order of all starts and ends",
        assumptions=REF),
    "Q15": dict(
        module="q_limits", fn="q15", level="fault_enumeration",
        rule="random queries executed again and again with random limits of "
             "memory and time (so that they fail at varying allocations and "
             "checks), with cleared and kept caches, and by several clients "
             "at once; completed answers are compared, memory has to be "
             "counted and given back, errors have to name the limit; "
             "distinct = different pairs of query and limit",
        assumptions=REF + ["a request may fail when it waited for the same "
                           "result of a request that hit its limit"]),
    "Q16": dict(
        module="q_robust", fn="q16", level="exploration",
        rule="queries damaged by random edits and malformed requests sent to "
             "servers (also with the plain C locale); every one must be "
             "answered (well-formed JSON with a status) or the connection "
             "closed, no file but the public ones may be sent, and good "
             "queries in between must keep their answers; every different "
             "request counts",
        assumptions=REF),
    "Q12": dict(
        module="q_vocab", fn="q12", level="exploration",
        rule="random vocabularies of entities, literals and words of texts "
             "in several locales (accents, case, ignored characters, "
             "languages, compressed prefixes, words kept on disk), looked up "
             "next to plain lists, under ASan and UBSan; every sequence "
             "(kind and seed) counts",
        assumptions=["the models in harness/h_vocab.cpp",
                     "the order of single characters is that of ICU"]),
    "Q17": dict(
        module="q_store", fn="q17", level="exploration",
        rule="random sequences of operations on memory-mapped and buffered "
             "vectors, integer codes, result tables, packed lists, prefix "
             "selection, priority queues and the cache, next to simple "
             "models, under ASan and UBSan; every sequence (kind and seed) "
             "counts",
        assumptions=["the models in harness/h_store.cpp"]),
    "Q21": dict(
        module="q_rebuild", fn="q21", level="exploration",
        rule="indices built over other indices and over the remains of "
             "builds killed at random moments, next to other indices, with "
             "texts added later and with the format left to the builder, "
             "then read back; every comparison and every kind of remains "
             "counts",
        assumptions=REF),
    "Q19": dict(
        module="q_syntax", fn="q19", level="exploration",
        rule="random queries written down in varied ways (layout, comments, "
             "case of keywords, prefixes, lists of predicates and objects, "
             "names of variables, quotes, parentheses); non-trivial when the "
             "expected answer has a row",
        assumptions=REF),
    "Q20": dict(
        module="q_tools", fn="q20", level="exploration",
        rule="random queries answered by the command-line query program from "
             "a file and interactively, data sets converted by the parser "
             "program in its formats and with both tokenizers, and indexes "
             "whose patterns were added afterwards; non-trivial when the "
             "expected answer has a row",
        assumptions=REF),
    "Q18": dict(
        module="q_par", fn="q18", level="exploration",
        rule="the shared result cache, batch pipelines, locked objects, the "
             "limited allocator, file buffers and random numbers used by "
             "several threads with random delays, failures and clears, under "
             "ASan/UBSan and again under TSan; the history of calls is "
             "checked afterwards; every job (kind, seed, sanitizer) counts",
        assumptions=["the history rules in harness/h_par.cpp",
                     "interleavings are sampled, not enumerated"]),
}

# Properties without a check: {id: reason}.
NOT_APPLICABLE = {}
