#pragma once
#include <kognac/utils.h>
#include <kognac/lz4io.h>
struct Triple { int64_t s, p, o, count; Triple(); Triple(int64_t, int64_t, int64_t); void readFrom(LZ4Reader *); void writeTo(LZ4Writer *); bool less(const Triple &) const; };
class TripleWriter { public: virtual void write(const int64_t, const int64_t, const int64_t) = 0; virtual void write(const int64_t, const int64_t, const int64_t, const int64_t) = 0; virtual ~TripleWriter(); };
class SimpleTripleWriter : public TripleWriter { public: SimpleTripleWriter(std::string, std::string, bool); void write(const int64_t, const int64_t, const int64_t); void write(const int64_t, const int64_t, const int64_t, const int64_t); ~SimpleTripleWriter(); };
