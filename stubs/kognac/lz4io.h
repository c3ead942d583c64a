#pragma once
#include <kognac/utils.h>
#include <lz4.h>
class LZ4Writer { public: LZ4Writer(std::string); void setByte(unsigned char); void writeByte(char); void writeLong(int64_t); void writeVLong(int64_t); void writeRawArray(const char *, int); void writeString(const char *, int); void writeShort(short); ~LZ4Writer(); };
class LZ4Reader { public: LZ4Reader(std::string); int64_t parseLong(); int64_t parseVLong(); int parseInt(); char parseByte(); short parseShort(); const char *parseString(int &); bool isEof(); ~LZ4Reader(); };
