#pragma once
#include <kognac/lz4io.h>
class DiskLZ4Reader { public: DiskLZ4Reader(std::string, int, int); bool isEof(int); int64_t readLong(int); int64_t readVLong(int); char readByte(int); int readInt(int); short readShort(int); const char *readString(int, int &); ~DiskLZ4Reader(); };
class MultiDiskLZ4Reader : public DiskLZ4Reader { public: MultiDiskLZ4Reader(int, int, int); void addInput(int, std::vector<std::string> &); void start(); void stop(); ~MultiDiskLZ4Reader(); };
