#pragma once
#include <kognac/lz4io.h>
class DiskLZ4Writer { public: DiskLZ4Writer(std::string, int, int); void setBasePath(std::string); void writeByte(int, char); void writeLong(int, int64_t); void writeVLong(int, int64_t); void writeRawArray(int, const char *, int); void writeString(int, const char *, int); void writeShort(int, short); void setTerminated(int); ~DiskLZ4Writer(); };
class MultiDiskLZ4Writer : public DiskLZ4Writer { public: MultiDiskLZ4Writer(std::vector<std::string>, int, int); ~MultiDiskLZ4Writer(); };
