#pragma once
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <cstring>
#include <cstdint>
#include <memory>
#include <map>
#include <unordered_map>
#include <chrono>
#include <cassert>
#include <random>
#include <chrono>
using namespace std;
#include <iomanip>
#include <kognac/consts.h>
class Utils {
public:
    static bool exists(std::string); static bool isEmpty(std::string); static bool isDirectory(std::string); static bool isFile(std::string);
    static void create_directories(std::string); static void remove(std::string); static void remove_all(std::string); static void rename(std::string, std::string);
    static void copy(std::string, std::string); static void linkdir(std::string, std::string); static void rmlink(std::string);
    static std::vector<std::string> getFiles(std::string, bool ignoreExtension = false); static std::vector<std::string> getSubdirs(std::string);
    static std::vector<std::string> getFilesWithPrefix(std::string, std::string); static std::vector<std::string> getFilesWithSuffix(std::string, std::string);
    static uint64_t fileSize(std::string); static std::string filename(std::string); static std::string parentDir(std::string); static bool hasExtension(const std::string &, std::string ext = "");
    static std::string removeExtension(std::string); static std::string removeLastExtension(std::string);
    static void resizeFile(std::string, uint64_t);
    static bool starts_with(const std::string, const std::string); static bool ends_with(const std::string, const std::string);
    static bool contains(const std::string, const std::string);
    static int numBytes(int64_t); static int numBytes2(int64_t); static int numBytesFixedLength(int64_t);
    static int decode_int(const char *, int); static int decode_int(const char *); static int decode_intLE(char *, int);
    static int64_t decode_long(const char *, int); static int64_t decode_long(const char *);
    static int64_t decode_longFixedBytes(const char *, const uint8_t);
    static int16_t decode_short(const char *); static int16_t decode_short(const char *, int);
    static int64_t decode_vlong(char *, int *); static int64_t decode_vlong2(const char *, int *); static int64_t decode_vlongWithHeader0(char *, const int, int *); static int64_t decode_vlongWithHeader1(char *, const int, int *);
    static int decode_vint2(char *, int *);
    static void encode_int(char *, int, int); static void encode_int(char *, int); static void encode_intLE(char *, int, int);
    static void encode_long(char *, int, int64_t); static void encode_long(char *, int64_t); static void encode_longNBytes(char *, const uint8_t, const uint64_t);
    static void encode_short(char *, int, int); static void encode_short(char *, int);
    static uint16_t encode_vlong(char *, int64_t); static int encode_vlong(char *, int, int64_t); static uint16_t encode_vlong2(char *, uint64_t); static int encode_vlong2(char *, int, uint64_t);
    static int encode_vint2(char *, int, int); static void encode_vlong2_fixedLen(char *, int64_t, const uint8_t);
    static uint64_t getSystemMemory(); static uint64_t getUsedMemory(); static int64_t get_max_mem(); static int getNumberPhysicalCores(); static int64_t getIOReadChars(); static int64_t getIOReadBytes(); static int64_t getCPUCounter();
    static int commonPrefix(const char *, int, int, const char *, int, int);
    static bool prefixEquals(char *, int, char *, int); static bool prefixEquals(char *, int, const char *, int); static bool prefixEquals(char *, int, char *);
    static int64_t quickSelect(int64_t *, int, int);
};
