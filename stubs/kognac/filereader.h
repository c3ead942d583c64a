#pragma once
#include <kognac/utils.h>
struct FileInfo { std::string path; uint64_t size, start; bool splittable; };
class FileReader { public: FileReader(FileInfo); FileReader(char *, size_t, bool); bool parseTriple(); bool isTripleValid(); const char *getCurrentS(int &); const char *getCurrentP(int &); const char *getCurrentO(int &); };
