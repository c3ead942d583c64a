#pragma once
#include <kognac/utils.h>
class StringCollection { public: StringCollection(int); const char *addNew(const char *, int); void clear(); ~StringCollection(); };
