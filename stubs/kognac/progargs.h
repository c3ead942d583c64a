#pragma once
#include <kognac/utils.h>
class ProgramArgs { public: struct P { template<class T> T as() const; }; P operator[](std::string) const; bool count(std::string); };
