#pragma once
#include <iostream>
#include <string>
namespace zstr {
struct istream : std::istream { istream(std::istream &); };
struct ostream : std::ostream { ostream(std::ostream &); };
struct ifstream : std::istream { ifstream(const std::string &, std::ios_base::openmode m = std::ios_base::in); };
struct ofstream : std::ostream { ofstream(const std::string &, std::ios_base::openmode m = std::ios_base::out); };
}
