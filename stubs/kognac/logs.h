// Declarations only, standing in for KOGNAC's (not available here), so that the sources can be type-checked and analysed.
#pragma once
#include <iostream>
#include <string>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <chrono>
#include <kognac/utils.h>
#define TRACEL 0
#define DEBUGL 1
#define INFOL 2
#define WARNL 3
#define ERRORL 4
struct VpLog { template<class T> VpLog &operator<<(const T &) { return *this; } static int getMinLevel(); };
struct Logger { static void setMinLevel(int); static int getMinLevel(); static void logToFile(std::string); };
#define LOG(level) if (true) {} else VpLog()
