#pragma once
#include <cstdint>
#include <string>
#define MAX_TERM_SIZE 2048000
#define MAX_N_PATTERNS 10
typedef char tTerm;
typedef int64_t nTerm;
#define DIR_SEP '/'
#define CDIR_SEP '/'
#define DDLEXPORT
#define KLIBEXP
