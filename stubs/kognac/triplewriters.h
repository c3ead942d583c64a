#pragma once
#include <kognac/triple.h>
