#pragma once
#include <kognac/utils.h>
