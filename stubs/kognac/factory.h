#pragma once
#include <kognac/utils.h>
template<class T> class Factory { public: Factory(); T *get(); void release(T *); };
template<class T> class PreallocatedFactory { public: PreallocatedFactory(int, int); T *get(); void release(T *); };
template<class T> class PreallocatedArraysFactory { public: PreallocatedArraysFactory(int, int, int); T *get(); void release(T *); };
template<class T> class PreallocatedStratArraysFactory { public: PreallocatedStratArraysFactory(int, int, int, int, int); PreallocatedStratArraysFactory(int, int, int, int); PreallocatedStratArraysFactory(int, int, int); T *get(); void release(T *); };
