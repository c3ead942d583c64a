// Instantiates the table templates with abstract readers: three different sizes, the content is opaque.
#include <cstddef>
#include <trident/binarytables/newrowtable.h>
#include <trident/binarytables/newclustertable.h>
#include <trident/binarytables/binarytablereaders.h>
struct RA { static char size() { return 3; } static uint64_t read(const char *p); };
struct RB { static char size() { return 7; } static uint64_t read(const char *p); };
struct RC { static char size() { return 2; } static uint64_t read(const char *p); };
typedef NewRowTable<RA, RB> RowT;
typedef NewClusterTable<RA, RB, RC> CluT;
template class NewRowTable<RA, RB>;
template class NewClusterTable<RA, RB, RC>;
uint64_t rd1(const char *p) { return ByteReader::read(p); }
uint64_t rd2(const char *p) { return ShortReader::read(p); }
uint64_t rd4(const char *p) { return IntReader::read(p); }
uint64_t rd5(const char *p) { return LongIntReader::read(p); }
uint64_t rd8(const char *p) { return LongReader::read(p); }
int sz1() { return ByteReader::size(); }
int sz2() { return ShortReader::size(); }
int sz4() { return IntReader::size(); }
int sz5() { return LongIntReader::size(); }
int sz8() { return LongReader::size(); }
