// Minimal use of the library: tells a broken header from a broken program.
#include "zpp_bits.h"
#include <string>
#include <vector>
int main()
{
    auto [data, in, out] = zpp::bits::data_in_out();
    std::vector<int> v{1, 2, 3}, w;
    std::string s = "x", t;
    if (zpp::bits::failure(out(v, s, zpp::bits::varint{7}))) return 1;
    zpp::bits::varint<int> i;
    if (zpp::bits::failure(in(w, t, i))) return 1;
    return !(v == w && s == t && i == 7);
}
