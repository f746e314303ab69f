/* prints the reference digests so that the driver compares them with hashlib */
#define MC_NO_MAIN
#include "sha.cc"
int main()
{
    for (int bits : {224, 256}) for (int pat = 0; pat < 4; pat++) for (size_t n = 0; n <= 300; n++)
        printf("%d %s %s\n", bits, mc::hex(msg(pat, n).data(), n).c_str(), ref(bits, msg(pat, n)).c_str());
}
